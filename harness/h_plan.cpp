// P01: the poll scheduler against an independent reference, for every sequence of operations up to a depth
#include "mc.h"
#include "poll_plan.h"
#include <algorithm>
#include <optional>
#include <vector>

using namespace std::chrono;
using ms = milliseconds;
using tp = steady_clock::time_point;

namespace
{
    struct RefItem
    {
        int entry;
        int64_t deadline; // us
    };

    struct Ref
    {
        std::vector<RefItem> q[2]; // 0 - high, 1 - low
        int64_t total = 0;         // ms
        int64_t lag;               // ms
        explicit Ref(int64_t l): lag(l)
        {}

        // entries with equal deadlines are ordered: "less" of the comparator goes later
        int first(int p) const
        {
            int best = -1;
            for (int i = 0; i < (int)q[p].size(); ++i) {
                if (best < 0 || q[p][i].deadline < q[p][best].deadline ||
                    (q[p][i].deadline == q[p][best].deadline && q[p][i].entry > q[p][best].entry))
                {
                    best = i;
                }
            }
            return best;
        }
        int64_t deadline(int p) const
        {
            int f = first(p);
            return f < 0 ? INT64_MAX : q[p][f].deadline;
        }
    };

    struct Offer
    {
        int entry;
        bool force;
        int64_t limit;
        bool operator==(const Offer& o) const
        {
            return entry == o.entry && force == o.force && limit == o.limit;
        }
    };

    std::string show(const std::vector<Offer>& v)
    {
        std::string s = "[";
        for (auto& o: v) {
            s += mc::str("(", o.entry, o.force ? " force " : " ", o.limit == INT64_MAX ? -1 : o.limit, ")");
        }
        return s + "]";
    }

    struct Acc
    {
        int accept; // how many are accepted
        std::vector<Offer> offers;
        bool operator()(const int& e, TItemAccumulationPolicy p, ms limit)
        {
            offers.push_back(
                {e, p == TItemAccumulationPolicy::Force, limit == ms::max() ? INT64_MAX : (int64_t)limit.count()});
            return accept-- > 0;
        }
    };

    int64_t us(tp t)
    {
        return t == tp::max() ? INT64_MAX : duration_cast<microseconds>(t.time_since_epoch()).count();
    }

    tp at(int64_t u)
    {
        return tp(microseconds(u));
    }

    void schedulerBody(int depth)
    {
        const int64_t LAG = 100;
        TScheduler<int> s{ms(LAG)};
        Ref r(LAG);
        int64_t now = 1000000;
        std::string log;
        const int64_t offs[] = {0, -1000, 500, 60000};
        for (int step = 0; step < depth; ++step) {
            std::vector<std::string> ops;
            int op = mc::choose(6, "op");
            mc::transition();
            switch (op) {
                case 0: {
                    // the lowest absent entry of 4 is added: entries are symmetric up to comparator order
                    int e = mc::choose(3, "entry");
                    int p = mc::choose(2, "priority");
                    int64_t d = now + offs[mc::choose(4, "deadline")];
                    bool present = false;
                    for (auto& q: r.q) {
                        for (auto& i: q) {
                            present |= i.entry == e;
                        }
                    }
                    if (present) {
                        return;
                    }
                    s.AddEntry(e, at(d), p ? TPriority::Low : TPriority::High);
                    r.q[p].push_back({e, d});
                    log += mc::str(" add(", e, p ? " low " : " high ", d - now, ")");
                    break;
                }
                case 1: {
                    int64_t d[] = {1, 500, 60000};
                    now += d[mc::choose(3, "advance")];
                    break;
                }
                case 2: {
                    // select
                    bool all = !mc::choose(2, "policy");
                    Acc acc{mc::choose(3, "accept"), {}};
                    int accept = acc.accept;
                    s.AccumulateNext(at(now), acc, all ? TItemSelectionPolicy::All : TItemSelectionPolicy::OnlyHighPriority);
                    // Reference
                    std::vector<Offer> exp;
                    bool highReady = r.deadline(0) <= now;
                    bool lowReady = r.deadline(1) <= now;
                    bool balance = all && (r.total >= r.lag || r.q[0].empty());
                    int p = -1;
                    if (highReady && !(balance && lowReady)) {
                        p = 0;
                    } else if (lowReady && all) {
                        p = 1;
                    }
                    if (p >= 0) {
                        int64_t limit = INT64_MAX;
                        if (p == 1 && !r.q[0].empty()) {
                            int64_t left = r.deadline(0) - now;
                            limit = left > 0 ? (left + 999) / 1000 : std::max<int64_t>(0, r.total - r.lag);
                        }
                        bool firstItem = true;
                        while (r.deadline(p) <= now) {
                            int f = r.first(p);
                            exp.push_back({r.q[p][f].entry, firstItem && (p == 0 || balance), limit});
                            firstItem = false;
                            if (accept-- <= 0) {
                                break;
                            }
                            r.q[p].erase(r.q[p].begin() + f);
                        }
                        mc::cover(p ? "low selected" : "high selected");
                        if (p && highReady) {
                            mc::cover("low selected to balance load");
                        }
                        mc::nontrivial();
                    }
                    log += mc::str(" select@", now);
                    MC_CHECK(acc.offers == exp,
                             "selection",
                             "scheduler offers ",
                             show(acc.offers),
                             " instead of ",
                             show(exp),
                             " after",
                             log);
                    break;
                }
                case 3: {
                    int64_t d[] = {40, 100, 500};
                    int64_t v = d[mc::choose(3, "spent")];
                    bool high = !mc::choose(2, "priority");
                    s.UpdateSelectionTime(ms(v), high ? TPriority::High : TPriority::Low);
                    r.total += high ? v : -v;
                    r.total = std::max(-2 * r.lag, std::min(2 * r.lag, r.total));
                    log += mc::str(high ? " high+" : " low+", v);
                    break;
                }
                case 4: {
                    int e = mc::choose(3, "remove");
                    s.Remove(e);
                    for (auto& q: r.q) {
                        q.erase(std::remove_if(q.begin(), q.end(), [&](auto& i) { return i.entry == e; }), q.end());
                    }
                    log += mc::str(" remove(", e, ")");
                    break;
                }
                case 5:
                    s.ResetLoadBalancing();
                    r.total = 0;
                    break;
            }
            // Observable state
            MC_CHECK(us(s.GetHighPriorityDeadline()) == r.deadline(0), "high-deadline", "wrong high priority deadline after", log);
            MC_CHECK(us(s.GetLowPriorityDeadline()) == r.deadline(1), "low-deadline", "wrong low priority deadline after", log);
            MC_CHECK(us(s.GetDeadline()) == std::min(r.deadline(0), r.deadline(1)), "deadline", "wrong deadline after", log);
            MC_CHECK(s.IsEmpty() == (r.q[0].empty() && r.q[1].empty()), "empty", "IsEmpty is wrong after", log);
            MC_CHECK(s.GetTotalTime().count() == r.total, "total-time", "balance is ", s.GetTotalTime().count(), " instead of ", r.total, " after", log);
            uint64_t h = mc::mix(0, r.total);
            for (int p = 0; p < 2; ++p) {
                std::vector<uint64_t> v;
                for (auto& i: r.q[p]) {
                    // only the relation to the current time matters
                    v.push_back(i.entry * 10000000ull + (uint64_t)(i.deadline - now + 1000000));
                }
                std::sort(v.begin(), v.end());
                h = mc::mix(h, mc::hashBytes(v));
            }
            for (int e = 0; e < 3; ++e) {
                bool has = false;
                for (auto& q: r.q) {
                    for (auto& i: q) {
                        has |= i.entry == e;
                    }
                }
                MC_CHECK(s.Contains(e) == has, "contains", "Contains(", e, ") is wrong after", log);
            }
            if (mc::seen(mc::mix(h, step))) {
                return;
            }
        }
    }

    // Any order of insertion of n entries with distinct deadlines, any removals in between: the rest is handed out in
    // the order of deadlines. Queues this long can lose the heap order when an entry is removed from the middle.
    void removalBody(int n)
    {
        TScheduler<int> s{ms(100)};
        std::vector<int> rest;
        std::vector<int> in;
        for (int i = 0; i < n; ++i) {
            rest.push_back(i);
        }
        std::string log;
        bool low = mc::choose(2, "priority");
        bool removed = false;
        for (int i = 0; i < n; ++i) {
            int k = mc::choose(rest.size(), "deadline");
            int e = rest[k];
            rest.erase(rest.begin() + k);
            s.AddEntry(e, at(1000 + e), low ? TPriority::Low : TPriority::High);
            in.push_back(e);
            log += mc::str(" add ", e);
            int r = mc::deviate(1 + in.size(), "remove");
            mc::transition();
            if (r) {
                e = in[r - 1];
                in.erase(in.begin() + r - 1);
                s.Remove(e);
                removed = true;
                log += mc::str(" remove ", e);
            }
        }
        if (removed) {
            mc::cover("removed");
            mc::nontrivial();
        }
        std::sort(in.begin(), in.end());
        for (int e: in) {
            MC_CHECK(us(s.GetDeadline()) == 1000 + e, "order", "deadline ", us(s.GetDeadline()) - 1000, " is first instead of ", e, " after", log);
            Acc acc{1, {}};
            s.AccumulateNext(at(1000 + e), acc, TItemSelectionPolicy::All);
            MC_CHECK(!acc.offers.empty() && acc.offers[0].entry == e, "order", "entry ", e, " is not offered first after", log);
        }
        MC_CHECK(s.IsEmpty(), "order", "something is left after", log);
        mc::state(mc::hashBytes(in));
    }

    void rateBody(int depth)
    {
        int limit = mc::choose(4, "limit");
        TRateLimiter l(limit);
        int64_t start = 0;
        int64_t count = 0;
        int64_t now = mc::choose(2, "start") ? 10000000 : 10300000;
        bool any = false;
        for (int i = 0; i < depth; ++i) {
            mc::transition();
            int op = mc::choose(5, "op");
            const int64_t adv[] = {1, 400000, 699999, 1000000};
            if (op == 0) {
                l.NewItem(at(now));
                if (any && now - start <= 1000000) {
                    ++count;
                } else {
                    any = true;
                    count = 1;
                    start = now / 1000000 * 1000000;
                }
            } else {
                now += adv[op - 1];
            }
            // More than `limit` items may not be taken in a window without being noticed, and the limit is lifted
            // when the window is over
            bool over = limit && any && now - start <= 1000000 && count > limit;
            if (over) {
                mc::cover("over limit");
                mc::nontrivial();
            }
            MC_CHECK(l.IsOverLimit(at(now)) == over, "rate-limit", "rate limiter with limit ", limit, " says ", !over, " after ", count, " items, ", now - start, " us after the start of the window");
            mc::state(mc::mix(mc::mix(limit, count), now - start));
        }
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    int d = mc::thorough() ? 7 : 6;
    mc::explore({.name = "scheduler",
                 .seconds = 250,
                 .mustCover = {"low selected", "high selected", "low selected to balance load"}},
                [&] { schedulerBody(d); });
    mc::explore({.name = "removal", .bound = mc::thorough() ? 2 : 1, .seconds = 100, .mustCover = {"removed"}},
                [&] { removalBody(mc::thorough() ? 8 : 7); });
    mc::explore({.name = "rate-limiter", .seconds = 60, .mustCover = {"over limit"}}, [&] { rateBody(mc::thorough() ? 11 : 9); });
    return mc::finish();
}
