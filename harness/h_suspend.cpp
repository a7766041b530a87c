// P05: suspension of polling
#include "sim.h"
using namespace sim;

namespace
{
    enum Op
    {
        SUSPEND,
        RESUME,
        TOGGLE_DEVICE,
        TOGGLE_PORT,
        WRITE,
        OTHER, // suspend or resume the other device
        LONG,  // nothing for more than 10 minutes
        OPS
    };
    const char* NAMES[] = {"suspend", "resume", "device off/on", "port off/on", "write", "other", "long pause"};

    void suspend(int depth)
    {
        static const char* LIMITS[] = {"", ",\"device_timeout_ms\":0,\"device_max_fail_cycles\":1", ",\"device_timeout_ms\":-1"};
        int limits = mc::choose(3, "limits");
        bool inWait = mc::choose(2, "in the pause of the port thread");
        World w;
        w.config->OpenCloseSettings.MaxFailTime = milliseconds(1000);
        w.config->OpenCloseSettings.ReopenTimeout = milliseconds(1000);
        auto& s1 = w.net.add(1);
        s1.regs[3] = {{10, 1}, {11, 2}, {12, 3}, {20, 0}, {40, 0}};
        auto& s2 = w.net.add(2);
        s2.regs[3] = {{10, 5}};
        auto& s3 = w.net.add(3);
        s3.regs[3] = {{10, 5}};
        auto d1 = w.device(json(mc::str(R"({"slave_id":"1","protocol":"modbus","response_timeout_ms":50,"setup":[{"title":"s","address":40,"value":1}])", LIMITS[limits], R"(,"channels":[
            {"name":"A","reg_type":"holding","address":10,"read_rate_limit_ms":900},
            {"name":"B","reg_type":"holding","address":12,"read_period_ms":700},
            {"name":"C","reg_type":"holding","address":20,"read_rate_limit_ms":800}]})")));
        auto d2 = w.device(json(R"({"slave_id":"2","protocol":"modbus","response_timeout_ms":50,"channels":[{"name":"A","reg_type":"holding","address":10,"read_rate_limit_ms":1000}]})"));
        auto d3 = w.device(json(R"({"slave_id":"3","protocol":"modbus","response_timeout_ms":50,"channels":[{"name":"A","reg_type":"holding","address":10,"read_rate_limit_ms":1000}]})"));

        // Model: spans of suspension
        struct Model
        {
            bool suspended = false;
            int64_t until = 0; // the latest moment of the end
        };
        std::map<int, Model> m;
        struct Mark
        {
            int64_t t;
            size_t accesses;
            int device;
            bool suspended;
            int64_t until;
        };
        std::vector<Mark> marks;
        bool portOk = true;
        struct Todo
        {
            int64_t t;
            int op;
        };
        std::deque<Todo> todo;
        int64_t t = 2500 * MS, longs = 0;
        std::string text;
        std::vector<std::pair<int64_t, bool>> portChanges{{0, true}}, devChanges{{0, true}};
        for (int i = 0; i < depth; ++i) {
            int op = mc::choose(longs ? OPS - 1 : OPS, "operation");
            if (op == LONG) {
                ++longs;
                t += 601 * SEC;
                text += "long pause, ";
                continue;
            }
            static const int64_t steps[] = {60, 3700, 0};
            t += steps[mc::choose(i ? 3 : 2, "ms")] * MS;
            todo.push_back({t, op});
            text += mc::str(NAMES[op], " at ", t / MS, ", ");
        }
        bool disc1 = true;
        w.mqtt->OnPublish = [&](const WBMQTT::TPublication& p) {
            if (p.Device == "dev1" && p.Control.empty() && p.HasError) {
                disc1 = !p.Error.empty();
            }
        };
        int values = 0;
        // the port thread needs a moment to show it
        int64_t shouldBeDisconnected = INT64_MAX;
        auto exec = [&](int op) {
            auto& c = *w.client();
            auto sus = [&](PSerialDevice d, int id, bool on) {
                auto& x = m[id];
                bool was = x.suspended && vclock::now < x.until;
                bool atEdge = x.suspended && !was; // the port thread has not noticed yet or has
                bool thrown = false;
                try {
                    if (on) {
                        c.SuspendPoll(d, vclock::tp());
                    } else {
                        c.ResumePoll(d);
                    }
                } catch (const std::exception&) {
                    thrown = true;
                }
                if (on) {
                    MC_CHECK(!thrown, "suspend-error", text, "polling can't be suspended");
                    x.suspended = true;
                    x.until = vclock::now + 600 * SEC;
                    if (id == 1) {
                        shouldBeDisconnected = vclock::now + SEC;
                    }
                } else {
                    if (!atEdge) {
                        MC_CHECK(thrown == !was, "resume-error", text, "resuming of a device which is", was ? "" : "n't", " suspended ", thrown ? "fails" : "is accepted");
                    }
                    x.suspended = false;
                    if (id == 1) {
                        shouldBeDisconnected = INT64_MAX;
                    }
                }
                marks.push_back({vclock::now - w.start, w.net.log.size(), id, x.suspended, x.until});
            };
            switch (op) {
                case SUSPEND:
                    sus(d1, 1, true);
                    break;
                case RESUME:
                    sus(d1, 1, false);
                    break;
                case OTHER:
                    sus(d2, 2, !(m[2].suspended && vclock::now < m[2].until));
                    break;
                case TOGGLE_DEVICE:
                    s1.online = !s1.online;
                    devChanges.push_back({w.now(), s1.online});
                    break;
                case TOGGLE_PORT:
                    portOk = !portOk;
                    w.bus->canWrite = w.bus->canOpen = [&portOk] { return portOk; };
                    portChanges.push_back({w.now(), portOk});
                    break;
                case WRITE:
                    w.command(1, "C", std::to_string(++values));
                    break;
            }
        };
        w.onWait = [&] {
            while (inWait && !todo.empty() && todo.front().t <= w.now()) {
                auto x = todo.front();
                todo.pop_front();
                exec(x.op);
            }
        };
        w.begin();
        auto run = [&](int64_t to) {
            while (w.now() < to) {
                if (!inWait) {
                    while (!todo.empty() && todo.front().t <= w.now()) {
                        auto x = todo.front();
                        todo.pop_front();
                        exec(x.op);
                    }
                }
                w.runTo(w.now() + 1);
                if (vclock::now > shouldBeDisconnected) {
                    MC_CHECK(disc1, "not-disconnected", text, "a suspended device isn't shown as disconnected");
                    shouldBeDisconnected = INT64_MAX;
                }
            }
        };
        run(t + 2 * SEC);
        // everything is repaired at the end
        if (!portOk) {
            exec(TOGGLE_PORT);
        }
        if (!s1.online) {
            exec(TOGGLE_DEVICE);
        }
        auto repaired = w.now();
        int64_t endT = repaired + 25 * SEC;
        run(endT);
        w.trace();
        if (mc::tracing()) {
            mc::note(text);
            for (auto& k: marks) {
                mc::note(mc::str("device ", k.device, k.suspended ? " suspended" : " resumed", " at ", k.t / MS, " after access ", k.accesses));
            }
        }

        // Oracle
        auto healthy = [&](int dev, int64_t from, int64_t to) {
            for (auto* l: {&portChanges, dev == 1 ? &devChanges : &portChanges}) {
                bool st = true;
                for (size_t i = 0; i < l->size(); ++i) {
                    st = (*l)[i].second;
                    auto b = (*l)[i].first, e = i + 1 < l->size() ? (*l)[i + 1].first : INT64_MAX;
                    // it takes up to 12 s to notice that it is back
                    if (!st && from < e + 12 * SEC && to > b) {
                        return false;
                    }
                }
            }
            return true;
        };
        for (int dev = 1; dev <= 3; ++dev) {
            bool susp = false;
            int64_t until = 0;
            size_t mk = 0;
            int64_t prevA = 0, resumedAt = 0;
            std::map<int, int64_t> last;
            bool needSetup = false;
            auto& log = w.net.log;
            for (size_t i = 0; i <= log.size(); ++i) {
                while (mk < marks.size() && marks[mk].accesses <= i) {
                    auto& k = marks[mk++];
                    if (k.device != dev) {
                        continue;
                    }
                    if (k.suspended) {
                        if (!susp) {
                            for (auto& x: last) {
                                if (healthy(dev, x.second, k.t)) {
                                    MC_CHECK(k.t - x.second < 3 * SEC, "not-polled-before", text, "device ", dev, " register ", x.first, " isn't polled since ", x.second / MS);
                                }
                            }
                        }
                        susp = true;
                        until = k.until;
                        needSetup = true;
                        mc::nontrivial();
                        mc::cover("suspended");
                    } else {
                        susp = false;
                        last.clear();
                        resumedAt = k.t;
                        mc::cover("resumed");
                    }
                }
                auto now = i < log.size() ? log[i].t - w.start : endT;
                if (susp && w.start + now >= until) {
                    susp = false;
                    last.clear();
                    resumedAt = until - w.start;
                    mc::cover("resumed by time");
                }
                if (i == log.size()) {
                    break;
                }
                auto& a = log[i];
                if (a.slave != dev) {
                    continue;
                }
                if (a.isWrite() || (susp && a.fault != OK && a.isWrite())) {
                    if (a.addr == 40 && a.ok()) {
                        needSetup = false;
                    }
                    continue;
                }
                MC_CHECK(!susp, "polled", text, "suspended device ", dev, " is polled: ", a.str());
                if (susp) {
                    break;
                }
                if (dev == 1 && needSetup) {
                    MC_CHECK(false, "no-setup", text, "polled after resuming without setup: ", a.str());
                    needSetup = false;
                }
                if (last.count(a.addr)) {
                    auto gap = now - last[a.addr];
                    int64_t limit = a.slave > 1 ? 1000 : a.addr == 10 ? 900 : a.addr == 12 ? 700 : 800;
                    MC_CHECK(gap > (limit - 100) * MS, "too-often", text, "device ", dev, " register ", a.addr, " is polled in ", gap / MS, " ms");
                    if (healthy(dev, last[a.addr], now)) {
                        MC_CHECK(gap < 3 * SEC, "gap", text, "device ", dev, " register ", a.addr, " isn't polled for ", gap / MS, " ms till ", now / MS);
                    }
                }
                last[a.addr] = now;
                prevA = now;
            }
            (void)prevA;
            (void)resumedAt;
            if (!susp) {
                size_t regs = dev == 1 ? 3 : 1;
                MC_CHECK(last.size() == regs, "not-resumed", text, "device ", dev, ": ", last.size(), " registers are polled after resuming instead of ", regs);
                for (auto& x: last) {
                    MC_CHECK(endT - x.second < 3 * SEC, "not-polled-after", text, "device ", dev, " register ", x.first, " isn't polled since ", x.second / MS);
                }
            }
        }
        mc::outcome(w.digest());
        mc::state(w.digest());
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    mc::Options o;
    o.name = "suspend";
    o.seconds = 70;
    o.executionSeconds = 60;
    o.shardDepth = 4;
    o.mustCover = {"suspended", "resumed", "resumed by time"};
    int depth = mc::thorough() ? 4 : 3;
    mc::explore(o, [=] {
        try {
            suspend(depth);
        } catch (const ExecutionEnd&) {
        }
    });
    return mc::finish();
}
