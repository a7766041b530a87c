// P02: every polled register is read again and again whatever the others do. P14 (system level): the port is closed and reopened
#include "fm.h"
using namespace sim;

namespace
{
    enum Kind
    {
        HEALTHY,
        DEAD,
        ALL_ILLEGAL,
        ALL_BUSY,
        ONE_ILLEGAL,
        FLAP_LONG,
        SLOW,
        NOISY,
        MANY_LOW,
        HIGH_OVERLOAD,
        MIN_INTERVAL,
        SETUP_FAILS,
        WRONG_SLAVE,
        DEAD_UNDETECTED,
        EVENTS,
        UNSUPPORTED_VALUE,
        FLAP_SHORT,
        DEAD_LONG_TIMEOUT,
        EVENTS_REBOOTS,
        SHORT_ANSWERS,
        ONE_LOST,
        EVENT_UNSUPPORTED,
        FW_UNSUPPORTED,
        KINDS
    };
    const char* NAMES[] = {"healthy", "dead", "all illegal", "all busy", "one illegal", "flap 3/4 s", "slow", "noisy", "many low",
                           "high overload", "min interval", "setup fails", "wrong slave", "dead undetected", "events", "unsupported value",
                           "flap 300 ms", "dead, long timeout", "events and reboots", "short answers", "one register is never answered", "unsupported value in an event", "register of a newer firmware"};

    struct Watch
    {
        int slave, fn, addr;
        int limitMs;   // read_rate_limit, 0 - none
        int periodMs;  // read_period, 0 - none
        bool steady;   // must be polled all the time
    };

    struct Scene
    {
        World& w;
        FmNet& fm;
        std::vector<Watch> watch;
        std::vector<std::shared_ptr<std::function<void()>>> keep;

        void every(int64_t from, int64_t step, std::function<void()> f)
        {
            auto fn = std::make_shared<std::function<void()>>();
            keep.push_back(fn);
            auto* p = fn.get();
            auto& world = w;
            *fn = [&world, p, step, f] {
                f();
                world.at(world.now() + step, *p);
            };
            w.at(from, *fn);
        }

        void add(int id, int kind)
        {
            auto& s = w.net.add(id);
            for (int i = 0; i < 8; ++i) {
                s.regs[3][10 + i] = i;
            }
            for (int i = 0; i < 10; ++i) {
                s.regs[3][1000 + i * 300] = i;
            }
            s.regs[1][5] = 0;
            s.regs[4][7] = 9;
            std::string options, regs = R"({"name":"A","reg_type":"holding","address":10,"read_rate_limit_ms":500},
                {"name":"B","reg_type":"holding","address":13},{"name":"C","reg_type":"input","address":7,"read_period_ms":700},{"name":"D","reg_type":"coil","address":5,"read_rate_limit_ms":300})";
            bool steady = true;
            std::vector<Watch> ws{{id, 3, 10, 500, 0, true}, {id, 3, 13, 0, 0, true}, {id, 4, 7, 0, 700, true}, {id, 1, 5, 300, 0, true}};
            bool wb = false;
            auto* ps = &s;
            switch (kind) {
                case HEALTHY:
                    break;
                case DEAD:
                    s.online = steady = false;
                    break;
                case ALL_ILLEGAL:
                    steady = false;
                    s.fault = [](auto&) { return EXC2; };
                    break;
                case ALL_BUSY:
                    steady = false;
                    s.fault = [](auto&) { return EXC4; };
                    break;
                case ONE_ILLEGAL:
                    s.regs[3].erase(13);
                    ws.erase(ws.begin() + 1);
                    break;
                case FLAP_LONG:
                    steady = false;
                    every(3 * SEC, 7 * SEC, [ps] { ps->online = false; });
                    every(7 * SEC, 7 * SEC, [ps] { ps->online = true; });
                    break;
                case SLOW:
                    s.latency = 400 * MS;
                    break;
                case NOISY:
                    steady = false;
                    s.fault = [](auto&) { return BADCRC; };
                    break;
                case MANY_LOW:
                    regs = "";
                    ws.clear();
                    for (int i = 0; i < 10; ++i) {
                        regs += mc::str(i ? "," : "", R"({"name":"R)", i, R"(","reg_type":"holding","address":)", 1000 + i * 300, "}");
                        ws.push_back({id, 3, 1000 + i * 300, 0, 0, true});
                    }
                    break;
                case HIGH_OVERLOAD:
                    regs = R"({"name":"L","reg_type":"holding","address":10})";
                    ws = {{id, 3, 10, 0, 0, true}};
                    s.latency = 30 * MS;
                    for (int i = 0; i < 5; ++i) {
                        regs += mc::str(R"(,{"name":"R)", i, R"(","reg_type":"holding","read_period_ms":50,"address":)", 1000 + i * 300, "}");
                        ws.push_back({id, 3, 1000 + i * 300, 0, 50, true});
                    }
                    break;
                case MIN_INTERVAL:
                    options = R"(,"min_request_interval":1000)";
                    break;
                case SETUP_FAILS:
                    options = R"(,"setup":[{"title":"s","address":16,"value":1}])";
                    s.fault = [](auto& a) { return a.isWrite() ? EXC4 : OK; };
                    steady = false;
                    break;
                case WRONG_SLAVE:
                    s.fault = [](auto&) { return WRONGSLAVE; };
                    steady = false;
                    break;
                case DEAD_UNDETECTED:
                    options = R"(,"device_timeout_ms":-1)";
                    s.online = steady = false;
                    break;
                case EVENTS:
                case EVENTS_REBOOTS: {
                    wb = true;
                    regs = R"({"name":"A","reg_type":"holding","address":10,"sporadic":true},{"name":"B","reg_type":"holding","address":13,"sporadic":true},{"name":"C","reg_type":"input","address":7,"read_rate_limit_ms":500})";
                    ws = {{id, 4, 7, 500, 0, true}};
                    auto* d = &fm.add(s);
                    auto n = std::make_shared<int>(0);
                    every(200 * MS, 20 * MS, [d, n] {
                        ++*n;
                        d->set(3, 10, *n);
                        d->set(3, 13, *n / 7);
                    });
                    if (kind == EVENTS_REBOOTS) {
                        every(5 * SEC, 5 * SEC, [d] { d->reboot(); });
                    }
                    break;
                }
                case EVENT_UNSUPPORTED: {
                    wb = true;
                    regs = R"({"name":"A","reg_type":"holding","address":10,"semi-sporadic":true,"unsupported_value":"0xFFFE"},{"name":"C","reg_type":"input","address":7,"read_period_ms":500})";
                    ws = {{id, 4, 7, 0, 500, true}};
                    auto* d = &fm.add(s);
                    every(2 * SEC, 60 * SEC, [d] { d->set(3, 10, 0xFFFE); });
                    break;
                }
                case FW_UNSUPPORTED:
                    wb = true;
                    regs += R"(,{"name":"U","reg_type":"holding","address":16,"fw":"9.0.0"},{"name":"V","reg_type":"holding","address":900,"fw":"1.2.0"})";
                    ws.push_back({id, 3, 900, 0, 0, true});
                    s.regs[3][900] = 3;
                    for (int i = 0; i < 16; ++i) {
                        s.regs[3][250 + i] = i < 5 ? "1.2.3"[i] : 0;
                    }
                    break;
                case UNSUPPORTED_VALUE:
                    regs += R"(,{"name":"U","reg_type":"holding","address":16,"unsupported_value":"0xFFFE"})";
                    s.regs[3][16] = 0xFFFE;
                    break;
                case FLAP_SHORT:
                    steady = false;
                    every(300 * MS, 600 * MS, [ps] { ps->online = false; });
                    every(600 * MS, 600 * MS, [ps] { ps->online = true; });
                    break;
                case DEAD_LONG_TIMEOUT:
                    options = R"(,"response_timeout_ms":1500)";
                    s.online = steady = false;
                    break;
                case SHORT_ANSWERS:
                    s.fault = [](auto&) { return TRUNC; };
                    steady = false;
                    break;
                case ONE_LOST:
                    s.fault = [](auto& a) { return a.addr <= 13 && a.addr + a.count > 13 ? LOST : OK; };
                    ws.erase(ws.begin() + 1);
                    break;
            }
            for (auto& x: ws) {
                x.steady = steady;
                watch.push_back(x);
            }
            w.device(json(mc::str(R"({"slave_id":")", id, R"(","protocol":")", "modbus", "\"", options, R"(,"channels":[)", regs, "]}")), wb);
        }
    };

    enum Disturbance
    {
        NONE,
        PORT_BROKEN,
        ALL_OFFLINE,
        DISTURBANCES
    };

    int64_t worst = 0;

    void live(int kinds, bool three)
    {
        int k1 = mc::choose(kinds, "first");
        int k2 = mc::choose(kinds - k1, "second") + k1;
        int k3 = three ? mc::choose(kinds - k2, "third") + k2 : -1;
        int rate = mc::choose(2, "rate limit") ? 8 : 0;
        int dist = mc::choose(3, "disturbance");
        int place = mc::choose(2, "observed device goes first");
        bool tcp = mc::choose(2, "tcp");
        int64_t bound = 12 * SEC;
        for (auto k: {k1, k2, k3}) {
            if (tcp && (k == EVENTS || k == EVENT_UNSUPPORTED || k == EVENTS_REBOOTS || k == NOISY)) {
                return;
            }
            bound += k == MIN_INTERVAL ? 8 * SEC : k == DEAD_LONG_TIMEOUT ? 3 * SEC : 0;
        }
        if (three) {
            bound += 6 * SEC;
        }
        World w(tcp);
        w.config->OpenCloseSettings.MaxFailTime = milliseconds(2000);
        w.config->OpenCloseSettings.ConnectionMaxFailCycles = 3;
        w.config->OpenCloseSettings.ReopenTimeout = milliseconds(1000);
        FmNet fm(w.net);
        Scene sc{w, fm};
        int healthy = place ? 1 : 3;
        if (place) {
            sc.add(1, HEALTHY);
        }
        sc.add(place ? 2 : 1, k1);
        sc.add(place ? 3 : 2, k2);
        if (three) {
            sc.add(4, k3);
        }
        if (!place) {
            sc.add(3, HEALTHY);
        }
        int64_t outFrom = 12 * SEC, outTo = 18 * SEC, endT = 50 * SEC;
        if (dist == PORT_BROKEN) {
            w.at(outFrom, [&] { w.bus->canWrite = w.bus->canOpen = [] { return false; }; });
            w.at(outTo, [&] { w.bus->canWrite = w.bus->canOpen = nullptr; });
        }
        std::map<int, bool> was;
        if (dist == ALL_OFFLINE) {
            w.at(outFrom, [&] {
                for (auto& s: w.net.slaves) {
                    was[s.first] = s.second.online;
                    s.second.online = false;
                }
            });
            w.at(outTo, [&] {
                for (auto& s: w.net.slaves) {
                    s.second.online = was[s.first];
                }
            });
        }
        int opensBefore = 0;
        w.at(outFrom, [&] { opensBefore = w.bus->opens; });
        w.begin({}, rate ? rate : std::numeric_limits<size_t>::max());
        w.runTo(endT);
        w.trace();

        // Oracle
        if (k1 == HIGH_OVERLOAD || k2 == HIGH_OVERLOAD) {
            mc::cover("overload");
        }
        if (k1 != HEALTHY || k2 != HEALTHY) {
            mc::nontrivial();
        }
        for (auto& x: sc.watch) {
            int64_t prev = 0, prevRead = -1;
            int reads = 0;
            for (auto& a: w.net.log) {
                if (a.slave != x.slave || a.fn != x.fn || a.addr > x.addr || a.addr + a.count <= x.addr) {
                    continue;
                }
                auto t = a.t - w.start;
                if (x.limitMs && prevRead >= 0) {
                    MC_CHECK(t - prevRead >= x.limitMs * MS - 60 * MS, "too-often", NAMES[k1], "/", NAMES[k2], ": slave ", x.slave, " register ", x.addr, " is read ",
                             (t - prevRead) / MS, " ms after the previous time, the limit is ", x.limitMs);
                }
                prevRead = t;
                ++reads;
                if (x.steady) {
                    auto gap = t - std::max<int64_t>(prev, 0);
                    if (dist != NONE && t > outFrom && prev < outTo) {
                        gap = t - std::max(prev, outTo);
                    }
                    if (dist == NONE || t < outFrom || t > outTo) {
                        worst = std::max(worst, gap);
                        MC_CHECK(gap <= bound, "starved", NAMES[k1], "/", NAMES[k2], ": slave ", x.slave, " register ", x.addr, " isn't read for ", gap / MS, " ms before ", t / MS);
                        if (mc::tracing() && gap > 4 * SEC) {
                            mc::note(mc::str("gap ", gap / MS, " of slave ", x.slave, " register ", x.addr, " at ", t / MS));
                        }
                    }
                    prev = a.end - w.start;
                }
            }
            if (x.steady) {
                auto tail = endT - prev;
                worst = std::max(worst, tail);
                MC_CHECK(tail <= bound, "starved-end", NAMES[k1], "/", NAMES[k2], ": slave ", x.slave, " register ", x.addr, " isn't read since ", prev / MS, " ms (", reads, " reads)");
            }
        }
        (void)healthy;
        // The version stays unknown if the device comes back right after the request of it, then everything is polled
        if (k1 == FW_UNSUPPORTED && dist != ALL_OFFLINE) {
            int n = 0;
            auto id = place ? 2 : 1;
            for (auto& a: w.net.log) {
                n += a.slave == id && a.fn == 3 && a.addr <= 16 && a.addr + a.count > 16;
            }
            MC_CHECK(n < 5, "unsupported-polled", "a register of a newer firmware is read ", n, " times");
        }
        if (rate) {
            int64_t reads = 0;
            for (auto& a: w.net.log) {
                for (auto& x: sc.watch) {
                    reads += !x.periodMs && a.slave == x.slave && a.fn == x.fn && a.addr <= x.addr && a.addr + a.count > x.addr;
                }
            }
            MC_CHECK(reads <= (rate + 4) * (endT / SEC + 2), "rate", NAMES[k1], "/", NAMES[k2], ": ", reads, " low priority reads in ", endT / SEC, " s, the limit is ", rate, " per second");
            if (reads > rate * endT / SEC * 0.8) {
                mc::cover("rate limit is reached");
            }
        }
        mc::outcome(w.digest());
        mc::state(w.digest());
        if (getenv("WORST")) {
            printf("%ld %s/%s rate %d dist %d place %d tcp %d\n", (long)(worst / MS), NAMES[k1], NAMES[k2], rate, dist, place, tcp);
            worst = 0;
        }
    }

    //! The limit of reads per second with registers read together
    void rates()
    {
        int devices = 1 + mc::choose(3, "devices");
        const int sizes[] = {1, 4, 10, 30};
        int size = sizes[mc::choose(4, "registers in a request")];
        const int limits[] = {1, 5, 20, 100};
        int rate = limits[mc::choose(4, "rate limit")];
        int periodic = mc::choose(3, "registers with a period");
        bool tcp = mc::choose(2, "tcp");
        World w(tcp);
        FmNet fm(w.net);
        for (int id = 1; id <= devices; ++id) {
            auto& s = w.net.add(id);
            std::string c;
            for (int i = 0; i < size; ++i) {
                s.regs[3][i] = i;
                c += mc::str(i ? "," : "", R"({"name":"R)", i, R"(","reg_type":"holding","address":)", i, "}");
            }
            for (int i = 0; i < periodic; ++i) {
                s.regs[4][i * 300] = i;
                c += mc::str(R"(,{"name":"P)", i, R"(","reg_type":"input","address":)", i * 300, R"(,"read_period_ms":)", i ? 50 : 1000, "}");
            }
            w.device(json(mc::str(R"({"slave_id":")", id, R"(","max_read_registers":)", size, R"(,"channels":[)", c, "]}")));
        }
        w.begin({}, rate);
        const int T = 12;
        w.runTo(T * SEC);
        // Any interval of a second overlaps at most two windows
        std::vector<std::pair<int64_t, int>> reads;
        int64_t total = 0;
        for (auto& a: w.net.log) {
            if (a.fn == 3 && a.addr < 100) {
                reads.push_back({a.t - w.start, a.count});
                total += a.count;
            }
        }
        int perWindow = rate + size; // the last request may exceed the limit
        MC_CHECK(total <= perWindow * (T + 1), "rate-total", total, " registers are read in ", T, " s, the limit is ", rate, " per second, ", size, " per request");
        int64_t sum = 0;
        size_t first = 0;
        for (size_t i = 0; i < reads.size(); ++i) {
            sum += reads[i].second;
            while (reads[i].first - reads[first].first >= 999 * MS) {
                sum -= reads[first++].second;
            }
            MC_CHECK(sum <= 2 * perWindow, "rate-window", sum, " registers are read in a second, the limit is ", rate, " per second, ", size, " per request");
        }
        // The limit must be used: other registers may take the time
        int64_t perRequest = w.net.bus.byteUs * (8 + 5 + 2 * size + 10) + 25000;
        if (!tcp && periodic < 2 && rate / size * perRequest < 500 * MS) {
            mc::cover("limit decides");
            MC_CHECK(total >= rate * (T - 2), "rate-unused", total, " registers are read in ", T, " s, the limit is ", rate, " per second");
        }
        mc::nontrivial();
        mc::outcome(w.digest());
        mc::state(w.digest());
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    {
        mc::Options o;
        o.name = "rates";
        o.seconds = 40;
        o.executionSeconds = 30;
        o.shardDepth = 3;
        o.mustCover = {"limit decides"};
        mc::explore(o, [] {
            try {
                rates();
            } catch (const ExecutionEnd&) {
            }
        });
    }
    mc::Options o;
    o.name = "liveness";
    o.seconds = 70;
    o.executionSeconds = 60;
    o.shardDepth = 4;
    o.mustCover = {"overload", "rate limit is reached"};
    mc::explore(o, [] {
        try {
            live(KINDS, mc::thorough());
        } catch (const ExecutionEnd&) {
        }
    });
    return mc::finish();
}
