// P03: delivery of values sent to controls
#include "sim.h"
using namespace sim;

namespace
{
    struct Cmd
    {
        int64_t t;
        int control;
        uint32_t value;
        const char* invalid = nullptr;
        bool resolved = false;
        bool swallowed = false; // the same value has been written while the answer to it was on the way
    };
    const char* NAMES[] = {"A", "B", "C", "D"};
    const int WADDR[] = {10, 20, 5, 30};

    int controlOf(const Access& a)
    {
        for (int i = 0; i < 4; ++i) {
            if (a.addr == WADDR[i]) {
                return i;
            }
        }
        return -1;
    }
    uint32_t valueOf(const Access& a)
    {
        if (a.fn == 5) {
            return a.values[0] ? 1 : 0;
        }
        uint32_t v = 0;
        for (auto x: a.values) {
            v = v << 16 | x;
        }
        return v;
    }

    struct Scenario
    {
        const char* name;
        int fault;       // of write requests
        int count;       // how many of them
        int64_t from, to; // device is offline / port is broken
        bool port;
    };
    std::vector<Scenario> scenarios()
    {
        std::vector<Scenario> s{{"fine", OK, 0, 0, 0, false}};
        for (int f: {LOST, REPLY_LOST, BADCRC, EXC1, EXC2, EXC3, EXC4, EXC6, WRONGFUNC, WRONGSLAVE, TRUNC}) {
            for (int n: mc::thorough() ? std::vector<int>{1, 2, 100000} : std::vector<int>{1, 100000}) {
                s.push_back({"write fault", f, n, 0, 0, false});
            }
        }
        for (bool port: {false, true}) {
            for (int64_t from: {0, 900, 1015}) {
                for (int64_t len: {600, 2500, 6000, 100000}) {
                    s.push_back({port ? "port broken" : "offline", OK, 0, from, from + len, port});
                }
            }
        }
        return s;
    }

    struct Config
    {
        const char* options;
        int maxFail;
        bool setup;
    };
    const Config CONFIGS[] = {{R"(,"device_timeout_ms":500,"max_write_fail_time_s":3)", 3, false},
                              {R"(,"device_timeout_ms":500,"max_write_fail_time_s":0)", 0, false},
                              {R"(,"device_timeout_ms":-1,"max_write_fail_time_s":3,"setup":[{"title":"s","address":50,"value":1}])", 3, true},
                              {R"(,"device_max_fail_cycles":-1,"max_write_fail_time_s":3)", 3, false},
                              {R"(,"device_timeout_ms":500,"max_write_fail_time_s":3,"setup":[{"title":"s","address":50,"value":1}])", 3, true}};

    void write(int maxCommands)
    {
        static const auto SC = scenarios();
        auto& cfg = CONFIGS[mc::choose(5, "config")];
        auto& sc = SC[mc::choose(SC.size(), "scenario")];
        static const int64_t TIMES[] = {1000, 1030, 1300, 2600};
        std::vector<Cmd> cmds;
        int n = 1 + mc::choose(maxCommands, "commands");
        int ti = 0;
        for (int i = 0; i < n; ++i) {
            ti += mc::choose(4 - ti, "time");
            int c;
            if (!i) {
                c = mc::choose(4, "control");
            } else {
                c = mc::choose(2, "other control") ? (cmds[0].control + 1) % 4 : cmds[0].control;
            }
            uint32_t v = c == 2 ? (i + 1) % 2 : c == 1 ? 0x00120034u * (i + 1) : 111 * (i + 1);
            cmds.push_back({TIMES[ti] * MS, c, v});
            if (i == n - 1) {
                static const char* kinds[] = {"valid", "zz", "same value", "", "1;2"};
                auto k = mc::choose(n == 1 || mc::thorough() ? 5 : 3, "kind");
                if (k == 2) {
                    cmds.back().value = cmds[0].control == c ? cmds[0].value : v;
                } else if (k) {
                    cmds.back().invalid = kinds[k];
                    mc::cover("invalid text");
                }
            }
        }

        World w;
        w.config->OpenCloseSettings.MaxFailTime = milliseconds(1000);
        w.config->OpenCloseSettings.ConnectionMaxFailCycles = 2;
        w.config->OpenCloseSettings.ReopenTimeout = milliseconds(500);
        auto& s1 = w.net.add(1);
        s1.regs[3] = {{10, 1}, {20, 0}, {21, 2}, {30, 3}, {50, 0}};
        s1.regs[1] = {{5, 0}};
        auto& s2 = w.net.add(2);
        s2.regs[3] = {{10, 5}};
        int left = sc.count;
        s1.fault = [&](const Access& a) -> int {
            if (a.isWrite() && a.addr != 50 && left > 0) {
                --left;
                return sc.fault;
            }
            return OK;
        };
        if (sc.to) {
            w.at(sc.from * MS, [&] {
                s1.online = sc.port;
                if (sc.port) {
                    w.bus->canWrite = w.bus->canOpen = [] { return false; };
                }
            });
            w.at(sc.to * MS, [&] {
                s1.online = true;
                w.bus->canWrite = w.bus->canOpen = nullptr;
            });
        }
        w.device(json(mc::str(R"({"slave_id":"1","protocol":"modbus","response_timeout_ms":50)", cfg.options, R"(,"channels":[
            {"name":"A","reg_type":"holding","address":10,"read_rate_limit_ms":300},
            {"name":"B","reg_type":"holding","address":20,"format":"u32","read_rate_limit_ms":300},
            {"name":"C","reg_type":"coil","address":5,"type":"switch","read_rate_limit_ms":300},
            {"name":"D","reg_type":"holding","write_address":30}]})")));
        w.device(json(R"({"slave_id":"2","protocol":"modbus","channels":[{"name":"A","reg_type":"holding","address":10,"read_rate_limit_ms":300}]})"));

        struct Pub
        {
            size_t accesses;
            int64_t t;
            std::string error, value;
        };
        std::map<std::string, std::vector<Pub>> pubs;
        w.mqtt->OnPublish = [&](const WBMQTT::TPublication& p) {
            if (p.Device == "dev1" && !p.Control.empty()) {
                auto& l = pubs[p.Control];
                Pub x{w.net.log.size(), w.now(), l.empty() ? "" : l.back().error, l.empty() ? "" : l.back().value};
                if (p.HasError) {
                    x.error = p.Error;
                }
                if (p.HasValue) {
                    x.value = p.Value;
                }
                l.push_back(x);
            }
        };
        for (auto& c: cmds) {
            w.at(c.t, [&w, &c] { w.command(1, NAMES[c.control], c.invalid ? c.invalid : std::to_string(c.value)); });
        }
        int64_t endT = (sc.to && sc.to < 100000 ? sc.to * MS : 3000 * MS) + 15 * SEC;
        w.begin();
        w.runTo(endT);
        w.trace();
        if (mc::tracing()) {
            for (auto& l: pubs) {
                for (auto& p: l.second) {
                    mc::note(mc::str("pub ", l.first, " at ", p.t / MS, " after access ", p.accesses, " '", p.error, "' ", p.value));
                }
            }
        }

        // Oracle
        auto& log = w.net.log;
        const int64_t MAXT = cfg.maxFail * SEC;
        for (int ctl = 0; ctl < 4; ++ctl) {
            std::vector<Cmd*> mine;
            for (auto& c: cmds) {
                if (c.control == ctl && !c.invalid) {
                    mine.push_back(&c);
                }
            }
            auto& pub = pubs[NAMES[ctl]];
            auto hasW = [](const Pub& p) { return p.error.find('w') != std::string::npos; };
            if (mine.empty()) {
                for (auto& a: log) {
                    MC_CHECK(!(a.slave == 1 && a.isWrite() && controlOf(a) == ctl), "stray-write", "nothing was sent to ", NAMES[ctl], ": ", a.str());
                }
                for (auto& p: pub) {
                    MC_CHECK(!hasW(p), "stray-error", "write error of ", NAMES[ctl], " without a command");
                }
                continue;
            }
            int attempts = 0;
            const Access* last = nullptr;
            int64_t lastAttempt = 0;
            for (size_t i = 0; i < log.size(); ++i) {
                auto& a = log[i];
                if (a.slave != 1 || !a.isWrite() || controlOf(a) != ctl) {
                    continue;
                }
                ++attempts;
                last = &a;
                lastAttempt = a.t - w.start;
                auto v = valueOf(a);
                // The newest command at the moment, or one that has been superseded while the request was being sent
                Cmd* cmd = nullptr;
                bool fresh = false;
                for (auto c: mine) {
                    if (c->t <= lastAttempt) {
                        cmd = c;
                        if (c->value == v) {
                            fresh = true;
                            continue;
                        }
                    }
                    if (c->t > lastAttempt - 60 * MS) {
                        continue;
                    }
                    fresh = false;
                }
                MC_CHECK(cmd, "early-write", "a write before the command: ", a.str());
                if (!cmd) {
                    break;
                }
                MC_CHECK(fresh, "stale-value", a.str(), " but the latest value is ", cmd->value);
                MC_CHECK(a.fn == (ctl == 1 ? 16 : ctl == 2 ? 5 : 6), "write-function", a.str());
                // what is still to be delivered
                bool pending = false;
                Cmd* first = nullptr;
                for (auto c: mine) {
                    if (c->t <= lastAttempt && !c->resolved) {
                        pending = true;
                        if (!first) {
                            first = c;
                        }
                    }
                }
                MC_CHECK(pending, "write-again", "written again after it has been ", "delivered or rejected: ", a.str());
                MC_CHECK(lastAttempt <= cmd->t + MAXT + 1200 * MS, "too-late", "attempt ", (lastAttempt - cmd->t) / MS,
                         " ms after the command, the limit is ", cfg.maxFail, " s: ", a.str());
                bool permanent = a.exception >= 1 && a.exception <= 3;
                bool done = a.ok() || permanent;
                if (done) {
                    for (auto c: mine) {
                        // superseded ones
                        if (c->t <= lastAttempt && (c != cmd || c->value == v)) {
                            c->resolved = true;
                        }
                        if (c->value == v && c->t <= lastAttempt + 100 * MS) {
                            c->swallowed = true;
                        }
                    }
                }
                // Error mark and value: the first publication after this access
                const Pub* state = nullptr;
                const Pub* next = nullptr;
                for (auto& p: pub) {
                    if (p.accesses <= i) {
                        state = &p;
                    } else if (!next) {
                        next = &p;
                    }
                }
                if (a.ok()) {
                    bool shown = next && next->accesses == i + 1 && !hasW(*next) && next->value == std::to_string(v);
                    bool already = !next || next->accesses > i + 1 ? state && !hasW(*state) && state->value == std::to_string(v) : false;
                    MC_CHECK(shown || already, "written-value", NAMES[ctl], " is written (", a.str(), ") but the control shows ",
                             next ? next->value + " error '" + next->error + "'" : std::string("nothing new"));
                    mc::cover("delivered");
                } else {
                    bool shown = next && next->accesses == i + 1 && hasW(*next);
                    bool already = (!next || next->accesses > i + 1) && state && hasW(*state);
                    MC_CHECK(shown || already, "write-error", NAMES[ctl], ": failed write is not shown: ", a.str());
                    mc::cover(permanent ? "rejected" : "failed");
                    mc::nontrivial();
                }
            }
            for (auto c: mine) {
                c->resolved = c->resolved || c->swallowed;
            }
            // Liveness
            auto newest = mine.back();
            bool broken = sc.to > newest->t / MS && sc.from * MS <= newest->t + 200 * MS;
            if (sc.count == 0 && !sc.to) {
                MC_CHECK(newest->resolved && lastAttempt <= newest->t + 500 * MS, "slow-write", NAMES[ctl], " is written in ", (lastAttempt - newest->t) / MS, " ms");
            }
            // unresolved: since when
            Cmd* first = nullptr;
            for (auto c: mine) {
                if (!c->resolved && !first) {
                    first = c;
                }
            }
            // when the device has become accessible again
            int64_t firstOk = -1;
            for (auto& a: log) {
                bool healthy = !(sc.to && a.t - w.start < sc.to * MS && a.t - w.start >= sc.from * MS);
                if (a.slave == 1 && a.ok() && healthy && a.t - w.start > newest->t && left == 0) {
                    firstOk = a.end - w.start;
                    break;
                }
            }
            if (!newest->resolved) {
                MC_CHECK(!pub.empty() && hasW(pub.back()), "lost-silently", NAMES[ctl], ": the value isn't delivered and there is no write error");
                MC_CHECK(first && (broken || sc.count || (cfg.maxFail == 0 && sc.to)), "not-delivered", NAMES[ctl], " = ", newest->value, " isn't delivered");
                if (first && firstOk >= 0) {
                    MC_CHECK(firstOk - first->t >= MAXT - 200 * MS, "given-up", NAMES[ctl], ": given up though the device was back ",
                             (firstOk - first->t) / MS, " ms after the command, the limit is ", cfg.maxFail, " s");
                }
                mc::cover("given up");
                if (cfg.maxFail && sc.count > 1000 && cfg.maxFail == 3 && sc.fault != EXC1 && sc.fault != EXC2 && sc.fault != EXC3) {
                    MC_CHECK(lastAttempt >= first->t + MAXT - 1200 * MS, "few-retries", NAMES[ctl], ": the last attempt is ",
                             (lastAttempt - first->t) / MS, " ms after the command");
                }
            } else {
                MC_CHECK(!pub.empty(), "no-publication", NAMES[ctl]);
            }
            if (cfg.maxFail == 0 && mine.size() == 1) {
                MC_CHECK(attempts <= 1, "one-attempt", NAMES[ctl], ": ", attempts, " attempts with max_write_fail_time_s 0");
                mc::cover("single attempt");
            }
        }
        // the other device is polled all the time
        int64_t prev = 0;
        for (auto& a: log) {
            if (a.slave == 2) {
                bool portFault = sc.to && sc.port;
                if (!portFault) {
                    MC_CHECK(a.t - w.start - prev < 3 * SEC, "other-starved", "the other device isn't polled for ", (a.t - w.start - prev) / MS, " ms");
                }
                prev = a.t - w.start;
            }
        }
        if (sc.to < 100000) {
            MC_CHECK(prev > endT - 3 * SEC, "other-starved-2", "the other device isn't polled since ", prev / MS, " ms");
        }
        mc::outcome(w.digest());
        mc::state(w.digest());
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    mc::Options o;
    o.name = "write";
    o.seconds = 70;
    o.shardDepth = 4;
    o.mustCover = {"delivered", "rejected", "failed", "given up", "single attempt", "invalid text"};
    int n = mc::thorough() ? 3 : 2;
    mc::explore(o, [=] {
        try {
            write(n);
        } catch (const ExecutionEnd&) {
        }
    });
    return mc::finish();
}
