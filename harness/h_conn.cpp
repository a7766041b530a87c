// P04: connection state of devices and of the port. P14: open/close decision of the port. P09: setup items
#include "sim.h"
#include "port/port.h"
using namespace sim;

namespace
{
    // ---------------------------------------------------------------- P14
    struct MockPort: Bus
    {
        int failedOpens = 0;
        bool failNext = false;
        MockPort()
        {
            canOpen = [this] { return !failNext; };
        }
    };

    void openClose(int depth)
    {
        vclock::reset();
        static const int timeouts[] = {5000, 0, -1, 1};
        static const int cycles[] = {2, 0, 1, 3, -1};
        const int T = timeouts[mc::choose(4, "timeout")];
        const int N = cycles[mc::choose(5, "cycles")];
        auto port = std::make_shared<MockPort>();
        PPort asPort = port;
        TPortOpenCloseLogic::TSettings s;
        s.MaxFailTime = milliseconds(T);
        s.ConnectionMaxFailCycles = N;
        s.ReopenTimeout = milliseconds(3000);
        TPortOpenCloseLogic logic(s, [] { return vclock::tp(); });
        int64_t lastOk = 0, noOpenBefore = INT64_MIN;
        int fails = 0;
        for (int i = 0; i < depth; ++i) {
            static const int64_t steps[] = {1, 2999, 4900, 5001};
            vclock::advance(steps[mc::choose(4, "ms")] * MS);
            // 0 a good cycle, 1 a failed one, 2 opening fails, 3 somebody else has closed the port
            auto op = mc::choose(4, "cycle");
            port->failNext = op == 2;
            bool wasOpen = port->open;
            auto tries = port->openTries;
            bool thrown = false;
            try {
                logic.OpenIfAllowed(asPort);
            } catch (const std::exception&) {
                thrown = true;
            }
            mc::transition();
            if (wasOpen) {
                MC_CHECK(port->openTries == tries && !thrown, "reopen", "an open port must not be opened again");
            } else {
                bool allowed = vclock::now >= noOpenBefore;
                MC_CHECK(port->openTries == tries + (allowed ? 1 : 0), "open-try",
                         "opening ", allowed ? "must" : "must not", " be tried, last failure ",
                         (vclock::now - (noOpenBefore - 3000 * MS)) / MS, " ms ago");
                MC_CHECK(thrown == (allowed && op == 2), "open-error", "failure to open must be reported");
                if (allowed && op == 2) {
                    noOpenBefore = vclock::now + 3000 * MS;
                }
                if (port->open) {
                    lastOk = vclock::now;
                    fails = 0;
                }
            }
            if (!port->open) {
                continue;
            }
            if (op == 2) {
                op = 1;
            }
            if (op == 3) {
                port->Close();
                logic.CloseIfNeeded(asPort, true);
                MC_CHECK(!port->open, "close", "closed port");
                continue;
            }
            logic.CloseIfNeeded(asPort, op == 1);
            if (op == 0) {
                lastOk = vclock::now;
                fails = 0;
            } else {
                ++fails;
            }
            auto silent = vclock::now - lastOk;
            bool mustStay = op == 0 || T < 0 || N < 0 || fails < N || silent < T * MS;
            bool mustClose = !mustStay && silent > T * MS;
            if (mustStay) {
                MC_CHECK(port->open, "closed-early", "timeout ", T, " cycles ", N, ": closed after ", fails,
                         " failed cycles in ", silent / MS, " ms", op ? "" : " by a successful cycle");
            }
            if (mustClose) {
                MC_CHECK(!port->open, "not-closed", "timeout ", T, " cycles ", N, ": still open after ", fails,
                         " failed cycles in ", silent / MS, " ms");
                mc::nontrivial();
                mc::cover("closed by failures");
            }
            if (!port->open) {
                mc::outcome(mc::mix(mc::mix(T, N), fails));
            }
            // the model and the implementation agree on everything but the absolute time
            uint64_t d = mc::mix(mc::mix(T, N), port->open);
            d = mc::mix(mc::mix(d, std::min<int64_t>(silent, 20000 * MS)), std::min(fails, 5));
            d = mc::mix(d, std::max<int64_t>(noOpenBefore - vclock::now, -1));
            d = mc::mix(d, i);
            mc::state(d);
        }
    }

    // ---------------------------------------------------------------- P04
    struct DevCase
    {
        int T, N;      // device_timeout_ms, device_max_fail_cycles
        bool setup;    // has setup items
        bool two;      // there is another healthy device
    };

    std::string limits(int T, int N)
    {
        std::string s;
        if (T != 3000) {
            s += mc::str(",\"device_timeout_ms\":", T);
        }
        if (N != 2) {
            s += mc::str(",\"device_max_fail_cycles\":", N);
        }
        return s;
    }

    struct StateEvent
    {
        int64_t t;
        bool disconnected;
        size_t accesses; // of the device before the event
    };

    void deviceStates(const DevCase& c, int phases, const std::vector<int64_t>& lengths)
    {
        World w;
        w.config->OpenCloseSettings.MaxFailTime = milliseconds(-1); // the port stays open
        auto& s1 = w.net.add(1);
        s1.regs[3][10] = 1;
        s1.regs[3][11] = 2;
        s1.regs[3][40] = 0;
        s1.regs[3][50] = 0;
        bool fine = true;
        int kind = LOST;
        s1.fault = [&](const Access& a) -> int { return fine ? OK : kind; };
        w.device(json(mc::str(R"({"slave_id":"1","protocol":"modbus","response_timeout_ms":100)", limits(c.T, c.N),
                              c.setup ? R"(,"setup":[{"title":"s1","address":40,"value":7},{"title":"s2","address":50,"value":8}])" : "",
                              R"(,"channels":[{"name":"A","reg_type":"holding","address":10,"read_rate_limit_ms":200},{"name":"B","reg_type":"holding","address":11,"read_rate_limit_ms":200}]})")));
        if (c.two) {
            auto& s2 = w.net.add(2);
            s2.regs[3][10] = 5;
            w.device(json(R"({"slave_id":"2","protocol":"modbus","channels":[{"name":"A","reg_type":"holding","address":10,"read_rate_limit_ms":100}]})"));
        }
        std::vector<StateEvent> events;
        w.mqtt->OnPublish = [&](const WBMQTT::TPublication& p) {
            if (p.Device == "dev1" && p.Control.empty() && p.HasError) {
                events.push_back({vclock::now, !p.Error.empty(),
                                  (size_t)std::count_if(w.net.log.begin(), w.net.log.end(), [](auto& a) { return a.slave == 1; })});
            }
        };
        // The history: phases of good and bad communication
        int64_t at = 0;
        static const int kinds[] = {LOST, BADCRC, WRONGSLAVE, GARBAGE, TRUNC, REPLY_LOST};
        kind = kinds[mc::choose(mc::thorough() ? 6 : 3, "failure")];
        std::vector<int64_t> len;
        for (int i = 0; i < phases; ++i) {
            int64_t l = lengths[mc::choose(lengths.size(), "phase ms")];
            len.push_back(l);
            at += l * MS;
            bool next = i % 2;
            w.at(at, [&fine, next] { fine = next; });
        }
        int64_t total = at + 4000 * MS;
        w.begin();
        w.runTo(total);
        w.trace();

        // Oracle
        bool disc = false, everConnected = false;
        int64_t lastOk = 0;
        int fails = 0;
        size_t ev = 0;
        int64_t discAt = 0, lastTryEnd = 0, lastDelay = -1;
        size_t tries = 0;
        std::vector<const Access*> log;
        for (auto& a: w.net.log) {
            if (a.slave == 1) {
                log.push_back(&a);
            }
        }
        bool enabled = c.T >= 0 && c.N >= 0;
        size_t setupNext = 0; // setup items to come before anything else
        bool needSetup = c.setup;
        static const int setupAddr[] = {40, 50};
        for (size_t i = 0; i < log.size(); ++i) {
            auto& a = *log[i];
            bool ok = a.ok();
            // setup goes first
            if (needSetup) {
                MC_CHECK(a.isWrite() && a.addr == setupAddr[setupNext], "setup-order", "after (re)connection at ",
                         (a.t - w.start) / MS, " ms: ", a.str(), " instead of the setup item ", setupNext);
                setupNext = ok ? setupNext + 1 : 0;
                if (setupNext == 2) {
                    needSetup = false;
                    setupNext = 0;
                }
                if (ok && needSetup) {
                    // the state may change only when the whole setup is written
                    continue;
                }
            } else if (a.isWrite() && everConnected) {
                MC_CHECK(false, "setup-again", "setup of a connected device is written again: ", a.str());
            }
            if (disc) {
                ++tries;
                auto gap = a.t - lastTryEnd;
                if (!ok || i == 0) {
                    // Pause before this attempt grows by 500 ms to 10 s
                }
                if (lastDelay >= 0 && tries > 1) {
                    MC_CHECK(gap <= 10000 * MS + 400 * MS, "backoff-limit", "pause of ", gap / MS, " ms between attempts");
                    MC_CHECK(gap >= std::min<int64_t>(lastDelay, 10000 * MS) - 150 * MS, "backoff-step", "pause of ", gap / MS,
                             " ms after a pause of ", lastDelay / MS, " ms");
                    MC_CHECK(gap <= lastDelay + 500 * MS + 400 * MS, "backoff-growth", "pause of ", gap / MS,
                             " ms after a pause of ", lastDelay / MS, " ms");
                    if (tries > 3 && lastDelay < 9400 * MS) {
                        MC_CHECK(gap >= lastDelay + 200 * MS, "backoff-grows", "pause of ", gap / MS, " ms after a pause of ",
                                 lastDelay / MS, " ms");
                    }
                    if (gap > 9500 * MS) {
                        mc::cover("backoff at its limit");
                    }
                }
                lastDelay = tries > 1 ? gap : 0;
            }
            lastTryEnd = a.end;
            bool changed = ev < events.size() && events[ev].accesses == i + 1;
            // several changes between two accesses are impossible
            if (changed && ev + 1 < events.size()) {
                MC_CHECK(events[ev + 1].accesses > i + 1, "state-flap", "several changes of the state without an access");
            }
            if (ok) {
                lastOk = a.end;
                fails = 0;
                if (disc || !everConnected) {
                    MC_CHECK(changed && !events[ev].disconnected, "not-connected", "successful exchange at ",
                             (a.t - w.start) / MS, " ms must make the device connected");
                    mc::cover(everConnected ? "reconnected" : "connected");
                } else {
                    MC_CHECK(!changed, "state-change", "state is changed by ", a.str());
                }
                disc = false;
                everConnected = true;
                tries = 0;
                lastDelay = -1;
            } else {
                ++fails;
                auto silenceAtLeast = a.end - lastOk;
                // the failure is known when the response timeout is over or the bad response has been received
                auto silence = (changed ? events[ev].t : a.end) - lastOk;
                if (everConnected && !disc) {
                    bool mustNot = !enabled || fails < c.N || silence < c.T * MS;
                    bool must = enabled && fails >= c.N && silenceAtLeast > c.T * MS;
                    if (mustNot) {
                        MC_CHECK(!changed, "early-disconnect", "timeout ", c.T, " cycles ", c.N, ": disconnected after ",
                                 fails, " failed cycles, ", silence / MS, " ms since the last success");
                    } else if (must) {
                        MC_CHECK(changed && events[ev].disconnected, "no-disconnect", "timeout ", c.T, " cycles ", c.N,
                                 ": not disconnected after ", fails, " failed cycles, ", silenceAtLeast / MS,
                                 " ms since the last success");
                        mc::nontrivial();
                    }
                } else if (disc) {
                    MC_CHECK(!changed, "state-change-2", "state is changed by ", a.str());
                }
                if (changed && events[ev].disconnected) {
                    mc::cover("disconnected");
                    disc = true;
                    needSetup = c.setup;
                    setupNext = 0;
                    discAt = events[ev].t;
                    tries = 0;
                    lastDelay = -1;
                }
            }
            if (changed) {
                ++ev;
            }
        }
        MC_CHECK(ev == events.size(), "extra-event", events.size() - ev, " extra state changes");
        if (!enabled) {
            MC_CHECK(events.empty() || !std::any_of(events.begin(), events.end(), [](auto& e) { return e.disconnected; }),
                     "disabled", "disconnection detection is off but the device is disconnected");
            mc::cover("detection off");
        }
        mc::outcome(w.digest());
        mc::state(w.digest());
    }

    // ---------------------------------------------------------------- P14, the whole port
    void portStates(int phases)
    {
        static const int timeouts[] = {1000, 4000, 0, -1};
        static const int cycles[] = {2, 6, -1};
        const int T = timeouts[mc::choose(4, "connection timeout")];
        const int N = cycles[mc::choose(3, "connection cycles")];
        World w;
        w.config->OpenCloseSettings.MaxFailTime = milliseconds(T);
        w.config->OpenCloseSettings.ConnectionMaxFailCycles = N;
        w.config->OpenCloseSettings.ReopenTimeout = milliseconds(1000);
        bool on[3] = {true, true, true};
        for (int id: {1, 2}) {
            auto& s = w.net.add(id);
            s.regs[3][10] = id;
            s.fault = [&on, id](const Access&) -> int { return on[id] ? OK : LOST; };
            w.device(json(mc::str(R"({"slave_id":")", id, R"(","protocol":"modbus","response_timeout_ms":50,"device_timeout_ms":)", id == 1 ? 300 : 900,
                                  R"(,"channels":[{"name":"A","reg_type":"holding","address":10,"read_rate_limit_ms":)", id == 1 ? 100 : 150, "}]}")));
        }
        std::map<size_t, std::map<int, bool>> changes; // accesses before -> device -> disconnected
        w.mqtt->OnPublish = [&](const WBMQTT::TPublication& p) {
            if (p.Control.empty() && p.HasError) {
                changes[w.net.log.size()][p.Device == "dev1" ? 1 : 2] = !p.Error.empty();
            }
        };
        std::map<size_t, int> closed; // accesses before -> times
        w.bus->onClose = [&] { ++closed[w.net.log.size()]; };
        int64_t at = 0;
        for (int i = 0; i < phases; ++i) {
            static const int64_t lengths[] = {400, 1700, 9000};
            at += lengths[mc::choose(3, "phase ms")] * MS;
            int mask = mc::choose(4, "online");
            w.at(at, [&on, mask] {
                on[1] = mask & 1;
                on[2] = mask & 2;
            });
        }
        at += 9000 * MS;
        w.begin();
        w.runTo(at);
        w.trace();

        bool disc[3] = {false, false, false};
        int64_t lastOk = w.start, openedAt = w.start;
        int fails = 0;
        int closes = 0;
        for (size_t i = 0; i < w.net.log.size(); ++i) {
            auto& a = w.net.log[i];
            for (auto& c: changes[i + 1]) {
                disc[c.first] = c.second;
            }
            auto end = i + 1 < w.net.log.size() ? w.net.log[i + 1].t : vclock::now;
            bool wasClosed = closed.count(i + 1);
            // the decision is made when the answer or the time-out comes
            auto decided = a.end + (a.ok() ? 0 : 50 * MS);
            if (disc[a.slave]) {
                ++fails;
            } else {
                fails = 0;
                lastOk = decided;
            }
            auto silent = decided - std::max(lastOk, openedAt);
            bool mayClose = disc[a.slave] && T >= 0 && N >= 0 && fails >= N && silent >= (T - 60) * MS;
            bool mustClose = disc[a.slave] && T >= 0 && N >= 0 && fails >= N && silent > (T + 60) * MS;
            if (!mayClose) {
                MC_CHECK(!wasClosed, "port-closed", "timeout ", T, " cycles ", N, ": closed after ", fails, " failed cycles, ", silent / MS, " ms");
            }
            if (mustClose && end > decided) {
                MC_CHECK(wasClosed, "port-not-closed", "timeout ", T, " cycles ", N, ": still open after ", fails, " failed cycles, ", silent / MS, " ms");
                mc::nontrivial();
                mc::cover("port is closed");
            }
            if (wasClosed) {
                ++closes;
                fails = 0;
                openedAt = decided;
            }
            // a closed port is opened at once
            MC_CHECK(end - a.t <= 11 * SEC, "no-polls", "nothing is polled for ", (end - a.t) / MS, " ms");
        }
        // it can be closed by the very last cycle
        MC_CHECK(w.bus->opens == closes + w.bus->open, "reopened", w.bus->opens, " times opened, ", closes, " times closed");
        if (!w.bus->open) {
            w.runTo(at + 1000 * MS);
            MC_CHECK(w.bus->opens == closes + 1, "not-reopened", w.bus->opens, " times opened, ", closes, " times closed");
        }
        mc::outcome(w.digest());
        mc::state(w.digest());
    }

    void run(const std::function<void()>& f)
    {
        try {
            f();
        } catch (const ExecutionEnd&) {
        }
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    std::string id = argc > 1 ? argv[1] : "";
    if (id == "P14") {
        mc::Options o;
        o.name = "openclose";
        o.seconds = 50;
        o.mustCover = {"closed by failures"};
        int depth = mc::thorough() ? 6 : 5;
        mc::explore(o, [=] { run([=] { openClose(depth); }); });
    }
    if (id == "P14") {
        mc::Options o;
        o.name = "port";
        o.seconds = 50;
        o.executionSeconds = 60;
        o.shardDepth = 4;
        o.mustCover = {"port is closed"};
        int phases = mc::thorough() ? 4 : 3;
        mc::explore(o, [=] { run([=] { portStates(phases); }); });
    }
    if (id == "P04") {
        mc::Options o;
        o.name = "device-state";
        o.seconds = 50;
        o.executionSeconds = 60;
        o.shardDepth = 5;
        o.mustCover = {"connected", "reconnected", "disconnected", "detection off", "backoff at its limit"};
        mc::explore(o, [] {
            static const DevCase cases[] = {{3000, 2, false, false}, {3000, 2, true, true}, {0, 3, false, true}, {0, 3, true, false},
                                            {1500, 0, false, false}, {-1, 2, false, true}, {3000, -1, true, false}, {500, 5, false, false},
                                            {0, 0, false, false}, {10000, 1, true, true}};
            auto& c = cases[mc::choose(10, "case")];
            run([&] { deviceStates(c, 4, mc::thorough() ? std::vector<int64_t>{50, 330, 700, 1600, 3100, 7000, 90000} : std::vector<int64_t>{330, 1600, 3300, 90000}); });
        });
    }
    return mc::finish();
}
