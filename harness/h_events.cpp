// P11: fast Modbus events
#include "fm.h"
using namespace sim;

namespace
{
    struct Ctl
    {
        std::string name;
        int type, addr, shift, bits;
        bool events;   // only events
        std::string json;
    };


    struct Watch
    {
        std::map<std::string, std::string> value, error;
        std::map<std::string, std::vector<std::string>> history;
        bool devError = false;
        void operator()(const WBMQTT::TPublication& p)
        {
            if (p.Device != "dev1") {
                return;
            }
            if (p.Control.empty()) {
                if (p.HasError) {
                    devError = !p.Error.empty();
                }
                return;
            }
            if (p.HasValue) {
                value[p.Control] = p.Value;
                history[p.Control].push_back(p.Value);
            }
            if (p.HasError) {
                error[p.Control] = p.Error;
            }
        }
    };

    enum Regs
    {
        MIXED,
        ONLY_SPORADIC, // X must be polled
        ALL_EVENTS,    // a register is polled only to see that the device is alive
        SINGLE,
        SEMI,          // all registers are polled rarely and have events
        REGS
    };

    std::vector<Ctl> controls(int regs)
    {
        if (regs == SEMI) {
            return {
                {"A", 3, 10, 0, 16, true, R"({"name":"A","reg_type":"holding","address":10,"semi-sporadic":true,"read_rate_limit_ms":9000})"},
                {"B", 3, 11, 0, 16, true, R"({"name":"B","reg_type":"holding","address":11,"semi-sporadic":true,"read_rate_limit_ms":9000})"},
            };
        }
        std::vector<Ctl> c{
            {"A", 3, 10, 0, 16, true, R"({"name":"A","reg_type":"holding","address":10,"sporadic":true})"},
            {"B", 3, 11, 0, 16, true, R"({"name":"B","reg_type":"holding","address":11,"sporadic":true})"},
            {"C", 1, 5, 0, 1, true, R"({"name":"C","reg_type":"coil","address":5,"type":"switch","sporadic":true})"},
            {"P", 3, 40, 0, 1, true, R"({"name":"P","reg_type":"holding","address":"40:0:1","sporadic":true})"},
            {"Q", 3, 40, 1, 3, true, R"({"name":"Q","reg_type":"holding","address":"40:1:3","sporadic":true})"},
            {"L", 4, 50, 0, 32, true, R"({"name":"L","reg_type":"input","format":"u32","address":50,"sporadic":true})"},
            {"X", 4, 12, 0, 16, true, R"({"name":"X","reg_type":"input","address":12,"sporadic":true})"}, // no events in the device
        };
        if (regs == ALL_EVENTS || regs == SINGLE) {
            c.pop_back();
        }
        if (regs == SINGLE) {
            return {c[1]};
        }
        if (regs == MIXED) {
            c.push_back({"S", 3, 30, 0, 16, false, R"({"name":"S","reg_type":"holding","address":30,"semi-sporadic":true,"read_rate_limit_ms":3000})"});
            c.push_back({"N", 3, 20, 0, 16, false, R"({"name":"N","reg_type":"holding","address":20,"read_rate_limit_ms":1000})"});
        }
        return c;
    }

    uint64_t deviceValue(Slave& s, const Ctl& c)
    {
        uint64_t v = s.regs[c.type][c.addr];
        if (c.bits == 32) {
            v = v << 16 | s.regs[c.type][c.addr + 1];
        }
        return (v >> c.shift) & ((1ull << c.bits) - 1);
    }

    struct Stage
    {
        World w;
        FmNet fm;
        Slave &s1, &s2;
        FmDevice *d1, *d2;
        std::vector<Ctl> ctls;
        Watch watch;
        std::vector<EventRequest>& reqs;
        std::map<std::string, std::vector<uint64_t>> truth;
        uint16_t counter = 0;
        int regs;
        bool fastModbus;
        std::string text;

        Stage(int kind, int regs, bool initialEvents, int timeout = 1000)
            : w(kind != 0, kind == 1),
              fm(w.net),
              s1(w.net.add(1)),
              s2(w.net.add(2)),
              ctls(controls(regs)),
              reqs(fm.requests),
              regs(regs),
              fastModbus(kind != 2)
        {
            w.config->OpenCloseSettings.MaxFailTime = milliseconds(2000);
            w.config->OpenCloseSettings.ReopenTimeout = milliseconds(1000);
            s1.regs[3] = {{10, 100}, {11, 101}, {20, 120}, {30, 130}, {40, 0}};
            s1.regs[1] = {{5, 0}};
            s1.regs[4] = {{12, 112}, {50, 1}, {51, 2}};
            s2.regs[3] = {{10, 200}};
            d1 = &fm.add(s1);
            d2 = &fm.add(s2);
            d1->initialEvents = d2->initialEvents = initialEvents;
            d1->width[{4, 50}] = 4;
            d1->unsupported.insert({4, 12});
            std::string ch;
            for (auto& c: ctls) {
                ch += (ch.empty() ? "" : ",") + c.json;
            }
            w.device(json(R"({"slave_id":"1","protocol":")" + proto(kind) + mc::str(R"(","response_timeout_ms":30,"device_timeout_ms":)", timeout, R"(,"channels":[)") + ch + "]}"));
            w.device(json(R"({"slave_id":"2","protocol":")" + proto(kind) + mc::str(R"(","response_timeout_ms":30,"device_timeout_ms":)", timeout, R"(,"channels":[{"name":"A","reg_type":"holding","address":10,)", regs == SEMI ? R"("semi-sporadic":true,"read_rate_limit_ms":9000)" : R"("sporadic":true)", R"(}]})")));
            w.mqtt->OnPublish = [this](const WBMQTT::TPublication& p) { watch(p); };
            remember();
        }
        static std::string proto(int kind)
        {
            return "modbus";
        }
        void remember()
        {
            for (auto& c: ctls) {
                auto& t = truth[c.name];
                auto v = deviceValue(s1, c);
                if (t.empty() || t.back() != v) {
                    t.push_back(v);
                }
            }
        }
        void change(const std::string& name, bool silent = false)
        {
            ++counter;
            for (auto& c: ctls) {
                if (!name.empty() && c.name != name) {
                    continue;
                }
                uint16_t v = c.type <= 2 ? !s1.regs[c.type][c.addr] : c.bits < 16 ? counter & 15 : 1000 * (c.addr % 50 + 1) + counter;
                int addr = c.bits == 32 ? c.addr + counter % 2 : c.addr;
                if (silent) {
                    s1.regs[c.type][addr] = v;
                } else {
                    d1->set(c.type, addr, v);
                }
            }
            remember();
        }
        std::string states()
        {
            std::string r;
            for (auto& c: ctls) {
                r += mc::str(c.name, "=", watch.value[c.name], watch.error[c.name].empty() ? "" : "!" + watch.error[c.name], "/", deviceValue(s1, c), " ");
            }
            return r;
        }
        void compare(const char* key, const char* when, bool onlyEvents = false)
        {
            for (auto& c: ctls) {
                if (onlyEvents && (!c.events || c.name == "X")) {
                    continue;
                }
                auto v = std::to_string(deviceValue(s1, c));
                MC_CHECK(watch.value[c.name] == v, key, text, when, ": control ", c.name, " shows ", watch.value[c.name], " instead of ", v, "; ", states());
                MC_CHECK(watch.error[c.name].empty(), mc::str(key, "-error"), text, when, ": control ", c.name, " has error ", watch.error[c.name], "; ", states());
            }
        }
        //! Values of a control appear in the order they had in the device
        void order()
        {
            for (auto& c: ctls) {
                auto& t = truth[c.name];
                size_t i = 0;
                for (auto& h: watch.history[c.name]) {
                    size_t j = i;
                    while (j < t.size() && std::to_string(t[j]) != h) {
                        ++j;
                    }
                    if (j == t.size()) {
                        MC_CHECK(false, "order", text, "control ", c.name, ": value ", h, " is published when the device has already reported a newer one or has never had it");
                        break;
                    }
                    i = j;
                }
                mc::evaluated();
            }
        }
        //! Confirmations: only packets which have come intact, none is left unconfirmed
        void confirmations()
        {
            int slave = 0, flag = 0;
            bool first = true;
            for (size_t i = 0; i < reqs.size(); ++i) {
                auto& r = reqs[i];
                if (first) {
                    first = false;
                } else {
                    MC_CHECK(r.slave == slave && (r.flag == flag || !slave), "confirmation", text, "event request ", i, " confirms packet ", r.flag, " of ", r.slave, " instead of ", flag, " of ", slave);
                }
                // what has been received
                if (r.fault == OK && r.answeredBy) {
                    slave = r.answeredBy;
                    flag = r.packetFlag;
                } else if (r.fault == OK) {
                    slave = flag = 0;
                }
            }
        }
        uint64_t digest()
        {
            uint64_t h = w.digest();
            for (auto& r: reqs) {
                h = mc::mix(h, r.t ^ (r.answeredBy << 8) ^ r.fault);
            }
            return h;
        }
        void trace()
        {
            if (!mc::tracing()) {
                return;
            }
            w.trace();
            for (auto& r: reqs) {
                mc::note(mc::str((r.t - w.start) / 1000.0, " ms event request from ", r.start, " max ", r.maxBytes, " confirms ", r.slave, "/", r.flag, " answered by ", r.answeredBy, " ", faultName(r.fault)));
            }
            mc::note(text);
        }
    };

    //! Every combination of faults of consecutive event requests
    void faults(int n)
    {
        int kind = mc::choose(2, "transport");
        bool initial = mc::choose(2, "initial events");
        int perPacket = mc::choose(2, "one event in a packet") ? 1 : 100;
        int pattern = mc::choose(4, "changes");
        Stage st(kind, MIXED, initial);
        st.d1->maxEvents = perPacket;
        auto& w = st.w;
        int left = -1;
        st.fm.eventFault = [&](int by) -> int {
            if (w.now() < 5 * SEC || left <= 0) {
                return OK;
            }
            static const int F[] = {OK, REPLY_LOST, TRUNC, BADCRC};
            if (by == -1) {
                return OK;
            }
            --left;
            int f = F[mc::choose(kind ? 3 : 4, "fault")] ; // there is no CRC in TCP
            if (f != OK) {
                mc::nontrivial();
                mc::cover("fault");
            }
            return f;
        };
        left = n;
        w.begin();
        auto at = [&](int64_t ms, const char* name) { w.at(ms * MS, [&st, name] { st.change(name); }); };
        switch (pattern) {
            case 0:
                at(5000, "A");
                break;
            case 1:
                at(5000, "A");
                at(5100, "A");
                at(5300, "A");
                break;
            case 2:
                at(5000, "");
                at(5250, "B");
                break;
            case 3:
                at(5000, "P");
                at(5000, "C");
                at(5210, "Q");
                at(5400, "C");
                break;
        }
        w.runTo(4 * SEC);
        st.compare("start", "at the start");
        size_t before = w.net.log.size();
        w.runTo(5 * SEC + n * 450 * MS + 4 * SEC);
        st.trace();
        st.compare("lost-change", "after the faults");
        st.order();
        st.confirmations();
        for (size_t i = before; i < w.net.log.size(); ++i) {
            auto& a = w.net.log[i];
            if (a.slave == 1 && !a.isWrite()) {
                for (auto& c: st.ctls) {
                    int tbl[] = {0, 1, 2, 3, 4};
                    if (c.events && c.name != "X" && a.fn < 5 && tbl[a.fn] == c.type && a.addr <= c.addr && c.addr < a.addr + a.count) {
                        // merging of ranges may include it only if it is waiting for reading
                        MC_CHECK(false, "polled-with-events", st.text, "register of ", c.name, " is polled though its events are enabled: ", a.str());
                    }
                }
            }
        }
        mc::outcome(st.digest());
        mc::state(st.digest());
    }

    enum Op
    {
        CHANGE,
        CHANGE_ALL,
        REBOOT,        // with other values
        DEVICE,
        PORT,
        WRITE,
        REBOOT_WRITE,  // a command comes just after the restart
        NOISE,         // several requests are lost
        NOISE_EVENTS,  // several answers to event requests are lost
        SUPPORT,       // the device comes back with other firmware: no events of A and B
        SUPPORT_WRITE, // and a command comes just after it
        OPS
    };
    const char* NAMES[] = {"change A", "change all", "reboot", "device off/on", "port off/on", "write", "reboot and write", "noise", "noise on events", "support", "support and write"};

    void life(int depth)
    {
        int kind = mc::choose(3, "transport");
        int regs = mc::choose(REGS, "registers");
        bool sporadicOnly = regs != MIXED;
        bool initial = mc::choose(2, "initial events");
        int timeout = mc::choose(2, "device timeout") ? 4000 : 1000;
        Stage st(kind, regs, initial, timeout);
        auto& w = st.w;
        int lost = 0, lostEvents = 0;
        bool portOk = true, support = true;
        int values = 0;
        st.s1.fault = [&](const Access& a) -> int {
            if (lost > 0) {
                --lost;
                return a.t & 1 ? LOST : REPLY_LOST;
            }
            return OK;
        };
        st.fm.eventFault = [&](int by) -> int {
            if (by >= 0 && lostEvents > 0) {
                --lostEvents;
                return REPLY_LOST;
            }
            return OK;
        };
        w.bus->canOpen = [&] { return portOk; };
        w.bus->canWrite = [&] { return portOk; };
        auto write = [&] {
            st.d1->set(3, 10, st.s1.regs[3][10]); // nothing
            w.command(1, "B", std::to_string(5000 + ++values));
        };
        st.s1.onAccess = [&](const Access& a) {
            if (a.applied) {
                st.d1->mark({3, 11});
                st.remember();
            }
        };
        auto exec = [&](int op) {
            mc::cover(NAMES[op]);
            switch (op) {
                case CHANGE:
                    st.change("A");
                    break;
                case CHANGE_ALL:
                    st.change("");
                    break;
                case REBOOT:
                    st.d1->reboot();
                    st.change("", true);
                    break;
                case DEVICE:
                    st.s1.online = !st.s1.online;
                    if (st.s1.online) { // power was off
                        st.d1->reboot();
                        st.change("", true);
                    }
                    break;
                case PORT:
                    portOk = !portOk;
                    if (!portOk && kind && w.bus->open) { // a broken connection closes a TCP port
                        w.bus->Close();
                    }
                    break;
                case WRITE:
                    write();
                    break;
                case REBOOT_WRITE:
                    st.d1->reboot();
                    st.change("", true);
                    break;
                case NOISE:
                    lost = 3;
                    break;
                case NOISE_EVENTS:
                    lostEvents = 15;
                    break;
                case SUPPORT:
                case SUPPORT_WRITE:
                    support = !support;
                    if (support) {
                        st.d1->unsupported.erase({3, 10});
                        st.d1->unsupported.erase({3, 11});
                    } else {
                        st.d1->unsupported.insert({3, 10});
                        st.d1->unsupported.insert({3, 11});
                    }
                    st.d1->reboot();
                    st.change("", true);
                    break;
            }
        };
        // a command given as soon as the reboot event is read
        bool writeAfterReboot = false;
        st.fm.mutate = [&](bytes& r) {
            if (writeAfterReboot && st.reqs.back().answeredBy == 1 && st.reqs.back().fault == OK) {
                writeAfterReboot = false;
                w.agenda.at(vclock::now + 1, write);
            }
        };
        int64_t t = 3 * SEC;
        bool quick = true; // no pauses between the operations
        for (int i = 0; i < depth; ++i) {
            int op = mc::choose(OPS, "operation");
            static const int64_t steps[] = {40, 1700, 7000};
            int step = mc::choose(3, "ms");
            quick = quick && !step;
            t += steps[step] * MS;
            w.at(t, [&, op] {
                exec(op);
                if (op == REBOOT_WRITE || op == SUPPORT_WRITE) {
                    writeAfterReboot = true;
                }
            });
            st.text += mc::str(NAMES[op], " at ", t / MS, ", ");
        }
        w.begin();
        w.runTo(t + 3 * SEC);
        if (!portOk) {
            exec(PORT);
        }
        if (!st.s1.online) {
            exec(DEVICE);
        }
        writeAfterReboot = false;
        lost = lostEvents = 0;
        int64_t repaired = w.now();
        w.runTo(repaired + 15 * SEC);
        size_t from = w.net.log.size(), fromReq = st.reqs.size();
        w.runTo(repaired + 21 * SEC);
        auto logEnd = w.net.log.size();
        mc::nontrivial();
        // are events enabled from the point of view of the service?
        bool enabled = false;
        for (auto& a: w.net.log) {
            if (a.slave == 1 && a.fn == 0x46) {
                enabled = a.ok();
            }
        }
        auto tr = [&] { st.trace(); };
        bool traced = false;
        auto ensure = [&] {
            if (!traced) {
                traced = true;
                tr();
            }
        };
        ensure();
        st.compare("stale", "long after the last fault");
        if (!st.fastModbus) {
            MC_CHECK(st.reqs.empty(), "no-support", st.text, "events are requested without support in the gateway");
        } else {
            MC_CHECK(st.reqs.size() - fromReq > 6 * 1000 / 260, "rare-requests", st.text, "only ", st.reqs.size() - fromReq, " event requests in 6 s");
            MC_CHECK(st.reqs.size() - fromReq < 6 * 1000 / 150, "frequent-requests", st.text, st.reqs.size() - fromReq, " event requests in 6 s without events");
        }
        if (enabled) {
            mc::cover("events enabled");
            // what is polled
            std::map<std::string, int> polls;
            for (size_t i = from; i < logEnd; ++i) {
                auto& a = w.net.log[i];
                if (a.slave == 1 && a.fn < 5) {
                    for (auto& c: st.ctls) {
                        if (a.fn == c.type && a.addr <= c.addr && c.addr < a.addr + a.count) {
                            ++polls[c.name];
                        }
                    }
                }
            }
            int sentinels = 0;
            for (auto& c: st.ctls) {
                if (regs != SEMI && c.events && c.name != "X" && !(c.addr < 12 && !support) && polls[c.name]) {
                    ++sentinels;
                    if (!sporadicOnly) {
                        MC_CHECK(false, "polled-with-events", st.text, "register of ", c.name, " is polled ", polls[c.name], " times in 6 s though its events are enabled");
                    }
                }
            }
            if (sporadicOnly) {
                if (regs == ALL_EVENTS || regs == SINGLE) {
                    int any = 0;
                    for (auto& p: polls) {
                        any = std::max(any, p.second);
                    }
                    MC_CHECK(any >= 8, "no-sentinel", st.text, "only ", any, " polls of the device in 6 s");
                }
                // P and Q are in the same register
                MC_CHECK(sentinels <= 2, "many-sentinels", st.text, sentinels, " registers with events are polled");
            }
            // the events really come
            st.change("");
            auto t0 = w.now();
            w.runTo(t0 + 700 * MS);
            for (auto& c: st.ctls) {
                if (c.events && c.name != "X" && !(c.addr < 12 && !support)) {
                    auto v = std::to_string(deviceValue(st.s1, c));
                    MC_CHECK(st.watch.value[c.name] == v, "no-events", st.text, "control ", c.name, " shows ", st.watch.value[c.name], " instead of ", v, " in 700 ms after the change");
                }
            }
        }
        w.runTo(w.now() + (regs == SEMI ? 12 : 5) * SEC);
        st.compare("stale2", "after the last change");
        st.order();
        // a dead device is noticed
        if (!quick) {
            mc::outcome(st.digest());
            mc::state(st.digest());
            return;
        }
        st.s1.online = false;
        w.runTo(w.now() + timeout * MS + (regs == SEMI ? 30 : 4) * SEC);
        MC_CHECK(st.watch.devError, "dead-device", st.text, "the device doesn't answer for ", timeout + 4000, " ms but isn't shown as disconnected");
        w.runTo(w.now() + 40 * SEC);
        for (auto& c: st.ctls) {
            MC_CHECK(st.watch.error[c.name].find('r') != std::string::npos, "dead-control", st.text, "the device is disconnected but control ", c.name, " has error '", st.watch.error[c.name], "'");
        }
        mc::outcome(st.digest());
        mc::state(st.digest());
    }

    //! Events nobody has asked for are switched off and don't hamper others
    void unexpected()
    {
        int kind = mc::choose(2, "transport");
        int who = mc::choose(3, "source");            // a register of a known device, of an unknown one, both
        int failures = mc::choose(3, "failures");     // of requests disabling events
        int failure = failures ? mc::choose(3, "failure") : 0;
        int first = mc::choose(2, "at once");
        int extra = mc::choose(3, "registers") * 2 + 1;
        World w(kind, kind);
        FmNet fm(w.net);
        auto& s1 = w.net.add(1);
        auto& s7 = w.net.add(7);
        s1.regs[3] = {{10, 1}, {20, 2}};
        for (int i = 0; i < extra; ++i) {
            s1.regs[3][100 + 3 * i] = 1;
            s7.regs[4][10 + i] = 2;
        }
        auto& d1 = fm.add(s1);
        auto& d7 = fm.add(s7);
        int disables = 0;
        auto fault = [&](const Access& a) -> int {
            if (a.fn == 0x46 && w.now() > 900 * MS && disables++ < failures) {
                static const int F[] = {LOST, REPLY_LOST, EXC1};
                return F[failure];
            }
            return OK;
        };
        s1.fault = s7.fault = fault;
        w.device(json(R"({"slave_id":"1","protocol":"modbus","response_timeout_ms":30,"channels":[{"name":"A","reg_type":"holding","address":10,"sporadic":true},{"name":"N","reg_type":"holding","address":20,"read_rate_limit_ms":500}]})"));
        std::string a;
        w.mqtt->OnPublish = [&](const WBMQTT::TPublication& p) {
            if (p.Control == "A" && p.HasValue) {
                a = p.Value;
            }
        };
        auto strange = [&] {
            for (int i = 0; i < extra; ++i) {
                if (who != 1) {
                    d1.enabled[{3, 100 + 3 * i}] = 1;
                    d1.mark({3, 100 + 3 * i});
                }
                if (who != 0) {
                    d7.enabled[{4, 10 + i}] = 1;
                    d7.mark({4, 10 + i});
                }
            }
        };
        if (first) {
            strange();
        } else {
            w.at(2000 * MS, strange);
        }
        // they go on changing
        for (int i = 0; i < 12; ++i) {
            w.at(2500 * MS + i * 300 * MS, [&, i] {
                for (int k = 0; k < extra; ++k) {
                    d1.set(3, 100 + 3 * k, i);
                    d7.set(4, 10 + k, i);
                }
            });
        }
        w.begin();
        for (int i = 1; i <= 5; ++i) {
            w.at(i * 1100 * MS, [&, i] { d1.set(3, 10, 100 + i); });
            w.runTo(i * 1100 * MS + 800 * MS);
            MC_CHECK(a == std::to_string(100 + i), "hampered", "source ", who, " failures ", failures, ": change of the register isn't published in 800 ms");
        }
        w.runTo(8 * SEC);
        w.trace();
        mc::nontrivial();
        int left = 0;
        for (auto& x: d1.enabled) {
            left += x.first.first == 3 && x.first.second >= 100;
        }
        for (auto& x: d7.enabled) {
            left += x.first.first == 4;
        }
        MC_CHECK(!left, "not-disabled", left, " unexpected events are still enabled, source ", who, " failures ", failures, " of kind ", failure);
        MC_CHECK(d1.enabled.count({3, 10}), "disabled", "events of a register of the configuration are disabled");
        mc::outcome(w.digest());
    }

    //! Registers always having something to report
    void flood()
    {
        int kind = mc::choose(2, "transport");
        int baud = mc::choose(3, "baud rate");
        int who = mc::choose(2, "device");
        int regs = mc::choose(2, "registers") ? 40 : 1;
        int highPriority = mc::choose(2, "high priority");
        World w(kind, kind);
        static const double BYTE[] = {1145.83, 190.97, 95.49};
        w.bus->byteUs = BYTE[baud];
        w.net.rawLatency = 900; // must be in the arbitration window
        FmNet fm(w.net);
        std::string ch;
        FmDevice* d[3] = {};
        for (int i = 1; i <= 2; ++i) {
            auto& s = w.net.add(i);
            s.latency = 2 * MS;
            s.regs[3] = {{20, 2}, {30, 0}};
            std::string ch = R"({"name":"N","reg_type":"holding","address":20,"read_rate_limit_ms":500},{"name":"W","reg_type":"holding","address":30,"read_rate_limit_ms":500})";
            for (int k = 0; k < (i == who + 1 ? regs : 1); ++k) {
                s.regs[3][100 + k] = 0;
                ch += mc::str(R"(,{"name":"E)", k, R"(","reg_type":"holding","address":)", 100 + k, R"(,"sporadic":true)", highPriority && i == who + 1 ? R"(,"read_period_ms":1000})" : "}");
            }
            d[i] = &fm.add(s);
            w.device(json(mc::str(R"({"slave_id":")", i, R"(","protocol":"modbus","channels":[)", ch, "]}")));
        }
        std::map<std::string, std::string> shown;
        w.mqtt->OnPublish = [&](const WBMQTT::TPublication& p) {
            if (p.HasValue) {
                shown[p.Device + p.Control] = p.Value;
            }
        };
        auto& noisy = *d[who + 1];
        auto& quiet = *d[2 - who];
        bool on = false;
        int n = 0;
        fm.eventFault = [&](int by) -> int {
            if (by == -1 && on) {
                ++n;
                for (int k = 0; k < regs; ++k) {
                    noisy.set(3, 100 + k, n);
                }
            }
            return OK;
        };
        w.begin();
        w.runTo(10 * SEC);
        on = true;
        int64_t from = w.now();
        w.runTo(from + SEC);
        for (int i = 1; i <= 4; ++i) {
            quiet.set(3, 100, i);
            w.command(2 - who, "W", std::to_string(i));
            auto t = w.now();
            w.runTo(t + 1000 * MS);
            auto q = "dev" + std::to_string(2 - who);
            MC_CHECK(quiet.slave->regs[3][30] == i, "flood-write", "a command isn't written in 1 s when device ", who + 1, " sends many events");
            // a device with endless events doesn't let others report theirs (by design of the protocol, see DESIGN.md)
            on = false;
            w.runTo(w.now() + 2000 * MS);
            on = true;
            MC_CHECK(shown[q + "E0"] == std::to_string(i), "flood-event", "an event of device ", 2 - who, " isn't published in 2 s after the end of many events of device ", who + 1);
        }
        w.runTo(from + 10 * SEC);
        w.trace();
        if (mc::tracing()) {
            for (auto& r: fm.requests) {
                mc::note(mc::str((r.t - w.start) / 1000.0, " ms event request from ", r.start, " max ", r.maxBytes, " confirms ", r.slave, "/", r.flag, " answered by ", r.answeredBy, " ", faultName(r.fault)));
            }
        }
        mc::nontrivial();
        for (int i = 1; i <= 2; ++i) {
            int64_t last = from, worst = 0;
            for (auto& a: w.net.log) {
                if (a.slave == i && a.fn == 3 && a.addr <= 20 && a.addr + a.count > 20 && a.t - w.start > from) {
                    worst = std::max(worst, a.t - w.start - last);
                    last = a.t - w.start;
                }
            }
            worst = std::max(worst, w.now() - last);
            MC_CHECK(worst < 3 * SEC, "flood-poll", "a polled register of device ", i, " isn't read for ", worst / MS, " ms when device ", who + 1, " sends many events");
        }
        mc::outcome(w.digest());
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    bool th = mc::thorough();
    {
        mc::Options o;
        o.name = "faults";
        o.seconds = th ? 200 : 25;
        o.executionSeconds = 60;
        o.shardDepth = 5;
        o.mustCover = {"fault"};
        mc::explore(o, [=] {
            try {
                faults(th ? 6 : 4);
            } catch (const ExecutionEnd&) {
            }
        });
    }
    {
        mc::Options o;
        o.name = "life";
        o.seconds = th ? 600 : 70;
        o.executionSeconds = 60;
        o.shardDepth = 5;
        o.mustCover = {"events enabled"};
        mc::explore(o, [=] {
            try {
                life(th ? 3 : 2);
            } catch (const ExecutionEnd&) {
            }
        });
    }
    for (auto& x: {std::make_pair("unexpected", unexpected), std::make_pair("flood", flood)}) {
        mc::Options o;
        o.name = x.first;
        o.seconds = 20;
        o.executionSeconds = 60;
        o.shardDepth = 4;
        auto f = x.second;
        mc::explore(o, [=] {
            try {
                f();
            } catch (const ExecutionEnd&) {
            }
        });
    }
    return mc::finish();
}
