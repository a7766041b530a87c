// P13: what is published for a control follows what has been read
#include "fm.h"
using namespace sim;

namespace
{
    enum Kind
    {
        PLAIN,
        SCALED,
        ONOFF,       // on_value / off_value
        MULTI,       // two registers, one control
        MULTI_APART, // the same, in different requests
        COUNTER,     // press counter
        ERROR_VALUE,
        UNSUPPORTED,
        STRING,
        PERIODIC, // read_period
        KINDS
    };
    const char* NAMES[] = {"plain", "scaled", "on/off values", "two registers", "two distant registers", "press counter", "error value", "unsupported value", "string", "periodic"};

    struct Pub
    {
        int64_t t;
        size_t accesses;
        bool hasValue;
        std::string value, error;
    };
    enum Step
    {
        SAME,
        NEXT,
        ZERO,   // special value: 0 / error value / unsupported value / unknown value
        FAIL,   // no answer
        REFUSE, // exception 2
        STEPS
    };

    void publications(int steps)
    {
        int kind = mc::choose(KINDS, "control");
        int policy = mc::choose(3, "policy"); // on change, all, some unchanged
        static const char* LIMITS[] = {"", ",\"device_timeout_ms\":0,\"device_max_fail_cycles\":1"};
        int limits = mc::choose(2, "limits");
        int64_t interval = 1200;
        World w;
        w.config->OpenCloseSettings.MaxFailTime = milliseconds(-1);
        auto& s = w.net.add(1);
        s.regs[3] = {{10, 5}, {11, 7}, {30, 9}};
        for (int i = 0; i < 4; ++i) {
            s.regs[3][50 + i] = "ab\0\0"[i];
        }
        const char* regs = "";
        auto& table = s.regs[kind == COUNTER ? 4 : 3];
        s.regs[4][10] = 5;
        std::vector<int> addrs{10};
        switch (kind) {
            case PLAIN:
                regs = R"({"name":"A","reg_type":"holding","address":10,"read_rate_limit_ms":500})";
                break;
            case SCALED:
                regs = R"({"name":"A","reg_type":"holding","address":10,"scale":0.1,"offset":-3,"format":"s16","read_rate_limit_ms":500})";
                break;
            case ONOFF:
                regs = R"({"name":"A","reg_type":"holding","address":10,"type":"switch","on_value":6,"off_value":5,"read_rate_limit_ms":500})";
                break;
            case MULTI:
                addrs = {10, 11};
                regs = R"({"name":"A","type":"rgb","consists_of":[{"reg_type":"holding","address":10,"read_rate_limit_ms":500},{"reg_type":"holding","address":11,"read_rate_limit_ms":500}]})";
                break;
            case MULTI_APART:
                addrs = {10, 30};
                regs = R"({"name":"A","type":"rgb","consists_of":[{"reg_type":"holding","address":10,"read_rate_limit_ms":500},{"reg_type":"holding","address":30,"read_rate_limit_ms":500}]})";
                break;
            case COUNTER:
                regs = R"({"name":"A","reg_type":"press_counter","address":10,"read_rate_limit_ms":500})";
                break;
            case ERROR_VALUE:
                regs = R"({"name":"A","reg_type":"holding","address":10,"error_value":"0x7FFF","read_rate_limit_ms":500})";
                break;
            case UNSUPPORTED:
                regs = R"({"name":"A","reg_type":"holding","address":10,"unsupported_value":"0xFFFE","read_rate_limit_ms":500})";
                break;
            case STRING:
                addrs = {50};
                regs = R"({"name":"A","reg_type":"holding","address":50,"format":"string","string_data_size":4,"read_rate_limit_ms":500})";
                break;
            case PERIODIC:
                regs = R"({"name":"A","reg_type":"holding","address":10,"read_period_ms":500})";
                break;
        }
        // Model
        struct Reg
        {
            bool read = false;    // has been read at least once since it became known
            bool refused = false; // answered with a permanent exception
            bool failed = false;  // the last read has failed
            bool errorValue = false;
            uint32_t value = 0;
        };
        std::map<int, Reg> model;
        struct Snapshot
        {
            int64_t t;
            std::map<int, Reg> m;
            bool ok;
            std::string str;
            int addr;
            bool disconnected; // the device has been disconnected before this access since the previous good one
        };
        std::vector<Snapshot> snaps;
        std::vector<int> script;
        size_t used = 0;
        uint32_t counter = 5;
        bool lostSince = false;
        s.fault = [&](const Access& a) -> int {
            if (a.isWrite()) {
                return OK;
            }
            int step = SAME;
            if ((int)used < steps) {
                ++used;
                step = mc::choose(kind == PLAIN || kind == MULTI || kind == MULTI_APART || kind == SCALED || kind == PERIODIC ? 5 : kind == STRING ? 4 : 5, "step");
                if (kind == STRING && step == ZERO) {
                    step = FAIL;
                }
            }
            int res = OK;
            switch (step) {
                case SAME:
                    break;
                case NEXT:
                    ++counter;
                    if (kind == STRING) {
                        table[51] = 'a' + counter % 20;
                    } else if (kind == ONOFF) {
                        table[10] = table[10] == 5 ? 6 : 5;
                    } else {
                        table[a.addr] = counter;
                    }
                    break;
                case ZERO:
                    table[a.addr] = kind == ERROR_VALUE ? 0x7FFF : kind == UNSUPPORTED ? 0xFFFE : kind == SCALED ? 0xFFF0 : kind == ONOFF ? 17 : 0;
                    break;
                case FAIL:
                    res = LOST;
                    break;
                case REFUSE:
                    res = EXC2;
                    break;
            }
            for (auto x: addrs) {
                if (x < a.addr || x >= a.addr + a.count) {
                    continue;
                }
                auto& r = model[x];
                if (res == OK) {
                    r.value = table[x];
                    r.errorValue = (kind == ERROR_VALUE && r.value == 0x7FFF) || (kind == UNSUPPORTED && r.value == 0xFFFE);
                    r.failed = false;
                    r.read = true;
                } else {
                    r.failed = true;
                    r.refused = res == EXC2;
                    r.read = r.read || res == EXC2;
                }
            }
            snaps.push_back({vclock::now, model, res == OK, Access(a).str(), a.addr, lostSince});
            if (res == OK) {
                lostSince = false;
            }
            return res;
        };
        w.device(json(mc::str(R"({"slave_id":"1","protocol":"modbus","response_timeout_ms":50)", LIMITS[limits], R"(,"channels":[)", regs, "]}")));
        std::vector<Pub> pubs;
        w.mqtt->OnPublish = [&](const WBMQTT::TPublication& p) {
            if (p.Device == "dev1" && p.Control == "A") {
                pubs.push_back({vclock::now, snaps.size(), p.HasValue, p.Value, p.Error});
            } else if (p.Device == "dev1" && p.Control.empty() && !p.Error.empty()) {
                lostSince = true;
            }
        };
        WBMQTT::TPublishParameters params;
        params.Policy = policy == 0 ? WBMQTT::TPublishParameters::PublishOnlyOnChange : policy == 1 ? WBMQTT::TPublishParameters::PublishAll : WBMQTT::TPublishParameters::PublishSomeUnchanged;
        params.PublishUnchangedInterval = std::chrono::milliseconds(interval);
        w.begin(params);
        w.runTo((steps * 600 + 1800) * MS);
        w.trace();
        if (mc::tracing()) {
            for (auto& p: pubs) {
                mc::note(mc::str("published at ", p.t / MS, " after access ", p.accesses, p.hasValue ? " = " + p.value : " (error only)", " error '", p.error, "'"));
            }
        }

        // Oracle
        auto text = [&](const std::map<int, Reg>& m) {
            std::string res;
            for (auto a: addrs) {
                auto& r = m.at(a);
                std::string v;
                if (kind == STRING) {
                    v = "";
                } else if (kind == SCALED) {
                    double d = (int16_t)r.value * 0.1 - 3;
                    char b[30];
                    snprintf(b, sizeof b, "%.15g", d);
                    v = b;
                } else if (kind == ONOFF) {
                    v = r.value == 6 ? "1" : r.value == 5 ? "0" : std::to_string(r.value);
                } else {
                    v = std::to_string(r.value);
                }
                res += (res.empty() ? "" : ";") + v;
            }
            return res;
        };
        std::string shown, error;
        bool hasShown = false;
        int64_t lastPub = 0;
        size_t p = 0;
        bool zeroBlocked = false;
        for (size_t i = 0; i < snaps.size(); ++i) {
            auto& sn = snaps[i];
            std::string prevShown = shown, prevError = error;
            bool prevHas = hasShown;
            auto prevPub = lastPub;
            int values = 0, all = 0;
            auto before = p;
            for (; p < pubs.size() && pubs[p].accesses <= i + 1; ++p) {
                ++all;
                if (pubs[p].hasValue) {
                    ++values;
                    shown = pubs[p].value;
                    hasShown = true;
                    lastPub = pubs[p].t;
                }
                error = pubs[p].error;
            }
            (void)before;
            auto when = mc::str(NAMES[kind], " policy ", policy, " after ", sn.str, " at ", (sn.t - w.start) / MS, " ms: ");
            bool complete = true, anyFailed = false, everKnown = true;
            for (auto a: addrs) {
                auto it = sn.m.find(a);
                if (it == sn.m.end() || !it->second.read) {
                    complete = false;
                    everKnown = false;
                }
                if (it != sn.m.end() && (it->second.failed || it->second.errorValue)) {
                    anyFailed = true;
                }
            }
            if (sn.disconnected) {
                zeroBlocked = true;
            }
            bool r = error.find('r') != std::string::npos;
            if (anyFailed) {
                MC_CHECK(r, "no-error", when, "the control shows no read error ('", error, "')");
                MC_CHECK(!values || (addrs.size() > 1) || sn.m.at(addrs[0]).errorValue, "value-of-failed", when, "a value is published after a failed read");
                mc::cover("read error");
                mc::nontrivial();
                // an error which has not changed isn't a reason to publish a value
                if (hasShown && prevHas && kind != ERROR_VALUE && kind != UNSUPPORTED && addrs.size() == 1) {
                    MC_CHECK(shown == prevShown, "value-changed", when, "the value is changed by a failed read");
                }
                continue;
            }
            if (!complete) {
                (void)everKnown;
                MC_CHECK(!values, "incomplete", when, "published before all registers of the control are read");
                continue;
            }
            MC_CHECK(!r, "stale-error", when, "read error '", error, "' though everything is read");
            if (kind == COUNTER) {
                if (sn.m.at(10).value == 0 && zeroBlocked) {
                    MC_CHECK(!values && shown == prevShown, "zero-counter", when, "zero is published right after a reconnection");
                    mc::cover("zero press counter is hidden");
                    continue;
                }
                zeroBlocked = false;
            }
            if (kind != STRING) {
                MC_CHECK(hasShown && shown == text(sn.m), "wrong-value", when, "the control shows '", shown, "' instead of '", text(sn.m), "'");
            } else {
                std::string e{'a', (char)0};
                e[1] = s.regs[3][51];
                MC_CHECK(hasShown && shown.size() == 2 && shown[0] == 'a', "wrong-string", when, "the control shows '", shown, "'");
            }
            // the policy
            bool changed = !prevHas || shown != prevShown;
            bool errorChanged = error != prevError;
            if (policy == 0) {
                MC_CHECK(values == (changed ? 1 : 0) || (changed && values == (int)addrs.size()), "policy-on-change", when, values, " values are published, the value is ", changed ? "" : "not ", "changed");
                MC_CHECK(changed || errorChanged || !values, "policy-extra", when, "an unchanged value is published");
                mc::cover("published on change");
            } else if (policy == 1) {
                MC_CHECK(values >= 1, "policy-all", when, "not published");
                mc::cover("published always");
            } else {
                bool due = sn.t - prevPub >= interval * MS;
                bool notDue = sn.t + 150 * MS - prevPub < interval * MS;
                if (changed || errorChanged || due) {
                    MC_CHECK(values >= 1, "policy-interval", when, "not published for ", (sn.t - prevPub) / MS, " ms");
                    if (!changed && !errorChanged) {
                        mc::cover("published by the interval");
                    }
                }
                if (!changed && !errorChanged && notDue) {
                    MC_CHECK(!values, "policy-interval-extra", when, "an unchanged value is published in ", (sn.t - prevPub) / MS, " ms");
                }
            }
        }
        mc::outcome(w.digest());
        mc::state(w.digest());
    }

    // Every press of a push button is published, though the value is always the same
    void pushButton(int steps)
    {
        int policy = mc::choose(3, "policy");
        World w;
        auto& s = w.net.add(1);
        s.regs[3] = {{10, 0}, {11, 5}};
        s.regs[1] = {{3, 0}};
        int coil = mc::choose(2, "coil");
        w.device(json(mc::str(R"({"slave_id":"1","protocol":"modbus","response_timeout_ms":50,"channels":[{"name":"P","type":"pushbutton","reg_type":)", coil ? R"("coil","address":3)" : R"("holding","address":10)", R"(},{"name":"B","reg_type":"holding","address":11,"read_rate_limit_ms":100}]})")));
        std::vector<int> script;
        for (int i = 0; i < steps; ++i) {
            script.push_back(mc::choose(3, "answer"));
        }
        size_t used = 0;
        s.fault = [&](const Access& a) -> int {
            if (!a.isWrite() || used >= script.size()) {
                MC_CHECK(a.isWrite() || (coil ? a.fn != 1 : a.addr + a.count <= 10 || a.addr > 10), "push-read", "a push button is polled: ", Access(a).str());
                return OK;
            }
            int k = script[used++];
            return k == 0 ? OK : k == 1 ? EXC2 : EXC4;
        };
        std::vector<Pub> pubs;
        w.mqtt->OnPublish = [&](const WBMQTT::TPublication& p) {
            if (p.Device == "dev1" && p.Control == "P") {
                pubs.push_back({vclock::now, 0, p.HasValue, p.Value, p.Error});
            }
        };
        WBMQTT::TPublishParameters params;
        params.Policy = policy == 0 ? WBMQTT::TPublishParameters::PublishOnlyOnChange : policy == 1 ? WBMQTT::TPublishParameters::PublishAll : WBMQTT::TPublishParameters::PublishSomeUnchanged;
        params.PublishUnchangedInterval = std::chrono::seconds(100);
        w.begin(params);
        w.runTo(500 * MS);
        for (int i = 0; i < steps && used < script.size(); ++i) {
            size_t before = pubs.size();
            auto first = used;
            w.command(1, "P", "1");
            w.runTo((1000 + 500 * i) * MS);
            MC_CHECK(used > first, "push-not-written", "press ", i, " is not written");
            bool good = false, refused = false;
            for (size_t j = first; j < used; ++j) {
                good = script[j] == 0;
                refused = refused || script[j] == 1;
            }
            bool exhausted = used == script.size() && !good && !refused; // retried and accepted after the end of the script
            std::string value, error;
            int values = 0;
            for (size_t j = before; j < pubs.size(); ++j) {
                if (pubs[j].hasValue) {
                    ++values;
                    value = pubs[j].value;
                }
                error = pubs[j].error;
            }
            if (good || exhausted) {
                MC_CHECK(values == 1 && value == "1" && error.empty(), "push-published", "press ", i, " policy ", policy, ": ", values, " values are published, the last one '", value, "' with error '", error, "'");
                mc::cover("push button");
                mc::nontrivial();
            } else {
                MC_CHECK(!values, "push-failed", "press ", i, " is published though it is refused");
                MC_CHECK(pubs.empty() || pubs.back().error == "w", "push-error", "press ", i, " has error '", pubs.empty() ? "" : pubs.back().error, "' though it is refused");
            }
        }
        mc::outcome(w.digest());
        mc::state(w.digest());
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    mc::Options o;
    o.name = "publications";
    o.seconds = 60;
    o.shardDepth = 4;
    o.mustCover = {"read error", "zero press counter is hidden", "published on change", "published always", "published by the interval"};
    int steps = mc::thorough() ? 7 : 5;
    mc::explore(o, [=] {
        try {
            publications(steps);
        } catch (const ExecutionEnd&) {
        }
    });
    mc::Options push;
    push.name = "push-buttons";
    push.seconds = 30;
    push.shardDepth = 3;
    push.mustCover = {"push button"};
    mc::explore(push, [=] {
        try {
            pushButton(mc::thorough() ? 6 : 4);
        } catch (const ExecutionEnd&) {
        }
    });
    return mc::finish();
}
