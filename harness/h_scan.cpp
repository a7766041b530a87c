// P12: scan of a port by Fast Modbus finds all the devices and tells them apart
#include "rpc/rpc_device_probe_task.h"
#include "rpc/rpc_port_scan_serial_client_task.h"
#include "sim.h"
#include "wb_registers.h"
using namespace sim;

namespace
{
    //! Answers of a device on the bus
    struct Dev
    {
        uint32_t sn;
        uint8_t id;
        std::string modelEx, model, fwSig, fw; // empty: no such registers
        int baud, parity, stop;
        bool silent = false; // doesn't take part in the current scan any more
        std::optional<uint16_t> reg(int a) const
        {
            auto text = [&](const std::string& s, int from, int n) -> std::optional<uint16_t> {
                if (s.empty() || a >= from + n) {
                    return std::nullopt;
                }
                return a - from < (int)s.size() ? (uint8_t)s[a - from] : 0;
            };
            switch (a) {
                case 110:
                    return baud ? std::optional<uint16_t>(baud) : std::nullopt;
                case 111:
                    return parity;
                case 112:
                    return stop;
                case 270:
                    return sn >> 16;
                case 271:
                    return sn & 0xFFFF;
            }
            if (a >= 200 && a < 220) {
                return modelEx.empty() ? text(model, 200, 6) : text(modelEx, 200, 20);
            }
            if (a >= 250 && a < 266) {
                return text(fw, 250, 16);
            }
            if (a >= 290 && a < 302) {
                return text(fwSig, 290, 12);
            }
            return std::nullopt;
        }
        std::optional<bytes> read(int a, int n) const
        {
            bytes b;
            for (int i = 0; i < n; ++i) {
                auto v = reg(a + i);
                if (!v) {
                    return std::nullopt;
                }
                b.push_back(*v >> 8);
                b.push_back(*v);
            }
            return b;
        }
    };

    const std::vector<Dev> KINDS = {
        {0x00012345, 12, "WB-MR6C v.2", "WBMR6C", "mr6cG", "1.17.3", 96, 0, 2},
        {0xFE0A0B0C, 12, "WB-MAP12E", "WBMAP1", "map12e", "2.3.0", 1152, 2, 1}, // the upper bits are of the model
        {0x00FFFFFF, 200, "", "WBMSW4", "msw4", "4.0.1-rc7", 96, 1, 2},         // old: no extended model
        {0x7FFFFFFF, 1, "WB-M1W2", "WBM1W2", "", "", 0, 7, 2},                  // no signature, version and baud rate
    };

    struct Read
    {
        uint32_t sn;
        int addr, count, tries = 0;
        bool ok = false, exception = false;
    };

    enum F
    {
        FX_OK,
        FX_LOST,
        FX_REPLY_LOST,
        FX_BADCRC,
        FX_TRUNC,
        FX_FOREIGN,   // the answer has another serial number (scan: another command)
        FX_EXCEPTION, // scan: no answer at all for this one neither
        FX_COUNT
    };

    struct Scan
    {
        World w;
        bool tcp;
        uint8_t cmd;
        std::vector<Dev> devs;
        std::vector<Read> reads;
        std::vector<std::string> log;
        std::vector<uint32_t> found; // those whose answers have got to the service
        bool faults = false, scanFault = false;
        bool silence = false; // nobody has answered the start of the scan
        int arbitration = 0;
        int requests = 0;
        std::string settings;

        Scan(bool tcp, uint8_t cmd): w(tcp, tcp), tcp(tcp), cmd(cmd)
        {
            w.net.rawLatency = 1 * MS;
            w.net.raw = [this](const bytes& f) { return onFrame(f); };
        }
        bytes wrap(const bytes& req, const bytes& pdu, int prefix)
        {
            bytes r;
            if (!tcp) {
                r.assign(prefix, 0xFF);
            }
            auto p = w.net.pack(req, 0xFD, pdu);
            r.insert(r.end(), p.begin(), p.end());
            return r;
        }
        static void sn(bytes& b, uint32_t v)
        {
            b.insert(b.end(), {(uint8_t)(v >> 24), (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v});
        }
        bytes spoil(bytes r, int f)
        {
            if (f == FX_LOST || f == FX_REPLY_LOST) {
                return {};
            }
            if (f == FX_BADCRC) {
                r.back() ^= 1;
                if (tcp) { // no checksum there: a wrong transaction
                    r.back() ^= 1;
                    r[1] ^= 0x55;
                }
            }
            if (f == FX_TRUNC) {
                r.resize(r.size() - 3);
            }
            return r;
        }
        std::optional<bytes> onFrame(const bytes& f)
        {
            bytes pdu;
            bool ours = false;
            if (tcp) {
                ours = f.size() > 8 && f[6] == 0xFD;
                if (ours) {
                    pdu.assign(f.begin() + 7, f.end());
                }
            } else {
                ours = f.size() > 4 && f[0] == 0xFD;
                if (ours) {
                    pdu.assign(f.begin() + 1, f.end() - 2);
                    bytes g(f.begin(), f.end() - 2);
                    Net::crc(g);
                    MC_CHECK(g == f, "request-crc", "wrong CRC of ", hex(f));
                }
            }
            if (!ours) {
                return std::nullopt;
            }
            if (pdu[0] == 0x46 && pdu[1] == 0x10) { // events aren't the subject
                return bytes();
            }
            ++requests;
            MC_CHECK(requests < 400, "endless", "the scan doesn't end");
            settings = w.bus->settingsNow;
            MC_CHECK(pdu[0] == cmd, "command", hex(f), " is sent instead of the command ", (int)cmd);
            if (pdu[1] == 1 || pdu[1] == 2) {
                return scan(f, pdu);
            }
            MC_CHECK(pdu[1] == 8, "subcommand", "unknown request ", hex(f));
            return standard(f, pdu);
        }
        bytes scan(const bytes& f, const bytes& pdu)
        {
            int fault = faults ? mc::deviate(FX_EXCEPTION, "scan fault") : FX_OK;
            if (fault) {
                scanFault = true;
                silence = pdu[1] == 1 && (fault == FX_LOST || fault == FX_REPLY_LOST || (tcp && fault == FX_BADCRC) || devs.empty());
                mc::nontrivial();
            }
            log.push_back(mc::str(pdu[1] == 1 ? "start" : "next", " fault ", fault));
            if (fault == FX_LOST) {
                return {};
            }
            if (pdu[1] == 1) {
                for (auto& d: devs) {
                    d.silent = false;
                }
            }
            Dev* winner = nullptr;
            for (auto& d: devs) {
                if (!d.silent && (!winner || d.sn < winner->sn)) {
                    winner = &d;
                }
            }
            bytes r{cmd};
            if (winner) {
                winner->silent = true;
                r.push_back(3);
                sn(r, winner->sn);
                r.push_back(winner->id);
                if (!fault) {
                    found.push_back(winner->sn);
                }
            } else if (pdu[1] == 1) {
                return {};
            } else {
                r.push_back(4);
            }
            if (fault == FX_FOREIGN) {
                r[1] = 0x12;
            }
            return spoil(wrap(f, r, arbitration), fault);
        }
        bytes standard(const bytes& f, const bytes& pdu)
        {
            if (pdu.size() != 11 || pdu[6] != 3) {
                mc::fail("request", "it isn't a request to read: " + hex(f));
                return {};
            }
            uint32_t s = pdu[2] << 24 | pdu[3] << 16 | pdu[4] << 8 | pdu[5];
            int a = pdu[7] << 8 | pdu[8], n = pdu[9] << 8 | pdu[10];
            Dev* d = nullptr;
            for (auto& x: devs) {
                if (x.sn == s) {
                    d = &x;
                }
            }
            if (!d) {
                mc::fail("unknown-sn", mc::str("request to an unknown serial number ", s));
                return {};
            }
            if (reads.empty() || reads.back().sn != s || reads.back().addr != a || reads.back().count != n) {
                reads.push_back({s, a, n});
            }
            auto& rd = reads.back();
            MC_CHECK(!rd.ok && !rd.exception, "read-again", "register ", a, " is read again after an answer");
            ++rd.tries;
            MC_CHECK(rd.tries <= 3, "tries", "register ", a, " is read ", rd.tries, " times");
            int fault = faults ? mc::deviate(FX_COUNT, "read fault") : FX_OK;
            if (fault) {
                mc::nontrivial();
            }
            log.push_back(mc::str(s, " read ", a, " n ", n, " fault ", fault));
            auto data = d->read(a, n);
            bytes r{cmd, 9};
            sn(r, fault == FX_FOREIGN ? s ^ 0x100 : s);
            if (!data || fault == FX_EXCEPTION) {
                r.insert(r.end(), {0x83, 2});
            } else {
                r.insert(r.end(), {3, (uint8_t)(2 * n)});
                if (fault == FX_FOREIGN) {
                    for (auto& b: *data) {
                        b ^= 0x11;
                    }
                }
                r.insert(r.end(), data->begin(), data->end());
            }
            if (fault == FX_OK || fault == FX_EXCEPTION) {
                (data && !fault ? rd.ok : rd.exception) = true;
            }
            return spoil(wrap(f, r, 0), fault);
        }
        //! Result of reading: nothing if it failed
        std::optional<bool> done(uint32_t s, int a, int n) const
        {
            std::optional<bool> res;
            for (auto& r: reads) {
                if (r.sn == s && r.addr == a && r.count == n) {
                    MC_CHECK(r.ok || r.exception || r.tries == 3, "given-up", "register ", a, " is given up after ", r.tries, " tries");
                    MC_CHECK(!res, "read-twice", "register ", a, " of ", s, " is read twice");
                    res = r.ok;
                }
            }
            return res;
        }
        Dev* bySn(uint32_t s)
        {
            for (auto& d: devs) {
                if (d.sn == s) {
                    return &d;
                }
            }
            return nullptr;
        }
    };

    std::string text(const Json::Value& v)
    {
        Json::StreamWriterBuilder b;
        b["indentation"] = "";
        return Json::writeString(b, v);
    }

    void checkDevice(Scan& s, Json::Value j, const Dev& d, bool known)
    {
        auto sn = d.sn;
        std::set<std::string> expected;
        auto field = [&](const char* name, const Json::Value& got, std::optional<bool> done, const Json::Value& v, const char* id) {
            MC_CHECK(done.has_value(), "not-read", name, " of ", sn, " isn't read");
            if (done.value_or(false)) {
                MC_CHECK(got == v, "field", name, " of ", sn, " is ", text(got), " instead of ", text(v));
            } else {
                MC_CHECK(got.isNull(), "field-invented", name, " of ", sn, " is ", text(got), " but it hasn't been read");
                expected.insert(id);
                mc::cover("field missing");
            }
        };
        auto ex = s.done(sn, 200, 20), old = s.done(sn, 200, 6);
        MC_CHECK(!(ex.value_or(false) && old), "read-old", "the short signature is read though the full one is known");
        field("device_signature", j["device_signature"], ex.value_or(false) ? ex : old,
              ex.value_or(false) ? d.modelEx : d.modelEx.empty() ? d.model : d.modelEx.substr(0, 6), "read_device_signature_error");
        field("fw_signature", j["fw_signature"], s.done(sn, 290, 12), d.fwSig, "read_fw_signature_error");
        field("version", j.get("fw", Json::Value(Json::objectValue))["version"], s.done(sn, 250, 16), d.fw, "read_fw_version_error");
        field("baud_rate", j["cfg"]["baud_rate"], s.done(sn, 110, 1), Json::Value(Json::UInt64(d.baud * 100)), "read_serial_params_error");
        field("stop_bits", j["cfg"]["stop_bits"], s.done(sn, 112, 1), Json::Value(Json::UInt64(d.stop)), "read_serial_params_error");
        static const char* parities[] = {"N", "O", "E"};
        field("parity", j["cfg"]["parity"], s.done(sn, 111, 1), d.parity < 3 ? parities[d.parity] : "U", "read_serial_params_error");
        MC_CHECK(j["cfg"]["slave_id"] == d.id && j["cfg"]["data_bits"] == 8, "slave-id", sn, ": ", text(j["cfg"]));
        auto signature = j["device_signature"].asString();
        bool map = signature.find("MAP1") != std::string::npos;
        auto e = std::to_string(map ? sn & 0x01FFFFFF : sn);
        if (map) {
            mc::cover("number of a MAP");
        }
        MC_CHECK(j["sn"] == e, "sn", "sn is ", text(j["sn"]), " instead of ", e);
        std::set<std::string> got;
        for (auto& x: j["errors"]) {
            auto id = x["id"].asString();
            auto name = id.substr(id.rfind('.') + 1);
            MC_CHECK(got.insert(name).second, "error-twice", name, " is listed twice");
            MC_CHECK(!x["message"].asString().empty(), "error-message", "no message of ", name);
        }
        MC_CHECK(got == expected, "errors", sn, ": errors are ", text(j["errors"]), ", expected ", expected.size());
        if (j.isMember("configured_device_type")) {
            MC_CHECK(known, "configured", sn, " is taken for a configured device: ", text(j));
            MC_CHECK(j["configured_device_type"] == "Known", "configured-type", text(j));
            mc::cover("configured device");
        } else {
            MC_CHECK(!known, "not-configured", sn, " isn't found in the configuration: ", text(j));
        }
    }

    void scan(bool faults)
    {
        bool tcp = mc::choose(2, "tcp");
        uint8_t cmd = mc::choose(2, "command") ? 0x60 : 0x46;
        Scan s(tcp, cmd);
        auto& w = s.w;
        int which = mc::choose(faults ? 4 : 16, "devices");
        static const int few[] = {3, 4, 10, 0};
        int set = faults ? few[which] : which;
        for (int i = 0; i < 4; ++i) {
            if (set >> i & 1) {
                s.devs.push_back(KINDS[i]);
            }
        }
        int mode = mc::choose(2, "mode");
        s.arbitration = faults ? 4 : std::vector<int>{0, 4, 32}[mc::choose(3, "arbitration")];
        // polled devices
        int polled = (faults ? 3 : 1) * mc::choose(faults ? 2 : 4, "polled"); // none, the first one, foreign SN at the same id, the first one is switched on before scanning
        PSerialDevice dev;
        int pollReads = 0;
        if (polled) {
            auto& sl = w.net.add(12);
            for (int i = 0; i < 4; ++i) {
                sl.regs[3][i] = 10 + i;
            }
            sl.regs[3][50] = 0;
            uint32_t sn = KINDS[0].sn + (polled == 2 ? 1 : 0);
            sl.regs[3][270] = sn >> 16;
            sl.regs[3][271] = sn;
            sl.online = polled != 3;
            sl.onAccess = [&](const Access& a) {
                if (a.addr < 4 && a.ok()) {
                    ++pollReads;
                    MC_CHECK(sl.regs[3][50] == 77, "setup", "the device is polled without its setup");
                }
            };
            dev = w.device(json(R"({"slave_id":"12","protocol":"modbus)"
                                R"(","response_timeout_ms":50,"setup":[{"title":"S","address":50,"value":77}],"channels":[{"name":"A","reg_type":"holding","address":0,"read_rate_limit_ms":100}]})"));
            dev->DeviceConfig()->DeviceType = "Known";
            dev->SetSnRegister(WbRegisters::GetRegisterConfig(WbRegisters::SN_REGISTER_NAME));
        }
        w.begin();
        if (mc::choose(2, "polled before")) {
            w.runTo(500 * MS);
        }
        if (polled == 3) {
            w.net.slaves[12].online = true;
        }
        s.faults = faults;
        std::sort(s.devs.begin(), s.devs.end(), [](auto& a, auto& b) { return a.sn < b.sn; });
        int answers = 0, errors = 0;
        Json::Value result;
        std::string error;
        std::vector<Json::Value> list;
        std::string all;
        auto call = [&](const char* m) {
            Json::Value q = json(R"({"path":"/dev/ttySIM","baud_rate":115200,"parity":"E","data_bits":8,"stop_bits":1,"total_timeout":20000})");
            if (*m) {
                q["mode"] = m;
            }
            if (cmd == 0x60) {
                q["command"] = 0x60;
            }
            answers = errors = 0;
            auto before = s.requests;
            auto t = std::make_shared<TRPCPortScanSerialClientTask>(
                q,
                [&](const Json::Value& r) {
                    ++answers;
                    result = r;
                },
                [&](int, const std::string& e) {
                    ++errors;
                    error = e;
                });
            s.found.clear();
            s.reads.clear();
            s.scanFault = s.silence = false;
            w.client()->AddTask(t);
            for (int i = 0; i < 100 && answers + errors == 0; ++i) {
                w.runTo(w.now() + 200 * MS);
            }
            w.runTo(w.now() + 200 * MS);
            MC_CHECK(answers == 1 && errors == 0, "one-answer", answers, " answers, ", errors, " errors ", error);
            MC_CHECK(s.requests > before, "not-sent", "no request has been sent");
            MC_CHECK(s.settings == "115200E81", "line-settings", "scanning with the settings ", s.settings);
            MC_CHECK(w.bus->settingsNow == "default", "settings-left", "the settings after scanning: ", w.bus->settingsNow);
            mc::note(text(result));
            all += text(result);
            // contents
            MC_CHECK(result["devices"].isArray() && result["devices"].size() == s.found.size(), "devices", "found ", s.found.size(),
                     " devices, reported ", result["devices"].size());
            MC_CHECK(result.isMember("error") == (s.scanFault && !s.silence), "scan-error", "fault: ", s.scanFault, ", answer ", text(result));
            for (Json::ArrayIndex i = 0; i < result["devices"].size() && i < s.found.size(); ++i) {
                auto j = result["devices"][i];
                auto d = s.bySn(s.found[i]);
                auto sn = d->sn;
                checkDevice(s, j, *d, (polled == 1 || polled == 3) && sn == KINDS[0].sn);
            }
            mc::cover(tcp ? "tcp" : "rtu");
        };
        if (mode == 0) {
            call("");
            if (!faults) {
                MC_CHECK(s.found.size() == s.devs.size(), "all", "found ", s.found.size(), " of ", s.devs.size());
            }
            if (s.scanFault) {
                mc::cover("scan is interrupted");
                if (!s.found.empty()) {
                    mc::cover("those found before are reported");
                }
            }
        } else {
            size_t n = 0;
            for (int i = 0; i < 6; ++i) {
                call(i ? "next" : "start");
                bool f = s.scanFault;
                n += s.found.size();
                if (f || s.found.empty()) {
                    MC_CHECK(f || n == s.devs.size(), "all", "found ", n, " of ", s.devs.size());
                    break;
                }
                mc::cover("one by one");
            }
        }
        // once more: nothing is left of the first scan
        s.faults = false;
        call("");
        MC_CHECK(s.found.size() == s.devs.size(), "again", "found ", s.found.size(), " of ", s.devs.size(), " by the second scan");
        if (polled) {
            int before = pollReads;
            w.runTo(w.now() + 2 * SEC);
            MC_CHECK(pollReads > before + 5, "polling", "polling has stopped after scanning");
            mc::cover("polling goes on");
        }
        for (auto& l: s.log) {
            mc::note(l);
        }
        w.trace();
        mc::state(mc::hash(all));
        mc::outcome(mc::hash(all));
        mc::nontrivial();
    }

    //! The same by the slave id
    void probe(bool faults)
    {
        bool tcp = mc::choose(2, "tcp");
        Scan s(tcp, 0x46);
        auto& w = s.w;
        auto d = KINDS[mc::choose(4, "device")];
        int polled = mc::choose(4, "polled"); // not, is, foreign SN, is and has just been switched on
        bool absent = !faults && mc::choose(2, "absent");
        auto& sl = w.net.add(d.id);
        for (int a = 0; a < 400; ++a) {
            auto v = d.reg(a);
            if (v) {
                sl.regs[3][a] = *v;
            }
        }
        sl.regs[3][0] = 10;
        sl.regs[3][50] = 0;
        sl.online = polled != 3;
        sl.latency = 1 * MS;
        int snReads = 0, snFault = 0, pollReads = 0;
        bool running = false;
        sl.fault = [&](const Access& a) -> int {
            if (a.addr < 100) {
                return OK;
            }
            if (!running) {
                mc::fail("probe:late", mc::str("after the answer: ", a.str()));
            }
            MC_CHECK(w.bus->settingsNow == "115200E81", "line-settings", "probing with the settings ", w.bus->settingsNow);
            static const int kinds[] = {OK, LOST, REPLY_LOST, BADCRC, TRUNC, WRONGSLAVE, EXC2, EXC4};
            if (a.addr == 270) {
                if (snReads++) {
                    return OK; // by the polled device
                }
                snFault = kinds[faults ? mc::deviate(8, "sn fault") : 0];
                if (tcp && snFault == BADCRC) {
                    snFault = OK;
                }
                return snFault;
            }
            if (s.reads.empty() || s.reads.back().addr != a.addr || s.reads.back().count != a.count) {
                s.reads.push_back({d.sn, a.addr, a.count});
            }
            auto& rd = s.reads.back();
            MC_CHECK(!rd.ok && !rd.exception, "read-again", "register ", a.addr, " is read again after an answer");
            ++rd.tries;
            int fault = kinds[faults ? mc::deviate(8, "fault") : 0];
            if (tcp && fault == BADCRC) {
                fault = OK;
            }
            bool data = d.read(a.addr, a.count).has_value();
            if (fault == OK || fault == EXC2 || fault == EXC4) {
                (data && fault == OK ? rd.ok : rd.exception) = true;
            }
            return fault;
        };
        sl.onAccess = [&](const Access& a) {
            if (a.addr == 0 && a.ok()) {
                ++pollReads;
                MC_CHECK(sl.regs[3][50] == 77, "setup", "the device is polled without its setup");
            }
        };
        if (polled) {
            auto dev = w.device(json(mc::str(R"({"slave_id":")", (int)d.id, R"(","protocol":"modbus","response_timeout_ms":50,)",
                                             R"("setup":[{"title":"S","address":50,"value":77}],)",
                                             R"("channels":[{"name":"A","reg_type":"holding","address":0,"read_rate_limit_ms":100}]})")));
            dev->DeviceConfig()->DeviceType = "Known";
            dev->SetSnRegister(WbRegisters::GetRegisterConfig(WbRegisters::SN_REGISTER_NAME));
            if (polled == 2) { // what it was before: another device has the address now
                dev->GetSnRegister()->SetValue(TRegisterValue{uint64_t(d.sn + 1)});
            }
        }
        w.begin();
        if (polled != 2 && mc::choose(2, "polled before")) {
            w.runTo(500 * MS);
        }
        sl.online = !absent;
        int answers = 0, errors = 0;
        Json::Value result;
        std::string error;
        Json::Value q = json(R"({"path":"/dev/ttySIM","baud_rate":115200,"parity":"E","data_bits":8,"stop_bits":1})");
        q["slave_id"] = d.id;
        q["protocol"] = tcp ? "modbus-tcp" : "modbus";
        running = true;
        w.client()->AddTask(std::make_shared<TRPCDeviceProbeSerialClientTask>(
            q,
            [&](const Json::Value& r) {
                ++answers;
                result = r;
                running = false;
            },
            [&](int, const std::string& e) {
                ++errors;
                error = e;
                running = false;
            }));
        for (int i = 0; i < 100 && answers + errors == 0; ++i) {
            w.runTo(w.now() + 200 * MS);
        }
        bool polling = polled && !absent;
        int before = pollReads;
        w.runTo(w.now() + 2 * SEC);
        MC_CHECK(answers + errors == 1, "one-answer", answers, " answers, ", errors, " errors ", error);
        MC_CHECK(w.bus->settingsNow == "default", "settings-left", "the settings after probing: ", w.bus->settingsNow);
        if (polling) {
            MC_CHECK(pollReads > before + 3, "polling", "polling has stopped after probing");
        }
        if (absent || snFault == LOST || snFault == REPLY_LOST) {
            MC_CHECK(answers && result.isObject() && result.empty(), "probe:absent", text(result), error);
            mc::cover("nobody answers");
        } else if (snFault) {
            MC_CHECK(errors || (result.size() == 1 && result["errors"].size() == 1), "probe:sn", text(result), error);
            mc::cover("no serial number");
        } else {
            MC_CHECK(answers, "probe:error", error);
            checkDevice(s, result, d, polled == 1 || polled == 3);
            mc::cover("probed");
        }
        mc::nontrivial();
        mc::note(text(result) + error);
        w.trace();
        mc::state(mc::hash(text(result) + error));
        mc::outcome(mc::hash(text(result) + error));
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    mc::Options o;
    o.name = "scan";
    o.seconds = 60;
    o.shardDepth = 5;
    o.mustCover = {"field missing", "number of a MAP", "configured device", "tcp", "rtu", "one by one", "polling goes on"};
    auto run = [](bool faults, bool byId = false) {
        return [=] {
            try {
                byId ? probe(faults) : scan(faults);
            } catch (const ExecutionEnd&) {
            }
        };
    };
    mc::explore(o, run(false));
    o.name = "scan-faults";
    o.bound = mc::thorough() ? 3 : 2;
    o.mustCover = {"field missing", "scan is interrupted", "those found before are reported"};
    mc::explore(o, run(true));
    o.name = "probe";
    o.bound = 0;
    o.mustCover = {"probed", "nobody answers", "configured device", "field missing"};
    mc::explore(o, run(false, true));
    o.name = "probe-faults";
    o.bound = mc::thorough() ? 3 : 2;
    o.mustCover = {"probed", "nobody answers", "no serial number", "configured device", "field missing"};
    mc::explore(o, run(true, true));
    return mc::finish();
}
