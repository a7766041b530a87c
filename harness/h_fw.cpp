// P20: firmware update of devices over Modbus
#include "rpc/rpc_fw_update_handler.h"
#include "rpc/rpc_fw_update_helpers.h"
#include "sim.h"
using namespace sim;

class FwHandlerTest
{
public:
    TRPCFwUpdateHandler h;
    FwHandlerTest(ITaskRunner& r, PHttpClient http, PFwUpdateState state): h(r, http, state, "stable")
    {}
    using R = WBMQTT::TMqttRpcServer::TResultCallback;
    using E = WBMQTT::TMqttRpcServer::TErrorCallback;
    void call(const std::string& m, const Json::Value& req, R r, E e)
    {
        if (m == "Update") {
            h.Update(req, r, e);
        } else if (m == "Restore") {
            h.Restore(req, r, e);
        } else if (m == "GetFirmwareInfo") {
            h.GetFirmwareInfo(req, r, e);
        } else {
            Json::Value res;
            try {
                res = h.ClearError(req);
            } catch (const std::exception& ex) {
                e(-1, ex.what());
                return;
            }
            r(res);
        }
    }
};

namespace
{
    const char* BUSY = "Task is already executing.";
    const std::string HOST = "https://fw-releases.wirenboard.com";

    //! What the release server has
    struct Server: IHttpClient
    {
        std::map<std::string, std::string> texts;
        std::map<std::string, bytes> files;
        std::function<int(const std::string&)> fault; // 1: error, 2: empty / odd file, 3: short file
        std::function<void(const std::string&)> onRequest;
        std::map<std::string, int> requests;
        bool failed = false;
        std::string GetText(const std::string& url) override
        {
            ++requests[url];
            if (onRequest) {
                onRequest(url);
            }
            int f = fault ? fault(url) : 0;
            if (f == 1 || (!f && !texts.count(url))) {
                throw std::runtime_error("HTTP 404 downloading " + url);
            }
            return f ? "nothing: here" : texts[url];
        }
        bytes GetBinary(const std::string& url) override
        {
            ++requests[url];
            if (onRequest) {
                onRequest(url);
            }
            int f = fault ? fault(url) : 0;
            if (f == 1 || !files.count(url)) {
                throw std::runtime_error("HTTP 500 downloading " + url);
            }
            auto b = files[url];
            if (f == 2) {
                b.push_back(1);
            }
            if (f == 3) {
                b.resize(30);
            }
            return b;
        }
    };

    bytes image(int id, int size)
    {
        bytes b;
        for (int i = 0; i < 32; ++i) {
            b.push_back(0xC0 + id * 8 + i % 8);
        }
        for (int i = 0; i < size; ++i) {
            int k = i % 136;
            b.push_back(k == 0 ? i / 136 : k == 1 ? (i / 136 >> 8) + id * 16 : i / 136 * 37 + k);
        }
        return b;
    }

    struct Image
    {
        std::string kind; // firmware, bootloader, component
        int component = -1;
        std::string version;
        bytes file;
        bytes info() const
        {
            return {file.begin(), file.begin() + 32};
        }
        size_t blocks() const
        {
            return (file.size() - 32 + 135) / 136;
        }
        bytes block(size_t i) const
        {
            auto b = file.begin() + 32 + i * 136;
            return {b, file.end() - b > 136 ? b + 136 : file.end()};
        }
    };

    bytes toBytes(const std::vector<uint16_t>& v)
    {
        bytes b;
        for (auto x: v) {
            b.push_back(x >> 8);
            b.push_back(x);
        }
        return b;
    }

    //! The device: a firmware, a bootloader, components
    struct Dev
    {
        Slave& s;
        bool boot = false;
        bool preserve = true; // register 131
        bool modelExt = true;
        std::string signature = "sigA", fw = "1.2.3", bl = "1.0.0", model = "WBMX\x02";
        struct Comp
        {
            std::string sig, fw, model;
        };
        std::map<int, Comp> comps;
        std::vector<Image> images; // which it accepts
        const Image* session = nullptr;
        size_t done = 0;
        bool wrongBlock = false;
        std::map<std::string, bytes> flashed; // kind + component: data
        int reboots = 0;

        Dev(Slave& slave): s(slave)
        {}
        static void text(std::map<int, uint16_t>& m, int addr, int n, const std::string& t)
        {
            for (int i = 0; i < n; ++i) {
                m[addr + i] = i < (int)t.size() ? (uint8_t)t[i] : 0;
            }
        }
        void fill()
        {
            auto& h = s.regs[3];
            auto& in = s.regs[4];
            auto& d = s.regs[2];
            h.clear();
            in.clear();
            d.clear();
            text(h, 290, 12, signature);
            text(h, 330, 7, bl);
            for (int i = 0; i < 16; ++i) {
                h[0x1000 + i] = 0;
            }
            for (int i = 0; i < 68; ++i) {
                h[0x2000 + i] = 0;
            }
            if (boot) {
                return;
            }
            text(h, 250, 16, fw);
            text(h, 200, modelExt ? 20 : 6, model);
            h[129] = 0;
            if (preserve) {
                h[131] = 0;
            }
            if (!comps.empty()) {
                for (int i = 0; i < 8; ++i) {
                    d[65152 + i] = comps.count(i);
                }
                for (auto& c: comps) {
                    text(in, 64788 + c.first * 48, 12, c.second.sig);
                    text(in, 64800 + c.first * 48, 16, c.second.fw);
                    text(in, 64768 + c.first * 48, 20, c.second.model);
                }
            }
        }
        //! 0 or the exception which the device answers itself
        int refuse(const Access& a)
        {
            if (a.fn == 16 && a.addr == 0x1000) {
                auto info = toBytes(a.values);
                for (auto& i: images) {
                    if (i.info() == info && (boot ? i.kind != "component" : i.kind == "component")) {
                        return 0;
                    }
                }
                return EXC4;
            }
            if (a.fn == 16 && a.addr == 0x2000) {
                if (!session) {
                    return EXC4;
                }
                auto b = toBytes(a.values);
                for (size_t i = 0; i < done; ++i) {
                    if (b == padded(i)) {
                        return EXC4; // already written
                    }
                }
                if (done >= session->blocks() || b != padded(done)) {
                    wrongBlock = true;
                    return EXC4;
                }
                return 0;
            }
            return 0;
        }
        bytes padded(size_t i) const
        {
            auto b = session->block(i);
            if (b.size() % 2) {
                b.push_back(0xFF);
            }
            return b;
        }
        void access(const Access& a)
        {
            if (!a.applied) {
                return;
            }
            if (a.fn == 6 && (a.addr == 129 || a.addr == 131)) {
                boot = true;
                session = nullptr;
                ++reboots;
                fill();
            }
            if (a.fn == 16 && a.addr == 0x1000) {
                auto info = toBytes(a.values);
                for (auto& i: images) {
                    if (i.info() == info) {
                        session = &i;
                        done = 0;
                        flashed[key(i)].clear();
                        if (!session->blocks()) {
                            complete();
                        }
                        return;
                    }
                }
            }
            if (a.fn == 16 && a.addr == 0x2000 && session) {
                auto b = session->block(done);
                auto& f = flashed[key(*session)];
                f.insert(f.end(), b.begin(), b.end());
                ++done;
                if (done == session->blocks()) {
                    complete();
                }
            }
        }
        static std::string key(const Image& i)
        {
            return i.kind + (i.component >= 0 ? std::to_string(i.component) : "");
        }
        void complete()
        {
            if (session->kind == "firmware") {
                fw = session->version;
                boot = false;
            } else if (session->kind == "bootloader") {
                bl = session->version;
            } else {
                comps[session->component].fw = session->version;
            }
            fill();
        }
    };

    struct Queue: ITaskRunner
    {
        std::deque<PSerialClientTask> tasks;
        Json::Value request;
        bool refuse = false;
        void RunTask(const Json::Value& r, PSerialClientTask t) override
        {
            if (refuse) {
                throw std::runtime_error("port can't be used");
            }
            request = r;
            tasks.push_back(t);
        }
    };

    struct Answer
    {
        int results = 0, errors = 0;
        Json::Value result;
        std::string error;
        int total() const
        {
            return results + errors;
        }
    };

    Json::Value parse(const std::string& s)
    {
        return json(s);
    }

    struct Rig
    {
        Agenda agenda;
        std::shared_ptr<Bus> bus = std::make_shared<Bus>();
        Net net;
        PFeaturePort port;
        TSerialClientDeviceAccessHandler access{nullptr};
        Dev dev;
        std::shared_ptr<Server> http = std::make_shared<Server>();
        Queue queue;
        struct Pub
        {
            size_t accesses;
            Json::Value state;
        };
        std::vector<Pub> pubs;
        std::function<void()> onPublish;
        PFwUpdateState state;
        std::unique_ptr<FwHandlerTest> rpc;
        std::deque<Answer> answers;
        bool tcp;

        Rig(bool t = false): net(*bus, t), dev(net.add(10)), tcp(t)
        {
            vclock::reset();
            bus->agenda = &agenda;
            port = std::make_shared<TFeaturePort>(bus, t, false);
            state = std::make_shared<TFwUpdateState>(
                [this](const std::string& topic, const std::string& payload, bool retain) {
                    MC_CHECK(topic == "/topic" && retain, "not-retained", "the state is published to ", topic, retain ? "" : " without retain");
                    pubs.push_back({net.log.size(), parse(payload)});
                    if (onPublish) {
                        onPublish();
                    }
                },
                "/topic");
            rpc = std::make_unique<FwHandlerTest>(queue, http, state);
            dev.s.latency = 2 * MS;
            dev.s.onAccess = [this](const Access& a) { dev.access(a); };
        }
        void release(const Image& i, const std::string& path)
        {
            http->files[HOST + "/" + path] = i.file;
        }
        Answer& call(const std::string& method, const Json::Value& req)
        {
            answers.emplace_back();
            auto* a = &answers.back();
            try {
                rpc->call(
                    method,
                    req,
                    [a](const Json::Value& v) {
                        ++a->results;
                        a->result = v;
                    },
                    [a](int, const std::string& e) {
                        ++a->errors;
                        a->error = e;
                    });
            } catch (const std::exception& e) {
                mc::fail("handler-throws", mc::str(method, " throws ", e.what(), " instead of answering"));
            }
            return *a;
        }
        void runTask()
        {
            auto t = queue.tasks.front();
            queue.tasks.pop_front();
            t->Run(port, access, {});
            mc::transition();
        }
        const Json::Value devices() const
        {
            return pubs.empty() ? Json::Value(Json::arrayValue) : pubs.back().state["devices"];
        }
    };

    Json::Value request(const std::string& type = "", int slave = 10, bool tcp = false, const std::string& path = "/dev/ttySIM")
    {
        auto r = json(mc::str(R"({"slave_id":)", slave, R"(,"port":{"path":")", path, R"(","baud_rate":115200,"parity":"E","data_bits":8,"stop_bits":1}})"));
        if (tcp) {
            r["protocol"] = "modbus-tcp";
        }
        if (!type.empty()) {
            r["type"] = type;
        }
        return r;
    }

    //! Expected course of an operation, followed along the accesses of the log
    struct Course
    {
        Rig& r;
        size_t pos = 0; // in the log
        bool bad = false;
        struct Info
        {
            std::string sig, fw, bl, model;
            bool preserve = false;
            struct C
            {
                int n;
                std::string sig, fw, model;
            };
            std::vector<C> comps;
        };
        Course(Rig& rig): r(rig)
        {}
        const Access* take(int fn, int addr, int count, const char* what)
        {
            if (pos >= r.net.log.size()) {
                if (!bad) {
                    mc::fail("missing-request", mc::str(what, ": the service stops talking to the device before fn ", fn, " addr ", addr));
                }
                bad = true;
                return nullptr;
            }
            auto& a = r.net.log[pos++];
            if (a.fn != fn || a.addr != addr || a.count != count || a.slave != 10) {
                if (!bad) {
                    mc::fail("unexpected-request", mc::str(what, ": expected fn ", fn, " addr ", addr, " n ", count, ", got ", a.str()));
                }
                bad = true;
                return nullptr;
            }
            return &a;
        }
        static bool good(const Access* a)
        {
            return a && a->ok();
        }
        //! false: the signature is not available
        bool reads(Info& i, const Dev& before)
        {
            auto a = take(3, 290, 12, "signature");
            if (!good(a)) {
                return false;
            }
            auto printable = [](const std::string& s) {
                for (unsigned char c: s) {
                    if (c < 0x20 || c > 0x7E) {
                        return false;
                    }
                }
                return true;
            };
            i.sig = printable(before.signature) ? before.signature : "";
            if (good(take(3, 250, 16, "version"))) {
                i.fw = printable(before.fw) ? before.fw : "";
            }
            if (good(take(3, 330, 7, "bootloader"))) {
                i.bl = printable(before.bl) ? before.bl : "";
            }
            i.preserve = good(take(3, 131, 1, "reboot register"));
            std::string model;
            for (auto c: before.model) {
                if (c != 2) {
                    model += c;
                }
            }
            if (good(take(3, 200, 20, "model"))) {
                i.model = model;
            } else if (good(take(3, 200, 6, "short model"))) {
                i.model = model.substr(0, 6);
            }
            if (good(take(2, 65152, 8, "components"))) {
                for (auto& c: before.comps) {
                    int b = c.first * 48;
                    if (!good(take(4, 64788 + b, 12, "component signature"))) {
                        continue;
                    }
                    if (c.second.sig == std::string(12, '\xFE')) {
                        continue;
                    }
                    if (!good(take(4, 64800 + b, 16, "component version")) || !good(take(4, 64768 + b, 20, "component model"))) {
                        continue;
                    }
                    i.comps.push_back({c.first, c.second.sig, c.second.fw, c.second.model});
                }
            }
            return !bad;
        }
        //! true if the image is flashed
        bool flash(const Image& img, bool reboot, bool preserve)
        {
            auto what = img.kind + " flash";
            if (reboot) {
                auto a = take(6, preserve ? 131 : 129, 1, what.c_str());
                if (!a) {
                    return false;
                }
                MC_CHECK(a->values.at(0) == 1, "reboot-value", "register ", a->addr, " is written with ", a->values[0]);
                bool lost = a->fault == LOST || a->fault == REPLY_LOST;
                if (!good(a) && (preserve || !lost)) {
                    return false;
                }
                if (pos < r.net.log.size()) {
                    auto pause = r.net.log[pos].t - a->end;
                    MC_CHECK(pause >= 500 * MS, "reboot-pause", "the bootloader is accessed ", pause / MS, " ms after the reboot command");
                }
                mc::cover(preserve ? "reboot with port settings kept" : lost ? "legacy reboot without an answer" : "legacy reboot");
            }
            auto a = take(16, 0x1000, 16, what.c_str());
            if (!a) {
                return false;
            }
            MC_CHECK(toBytes(a->values) == img.info(), "wrong-info", what, ": wrong info block");
            if (!good(a)) {
                mc::cover("info block fails");
                return false;
            }
            for (size_t b = 0; b < img.blocks(); ++b) {
                auto exp = img.block(b);
                if (exp.size() % 2) {
                    exp.push_back(0xFF);
                }
                bool ok = false;
                for (int i = 0; i < 3 && !ok; ++i) {
                    a = take(16, 0x2000, exp.size() / 2, what.c_str());
                    if (!a) {
                        return false;
                    }
                    MC_CHECK(toBytes(a->values) == exp, "wrong-block", what, ": wrong data in block ", b);
                    ok = good(a) || a->exception == 4;
                    if (i && ok) {
                        mc::cover("a block is repeated");
                    }
                }
                if (!ok) {
                    mc::cover("a block fails");
                    return false;
                }
            }
            return true;
        }
    };

    // BADCRC and GARBAGE (RTU only) are the last ones
    const int WRITE_FAULTS[] = {OK, LOST, REPLY_LOST, EXC2, EXC4, TRUNC, WRONGSLAVE, EXC6, BADCRC, GARBAGE};
    const int READ_FAULTS[] = {OK, LOST, EXC2, SHORTDATA, BADCRC};
    const int REBOOT_FAULTS[] = {OK, LOST, REPLY_LOST, EXC2, BADCRC};

    std::string index(const std::string& lines)
    {
        return "# releases\nreleases:\n" + lines + "other:\n  sigA:\n    stable: fw/wrong/9.9.9.wbfw\n";
    }

    void prepare(Rig& r, int size, int comps, int compSize)
    {
        auto& d = r.dev;
        Image fw{"firmware", -1, "1.3.0", image(1, size)};
        Image bl{"bootloader", -1, "2.0.0", image(2, size)};
        d.images = {fw, bl};
        r.release(fw, "fw/sigA/stable/1.3.0.wbfw");
        r.release(bl, "boot/sigA/stable/2.0.0.wbfw");
        std::string lines = "  sigA:\n    testing: fw/sigA/testing/1.4.0.wbfw\n    stable: fw/sigA/stable/1.3.0.wbfw\n";
        // 1: one outdated; 2: outdated, up to date, outdated; 3: without a release, outdated, unavailable
        static const std::vector<std::vector<std::pair<int, std::string>>> sets = {
            {}, {{2, "old"}}, {{0, "old"}, {1, "new"}, {3, "old"}}, {{0, "unknown"}, {4, "old"}, {7, "absent"}}};
        for (auto& c: sets[comps]) {
            Dev::Comp x;
            x.sig = c.second == "unknown" ? "nosig" : c.second == "absent" ? std::string(12, '\xFE') : "csig" + std::to_string(c.first);
            x.fw = c.second == "new" ? "5.0" : "4.0";
            x.model = "CM" + std::to_string(c.first);
            d.comps[c.first] = x;
            if (c.second == "old" || c.second == "new") {
                Image i{"component", c.first, "5.0", image(3 + c.first, compSize)};
                auto path = mc::str("comp/", x.sig, "/stable/5.0.compfw");
                d.images.push_back(i);
                r.release(i, path);
                lines += mc::str("  ", x.sig, ":\n    stable: ", path, "\n");
            }
        }
        r.http->texts[HOST + "/fw/by-signature/release-versions.yaml"] = index(lines);
        r.http->texts[HOST + "/boot/by-signature/release-versions.yaml"] = index("  sigA:\n    stable: boot/sigA/stable/2.0.0.wbfw\n");
        d.fill();
    }

    const Image* find(const Rig& r, const std::string& kind, int comp = -1)
    {
        for (auto& i: r.dev.images) {
            if (i.kind == kind && i.component == comp) {
                return &i;
            }
        }
        return nullptr;
    }

    //! Every published state of an operation
    void checkStates(Rig& r, const std::string& what)
    {
        struct Prev
        {
            int progress = -1;
            int count = 0;
        };
        std::map<std::string, Prev> prev;
        for (auto& p: r.pubs) {
            std::map<std::string, Prev> now;
            for (auto& e: p.state["devices"]) {
                auto type = e["type"].asString();
                auto comp = e["component_number"].isNull() ? -1 : e["component_number"].asInt();
                auto k = type + std::to_string(comp);
                MC_CHECK(e["port"]["path"] == "/dev/ttySIM" && e["slave_id"] == 10 && e["protocol"] == (r.tcp ? "modbus-tcp" : "modbus"),
                         "wrong-entry", what, ": ", e.toStyledString());
                MC_CHECK((type == "component") == (comp >= 0), "component-entry", what, ": ", e.toStyledString());
                auto img = find(r, type, comp);
                if (!e["error"].isNull()) {
                    MC_CHECK(e["error"]["id"] == "com.wb.serial_driver.generic_error" && !e["error"]["message"].asString().empty() &&
                                 !e["error"]["metadata"]["exception"].asString().empty(),
                             "wrong-error", what, ": ", e.toStyledString());
                    continue;
                }
                if (!img) {
                    mc::fail("entry-without-image", mc::str(what, ": ", e.toStyledString()));
                    continue;
                }
                MC_CHECK(e["to_version"] == img->version, "to-version", what, ": ", e.toStyledString());
                int progress = e["progress"].asInt();
                // blocks accepted so far
                size_t ok = 0;
                for (size_t i = 0, in = 0; i < p.accesses; ++i) {
                    auto& a = r.net.log[i];
                    if (a.fn == 16 && a.addr == 0x1000) {
                        in = toBytes(a.values) == img->info();
                        ok = 0;
                    }
                    if (in && a.fn == 16 && a.addr == 0x2000 && (a.ok() || a.exception == 4)) {
                        ++ok;
                    }
                }
                MC_CHECK(progress >= 0 && progress <= 100, "progress-range", what, ": ", progress);
                MC_CHECK(progress * img->blocks() <= ok * 100 || (!img->blocks() && progress == 100), "progress-ahead", what, ": ", progress, " % with ", ok, " of ", img->blocks(), " blocks");
                auto x = prev[k];
                if (x.progress < 0) {
                    MC_CHECK(progress == 0, "progress-start", what, ": starts at ", progress);
                } else {
                    MC_CHECK(progress >= x.progress, "progress-back", what, ": ", progress, " after ", x.progress);
                }
                if (x.progress != progress) {
                    int blockPart = img->blocks() ? 100 / img->blocks() + 1 : 100;
                    MC_CHECK(x.progress < 0 || progress - x.progress <= 4 + blockPart, "progress-rare", what, ": ", progress, " after ", x.progress);
                    ++x.count;
                }
                x.progress = progress;
                MC_CHECK(x.count <= 34, "progress-flood", what, ": ", x.count, " notifications");
                now[k] = x;
            }
            prev = now;
        }
    }

    void flash(bool big)
    {
        static const char* TYPES[] = {"firmware", "bootloader", "component", "restore", "", "unknown"};
        int type = mc::choose(big ? 4 : 6, "type");
        bool tcp = big ? false : mc::choose(2, "modbus-tcp");
        Rig r(tcp);
        static const int SIZES[] = {272, 0, 2, 136, 138, 410};
        static const int BIG[] = {29, 30, 31, 60, 99, 100, 101, 150, 333};
        int size = big ? BIG[mc::choose(9, "blocks")] * 136 - mc::choose(2, "part") * 70 : SIZES[mc::choose(mc::thorough() || (type < 4 && !tcp) ? 6 : type < 4 ? 2 : 1, "size")];
        int comps = big ? type == 2 : mc::choose(type == 1 || type == 3 || type == 5 ? 2 : 4, "components");
        bool boot = type == 3 ? mc::choose(2, "in bootloader") == 0 : false;
        bool legacy = type < 2 ? mc::choose(2, "legacy") : false;
        auto& d = r.dev;
        d.preserve = !legacy;
        d.modelExt = !legacy;
        if (legacy) {
            d.model = "WBMR6";
        }
        prepare(r, size, comps, big ? size : 140);
        if (boot) {
            d.boot = true;
            d.comps.clear();
            d.fill();
        }
        std::string desc = mc::str(TYPES[type], tcp ? " tcp" : "", " size ", size, " components ", comps, boot ? " in bootloader" : "", legacy ? " legacy" : "");
        // faults
        int sticky = 0, stickyKind = OK;
        bool httpFault = false;
        d.s.fault = [&](const Access& a) {
            if (big) {
                return d.refuse(a);
            }
            MC_CHECK(r.bus->settingsNow == mc::str(115200, 'E', 8, 1), "port-settings", desc, ": the port works with settings ", r.bus->settingsNow);
            int f = OK;
            if (sticky && a.addr == 0x2000) {
                --sticky;
                f = stickyKind;
            } else {
                sticky = 0;
                if (a.fn == 16) {
                    f = WRITE_FAULTS[mc::deviate(tcp ? 8 : 10, "fault")];
                    if (f == EXC4 && a.addr == 0x2000) {
                        f = EXC1; // "already written" would be a lie
                    }
                    if (f && a.addr == 0x2000) {
                        sticky = mc::choose(3, "repeated");
                        stickyKind = f;
                    }
                } else if (a.fn == 6) {
                    f = REBOOT_FAULTS[mc::deviate(tcp ? 4 : 5, "fault")];
                } else {
                    f = READ_FAULTS[mc::deviate(tcp ? 4 : 5, "fault")];
                }
            }
            if (f == LOST) {
                return f;
            }
            auto own = d.refuse(a);
            return own && f != REPLY_LOST && f != BADCRC && f != TRUNC && f != WRONGSLAVE && f != GARBAGE ? own : own ? LOST : f;
        };
        r.http->fault = [&](const std::string& url) {
            int f = big ? 0 : mc::deviate(url.find(".yaml") != std::string::npos ? 3 : 4, "http");
            httpFault |= f;
            return f;
        };
        // requests during the operation
        bool inTask = false;
        auto disturb = [&] {
            if (!inTask || big) {
                return;
            }
            int k = mc::deviate(5, "request meanwhile");
            if (!k) {
                return;
            }
            auto tasks = r.queue.tasks.size();
            bool active = false;
            for (auto& e: r.devices()) {
                active |= e["progress"].asInt() < 100 && e["error"].isNull();
            }
            if (k == 3 && !active) {
                return;
            }
            auto a = r.call(k == 1 || k == 4 ? "Update" : k == 2 ? "Restore" : "GetFirmwareInfo", request(k == 1 ? "firmware" : "", k == 4 ? 20 : 10, tcp));
            MC_CHECK(a.errors == 1 && a.results == 0 && a.error == BUSY && r.queue.tasks.size() == tasks,
                     "not-exclusive", desc, ": request ", k, " during the operation isn't refused: '", a.error, "'");
            mc::cover("request during an operation");
        };
        r.http->onRequest = [&](const std::string&) { disturb(); };
        r.onPublish = disturb;

        Dev before = d;
        auto& ans = r.call(type == 3 ? "Restore" : "Update", request(type == 3 ? "" : TYPES[type], 10, tcp));
        MC_CHECK(ans.total() == 0 && r.queue.tasks.size() == 1, "not-queued", desc, ": no task");
        if (r.queue.tasks.empty()) {
            return;
        }
        MC_CHECK(r.queue.request["path"] == "/dev/ttySIM", "wrong-port", desc, ": ", r.queue.request.toStyledString());
        size_t accessesBeforeAnswer = 0;
        inTask = true;
        r.runTask();
        inTask = false;
        r.http->onRequest = nullptr;
        r.onPublish = nullptr;
        (void)accessesBeforeAnswer;
        MC_CHECK(ans.total() == 1, "answers", desc, ": ", ans.results, " results and ", ans.errors, " errors");
        MC_CHECK(r.bus->settingsNow == "default", "settings-kept", desc, ": settings of the port aren't restored");
        MC_CHECK(!d.wrongBlock, "block-out-of-order", desc, ": a block the device doesn't wait for");

        // reference
        Course c(r);
        Course::Info info;
        std::map<std::string, std::string> failed; // type of the expected error
        std::vector<std::string> okStages;
        bool answered = false, lookupFailed = false;
        size_t httpPos = 0;
        (void)httpPos;
        auto served = [&](const std::string& url) { return r.http->requests[url] > 0; };
        (void)served;
        int rebootsExpected = 0;
        if (!c.reads(info, before)) {
            if (type == 3) {
                MC_CHECK(ans.results == 1 && ans.result == "Ok", "restore-silent", desc, ": ", ans.error);
            } else {
                MC_CHECK(ans.errors == 1 && !ans.error.empty(), "no-error-answer", desc, ": the device doesn't answer but the result is ", ans.result.toStyledString());
            }
            mc::cover("device information isn't available");
        } else {
            answered = true;
        }
        // with a fault of the release server the accesses tell how far the operation has gone
        auto more = [&] { return c.pos < r.net.log.size(); };
        auto stage = [&](const Image& img, bool reboot, bool preserve) {
            if (httpFault && !more()) {
                return false;
            }
            bool ok = c.flash(img, reboot, preserve);
            if (reboot) {
                ++rebootsExpected;
            }
            auto k = Dev::key(img);
            if (ok) {
                MC_CHECK(d.flashed[k] == bytes(img.file.begin() + 32, img.file.end()), "not-flashed", desc, ": ", k, " isn't completely written");
                okStages.push_back(k);
                mc::cover((k.substr(0, 9) + " flashed").c_str());
            }
            return ok;
        };
        auto components = [&] {
            for (auto& x: info.comps) {
                auto img = find(r, "component", x.n);
                if (!img || x.fw == img->version) {
                    continue;
                }
                if (httpFault) {
                    // its release or file may be unavailable: known by the next request only
                    if (!more() || r.net.log[c.pos].fn != 16 || toBytes(r.net.log[c.pos].values) != img->info()) {
                        lookupFailed = true;
                        continue;
                    }
                }
                if (!stage(*img, false, false)) {
                    failed["component"] = std::to_string(x.n);
                }
            }
        };
        if (answered) {
            switch (type) {
                case 0:
                case 4:
                    if (stage(*find(r, "firmware"), true, info.preserve)) {
                        components();
                    } else {
                        failed["firmware"] = "";
                    }
                    break;
                case 1:
                    if (stage(*find(r, "bootloader"), true, info.preserve)) {
                        size_t p = c.pos;
                        auto end = p ? r.net.log[p - 1].end : 0;
                        if (!stage(*find(r, "firmware"), false, false)) {
                            failed["firmware"] = "";
                        }
                        if (p < r.net.log.size()) {
                            MC_CHECK(r.net.log[p].t - end >= 2 * SEC, "bootloader-pause", desc, ": the new bootloader is accessed in ", (r.net.log[p].t - end) / MS, " ms");
                        }
                    } else {
                        failed["bootloader"] = "";
                    }
                    break;
                case 2:
                    components();
                    break;
                case 3:
                    if (!stage(*find(r, "firmware"), false, false)) {
                        failed["firmware"] = "";
                    }
                    break;
                case 5:
                    failed["unknown"] = "";
                    break;
            }
            if (ans.errors) {
                MC_CHECK(type == 3 && httpFault && !ans.error.empty(), "unexpected-error", desc, ": ", ans.error);
                failed.clear();
            } else {
                MC_CHECK(ans.result == "Ok", "answer", desc, ": ", ans.result.toStyledString());
            }
        }
        if (!c.bad) {
            MC_CHECK(c.pos == r.net.log.size(), "extra-requests", desc, ": ", c.pos < r.net.log.size() ? r.net.log[c.pos].str() : "");
        }
        // the final state
        std::map<std::string, std::string> shown;
        for (auto& e: r.devices()) {
            auto t = e["type"].asString();
            if (e["error"].isNull()) {
                mc::fail("stuck-entry", mc::str(desc, ": after the end of the operation the state has an entry without an error: ", t, " ", e["progress"].asInt(), " %"));
            } else {
                shown[t] = e["component_number"].isNull() ? "" : std::to_string(e["component_number"].asInt());
            }
        }
        for (auto& f: failed) {
            MC_CHECK(shown.count(f.first), "no-error-state", desc, ": ", f.first, " has failed but the state doesn't show it");
            mc::nontrivial();
        }
        for (auto& s: shown) {
            MC_CHECK(failed.count(s.first) || (s.first == "component" && lookupFailed), "false-error", desc, ": the state shows an error of ", s.first);
        }
        if (failed.count("component") && shown.count("component") && !lookupFailed) {
            // any of the failed ones
            MC_CHECK(!shown["component"].empty(), "component-number", desc, ": the number of the failed component isn't shown");
        }
        checkStates(r, desc);
        // afterwards
        r.http->fault = nullptr;
        for (auto& s: shown) {
            auto& a = r.call("ClearError", request(s.first, 10, tcp));
            MC_CHECK(a.results == 1 && a.result == "Ok", "clear-error", desc, ": ", a.error);
        }
        MC_CHECK(r.devices().empty(), "not-cleared", desc, ": entries are left after the errors are cleared");
        d.s.fault = [&](const Access& a) { return d.refuse(a); };
        d.wrongBlock = false;
        auto& gi = r.call("GetFirmwareInfo", request("", 10, tcp));
        MC_CHECK(gi.total() == 0 && r.queue.tasks.size() == 1, "info-refused", desc, ": information is refused after the operation: ", gi.error);
        if (r.queue.tasks.size()) {
            r.runTask();
        }
        MC_CHECK(gi.results == 1 && gi.total() == 1, "info-failed", desc, ": no information after the operation: ", gi.error);
        auto& u = r.call("Restore", request("", 10, tcp));
        MC_CHECK(u.total() == 0 && r.queue.tasks.size() == 1, "lock-kept", desc, ": the next operation is refused: ", u.error);
        uint64_t h = mc::hash(desc);
        for (auto& a: r.net.log) {
            h = mc::mix(h, mc::mix(a.addr << 8 | a.fn, a.fault));
        }
        mc::outcome(h);
        mc::state(h);
        if (mc::tracing()) {
            for (auto& a: r.net.log) {
                mc::note(a.str());
            }
            for (auto& p: r.pubs) {
                Json::StreamWriterBuilder b;
                b["indentation"] = "";
                mc::note(mc::str("after ", p.accesses, " accesses: ", Json::writeString(b, p.state)));
            }
            mc::note("answer: " + (ans.errors ? ans.error : ans.result.toStyledString()));
        }
    }

    //! Sequences of requests
    void requests(int depth)
    {
        Rig r;
        auto& d = r.dev;
        prepare(r, 140, 0, 0);
        d.s.fault = [&](const Access& a) { return d.refuse(a); };
        bool locked = false;
        struct Pending
        {
            Answer* a;
            bool locking;
            bool mayFail;
        };
        std::deque<Pending> pending;
        std::string text;
        std::map<std::string, bool> errors; // shown
        for (int i = 0; i < depth; ++i) {
            int op = mc::choose(11, "operation");
            static const char* N[] = {"update ", "restore ", "info ", "clear ", "bad update ", "run ", "offline/online ", "port on/off ", "runner refuses/accepts ", "bad restore ", "server off/on "};
            text += N[op];
            switch (op) {
                case 0:
                case 1:
                case 4:
                case 9: {
                    auto req = request();
                    bool bad = op == 4 || op == 9;
                    if (bad) {
                        switch (mc::choose(7, "what is wrong")) {
                            case 0: req.removeMember("slave_id"); break;
                            case 1: req["slave_id"] = "10"; break;
                            case 2: req["slave_id"] = 256; break;
                            case 3: req["slave_id"] = -1; break;
                            case 4: req.removeMember("port"); break;
                            case 5: req["port"].removeMember("path"); break;
                            case 6: req["port"]["path"] = ""; break;
                        }
                    }
                    auto n = r.queue.tasks.size();
                    auto& a = r.call(op == 0 || op == 4 ? "Update" : "Restore", req);
                    if (locked) {
                        MC_CHECK(a.errors == 1 && a.results == 0 && a.error == BUSY && r.queue.tasks.size() == n, "not-exclusive", text, ": accepted during another operation: ", a.error);
                        mc::cover("refused while another one is executed");
                    } else if (bad || r.queue.refuse) {
                        MC_CHECK(a.errors == 1 && a.results == 0 && !a.error.empty() && a.error != BUSY && r.queue.tasks.size() == n, "bad-request", text, ": ", a.total(), " answers, ", a.error);
                        mc::cover(bad ? "malformed request" : "task can't be run");
                    } else {
                        MC_CHECK(a.total() == 0 && r.queue.tasks.size() == n + 1, "not-accepted", text, ": not accepted: ", a.error);
                        locked = true;
                        pending.push_back({&a, true, false});
                        mc::nontrivial();
                    }
                    break;
                }
                case 2: {
                    auto n = r.queue.tasks.size();
                    auto& a = r.call("GetFirmwareInfo", request());
                    if (r.queue.refuse) {
                        MC_CHECK(a.errors == 1 && a.results == 0 && !a.error.empty(), "info-answer", text, ": ", a.total(), " answers ", a.error);
                    } else {
                        MC_CHECK(a.total() == 0 && r.queue.tasks.size() == n + 1, "info-not-accepted", text, ": ", a.error);
                        pending.push_back({&a, false, false});
                    }
                    break;
                }
                case 3: {
                    auto& a = r.call("ClearError", request());
                    MC_CHECK(a.results == 1 && a.errors == 0, "clear", text, ": ", a.error);
                    MC_CHECK(r.devices().empty(), "not-cleared", text, ": the error is still shown");
                    break;
                }
                case 5: {
                    if (r.queue.tasks.empty()) {
                        return;
                    }
                    auto p = pending.front();
                    pending.pop_front();
                    bool reachable = d.s.online && (!r.bus->canOpen || r.bus->open);
                    bool restore = false;
                    (void)restore;
                    r.runTask();
                    MC_CHECK(p.a->total() == 1, "answers", text, ": ", p.a->results, " results, ", p.a->errors, " errors");
                    if (!reachable && !p.locking) {
                        MC_CHECK(p.a->errors == 1 && !p.a->error.empty(), "unreachable", text, ": a result without a device");
                    }
                    for (auto& e: r.devices()) {
                        MC_CHECK(!e["error"].isNull(), "stuck-entry", text, ": an unfinished entry in the state");
                    }
                    if (p.locking) {
                        locked = false;
                    }
                    mc::cover("task executed");
                    break;
                }
                case 6:
                    d.s.online = !d.s.online;
                    break;
                case 7:
                    if (r.bus->canOpen) {
                        r.bus->canOpen = nullptr;
                    } else {
                        if (r.bus->open) {
                            r.bus->Close();
                        }
                        r.bus->canOpen = [] { return false; };
                    }
                    break;
                case 8:
                    r.queue.refuse = !r.queue.refuse;
                    break;
                case 10:
                    if (r.http->fault) {
                        r.http->fault = nullptr;
                    } else {
                        r.http->fault = [](const std::string&) { return 1; };
                    }
                    break;
            }
            mc::transition();
        }
        for (auto& p: pending) {
            MC_CHECK(p.a->total() == 0, "early-answer", text, ": answered before the execution");
        }
        while (!r.queue.tasks.empty()) {
            r.runTask();
        }
        for (auto& a: r.answers) {
            MC_CHECK(a.total() == 1, "answers", text, ": a request has ", a.total(), " answers");
        }
        r.queue.refuse = false;
        auto& a = r.call("Update", request());
        MC_CHECK(a.total() == 0, "lock-kept", text, ": the next update is refused: ", a.error);
        mc::outcome(mc::hash(text));
    }

    //! Answers of GetFirmwareInfo
    void info()
    {
        Rig r;
        auto& d = r.dev;
        int comps = mc::choose(4, "components");
        static const char* VERSIONS[] = {"1.3.0", "1.2.9", "1.3.0-rc1", "1.10.0", "", "1.3.0+wb1", "\x81\x82", "1.2"};
        static const int FW_NEWER[] = {0, 1, 1, 0, 0, 0, 0, 1}; // 1.3.0 is newer
        int v = mc::choose(8, "version");
        static const char* BL[] = {"1.0.0", "2.0.0", "2.0.1", ""};
        static const int BL_NEWER[] = {1, 0, 0, 0};
        int b = mc::choose(4, "bootloader");
        static const char* SIGS[] = {"sigA", "msw5GL", "msw3G419L", "sigB", "s\x01g", "", "sigC"};
        int s = mc::choose(7, "signature");
        d.modelExt = mc::choose(2, "short model") == 0;
        d.model = d.modelExt ? "WB-MR6C v.\x02" "2" : "WBMR6C";
        d.signature = SIGS[s];
        d.fw = VERSIONS[v];
        d.bl = BL[b];
        prepare(r, 136, comps, 136);
        auto& fwIndex = r.http->texts[HOST + "/fw/by-signature/release-versions.yaml"];
        auto& blIndex = r.http->texts[HOST + "/boot/by-signature/release-versions.yaml"];
        fwIndex.insert(fwIndex.find("  sigA:"), "  msw5GL:\n    stable: fw/x/1.3.0.wbfw\n  sigC:\n    testing: fw/x/1.3.0.wbfw\n");
        blIndex.insert(blIndex.find("  sigA:"), "  sigB:\n    stable: boot/b/2.0.0.wbfw\n");
        int f = OK;
        int httpFailed = 0;
        d.s.fault = [&](const Access&) {
            f = READ_FAULTS[mc::deviate(5, "fault")];
            return f;
        };
        std::set<std::string> failedUrls;
        r.http->fault = [&](const std::string& u) {
            int x = mc::deviate(3, "http");
            httpFailed |= x;
            if (x) {
                failedUrls.insert(u);
            }
            return x;
        };
        auto text = mc::str("version '", VERSIONS[v], "', bootloader '", BL[b], "', signature '", SIGS[s], "', components ", comps);
        auto& a = r.call("GetFirmwareInfo", request());
        MC_CHECK(a.total() == 0 && r.queue.tasks.size() == 1, "not-queued", text);
        r.runTask();
        MC_CHECK(a.total() == 1, "answers", text, ": ", a.total(), " answers");
        MC_CHECK(r.pubs.empty(), "state-changed", text, ": the state is published by a request for information");
        MC_CHECK(r.bus->settingsNow == "default", "settings-kept", text);
        for (auto& x: r.net.log) {
            MC_CHECK(!x.isWrite(), "info-writes", text, ": ", x.str());
        }
        Course c(r);
        Course::Info i;
        if (!c.reads(i, d)) {
            MC_CHECK(a.errors == 1 && !a.error.empty(), "no-error", text, ": the signature isn't read but there is a result");
            mc::outcome(1);
            return;
        }
        MC_CHECK(c.pos == r.net.log.size(), "extra-requests", text);
        MC_CHECK(a.results == 1, "no-result", text, ": ", a.error);
        auto& x = a.result;
        bool fwIndexOk = !failedUrls.count(HOST + "/fw/by-signature/release-versions.yaml");
        bool blIndexOk = !failedUrls.count(HOST + "/boot/by-signature/release-versions.yaml");
        bool known = !i.sig.empty() && i.sig.substr(0, 3) != "msw";
        bool hasFw = known && i.sig == "sigA" && fwIndexOk;
        bool hasBl = known && (i.sig == "sigA" || i.sig == "sigB") && blIndexOk;
        MC_CHECK(x["fw"] == i.fw, "fw", text, ": fw ", x["fw"].asString());
        MC_CHECK(x["bootloader"] == i.bl, "bootloader", text, ": ", x["bootloader"].asString());
        MC_CHECK(x["model"] == i.model, "model", text, ": ", x["model"].asString(), " expected ", i.model);
        if (fwIndexOk) {
            MC_CHECK(x["available_fw"] == (hasFw ? "1.3.0" : ""), "available-fw", text, ": ", x["available_fw"].asString());
            MC_CHECK(x["fw_has_update"].asBool() == (hasFw && !i.fw.empty() && FW_NEWER[v]), "fw-has-update", text, ": ", x["fw_has_update"].asBool());
        }
        if (blIndexOk) {
            MC_CHECK(x["available_bootloader"] == (hasBl ? "2.0.0" : ""), "available-bootloader", text, ": ", x["available_bootloader"].asString());
            MC_CHECK(x["bootloader_has_update"].asBool() == (hasBl && !i.bl.empty() && BL_NEWER[b]), "bootloader-has-update", text);
        }
        if (fwIndexOk && blIndexOk) {
            MC_CHECK(x["can_update"].asBool() == (hasFw || hasBl), "can-update", text, ": ", x["can_update"].asBool());
        }
        MC_CHECK(x["can_update"].asBool() == (!x["available_fw"].asString().empty() || !x["available_bootloader"].asString().empty()), "can-update", text);
        std::set<std::string> expComps;
        if (known) {
            for (auto& k: i.comps) {
                if (find(r, "component", k.n)) {
                    expComps.insert(std::to_string(k.n));
                }
            }
        }
        for (auto& m: x["components"].getMemberNames()) {
            auto& y = x["components"][m];
            MC_CHECK(expComps.count(m), "extra-component", text, ": ", m);
            auto& k = d.comps[std::stoi(m)];
            MC_CHECK(y["model"] == k.model && y["fw"] == k.fw && y["available_fw"] == "5.0" && y["has_update"].asBool() == (k.fw != "5.0"), "component", text, ": ", y.toStyledString());
            mc::cover("component");
        }
        if (fwIndexOk) {
            MC_CHECK(x["components"].size() == expComps.size(), "missing-component", text, ": ", x["components"].toStyledString());
        }
        mc::nontrivial();
        mc::outcome(mc::hash(x.toStyledString()));
    }

    //! The published list of updates against a reference
    void stateList(int depth)
    {
        struct E
        {
            int slave;
            std::string port, type;
            int progress;
            bool error;
        };
        std::vector<E> ref;
        std::string last;
        int pubs = 0;
        TFwUpdateState st(
            [&](const std::string& t, const std::string& p, bool retain) {
                ++pubs;
                last = p;
                MC_CHECK(retain && t == "T", "not-retained", "topic ", t);
            },
            "T");
        std::string text;
        for (int i = 0; i < depth; ++i) {
            int op = mc::choose(5, "op");
            int slave = 1 + mc::choose(2, "slave");
            std::string port = mc::choose(2, "port") ? "/dev/b" : "/dev/a";
            std::string type = mc::choose(2, "type") ? "bootloader" : "firmware";
            auto it = std::find_if(ref.begin(), ref.end(), [&](auto& e) { return e.slave == slave && e.port == port && e.type == type; });
            int before = pubs;
            bool changed = true;
            text += mc::str(op, ":", slave, port, type, " ");
            switch (op) {
                case 0:
                case 1: {
                    TDeviceUpdateInfo x;
                    x.SlaveId = slave;
                    x.PortPath = port;
                    x.Type = type;
                    x.Protocol = "modbus";
                    x.Progress = op ? 100 : 40;
                    x.ToVersion = "2";
                    x.FromVersion = "1";
                    if (it == ref.end()) {
                        ref.push_back({slave, port, type, x.Progress, false});
                    } else {
                        it->progress = x.Progress;
                        it->error = false;
                    }
                    st.Update(x);
                    break;
                }
                case 2:
                    st.Remove(slave, port, type);
                    if (it != ref.end()) {
                        ref.erase(it);
                    } else {
                        changed = false;
                    }
                    break;
                case 3:
                    st.SetError(slave, port, type, "id", "msg", Json::Value("meta"));
                    if (it != ref.end()) {
                        it->error = true;
                    } else {
                        changed = false;
                    }
                    break;
                case 4:
                    st.ClearError(slave, port, type);
                    if (it != ref.end() && it->error) {
                        ref.erase(it);
                    } else {
                        changed = false;
                    }
                    break;
            }
            if (changed) {
                MC_CHECK(pubs == before + 1, "publications", text, ": ", pubs - before);
            }
            if (pubs) {
                auto s = json(last)["devices"];
                bool same = s.size() == ref.size();
                for (auto& e: ref) {
                    bool found = false;
                    for (auto& y: s) {
                        found |= y["slave_id"] == e.slave && y["port"]["path"] == e.port && y["type"] == e.type && y["progress"] == e.progress &&
                                 y["error"].isNull() != e.error && (!e.error || (y["error"]["id"] == "id" && y["error"]["message"] == "msg" && y["error"]["metadata"] == "meta"));
                    }
                    same &= found;
                }
                MC_CHECK(same, "state-list", text, ": ", last);
            }
            for (int k = 1; k <= 2; ++k) {
                for (auto* p: {"/dev/a", "/dev/b"}) {
                    bool exp = std::any_of(ref.begin(), ref.end(), [&](auto& e) { return e.slave == k && e.port == p && e.progress < 100 && !e.error; });
                    MC_CHECK(st.HasActiveUpdate(k, p) == exp, "active", text, ": slave ", k, " ", p);
                }
            }
            mc::transition();
        }
        mc::nontrivial();
        mc::outcome(mc::hash(last));
    }

    //! Caches of the answers of the release server
    void cache(int depth)
    {
        vclock::reset();
        auto http = std::make_shared<Server>();
        TFwDownloader dl(http);
        int version = 1;
        const std::string FWI = HOST + "/fw/by-signature/release-versions.yaml", BLI = HOST + "/boot/by-signature/release-versions.yaml", BIN = HOST + "/x.wbfw";
        auto publish = [&] {
            http->texts[FWI] = mc::str("releases:\n  s:\n    stable: f/", version, ".wbfw\n");
            http->texts[BLI] = mc::str("releases:\n  s:\n    stable: b/", version, ".wbfw\n");
            http->files[BIN] = image(version % 8, 4);
        };
        publish();
        struct C
        {
            int64_t until = -1;
            int version = 0;
        } c[3];
        static const int64_t TTL[] = {600, 1800, 7200};
        bool down = false;
        http->fault = [&](const std::string&) { return down ? 1 : 0; };
        std::string text;
        for (int i = 0; i < depth; ++i) {
            int op = mc::choose(6, "op");
            static const int64_t STEPS[] = {590, 20, 1210, 5400};
            if (op == 3) {
                auto t = STEPS[mc::choose(4, "seconds")];
                vclock::now += t * SEC;
                text += mc::str(t, " s ");
                continue;
            }
            if (op == 4) {
                ++version;
                publish();
                text += "new ";
                continue;
            }
            if (op == 5) {
                down = !down;
                text += "server ";
                continue;
            }
            text += mc::str("get", op, " ");
            auto& k = c[op];
            bool cached = vclock::now < k.until;
            int before = http->requests[op == 0 ? FWI : op == 1 ? BLI : BIN];
            int got = 0;
            bool thrown = false;
            try {
                if (op < 2) {
                    auto x = op ? dl.GetReleasedBootloader("s", "stable") : dl.GetReleasedFirmware("s", "stable");
                    got = std::stoi(x.Version);
                    MC_CHECK(x.Endpoint == mc::str(HOST, op ? "/b/" : "/f/", x.Version, ".wbfw"), "endpoint", text, ": ", x.Endpoint);
                } else {
                    auto x = dl.DownloadAndParseWBFW(BIN);
                    got = (x.Info.at(0) - 0xC0) / 8;
                }
            } catch (const std::exception&) {
                thrown = true;
            }
            int n = http->requests[op == 0 ? FWI : op == 1 ? BLI : BIN] - before;
            int exp = cached ? k.version : op == 2 ? version % 8 : version;
            if (vclock::now != k.until) {
                MC_CHECK(n == (cached ? 0 : 1), "requests", text, ": ", n, " requests to the server");
                MC_CHECK(thrown == (!cached && down), "availability", text, ": ", thrown);
                MC_CHECK(thrown || got == exp, "stale", text, ": ", got, " expected ", exp);
            }
            if (!thrown && n) {
                k.until = vclock::now + TTL[op] * SEC;
                k.version = got;
            }
            mc::cover(cached ? "from the cache" : thrown ? "server is down" : "from the server");
            mc::transition();
        }
        mc::nontrivial();
        mc::outcome(mc::hash(text));
    }

    //! Files of the release server
    void files()
    {
        int kind = mc::choose(3, "kind");
        if (kind == 0) {
            int n = mc::choose(300, "size");
            bytes b;
            for (int i = 0; i < n; ++i) {
                b.push_back(i * 7 + 1);
            }
            bool thrown = false;
            TParsedWBFW p;
            try {
                p = ParseWBFW(b);
            } catch (const std::exception&) {
                thrown = true;
            }
            MC_CHECK(thrown == (n % 2 || n < 32), "wbfw-size", n, " bytes: ", thrown ? "refused" : "accepted");
            if (!thrown) {
                MC_CHECK(p.Info.size() == 32 && std::equal(p.Info.begin(), p.Info.end(), b.begin()) && p.Data == bytes(b.begin() + 32, b.end()), "wbfw-parts", n);
                mc::nontrivial();
            }
            mc::outcome(n);
            return;
        }
        if (kind == 1) {
            static const char* PARTS[] = {"/", "a", ".wbfw", ".compfw", "1.2", ".", "wbfw", "\n"};
            int n = mc::choose(mc::thorough() ? 7 : 6, "parts");
            std::string u;
            for (int i = 0; i < n; ++i) {
                u += PARTS[mc::choose(7, "part")];
            }
            std::string exp;
            for (auto* ext: {".wbfw", ".compfw"}) {
                std::string e = ext;
                if (u.size() > e.size() && u.substr(u.size() - e.size()) == e) {
                    auto stem = u.substr(0, u.size() - e.size());
                    // the last slash with something on both sides
                    for (size_t p = stem.size(); p-- > 1;) {
                        if (stem[p] == '/' && p + 1 < stem.size()) {
                            exp = stem.substr(p + 1);
                            break;
                        }
                    }
                }
            }
            std::string got;
            try {
                got = ParseFwVersionFromUrl(u);
            } catch (const std::exception&) {
            }
            MC_CHECK(got == exp, "url-version", u, ": '", got, "' expected '", exp, "'");
            if (!exp.empty()) {
                mc::nontrivial();
            }
            mc::outcome(mc::hash(exp));
            return;
        }
        // index: lines
        static const char* LINES[] = {"releases:", "  s1:", "  s2:", "    stable: p/1.wbfw", "    testing: p/2.wbfw", "    stable: p/3.wbfw\r", "# x: y", "", "other:", "      # stable: p/4.wbfw", "  s1:  ", "    stable:   p/5.wbfw  "};
        int n = mc::choose(mc::thorough() ? 7 : 6, "lines");
        std::string t;
        bool in = false, over = false;
        std::string sig;
        std::map<std::string, std::map<std::string, std::string>> ref;
        for (int i = 0; i < n; ++i) {
            int l = mc::choose(12, "line");
            t += LINES[l];
            t += "\n";
            if (over) {
                continue;
            }
            switch (l) {
                case 0:
                    in = true;
                    sig = "";
                    break;
                case 8:
                    over = in;
                    break;
                case 1:
                case 2:
                case 10:
                    if (in) {
                        sig = l == 2 ? "s2" : "s1";
                        ref[sig];
                    }
                    break;
                case 3:
                case 5:
                case 11:
                    if (in && !sig.empty()) {
                        ref[sig]["stable"] = l == 3 ? "p/1.wbfw" : l == 5 ? "p/3.wbfw" : "p/5.wbfw";
                    }
                    break;
                case 4:
                    if (in && !sig.empty()) {
                        ref[sig]["testing"] = "p/2.wbfw";
                    }
                    break;
                default:
                    break;
            }
        }
        auto got = ParseReleaseVersionsYaml(t);
        MC_CHECK(got == ref, "index", "index:\n", t);
        if (!ref.empty()) {
            mc::nontrivial();
        }
        mc::outcome(mc::hash(t));
    }
    //! Registration of the requests and the topic of the state
    void service()
    {
        vclock::reset();
        Queue q;
        auto server = std::make_shared<WBMQTT::TMqttRpcServer>();
        auto mqtt = std::make_shared<WBMQTT::TMqttClient>();
        auto http = std::make_shared<Server>();
        TRPCFwUpdateHandler h(q, server, mqtt, http);
        const std::string TOPIC = "/wb-mqtt-serial/firmware_update/state";
        MC_CHECK(mqtt->Messages.size() == 1 && mqtt->Messages[0].Topic == TOPIC && mqtt->Messages[0].Retained && json(mqtt->Messages[0].Payload)["devices"].isArray() &&
                     json(mqtt->Messages[0].Payload)["devices"].empty(),
                 "initial-state", "the state isn't reset at the start");
        std::set<std::string> names;
        for (auto& m: server->Methods) {
            names.insert(m.first);
        }
        MC_CHECK((names == std::set<std::string>{"fw-update/GetFirmwareInfo", "fw-update/Update", "fw-update/ClearError", "fw-update/Restore"}), "methods", "wrong set of requests");
        static const char* NAMES[] = {"GetFirmwareInfo", "Update", "Restore", "ClearError"};
        int m = mc::choose(4, "request");
        int results = 0, errors = 0;
        Json::Value res;
        server->Call(std::string("fw-update/") + NAMES[m], mc::choose(2, "malformed") ? Json::Value(Json::objectValue) : request(), [&](auto& v) { ++results; res = v; }, [&](int, auto&) { ++errors; });
        if (q.tasks.empty()) {
            MC_CHECK(results + errors == 1, "service-answers", NAMES[m], ": ", results + errors, " answers");
        } else {
            MC_CHECK(results + errors == 0, "service-answers", NAMES[m]);
        }
        mc::nontrivial();
        mc::outcome(m);
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    bool th = mc::thorough();
    auto run = [&](const char* name, int bound, double seconds, int shard, std::vector<std::string> cover, std::function<void()> f) {
        mc::Options o;
        o.name = name;
        o.bound = bound;
        o.seconds = seconds;
        o.shardDepth = shard;
        o.mustCover = cover;
        mc::explore(o, [=] {
            try {
                f();
            } catch (const ExecutionEnd&) {
            }
        });
    };
    run("flash", th ? 2 : 1, 40, 5, {"request during an operation", "firmware flashed", "bootloade flashed", "component flashed", "a block is repeated", "a block fails", "info block fails", "legacy reboot without an answer", "reboot with port settings kept", "device information isn't available"}, [] { flash(false); });
    run("progress", 0, 20, 3, {}, [] { flash(true); });
    run("requests", 0, 20, 2, {"refused while another one is executed", "malformed request", "task can't be run", "task executed"}, [=] { requests(th ? 5 : 4); });
    run("info", th ? 2 : 1, 20, 3, {"component"}, info);
    run("state", 0, 15, 2, {}, [=] { stateList(th ? 4 : 3); });
    run("cache", 0, 15, 2, {"from the cache", "server is down", "from the server"}, [=] { cache(th ? 8 : 6); });
    run("files", 0, 15, 3, {}, files);
    run("service", 0, 5, 1, {}, service);
    return mc::finish();
}
