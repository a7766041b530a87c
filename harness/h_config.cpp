// P17: what is loaded from a configuration file and templates
#include "mc.h"
#include "confed_protocol_schemas_map.h"
#include "devices/modbus_device.h"
#include "log.h"
#include "serial_config.h"
#include "templates_map.h"
#include <filesystem>
#include <fstream>
#include <iostream>
#include <cstring>
#include <set>
#include <unistd.h>

namespace fs = std::filesystem;

namespace
{
    std::string repo()
    {
        auto p = getenv("VERIF_REPO");
        return p ? p : "/repo";
    }
    Json::Value parse(const std::string& s)
    {
        Json::Value r;
        std::string e;
        Json::CharReaderBuilder b;
        std::unique_ptr<Json::CharReader> rd(b.newCharReader());
        if (!rd->parse(s.data(), s.data() + s.size(), &r, &e)) {
            throw std::logic_error(e + s);
        }
        return r;
    }
    std::string dump(const Json::Value& v)
    {
        Json::StreamWriterBuilder b;
        b["indentation"] = "";
        return Json::writeString(b, v);
    }

    Json::Value common, templateSchema, portsSchema;
    TSerialDeviceFactory* factory;
    TProtocolConfedSchemasMap* protocols;
    std::shared_ptr<WBMQTT::JSON::TValidator> unused;
    std::string root;

    struct Scratch
    {
        pid_t pid = 0;
        ~Scratch()
        {
            if (pid == getpid() && !root.empty()) {
                fs::remove_all(root);
            }
        }
        void ensure()
        {
            if (pid == getpid()) {
                return;
            }
            pid = getpid();
            char t[] = "/dev/shm/p17XXXXXX", t2[] = "/tmp/p17XXXXXX";
            auto p = mkdtemp(t);
            root = p ? p : mkdtemp(t2);
            fs::create_directories(root + "/t");
        }
    } scratch;

    void put(const std::string& name, const std::string& text)
    {
        std::ofstream f(root + "/" + name, std::ios::trunc);
        f << text;
    }

    struct Loaded
    {
        bool ok = false;
        std::string error;
        PHandlerConfig cfg;
        PRPCConfig rpc;

        TSerialDeviceWithChannels& dev(size_t port = 0, size_t i = 0) const
        {
            return *cfg->PortConfigs.at(port)->Devices.at(i);
        }
    };

    Loaded load(const Json::Value& config, const std::vector<Json::Value>& templates, bool sameTemplates = false)
    {
        static std::unique_ptr<TTemplateMap> known;
        scratch.ensure();
        if (!sameTemplates || !known) {
            for (auto& e: fs::directory_iterator(root + "/t")) {
                fs::remove(e.path());
            }
            for (size_t i = 0; i < templates.size(); ++i) {
                put(mc::str("t/", i, ".json"), dump(templates[i]));
            }
            known = std::make_unique<TTemplateMap>(templateSchema);
            known->AddTemplatesDir(root + "/t");
        }
        TTemplateMap& map = *known;
        put("config.json", dump(config));
        Loaded l;
        l.rpc = std::make_shared<TRPCConfig>();
        try {
            l.cfg = LoadConfig(root + "/config.json", *factory, common, map, l.rpc, portsSchema, *protocols, DefaultPortFactory);
            l.ok = true;
        } catch (const std::exception& e) {
            l.error = e.what();
        }
        if (mc::tracing()) {
            mc::note(dump(config));
            for (auto& t: templates) {
                mc::note(dump(t));
            }
            mc::note(l.ok ? "loaded" : "refused: " + l.error);
        }
        return l;
    }

    Json::Value config(const Json::Value& device)
    {
        auto c = parse(R"({"ports":[{"path":"/dev/p0"}]})");
        c["ports"][0]["devices"].append(device);
        return c;
    }
    Json::Value templ(const Json::Value& device, const std::string& type = "T", bool hw = false)
    {
        Json::Value t;
        t["device_type"] = type;
        t["device"] = device;
        if (hw) {
            t["hw"] = parse(R"([{"signature":"S"}])");
        }
        return t;
    }

    std::string num(double d)
    {
        return std::isnan(d) ? "" : mc::str(d);
    }
    template<class T> std::string opt(const std::optional<T>& o)
    {
        return o ? mc::str(o->count()) : "";
    }
    const char* FORMATS[] = {"u8", "s8", "u16", "s16", "s24", "u24", "u32", "s32", "s64", "u64", "bcd8", "bcd16", "bcd24", "bcd32", "float", "double", "char8", "string", "string8"};

    std::string address(const TRegisterConfig& r)
    {
        std::string a = r.AccessType == TRegisterConfig::EAccessType::WRITE_ONLY ? "-" : r.GetAddress().ToString();
        auto w = r.GetWriteAddress().ToString();
        return a + (w == a ? "" : ">" + w);
    }
    std::string regText(const TRegisterConfig& r)
    {
        return r.TypeName + ":" + address(r);
    }

    using Props = std::map<std::string, std::string>;

    Props props(TDeviceChannelConfig& c)
    {
        Props p;
        p["id"] = c.MqttId;
        p["order"] = mc::str(c.Order);
        p["type"] = c.Type;
        p["device"] = c.DeviceId;
        p["en"] = c.GetName();
        auto& t = c.GetTitles();
        p["ru"] = t.count("ru") ? t.at("ru") : "";
        p["units"] = c.Units;
        p["max"] = num(c.Max);
        p["min"] = num(c.Min);
        p["on_value"] = c.OnValue;
        p["off_value"] = c.OffValue;
        p["hidden"] = c.Hidden ? "1" : "";
        p["ro control"] = c.ReadOnly ? "1" : "";
        p["precision"] = c.Precision ? num(c.Precision) : "";
        std::string e;
        for (auto& x: c.GetEnumTitles()) {
            e += x.first;
            for (auto& y: x.second) {
                e += mc::str("/", y.first, "=", y.second);
            }
            e += ",";
        }
        p["enum"] = e;
        p["registers"] = mc::str(c.Registers.size());
        if (c.Registers.size() == 1) {
            auto& r = *c.Registers[0]->GetConfig();
            p["reg_type"] = r.TypeName;
            p["address"] = address(r);
            p["bits"] = r.IsString() || !(r.GetDataOffset() || r.IsPartial()) ? "" : mc::str(r.GetDataOffset(), ":", r.GetDataWidth());
            p["size"] = r.IsString() ? mc::str(r.GetDataWidth() / 8) : "";
            p["format"] = FORMATS[r.Format];
            p["scale"] = num(r.Scale);
            p["offset"] = num(r.Offset);
            p["round_to"] = num(r.RoundTo);
            p["sporadic"] = r.SporadicMode == TRegisterConfig::TSporadicMode::ONLY_EVENTS ? "1" : "";
            p["semi-sporadic"] = r.SporadicMode == TRegisterConfig::TSporadicMode::EVENTS_AND_POLLING ? "1" : "";
            p["access"] = r.AccessType == TRegisterConfig::EAccessType::READ_ONLY ? "r" : r.AccessType == TRegisterConfig::EAccessType::WRITE_ONLY ? "w" : "rw";
            p["fw"] = r.FwVersion;
            p["read_rate_limit_ms"] = opt(r.ReadRateLimit);
            p["read_period_ms"] = opt(r.ReadPeriod);
            p["error_value"] = r.ErrorValue ? mc::str(r.ErrorValue->Get<uint64_t>()) : "";
            p["unsupported_value"] = r.UnsupportedValue ? mc::str(r.UnsupportedValue->Get<uint64_t>()) : "";
            p["word_order"] = r.WordOrder == EWordOrder::BigEndian ? "" : "le";
            p["byte_order"] = r.ByteOrder == EByteOrder::BigEndian ? "" : "le";
        }
        return p;
    }

    // ------------------------------------------------------------------ parameters, setup, conditions

    using Env = std::map<std::string, int>;
    struct Cond
    {
        const char* text;
        std::function<bool(const Env&)> f;
    };
    bool def(const Env& e, const char* n)
    {
        return e.count(n);
    }
    bool is(const Env& e, const char* n, int v)
    {
        return e.count(n) && e.at(n) == v;
    }
    const Cond CONDS[] = {
        {"", [](auto&) { return true; }},
        {"p1==1", [](auto& e) { return is(e, "p1", 1); }},
        {"p1!=1", [](auto& e) { return !is(e, "p1", 1); }},
        {"isDefined(p2)", [](auto& e) { return def(e, "p2"); }},
        {"p2>1||p1==0", [](auto& e) { return (def(e, "p2") && e.at("p2") > 1) || is(e, "p1", 0); }},
        {"p3>=5&&p9!=1", [](auto& e) { return def(e, "p3") && e.at("p3") >= 5; }},
        {"p9==1", [](auto&) { return false; }},
    };
    const int NCONDS = 7;

    void setCond(Json::Value& v, int c)
    {
        if (CONDS[c].text[0]) {
            v["condition"] = CONDS[c].text;
        }
    }

    struct Item
    {
        std::string address;
        std::string name;
        int64_t raw;
    };

    void conditions()
    {
        // parameters of the template
        struct Param
        {
            std::string id;
            int address;
            int cond = 0;
            int scale = 1, offset = 0;
            bool readonly = false, required = false;
            std::optional<int> dflt, max;
        };
        std::vector<Param> params;
        auto choice = [](int n) { return mc::choose(n); };
        int d1 = choice(3) - 1, v1 = choice(3) - 1, v2 = choice(4) - 1;
        int c1 = choice(NCONDS), c2 = mc::deviate(NCONDS, "condition of channel A");
        Param p1{"p1", 100};
        if (d1 >= 0) {
            p1.dflt = d1;
        }
        params.push_back(p1);
        Param p2{"p2", 101, c1, 2, 0};
        int d2 = mc::deviate(3, "default of p2") - 1;
        if (d2 >= 0) {
            p2.dflt = d2 + 1;
        }
        p2.required = mc::deviate(2, "p2 is required");
        if (mc::deviate(2, "maximum")) {
            p2.max = 1;
        }
        params.push_back(p2);
        int dup = mc::deviate(4, "second definition of p2"); // with other condition
        if (dup) {
            static const int DC[] = {0, 1, 2, 6};
            Param q{"p2", 101, DC[dup], 1, -10};
            if (mc::deviate(2, "another default")) {
                q.dflt = 2;
            }
            params.push_back(q);
        }
        Param p3{"p3", 102};
        int v3 = mc::deviate(3, "p3") ? 4 + mc::choose(2) : -1;
        p3.readonly = mc::deviate(2, "p3 is readonly");
        p3.cond = mc::deviate(NCONDS, "condition of p3");
        params.push_back(p3);
        bool object = !dup && mc::deviate(2, "parameters as an object");
        bool preserve = mc::deviate(2, "order of setup");
        int sc = mc::deviate(NCONDS, "condition of setup");
        int shared = mc::deviate(4, "setup at the address of a parameter or another type"); // 0 - other, 1 - p1, 2 - p2, 3 - another type with p1's address
        int chan2 = mc::deviate(NCONDS, "condition of the second channel");
        int cfgSetup = mc::deviate(5, "setup in the configuration");
        int notNumber = mc::deviate(4, "p3 isn't a number");
        int order = mc::deviate(2, "p2 before p1");

        if (order) {
            std::swap(params[0], params[1]);
        }
        Json::Value t;
        t["name"] = "N";
        t["id"] = "n";
        if (preserve) {
            t["preserve_setup_order"] = true;
        }
        for (auto& p: params) {
            Json::Value j;
            j["title"] = "title of " + p.id;
            j["address"] = p.address;
            setCond(j, p.cond);
            if (p.scale != 1) {
                j["scale"] = p.scale;
            }
            if (p.offset) {
                j["offset"] = p.offset;
            }
            if (p.readonly) {
                j["readonly"] = true;
            }
            if (p.required) {
                j["required"] = true;
            }
            if (p.dflt) {
                j["default"] = *p.dflt;
            }
            if (p.max) {
                j["max"] = *p.max;
            }
            if (object) {
                t["parameters"][p.id] = j;
            } else {
                j["id"] = p.id;
                t["parameters"].append(j);
            }
        }
        if (object) { // properties of an object have no order of their own
            std::sort(params.begin(), params.end(), [](auto& a, auto& b) { return a.id < b.id; });
        }
        auto setup = [&](const char* title, int addr, int value, int cond, const char* type = nullptr) {
            Json::Value j;
            j["title"] = title;
            j["address"] = addr;
            j["value"] = value;
            if (type) {
                j["reg_type"] = type;
            }
            setCond(j, cond);
            return j;
        };
        t["setup"].append(setup("s1", 200, 7, sc));
        int sharedAddress = shared == 0 ? 201 : shared == 2 ? 101 : 100;
        t["setup"].append(setup("s2", sharedAddress, 1, 0, shared == 3 ? "coil" : nullptr));
        t["setup"].append(setup("s3", 200, 9, 2));
        auto channel = [&](const char* name, int addr, int cond) {
            Json::Value j;
            j["name"] = name;
            j["reg_type"] = "input";
            j["address"] = addr;
            setCond(j, cond);
            return j;
        };
        t["channels"].append(channel("A", 1, c2));
        t["channels"].append(channel("B", 2, chan2));
        t["channels"].append(channel("C", 3, 0));
        auto dev = parse(R"({"device_type":"T","slave_id":"5"})");
        Env conf;
        auto set = [&](const char* n, int v) {
            if (v >= 0) {
                dev[n] = v;
                conf[n] = v;
            }
        };
        set("p1", v1);
        set("p2", v2);
        set("p3", v3);
        bool refusedByType = false;
        if (notNumber) {
            conf.erase("p3");
            // the schema allows only numbers for a parameter with true condition
            dev["p3"] = notNumber == 1 ? Json::Value("5") : notNumber == 2 ? Json::Value(true) : Json::Value(5.5);
        }
        Env full = conf;
        for (auto& p: params) {
            if (p.dflt && !full.count(p.id) && !dev.isMember(p.id)) {
                full[p.id] = *p.dflt;
            }
        }
        if (notNumber == 1 || notNumber == 2) {
            refusedByType = CONDS[p3.cond].f(conf);
        }
        std::vector<Item> expected;
        if (cfgSetup) {
            static const int A[] = {0, 300, 200, 100, 101};
            dev["setup"].append(setup("cs", A[cfgSetup], 3, 0));
            expected.push_back({mc::str("holding:", A[cfgSetup]), "cs", 3});
        }
        // the reference
        bool refused = refusedByType;
        std::set<std::string> defined;
        for (auto& p: params) {
            if (CONDS[p.cond].f(conf)) {
                refused = refused || !defined.insert(p.id).second;
                refused = refused || (p.required && !conf.count(p.id) && !dev.isMember(p.id));
                refused = refused || (p.max && conf.count(p.id) && conf[p.id] > *p.max);
            }
        }
        for (auto& p: params) {
            if (!p.readonly && CONDS[p.cond].f(full)) {
                if (conf.count(p.id)) {
                    int64_t raw = lround(double(conf[p.id] - p.offset) / p.scale); // fractions are rounded
                    expected.push_back({mc::str("holding:", p.address), "title of " + p.id, raw & 0xFFFF});
                } else if (notNumber == 3 && p.id == "p3") {
                    expected.push_back({mc::str("holding:", p.address), "title of " + p.id, -1}); // rounding isn't checked
                }
            }
        }
        if (CONDS[sc].f(full)) {
            expected.push_back({"holding:200", "s1", 7});
        }
        expected.push_back({mc::str(shared == 3 ? "coil:" : "holding:", sharedAddress), "s2", 1});
        if (CONDS[2].f(full)) {
            expected.push_back({"holding:200", "s3", 9});
        }
        std::vector<Item> unique;
        for (auto& e: expected) {
            if (std::none_of(unique.begin(), unique.end(), [&](auto& u) { return u.address == e.address; })) {
                unique.push_back(e);
            }
        }
        std::vector<std::string> channels;
        if (CONDS[c2].f(full)) {
            channels.push_back("A");
        }
        if (CONDS[chan2].f(full)) {
            channels.push_back("B");
        }
        channels.push_back("C");

        auto l = load(config(dev), {templ(t)});
        auto text = mc::str("conditions of p2 '", CONDS[c1].text, "', of channel A '", CONDS[c2].text, "', device ", dump(dev), ": ");
        mc::transition();
        MC_CHECK(l.ok == !refused, "acceptance", text, l.ok ? "must be refused" : "refused: " + l.error);
        mc::nontrivial();
        if (!l.ok || refused) {
            mc::cover("refused");
            mc::outcome(0);
            return;
        }
        mc::cover("loaded");
        auto& d = l.dev();
        std::vector<Item> got;
        for (auto& s: d.Device->GetSetupItems()) {
            got.push_back({regText(*s->RegisterConfig), s->Name, int64_t(s->RawValue.Get<uint64_t>() & 0xFFFF)});
        }
        auto show = [](const std::vector<Item>& v) {
            std::string s;
            for (auto& i: v) {
                s += mc::str(i.address, "=", i.raw, " (", i.name, "), ");
            }
            return s;
        };
        bool same = got.size() == unique.size();
        // holding registers come before coils if the order isn't preserved
        if (same && !preserve) {
            auto less = [](const Item& a, const Item& b) {
                bool ha = a.address[0] == 'h', hb = b.address[0] == 'h';
                return ha != hb ? ha : atoi(a.address.c_str() + a.address.find(':') + 1) < atoi(b.address.c_str() + b.address.find(':') + 1);
            };
            std::sort(unique.begin(), unique.end(), less);
        }
        for (size_t i = 0; same && i < got.size(); ++i) {
            same = got[i].address == unique[i].address && got[i].name == unique[i].name && (unique[i].raw == -1 || got[i].raw == unique[i].raw);
        }
        MC_CHECK(same, "setup", text, "setup is ", show(got), " instead of ", show(unique));
        std::string gc, ec;
        for (auto& c: d.Channels) {
            gc += c->MqttId + ":" + regText(*c->Registers[0]->GetConfig()) + " ";
        }
        for (auto& c: channels) {
            ec += c + ":input:" + (c == "A" ? "1" : c == "B" ? "2" : "3") + " ";
        }
        MC_CHECK(gc == ec, "channels", text, "channels are ", gc, "instead of ", ec);
        mc::outcome(mc::hash(show(got) + gc));
        mc::state(mc::hash(show(got) + gc));
    }

    //! Any subset of channels, setup items and parameters is removed by their conditions
    void patterns()
    {
        static const int KIND[] = {0, 1, 2}; // no condition, p1==1, p1!=1
        int n = mc::choose(mc::thorough() ? 7 : 6, "number of elements");
        std::vector<int> kinds;
        for (int i = 0; i < n; ++i) {
            kinds.push_back(KIND[mc::choose(3, "condition")]);
        }
        int v = mc::choose(3, "p1") - 1, d = mc::choose(3, "default of p1") - 1;
        int own = mc::choose(3, "channels of the configuration"); // none, the second one of the template, a new one
        Json::Value t;
        t["name"] = "N";
        t["preserve_setup_order"] = true;
        auto dev = parse(R"({"device_type":"T","slave_id":"5"})");
        Env conf, full;
        Json::Value p;
        p["id"] = "p1";
        p["title"] = "P";
        p["address"] = 90;
        if (d >= 0) {
            p["default"] = d;
            full["p1"] = d;
        }
        t["parameters"].append(p);
        std::string ec, es;
        if (v >= 0) {
            dev["p1"] = v;
            full["p1"] = conf["p1"] = v;
            es += mc::str("90=", v, " ");
        }
        for (int i = 0; i < n; ++i) {
            Json::Value q; // parameters' addresses differ
            q["id"] = mc::str("q", i);
            q["title"] = mc::str("Q", i);
            q["address"] = 100 + i;
            setCond(q, kinds[i]);
            t["parameters"].append(q);
            dev[mc::str("q", i)] = i;
            if (CONDS[kinds[i]].f(full)) {
                es += mc::str(100 + i, "=", i, " ");
            }
        }
        for (int i = 0; i < n; ++i) {
            bool on = CONDS[kinds[i]].f(full);
            Json::Value c, q;
            c["name"] = mc::str("C", i);
            c["reg_type"] = "input";
            c["address"] = i;
            setCond(c, kinds[i]);
            t["channels"].append(c);
            if (on) {
                ec += mc::str("C", i, ":", i, own == 1 && i == 1 ? ":777" : "", " ");
            }
            q["title"] = mc::str("S", i);
            q["address"] = 200 + i;
            q["value"] = i;
            setCond(q, kinds[i]);
            t["setup"].append(q);
            if (on) {
                es += mc::str(200 + i, "=", i, " ");
            }
        }
        Json::Value last;
        last["name"] = "Z";
        last["reg_type"] = "input";
        last["address"] = 50;
        t["channels"].append(last);
        ec += "Z:50 ";
        if (own == 1 && n > 1) {
            dev["channels"] = parse(R"([{"name":"C1","read_period_ms":777}])");
        } else if (own == 2) {
            dev["channels"] = parse(R"([{"name":"Y","reg_type":"input","address":60}])");
            ec += "Y:60 ";
        }
        auto l = load(config(dev), {templ(t)});
        mc::transition();
        auto text = mc::str(dump(dev), " with ", dump(t), ": ");
        MC_CHECK(l.ok, "acceptance", text, l.error);
        mc::nontrivial();
        std::string gc, gs;
        auto& r = l.dev();
        for (auto& c: r.Channels) {
            auto& rc = *c->Registers[0]->GetConfig();
            gc += mc::str(c->MqttId, ":", address(rc), rc.ReadPeriod ? mc::str(":", rc.ReadPeriod->count()) : "", " ");
        }
        for (auto& s: r.Device->GetSetupItems()) {
            gs += mc::str(address(*s->RegisterConfig), "=", s->RawValue.Get<uint64_t>(), " ");
        }
        MC_CHECK(gc == ec, "channels", text, "channels are ", gc, "instead of ", ec);
        MC_CHECK(gs == es, "setup", text, "setup is ", gs, "instead of ", es);
        mc::outcome(mc::hash(gc + gs));
    }

    // ------------------------------------------------------------------ properties of a channel

    struct Property
    {
        const char* name;
        const char* v[2]; // JSON
        bool forbidden;   // can't be changed by the configuration
    };
    const Property PROPERTIES[] = {
        {"id", {R"("x")", R"("y")"}, true},
        {"type", {R"("range")", R"("wo-switch")"}, true},
        {"reg_type", {R"("input")", R"("coil")"}, true},
        {"address", {"5", R"("0x10:2:4")"}, true},
        {"write_address", {"20", R"("0x15")"}, false},
        {"format", {R"("s32")", R"("u64")"}, true},
        {"units", {R"("V")", R"("A")"}, false},
        {"max", {R"("1,5")", R"("2.25")"}, true},
        {"min", {"-3", "7"}, false},
        {"scale", {"0.5", "3"}, true},
        {"offset", {"-10", "2.5"}, true},
        {"round_to", {"0.1", "10"}, true},
        {"on_value", {"3", R"("0x10")"}, true},
        {"off_value", {"-1", R"("7")"}, true},
        {"readonly", {"true", "false"}, false},
        {"read_period_ms", {"100", "2000"}, false},
        {"read_rate_limit_ms", {"0", "500"}, false},
        {"error_value", {"78187493520", R"("0x1234567890")"}, true},
        {"unsupported_value", {R"("0x7FFF")", R"("0xFFFFFFFFFFFFFFFF")"}, true},
        {"word_order", {R"("little_endian")", R"("big_endian")"}, true},
        {"byte_order", {R"("little_endian")", R"("big_endian")"}, true},
        {"sporadic", {"true", "false"}, false},
        {"semi-sporadic", {"true", "false"}, false},
        {"enum", {R"(["1","2"])", R"(["3"])"}, false},
        {"enum_titles", {R"(["one","two"])", R"(["three"])"}, false},
        {"hidden", {"true", "false"}, false},
        {"enabled", {"false", "true"}, false},
        {"fw", {R"("1.2.3")", R"("2.0")"}, false},
        {"consists_of", {R"([{"reg_type":"holding","address":30},{"reg_type":"holding","address":31}])", R"([{"reg_type":"input","address":40}])"}, true},
    };
    const int NPROPERTIES = sizeof(PROPERTIES) / sizeof(*PROPERTIES);

    double number(const Json::Value& v)
    {
        auto s = v.isString() ? v.asString() : "";
        std::replace(s.begin(), s.end(), ',', '.');
        return v.isString() ? atof(s.c_str()) : v.asDouble();
    }
    std::string integer(const Json::Value& v)
    {
        return v.isString() ? mc::str(strtoull(v.asCString(), nullptr, 0)) : mc::str(v.asInt64());
    }

    std::string addressText(const Json::Value& c, const char* key)
    {
        auto v = c[key];
        return v.isString() ? mc::str(strtoul(v.asCString(), nullptr, 0)) : mc::str(v.asInt());
    }

    //! The properties that a channel described by the JSON should have, an empty map if it isn't created
    Props expectedProps(const Json::Value& c, bool& refused)
    {
        Props p;
        auto on = [&](const char* n) { return c.isMember(n) && c[n].asBool(); };
        auto text = [&](const char* n, const char* d = "") { return c.isMember(n) ? c[n].asString() : std::string(d); };
        if (c.isMember("enabled") && !on("enabled") && !on("hidden")) {
            return p;
        }
        auto type = text("reg_type", "holding");
        p["id"] = c.isMember("id") ? text("id") : text("name");
        p["en"] = text("name");
        p["ru"] = "";
        p["order"] = "1";
        p["device"] = "dev";
        p["units"] = text("units");
        p["max"] = c.isMember("max") ? num(number(c["max"])) : "";
        p["min"] = c.isMember("min") ? num(number(c["min"])) : "";
        p["on_value"] = c.isMember("on_value") ? integer(c["on_value"]) : "";
        p["off_value"] = c.isMember("off_value") ? integer(c["off_value"]) : "";
        p["hidden"] = on("hidden") ? "1" : "";
        std::string e;
        auto& en = c["enum"];
        auto& et = c["enum_titles"];
        for (Json::ArrayIndex i = 0; i < en.size() && (!c.isMember("enum_titles") || et.size() == en.size()); ++i) {
            e += en[i].asString() + (c.isMember("enum_titles") ? "/en=" + et[i].asString() : "") + ",";
        }
        p["enum"] = e;
        bool several = c.isMember("consists_of") && c["consists_of"].size() > 1;
        refused = refused || (several && (c.isMember("on_value") || c.isMember("off_value")));
        const auto& r = c.isMember("consists_of") ? c["consists_of"][0] : c;
        auto regType = r.get("reg_type", "holding").asString();
        bool ro = regType == "input" || (r.isMember("readonly") && r["readonly"].asBool());
        auto control = c.isMember("type") ? text("type") : regType == "coil" ? "switch" : "value";
        bool wo = control == "wo-switch";
        p["type"] = wo ? "switch" : control;
        p["ro control"] = ro && !wo ? "1" : "";
        p["registers"] = several ? "2" : "1";
        p["precision"] = "";
        if (!several) {
            p["precision"] = r.isMember("round_to") && r["round_to"].asDouble() ? num(r["round_to"].asDouble()) : "";
            p["reg_type"] = regType;
            auto w = r.isMember("write_address") ? addressText(r, "write_address") : addressText(r, "address");
            auto a = wo ? "-" : addressText(r, "address");
            p["address"] = a + (a == w ? "" : ">" + w);
            p["bits"] = r["address"].isString() ? "2:4" : "";
            p["size"] = "";
            p["format"] = r.get("format", regType == "coil" ? "u8" : "u16").asString();
            p["scale"] = num(r.get("scale", 1.0).asDouble());
            p["offset"] = num(r.get("offset", 0.0).asDouble());
            p["round_to"] = num(r.get("round_to", 0.0).asDouble());
            bool semi = r.isMember("semi-sporadic") && r["semi-sporadic"].asBool();
            p["semi-sporadic"] = semi ? "1" : "";
            p["sporadic"] = !semi && r.isMember("sporadic") && r["sporadic"].asBool() ? "1" : "";
            p["access"] = wo ? "w" : ro ? "r" : "rw";
            p["fw"] = c.isMember("consists_of") ? "" : text("fw");
            p["read_rate_limit_ms"] = text("read_rate_limit_ms");
            p["read_period_ms"] = text("read_period_ms");
            p["error_value"] = r.isMember("error_value") ? integer(r["error_value"]) : "";
            p["unsupported_value"] = r.isMember("unsupported_value") ? integer(r["unsupported_value"]) : "";
            p["word_order"] = r.get("word_order", "").asString() == "little_endian" ? "le" : "";
            p["byte_order"] = r.get("byte_order", "").asString() == "little_endian" ? "le" : "";
        }
        return p;
    }

    std::string difference(const Props& a, const Props& b)
    {
        std::string s;
        std::set<std::string> names;
        for (auto& x: a) {
            names.insert(x.first);
        }
        for (auto& x: b) {
            names.insert(x.first);
        }
        for (auto& n: names) {
            auto ia = a.find(n), ib = b.find(n);
            if (ia == a.end() || ib == b.end() || ia->second != ib->second) {
                s += mc::str(n, " is '", ia == a.end() ? "-" : ia->second, "' instead of '", ib == b.end() ? "-" : ib->second, "' ");
            }
        }
        return s;
    }

    void overrides()
    {
        int where = mc::choose(3); // the configuration changes a template's channel, adds a channel, describes a device without a template
        int i = mc::choose(NPROPERTIES), j = i + mc::choose(NPROPERTIES - i);
        auto base = [] {
            Json::Value c;
            c["name"] = "A";
            c["reg_type"] = "holding";
            c["address"] = 1;
            return c;
        };
        auto t = base(), c = base();
        if (where == 0) {
            c = Json::Value();
            c["name"] = "A";
        }
        bool changed = false;
        for (int k: {i, j}) {
            auto& p = PROPERTIES[k];
            if (k == j && i == j && changed) {
                break;
            }
            changed = true;
            int inT = where == 0 ? mc::choose(3) : 0, inC = mc::choose(3);
            if (inT) {
                t[p.name] = parse(p.v[inT - 1]);
            }
            if (inC) {
                c[p.name] = parse(p.v[inC - 1]);
            }
        }
        bool twice = where == 0 && j == i + 1 && mc::choose(2); // two channels with one name in the template
        bool refused = false;
        Json::Value eff = c;
        if (where == 0) {
            eff = t;
            for (auto& p: PROPERTIES) {
                if (!c.isMember(p.name) || p.forbidden) {
                    continue;
                }
                if (!strcmp(p.name, "readonly") && t.isMember("readonly") && t["readonly"].asBool()) {
                    continue;
                }
                eff[p.name] = c[p.name];
            }
        }
        auto e = expectedProps(eff, refused);
        // formats wider than the register with a bit range
        auto dev = parse(R"({"slave_id":"5","id":"dev"})");
        Json::Value td;
        td["name"] = "N";
        if (where == 0) {
            td["channels"].append(t);
            if (twice) {
                t["id"] = "B2";
                td["channels"].append(t);
            }
        } else {
            auto other = base();
            other["name"] = "T";
            other["address"] = 99;
            td["channels"].append(other);
        }
        dev["channels"].append(c);
        if (where == 2) {
            dev["protocol"] = "modbus";
        } else {
            dev["device_type"] = "T";
        }
        auto l = load(config(dev), {templ(td)});
        mc::transition();
        auto text = mc::str("template's channel ", dump(t), ", configuration ", dump(c), where ? " (added channel): " : ": ");
        MC_CHECK(l.ok == !refused, "acceptance", text, l.ok ? "must be refused" : "refused: " + l.error);
        mc::nontrivial();
        mc::outcome(mc::hash(where ? dump(c) : dump(t)));
        if (!l.ok || refused) {
            mc::cover("refused");
            return;
        }
        auto& channels = l.dev().Channels;
        size_t n = !e.empty() + (where == 1) + (twice && !e.empty());
        MC_CHECK(channels.size() == n, "count", text, channels.size(), " channels instead of ", n);
        if (channels.size() != n || e.empty()) {
            mc::cover("disabled");
            return;
        }
        size_t k = where == 1 ? 1 : 0;
        if (where == 1) {
            e["order"] = "2";
        }
        for (int pass = 0; pass < (twice ? 2 : 1); ++pass, ++k) {
            if (pass) {
                e["order"] = "2";
                e["id"] = "B2";
            }
            auto g = props(*channels[k]);
            auto d = difference(g, e);
            MC_CHECK(d.empty(), "properties", text, d);
            mc::state(mc::hash(mc::str(g.size(), d)));
        }
    }

    // ------------------------------------------------------------------ subdevices

    void subdevices()
    {
        struct Node
        {
            std::string name;
            std::optional<std::string> id;
            Json::Value tr; // language -> text
        };
        auto node = [](const std::string& name, int id, int tr) {
            Node n;
            n.name = name;
            if (id) {
                n.id = id == 1 ? "i" + name : "";
            }
            n.tr = Json::Value(Json::objectValue);
            if (tr & 1) {
                n.tr["en"] = "en" + name;
            }
            if (tr & 2) {
                n.tr["ru"] = "ru" + name;
            }
            return n;
        };
        bool translated = mc::choose(2);
        auto s1 = node("S", mc::choose(3), translated ? mc::choose(4) : 0);
        auto ch = node("C", mc::choose(2), translated ? mc::choose(4) : 0);
        bool nested = mc::choose(2);
        auto s2 = node("N", nested ? mc::choose(3) : 0, nested && translated ? mc::choose(4) : 0);
        int shift1 = mc::deviate(3, "shift"), stride1 = mc::deviate(3, "stride"), format = mc::deviate(5, "format");
        int shift2 = nested ? mc::deviate(2, "inner shift") : 0, stride2 = nested ? mc::deviate(3, "inner stride") : 0;
        int second = mc::deviate(3, "the second subdevice"); // 1 - of the same type, 2 - the other alternative
        int oneOf = mc::deviate(4, "alternatives");          // 0 - no; 1 - default, 2 - chosen by the configuration, 3 - unknown is chosen
        int cfg = oneOf > 1 ? 1 : mc::deviate(4, "configuration"); // 1 - with the type, 2 - without the type, 3 - wrong type
        bool typed = cfg == 1 && oneOf != 3;
        int change = typed ? mc::deviate(6, "change of the subdevice") : 0;
        int plainTyped = mc::deviate(3, "device type of a usual channel");
        int topParameters = mc::deviate(3, "parameters of the device");
        int subParameters = mc::deviate(3, "parameters of the subdevice");
        int setupIn = mc::deviate(2, "setup of the subdevice");

        static const char* FORMAT[] = {"u16", "s32", "s24", "u8", "u64"};
        static const int WORDS[] = {2, 4, 3, 1, 8}; // bytes
        auto chJson = [&](const Node& n, int addr, const char* fmt) {
            Json::Value j;
            j["name"] = n.name;
            if (n.id) {
                j["id"] = *n.id;
            }
            j["reg_type"] = "holding";
            j["address"] = addr;
            j["format"] = fmt;
            return j;
        };
        auto subJson = [&](const Node& n, const char* type, int shift, int stride) {
            Json::Value j;
            j["name"] = n.name;
            if (n.id) {
                j["id"] = *n.id;
            }
            j["device_type"] = type;
            if (shift) {
                j["shift"] = shift == 1 ? Json::Value(100) : Json::Value("0x10");
            }
            if (stride) {
                j["stride"] = stride == 1 ? 1 : 3;
            }
            return j;
        };
        auto shiftOf = [](int s) { return s == 0 ? 0 : s == 1 ? 100 : 16; };
        auto strideOf = [](int s) { return s == 0 ? 0 : s == 1 ? 1 : 3; };
        Json::Value t;
        t["name"] = "N";
        auto plain = node("P", 0, 0);
        t["channels"].append(chJson(plain, 1, "u16"));
        auto top = subJson(s1, "sd", shift1, stride1);
        if (oneOf) {
            top["oneOf"].append("other");
            top["oneOf"].append("sd");
        }
        t["channels"].append(top);
        auto other = node("Z", 0, 0);
        if (second) {
            t["channels"].append(subJson(other, second == 1 ? "sd" : "other", 1, 0));
        }
        Json::Value sd, inner, alt;
        sd["device_type"] = "sd";
        sd["device"]["channels"].append(chJson(ch, 2, FORMAT[format]));
        if (nested) {
            sd["device"]["channels"].append(subJson(s2, "in", shift2, stride2));
        }
        auto setup = [](const char* title, int addr, int value) {
            Json::Value j;
            j["title"] = title;
            j["address"] = addr;
            j["value"] = value;
            return j;
        };
        if (setupIn) {
            sd["device"]["setup"].append(setup("sub setup", 300, 4));
        }
        auto parameters = [&](Json::Value& d, int how, int addr) {
            for (auto n: {"q1", "q2"}) {
                Json::Value p;
                p["title"] = n;
                p["address"] = addr++;
                if (how == 1) {
                    d["parameters"][n] = p;
                } else if (how == 2) {
                    p["id"] = n;
                    d["parameters"].append(p);
                }
            }
        };
        parameters(sd["device"], subParameters, 400);
        parameters(t, topParameters, 500);
        inner["device_type"] = "in";
        inner["device"]["channels"].append(chJson(ch, 3, "u16"));
        alt["device_type"] = "other";
        alt["device"]["channels"].append(chJson(ch, 50, "u16"));
        t["subdevices"].append(sd);
        t["subdevices"].append(inner);
        t["subdevices"].append(alt);
        for (auto n: {&s1, &s2, &ch}) {
            for (auto it = n->tr.begin(); it != n->tr.end(); ++it) {
                t["translations"][it.name()][n->name] = *it;
            }
        }

        auto dev = parse(R"({"slave_id":"5","id":"dev","device_type":"T"})");
        bool refused = cfg == 2 || cfg == 3 || oneOf == 3 || plainTyped == 1 || plainTyped == 2;
        auto mainType = oneOf == 2 ? "other" : "sd";
        bool innerOff = false, units = false;
        int setupShift = shiftOf(shift1), setupStride = strideOf(stride1);
        if (cfg) {
            Json::Value c;
            c["name"] = "S";
            if (cfg != 2) {
                c["device_type"] = cfg == 3 ? "unknown" : oneOf == 3 ? "in" : mainType;
            }
            if (change == 1) {
                Json::Value x;
                x["name"] = "C";
                x["units"] = "V";
                x["address"] = 77; // can't be changed
                c["channels"].append(x);
                units = true;
            }
            if (change == 2) {
                Json::Value x;
                x["name"] = "C";
                x["enabled"] = false;
                c["channels"].append(x);
                innerOff = true;
            }
            if (change == 3) {
                c["shift"] = 1000;
                setupShift = 1000;
            }
            if (change == 4) {
                c["stride"] = 2;
                setupStride = 2;
            }
            if (change == 5) {
                c["setup"].append(setup("own setup", 310, 6));
            }
            if (subParameters && oneOf != 2) {
                c["q1"] = 11;
                c["q2"] = 12;
            }
            dev["channels"].append(c);
        }
        if (plainTyped) {
            Json::Value c;
            c["name"] = plainTyped == 1 ? "P" : "new";
            c["device_type"] = "sd";
            if (plainTyped == 2) {
                c["address"] = 8;
            }
            dev["channels"].append(c);
        }
        if (topParameters) {
            dev["q1"] = 21;
            dev["q2"] = 22;
        }

        // the reference
        struct Ctx
        {
            std::string mqtt;
            std::map<std::string, std::string> titles;
            int shift = 0, stride = 0;
            std::string setup;
        };
        bool hasTranslations = t.isMember("translations");
        auto title = [&](const Node& n, const Ctx& c) {
            std::map<std::string, std::string> r;
            auto joined = [](const std::string& a, const std::string& b) { return a.empty() ? b : a + " " + b; };
            for (std::string lang: {"en", "ru"}) {
                bool own = n.tr.isMember(lang);
                std::string prefix = c.mqtt;
                bool prefixTranslated = false;
                if (c.titles.count(lang)) {
                    prefix = c.titles.at(lang);
                    prefixTranslated = true;
                } else if (c.titles.count("en")) {
                    prefix = c.titles.at("en");
                }
                if (own) {
                    r[lang] = joined(prefix, n.tr[lang].asString());
                } else if (prefixTranslated || (lang == "en" && n.id)) {
                    r[lang] = joined(prefix, n.name);
                }
            }
            (void)hasTranslations;
            return r;
        };
        auto enter = [&](const Node& n, const Ctx& c, int shift, int stride) {
            Ctx r;
            auto id = n.id ? *n.id : n.name;
            r.mqtt = c.mqtt.empty() || id.empty() ? c.mqtt + id : c.mqtt + " " + id;
            if (!id.empty()) {
                r.titles = title(n, c);
            }
            r.shift = c.shift + shift;
            r.stride = stride;
            r.setup = c.setup.empty() ? n.name : c.setup + " " + n.name;
            return r;
        };
        std::vector<std::string> expected, expectedSetup;
        auto addChannel = [&](const Node& n, const Ctx& c, int addr, int bytes, const std::string& u) {
            auto id = n.id ? *n.id : n.name;
            auto tl = title(n, c);
            auto mqtt = c.mqtt.empty() ? id : c.mqtt + " " + id;
            expected.push_back(mc::str(mqtt, " '", tl.count("en") ? tl["en"] : mqtt, "' '", tl["ru"], "' ", c.shift + addr + (c.stride * bytes + 1) / 2, u));
        };
        if (topParameters) {
            expectedSetup.push_back("500=21 (q1)");
            expectedSetup.push_back("501=22 (q2)");
        }
        auto addSub = [&](const Node& n, const std::string& type, int shift, int stride, bool main) {
            auto c = enter(n, Ctx(), shift, stride);
            if (type == "sd") {
                auto reg = [&](int a) { return c.shift + a + (c.stride * 2 + 1) / 2; };
                if (main && change == 5) {
                    expectedSetup.push_back(mc::str(reg(310), "=6 (", c.setup, " own setup)"));
                }
                if (main && subParameters && cfg) {
                    expectedSetup.push_back(mc::str(reg(400), "=11 (", c.setup, " q1)"));
                    expectedSetup.push_back(mc::str(reg(401), "=12 (", c.setup, " q2)"));
                }
                if (setupIn) {
                    expectedSetup.push_back(mc::str(reg(300), "=4 (", c.setup, " sub setup)"));
                }
                if (!(main && innerOff)) {
                    addChannel(ch, c, 2, WORDS[format], main && units ? " V" : "");
                }
                if (nested) {
                    addChannel(ch, enter(s2, c, shiftOf(shift2), strideOf(stride2)), 3, 2, "");
                }
            } else {
                addChannel(ch, c, 50, 2, main && units ? " V" : "");
                if (main && innerOff) {
                    expected.pop_back();
                }
                if (main && change == 5) {
                    expectedSetup.push_back(mc::str(c.shift + 310 + (c.stride * 2 + 1) / 2, "=6 (", c.setup, " own setup)"));
                }
            }
        };
        addChannel(plain, Ctx(), 1, 2, "");
        addSub(s1, mainType, setupShift, setupStride, true);
        if (second) {
            addSub(other, second == 1 ? "sd" : "other", 100, 0, false);
        }

        auto l = load(config(dev), {templ(t)});
        mc::transition();
        auto text = mc::str("template ", dump(t), ", device ", dump(dev), ": ");
        MC_CHECK(l.ok == !refused, "acceptance", text, l.ok ? "must be refused" : "refused: " + l.error);
        mc::nontrivial();
        mc::outcome(mc::hash(dump(t)));
        if (!l.ok || refused) {
            mc::cover("refused");
            return;
        }
        std::vector<std::string> got, gotSetup;
        for (auto& c: l.dev().Channels) {
            auto p = props(*c);
            got.push_back(mc::str(p["id"], " '", p["en"], "' '", p["ru"], "' ", p["address"], p["units"].empty() ? "" : " " + p["units"]));
        }
        for (auto& s: l.dev().Device->GetSetupItems()) {
            gotSetup.push_back(mc::str(address(*s->RegisterConfig), "=", s->RawValue.Get<uint64_t>(), " (", s->Name, ")"));
        }
        auto list = [](std::vector<std::string> v, bool sorted) {
            if (sorted) {
                std::sort(v.begin(), v.end());
            }
            std::string s;
            for (auto& x: v) {
                s += x + "; ";
            }
            return s;
        };
        MC_CHECK(got == expected, "channels", text, "channels are ", list(got, false), "instead of ", list(expected, false));
        MC_CHECK(list(gotSetup, true) == list(expectedSetup, true), "setup", text, "setup is ", list(gotSetup, false), "instead of ", list(expectedSetup, false));
        mc::state(mc::hash(list(got, false)));
    }

    // ------------------------------------------------------------------ properties of a device

    Props deviceProps(const Loaded& l)
    {
        auto& d = l.dev();
        auto& c = *d.Device->DeviceConfig();
        Props p;
        p["id"] = c.Id;
        p["name"] = c.Name;
        p["slave_id"] = c.SlaveId;
        p["device_type"] = c.DeviceType;
        p["response_timeout_ms"] = mc::str(c.ResponseTimeout.count());
        p["frame_timeout_ms"] = mc::str(c.FrameTimeout.count());
        p["device_timeout_ms"] = mc::str(c.DeviceTimeout.count());
        p["device_max_fail_cycles"] = mc::str(c.DeviceMaxFailCycles);
        p["max_write_fail_time_s"] = mc::str(c.MaxWriteFailTime.count());
        p["max_reg_hole"] = mc::str(c.MaxRegHole);
        p["max_bit_hole"] = mc::str(c.MaxBitHole);
        p["max_read_registers"] = mc::str(c.MaxReadRegisters);
        p["min_read_registers"] = mc::str(c.MinReadRegisters);
        p["max_write_registers"] = mc::str(c.MaxWriteRegisters);
        p["guard_interval_us"] = mc::str(c.RequestDelay.count());
        p["min_request_interval"] = mc::str(c.MinRequestInterval.count());
        p["access_level"] = mc::str(c.AccessLevel);
        for (auto x: c.Password) {
            p["password"] += mc::str(int(x), ",");
        }
        p["password"] += "";
        p["preserve_setup_order"] = c.PreserveSetupOrder ? "true" : "false";
        p["continue_polling_on_illegal_modbus_exception"] = c.ContinuePollingOnIllegalModbusException ? "true" : "false";
        auto m = std::dynamic_pointer_cast<TModbusDevice>(d.Device);
        p["force_frame_timeout"] = m && m->GetForceFrameTimeout() ? "true" : "false";
        p["read_rate_limit_ms"] = d.Channels.empty() ? "?" : opt(d.Channels[0]->Registers[0]->GetConfig()->ReadRateLimit);
        p["own limit"] = d.Channels.size() < 2 ? "?" : opt(d.Channels[1]->Registers[0]->GetConfig()->ReadRateLimit);
        p["protocol"] = d.Device->Protocol()->GetName();
        p["wb"] = d.Device->IsWbDevice() ? "1" : "";
        return p;
    }

    struct DeviceProperty
    {
        const char* name;
        const char* v[2];
        const char* dflt;
    };
    const DeviceProperty DEVICE[] = {
        {"response_timeout_ms", {"100", "-1"}, "-1"},
        {"frame_timeout_ms", {"50", "-1"}, "20"},
        {"device_timeout_ms", {"0", "5000"}, "3000"},
        {"device_max_fail_cycles", {"0", "7"}, "2"},
        {"max_write_fail_time_s", {"0", "5"}, "600"},
        {"max_reg_hole", {"3", "0"}, "0"},
        {"max_bit_hole", {"5", "0"}, "0"},
        {"max_read_registers", {"0", "60"}, "1"},
        {"min_read_registers", {"0", "10"}, "1"},
        {"max_write_registers", {"0", "10"}, "1"},
        {"guard_interval_us", {"0", "5000"}, "0"},
        {"read_rate_limit_ms", {"0", "3000"}, ""},
        {"min_request_interval", {"0", "50"}, "0"},
        {"access_level", {"0", "2"}, "1"},
        {"password", {R"([1,"0x10"])", "[7]"}, ""},
        {"preserve_setup_order", {"true", "false"}, "false"},
        {"force_frame_timeout", {"true", "false"}, "false"},
        {"continue_polling_on_illegal_modbus_exception", {"true", "false"}, "false"},
        {"name", {R"("one")", R"("two")"}, ""},
        {"id", {R"("one")", R"("two")"}, ""},
        {"enable_wb_continuous_read", {"true", "false"}, ""},
    };
    const int NDEVICE = sizeof(DEVICE) / sizeof(*DEVICE);

    void deviceProperties()
    {
        int where = mc::choose(2); // with a template or without it
        int i = mc::choose(NDEVICE), j = i + mc::choose(NDEVICE - i);
        bool hw = where == 0 && i == j && mc::choose(2);
        int portGuard = i == j ? mc::choose(2) : 0, portLimit = i == j ? mc::choose(2) : 0;
        bool protocol = where == 0 && i == j && mc::choose(2); // a protocol in the configuration of a device with a template
        auto channels = parse(R"([{"name":"A","reg_type":"holding","address":1},{"name":"B","reg_type":"holding","address":2,"read_rate_limit_ms":77}])");
        Json::Value t;
        t["name"] = "N";
        t["channels"] = channels;
        auto dev = parse(R"({"slave_id":"5"})");
        if (where == 0) {
            dev["device_type"] = "T";
            if (protocol) {
                dev["protocol"] = "uniel";
            }
        } else {
            dev["channels"] = channels;
            dev["protocol"] = "modbus";
        }
        auto eff = where ? dev : t;
        for (int k = i; k <= j; k += std::max(1, j - i)) {
            auto& p = DEVICE[k];
            int inT = where == 0 ? mc::choose(3) : 0, inC = mc::choose(3);
            if (inT) {
                t[p.name] = parse(p.v[inT - 1]);
            }
            if (inC) {
                dev[p.name] = parse(p.v[inC - 1]);
            }
            if (inT || inC) {
                eff[p.name] = inC ? dev[p.name] : t[p.name];
            }
        }
        bool wb = where == 0 && (hw || (t.isMember("enable_wb_continuous_read") && t["enable_wb_continuous_read"].asBool()));
        Props e;
        for (auto& p: DEVICE) {
            std::string n = p.name;
            if (n == "enable_wb_continuous_read") {
                continue;
            }
            e[n] = p.dflt;
            if (n == "max_write_registers" && wb) {
                e[n] = "123";
            }
            if (eff.isMember(n)) {
                if (n == "password") {
                    for (auto& x: eff[n]) {
                        e[n] += x.isString() ? mc::str(strtoul(x.asCString(), nullptr, 0), ",") : x.asString() + ",";
                    }
                } else {
                    e[n] = eff[n].asString();
                }
            }
            if (n == "frame_timeout_ms" && e[n] == "-1") {
                e[n] = "20";
            }
            if (n == "guard_interval_us" && e[n] == "0" && portGuard) {
                e[n] = "700";
            }
            if (n == "read_rate_limit_ms" && !eff.isMember(n)) {
                e[n] = portLimit ? "900" : "";
            }
        }
        e["name"] = dev.isMember("name") ? dev["name"].asString() : where ? "" : (t.isMember("name") ? t["name"].asString() : "N") + " 5";
        e["id"] = dev.isMember("id") ? dev["id"].asString() : t.isMember("id") ? t["id"].asString() + "_5" : "wb-modbus-0-0";
        e["slave_id"] = "5";
        e["device_type"] = where ? "" : "T";
        e["protocol"] = "modbus";
        e["own limit"] = "77";
        e["wb"] = wb ? "1" : "";
        auto c = config(dev);
        if (portGuard) {
            c["ports"][0]["guard_interval_us"] = 700;
        }
        if (portLimit) {
            c["ports"][0]["read_rate_limit_ms"] = 900;
        }
        auto l = load(c, {templ(t, "T", hw)});
        mc::transition();
        auto text = mc::str("template ", dump(t), hw ? " with hardware" : "", ", configuration ", dump(c), ": ");
        MC_CHECK(l.ok, "acceptance", text, "refused: ", l.error);
        mc::nontrivial();
        if (l.ok) {
            auto d = difference(deviceProps(l), e);
            MC_CHECK(d.empty(), "device", text, d);
            mc::state(mc::hash(dump(eff)));
        }
        mc::outcome(mc::hash(dump(t) + dump(dev)));
    }

    // ------------------------------------------------------------------ ports and duplicates

    void duplicates()
    {
        static const char* PORT[] = {R"({"path":"/dev/a"})",
                                     R"({"path":"/dev/b","port_type":"serial"})",
                                     R"({"port_type":"tcp","address":"h","port":1})",
                                     R"({"port_type":"tcp","address":"h","port":2})",
                                     R"({"port_type":"modbus tcp","address":"h","port":1})",
                                     R"({"port_type":"modbus tcp","address":"i","port":1,"connected_to_mge":true})"};
        static const char* ADDRESS[] = {"/dev/a", "/dev/b", "h:1", "h:2", "h:1", "i:1"};
        static const char* SLAVE[] = {"1", "0x01", "2"};
        static const char* ID[] = {"", "x", "wb-modbus-1-0"};
        int type[] = {mc::choose(6), mc::choose(6)};
        struct Dev
        {
            int port, slave, id;
            bool on, uniel;
        };
        std::vector<Dev> devs = {{0, 0, 0, true, false}, {0, mc::choose(3), 0, true, false}, {1, mc::choose(2), 0, true, false}};
        for (auto& d: devs) {
            d.id = mc::deviate(3, "MQTT id");
        }
        bool portOn[2];
        for (auto& p: portOn) {
            p = !mc::deviate(2, "disabled port");
        }
        for (auto& d: devs) {
            d.on = !mc::deviate(2, "disabled device");
            d.uniel = mc::deviate(2, "another protocol");
        }
        Json::Value c;
        for (int p = 0; p < 2; ++p) {
            auto port = parse(PORT[type[p]]);
            if (!portOn[p]) {
                port["enabled"] = false;
            }
            c["ports"].append(port);
        }
        // the reference
        bool refused = portOn[0] && portOn[1] && !strcmp(ADDRESS[type[0]], ADDRESS[type[1]]);
        std::set<std::string> ids, slaves;
        std::vector<std::vector<std::string>> expected(2);
        int index[2] = {};
        for (auto& d: devs) {
            Json::Value j;
            j["slave_id"] = SLAVE[d.slave];
            j["protocol"] = d.uniel ? "uniel" : "modbus";
            if (d.id) {
                j["id"] = ID[d.id];
            }
            j["enabled"] = d.on;
            c["ports"][d.port]["devices"].append(j);
            auto id = d.id ? ID[d.id] : mc::str("wb-modbus-", d.port, "-", index[d.port]);
            ++index[d.port];
            if (!portOn[d.port] || !d.on) {
                continue;
            }
            bool modbusTcp = type[d.port] >= 4;
            refused = refused || (modbusTcp && d.uniel);
            refused = refused || !ids.insert(id).second;
            refused = refused || !slaves.insert(mc::str(d.port, d.uniel ? "uniel" : "modbus", d.slave == 2 ? 2 : 1)).second;
            expected[d.port].push_back(id + (d.uniel ? " uniel" : modbusTcp ? " modbus-tcp" : " modbus"));
        }
        auto l = load(c, {});
        mc::transition();
        mc::nontrivial();
        mc::outcome(mc::hash(dump(c)));
        auto text = dump(c) + ": ";
        MC_CHECK(l.ok == !refused, "acceptance", text, l.ok ? "must be refused" : "refused: " + l.error);
        if (!l.ok || refused) {
            mc::cover("refused");
            return;
        }
        mc::cover("loaded");
        std::vector<std::vector<std::string>> want, got;
        std::string rpc, gotRpc;
        for (int p = 0; p < 2; ++p) {
            if (portOn[p]) {
                want.push_back({ADDRESS[type[p]] + std::string(type[p] >= 4 ? " modbus tcp" : "")});
                want.back().insert(want.back().end(), expected[p].begin(), expected[p].end());
            }
        }
        for (auto& p: l.cfg->PortConfigs) {
            got.push_back({p->Port->GetDescription(false) + (p->Port->IsModbusTcp() ? " modbus tcp" : "")});
            for (auto& d: p->Devices) {
                got.back().push_back(d->Device->DeviceConfig()->Id + " " + d->Device->Protocol()->GetName());
            }
        }
        auto show = [](const std::vector<std::vector<std::string>>& v) {
            std::string s;
            for (auto& p: v) {
                for (auto& x: p) {
                    s += x + ", ";
                }
                s += "; ";
            }
            return s;
        };
        MC_CHECK(want == got, "devices", text, show(got), " instead of ", show(want));
        auto pc = l.rpc->GetPortConfigs();
        for (auto& p: pc) {
            gotRpc += (p.isMember("path") ? p["path"].asString() : p["address"].asString() + ":" + p["port"].asString() + (p.isMember("mode") ? " modbus tcp" : "")) + " ";
        }
        for (auto& w: want) {
            rpc += w[0] + " ";
        }
        MC_CHECK(rpc == gotRpc, "ports", text, gotRpc, "instead of ", rpc);
        mc::state(mc::hash(show(got)));
    }

    struct Setting
    {
        const char* where; // s - serial, t - tcp, r - root, * - any port
        const char* name;
        const char* v;
    };
    const Setting SETTINGS[] = {
        {"s", "baud_rate", "115200"},
        {"s", "parity", R"("E")"},
        {"s", "data_bits", "7"},
        {"s", "stop_bits", "2"},
        {"t", "connection_timeout_ms", "-1"},
        {"t", "connection_max_fail_cycles", "-1"},
        {"t", "connection_timeout_ms", "300"},
        {"t", "connection_max_fail_cycles", "0"},
        {"*", "response_timeout_ms", "0"},
        {"*", "response_timeout_ms", "800"},
        {"*", "guard_interval_us", "40"},
        {"*", "read_rate_limit_ms", "60"},
        {"r", "debug", "true"},
        {"r", "rate_limit", "7"},
        {"r", "max_unchanged_interval", "-5"},
        {"r", "max_unchanged_interval", "0"},
        {"r", "max_unchanged_interval", "2"},
        {"r", "max_unchanged_interval", "60"},
    };

    void portSettings()
    {
        int type = mc::choose(3);
        static const char* PORT[] = {R"({"path":"/dev/a"})", R"({"port_type":"tcp","address":"h","port":1})", R"({"port_type":"modbus tcp","address":"h","port":1})"};
        Json::Value c, port = parse(PORT[type]);
        Props e;
        e["baud_rate"] = type ? "" : "9600";
        e["parity"] = type ? "" : "N";
        e["data_bits"] = type ? "" : "8";
        e["stop_bits"] = type ? "" : "1";
        e["connection_timeout_ms"] = "5000";
        e["connection_max_fail_cycles"] = "2";
        e["response_timeout_ms"] = "-1";
        e["guard_interval_us"] = "0";
        e["read_rate_limit_ms"] = "";
        e["debug"] = "false";
        e["rate_limit"] = "";
        e["max_unchanged_interval"] = "-1";
        for (auto& s: SETTINGS) {
            bool fits = s.where[0] == '*' || s.where[0] == 'r' || (s.where[0] == 's' ? type == 0 : type != 0);
            if (fits && mc::deviate(2, s.name)) {
                (s.where[0] == 'r' ? c : port)[s.name] = parse(s.v);
                e[s.name] = parse(s.v).asString();
            }
        }
        auto& u = e["max_unchanged_interval"];
        u = u[0] == '-' ? "-1" : u == "2" ? "5" : u;
        c["ports"].append(port);
        auto l = load(c, {});
        mc::transition();
        mc::nontrivial();
        mc::outcome(mc::hash(dump(c)));
        MC_CHECK(l.ok, "acceptance", dump(c), ": ", l.error);
        if (!l.ok) {
            return;
        }
        Props g;
        auto& pc = *l.cfg->PortConfigs.at(0);
        auto rpc = l.rpc->GetPortConfigs()[0];
        for (auto n: {"baud_rate", "parity", "data_bits", "stop_bits"}) {
            g[n] = rpc.get(n, "").asString();
        }
        g["connection_timeout_ms"] = mc::str(pc.OpenCloseSettings.MaxFailTime.count());
        g["connection_max_fail_cycles"] = mc::str(pc.OpenCloseSettings.ConnectionMaxFailCycles);
        auto rt = pc.Port->GetMinimalResponseTimeout().count();
        g["response_timeout_ms"] = mc::str(rt < 0 ? -1 : rt / 1000);
        g["guard_interval_us"] = mc::str(pc.RequestDelay.count());
        g["read_rate_limit_ms"] = opt(pc.ReadRateLimit);
        g["debug"] = l.cfg->Debug ? "true" : "false";
        g["rate_limit"] = e["rate_limit"].empty() ? "" : mc::str(l.cfg->LowPriorityRegistersRateLimit);
        auto& pp = l.cfg->PublishParameters;
        g["max_unchanged_interval"] = pp.Policy == WBMQTT::TPublishParameters::PublishOnlyOnChange ? "-1" : pp.Policy == WBMQTT::TPublishParameters::PublishAll ? "0" : mc::str(pp.PublishUnchangedInterval.count() / 1000);
        auto d = difference(g, e);
        MC_CHECK(d.empty(), "port", dump(c), ": ", d);
        mc::state(mc::hash(d));
    }

    // ------------------------------------------------------------------ old formats

    void oldFormats()
    {
        bool withTemplate = mc::choose(2);
        auto t = parse(R"({"name":"N","channels":[{"name":"A","reg_type":"holding","address":1},{"name":"B","reg_type":"holding","address":2}]})");
        auto c = parse(R"({"ports":[{"path":"/dev/a","devices":[{"slave_id":"5","id":"dev"}]}]})");
        auto& port = c["ports"][0];
        auto& dev = port["devices"][0];
        dev[withTemplate ? "device_type" : "protocol"] = withTemplate ? "T" : "modbus";
        auto channel = [&](const char* name, int addr) -> Json::Value& {
            Json::Value j;
            j["name"] = name;
            if (!withTemplate) {
                j["reg_type"] = "holding";
                j["address"] = addr;
            }
            return dev["channels"].append(j);
        };
        channel("A", 1);
        channel("B", 2);
        auto modern = c;
        auto each = [&](auto f) {
            f(c, true);
            f(modern, false);
        };
        for (int level = 0; level < 3; ++level) {
            int how = mc::choose(4); // nothing, the old name, both names, the new name
            each([&](Json::Value& v, bool old) {
                auto& d = v["ports"][0]["devices"][0];
                auto& n = level == 0 ? v["ports"][0] : level == 1 ? d : d["channels"][0];
                if (how == 1 || how == 2) {
                    if (old) {
                        n["poll_interval"] = 100 + level;
                    }
                    n["read_rate_limit_ms"] = 100 + level;
                }
                if (how == 1 && old) {
                    n.removeMember("read_rate_limit_ms");
                }
                if (how >= 2) {
                    n["read_rate_limit_ms"] = 200 + level;
                }
            });
        }
        if (mc::choose(2)) {
            dev["slave_id"] = 5;
        }
        if (mc::choose(2)) {
            dev["password"] = parse("[1,22]");
            modern["ports"][0]["devices"][0]["password"] = parse(R"(["1","22"])");
        }
        if (mc::choose(2)) {
            dev["channels"][1]["enum"] = parse(R"([1,"2",3])");
            modern["ports"][0]["devices"][0]["channels"][1]["enum"] = parse(R"(["1","2","3"])");
        }
        int lost = mc::choose(3); // a channel that isn't in the template any more, a channel added by the user
        if (lost) {
            Json::Value j;
            j["name"] = "gone";
            j["units"] = "V";
            if (lost == 2) {
                j["reg_type"] = "holding";
                j["write_address"] = 9;
                modern["ports"][0]["devices"][0]["channels"].append(j);
            }
            dev["channels"].append(j);
        }
        auto text = mc::str(dump(c), " and ", dump(modern), ": ");
        auto a = load(c, {templ(t)});
        auto b = load(modern, {templ(t)});
        mc::transition();
        mc::nontrivial();
        mc::outcome(mc::hash(dump(c)));
        MC_CHECK(a.ok && b.ok, "acceptance", text, "refused: ", a.error, b.error);
        if (!a.ok || !b.ok) {
            return;
        }
        auto d = difference(deviceProps(a), deviceProps(b));
        MC_CHECK(d.empty(), "device", text, d);
        auto &ca = a.dev().Channels, &cb = b.dev().Channels;
        MC_CHECK(ca.size() == cb.size() && ca.size() == 2u + (lost == 2), "channels", text, ca.size(), " channels and ", cb.size());
        for (size_t i = 0; i < std::min(ca.size(), cb.size()); ++i) {
            d = difference(props(*ca[i]), props(*cb[i]));
            MC_CHECK(d.empty(), "channel", text, d);
        }
        mc::state(mc::hash(deviceProps(a)["read_rate_limit_ms"]));
    }

    // ------------------------------------------------------------------ wrong values

    const char* RICH_CONFIG = R"({"debug":false,"rate_limit":100,"max_unchanged_interval":10,"ports":[
        {"path":"/dev/a","enabled":true,"baud_rate":9600,"parity":"N","data_bits":8,"stop_bits":1,"response_timeout_ms":500,"guard_interval_us":1,"read_rate_limit_ms":5,"poll_interval":7,"devices":[
            {"device_type":"T","slave_id":"1","enabled":true,"name":"n","id":"i","p1":1,"p2":2,"password":[1,"2"],"frame_timeout_ms":10,"poll_interval":4,"protocol":"modbus",
             "setup":[{"title":"s","address":"0x10:1:2","value":"1"}],
             "channels":[{"name":"A","enabled":true,"read_period_ms":100,"readonly":true,"enum":[1,"2"]},
                         {"name":"S","device_type":"sd","shift":1,"stride":1,"channels":[{"name":"C"}],"setup":[{"title":"t","address":5,"value":1}]},
                         {"name":"new","reg_type":"holding","address":"7:1:3","write_address":8,"format":"u16","scale":2,"offset":1,"round_to":1,"max":5,"on_value":"1","off_value":0,"error_value":"0xFF","word_order":"big_endian","consists_of":[{"reg_type":"coil","address":2}]}]},
            {"protocol":"modbus","slave_id":"0x2","shift":4,"stride":1,
             "channels":[{"name":"X","type":"switch","reg_type":"holding","address":1,"format":"string","string_data_size":3,"sporadic":true,"enum":["1"],"enum_titles":["one"],"hidden":false,"unsupported_value":"0x7F"},
                         {"name":"Serial","enabled":false,"reg_type":"input","address":"0x10E"}]},
            {"protocol":"uniel","slave_id":"3","channels":[{"name":"U","reg_type":"relay","address":1}]}]},
        {"port_type":"tcp","address":"h","port":1,"connection_timeout_ms":5,"connection_max_fail_cycles":4,"devices":[{"protocol":"energomera_iec_mode_c","slave_id":"77","channels":[{"name":"E","reg_type":"item_1","address":"VOLTA"}]}]},
        {"port_type":"modbus tcp","address":"h","port":2,"connected_to_mge":false,"devices":[]}]})";
    const char* RICH_TEMPLATE = R"J({"device_type":"T","hw":[{"signature":"S","fw":"1.2"}],"title":"t","group":"g","device":{"name":"N","id":"n","max_read_registers":5,"enable_wb_continuous_read":true,
        "groups":[{"title":"g","id":"g","order":1}],
        "parameters":{"p1":{"title":"P1","address":1,"default":1,"min":0,"max":5,"enum":[1,2],"enum_titles":["a","b"],"order":1,"group":"g","condition":"p2==2"},"p2":{"title":"P2","address":"2:1:4","scale":2,"readonly":false,"required":true}},
        "setup":[{"title":"s","address":9,"value":"0x1","condition":"p1==1"}],
        "channels":[{"name":"A","id":"a","reg_type":"holding","address":1,"fw":"1.2.3","condition":"isDefined(p2)","group":"g"},{"name":"S","device_type":"sd","oneOf":["sd"],"shift":"0x1","stride":2},{"name":"P","reg_type":"press_counter","address":464}],
        "subdevices":[{"device_type":"sd","title":"x","device":{"setup":[{"title":"q","address":3,"value":3}],"parameters":{"w":{"title":"w","address":4}},"channels":[{"name":"C","reg_type":"coil","address":1},{"name":"D","reg_type":"holding","address":5,"format":"u32"}]}}],
        "translations":{"en":{"A":"AA"},"ru":{"A":"A","S":"C"}}}})J";

    void collect(Json::Value& v, std::vector<std::pair<Json::Value*, std::string>>& out)
    {
        if (v.isObject()) {
            for (auto& n: v.getMemberNames()) {
                out.push_back({&v, n});
                collect(v[n], out);
            }
        } else if (v.isArray()) {
            for (Json::ArrayIndex i = 0; i < v.size(); ++i) {
                out.push_back({&v, "#" + std::to_string(i)});
                collect(v[i], out);
            }
        }
    }

    void wrongValues()
    {
        static const char* V[] = {"null", "-1", "0", "1e300", "4294967296", R"("")", R"("x")", R"("1:255:70")", "[]", "{}", "[null]", "true", "18446744073709551615", "0.5", R"("-1")", R"("0x")", R"("1:2")", R"("99999999999999999999")", R"("65535:15:64")", R"("u8")", R"("((")", "[{}]", R"({"a":1})"};
        bool tpl = mc::choose(2);
        auto c = parse(RICH_CONFIG), t = parse(RICH_TEMPLATE);
        std::vector<std::pair<Json::Value*, std::string>> nodes;
        collect(tpl ? t : c, nodes);
        static bool first = true;
        if (first) {
            first = false;
            auto l = load(c, {t});
            MC_CHECK(l.ok, "rich", "the configuration without changes is refused: ", l.error);
        }
        auto& n = nodes[mc::choose(nodes.size())];
        int how = mc::choose((mc::thorough() ? sizeof(V) / sizeof(*V) : 11) + 1);
        auto& node = n.second[0] == '#' ? (*n.first)[Json::ArrayIndex(atoi(n.second.c_str() + 1))] : (*n.first)[n.second];
        std::string what;
        if (how) {
            node = parse(V[how - 1]);
            what = V[how - 1];
        } else if (n.second[0] == '#') {
            Json::Value x;
            n.first->removeIndex(atoi(n.second.c_str() + 1), &x);
            what = "deleted";
        } else {
            n.first->removeMember(n.second);
            what = "deleted";
        }
        mc::note(n.second + " is " + what);
        static bool last = true;
        auto l = load(c, {t}, !tpl && !last); // must not crash or hang
        last = tpl;
        mc::transition();
        mc::nontrivial();
        mc::cover(l.ok ? "loaded" : "refused");
        MC_CHECK(l.ok || !l.error.empty(), "message", n.second, " is ", what, ": refused without a message");
        mc::outcome(mc::hash(mc::str(tpl, n.second, what, l.ok)));
        mc::state(mc::hash(mc::str(l.ok, l.error)));
    }

    // ------------------------------------------------------------------ templates of the package

    void shipped()
    {
        static TTemplateMap* map;
        static std::vector<std::string> types;
        if (!map) {
            map = new TTemplateMap(templateSchema);
            map->AddTemplatesDir(repo() + "/templates");
            for (auto& t: map->GetTemplates()) {
                if (!t->IsDeprecated() && t->GetProtocol() != "dlms") {
                    types.push_back(t->Type);
                }
            }
            std::sort(types.begin(), types.end());
        }
        scratch.ensure();
        auto type = types[mc::choose(types.size())];
        auto dt = map->GetTemplate(type);
        auto& t = dt->GetTemplate();
        Json::Value dev;
        dev["device_type"] = type;
        dev["slave_id"] = GetProtocolName(t) == "modbus_io" ? "1:1" : "1";
        auto& params = t["parameters"];
        for (auto it = params.begin(); it != params.end(); ++it) {
            auto id = params.isArray() ? (*it)["id"].asString() : it.name();
            if (it->get("required", false).asBool() && !dev.isMember(id)) {
                dev[id] = it->isMember("default") ? (*it)["default"] : it->isMember("enum") ? (*it)["enum"][0] : it->get("min", 0);
            }
        }
        // settings of a channel
        auto& channels = t["channels"];
        std::vector<Json::ArrayIndex> chosen; // in the quick mode: the first one and the first repeated one
        std::set<std::string> names;
        for (Json::ArrayIndex i = 0; i < channels.size(); ++i) {
            bool repeated = !names.insert(channels[i]["name"].asString()).second;
            if (mc::thorough() ? i < 60 : (!i || (repeated && chosen.size() < 2))) {
                chosen.push_back(i);
            }
        }
        int k = mc::choose(2 * chosen.size() + 1);
        std::string changed;
        if (k) {
            auto& ch = channels[chosen[(k - 1) / 2]];
            if (!ch.isMember("device_type") && !ch.isMember("oneOf")) {
                Json::Value c;
                c["name"] = changed = ch["name"].asString();
                if (k % 2) {
                    c["enabled"] = true;
                    c["read_period_ms"] = 12345;
                } else {
                    c["enabled"] = false;
                }
                dev["channels"].append(c);
            }
        }
        put("config.json", dump(config(dev)));
        auto rpc = std::make_shared<TRPCConfig>();
        mc::transition();
        mc::nontrivial();
        try {
            auto cfg = LoadConfig(root + "/config.json", *factory, common, *map, rpc, portsSchema, *protocols, DefaultPortFactory);
            auto& d = *cfg->PortConfigs.at(0)->Devices.at(0);
            size_t seen = 0;
            for (auto& c: d.Channels) {
                auto id = c->MqttId, name = c->GetName();
                for (auto& r: c->Registers) {
                    seen += r->GetConfig()->ReadPeriod == std::optional<std::chrono::milliseconds>(12345);
                }
            }
            if (!changed.empty() && k % 2 == 0) {
                MC_CHECK(!seen, "shipped", type, ": ", changed);
            }
            mc::outcome(mc::hash(mc::str(type, d.Channels.size(), seen)));
            mc::state(d.Channels.size());
            mc::cover(seen ? "changed" : "template");
        } catch (const std::exception& e) {
            MC_CHECK(false, "shipped " + type, dump(dev), ": ", e.what());
        }
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    bool deep = mc::thorough();
    if (!getenv("VERIF_LOG")) {
        for (auto l: {&::Error, &::Warn, &::Info, &::Debug}) {
            l->SetEnabled(false);
        }
    }
    common = WBMQTT::JSON::Parse(repo() + "/wb-mqtt-serial-confed-common.schema.json");
    templateSchema = LoadConfigTemplatesSchema(repo() + "/wb-mqtt-serial-device-template.schema.json", common);
    portsSchema = WBMQTT::JSON::Parse(repo() + "/wb-mqtt-serial-ports.schema.json");
    factory = new TSerialDeviceFactory;
    RegisterProtocols(*factory);
    protocols = new TProtocolConfedSchemasMap(repo() + "/protocols", common);
    auto run = [](const char* name, void (*body)(), int bound, std::vector<std::string> cover) {
        mc::Options o;
        o.name = name;
        o.bound = bound;
        o.seconds = 100;
        o.shardDepth = 3;
        o.mustCover = cover;
        mc::explore(o, body);
    };
#ifdef __SANITIZE_ADDRESS__
    run("wrong values", wrongValues, 0, {"loaded", "refused"});
#else
    run("conditions", conditions, deep ? 2 : 1, {"refused", "loaded"});
    run("patterns", patterns, 0, {});
    run("overrides", overrides, 0, {"refused", "disabled"});
    run("subdevices", subdevices, deep ? 2 : 1, {"refused"});
    run("device", deviceProperties, 0, {});
    run("duplicates", duplicates, deep ? 3 : 2, {"refused", "loaded"});
    run("settings", portSettings, deep ? 4 : 2, {});
    run("old formats", oldFormats, 0, {});
    run("shipped", shipped, 0, {"changed", "template"});
#endif
    return mc::finish();
}
