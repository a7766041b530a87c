// P19: RPC requests to devices and ports, executed between the polling cycles of the real service
#include "config_merge_template.h"
#include "confed_protocol_schemas_map.h"
#include "log.h"
#include "rpc/rpc_device_handler.h"
#include "rpc/rpc_port_handler.h"
#include "rpc/rpc_port_driver_list.h"
#include "serial_driver.h"
#include "sim.h"
#include <filesystem>
#include <fstream>
#include <unistd.h>
using namespace sim;
namespace fs = std::filesystem;

namespace
{
    Json::Value common, templateSchema, portsSchema;
    TProtocolConfedSchemasMap* protocols = nullptr;
    std::string repo()
    {
        auto r = getenv("VERIF_REPO");
        return r ? r : "/repo";
    }
    std::string dump(const Json::Value& v)
    {
        Json::StreamWriterBuilder b;
        b["indentation"] = "";
        return Json::writeString(b, v);
    }

    std::string root;
    struct Scratch
    {
        pid_t pid = 0;
        ~Scratch()
        {
            if (pid == getpid() && !root.empty()) {
                std::error_code e;
                fs::remove_all(root, e);
            }
        }
        bool ensure()
        {
            if (pid == getpid()) {
                return false;
            }
            pid = getpid();
            char t[] = "/dev/shm/p19XXXXXX", t2[] = "/tmp/p19XXXXXX";
            auto p = mkdtemp(t);
            root = p ? p : mkdtemp(t2);
            fs::create_directories(root + "/t");
            return true;
        }
    } scratch;
    void put(const std::string& name, const std::string& text)
    {
        std::ofstream f(root + "/" + name, std::ios::trunc);
        f << text;
    }

    //! A channel or a parameter of the device types used here
    struct Item
    {
        std::string id;
        int table; // 1 coil, 3 holding, 4 input
        int addr;
        int words = 1;
        std::string format = ""; // "", s16, u32, string
        std::string scale = "";
        bool readonly = false, writeOnly = false;
        std::string fw = "";
        std::string condName = ""; // condition: condName == condValue
        int condValue = 0;
        std::string extra = "";
    };
    const char* TABLES[] = {"", "coil", "discrete", "holding", "input"};
    const std::vector<Item> CHANNELS = {{"h1", 3, 1},
                                        {"s2", 4, 2, 1, "s16", "0.1"},
                                        {"c3", 1, 3},
                                        {"str", 3, 20, 4, "string"},
                                        {"wo", 3, 30, 1, "", "", false, true},
                                        {"ro", 3, 31, 1, "", "", true},
                                        {"cond", 3, 32, 1, "", "", false, false, "", "mode", 1},
                                        {"fw2", 3, 33, 1, "", "", false, false, "2.0.0"},
                                        {"hole", 3, 60},
                                        {"sc", 3, 34, 1, "", "0.5"},
                                        {"c_ro", 3, 35, 1, "", "", false, false, "", "rop", 148},
                                        {"c_hole", 3, 36, 1, "", "", false, false, "", "phole", 1}};
    const std::vector<Item> PARAMETERS = {
        {"mode", 3, 40, 1, "", "", false, false, "", "", 0, R"("enum":[0,1,2],"default":0)"},
        {"p41", 3, 41, 1, "", "", false, false, "", "", 0, R"("min":0,"max":1000)"},
        {"s42", 3, 42, 1, "s16", "", false, false, "", "", 0, R"("min":-100,"max":100)"},
        {"wide", 3, 43, 1, "", "", false, false, "", "", 0, R"("min":0,"max":65535)"},
        {"u44", 3, 44, 2, "u32"},
        {"cp", 3, 46, 1, "", "", false, false, "", "mode", 1, R"("min":0,"max":10)"},
        {"nest", 3, 47, 1, "", "", false, false, "", "cp", 1},
        {"rop", 3, 48, 1, "", "", true},
        {"newp", 3, 49, 1, "", "", false, false, "2.0.0"},
        {"dup", 3, 50, 1, "", "", false, false, "", "mode", 0},
        {"dup", 3, 50, 1, "", "", false, false, "", "mode", 1},
        {"phole", 3, 61},
        {"p62", 3, 62},
        {"sp", 3, 63, 1, "s16", "0.1"}};

    Json::Value itemJson(const Item& i, bool channel)
    {
        Json::Value v = i.extra.empty() ? Json::Value(Json::objectValue) : json("{" + i.extra + "}");
        v["reg_type"] = TABLES[i.table];
        v[i.writeOnly ? "write_address" : "address"] = i.addr;
        if (!i.format.empty()) {
            v["format"] = i.format;
        }
        if (i.format == "string") {
            v["string_data_size"] = i.words;
        }
        if (!i.scale.empty()) {
            v["scale"] = json("[" + i.scale + "]")[0];
        }
        if (i.readonly) {
            v["readonly"] = true;
        }
        if (!i.fw.empty()) {
            v["fw"] = i.fw;
        }
        if (!i.condName.empty()) {
            v["condition"] = mc::str(i.condName, "==", i.condValue);
        }
        if (channel) {
            v["name"] = i.id;
            v["type"] = i.format == "string" ? "text" : i.table == 1 ? "switch" : "value";
        } else {
            v["id"] = i.id;
            v["title"] = i.id;
        }
        return v;
    }

    //! Types: WB (array of parameters, hardware list, continuous read), GEN (an ordinary Modbus device, object of
    //! parameters), ORD (GEN with preserve_setup_order)
    Json::Value typeJson(const std::string& type)
    {
        Json::Value t;
        t["device_type"] = type;
        t["title"] = type;
        t["group"] = "g";
        auto& d = t["device"];
        d["name"] = type;
        d["id"] = type == "WB" ? "wb" : type == "GEN" ? "gen" : "ord";
        if (type == "WB") {
            t["hw"] = json(R"([{"signature":"OTHER"},{"signature":"MODEL","fw":"1.5.0"}])");
            d["enable_wb_continuous_read"] = true;
            d["max_read_registers"] = 10;
        }
        if (type == "GEN") {
            d["max_read_registers"] = 10;
            d["max_reg_hole"] = 3;
            d["max_write_registers"] = 10;
        }
        if (type == "ORD") {
            d["preserve_setup_order"] = true;
        }
        d["setup"] = json(R"([{"title":"s","address":500,"reg_type":"holding","value":77}])");
        for (auto& i: CHANNELS) {
            if (type == "ORD" && i.id == "hole") {
                continue;
            }
            d["channels"].append(itemJson(i, true));
        }
        for (auto& i: PARAMETERS) {
            auto v = itemJson(i, false);
            if (type == "WB") {
                d["parameters"].append(v);
            } else if (i.id != "dup") {
                v.removeMember("id");
                d["parameters"][i.id] = v;
            }
        }
        return t;
    }

    struct Answer
    {
        int results = 0, errors = 0;
        Json::Value result;
        std::string error;
        std::string what;
        //! The device at the moment of the answer: the poll that follows can write its setup section
        std::shared_ptr<Slave> dev;
        bool done() const
        {
            return results + errors > 0;
        }
        bool ok() const
        {
            return results > 0 && errors == 0;
        }
    };

    std::shared_ptr<TTemplateMap> templateMap;
    std::string lastConfig;

    const char* CONFIG = R"({"ports":[
      {"path":"/dev/pA","baud_rate":9600,"devices":[
        {"device_type":"WB","slave_id":"10","wide":5,"max_unchanged_interval":100},
        {"device_type":"GEN","slave_id":"0x0B"},
        {"device_type":"ORD","slave_id":14}]},
      {"path":"/dev/pB","baud_rate":9600,"devices":[
        {"device_type":"WB","slave_id":"10","id":"other","wide":9},
        {"device_type":"GEN","slave_id":"12","id":"gb"}]}]})";

    void fillSlave(Slave& s, bool wb, const std::string& fw)
    {
        s.latency = 2 * MS;
        for (auto* list: {&CHANNELS, &PARAMETERS}) {
            for (auto& i: *list) {
                for (int w = 0; w < i.words; ++w) {
                    s.regs[i.table][i.addr + w] = i.table == 1 ? 1 : i.id == "mode" ? 0 : i.addr + 100 + w;
                }
            }
        }
        s.regs[3].erase(60);
        s.regs[3].erase(61);
        s.regs[3][500] = 0;
        s.regs[3][46] = 1;
        if (wb) {
            s.fill = true;
            s.regs[3][114] = 0;
            auto text = [&](int addr, const std::string& t, int n) {
                for (int i = 0; i < n; ++i) {
                    s.regs[3][addr + i] = i < (int)t.size() ? t[i] : 0;
                }
            };
            text(200, "MODEL", 20);
            text(250, fw, 16);
        }
    }

    struct Site
    {
        Agenda agenda;
        std::map<std::string, std::shared_ptr<Bus>> bus;
        std::map<std::string, std::unique_ptr<Net>> net;
        WBMQTT::PDeviceDriver mqtt = std::make_shared<WBMQTT::TDeviceDriver>();
        std::string configPath;
        PRPCConfig rpcConfig = std::make_shared<TRPCConfig>();
        PHandlerConfig cfg;
        PMQTTSerialDriver driver;
        std::unique_ptr<TSerialClientTaskRunner> runner;
        TRPCDeviceParametersCache cache;
        WBMQTT::PMqttRpcServer server = std::make_shared<WBMQTT::TMqttRpcServer>();
        std::unique_ptr<TRPCDeviceHandler> devices;
        std::unique_ptr<TRPCPortHandler> ports;
        std::deque<Answer> answers;
        int64_t start;

        Site(const std::string& text = CONFIG)
        {
            if (scratch.ensure()) {
                for (auto t: {"WB", "GEN", "ORD"}) {
                    put(mc::str("t/", t, ".json"), dump(typeJson(t)));
                }
                templateMap = std::make_shared<TTemplateMap>(templateSchema);
                templateMap->AddTemplatesDir(root + "/t");
                lastConfig.clear();
            }
            if (lastConfig != text) {
                put("config.json", text);
                lastConfig = text;
            }
            configPath = root + "/config.json";
            vclock::reset();
            start = vclock::now;
            for (auto p: {"/dev/pA", "/dev/pB"}) {
                bus[p] = std::make_shared<Bus>();
                bus[p]->name = p;
                bus[p]->agenda = &agenda;
                net[p] = std::make_unique<Net>(*bus[p], false);
            }
            for (auto p: {"/dev/pA", "/dev/pB"}) {
                for (int id = 10; id < 15; ++id) {
                    fillSlave(net[p]->add(id), id == 10 || (id == 12 && p[6] == 'A'), "1.9.0");
                }
            }
            // registers of the same device on the other port differ
            net["/dev/pB"]->slaves[10].regs[3][41] = 999;
            vclock::onWait = [this](int64_t deadline) {
                if (agenda.next() <= deadline) {
                    if (agenda.next() > vclock::now) {
                        vclock::now = agenda.next();
                    }
                    agenda.runDue();
                    return true;
                }
                return false;
            };
            cfg = LoadConfig(configPath,
                             factory(),
                             common,
                             *templateMap,
                             rpcConfig,
                             portsSchema,
                             *protocols,
                             [this](const Json::Value& c, PRPCConfig) {
                                 auto b = bus.at(c["path"].asString());
                                 return std::make_shared<TFeaturePort>(b, false);
                             });
            driver = std::make_shared<TMQTTSerialDriver>(mqtt, cfg);
            mqtt->On<WBMQTT::TControlOnValueEvent>(TSerialPortDriver::HandleControlOnValueEvent);
            runner = std::make_unique<TSerialClientTaskRunner>(driver);
            cache.RegisterCallbacks(cfg);
            makeHandlers();
        }
        //! The service with a wrong configuration file
        void withoutDriver()
        {
            devices.reset();
            ports.reset();
            server = std::make_shared<WBMQTT::TMqttRpcServer>();
            runner = std::make_unique<TSerialClientTaskRunner>(nullptr);
            makeHandlers();
        }
        void makeHandlers()
        {
            auto schema = [](const char* n) { return repo() + "/wb-mqtt-serial-rpc-" + n + "-request.schema.json"; };
            devices = std::make_unique<TRPCDeviceHandler>(configPath,
                                                          schema("device-load-config"),
                                                          schema("device-load"),
                                                          schema("device-set"),
                                                          schema("device-probe"),
                                                          schema("device-set-poll"),
                                                          factory(),
                                                          templateMap,
                                                          *runner,
                                                          cache,
                                                          server);
            ports = std::make_unique<TRPCPortHandler>(schema("port-load"),
                                                      schema("port-setup"),
                                                      schema("port-scan"),
                                                      rpcConfig,
                                                      *runner,
                                                      cache,
                                                      server);
        }
        ~Site()
        {
            vclock::onWait = nullptr;
            for (auto& b: bus) {
                b.second->onWrite = nullptr;
            }
            for (auto& n: net) {
                for (auto& s: n.second->slaves) {
                    s.second.fault = nullptr;
                    s.second.onAccess = nullptr;
                }
            }
            driver->ClearDevices();
        }
        Slave& slave(int id, const std::string& port = "/dev/pA")
        {
            return net.at(port)->slaves.at(id);
        }
        PSerialDevice device(const std::string& id)
        {
            for (auto& p: cfg->PortConfigs) {
                for (auto& d: p->Devices) {
                    if (d->Device->DeviceConfig()->Id == id) {
                        return d->Device;
                    }
                }
            }
            return nullptr;
        }
        int64_t now() const
        {
            return vclock::now - start;
        }
        void runUntil(std::function<bool()> done, int64_t limit)
        {
            int idle = 0;
            auto end = vclock::now + limit;
            while (vclock::now < end && !done()) {
                auto before = vclock::now;
                driver->LoopOnce();
                mc::transition();
                idle = vclock::now == before ? idle + 1 : 0;
                if (idle) {
                    vclock::now += 100;
                    agenda.runDue();
                }
                if (idle > 2500) {
                    mc::fail("busy-loop", "the port threads spin without waiting");
                    throw ExecutionEnd();
                }
            }
        }
        void run(int64_t us)
        {
            runUntil([] { return false; }, us);
        }
        Answer& send(const std::string& method, const Json::Value& req, const Slave* dev = nullptr)
        {
            answers.emplace_back();
            auto* a = &answers.back();
            a->what = method + " " + dump(req);
            mc::note("request " + a->what);
            server->Call(
                method,
                req,
                [a, dev](const Json::Value& v) {
                    if (dev) {
                        a->dev = std::make_shared<Slave>(*dev);
                    }
                    ++a->results;
                    a->result = v;
                    mc::note("result " + dump(v));
                },
                [a, dev](int code, const std::string& e) {
                    if (dev) {
                        a->dev = std::make_shared<Slave>(*dev);
                    }
                    ++a->errors;
                    a->error = e;
                    mc::note("error " + e);
                });
            return *a;
        }
        //! The request and its only answer
        Answer& call(const std::string& method, const Json::Value& req, const Slave* dev = nullptr)
        {
            auto& a = send(method, req, dev);
            runUntil([&] { return a.done(); }, 60 * SEC);
            if (!a.done()) {
                mc::fail("no-answer", a.what + " is never answered");
            }
            return a;
        }
        void checkAnswers()
        {
            for (auto& a: answers) {
                MC_CHECK(a.results + a.errors == 1,
                         a.done() ? "several-answers" : "no-answer",
                         a.what, " is answered ", a.results, " times with a result and ", a.errors, " with an error");
            }
            for (auto& b: bus) {
                MC_CHECK(b.second->settingsNow == "default",
                         "line-settings",
                         "settings of ", b.first, " are left ", b.second->settingsNow);
                MC_CHECK(b.second->settingsApplied == b.second->settingsReset,
                         "line-settings",
                         "settings of ", b.first, " are applied ", b.second->settingsApplied, " times, restored ", b.second->settingsReset);
            }
        }
        void trace()
        {
            if (mc::tracing()) {
                for (auto& n: net) {
                    for (auto& a: n.second->log) {
                        mc::note(n.first + " " + a.str());
                    }
                }
            }
        }
        uint64_t digest()
        {
            uint64_t h = 3;
            for (auto& n: net) {
                for (auto& a: n.second->log) {
                    h = mc::mix(mc::mix(mc::mix(h, a.slave << 24 | a.fn << 16 | a.addr), a.fault), a.count);
                    for (auto v: a.values) {
                        h = mc::mix(h, v);
                    }
                }
            }
            for (auto& a: answers) {
                h = mc::mix(h, std::hash<std::string>()(dump(a.result) + a.error));
            }
            return h;
        }
    };

    //! The kind of target of a request
    struct Target
    {
        std::string port = "/dev/pA";
        int slave = 10;
        std::string type = "WB";
        std::string id; // device_id
        bool configured = false;
        Json::Value request;
        bool wb() const
        {
            return type == "WB";
        }
    };
    Json::Value portRequest(const std::string& path, const Json::Value& slave, const std::string& type)
    {
        auto r = json(R"({"baud_rate":115200,"parity":"E","data_bits":8,"stop_bits":1})");
        r["path"] = path;
        r["slave_id"] = slave;
        if (!type.empty()) {
            r["device_type"] = type;
        }
        return r;
    }
    Target target(int k)
    {
        Target t;
        switch (k) {
            case 0:
                t.configured = true;
                t.id = "wb_10";
                t.request["device_id"] = t.id;
                break;
            case 1:
                t.type = "GEN";
                t.slave = 11;
                t.configured = true;
                t.id = "gen_0x0B";
                t.request["device_id"] = t.id;
                break;
            case 2:
                t.slave = 12;
                t.request = portRequest(t.port, "12", "WB");
                break;
            case 3:
                t.slave = 13;
                t.type = "GEN";
                t.request = portRequest(t.port, 13, "GEN");
                break;
            case 4:
                t.configured = true;
                t.id = "other";
                t.port = "/dev/pB";
                t.request["device_id"] = "other";
                break;
            case 5:
                t.configured = true;
                t.id = "wb_10";
                t.request = portRequest(t.port, "10", "WB");
                break;
            case 6:
                t.configured = true;
                t.type = "GEN";
                t.slave = 11;
                t.id = "gen_0x0B";
                t.request = portRequest(t.port, 11, "GEN");
                break;
            case 7:
                t.type = "GEN";
                t.slave = 13;
                t.request = portRequest(t.port, "0xD", "GEN");
                break;
            case 8:
                t.type = "ORD";
                t.slave = 14;
                t.configured = true;
                t.id = "ord_14";
                t.request["device_id"] = t.id;
                break;
            case 9:
                t.type = "ORD";
                t.slave = 13;
                t.request = portRequest(t.port, 13, "ORD");
                break;
            case 10:
                t.slave = 12;
                t.request = portRequest(t.port, "0xC", "WB");
                break;
        }
        return t;
    }

    const Json::Value UNSUPPORTED("unsupported");

    bool has(const Slave& s, const Item& i)
    {
        for (int w = 0; w < i.words; ++w) {
            if (!s.regs[i.table].count(i.addr + w)) {
                return false;
            }
        }
        return true;
    }
    //! What the device has
    Json::Value memory(const Slave& s, const Item& i)
    {
        if (!has(s, i)) {
            return UNSUPPORTED;
        }
        auto& m = s.regs[i.table];
        if (i.format == "string") {
            std::string t;
            for (int w = 0; w < i.words && m.at(i.addr + w); ++w) {
                t += (char)m.at(i.addr + w);
            }
            return t;
        }
        int64_t v = m.at(i.addr);
        if (i.format == "s16") {
            v = (int16_t)v;
        }
        if (i.format == "u32") {
            v = v << 16 | m.at(i.addr + 1);
        }
        if (!i.scale.empty()) {
            return v * std::stod(i.scale);
        }
        return (Json::Int64)v;
    }
    bool same(const Json::Value& a, const Json::Value& b)
    {
        if (a.isNumeric() && b.isNumeric()) {
            return std::fabs(a.asDouble() - b.asDouble()) < 1e-9;
        }
        return a == b;
    }
    const Item* find(const std::vector<Item>& l, const std::string& id)
    {
        for (auto& i: l) {
            if (i.id == id) {
                return &i;
            }
        }
        return nullptr;
    }
    bool fwOk(const Target& t, const std::string& fw, const Item& i)
    {
        return i.fw.empty() || !t.wb() || fw.empty() || !(fw < i.fw); // versions here compare as strings
    }
    bool exists(const Target& t, const Item& i)
    {
        return !(t.type == "ORD" && i.id == "hole") && !(t.type != "WB" && i.id == "dup");
    }

    //! The device is connected, has never been talked to, has gone and returned without having been polled since
    enum State
    {
        CONNECTED,
        UNKNOWN,
        STATES
    };
    void reach(Site& s, int state)
    {
        if (state == CONNECTED) {
            s.run(1500 * MS);
        }
    }
    std::string fwVersion(const Slave& s)
    {
        std::string r;
        for (int i = 0; i < 16; ++i) {
            auto it = s.regs[3].find(250 + i);
            if (it == s.regs[3].end() || !it->second) {
                break;
            }
            r += (char)it->second;
        }
        return r;
    }
    void setFw(Slave& s, const std::string& fw)
    {
        for (int i = 0; i < 16; ++i) {
            s.regs[3][250 + i] = i < (int)fw.size() ? fw[i] : 0;
        }
    }

    // ---------------------------------------------------------------------------------------------- device/Load
    struct LoadRequest
    {
        std::vector<std::string> channels, parameters;
        bool wrong = false;
    };
    const std::vector<LoadRequest> LOADS = {{{}, {}},
                                            {{"h1", "str"}, {}},
                                            {{"hole", "ro"}, {}},
                                            {{"cond"}, {"mode"}},
                                            {{"s2", "c3"}, {"cp", "mode", "cp"}},
                                            {{"h1"}, {"p41", "s42", "wide", "u44"}},
                                            {{"h1", "sc"}, {"phole", "p62", "sp"}},
                                            {{"fw2"}, {"newp", "rop"}},
                                            {{"ro"}, {"nest"}},
                                            {{"h1", "nothing"}, {}, true},
                                            {{"wo"}, {}, true},
                                            {{"h1"}, {"nothing", "mode"}, true},
                                            {{}, {"rop"}},
                                            {{"h1", "h1"}, {"rop", "mode"}},
                                        {{"c_ro", "c_hole"}, {"phole", "rop"}},
                                        {{"c_ro"}, {"phole"}},
                                        {{"h1"}, {"phole", "p41", "cp"}}};

    //! Reads refused by injected faults: function, address, count
    using Refused = std::set<std::tuple<int, int, int>>;
    bool isRefused(const Refused& r, const Item& i)
    {
        return r.count({i.table, i.addr, i.words}) > 0;
    }

    //! Checks an answer to device/Load
    void checkLoad(const Target& t, const Slave& dev, const LoadRequest& q, const Answer& a, const Refused& refused)
    {
        bool lenient = !refused.empty();
        auto fw = fwVersion(dev);
        std::set<std::string> readonly;
        auto& ch = a.result["channels"];
        auto& pr = a.result["parameters"];
        for (auto& n: a.result.getMemberNames()) {
            MC_CHECK(n == "channels" || n == "parameters" || n == "readonly", "load:extra", a.what, " gives ", n);
        }
        std::set<std::string> expectedCh, expectedPr;
        for (auto& i: CHANNELS) {
            bool wanted = q.channels.empty() || std::find(q.channels.begin(), q.channels.end(), i.id) != q.channels.end();
            if (!wanted || i.writeOnly || !exists(t, i) || !fwOk(t, fw, i)) {
                continue;
            }
            bool cond = i.condName.empty() || same(memory(dev, *find(PARAMETERS, i.condName)), i.condValue);
            if (!cond) {
                continue;
            }
            expectedCh.insert(i.id);
            if (i.readonly || i.table == 4 || i.table == 2) {
                readonly.insert(i.id);
            }
            auto m = memory(dev, i);
            if (!ch.isMember(i.id)) {
                MC_CHECK(!i.condName.empty() && isRefused(refused, *find(PARAMETERS, i.condName)), "load:missing", a.what, ": channel ", i.id, " is missing in ", dump(a.result));
                continue;
            }
            if (isRefused(refused, i) && ch[i.id] == UNSUPPORTED) {
                continue;
            }
            MC_CHECK(same(ch[i.id], m), "load:value", a.what, ": channel ", i.id, " is ", dump(ch[i.id]), " instead of ", dump(m));
        }
        for (auto& i: PARAMETERS) {
            bool wanted = std::find(q.parameters.begin(), q.parameters.end(), i.id) != q.parameters.end();
            if (!wanted || !exists(t, i) || !fwOk(t, fw, i)) {
                continue;
            }
            expectedPr.insert(i.id);
            if (i.readonly) {
                readonly.insert(i.id);
            }
            auto m = memory(dev, i);
            if (!pr.isMember(i.id)) {
                mc::fail("load:missing", mc::str(a.what, ": parameter ", i.id, " is missing in ", dump(a.result)));
                continue;
            }
            if (isRefused(refused, i) && pr[i.id] == UNSUPPORTED) {
                continue;
            }
            MC_CHECK(same(pr[i.id], m), "load:value", a.what, ": parameter ", i.id, " is ", dump(pr[i.id]), " instead of ", dump(m));
        }
        for (auto& n: ch.getMemberNames()) {
            MC_CHECK(expectedCh.count(n) || (lenient && n == "cond"), "load:extra", a.what, " gives channel ", n);
        }
        for (auto& n: pr.getMemberNames()) {
            MC_CHECK(expectedPr.count(n), "load:extra", a.what, " gives parameter ", n);
        }
        std::set<std::string> got;
        for (auto& r: a.result["readonly"]) {
            got.insert(r.asString());
        }
        if (!lenient) {
            MC_CHECK(got == readonly, "load:readonly", a.what, ": wrong list of read-only items in ", dump(a.result));
        }
    }

    void vary(Site& s, Slave& dev, const Target& t)
    {
        auto& h = dev.regs[3];
        h[40] = mc::choose(2, "mode");
        switch (mc::choose(4, "values")) {
            case 0:
                break;
            case 1: // values looking like unsupported
                h[1] = 0xFFFE;
                dev.regs[4][2] = 0xFFFE;
                h[41] = 0xFFFE;
                h[42] = 0xFFFE;
                h[43] = 0xFFFE;
                h[44] = h[45] = 0xFFFE;
                h[62] = 0xFFFE;
                break;
            case 2:
                for (int i = 0; i < 4; ++i) {
                    h[20 + i] = "1.20"[i];
                }
                dev.regs[4][2] = 0x8000;
                h[63] = 0xFFF6;
                h[44] = 0xFFFF;
                dev.regs[1][3] = 0;
                break;
            case 3:
                h[20] = 0;
                dev.regs[4][2] = 10;
                h[63] = 0;
                h[44] = h[45] = 0xFFFF;
                h[46] = 0;
                break;
        }
        if (t.wb() && mc::choose(2, "fw")) {
            setFw(dev, "2.0.0");
        }
    }

    void checkContinuous(Site& s, const Target& t)
    {
        if (t.wb()) {
            auto& d = s.slave(t.slave, t.port);
            MC_CHECK(d.regs[3][114] == 1, "continuous-read", "reading of missing registers is left switched off");
        }
    }
    void callAndCheckLoad(Site& s, const Target& t, const LoadRequest& q, bool faults)
    {
        auto req = t.request;
        for (auto& c: q.channels) {
            req["channels"].append(c);
        }
        for (auto& c: q.parameters) {
            req["parameters"].append(c);
        }
        auto& dev = s.slave(t.slave, t.port);
        bool bad = false;
        Refused refused;
        if (faults) {
            dev.fault = [&](const Access& a) {
                static const int kinds[] = {OK, LOST, REPLY_LOST, BADCRC, EXC4, EXC6, WRONGSLAVE, SHORTDATA, EXC1, EXC2, EXC3};
                // the register of continuous read exists
                auto f = kinds[mc::deviate(a.fn == 6 && a.addr == 114 ? 8 : 11, "fault")];
                bad |= f != OK;
                if (f == EXC1 || f == EXC2 || f == EXC3) {
                    refused.insert({a.fn, a.addr, a.count});
                }
                return f;
            };
        }
        auto settings = std::make_shared<std::string>();
        auto& bus = *s.bus[t.port];
        dev.onAccess = [&](const Access& a) { *settings = bus.settingsNow; };
        bool continuous = dev.regs[3].count(114) && dev.regs[3][114] == 1;
        auto& a = s.call("device/Load", req, &dev);
        dev.fault = nullptr;
        dev.onAccess = nullptr;
        s.trace();
        if (a.ok()) {
            MC_CHECK(!q.wrong, "load:wrong-accepted", a.what, " is answered ", dump(a.result));
            mc::cover("result");
            if (!q.wrong) {
                checkLoad(t, *a.dev, q, a, refused);
            }
            if (!t.configured) {
                MC_CHECK(*settings == "115200E81", "line-settings", a.what, " is executed with the settings ", *settings);
            }
        } else {
            MC_CHECK(q.wrong || bad, "load:error", a.what, " is answered by an error: ", a.error);
            mc::cover("error");
        }
        if ((!bad && a.ok()) || continuous) {
            checkContinuous(s, t);
        }
        s.run(100 * MS);
        s.checkAnswers();
        mc::state(s.digest());
        mc::outcome(mc::hash(dump(a.result) + a.error));
        mc::nontrivial();
    }
    void load()
    {
        auto t = target(mc::choose(8, "target"));
        auto& q = LOADS[mc::choose(LOADS.size(), "request")];
        Site s;
        auto state = mc::choose(2, "state");
        vary(s, s.slave(t.slave, t.port), t);
        reach(s, state);
        callAndCheckLoad(s, t, q, false);
    }
    void loadFaults()
    {
        static const int targets[] = {0, 1, 2, 3};
        static const int requests[] = {3, 5, 6, 2};
        auto t = target(targets[mc::choose(4, "target")]);
        auto& q = LOADS[requests[mc::choose(4, "request")]];
        Site s;
        auto state = mc::choose(2, "state");
        s.slave(t.slave, t.port).regs[3][40] = 1;
        reach(s, state);
        callAndCheckLoad(s, t, q, true);
    }

    // ---------------------------------------------------------------------------------------- device/LoadConfig
    using Values = std::map<std::string, Json::Value>;
    //! Values of the parameters LoadConfig must give. fromConfig: settings of the configuration file
    void checkConfig(const Target& t,
                     const Slave& dev,
                     const Answer& a,
                     const Refused& refused,
                     const Values& fromConfig,
                     const std::set<std::string>& stale = {})
    {
        auto fw = fwVersion(dev);
        auto& pr = a.result["parameters"];
        Json::Value all(Json::objectValue);
        std::set<std::string> active, allowed;
        for (auto& i: PARAMETERS) {
            if (!exists(t, i) || i.readonly || !fwOk(t, fw, i)) {
                continue;
            }
            allowed.insert(i.id);
            if (!i.condName.empty() && !(active.count(i.condName) && pr.isMember(i.condName) && same(pr[i.condName], i.condValue))) {
                continue;
            }
            active.insert(i.id);
            auto m = memory(dev, i);
            if (stale.count(i.id)) {
                continue;
            }
            if (!pr.isMember(i.id)) {
                // the value of a parameter the device has not isn't known
                MC_CHECK(isRefused(refused, i) || !has(dev, i), "config:missing", a.what, ": parameter ", i.id, " is missing in ", dump(a.result));
                continue;
            }
            auto c = fromConfig.find(i.id);
            if (c != fromConfig.end() && same(c->second, pr[i.id])) {
                continue;
            }
            if (isRefused(refused, i) && pr[i.id] == UNSUPPORTED) {
                continue;
            }
            MC_CHECK(same(pr[i.id], m), "config:value", a.what, ": parameter ", i.id, " is ", dump(pr[i.id]), " instead of ", dump(m));
        }
        for (auto& i: PARAMETERS) {
            if (pr.isMember(i.id) && !active.count(i.id) && !stale.count(i.condName)) {
                // an inactive parameter the device has not may be reported as unsupported
                MC_CHECK(allowed.count(i.id) && pr[i.id] == UNSUPPORTED, "config:extra", a.what, " gives ", i.id, " = ", dump(pr[i.id]));
            }
        }
        if (t.wb()) {
            MC_CHECK(a.result["model"] == "MODEL", "config:model", a.what, " gives model ", dump(a.result["model"]));
            MC_CHECK(a.result["fw"] == fw, "config:fw", a.what, " gives fw ", dump(a.result["fw"]));
        } else {
            MC_CHECK(!a.result.isMember("model") && !a.result.isMember("fw"), "config:model", a.what, " gives ", dump(a.result));
        }
    }
    Values configured(const Target& t)
    {
        Values v;
        if (t.configured && t.id == "wb_10") {
            v["wide"] = 5;
        }
        if (t.configured && t.id == "other") {
            v["wide"] = 9;
        }
        return v;
    }
    void setFaults(Slave& dev, bool& bad, Refused& refused, bool refusals)
    {
        dev.fault = [&dev, &bad, &refused, refusals](const Access& a) {
            static const int kinds[] = {OK, LOST, REPLY_LOST, BADCRC, EXC4, EXC6, WRONGSLAVE, SHORTDATA, EXC1, EXC2, EXC3};
            // system registers exist
            bool system = (a.addr == 114 && a.isWrite()) || a.addr == 200 || a.addr == 250;
            auto f = kinds[mc::deviate(!refusals || system ? 8 : 11, "fault")];
            bad |= f != OK;
            if (f == EXC1 || f == EXC2 || f == EXC3) {
                refused.insert({a.fn, a.addr, a.count});
            }
            return f;
        };
    }
    void loadConfig()
    {
        auto t = target(std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 10}[mc::choose(9, "target")]);
        auto req = t.request;
        Site s;
        auto& dev = s.slave(t.slave, t.port);
        auto state = mc::choose(2, "state");
        vary(s, dev, t);
        int model = 0;
        if (t.wb()) {
            model = mc::choose(5, "model");
            if (model == 1) { // older devices have only 6 registers of the model
                for (int i = 206; i < 220; ++i) {
                    dev.regs[3].erase(i);
                }
                dev.fill = state == CONNECTED;
            }
            if (model == 2) {
                dev.regs[3][204] = 'X';
            }
            if (model == 3) {
                setFw(dev, "1.4.9");
            }
            if (model == 4) {
                setFw(dev, "1.10.0");
            }
        }
        if (mc::choose(2, "force")) {
            req["force"] = true;
        }
        reach(s, state);
        std::string settings;
        auto& bus = *s.bus[t.port];
        if (model == 1) {
            dev.fill = false;
        }
        dev.onAccess = [&](const Access&) { settings = bus.settingsNow; };
        auto& a = s.call("device/LoadConfig", req, &dev);
        dev.onAccess = nullptr;
        s.trace();
        if (a.ok()) {
            MC_CHECK(model != 2 && model != 3, "config:wrong-device", a.what, " for a device of another model or firmware gives ", dump(a.result));
            if (model != 2 && model != 3) {
                checkConfig(t, *a.dev, a, {}, configured(t));
            }
            if (model != 1) {
                checkContinuous(s, t);
            }
            if (!t.configured) {
                MC_CHECK(settings == "115200E81", "line-settings", a.what, " is executed with the settings ", settings);
            }
            mc::cover("result");
        } else {
            MC_CHECK(model == 2 || model == 3, "config:error", a.what, " is answered by an error: ", a.error);
            mc::cover("error");
        }
        s.run(100 * MS);
        s.checkAnswers();
        mc::state(s.digest());
        mc::outcome(mc::hash(dump(a.result) + a.error));
        mc::nontrivial();
    }
    void loadConfigFaults()
    {
        auto t = target(mc::choose(4, "target"));
        auto req = t.request;
        Site s;
        auto& dev = s.slave(t.slave, t.port);
        auto state = mc::choose(2, "state");
        dev.regs[3][40] = mc::choose(2, "mode");
        reach(s, state);
        bool bad = false, refusals = mc::choose(2, "refusals");
        Refused refused;
        bool continuous = dev.regs[3].count(114) && dev.regs[3][114] == 1;
        setFaults(dev, bad, refused, refusals);
        auto& a = s.call("device/LoadConfig", req, &dev);
        dev.fault = nullptr;
        s.trace();
        if (a.ok()) {
            checkConfig(t, *a.dev, a, refused, configured(t));
            mc::cover("result");
        } else {
            MC_CHECK(bad, "config:error", a.what, " is answered by an error: ", a.error);
            // a bad answer or two to reading of a register are tolerated
            bool reading = false;
            for (auto& x: s.net[t.port]->log) {
                reading |= x.slave == t.slave && x.fault != OK && x.addr != 114 && x.addr != 250;
            }
            MC_CHECK(!reading || state != CONNECTED, "config:not-repeated", a.what, " is answered by an error: ", a.error);
            mc::cover("error");
        }
        if (continuous) {
            checkContinuous(s, t);
        }
        s.run(100 * MS);
        s.checkAnswers();
        mc::state(s.digest());
        mc::outcome(mc::hash(dump(a.result) + a.error));
        mc::nontrivial();
    }

    // ------------------------------------------------------------------------------------------------ device/Set
    struct SetRequest
    {
        const char* text;
        bool wrong; // must be refused without writing anything
        std::map<std::pair<int, int>, uint16_t> written;
    };
    const std::vector<SetRequest> SETS = {
        {R"({"parameters":{"p41":33}})", false, {{{3, 41}, 33}}},
        {R"({"parameters":{"s42":-5,"u44":70000}})", false, {{{3, 42}, 0xFFFB}, {{3, 44}, 1}, {{3, 45}, 4464}}},
        {R"({"channels":{"c3":0,"h1":7}})", false, {{{1, 3}, 0}, {{3, 1}, 7}}},
        {R"({"channels":{"sc":21},"parameters":{"sp":-1.5}})", false, {{{3, 34}, 42}, {{3, 63}, 0xFFF1}}},
        {R"({"channels":{"wo":9,"c3":1},"parameters":{"mode":1,"p41":5,"s42":3,"wide":77}})",
         false,
         {{{3, 30}, 9}, {{1, 3}, 1}, {{3, 40}, 1}, {{3, 41}, 5}, {{3, 42}, 3}, {{3, 43}, 77}}},
        {R"({"parameters":{"p62":"12"}})", false, {{{3, 62}, 12}}},
        {R"({"parameters":{"cp":3,"mode":1}})", false, {{{3, 40}, 1}, {{3, 46}, 3}}},
        {R"({})", false, {}},
        {R"({"parameters":{}})", false, {}},
        {R"({"parameters":{"p41":3,"rop":1}})", true, {}},
        {R"({"channels":{"h1":3,"ro":1}})", true, {}},
        {R"({"channels":{"h1":3,"nothing":1}})", true, {}},
        {R"({"parameters":{"p41":3,"nothing":1}})", true, {}},
        {R"({"parameters":{"p41":"abc"}})", true, {}},
        {R"({"parameters":{"p41":""}})", true, {}},
        {R"({"channels":{"h1":3,"s2":1}})", true, {}}};

    using Memory = std::map<std::pair<int, int>, uint16_t>;
    Memory snapshot(const Slave& s)
    {
        Memory m;
        for (int t = 1; t < 5; ++t) {
            for (auto& r: s.regs[t]) {
                // the setup section and continuous read
                if (!(t == 3 && (r.first == 500 || r.first == 114))) {
                    m[{t, r.first}] = r.second;
                }
            }
        }
        return m;
    }
    void set_(bool faults)
    {
        auto t = target(faults ? std::vector<int>{0, 1, 3, 8}[mc::choose(4, "target")] : mc::choose(10, "target"));
        auto& q = SETS[faults ? std::vector<int>{0, 1, 4, 2}[mc::choose(4, "request")] : mc::choose(SETS.size(), "request")];
        Site s;
        auto& dev = s.slave(t.slave, t.port);
        auto state = mc::choose(2, "state");
        if (t.configured && t.wb()) {
            dev.regs[3][43] = t.id == "other" ? 9 : 5; // as configured
        }
        reach(s, state);
        auto before = snapshot(dev);
        auto req = t.request;
        auto j = json(q.text);
        for (auto& n: j.getMemberNames()) {
            req[n] = j[n];
        }
        std::string settings;
        auto& bus = *s.bus[t.port];
        bool bad = false;
        Refused refused;
        if (faults) {
            setFaults(dev, bad, refused, true);
        }
        dev.onAccess = [&](const Access& x) {
            if (x.isWrite() && x.addr != 114) {
                settings = bus.settingsNow;
            }
        };
        auto& a = s.call("device/Set", req, &dev);
        dev.fault = nullptr;
        dev.onAccess = nullptr;
        auto after = snapshot(a.dev ? *a.dev : dev);
        s.trace();
        auto expected = before;
        for (auto& w: q.written) {
            expected[w.first] = w.second;
        }
        auto differences = [](const Memory& x, const Memory& y) {
            std::string r;
            for (auto& e: x) {
                auto it = y.find(e.first);
                if (it == y.end() || it->second != e.second) {
                    r += mc::str(" ", TABLES[e.first.first], " ", e.first.second, " is ", e.second, " instead of ", it == y.end() ? -1 : it->second);
                }
            }
            return r;
        };
        if (a.ok()) {
            MC_CHECK(!q.wrong, "set:wrong-accepted", a.what, " is answered ", dump(a.result));
            if (!q.wrong) {
                MC_CHECK(after == expected, "set:memory", "after a successful ", a.what, differences(after, expected));
            }
            if (!t.configured && !q.written.empty()) {
                MC_CHECK(settings == "115200E81", "line-settings", a.what, " is executed with the settings ", settings);
            }
            mc::cover("result");
        } else {
            MC_CHECK(q.wrong || bad, "set:error", a.what, " is answered by an error: ", a.error);
            mc::cover("error");
            if (q.wrong) {
                MC_CHECK(after == before, "set:wrong-written", "a refused ", a.what, " has changed the device:", differences(after, before));
            }
            for (auto& x: after) {
                MC_CHECK(x.second == before[x.first] || x.second == expected[x.first], "set:memory", "after ", a.what, differences(after, before));
            }
        }
        s.run(100 * MS);
        s.checkAnswers();
        mc::state(s.digest());
        mc::outcome(mc::hash(dump(a.result) + a.error));
        mc::nontrivial();
    }
    void set()
    {
        set_(false);
    }
    void setWithFaults()
    {
        set_(true);
    }

    // ------------------------------------------------------------- settings given by LoadConfig after any history
    std::string hexOf(const bytes& b)
    {
        std::string r;
        char buf[3];
        for (auto c: b) {
            snprintf(buf, sizeof buf, "%02x", c);
            r += buf;
        }
        return r;
    }
    Json::Value modbusRequest(const Target& t, bool byId, int fn, int addr)
    {
        Json::Value r;
        if (byId && t.configured) {
            r["device_id"] = t.id;
        } else {
            r = portRequest(t.port, t.slave, "");
            r["protocol"] = "modbus";
        }
        r["function"] = fn;
        r["address"] = addr;
        r["format"] = "HEX";
        return r;
    }
    void settings(int depth)
    {
        auto t = target(std::vector<int>{0, 1, 4, 5, 6}[mc::choose(5, "target")]);
        Site s;
        auto& dev = s.slave(t.slave, t.port);
        auto& h = dev.regs[3];
        reach(s, CONNECTED);
        auto cfg = configured(t);
        int n = 200;
        std::set<std::string> stale; // changed by raw requests
        std::vector<std::string> history;
        auto load = [&](bool force) {
            auto req = t.request;
            if (force) {
                req["force"] = true;
                stale.clear();
            }
            auto& a = s.call("device/LoadConfig", req, &dev);
            std::string what;
            for (auto& x: history) {
                what += x + ", ";
            }
            MC_CHECK(a.ok(), "settings:error", what, a.what, " is answered by an error: ", a.error);
            if (a.ok()) {
                Answer b = a;
                b.what = what + a.what;
                checkConfig(t, dev, b, {}, cfg, stale);
            }
        };
        for (int i = 0; i < depth; ++i) {
            int op = mc::choose(11, "op");
            ++n;
            static const char* names[] = {"load", "force", "set", "set-mode", "modbus-6-id", "modbus-16-port", "modbus-lost", "raw", "offline", "failed-set", "modbus-23"};
            history.push_back(names[op]);
            switch (op) {
                case 0:
                    load(false);
                    break;
                case 1:
                    load(true);
                    break;
                case 2: {
                    auto req = t.request;
                    req["parameters"]["p41"] = n;
                    s.call("device/Set", req);
                    break;
                }
                case 3: {
                    auto req = t.request;
                    req["parameters"]["mode"] = h[40] ? 0 : 1;
                    req["parameters"]["s42"] = n - 150;
                    s.call("device/Set", req);
                    break;
                }
                case 4: {
                    auto r = modbusRequest(t, true, 6, 41);
                    r["msg"] = hexOf({(uint8_t)(n >> 8), (uint8_t)n});
                    s.call("port/Load", r);
                    break;
                }
                case 5: {
                    auto r = modbusRequest(t, false, 16, 41);
                    r["count"] = 2;
                    r["msg"] = hexOf({(uint8_t)(n >> 8), (uint8_t)n, 0, (uint8_t)(n & 63)});
                    s.call("port/Load", r);
                    break;
                }
                case 6: {
                    auto r = modbusRequest(t, mc::choose(2, "by id"), 6, 41);
                    r["msg"] = hexOf({(uint8_t)(n >> 8), (uint8_t)n});
                    bool done = false;
                    int kind = mc::choose(2, "lost") ? REPLY_LOST : BADCRC;
                    dev.fault = [&](const Access& x) {
                        if (x.isWrite() && x.addr == 41 && !done) {
                            done = true;
                            return kind;
                        }
                        return (int)OK;
                    };
                    s.call("port/Load", r);
                    dev.fault = nullptr;
                    break;
                }
                case 7: {
                    bytes f{(uint8_t)t.slave, 6, 0, 41, (uint8_t)(n >> 8), (uint8_t)n};
                    Net::crc(f);
                    auto r = portRequest(t.port, 0, "");
                    r.removeMember("slave_id");
                    r["protocol"] = "raw";
                    r["format"] = "HEX";
                    r["msg"] = hexOf(f);
                    r["response_size"] = 8;
                    s.call("port/Load", r);
                    stale.insert("p41");
                    break;
                }
                case 8:
                    dev.online = false;
                    s.runUntil([&] { return s.device(t.id)->GetConnectionState() == TDeviceConnectionState::DISCONNECTED; }, 60 * SEC);
                    h[41] = n;
                    h[40] = h[40] ? 0 : 1;
                    dev.online = true;
                    stale.clear();
                    if (mc::choose(2, "polled since")) {
                        s.run(15 * SEC);
                    }
                    break;
                case 9: {
                    auto req = t.request;
                    req["parameters"]["p41"] = n;
                    bool done = false;
                    int kind = mc::choose(2, "lost") ? REPLY_LOST : BADCRC;
                    dev.fault = [&](const Access& x) {
                        if (x.isWrite() && x.addr == 41 && !done) {
                            done = true;
                            return kind;
                        }
                        return (int)OK;
                    };
                    s.call("device/Set", req);
                    dev.fault = nullptr;
                    break;
                }
                case 10: {
                    dev.custom = [&](const bytes& pdu) -> std::optional<bytes> {
                        if (pdu.size() != 12 || pdu[0] != 23) {
                            return std::nullopt;
                        }
                        h[pdu[5] << 8 | pdu[6]] = pdu[10] << 8 | pdu[11];
                        return bytes{23, 2, 0, 1};
                    };
                    auto r = modbusRequest(t, true, 23, 40);
                    r["count"] = 1;
                    r["write_address"] = 41;
                    r["write_count"] = 1;
                    r["msg"] = hexOf({(uint8_t)(n >> 8), (uint8_t)n});
                    auto& a = s.call("port/Load", r);
                    dev.custom = nullptr;
                    MC_CHECK(a.ok(), "port:error", a.what, " is answered by an error: ", a.error);
                    break;
                }
            }
        }
        history.push_back("finally");
        load(false);
        s.trace();
        s.checkAnswers();
        mc::state(s.digest());
        mc::nontrivial();
    }

    // ------------------------------------------------------------------- the device and the service after requests
    void connection()
    {
        auto t = target(std::vector<int>{0, 1, 5, 6, 8}[mc::choose(5, "target")]);
        int state = mc::choose(4, "state"); // connected, not polled yet, returned after a disconnection, suspended
        int op = mc::choose(6, "request");
        Site s;
        auto& dev = s.slave(t.slave, t.port);
        auto& h = dev.regs[3];
        auto d = s.device(t.id);
        if (state) {
            if (state > 1 || mc::choose(2, "polled")) {
                s.run(1500 * MS);
            }
        } else {
            s.run(1500 * MS);
        }
        if (state == 2) {
            dev.online = false;
            s.runUntil([&] { return d->GetConnectionState() == TDeviceConnectionState::DISCONNECTED; }, 60 * SEC);
            dev.online = true;
        }
        Json::Value poll;
        poll["device_id"] = t.id;
        if (state == 3) {
            poll["poll"] = false;
            auto& a = s.call("device/SetPoll", poll);
            MC_CHECK(a.ok(), "poll:error", a.what, " is answered by an error: ", a.error);
        }
        if (state >= 2) { // the device has been restarted meanwhile
            h[500] = 0;
            if (t.wb()) {
                h[114] = 0;
            }
        }
        auto mark = s.net[t.port]->log.size();
        int times = 1 + mc::choose(2, "times");
        for (int i = 0; i < times; ++i) {
            auto req = t.request;
            switch (op) {
                case 0:
                    req["channels"].append("h1");
                    s.call("device/Load", req);
                    break;
                case 1:
                    s.call("device/LoadConfig", req, &dev);
                    break;
                case 2:
                    req["parameters"]["p41"] = 77;
                    s.call("device/Set", req);
                    break;
                case 3:
                    s.call("port/Load", modbusRequest(t, true, 3, 41));
                    break;
                case 4:
                    s.call("port/Load", modbusRequest(t, false, 3, 41));
                    break;
                case 5: // the device doesn't answer
                    dev.online = false;
                    req["channels"].append("h1");
                    s.call("device/Load", req);
                    dev.online = true;
                    break;
            }
            MC_CHECK(s.answers.back().ok() == (op != 5), "connection:answer", s.answers.back().what, " is answered ", dump(s.answers.back().result), s.answers.back().error);
        }
        auto rpcEnd = s.net[t.port]->log.size();
        std::string published;
        if (state == 3) {
            s.run(5 * SEC);
            for (size_t i = rpcEnd; i < s.net[t.port]->log.size(); ++i) {
                MC_CHECK(s.net[t.port]->log[i].slave != t.slave, "suspended:polled", "a suspended device is accessed after ", s.answers.back().what, ": ", s.net[t.port]->log[i].str());
            }
            MC_CHECK(d->GetConnectionState() != TDeviceConnectionState::CONNECTED, "suspended:connected", "a suspended device is considered connected after ", s.answers.back().what);
            poll["poll"] = true;
            auto& a = s.call("device/SetPoll", poll);
            MC_CHECK(a.ok(), "poll:error", a.what, " is answered by an error: ", a.error);
            mark = s.net[t.port]->log.size();
        }
        s.run(20 * SEC);
        s.trace();
        MC_CHECK(d->GetConnectionState() == TDeviceConnectionState::CONNECTED, "connection:lost", "the device isn't connected after the requests");
        MC_CHECK(h[500] == 77, "setup:not-written", "the setup section is not written after ", state == 2 ? "a disconnection" : state == 3 ? "a suspension" : "the start", " and ", s.answers[state == 3 ? 1 : 0].what);
        if (t.wb()) {
            MC_CHECK(h[114] == 1, "continuous-read", "reading of missing registers is not switched on again");
        }
        // polling goes on: every channel is read
        std::set<int> read;
        for (size_t i = mark; i < s.net[t.port]->log.size(); ++i) {
            auto& x = s.net[t.port]->log[i];
            if (x.slave == t.slave && x.fn == 3 && x.ok() && i >= rpcEnd) {
                for (int k = 0; k < x.count; ++k) {
                    read.insert(x.addr + k);
                }
            }
        }
        for (int addr: {1, 20, 31, 34}) {
            MC_CHECK(read.count(addr), "poll:stopped", "register ", addr, " is not polled after ", s.answers.back().what);
        }
        s.checkAnswers();
        mc::state(s.digest());
        mc::nontrivial();
    }

    // -------------------------------------------------------------------------------------------------- port/Load
    void portLoad()
    {
        Site s;
        auto t = target(std::vector<int>{0, 1, 3, 2}[mc::choose(4, "target")]);
        auto& dev = s.slave(t.slave, t.port);
        if (mc::choose(2, "state")) {
            s.run(1500 * MS);
        }
        auto byId = t.configured && mc::choose(2, "by id");
        struct Q
        {
            int fn, addr, count;
            const char* msg;
            int exception;       // of the device
            const char* response; // hex
            Memory written;
            bool wrong;
        };
        static const std::vector<Q> qs = {
            {3, 41, 2, "", 0, "008d008e", {}, false},
            {3, 20, 4, "", 0, "0078007900" "7a007b", {}, false},
            {4, 2, 1, "", 0, "0066", {}, false},
            {1, 3, 1, "", 0, "01", {}, false},
            {3, 700, 1, "", 2, "", {}, false},
            {2, 3, 1, "", 2, "", {}, false},
            {6, 41, 1, "1234", 0, nullptr, {{{3, 41}, 0x1234}}, false},
            {5, 3, 1, "0000", 0, nullptr, {{{1, 3}, 0}}, false},
            {16, 41, 2, "00050006", 0, nullptr, {{{3, 41}, 5}, {{3, 42}, 6}}, false},
            {16, 41, 2, "0005", 0, nullptr, {}, true},
            {6, 41, 1, "00", 0, nullptr, {}, true},
            {6, 41, 1, "", 0, nullptr, {}, true},
            {15, 3, 1, "00", 0, nullptr, {{{1, 3}, 0}}, false},
            {6, 700, 1, "0001", 2, nullptr, {}, false},
            {16, 62, 1, "zz11", 0, nullptr, {}, true},
            {16, 62, 1, "001", 0, nullptr, {}, true},
            {6, 65536 + 41, 1, "0001", 0, nullptr, {}, true},
            {3, 41, 65537, "", 0, nullptr, {}, true},
        };
        auto& q = qs[mc::choose(qs.size(), "request")];
        static const int kinds[] = {OK, LOST, REPLY_LOST, BADCRC, EXC4, WRONGSLAVE, WRONGFUNC, TRUNC, GARBAGE};
        int kind = kinds[mc::choose(9, "fault")];
        auto r = modbusRequest(t, byId, q.fn, q.addr);
        int mask = !byId ? mc::choose(2, "slave id over a byte") : 0;
        if (mask) {
            r["slave_id"] = t.slave + 256;
        }
        r["count"] = q.count;
        if (*q.msg) {
            r["msg"] = q.msg;
        }
        if (q.wrong || mask) {
            kind = OK;
        }
        auto before = snapshot(dev);
        size_t count = 0;
        std::string settings;
        bool hadFault = false;
        dev.fault = [&](const Access& x) {
            if (x.fn == q.fn && x.addr == q.addr && s.answers.size() && !s.answers.back().done() && !hadFault) {
                ++count;
                settings = s.bus[t.port]->settingsNow;
                hadFault = true;
                return kind;
            }
            return (int)OK;
        };
        auto mark = s.net[t.port]->log.size();
        auto& a = s.call("port/Load", r);
        dev.fault = nullptr;
        auto after = snapshot(dev);
        s.trace();
        auto expected = before;
        for (auto& w: q.written) {
            expected[w.first] = w.second;
        }
        if (q.wrong || mask) {
            MC_CHECK(!a.ok(), "port:wrong-accepted", a.what, " is answered ", dump(a.result));
            MC_CHECK(after == before, "port:wrong-written", a.what, " has changed the device");
            for (size_t i = mark; i < s.net[t.port]->log.size(); ++i) {
                auto& x = s.net[t.port]->log[i];
                MC_CHECK(x.fn != q.fn || !x.isWrite() || x.addr == 500 || x.addr == 114 || x.addr == 43, "port:wrong-sent", a.what, " leads to ", x.str());
            }
            mc::cover("refused");
        } else if (kind == OK) {
            MC_CHECK(a.ok(), "port:error", a.what, " is answered by an error: ", a.error);
            if (a.ok()) {
                // a device with reading of missing registers switched on gives 0xFFFE
                bool filled = q.fn == 3 && q.addr == 700 && dev.fill && dev.regs[3][114] == 1;
                if (filled) {
                    MC_CHECK(a.result.get("response", "") == "fffe", "port:response", a.what, " is answered ", dump(a.result));
                } else if (q.exception) {
                    MC_CHECK(a.result["exception"]["code"] == q.exception && !a.result.isMember("response"), "port:exception", a.what, " is answered ", dump(a.result));
                    MC_CHECK(after == before, "port:memory", a.what, " has changed the device");
                    mc::cover("exception");
                } else {
                    MC_CHECK(!a.result.isMember("exception") && a.result["response"].isString(), "port:response", a.what, " is answered ", dump(a.result));
                    if (q.response) {
                        MC_CHECK(a.result["response"] == q.response, "port:response", a.what, " is answered ", dump(a.result));
                    }
                    MC_CHECK(after == expected, "port:memory", a.what, " has not been executed or has changed something else");
                    mc::cover("response");
                }
            }
            MC_CHECK(count == 1, "port:requests", a.what, " is sent ", count, " times");
            MC_CHECK(settings == (byId ? "default" : "115200E81"), "line-settings", a.what, " is executed with the settings ", settings);
        } else if (kind == EXC4) {
            MC_CHECK(a.ok() && a.result["exception"]["code"] == 4, "port:exception", a.what, " is answered ", dump(a.result), a.error);
        } else {
            MC_CHECK(!a.ok(), "port:bad-answer", a.what, " is answered ", dump(a.result), " after a bad answer: ", faultName(kind));
            mc::cover("error");
        }
        s.run(100 * MS);
        s.checkAnswers();
        mc::state(s.digest());
        mc::outcome(mc::hash(dump(a.result) + a.error));
        mc::nontrivial();
    }
    //! Raw data
    void portRaw()
    {
        Site s;
        if (mc::choose(2, "state")) {
            s.run(1500 * MS);
        }
        std::string port = mc::choose(2, "port") ? "/dev/pA" : "/dev/pB";
        auto& bus = *s.bus[port];
        auto r = portRequest(port, 0, "");
        r.removeMember("slave_id");
        if (mc::choose(2, "protocol")) {
            r["protocol"] = "raw";
        }
        struct Q
        {
            const char* msg;
            const char* format;
            bytes sent;
            bool wrong;
        };
        static const std::vector<Q> qs = {{"fb0a00ff", "HEX", {0xFB, 0x0A, 0x00, 0xFF}, false},
                                          {"FB0A", "HEX", {0xFB, 0x0A}, false},
                                          {"a\n\\1", "STR", {'a', '\n', '\\', '1'}, false},
                                          {"12", "", {'1', '2'}, false},
                                          {"fb0", "HEX", {}, true},
                                          {"fbxy", "HEX", {}, true},
                                          {"0x11", "HEX", {}, true},
                                          {"+1-1", "HEX", {}, true},
                                          {" 1 2", "HEX", {}, true}};
        auto& q = qs[mc::choose(qs.size(), "request")];
        r["msg"] = q.msg;
        if (*q.format) {
            r["format"] = q.format;
        }
        static const std::vector<bytes> answers = {{}, {0xFD}, {0x31, 0x32, 0x33}, {0x31, 0x32, 0x33, 0x34, 0x35, 0x36}};
        auto& answer = answers[mc::choose(4, "answer")];
        static const int sizes[] = {3, 1, 6, 0};
        int size = sizes[mc::choose(4, "size")];
        r["response_size"] = size;
        bytes sent;
        std::string settings;
        bool any = false;
        s.net[port]->raw = [&](const bytes& f) -> std::optional<bytes> {
            if (f == q.sent || (f.size() < 4 && !any)) {
                sent = f;
                any = true;
                settings = bus.settingsNow;
                return answer;
            }
            return std::nullopt;
        };
        auto& a = s.call("port/Load", r);
        s.net[port]->raw = nullptr;
        s.trace();
        if (q.wrong) {
            MC_CHECK(!a.ok() && !any, "raw:wrong-sent", a.what, " is sent as ", hex(sent));
            mc::cover("refused");
        } else {
            MC_CHECK(any && sent == q.sent, "raw:sent", a.what, " is sent as ", hex(sent));
            MC_CHECK(settings == "115200E81", "line-settings", a.what, " is executed with the settings ", settings);
            bytes expected(answer.begin(), answer.begin() + std::min<size_t>(size, answer.size()));
            if (expected.empty() && size) {
                MC_CHECK(!a.ok(), "raw:answer", a.what, " is answered ", dump(a.result));
            } else {
                auto e = std::string(q.format) == "HEX" ? hexOf(expected) : std::string(expected.begin(), expected.end());
                MC_CHECK(a.ok() && a.result["response"].asString() == e, "raw:answer", a.what, " is answered ", dump(a.result), a.error);
                mc::cover("response");
            }
        }
        s.run(1500 * MS);
        s.checkAnswers();
        // polling goes on
        for (auto& x: s.net[port]->slaves) {
            (void)x;
        }
        mc::state(s.digest());
        mc::outcome(mc::hash(dump(a.result) + a.error));
        mc::nontrivial();
    }

    //! Requests that must be refused: nothing is sent to devices, one answer with an error
    void malformed()
    {
        static const std::vector<std::pair<const char*, const char*>> reqs = {
            {"device/Load", "{}"},
            {"device/Load", "[]"},
            {"device/Load", "null"},
            {"device/Load", R"({"device_id":5})"},
            {"device/Load", R"({"device_id":""})"},
            {"device/Load", R"({"device_id":"unknown"})"},
            {"device/Load", R"({"device_id":"wb_10","channels":"h1"})"},
            {"device/Load", R"({"device_id":"wb_10","channels":[1]})"},
            {"device/Load", R"({"path":"/dev/pA","slave_id":10,"device_type":"WB"})"},
            {"device/Load", R"({"path":"/dev/pA","baud_rate":9600,"parity":"X","data_bits":8,"stop_bits":1,"slave_id":10,"device_type":"WB"})"},
            {"device/Load", R"({"path":"/dev/pA","baud_rate":9601,"parity":"N","data_bits":8,"stop_bits":1,"slave_id":10,"device_type":"WB"})"},
            {"device/Load", R"({"path":"/dev/pA","baud_rate":9600,"parity":"N","data_bits":8,"stop_bits":1,"slave_id":12,"device_type":"nothing"})"},
            {"device/Load", R"({"path":"/dev/pA","baud_rate":9600,"parity":"N","data_bits":8,"stop_bits":1,"slave_id":-1,"device_type":"GEN"})"},
            {"device/Load", R"({"path":"/dev/pA","baud_rate":9600,"parity":"N","data_bits":8,"stop_bits":1,"slave_id":300,"device_type":"GEN"})"},
            {"device/Load", R"({"path":"/dev/pA","baud_rate":9600,"parity":"N","data_bits":8,"stop_bits":1,"slave_id":"abc","device_type":"GEN"})"},
            {"device/LoadConfig", "{}"},
            {"device/LoadConfig", R"({"device_id":"unknown"})"},
            {"device/LoadConfig", R"({"path":"/dev/pA","baud_rate":9600,"parity":"N","data_bits":8,"stop_bits":1,"slave_id":"abc","device_type":"WB"})"},
            {"device/LoadConfig", R"({"path":"/dev/pA","baud_rate":9600,"parity":"N","data_bits":8,"stop_bits":1,"slave_id":12,"device_type":"nothing"})"},
            {"device/Set", "{}"},
            {"device/Set", R"({"device_id":"unknown","parameters":{"p41":1}})"},
            {"device/Set", R"({"device_id":"wb_10","parameters":[1]})"},
            {"device/Set", R"({"device_id":"wb_10","parameters":{"p 41":1}})"},
            {"device/Set", R"({"device_id":"wb_10","channels":{"a/b":1}})"},
            {"device/SetPoll", R"({"device_id":"unknown","poll":false})"},
            {"device/SetPoll", R"({"device_id":"wb_10"})"},
            {"device/SetPoll", R"({"path":"/dev/pA","slave_id":99,"poll":false})"},
            {"device/SetPoll", R"({"path":"/dev/pZ","slave_id":10,"poll":false})"},
            {"port/Load", "{}"},
            {"port/Load", R"({"device_id":"unknown","function":3,"address":1})"},
            {"port/Load", R"({"device_id":"wb_10","function":7,"address":1})"},
            {"port/Load", R"({"device_id":"wb_10","function":259,"address":1})"},
            {"port/Load", R"({"device_id":"wb_10","function":3,"address":-1})"},
            {"port/Load", R"({"device_id":"wb_10","function":3,"address":1,"count":0})"},
            {"port/Load", R"({"device_id":"wb_10","function":3,"address":1,"format":"BIN"})"},
            {"port/Load", R"({"path":"/dev/pA","baud_rate":9600,"parity":"N","data_bits":8,"stop_bits":1,"msg":"11"})"},
            {"port/Load", R"({"path":"/dev/pA","baud_rate":9600,"parity":"N","data_bits":8,"stop_bits":1,"msg":"11","response_size":-1})"},
            {"port/Load", R"({"path":"/dev/pA","baud_rate":9600,"parity":"N","data_bits":8,"stop_bits":1,"protocol":"modbus","slave_id":"10","function":3,"address":1})"},
            {"device/Probe", R"({"path":"/dev/pA"})"},
            {"device/Probe", R"({"path":"/dev/pA","baud_rate":9600,"parity":"N","data_bits":8,"stop_bits":1,"slave_id":266})"},
        };
        Site s;
        auto& q = reqs[mc::choose(reqs.size(), "request")];
        // not polled yet, polled, no valid configuration
        auto state = mc::choose(std::string(q.second).find("path") == std::string::npos ? 3 : 2, "state");
        bool polled = state == 1;
        if (polled) {
            s.run(1500 * MS);
        }
        if (state == 2) {
            s.withoutDriver();
        }
        std::map<std::string, Memory> before;
        for (auto& n: s.net) {
            for (auto& d: n.second->slaves) {
                before[n.first + std::to_string(d.first)] = snapshot(d.second);
            }
        }
        size_t sizes[2] = {s.net["/dev/pA"]->log.size(), s.net["/dev/pB"]->log.size()};
        (void)sizes;
        auto& a = s.send(q.first, json(std::string("[") + q.second + "]")[0]);
        if (!a.done()) {
            s.runUntil([&] { return a.done(); }, 60 * SEC);
        }
        s.trace();
        MC_CHECK(a.errors == 1 && a.results == 0, "malformed:accepted", a.what, " is answered ", dump(a.result));
        for (auto& n: s.net) {
            for (auto& d: n.second->slaves) {
                if (polled) {
                    MC_CHECK(before[n.first + std::to_string(d.first)] == snapshot(d.second), "malformed:written", a.what, " has changed a device");
                }
            }
        }
        s.run(200 * MS);
        s.checkAnswers();
        mc::outcome(mc::hash(a.error));
        mc::nontrivial();
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    bool deep = mc::thorough();
    if (!getenv("VERIF_LOG")) {
        for (auto l: {&::Error, &::Warn, &::Info, &::Debug}) {
            l->SetEnabled(false);
        }
    }
    common = WBMQTT::JSON::Parse(repo() + "/wb-mqtt-serial-confed-common.schema.json");
    templateSchema = LoadConfigTemplatesSchema(repo() + "/wb-mqtt-serial-device-template.schema.json", common);
    portsSchema = WBMQTT::JSON::Parse(repo() + "/wb-mqtt-serial-ports.schema.json");
    factory();
    protocols = new TProtocolConfedSchemasMap(repo() + "/protocols", common);
    auto run = [](const char* name, void (*body)(), int bound, std::vector<std::string> cover) {
        mc::Options o;
        o.name = name;
        o.bound = bound;
        o.seconds = 100;
        o.shardDepth = 3;
        o.mustCover = cover;
        mc::explore(o, body);
    };
    run("load", load, 0, {"result", "error"});
    run("load faults", loadFaults, deep ? 2 : 1, {"result", "error"});
    run("settings of devices", loadConfig, 0, {"result", "error"});
    run("settings of devices, faults", loadConfigFaults, deep ? 2 : 1, {"result"});
    run("set", set, 0, {"result", "error"});
    run("set, faults", setWithFaults, deep ? 2 : 1, {"result", "error"});
    run("histories", deep ? +[] { settings(4); } : +[] { settings(3); }, 0, {});
    run("connection", connection, 0, {});
    run("modbus", portLoad, 0, {"response", "exception", "refused", "error"});
    run("raw", portRaw, 0, {"response", "refused"});
    run("malformed", malformed, 0, {});
    return mc::finish();
}
