// P24: threads of the service: polling threads of ports, MQTT messages, RPC requests, start and stop
#include "config_merge_template.h"
#include "confed_device_schemas_map.h"
#include "confed_protocol_schemas_map.h"
#include "fm.h"
#include "log.h"
#include "race.h"
#include "rpc/rpc_device_handler.h"
#include "rpc/rpc_port_driver_list.h"
#include "rpc/rpc_fw_update_handler.h"
#include "rpc/rpc_port_handler.h"
#include "serial_driver.h"
#include "sim.h"
#include <filesystem>
#include <fstream>
#include <thread>
#include <unistd.h>
using namespace sim;
namespace fs = std::filesystem;

namespace
{
    Json::Value common, templateSchema, portsSchema;
    TProtocolConfedSchemasMap* protocols = nullptr;
    std::string repo()
    {
        auto r = getenv("VERIF_REPO");
        return r ? r : "/repo";
    }
    std::string dump(const Json::Value& v)
    {
        Json::StreamWriterBuilder b;
        b["indentation"] = "";
        return Json::writeString(b, v);
    }

    std::string root;
    struct Scratch
    {
        pid_t pid = 0;
        ~Scratch()
        {
            if (pid == getpid() && !root.empty()) {
                std::error_code e;
                fs::remove_all(root, e);
            }
        }
        bool ensure()
        {
            if (pid == getpid()) {
                return false;
            }
            pid = getpid();
            char t[] = "/dev/shm/p24XXXXXX", t2[] = "/tmp/p24XXXXXX";
            auto p = mkdtemp(t);
            root = p ? p : mkdtemp(t2);
            fs::create_directories(root + "/t");
            return true;
        }
    } scratch;
    void put(const std::string& name, const std::string& text)
    {
        std::ofstream f(root + "/" + name, std::ios::trunc);
        f << text;
    }

    const char* WB = R"({"device_type":"WB","title":"WB","group":"g","hw":[{"signature":"MODEL"}],
      "device":{"name":"WB","id":"wb","enable_wb_continuous_read":true,
        "setup":[{"title":"s","address":500,"reg_type":"holding","value":77}],
        "parameters":[{"id":"p41","title":"p41","address":41,"reg_type":"holding"}],
        "channels":[
          {"name":"h1","reg_type":"holding","address":1,"type":"value"},
          {"name":"ev","reg_type":"holding","address":2,"type":"value","sporadic":true},
          {"name":"eo","reg_type":"holding","address":3,"type":"value","semi-sporadic":true},
          {"name":"c3","reg_type":"coil","address":3,"type":"switch"}]}})";
    const char* GEN = R"({"device_type":"GEN","title":"GEN","group":"g",
      "device":{"name":"GEN","id":"gen",
        "setup":[{"title":"s","address":500,"reg_type":"holding","value":77}],
        "parameters":{"p41":{"title":"p41","address":41,"reg_type":"holding"}},
        "channels":[
          {"name":"h1","reg_type":"holding","address":1,"type":"value"}]}})";

    void fillSlave(Slave& s)
    {
        s.latency = 2 * MS;
        for (int a: {1, 2, 3, 41}) {
            s.regs[3][a] = 100 + a;
        }
        s.regs[1][3] = 0;
        s.regs[3][500] = 0;
        s.regs[3][114] = 0;
        s.fill = true;
        auto text = [&](int addr, const std::string& t, int n) {
            for (int i = 0; i < n; ++i) {
                s.regs[3][addr + i] = i < (int)t.size() ? t[i] : 0;
            }
        };
        text(200, "MODEL", 20);
        text(250, "1.9.0", 16);
    }

    std::shared_ptr<TTemplateMap> templateMap;

    struct Answer
    {
        int results = 0, errors = 0;
        Json::Value result;
        std::string error;
        std::string what;
        int64_t time = 0;
        bool done() const
        {
            return results + errors > 0;
        }
    };

    struct Site
    {
        std::map<std::string, std::shared_ptr<Bus>> bus;
        std::map<std::string, std::unique_ptr<Net>> net;
        std::unique_ptr<FmNet> fm;
        WBMQTT::PDeviceDriver mqtt = std::make_shared<WBMQTT::TDeviceDriver>();
        PRPCConfig rpcConfig = std::make_shared<TRPCConfig>();
        PHandlerConfig cfg;
        PMQTTSerialDriver driver;
        std::unique_ptr<TSerialClientTaskRunner> runner;
        TRPCDeviceParametersCache cache;
        WBMQTT::PMqttRpcServer server = std::make_shared<WBMQTT::TMqttRpcServer>();
        std::unique_ptr<TRPCDeviceHandler> devices;
        std::unique_ptr<TRPCPortHandler> ports;
        std::deque<Answer> answers;
        int64_t start;
        std::string configPath; // handlers keep a reference

        Site(const std::string& text, bool freshTemplates = false)
        {
            if (scratch.ensure() || freshTemplates) {
                put("t/WB.json", WB);
                put("t/GEN.json", GEN);
                templateMap = std::make_shared<TTemplateMap>(templateSchema);
                templateMap->AddTemplatesDir(root + "/t");
            }
            configPath = root + "/config.json";
            put("config.json", text);
            vclock::reset();
            start = vclock::now;
            cfg = LoadConfig(root + "/config.json",
                             factory(),
                             common,
                             *templateMap,
                             rpcConfig,
                             portsSchema,
                             *protocols,
                             [this](const Json::Value& c, PRPCConfig) {
                                 auto p = c["path"].asString();
                                 auto b = bus[p] = std::make_shared<Bus>();
                                 b->name = p;
                                 b->canWrite = [] {
                                     race::io();
                                     return true;
                                 };
                                 net[p] = std::make_unique<Net>(*b, false);
                                 for (int id = 10; id < 13; ++id) {
                                     fillSlave(net[p]->add(id));
                                 }
                                 return std::make_shared<TFeaturePort>(b, false);
                             });
            driver = std::make_shared<TMQTTSerialDriver>(mqtt, cfg);
            mqtt->On<WBMQTT::TControlOnValueEvent>(TSerialPortDriver::HandleControlOnValueEvent);
            runner = std::make_unique<TSerialClientTaskRunner>(driver);
            cache.RegisterCallbacks(cfg);
            auto schema = [](const char* n) { return repo() + "/wb-mqtt-serial-rpc-" + n + "-request.schema.json"; };
            devices = std::make_unique<TRPCDeviceHandler>(configPath,
                                                          schema("device-load-config"),
                                                          schema("device-load"),
                                                          schema("device-set"),
                                                          schema("device-probe"),
                                                          schema("device-set-poll"),
                                                          factory(),
                                                          templateMap,
                                                          *runner,
                                                          cache,
                                                          server);
            ports = std::make_unique<TRPCPortHandler>(schema("port-load"),
                                                      schema("port-setup"),
                                                      schema("port-scan"),
                                                      rpcConfig,
                                                      *runner,
                                                      cache,
                                                      server);
        }
        ~Site()
        {
            for (auto& b: bus) {
                b.second->onWrite = nullptr;
            }
        }
        //! The WB device of the first port supports events
        FmDevice& events()
        {
            fm = std::make_unique<FmNet>(*net.begin()->second);
            return fm->add(slave(10));
        }
        Slave& slave(int id, const std::string& port = "")
        {
            return (port.empty() ? net.begin()->second : net.at(port))->slaves.at(id);
        }
        Answer& send(const std::string& method, const Json::Value& req)
        {
            Answer* a;
            {
                race::Off off;
                answers.emplace_back();
                a = &answers.back();
                a->what = method + " " + dump(req);
                mc::note("request " + a->what);
            }
            server->Call(
                method,
                req,
                [a](const Json::Value& v) {
                    race::Off off;
                    ++a->results;
                    a->result = v;
                    a->time = vclock::now;
                    mc::note("result " + dump(v));
                },
                [a](int code, const std::string& e) {
                    race::Off off;
                    ++a->errors;
                    a->error = e;
                    a->time = vclock::now;
                    mc::note("error " + e);
                });
            return *a;
        }
        void wait(std::function<bool()> done, int64_t limit = 30 * SEC)
        {
            auto end = vclock::now + limit;
            while (true) {
                {
                    race::Off off;
                    if (done() || vclock::now >= end) {
                        return;
                    }
                }
                race::sleepUs(20 * MS);
            }
        }
        Answer& call(const std::string& method, const Json::Value& req)
        {
            auto& a = send(method, req);
            wait([&] { return a.done(); });
            return a;
        }
        void command(const std::string& device, const std::string& control, const std::string& value)
        {
            mqtt->Command(device, control, value);
        }
        //! After the end of all threads
        void finish(bool stopped = false)
        {
            for (auto& a: answers) {
                if (stopped && !a.done()) {
                    continue; // nobody is obliged to answer when the service is stopped
                }
                MC_CHECK(a.results + a.errors == 1,
                         a.done() ? "several-answers" : "no-answer",
                         a.what, " is answered ", a.results, " times with a result and ", a.errors, " with an error");
            }
            uint64_t h = 3;
            for (auto& n: net) {
                for (auto& a: n.second->log) {
                    h = mc::mix(mc::mix(mc::mix(h, a.slave << 24 | a.fn << 16 | a.addr), a.fault), a.count);
                    for (auto v: a.values) {
                        h = mc::mix(h, v);
                    }
                    if (mc::tracing()) {
                        mc::note(n.first + " " + a.str());
                    }
                }
            }
            for (auto& a: answers) {
                h = mc::mix(h, std::hash<std::string>()(dump(a.result) + a.error));
            }
            mc::outcome(h);
            if (race::threads() > 1) {
                mc::nontrivial();
            }
            mc::evaluated(race::accesses());
        }
        std::string published(const std::string& device, const std::string& control)
        {
            return mqtt->Devices.count(device) ? mqtt->Devices[device]->Controls.at(control)->RawValue : "";
        }
    };

    //! Static variables of functions are initialised by the first execution of a process, so there is one more before
    template<void (*F)()> void scheduled()
    {
        static pid_t warm = 0;
        if (warm != getpid()) {
            warm = getpid();
            race::warmUp(F);
        }
        race::run(F);
    }

    const char* ONE_PORT = R"({"ports":[{"path":"/dev/pA","baud_rate":115200,"devices":[
        {"device_type":"WB","slave_id":"10"},{"device_type":"GEN","slave_id":"11"}]}]})";
    const char* ONE_DEVICE = R"({"ports":[{"path":"/dev/pA","baud_rate":115200,"devices":[
        {"device_type":"GEN","slave_id":"11"}]}]})";
    const char* EVENTS = R"({"ports":[{"path":"/dev/pA","baud_rate":115200,"devices":[
        {"device_type":"WB","slave_id":"10"}]}]})";
    const char* TWO_PORTS = R"({"ports":[{"path":"/dev/pA","baud_rate":115200,"devices":[
        {"device_type":"GEN","slave_id":"10","device_timeout_ms":0,"device_max_fail_cycles":1,"channels":[{"name":"h1","read_rate_limit_ms":500}]}]},{"path":"/dev/pB","baud_rate":115200,"devices":[
        {"device_type":"GEN","slave_id":"11","id":"b","channels":[{"name":"h1","read_rate_limit_ms":500}]}]}]})";

    //! Values sent to controls reach the device
    void someCommands(int kind, int gap)
    {
        Site s(ONE_DEVICE);
        int left = kind ? 1 : 0;
        bool writing = false;
        s.slave(11).fault = [&](const Access& a) {
            race::Off o;
            writing |= a.isWrite() && a.addr == 1;
            return a.isWrite() && a.addr == 1 && left-- > 0 ? (kind == 1 ? EXC2 : LOST) : OK;
        };
        s.driver->Start();
        std::thread mqtt([&] {
            if (gap) {
                race::sleepUs(30 * MS);
            }
            s.command("gen_11", "h1", "5");
            while (gap) {
                {
                    race::Off o;
                    if (writing) {
                        break;
                    }
                }
                race::sleepUs(200);
            }
            s.command("gen_11", "h1", "6");
            race::sleepUs(60 * MS);
            s.command("gen_11", "h1", "7");
        });
        mqtt.join();
        race::sleepUs(kind == 2 ? 2000 * MS : 200 * MS);
        s.driver->Stop();
        MC_CHECK(s.slave(11).regs[3][1] == 7, "command-lost", "the device has ", s.slave(11).regs[3][1], " instead of the last value 7");
        s.finish();
        mc::cover("end");
    }

    void commands()
    {
        someCommands(0, 0);
    }

    void commandsDuringWrites()
    {
        someCommands(race::choose(3, "the first write is: done, rejected, lost"), 1);
    }

    void suspend()
    {
        Site s(ONE_PORT);
        s.driver->Start();
        bool first = race::choose(2, "before the first cycle") == 1;
        if (!first) {
            race::sleepUs(100 * MS);
        }
        auto req = [](const char* dev, bool poll) {
            Json::Value r;
            r["device_id"] = dev;
            r["poll"] = poll;
            return r;
        };
        int64_t off = 0, on = 0, again = 0;
        std::thread rpc([&] {
            auto& a = s.call("device/SetPoll", req("gen_11", false));
            off = a.time;
            if (a.errors) {
                race::Off o;
                mc::fail("set-poll", "can't suspend: " + a.error);
            }
            race::sleepUs(120 * MS);
            on = vclock::now;
            auto& b = s.call("device/SetPoll", req("gen_11", true));
            again = b.time;
            if (b.errors) {
                race::Off o;
                mc::fail("set-poll", "can't resume: " + b.error);
            }
        });
        s.command("wb_10", "h1", "5");
        rpc.join();
        race::sleepUs(2000 * MS);
        s.driver->Stop();
        bool polled = false;
        for (auto& a: s.net["/dev/pA"]->log) {
            if (a.slave == 11) {
                MC_CHECK(a.t < off || a.end > on, "poll-of-suspended", "the suspended device is accessed: ", a.str());
                polled |= a.t >= again && a.fn == 3;
            }
        }
        MC_CHECK(polled, "not-resumed", "the device isn't polled after resuming");
        MC_CHECK(s.slave(10).regs[3][1] == 5, "command-lost", "the device has ", s.slave(10).regs[3][1], " instead of the last value 5");
        s.finish();
        mc::cover("end");
    }

    Json::Value setPoll(const char* dev, bool poll)
    {
        Json::Value r;
        r["device_id"] = dev;
        r["poll"] = poll;
        return r;
    }

    //! A device with events is suspended, changed and resumed
    void events()
    {
        Site s(EVENTS);
        auto& d = s.events();
        s.driver->Start();
        std::thread rpc([&] {
            race::sleepUs(150 * MS);
            s.call("device/SetPoll", setPoll("wb_10", false));
            race::sleepUs(100 * MS);
            s.call("device/SetPoll", setPoll("wb_10", true));
        });
        race::sleepUs(300 * MS);
        s.command("wb_10", "eo", "9");
        race::sleepUs(100 * MS);
        {
            race::Off off;
            d.set(3, 2, 4321);
        }
        rpc.join();
        race::sleepUs(3000 * MS);
        std::string shown;
        {
            race::Off off;
            shown = s.published("wb_10", "ev");
        }
        s.driver->Stop();
        MC_CHECK(s.slave(10).regs[3][3] == 9, "command-lost", "the device has ", s.slave(10).regs[3][3], " instead of the last value 9");
        MC_CHECK(shown == "4321", "event-lost", "the control has the value ", shown, " instead of 4321");
        MC_CHECK(d.enabled.count({3, 2}) == 1, "events-off", "events aren't enabled after resuming");
        s.finish();
        mc::cover("end");
    }

    Json::Value deviceRequest(const char* dev, const char* text)
    {
        auto r = json(text);
        r["device_id"] = dev;
        return r;
    }

    //! Requests to devices together with polling and commands
    void requests()
    {
        Site s(ONE_PORT);
        s.driver->Start();
        Answer *load = nullptr, *config = nullptr, *set = nullptr, *again = nullptr;
        std::thread rpc([&] {
            config = &s.send("device/LoadConfig", deviceRequest("wb_10", "{}"));
            load = &s.send("device/Load", deviceRequest("gen_11", R"({"channels":["h1"],"parameters":["p41"]})"));
            s.wait([&] { return config->done() && load->done(); });
            set = &s.send("device/Set", deviceRequest("wb_10", R"({"channels":{"h1":77},"parameters":{"p41":78}})"));
            again = &s.send("device/LoadConfig", deviceRequest("wb_10", R"({"force":true})"));
            s.wait([&] { return set->done() && again->done(); });
        });
        std::thread mqtt([&] {
            s.command("gen_11", "h1", "5");
            race::sleepUs(30 * MS);
            s.command("wb_10", "c3", "1");
        });
        rpc.join();
        mqtt.join();
        race::sleepUs(300 * MS);
        s.driver->Stop();
        s.finish();
        for (auto a: {load, config, set, again}) {
            MC_CHECK(a->results == 1, "request-fails", a->what, " fails: ", a->error);
        }
        MC_CHECK(s.slave(11).regs[3][1] == 5 && s.slave(10).regs[1][3] == 1, "command-lost", "a value isn't written");
        MC_CHECK(s.slave(10).regs[3][1] == 77 && s.slave(10).regs[3][41] == 78, "set-lost", "a value of the request isn't written");
        MC_CHECK(config->result["parameters"]["p41"].asInt() == 141, "wrong-config", "parameters: ", dump(config->result));
        MC_CHECK(again->result["parameters"]["p41"].asInt() == 78, "wrong-config", "parameters: ", dump(again->result));
        MC_CHECK(load->result["parameters"]["p41"].asInt() == 141, "wrong-load", "values: ", dump(load->result));
        mc::cover("end");
    }

    //! Two ports are polled by two threads, parameters of devices are cached for requests together
    void twoPorts()
    {
        Site s(TWO_PORTS);
        s.driver->Start();
        Answer *a = nullptr, *b = nullptr;
        race::sleepUs(50 * MS);
        {
            race::Off off;
            s.slave(10, "/dev/pA").online = false; // and back: the cache is cleared
        }
        race::sleepUs(1200 * MS);
        {
            race::Off off;
            s.slave(10, "/dev/pA").online = true;
            s.slave(11, "/dev/pB").regs[3][41] = 999;
        }
        a = &s.send("device/LoadConfig", deviceRequest("gen_10", "{}"));
        b = &s.send("device/LoadConfig", deviceRequest("b", R"({"force":true})"));
        s.command("b", "h1", "6");
        s.wait([&] { return a->done() && b->done(); });
        race::sleepUs(2500 * MS);
        s.command("gen_10", "h1", "5");
        race::sleepUs(300 * MS);
        s.driver->Stop();
        s.finish();
        for (auto x: {a, b}) {
            MC_CHECK(x->results == 1, "request-fails", x->what, " fails: ", x->error);
        }
        MC_CHECK(a->result["parameters"]["p41"].asInt() == 141 && b->result["parameters"]["p41"].asInt() == 999, "wrong-config", "parameters: ", dump(a->result), dump(b->result));
        MC_CHECK(s.slave(10, "/dev/pA").regs[3][1] == 5 && s.slave(11, "/dev/pB").regs[3][1] == 6, "command-lost", "a value isn't written");
        mc::cover("end");
    }

    Json::Value portRequest(int n)
    {
        auto r = json(R"({"msg":"0102","format":"HEX","response_size":4,"baud_rate":9600,"parity":"N","data_bits":8,"stop_bits":1,"response_timeout":100,"frame_timeout":20,"total_timeout":2000})");
        r["path"] = mc::str("/nonexistent/p24/", n);
        return r;
    }

    //! Ports which aren't in the config: every request is answered, whatever number of ports there is
    void executors()
    {
        Site s(ONE_DEVICE);
        for (int i = 0; i < 5; ++i) {
            s.send("port/Load", portRequest(i));
        }
        bool idle = race::choose(2, "the ports are used already") == 1;
        if (idle) {
            s.wait([&] { return std::all_of(s.answers.begin(), s.answers.end(), [](auto& a) { return a.done(); }); });
            race::sleepUs(50 * MS);
        }
        // requests about firmwares have a server of their own
        std::thread other([&] {
            s.send("port/Load", portRequest(idle ? 2 : 4));
            s.send("port/Load", portRequest(6));
        });
        s.send("port/Load", portRequest(idle ? 0 : 4));
        s.send("port/Load", portRequest(5));
        s.send("port/Load", portRequest(1));
        other.join();
        s.wait([&] { return std::all_of(s.answers.begin(), s.answers.end(), [](auto& a) { return a.done(); }); }, 60 * SEC);
        s.runner.reset();
        s.finish();
        mc::cover("end");
    }

    //! The service is stopped at any moment
    void stop()
    {
        Site s(ONE_PORT);
        s.driver->Start();
        static const int64_t when[] = {0, 15, 100};
        auto t = when[race::choose(3, "stop")];
        std::thread rpc([&] {
            s.send("device/LoadConfig", deviceRequest("wb_10", "{}"));
            s.send("device/SetPoll", setPoll("gen_11", false));
            s.command("wb_10", "h1", "3");
            race::sleepUs(10 * MS);
            s.send("device/Set", deviceRequest("gen_11", R"({"channels":{"h1":77}})"));
            s.send("device/SetPoll", setPoll("gen_11", true));
        });
        if (t) {
            race::sleepUs(t * MS);
        }
        auto begin = vclock::now;
        s.driver->Stop();
        auto took = vclock::now - begin;
        rpc.join();
        s.driver->ClearDevices();
        s.finish(true);
        MC_CHECK(took < 5 * SEC, "slow-stop", "the stop takes ", took / MS, " ms");
        mc::cover("end");
    }

    //! Templates are changed by the watcher of files while they are used
    void templates()
    {
        Site s(ONE_PORT, true);
        static Json::Value groups;
        TDevicesConfedSchemasMap schemas(*templateMap, factory(), common);
        schemas.GetSchema("WB");
        s.driver->Start();
        race::sleepUs(50 * MS);
        std::string changed = WB;
        changed.replace(changed.find("\"title\":\"p41\""), 13, "\"title\":\"new\"");
        Answer *load = nullptr, *config = nullptr;
        auto update = [&](const char* name, const std::string& text) {
            {
                race::Off off;
                put(std::string("t/") + name + ".json", text);
            }
            for (auto& t: templateMap->UpdateTemplate(root + "/t/" + name + ".json")) {
                schemas.InvalidateCache(t);
            }
        };
        std::thread watcher([&] {
            update("GEN", GEN);
            update("WB", changed);
        });
        std::shared_ptr<Json::Value> during;
        std::thread rpc([&] {
            config = &s.send("device/LoadConfig", deviceRequest("wb_10", "{}"));
            load = &s.send("device/Load", deviceRequest("gen_11", R"({"channels":["h1"],"parameters":["p41"]})"));
            during = schemas.GetSchema("WB");
            schemas.GetSchema("GEN");
            templateMap->ValidateTemplate(json(GEN));
            s.wait([&] { return load->done() && config->done(); });
        });
        watcher.join();
        rpc.join();
        s.driver->Stop();
        auto now = schemas.GetSchema("WB");
        s.finish();
        for (auto a: {load, config}) {
            MC_CHECK(a->results == 1, "request-fails", a->what, " fails: ", a->error);
        }
        MC_CHECK(dump(*now).find("\"new\"") != std::string::npos, "stale-schema", "the schema of a changed template isn't updated");
        MC_CHECK(load->result["parameters"]["p41"].asInt() == 141, "wrong-load", "values: ", dump(load->result));
        mc::cover("end");
    }

    struct Releases: IHttpClient
    {
        bytes file;
        std::string GetText(const std::string& url) override
        {
            race::io();
            return "releases:\n  sigA:\n    stable: f/2.0.0.wbfw\n";
        }
        bytes GetBinary(const std::string& url) override
        {
            race::io();
            return file;
        }
    };

    //! Update of a firmware while other requests about firmwares are handled
    void firmware()
    {
        Site s(TWO_PORTS);
        auto http = std::make_shared<Releases>();
        http->file.assign(32 + 136 * 2, 7);
        for (auto& n: s.net) {
            for (auto& d: n.second->slaves) {
                auto& h = d.second.regs[3];
                auto text = [&](int addr, const std::string& t, int count) {
                    for (int i = 0; i < count; ++i) {
                        h[addr + i] = i < (int)t.size() ? t[i] : 0;
                    }
                };
                text(290, "sigA", 12);
                text(330, "1.0.0", 8);
                h[129] = h[131] = 0;
                for (int i = 0; i < 16; ++i) {
                    h[0x1000 + i] = 0;
                }
                for (int i = 0; i < 68; ++i) {
                    h[0x2000 + i] = 0;
                }
            }
        }
        std::string last, expected;
        int published = 0;
        auto mqtt = std::make_shared<WBMQTT::TMqttClient>();
        {
            TRPCFwUpdateHandler handler(*s.runner, s.server, mqtt, http);
            auto request = [](const char* port, int id) {
                auto r = json("{}");
                r["slave_id"] = id;
                r["port"]["path"] = port;
                return r;
            };
            int fails = race::choose(3, "the update: is successful, fails, the device doesn't answer");
            if (fails == 1) {
                s.slave(10, "/dev/pA").regs[3].erase(0x2000);
            } else if (fails == 2) {
                s.slave(10, "/dev/pA").online = false;
            }
            s.driver->Start();
            Answer *u = nullptr, *i = nullptr, *j = nullptr;
            std::vector<Answer*> more;
            std::thread rpc([&] {
                u = &s.send("fw-update/Update", request("/dev/pA", 10));
                i = &s.send("fw-update/GetFirmwareInfo", request("/dev/pB", 11));
                j = &s.send("fw-update/Update", request("/dev/pB", 11));
                for (int k = 0; k < 3; ++k) {
                    race::sleepUs(20 * MS);
                    s.send("fw-update/ClearError", request("/dev/pA", 10));
                    more.push_back(&s.send(k == 1 ? "fw-update/Restore" : "fw-update/Update", request("/dev/pB", 11)));
                }
                // one more, when the update of the other port ends
                while (!u->done()) {
                    race::sleepUs(5 * MS);
                    more.push_back(&s.send(more.size() & 1 ? "fw-update/Restore" : "fw-update/Update", request("/dev/pB", 11)));
                }
            });
            rpc.join();
            s.wait([&] { return u->done() && i->done() && j->done() && std::all_of(more.begin(), more.end(), [](Answer* a) { return a->done(); }); });
            race::sleepUs(300 * MS);
            // the error, if it is shown, can be cleared, then nothing is in progress
            s.call("fw-update/ClearError", request("/dev/pA", 10));
            s.call("fw-update/ClearError", request("/dev/pB", 11));
            s.driver->Stop();
            s.finish();
            MC_CHECK(u->results == (fails == 2 ? 0 : 1) && i->results == 1, "request-fails", u->error, i->error);
        }
        MC_CHECK(!mqtt->Messages.empty(), "no-state", "the state isn't published");
        auto state = json(mqtt->Messages.back().Payload);
        for (auto& d: state["devices"]) {
            MC_CHECK(d["progress"].asInt() == 100 && d["error"].isNull(), "stale-state", "the last published state isn't the last one: ", dump(state));
        }
        mc::cover("end");
    }

    //! The last published state of updates of firmwares is the actual one
    void updateState()
    {
        std::mutex m;
        std::vector<std::string> published;
        TFwUpdateState st(
            [&](const std::string&, const std::string& text, bool) {
                std::lock_guard<std::mutex> lock(m);
                published.push_back(text);
            },
            "T");
        auto update = [&](int slave, int progress) {
            TDeviceUpdateInfo i;
            i.PortPath = "/dev/p";
            i.Protocol = "modbus";
            i.SlaveId = slave;
            i.Type = "firmware";
            i.Progress = progress;
            st.Update(i);
        };
        auto fail = [&](int slave) { st.SetError(slave, "/dev/p", "firmware", "e", "error"); };
        update(3, 10);
        update(4, 10);
        fail(3);
        fail(4);
        auto change = [&](int what, int slave) {
            switch (what) {
                case 0:
                    return update(slave, 50);
                case 1:
                    return fail(slave);
                case 2:
                    st.ClearError(slave + 2, "/dev/p", "firmware");
                    return st.ClearError(slave + 2, "/dev/p", "firmware");
                case 3:
                    return st.Remove(slave, "/dev/p", "firmware");
                default:
                    st.HasActiveUpdate(slave, "/dev/p");
                    return st.Reset();
            }
        };
        int what = race::choose(5, "the last change of a port"), what2 = race::choose(5, "the last change of another one");
        std::thread port([&] {
            update(1, 0);
            change(what, 1);
        });
        std::thread rpc([&] {
            st.HasActiveUpdate(1, "/dev/p");
            update(2, 0);
            change(what2, 2);
        });
        port.join();
        rpc.join();
        auto last = published.back();
        st.Remove(7, "/dev/p", "firmware"); // there is no such, so it publishes the state as it is
        MC_CHECK(last == published.back(), "stale-state", "the last published state is ", last, " while the state is ", published.back());
        mc::nontrivial();
        mc::outcome(std::hash<std::string>()(last));
        mc::evaluated(race::accesses());
        mc::cover("end");
    }

    //! A port without an answer
    struct DeadPort: TPort
    {
        std::string name;
        std::vector<bytes> sent;
        void Open() override {}
        void Close() override {}
        bool IsOpen() const override
        {
            return true;
        }
        void CheckPortOpen() const override {}
        void WriteBytes(const uint8_t* buf, int count) override
        {
            race::io();
            sent.emplace_back(buf, buf + count);
        }
        uint8_t ReadByte(const std::chrono::microseconds&) override
        {
            throw TResponseTimeoutException();
        }
        TReadFrameResult ReadFrame(uint8_t*, size_t, const std::chrono::microseconds&, const std::chrono::microseconds&, TFrameCompletePred) override
        {
            throw TResponseTimeoutException();
        }
        void SkipNoise() override {}
        void SleepSinceLastInteraction(const std::chrono::microseconds&) override {}
        std::chrono::microseconds GetSendTimeBytes(double) const override
        {
            return {};
        }
        std::chrono::microseconds GetSendTimeBits(size_t) const override
        {
            return {};
        }
        std::string GetDescription(bool) const override
        {
            return name;
        }
    };

    //! What threads of ports share: files of firmwares, numbers of Modbus TCP transactions, settings of devices
    void shared()
    {
        auto http = std::make_shared<Releases>();
        http->file.assign(32 + 136 * 2, 7);
        TFwDownloader downloader(http);
        TRPCDeviceParametersCache cache;
        std::string versions[2];
        size_t sizes[2] = {0, 0};
        DeadPort ports[2];
        auto work = [&](int n) {
            auto& port = ports[n];
            Modbus::TModbusTCPTraits traits;
            for (int i = 0; i < 2; ++i) {
                try {
                    traits.Transaction(port, 1, {3, 0, 1, 0, 1}, 4, std::chrono::milliseconds(1), std::chrono::milliseconds(1));
                } catch (const TSerialDeviceException&) {
                }
            }
            if (n) {
                Modbus::TModbusTCPTraits::ResetTransactionId(port);
            }
            versions[n] = downloader.GetReleasedFirmware("sigA", "stable").Version;
            sizes[n] = downloader.DownloadAndParseWBFW(n ? "b" : "a").Data.size();
            sizes[n] += downloader.DownloadAndParseWBFW("a").Data.size();
            cache.Add(port.name, n);
            cache.Contains(port.name);
            cache.Remove("x");
            downloader.GetReleasedBootloader("sigA", "stable");
        };
        ports[0].name = "10.0.0.1:502";
        ports[1].name = "10.0.0.2:502";
        for (auto& p: ports) {
            Modbus::TModbusTCPTraits::ResetTransactionId(p);
        }
        std::thread a(work, 0), b(work, 1);
        a.join();
        b.join();
        for (int n = 0; n < 2; ++n) {
            MC_CHECK(versions[n] == "2.0.0", "wrong-release", "release: ", versions[n]);
            MC_CHECK(sizes[n] == 2 * 136 * 2, "wrong-firmware", "sizes of firmwares: ", sizes[n]);
            MC_CHECK(cache.Contains(ports[n].name) && cache.Get(ports[n].name).asInt() == n, "lost-settings", "settings of a device are lost");
            auto& s = ports[n].sent;
            MC_CHECK(s.size() == 2 && s[0][0] * 256 + s[0][1] == 1 && s[1][0] * 256 + s[1][1] == 2, "transactions", "wrong numbers of transactions");
        }
        mc::nontrivial();
        mc::outcome(1);
        mc::evaluated(race::accesses());
        mc::cover("end");
    }

    void run(const char* name, void (*body)(), int bound)
    {
        mc::Options o;
        o.name = name;
        o.bound = bound;
        o.seconds = 100;
        o.shardDepth = 2;
        o.mustCover = {"end"};
        mc::explore(o, body);
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    bool deep = mc::thorough();
    if (!getenv("VERIF_LOG")) {
        for (auto l: {&::Error, &::Warn, &::Info, &::Debug}) {
            l->SetEnabled(false);
        }
    }
    common = WBMQTT::JSON::Parse(repo() + "/wb-mqtt-serial-confed-common.schema.json");
    templateSchema = LoadConfigTemplatesSchema(repo() + "/wb-mqtt-serial-device-template.schema.json", common);
    portsSchema = WBMQTT::JSON::Parse(repo() + "/wb-mqtt-serial-ports.schema.json");
    factory();
    protocols = new TProtocolConfedSchemasMap(repo() + "/protocols", common);
    run("commands", scheduled<commands>, deep ? 3 : 2);
    run("commands during writes", scheduled<commandsDuringWrites>, deep ? 2 : 1);
    run("suspend", scheduled<suspend>, deep ? 2 : 1);
    run("events", scheduled<events>, deep ? 2 : 1);
    run("requests", scheduled<requests>, deep ? 2 : 1);
    run("ports", scheduled<twoPorts>, deep ? 2 : 1);
    run("executors", scheduled<executors>, deep ? 2 : 1);
    run("stop", scheduled<stop>, deep ? 2 : 1);
    run("templates", scheduled<templates>, deep ? 2 : 1);
    run("firmware", scheduled<firmware>, deep ? 2 : 1);
    run("shared", scheduled<shared>, deep ? 3 : 2);
    run("fw state", scheduled<updateState>, deep ? 3 : 2);
    return mc::finish();
}
