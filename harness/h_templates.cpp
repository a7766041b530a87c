// P18: uploading and deleting of user templates. All file operations of the service go through the hooks below, so every point
// of a crash or of a power loss and every failure of an operation can be explored
#include "mc.h"
#include "confed_device_schemas_map.h"
#include "log.h"
#include "rpc/rpc_exception.h"
#include "rpc/rpc_templates_handler.h"
#include "serial_config.h"
#include "templates_map.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <set>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <stdarg.h>
#include <string.h>

namespace fs = std::filesystem;

namespace
{
    struct Disk
    {
        std::map<std::string, std::string> files; // of the user's directory
        std::set<std::string> unsynced;           // their contents may be lost when the power goes off
    };
    std::string root; // scratch directory
    bool hooked = false;
    std::set<ino_t> dirty;
    std::vector<Disk> points;
    std::vector<std::pair<char, std::string>> events; // what the watcher of the directory sees
    bool failing = false;
    int failed = 0;
    std::string failedOp;

    std::string readAll(const std::string& p)
    {
        std::ifstream f(p);
        std::stringstream ss;
        ss << f.rdbuf();
        return ss.str();
    }
    ino_t inode(const std::string& p)
    {
        struct stat st;
        return ::stat(p.c_str(), &st) ? 0 : st.st_ino;
    }
    Disk disk()
    {
        Disk d;
        if (fs::exists(root + "/user")) {
            for (auto& e: fs::directory_iterator(root + "/user")) {
                auto n = e.path().filename().string();
                d.files[n] = readAll(e.path().string());
                if (dirty.count(inode(e.path().string()))) {
                    d.unsynced.insert(n);
                }
            }
        }
        return d;
    }
    bool ours(const char* p)
    {
        return hooked && p && std::string(p).rfind(root, 0) == 0;
    }
    std::string fdPath(int fd)
    {
        char b[1000];
        auto n = ::readlink(mc::str("/proc/self/fd/", fd).c_str(), b, sizeof(b));
        return n > 0 ? std::string(b, n) : "";
    }
    //! Called before an operation. True if it has to fail
    bool op(const std::string& what)
    {
        hooked = false;
        points.push_back(disk());
        bool f = failing && mc::deviate(2, "an operation fails");
        if (f) {
            ++failed;
            failedOp = what;
            if (mc::tracing()) {
                mc::note("fails: " + what);
            }
        }
        hooked = true;
        return f;
    }
    void event(char type, const std::string& path)
    {
        events.emplace_back(type, path);
    }
    template<class F> F real(const char* name)
    {
        return (F)dlsym(RTLD_NEXT, name);
    }
}

#define REAL(name, ...) static auto f = real<decltype(&::name)>(#name); return f(__VA_ARGS__)

extern "C" {
FILE* fopen(const char* p, const char* m)
{
    if (ours(p) && m[0] != 'r' && op(mc::str("opening of ", p))) {
        errno = ENOSPC;
        return nullptr;
    }
    REAL(fopen, p, m);
}
FILE* fopen64(const char* p, const char* m)
{
    if (ours(p) && m[0] != 'r' && op(mc::str("opening of ", p))) {
        errno = ENOSPC;
        return nullptr;
    }
    REAL(fopen64, p, m);
}
int open(const char* p, int flags, ...)
{
    va_list va;
    va_start(va, flags);
    int mode = va_arg(va, int);
    va_end(va);
    if (ours(p) && (flags & (O_CREAT | O_TRUNC)) && op(mc::str("opening of ", p))) {
        errno = ENOSPC;
        return -1;
    }
    REAL(open, p, flags, mode);
}
int open64(const char* p, int flags, ...)
{
    va_list va;
    va_start(va, flags);
    int mode = va_arg(va, int);
    va_end(va);
    if (ours(p) && (flags & (O_CREAT | O_TRUNC)) && op(mc::str("opening of ", p))) {
        errno = ENOSPC;
        return -1;
    }
    REAL(open64, p, flags, mode);
}
ssize_t write(int fd, const void* b, size_t n)
{
    static auto f = real<ssize_t (*)(int, const void*, size_t)>("write");
    auto p = hooked ? fdPath(fd) : std::string();
    if (!ours(p.c_str())) {
        return f(fd, b, n);
    }
    struct stat st;
    fstat(fd, &st);
    dirty.insert(st.st_ino);
    size_t done = 0;
    for (size_t part: {size_t(1), n / 2, n}) {
        if (part <= done || part > n) {
            continue;
        }
        if (op(mc::str("writing to ", p))) {
            if (done) {
                return done;
            }
            errno = ENOSPC;
            return -1;
        }
        auto r = f(fd, (const char*)b + done, part - done);
        if (r < 0) {
            return r;
        }
        done += r;
    }
    return done;
}
ssize_t writev(int fd, const struct iovec* iov, int cnt)
{
    auto p = hooked ? fdPath(fd) : std::string();
    if (!ours(p.c_str())) {
        REAL(writev, fd, iov, cnt);
    }
    std::string all;
    for (int i = 0; i < cnt; ++i) {
        all.append((const char*)iov[i].iov_base, iov[i].iov_len);
    }
    return write(fd, all.data(), all.size());
}
int fclose(FILE* file)
{
    auto p = hooked ? fdPath(fileno(file)) : std::string();
    bool w = ours(p.c_str()) && (fcntl(fileno(file), F_GETFL) & O_ACCMODE) != O_RDONLY;
    if (w) {
        struct stat st;
        fstat(fileno(file), &st);
        dirty.insert(st.st_ino);
        op(mc::str("closing of ", p));
    }
    static auto f = real<int (*)(FILE*)>("fclose");
    auto r = f(file);
    if (w) {
        event('w', p);
    }
    return r;
}
static int sync_(int fd, const char* name)
{
    auto p = hooked ? fdPath(fd) : std::string();
    if (ours(p.c_str())) {
        if (op(mc::str("fsync of ", p))) {
            errno = EIO;
            return -1;
        }
        struct stat st;
        fstat(fd, &st);
        dirty.erase(st.st_ino);
        mc::cover("synced");
    }
    return 0;
}
int fsync(int fd)
{
    return sync_(fd, "fsync");
}
int fdatasync(int fd)
{
    return sync_(fd, "fdatasync");
}
int rename(const char* a, const char* b)
{
    if (ours(a) || ours(b)) {
        if (op(mc::str("renaming of ", a, " to ", b))) {
            errno = EIO;
            return -1;
        }
        event('d', a);
        event('w', b);
    }
    REAL(rename, a, b);
}
static bool removing(const char* p)
{
    if (ours(p)) {
        if (op(mc::str("removing of ", p))) {
            errno = EPERM;
            return true;
        }
        hooked = false;
        if (!::access(p, F_OK)) {
            event('d', p);
        }
        hooked = true;
    }
    return false;
}
int remove(const char* p)
{
    if (removing(p)) {
        return -1;
    }
    REAL(remove, p);
}
int unlink(const char* p)
{
    if (removing(p)) {
        return -1;
    }
    REAL(unlink, p);
}
int unlinkat(int fd, const char* p, int flags)
{
    if (removing(p)) {
        return -1;
    }
    REAL(unlinkat, fd, p, flags);
}
}

namespace
{
    Json::Value parse(const std::string& s)
    {
        Json::Value r;
        std::string e;
        Json::CharReaderBuilder b;
        std::unique_ptr<Json::CharReader> rd(b.newCharReader());
        if (!rd->parse(s.data(), s.data() + s.size(), &r, &e)) {
            throw std::runtime_error(e);
        }
        return r;
    }
    std::string dump(const Json::Value& v)
    {
        Json::StreamWriterBuilder b;
        b["indentation"] = "";
        return Json::writeString(b, v);
    }
    std::string repo()
    {
        auto p = getenv("VERIF_REPO");
        return p ? p : "/repo";
    }

    std::string contents(const std::string& type, int version)
    {
        auto group = version % 3 == 0 ? "" : version % 3 == 1 ? R"("group":"g-relay",)" : R"("group":"g-mine",)";
        return mc::str(R"({"device_type":")", type, R"(",)", group, R"("title":"title )", version, R"(","device":{"name":"D)", version, R"(","id":"d","channels":[{"name":"C)", version,
                       R"(","reg_type":"input","address":)", version, R"(,"condition":"p==1"}],"parameters":{"p":{"title":"P","address":1}},"translations":{"ru":{"title )", version, R"(":"название )", version, R"("}}}})");
    }
    struct Bad
    {
        const char* name;
        std::string text;
    };
    std::vector<Bad> bads(const std::string& type)
    {
        auto good = parse(contents(type, 1));
        std::vector<Bad> res{{"not JSON", R"({"device_type":"A","device":)"}, {"an array", "[1]"}, {"a number", "5"}, {"empty object", "{}"}};
        auto add = [&](const char* name, std::function<void(Json::Value&)> f) {
            auto v = good;
            f(v);
            res.push_back({name, dump(v)});
        };
        add("no device_type", [](auto& v) { v.removeMember("device_type"); });
        add("empty device_type", [](auto& v) { v["device_type"] = ""; });
        add("device_type is a number", [](auto& v) { v["device_type"] = 5; });
        add("no device", [](auto& v) { v.removeMember("device"); });
        add("device is a string", [](auto& v) { v["device"] = "x"; });
        add("deprecated", [](auto& v) { v["deprecated"] = true; });
        add("unknown protocol", [](auto& v) { v["device"]["protocol"] = "none"; });
        add("bad register type", [](auto& v) { v["device"]["channels"][0]["reg_type"] = 5; });
        add("no name of a channel", [](auto& v) { v["device"]["channels"][0].removeMember("name"); });
        add("bad condition of a channel", [](auto& v) { v["device"]["channels"][0]["condition"] = "p=="; });
        add("bad condition of a parameter", [](auto& v) { v["device"]["parameters"]["p"]["condition"] = "(p"; });
        add("bad condition of a setup item", [](auto& v) {
            v["device"]["setup"][0]["title"] = "s";
            v["device"]["setup"][0]["address"] = 1;
            v["device"]["setup"][0]["value"] = 1;
            v["device"]["setup"][0]["condition"] = "1+";
        });
        add("parameters with different addresses", [](auto& v) {
            auto& ps = v["device"]["parameters"] = Json::Value(Json::arrayValue);
            for (int i = 0; i < 2; ++i) {
                ps[i]["id"] = "p";
                ps[i]["title"] = "P";
                ps[i]["address"] = i;
            }
        });
        add("parameters with different versions of firmware", [](auto& v) {
            auto& ps = v["device"]["parameters"] = Json::Value(Json::arrayValue);
            for (int i = 0; i < 2; ++i) {
                ps[i]["id"] = "p";
                ps[i]["title"] = "P";
                ps[i]["address"] = 1;
                if (i) {
                    ps[i]["fw"] = "1.2.3";
                }
            }
        });
        add("bits of another width in write_address", [](auto& v) {
            v["device"]["channels"][0]["reg_type"] = "holding";
            v["device"]["channels"][0]["address"] = "1:0:4";
            v["device"]["channels"][0]["write_address"] = "2:0:5";
        });
        auto sub = [](auto& v, std::vector<std::pair<std::string, std::string>> types) {
            v["device"].removeMember("parameters");
            v["device"]["channels"] = Json::Value(Json::arrayValue);
            v["device"]["channels"][0]["name"] = "S";
            v["device"]["channels"][0]["device_type"] = "s1";
            auto& s = v["device"]["subdevices"] = Json::Value(Json::arrayValue);
            for (auto& t: types) {
                Json::Value d;
                d["device_type"] = t.first;
                d["title"] = t.first;
                d["device"]["channels"] = Json::Value(Json::arrayValue);
                if (!t.second.empty()) {
                    d["device"]["channels"][0]["name"] = "X";
                    d["device"]["channels"][0]["device_type"] = t.second;
                } else {
                    d["device"]["channels"][0]["name"] = "R";
                    d["device"]["channels"][0]["reg_type"] = "input";
                    d["device"]["channels"][0]["address"] = 1;
                }
                s.append(d);
            }
        };
        add("unknown subdevice", [&](auto& v) { sub(v, {{"s2", ""}}); });
        add("unknown subdevice of a subdevice", [&](auto& v) { sub(v, {{"s1", "s3"}}); });
        add("cyclic subdevices", [&](auto& v) { sub(v, {{"s1", "s2"}, {"s2", "s1"}}); });
        add("translations are strings", [](auto& v) { v["device"]["translations"]["ru"] = "x"; });
        add("translation is an array", [](auto& v) { v["device"]["translations"]["ru"]["title 1"] = Json::Value(Json::arrayValue); });
        add("bad hw", [](auto& v) { v["hw"][0]["signature"] = 5; });
        add("id is an array", [](auto& v) { v["device"]["id"] = Json::Value(Json::arrayValue); });
        add("group is an array", [](auto& v) { v["group"] = Json::Value(Json::arrayValue); });
        // These are good
        add("subdevices", [&](auto& v) { sub(v, {{"s1", "s2"}, {"s2", ""}}); });
        add("numbers in enum of a channel", [](auto& v) {
            v["device"]["channels"][0]["enum"][0] = 1;
            v["device"]["channels"][0]["enum"][1] = 2;
        });
        add("hw", [](auto& v) { v["hw"][0]["signature"] = "S"; });
        add("no group", [](auto& v) { v.removeMember("group"); });
        add("not deprecated", [](auto& v) { v["deprecated"] = false; });
        res.push_back({"comments", "// comment\n" + dump(good) + "\n"});
        return res;
    }

    Json::Value common, schema, groups, noCommon{Json::objectValue};
    TSerialDeviceFactory* factory = nullptr;
    const std::vector<std::string> TYPES = {"A", "B", "C"};

    //! A running service
    struct Service
    {
        PTemplateMap templates;
        std::unique_ptr<TDevicesConfedSchemasMap> schemas;
        std::unique_ptr<TRPCTemplatesHandler> handler;
        explicit Service(bool full = true)
        {
            templates = std::make_shared<TTemplateMap>(full ? schema : Json::Value(Json::objectValue), root + "/user");
            templates->AddTemplatesDir(root + "/stock");
            templates->AddTemplatesDir(root + "/user");
            schemas = std::make_unique<TDevicesConfedSchemasMap>(*templates, *factory, noCommon);
            if (full) {
                handler = std::make_unique<TRPCTemplatesHandler>(root + "/user", root + "/config.json", templates, *schemas, groups,
                                                                 repo() + "/wb-mqtt-serial-rpc-templates-upload-request.schema.json",
                                                                 repo() + "/wb-mqtt-serial-rpc-templates-delete-request.schema.json");
            }
        }
        //! The same what main.cpp does
        void watch(char type, const std::string& path)
        {
            try {
                if (type == 'w') {
                    for (const auto& t: templates->UpdateTemplate(path)) {
                        schemas->InvalidateCache(t);
                    }
                } else {
                    schemas->InvalidateCache(templates->DeleteTemplate(path));
                }
            } catch (const std::exception&) {
            }
        }
        //! What describes a type. Empty if nothing does
        std::string effective(const std::string& type)
        {
            try {
                auto t = templates->GetTemplate(type);
                t->GetTemplate();
                return t->GetFilePath().substr(root.size()) + "|" + t->GetTitle("ru") + "|" + t->GetGroup() + "|" + (t->IsUserDefined() ? "user" : "stock") + "|" +
                       dump(t->GetTemplate());
            } catch (const std::out_of_range&) {
                return "";
            } catch (const std::exception& e) {
                return mc::str("unusable: ", e.what());
            }
        }
        std::string editor(const std::string& type)
        {
            try {
                return mc::str(mc::hash(dump(*schemas->GetSchema(type))));
            } catch (const std::exception& e) {
                return "none";
            }
        }
        std::string list()
        {
            std::set<std::string> s;
            for (auto& t: templates->GetTemplates()) {
                s.insert(t->Type);
            }
            std::string r;
            for (auto& x: s) {
                r += x + ",";
            }
            return r;
        }
    };

    void put(const std::string& name, const std::string& text)
    {
        std::ofstream(root + "/" + name) << text;
    }

    struct Scratch
    {
        Scratch()
        {
            hooked = failing = false;
            failed = 0;
            dirty.clear();
            points.clear();
            events.clear();
            char t[] = "/dev/shm/verif-templates-XXXXXX", t2[] = "/tmp/verif-templates-XXXXXX";
            auto p = mkdtemp(t);
            root = p ? p : mkdtemp(t2);
            for (auto d: {"/stock", "/user", "/other"}) {
                fs::create_directory(root + d);
            }
            put("stock/config-a.json", contents("A", 1));
            put("stock/config-b.json", contents("B", 2));
            put("other/guard.json", "guard");
            put("config.json", R"({"ports":[{"path":"/x","devices":[{"device_type":"Z"}]},{"path":"/y","devices":[{"slave_id":1},{"device_type":"A","slave_id":5,"enabled":false}]}]})");
        }
        ~Scratch()
        {
            hooked = false;
            fs::remove_all(root);
        }
    };

    std::string sanitized(const std::string& name)
    {
        auto p = name.rfind('/');
        auto n = p == std::string::npos ? name : name.substr(p + 1);
        for (auto& c: n) {
            if (!isalnum((unsigned char)c) && c != '.' && c != '_' && c != '-') {
                c = '_';
            }
        }
        if (n.size() < 5 || n.substr(n.size() - 5) != ".json") {
            n += ".json";
        }
        return n;
    }

    std::string others()
    {
        std::string r;
        for (auto d: {"/stock", "/other", ""}) {
            std::map<std::string, std::string> m;
            for (auto& e: fs::directory_iterator(root + d)) {
                if (e.is_regular_file()) {
                    m[e.path().filename()] = readAll(e.path());
                } else {
                    m[e.path().filename()] = "dir";
                }
            }
            for (auto& x: m) {
                r += x.first + "=" + x.second + ";";
            }
        }
        return r;
    }
    std::string typeOf(const std::string& text)
    {
        try {
            return parse(text)["device_type"].asString();
        } catch (const std::exception&) {
            return "";
        }
    }
    std::string names(const std::map<std::string, std::string>& files)
    {
        std::string r;
        for (auto& f: files) {
            r += mc::str(r.empty() ? "" : ", ", f.first, " (", typeOf(f.second), ")");
        }
        return "{" + r + "}";
    }

    enum Verdict
    {
        ACCEPTED,
        REJECTED,
        IN_USE
    };

    //! Contents of memory is the same as after a restart
    void checkConsistent(Service& s, const std::string& what)
    {
        Service fresh(false);
        MC_CHECK(s.list() == fresh.list(), "list", what, "types are ", s.list(), " after a restart ", fresh.list());
        std::map<std::string, int> count;
        for (auto& f: disk().files) {
            ++count[typeOf(f.second)];
        }
        for (auto& t: TYPES) {
            MC_CHECK(s.editor(t) == Service(false).editor(t) || count[t] > 1, "schema", what, "the schema of the editor for ", t, " isn't for its template");
            if (count[t] < 2) {
                auto a = s.effective(t), b = fresh.effective(t);
                MC_CHECK(a == b, "restart", what, t, " is described by ", a.substr(0, 60), " and after a restart by ", b.substr(0, 60));
            }
            if (t != "C") {
                MC_CHECK(!s.effective(t).empty(), "stock-lost", what, "the type ", t, " has disappeared");
            }
        }
    }

    Json::Value expectedResponse(const std::string& type, const std::string& text, bool user, const std::string& lang)
    {
        auto v = parse(text);
        Json::Value t;
        auto title = v["title"].asString();
        auto tr = v["device"]["translations"][lang][title].asString();
        t["name"] = tr.empty() ? title : tr;
        t["type"] = type;
        t["deprecated"] = false;
        t["protocol"] = "modbus";
        t["mqtt-id"] = "d";
        t["with-subdevices"] = false;
        if (user) {
            t["user-defined"] = true;
        }
        Json::Value g;
        auto group = v.get("group", "g-custom").asString();
        auto gt = groups[lang][group].asString();
        g["name"] = gt.empty() ? group : gt;
        g["types"].append(t);
        Json::Value r;
        r["types"].append(g);
        return r;
    }

    //! Runs a request
    Verdict request(Service& s, const char* method, const Json::Value& rq, Json::Value& response, std::string& error)
    {
        Verdict v = ACCEPTED;
        points.clear();
        hooked = true;
        try {
            response = method[0] == 'U' ? s.handler->UploadTemplate(rq) : s.handler->DeleteTemplate(rq);
        } catch (const std::exception& e) {
            error = e.what();
            v = error == "template-in-use" ? IN_USE : REJECTED;
        }
        hooked = false;
        points.push_back(disk());
        return v;
    }

    void deliver(Service& s)
    {
        auto es = std::move(events);
        events.clear();
        for (auto& e: es) {
            if (e.second.rfind(root + "/user/", 0) == 0) {
                s.watch(e.first, e.second);
            }
        }
    }

    //! After a crash every type is described by one of the earlier and the new templates
    void checkCrashes(const std::set<std::string>& before, const std::set<std::string>& after, const std::string& type, const std::string& what)
    {
        auto saved = disk();
        auto others0 = others();
        size_t n = 0;
        for (auto& p: points) {
            ++n;
            for (int lost = 0; lost < (p.unsynced.empty() ? 1 : 3); ++lost) {
                for (auto& e: fs::directory_iterator(root + "/user")) {
                    fs::remove(e.path());
                }
                for (auto& f: p.files) {
                    auto text = f.second;
                    if (lost && p.unsynced.count(f.first)) {
                        text = lost == 1 ? "" : text.substr(0, text.size() / 2);
                    }
                    put("user/" + f.first, text);
                }
                Service s(false);
                auto e = s.effective(type);
                // Without the name of the file
                e = e.empty() ? e : e.substr(e.find('|') + 1);
                MC_CHECK(before.count(e) || after.count(e), lost ? "power-loss" : "crash", what, lost ? "after a power loss" : "after a crash", " at step ", n, " of ", points.size(), " files ", names(p.files), ": the type ", type, " is described by '", e.substr(0, 60), "'");
                mc::cover(lost ? "power loss" : "crash");
                mc::transition();
            }
        }
        for (auto& e: fs::directory_iterator(root + "/user")) {
            fs::remove(e.path());
        }
        for (auto& f: saved.files) {
            put("user/" + f.first, f.second);
        }
        (void)others0;
    }
    std::string noFile(std::string e)
    {
        return e.empty() ? e : e.substr(e.find('|') + 1);
    }

    void history()
    {
        Scratch scratch;
        auto s = std::make_unique<Service>();
        std::string done;
        int mode = mc::choose(3, "crashes or failures in the last request");
        bool crashes = mode == 1;
        int depth = mc::choose(mc::thorough() ? (mode ? 3 : 4) : (mode ? 2 : 3), "requests before the last one") + 1;
        int version = 3;
        for (int step = 0; step < depth; ++step) {
            bool last = step + 1 == depth;
            enum
            {
                UPLOAD,
                DELETE_,
                PUT,
                REMOVE,
                MOVE,
                RESTART,
                BREAK,
                OPS
            };
            int o = mc::choose(last ? 2 : OPS, "operation");
            auto type = o == RESTART || o == REMOVE || o == MOVE || o == BREAK ? "C" : TYPES[o == PUT ? mc::choose(2, "type") + 1 : mc::choose(3, "type")];
            static const char* FILES[] = {"f.json", "b.json"};
            int file = o == DELETE_ || o == RESTART ? 0 : mc::choose(2, "file");
            auto text = contents(type, ++version);
            auto before = disk();
            auto others0 = others();
            for (auto& t: TYPES) {
                s->editor(t); // they are cached
            }
            if (o == UPLOAD || o == DELETE_) {
                bool force = type == "A" && mc::choose(2, "force");
                std::string lang = version % 2 ? "ru" : "en";
                auto what = mc::str(done, o == UPLOAD ? "upload of " : "deletion of ", type, o == UPLOAD ? mc::str(" to ", FILES[file]) : "", force ? ", forced" : "", ": ");
                std::string effective0 = s->effective(type);
                std::string state0;
                for (auto& t: TYPES) {
                    state0 += s->effective(t) + ";" + s->editor(t) + ";";
                }
                int owners = 0;
                for (auto& f: before.files) {
                    owners += typeOf(f.second) == type;
                }
                failing = last && mode == 2;
                failed = 0;
                Json::Value rq, response;
                std::string error;
                rq["lang"] = lang;
                if (force) {
                    rq["force"] = true;
                }
                if (o == UPLOAD) {
                    rq["content"] = text;
                    rq["filename"] = FILES[file];
                } else {
                    rq["type"] = type;
                }
                auto v = request(*s, o == UPLOAD ? "Upload" : "Delete", rq, response, error);
                failing = false;
                auto now = disk();
                auto p = points;
                bool inUse = type == "A" && !force;
                MC_CHECK(others() == others0, "foreign-files", what, "files outside of the user's directory are changed");
                bool possible = o == UPLOAD ? !inUse : owners && !inUse;
                if (v != ACCEPTED) {
                    MC_CHECK(!possible || failed, "refused", what, "refused: ", error);
                    MC_CHECK(now.files == before.files, "refused-changed", what, "refused with '", error, "', but files are ", names(now.files), " instead of ", names(before.files), failed ? " (failed: " + failedOp + ")" : "");
                    std::string state1;
                    for (auto& t: TYPES) {
                        state1 += s->effective(t) + ";" + s->editor(t) + ";";
                    }
                    MC_CHECK(state1 == state0, "refused-memory", what, "refused, but templates are changed", failed ? " (failed: " + failedOp + ")" : "");
                    MC_CHECK((v == IN_USE) == (inUse && (o == UPLOAD || owners)) || failed, "in-use", what, "error is '", error, "'");
                    if (failed) {
                        mc::cover("failed operation");
                    }
                } else {
                    mc::nontrivial();
                    MC_CHECK(possible, "accepted", what, "accepted");
                    if (o == UPLOAD) {
                        int count = 0;
                        std::string where;
                        for (auto& f: now.files) {
                            if (typeOf(f.second) == type) {
                                ++count;
                                where = f.first;
                                MC_CHECK(f.second == text || failed, "old-kept", what, "there is another file of the type: ", names(now.files));
                            } else {
                                MC_CHECK(before.files.count(f.first) && before.files[f.first] == f.second, "foreign-changed", what, "file ", f.first, " is changed");
                            }
                        }
                        for (auto& f: before.files) {
                            MC_CHECK(typeOf(f.second) == type || now.files.count(f.first), "foreign-removed", what, "file ", f.first, " of another type is removed");
                        }
                        MC_CHECK(count == 1 || (failed && count > 1), "one-file", what, "files ", names(now.files), " after files ", names(before.files));
                        if (count == 1 && !failed) {
                            std::string f = FILES[file], stem = f.substr(0, f.size() - 5);
                            int n = 0;
                            while (before.files.count(f) && typeOf(before.files[f]) != type) {
                                f = mc::str(stem, "-", ++n, ".json");
                            }
                            MC_CHECK(where == f, "file-name", what, "the file is ", where, " instead of ", f);
                            if (n) {
                                mc::cover("name is taken");
                            }
                        }
                        auto e = s->effective(type);
                        MC_CHECK(e == mc::str("/user/", where, "|", lang == "?" ? "" : "название ", version, "|", parse(text).get("group", "").asString(), "|user|", e.substr(e.rfind("|user|") + 6)) || failed, "effective", what, "described by ", e.substr(0, 80));
                        MC_CHECK(response == expectedResponse(type, text, true, lang), "response", what, dump(response));
                    } else {
                        int left = 0;
                        for (auto& f: before.files) {
                            left += now.files.count(f.first) && now.files[f.first] == f.second;
                        }
                        MC_CHECK(now.files.size() == before.files.size() - 1 && left == (int)now.files.size(), "deleted", what, "files ", names(now.files), " instead of ", names(before.files));
                        int ownersNow = 0;
                        for (auto& f: now.files) {
                            ownersNow += typeOf(f.second) == type;
                        }
                        MC_CHECK(ownersNow == owners - 1, "deleted-type", what, "files ", names(now.files), " after ", names(before.files));
                        if (owners == 1) {
                            auto e = s->effective(type);
                            if (type == "C") {
                                MC_CHECK(e.empty() && response["types"].isArray() && response["types"].empty(), "deleted-response", what, dump(response), e);
                            } else {
                                MC_CHECK(response == expectedResponse(type, contents(type, type == "A" ? 1 : 2), false, lang), "deleted-response", what, dump(response));
                                MC_CHECK(e.find("/stock/") == 0, "deleted-effective", what, e.substr(0, 60));
                                mc::cover("back to the shipped template");
                            }
                        }
                    }
                }
                if (!failed) {
                    checkConsistent(*s, what);
                }
                if (last && crashes) {
                    auto after = noFile(s->effective(type));
                    points = p;
                    if (owners < 2) {
                        checkCrashes({noFile(effective0)}, {after}, type, what);
                    } else {
                        // any of them may become the effective one
                        std::set<std::string> any{noFile(effective0)};
                        for (auto& f: before.files) {
                            for (auto& e: fs::directory_iterator(root + "/user")) {
                                fs::remove(e.path());
                            }
                            put("user/" + f.first, f.second);
                            any.insert(noFile(Service(false).effective(type)));
                        }
                        checkCrashes(any, {after}, type, what);
                    }
                    return;
                }
                if (last) {
                    return;
                }
                done = what.substr(0, what.size() - 2) + ", ";
                // The watcher tells about these changes
                if (mc::choose(2, "the watcher is late")) {
                    continue; // at the next step
                }
                deliver(*s);
                if (!failed) {
                    checkConsistent(*s, what + "the watcher: ");
                }
            } else {
                // Files are changed by hand
                events.clear(); // of the service itself
                auto path = root + "/user/" + FILES[file];
                switch (o) {
                    case PUT:
                        put(std::string("user/") + FILES[file], text);
                        s->watch('w', path);
                        done += mc::str("file ", FILES[file], " of ", type, ", ");
                        break;
                    case BREAK:
                        put(std::string("user/") + FILES[file], "{broken");
                        s->watch('w', path);
                        done += mc::str("broken file ", FILES[file], ", ");
                        break;
                    case REMOVE:
                        if (!before.files.count(FILES[file])) {
                            return;
                        }
                        fs::remove(path);
                        s->watch('d', path);
                        done += mc::str("file ", FILES[file], " is removed, ");
                        break;
                    case MOVE:
                        if (!before.files.count(FILES[file])) {
                            return;
                        }
                        fs::rename(path, root + "/user/m.json");
                        s->watch('d', path);
                        s->watch('w', root + "/user/m.json");
                        done += mc::str("file ", FILES[file], " is renamed, ");
                        break;
                    case RESTART:
                        s = std::make_unique<Service>();
                        done += "restart, ";
                        break;
                }
                checkConsistent(*s, done);
                mc::cover("by hand");
            }
        }
    }

    //! Uploads are accepted when a file with the same contents can be used
    void invalid()
    {
        auto type = TYPES[mc::choose(3, "type")];
        auto all = bads(type);
        auto& b = all[mc::choose(all.size(), "contents")];
        bool had = mc::choose(2, "there is an earlier template");
        bool same = mc::choose(2, "to the same file");
        Scratch scratch;
        if (had) {
            put("user/f.json", contents(type, 7));
        }
        Service s;
        s.editor(type);
        auto before = disk();
        auto e0 = s.effective(type), ed0 = s.editor(type);
        Json::Value rq, response;
        std::string error;
        rq["content"] = b.text;
        rq["filename"] = same ? "f.json" : "n.json";
        rq["force"] = true;
        auto v = request(s, "Upload", rq, response, error);
        // What would be with such a file on the disk
        bool usable = false;
        {
            Scratch* keep = nullptr;
            (void)keep;
            fs::create_directory(root + "/try");
            put("try/x.json", b.text);
            try {
                auto m = std::make_shared<TTemplateMap>(schema, root + "/try");
                m->AddTemplatesDir(root + "/try", false);
                TDevicesConfedSchemasMap sm(*m, *factory, common);
                auto root = parse(b.text);
                m->GetTemplate(root["device_type"].asString())->GetTemplate();
                sm.GetSchema(root["device_type"].asString());
                usable = !root.get("deprecated", false).asBool() && !root["device_type"].asString().empty() && root["device_type"].isString();
            } catch (const std::exception&) {
            }
        }
        auto what = mc::str("upload of ", type, " (", b.name, ")", had ? " with an earlier template" : "", same ? " to the same file" : "", ": ");
        MC_CHECK((v == ACCEPTED) == usable, usable ? "usable-refused" : "unusable-accepted", what, usable ? "such a template can be used" : "such a template can't be used", ", but it is ", v == ACCEPTED ? "accepted" : "refused: " + error);
        auto now = disk();
        if (v != ACCEPTED) {
            MC_CHECK(now.files == before.files, "invalid-changed", what, "files are ", names(now.files), " instead of ", names(before.files));
            MC_CHECK(s.effective(type) == e0 && s.editor(type) == ed0, "invalid-memory", what, "the template is changed");
            MC_CHECK(points.size() == 1, "invalid-touched", what, "there are file operations");
            mc::cover("refused");
            mc::nontrivial();
        } else {
            mc::cover("accepted");
            checkConsistent(s, what);
        }
        mc::outcome(mc::hash(what + error));
    }

    void fileNames()
    {
        static const std::vector<std::string> LIST = {"f.json", "f", "../f.json", "../other/guard.json", "/etc/passwd", "dir/sub/f.json", "..", ".", "../..", "dir/", "/", ".json", "a b.json", "\xD1\x84.json",
                                                      "f.json.tmp", "F.JSON", "f.json/../g.json", "f\\g.json", "f\n.json", "-rf", "f.jsonx", "$(x).json", std::string("f\0g.json", 8), "..json", "f.json.", "...", "xjson", "x.json.json"};
        size_t i = mc::choose(LIST.size() + 3, "name");
        auto name = i < LIST.size() ? LIST[i] : std::string(i == LIST.size() ? 240 : i == LIST.size() + 1 ? 249 : 300, 'x') + ".json";
        bool taken = mc::choose(2, "such a file exists");
        Scratch scratch;
        auto expected = sanitized(name);
        if (taken) {
            std::error_code ec;
            put("user/" + expected, contents("B", 5));
        }
        Service s;
        auto before = disk();
        auto others0 = others();
        Json::Value rq, response;
        std::string error;
        rq["content"] = contents("C", 4);
        rq["filename"] = Json::Value(name.data(), name.data() + name.size());
        auto v = request(s, "Upload", rq, response, error);
        auto now = disk();
        auto what = mc::str("upload with the name '", name.substr(0, 40), "': ");
        MC_CHECK(others() == others0, "outside", what, "files outside of the user's directory are changed");
        MC_CHECK(now.files.size() == before.files.size() + (v == ACCEPTED), "name-files", what, names(now.files));
        for (auto& f: before.files) {
            MC_CHECK(now.files[f.first] == f.second, "name-foreign", what, "a file of another type is changed");
        }
        bool can = expected != ".json" && expected.size() < 250;
        MC_CHECK((v == ACCEPTED) == can || expected.size() > 240, "name-accepted", what, error);
        if (v == ACCEPTED) {
            auto f = before.files.count(expected) ? expected.substr(0, expected.size() - 5) + "-1.json" : expected;
            MC_CHECK(now.files.count(f), "name", what, names(now.files), " instead of ", f);
            mc::nontrivial();
            mc::cover("names");
        }
        checkConsistent(s, what);
        mc::outcome(mc::hash(what));
    }

    //! A type is in use when a device of the configuration has it
    void inUse()
    {
        static const std::vector<std::pair<std::string, bool>> CONFIGS = {
            {R"({"ports":[{"devices":[{"device_type":"A"}]}]})", true},
            {R"({"ports":[{"devices":[{"device_type":"B"}]}]})", false},
            {R"({"ports":[{"devices":[{"device_type":"A","enabled":false}]}]})", true},
            {R"({"ports":[{"enabled":false,"devices":[{"device_type":"A"}]}]})", true},
            {R"({"ports":[{"devices":[]},{"port_type":"tcp","devices":[{"slave_id":1},{"device_type":"B"},{"device_type":"A"}]}]})", true},
            {R"({"ports":[{"devices":[{"device_type":"A1"},{"device_type":"a"}]}]})", false},
            {R"({"ports":[{"devices":[{"device_type":5}]}]})", false},
            {R"({"ports":[{"devices":[{"id":"A","name":"A"}]}]})", false},
            {R"({"ports":[]})", false},
            {R"({})", false},
            {R"({"ports":)", false},
            {"", false}};
        auto& c = CONFIGS[mc::choose(CONFIGS.size(), "config")];
        int force = mc::choose(3, "force");
        bool del = mc::choose(2, "deletion");
        Scratch scratch;
        put("config.json", c.first);
        if (c.first.empty()) {
            fs::remove(root + "/config.json");
        }
        put("user/f.json", contents("A", 5));
        Service s;
        Json::Value rq, response;
        if (force) {
            rq["force"] = force == 2;
        }
        std::string error;
        if (del) {
            rq["type"] = "A";
        } else {
            rq["filename"] = "f.json";
            rq["content"] = contents("A", 6);
        }
        auto before = disk();
        auto v = request(s, del ? "Delete" : "Upload", rq, response, error);
        auto what = mc::str(del ? "deletion" : "upload", " with the config ", c.first, force == 2 ? ", forced: " : ": ");
        MC_CHECK((v == IN_USE) == (c.second && force != 2) && v != REJECTED, "use", what, "'", error, "'");
        MC_CHECK((disk().files == before.files) == (v == IN_USE), "use-files", what, names(disk().files));
        mc::cover(v == IN_USE ? "in use" : "not in use");
        mc::nontrivial();
        mc::outcome(mc::hash(what));
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    Error.SetEnabled(getenv("VERIF_LOG"));
    Warn.SetEnabled(getenv("VERIF_LOG"));
    ::Info.SetEnabled(false);
    common = WBMQTT::JSON::Parse(repo() + "/wb-mqtt-serial-confed-common.schema.json");
    schema = LoadConfigTemplatesSchema(repo() + "/wb-mqtt-serial-device-template.schema.json", common);
    groups = WBMQTT::JSON::Parse(repo() + "/groups.json");
    TSerialDeviceFactory f;
    RegisterProtocols(f);
    factory = &f;
    auto run = [](const char* name, void (*body)(), int bound, std::vector<std::string> cover) {
        mc::Options o;
        o.name = name;
        o.bound = bound;
        o.seconds = 100;
        o.shardDepth = 4;
        o.mustCover = cover;
        mc::explore(o, body);
    };
    run("requests", history, mc::thorough() ? 2 : 1, {"crash", "failed operation", "name is taken", "back to the shipped template", "by hand"});
    run("contents", invalid, 0, {"refused", "accepted"});
    run("names", fileNames, 0, {"names"});
    run("in use", inUse, 0, {"in use", "not in use"});
    return mc::finish();
}
