// A whole serial port in virtual time: the real service code from MQTT down to TPort, a simulated bus and Modbus slaves
#pragma once
#include "bin_utils.h"
#include "crc16.h"
#include "mc.h"
#include "modbus_common.h"
#include "port/feature_port.h"
#include "rpc/rpc_config.h"
#include "serial_client.h"
#include "serial_config.h"
#include "serial_device.h"
#include "serial_port_driver.h"
#include "templates_map.h"
#include <algorithm>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>
#include <wblib/driver.h>
#include <wblib/json_utils.h>

namespace sim
{
    using bytes = std::vector<uint8_t>;
    using std::chrono::microseconds;
    using std::chrono::milliseconds;
    const int64_t MS = 1000, SEC = 1000000;

    struct ExecutionEnd
    {}; // thrown to leave an execution after a fatal violation

    inline std::string hex(const bytes& b)
    {
        std::string s;
        char buf[4];
        for (auto c: b) {
            snprintf(buf, sizeof buf, "%02x ", c);
            s += buf;
        }
        return s;
    }

    //! Things happening at a moment of virtual time
    struct Agenda
    {
        std::multimap<int64_t, std::function<void()>> items;
        bool running = false;
        void at(int64_t t, std::function<void()> f)
        {
            items.emplace(t, std::move(f));
        }
        int64_t next() const
        {
            return items.empty() ? INT64_MAX : items.begin()->first;
        }
        //! true if something has been run
        bool runDue()
        {
            bool res = false;
            if (running) {
                return false;
            }
            running = true;
            while (!items.empty() && items.begin()->first <= vclock::now) {
                auto f = std::move(items.begin()->second);
                items.erase(items.begin());
                f();
                res = true;
            }
            running = false;
            return res;
        }
    };

    class Bus: public TPort
    {
    public:
        double byteUs = 1145.8333; // 9600 8N2
        bool open = false;
        int opens = 0, closes = 0, openTries = 0;
        int64_t lastInteraction = 0;
        Agenda* agenda = nullptr;
        std::function<bool()> canOpen;                  // false: Open fails
        std::function<void(const bytes&)> onWrite;      // the device side
        std::function<bool()> canWrite;                 // false: write fails
        std::function<void()> onClose;
        std::deque<std::pair<int64_t, uint8_t>> queue;  // arrival time, byte
        std::string name = "/dev/ttySIM";
        int settingsApplied = 0, settingsReset = 0;
        std::string settingsNow = "default";
        std::vector<std::pair<int64_t, bytes>> written;
        bool keepWritten = false;
        int64_t busyUntil = 0; // end of the last transmission of devices

        ~Bus() = default;

        //! Bytes from the bus, the first one will be available in delayUs
        void Reply(const bytes& b, int64_t delayUs = 0, bool burst = false)
        {
            double t = std::max(vclock::now + delayUs, busyUntil);
            for (auto x: b) {
                if (!burst) {
                    t += byteUs;
                }
                queue.emplace_back((int64_t)t, x);
            }
            std::stable_sort(queue.begin(), queue.end(), [](auto& x, auto& y) { return x.first < y.first; });
            busyUntil = std::max(busyUntil, (int64_t)t);
        }

        void Open() override
        {
            ++openTries;
            if (open) {
                throw TSerialDeviceException("port is already open");
            }
            if (canOpen && !canOpen()) {
                throw TSerialDeviceErrnoException("can't open serial port: ", 2);
            }
            open = true;
            ++opens;
            queue.clear();
            lastInteraction = vclock::now;
        }
        void Close() override
        {
            CheckPortOpen();
            open = false;
            ++closes;
            if (onClose) {
                onClose();
            }
            queue.clear();
        }
        bool IsOpen() const override
        {
            return open;
        }
        void CheckPortOpen() const override
        {
            if (!open) {
                throw TSerialDeviceException("port not open");
            }
        }
        void WriteBytes(const uint8_t* buf, int count) override
        {
            CheckPortOpen();
            if (agenda) {
                agenda->runDue();
            }
            if (canWrite && !canWrite()) {
                vclock::now += MS; // a failed system call isn't instant
                throw TSerialDeviceErrnoException("serial write failed: ", 5);
            }
            bytes b(buf, buf + count);
            if (keepWritten) {
                written.emplace_back(vclock::now, b);
            }
            vclock::now += (int64_t)(byteUs * count);
            lastInteraction = vclock::now;
            if (onWrite) {
                onWrite(b);
            }
        }
        using TPort::WriteBytes;

        //! true if a byte is available within the timeout
        bool select(const microseconds& us)
        {
            if (us.count() <= 0) { // the real one waits forever
                if (queue.empty()) {
                    mc::fail("endless-wait", "waiting for data without a time limit");
                    throw ExecutionEnd();
                }
            }
            auto deadline = us.count() <= 0 ? INT64_MAX : vclock::now + us.count();
            while (true) {
                if (!queue.empty() && queue.front().first <= vclock::now) {
                    return true;
                }
                auto next = queue.empty() ? INT64_MAX : queue.front().first;
                next = std::min(next, agenda ? std::max(agenda->next(), vclock::now) : INT64_MAX);
                if (next > deadline) {
                    vclock::now = deadline;
                    return false;
                }
                vclock::now = std::max(vclock::now, next);
                if (agenda) {
                    agenda->runDue();
                }
            }
        }
        uint8_t ReadByte(const microseconds& timeout) override
        {
            CheckPortOpen();
            if (!select(timeout)) {
                throw TSerialDeviceTransientErrorException("timeout");
            }
            auto b = queue.front().second;
            queue.pop_front();
            lastInteraction = vclock::now;
            return b;
        }
        TReadFrameResult ReadFrame(uint8_t* buf,
                                   size_t count,
                                   const microseconds& responseTimeout,
                                   const microseconds& frameTimeout,
                                   TFrameCompletePred frame_complete = 0) override
        {
            CheckPortOpen();
            TReadFrameResult res;
            if (!count) {
                return res;
            }
            auto start = vclock::now;
            auto timeout = responseTimeout;
            while (res.Count < count) {
                if (frame_complete && frame_complete(buf, res.Count)) {
                    break;
                }
                if (!select(timeout)) {
                    break;
                }
                timeout = frameTimeout;
                if (res.Count == 0) {
                    res.ResponseTime = microseconds(vclock::now - start);
                }
                while (res.Count < count && !queue.empty() && queue.front().first <= vclock::now) {
                    buf[res.Count++] = queue.front().second;
                    queue.pop_front();
                }
            }
            if (!res.Count) {
                throw TResponseTimeoutException();
            }
            lastInteraction = vclock::now;
            return res;
        }
        void SkipNoise() override
        {
            CheckPortOpen();
            while (select(std::max<microseconds>(milliseconds(1), GetSendTimeBytes(3.5)))) {
                queue.pop_front();
                lastInteraction = vclock::now;
            }
        }
        void SleepSinceLastInteraction(const microseconds& us) override
        {
            auto d = us.count() - (vclock::now - lastInteraction);
            if (d > 0) {
                vclock::now += d;
            }
        }
        microseconds GetSendTimeBytes(double n) const override
        {
            return microseconds((int64_t)std::ceil(byteUs * n));
        }
        microseconds GetSendTimeBits(size_t n) const override
        {
            return microseconds((int64_t)std::ceil(byteUs / 11 * n));
        }
        std::string GetDescription(bool verbose = true) const override
        {
            return name;
        }
        void ApplySerialPortSettings(const TSerialPortConnectionSettings& s) override
        {
            ++settingsApplied;
            settingsNow = mc::str(s.BaudRate, s.Parity, s.DataBits, s.StopBits);
        }
        void ResetSerialPortSettings() override
        {
            ++settingsReset;
            settingsNow = "default";
        }
    };

    enum Fault
    {
        OK,
        LOST,       // the request has not reached the device
        REPLY_LOST, // the device has executed the request, the answer is lost
        BADCRC,
        EXC1,
        EXC2,
        EXC3,
        EXC4,
        EXC6,
        TRUNC,
        WRONGSLAVE,
        WRONGFUNC,
        GARBAGE,
        STALE, // a late answer: after the response timeout
        SHORTDATA, // valid frame, less data than requested
        LONGDATA,
        FAULTS
    };
    inline const char* faultName(int f)
    {
        static const char* n[] = {"ok", "lost", "reply-lost", "bad-crc", "exc1", "exc2", "exc3", "exc4", "exc6", "trunc",
                                  "wrong-slave", "wrong-func", "garbage", "stale", "short-data", "long-data"};
        return n[f];
    }

    struct Access
    {
        int64_t t = 0, end = 0;
        int slave = 0, fn = 0, addr = 0, count = 0;
        std::vector<uint16_t> values; // written ones
        int fault = OK;
        int exception = 0; // answered
        bool applied = false;
        bool isWrite() const
        {
            return fn == 5 || fn == 6 || fn == 15 || fn == 16;
        }
        bool ok() const
        {
            return fault == OK && !exception;
        }
        std::string str() const
        {
            char tm[32];
            snprintf(tm, sizeof tm, "%.2f", t / 1000.0);
            std::string s = mc::str(tm, "ms slave ", slave, " fn ", fn, " addr ", addr, " n ", count);
            for (auto v: values) {
                s += mc::str(" =", v);
            }
            s += mc::str(" ", faultName(fault), exception ? mc::str(" exception ", exception) : "");
            return s;
        }
    };

    struct Slave
    {
        int id = 1;
        bool online = true;
        int64_t latency = 5 * MS;
        std::map<int, uint16_t> regs[5]; // by read function: 1 coils, 2 discretes, 3 holdings, 4 inputs
        std::function<int(const Access&)> fault;       // Fault of this request
        std::function<void(const Access&)> onAccess;   // after execution
        std::function<std::optional<bytes>(const bytes& pdu)> custom; // other functions: reply PDU
        int maxRead = 125;
        bool fill = false; // register 114 switches on reading of missing registers as 0xFFFE (Wiren Board devices)
    };

    struct World;

    //! Modbus RTU (or TCP) network of slaves
    struct Net
    {
        Bus& bus;
        bool tcp;
        std::map<int, Slave> slaves;
        std::vector<Access> log;
        int64_t rawLatency = 3 * MS;
        std::function<std::optional<bytes>(const bytes& frame)> raw; // handles other frames (fast modbus broadcasts)

        Net(Bus& b, bool isTcp = false): bus(b), tcp(isTcp)
        {
            bus.onWrite = [this](const bytes& f) { onFrame(f); };
        }
        Slave& add(int id)
        {
            auto& s = slaves[id];
            s.id = id;
            return s;
        }
        static void crc(bytes& f)
        {
            auto c = CRC16::CalculateCRC16(f.data(), f.size());
            f.push_back(c >> 8);
            f.push_back(c & 0xFF);
        }
        bytes pack(const bytes& req, int slave, const bytes& pdu)
        {
            bytes f;
            if (tcp) {
                f = {req[0], req[1], 0, 0, (uint8_t)((pdu.size() + 1) >> 8), (uint8_t)(pdu.size() + 1), (uint8_t)slave};
                f.insert(f.end(), pdu.begin(), pdu.end());
            } else {
                f.push_back(slave);
                f.insert(f.end(), pdu.begin(), pdu.end());
                crc(f);
            }
            return f;
        }
        void onFrame(const bytes& f)
        {
            if (raw) {
                auto r = raw(f);
                if (r) {
                    if (!r->empty()) {
                        bus.Reply(*r, rawLatency);
                    }
                    return;
                }
            }
            int slave;
            bytes pdu;
            if (tcp) {
                if (f.size() < 8) {
                    return;
                }
                slave = f[6];
                pdu.assign(f.begin() + 7, f.end());
            } else {
                if (f.size() < 4) {
                    return;
                }
                slave = f[0];
                pdu.assign(f.begin() + 1, f.end() - 2);
                bytes g(f.begin(), f.end() - 2);
                crc(g);
                if (g != f) {
                    mc::fail("bad-request-crc", "request with a wrong CRC: " + hex(f));
                }
            }
            auto it = slaves.find(slave);
            Access a;
            a.t = vclock::now;
            a.slave = slave;
            a.fn = pdu[0];
            if (pdu.size() >= 5) {
                a.addr = pdu[1] << 8 | pdu[2];
                a.count = pdu[3] << 8 | pdu[4];
            }
            if (it == slaves.end()) {
                a.fault = LOST;
                log.push_back(a);
                return;
            }
            auto& s = it->second;
            bytes reply;
            bool known = true;
            switch (a.fn) {
                case 5:
                    a.values = {(uint16_t)a.count};
                    a.count = 1;
                    break;
                case 6:
                    a.values = {(uint16_t)a.count};
                    a.count = 1;
                    break;
                case 15:
                    for (int i = 0; i < a.count; ++i) {
                        a.values.push_back(pdu.at(6 + i / 8) >> (i % 8) & 1 ? 0xFF00 : 0);
                    }
                    break;
                case 16:
                    for (int i = 0; i < a.count; ++i) {
                        a.values.push_back(pdu.at(6 + 2 * i) << 8 | pdu.at(7 + 2 * i));
                    }
                    break;
                case 1:
                case 2:
                case 3:
                case 4:
                    break;
                default:
                    known = false;
            }
            a.fault = s.online ? (s.fault ? s.fault(a) : OK) : LOST;
            if (a.fault >= EXC1 && a.fault <= EXC6) {
                static const int codes[] = {1, 2, 3, 4, 6};
                a.exception = codes[a.fault - EXC1];
            } else if (a.fault != LOST) {
                reply = execute(s, a, pdu, known);
            }
            if (a.exception) {
                reply = {(uint8_t)(a.fn | 0x80), (uint8_t)a.exception};
            }
            if (a.fault == SHORTDATA && !a.exception && !a.isWrite() && reply.size() > 2) {
                int n = reply.size() > 3 ? reply.size() - 4 : 0;
                n &= ~1;
                reply.resize(2 + n);
                reply[1] = n;
            }
            if (a.fault == LONGDATA && !a.exception && !a.isWrite()) {
                reply.push_back(0x55);
                reply.push_back(0xAA);
                reply[1] += 2;
            }
            send(s, a, f, reply);
            a.end = vclock::now;
            log.push_back(a);
            if (s.onAccess) {
                s.onAccess(a);
            }
        }
        bytes execute(Slave& s, Access& a, const bytes& pdu, bool known)
        {
            if (!known) {
                if (s.custom) {
                    auto r = s.custom(pdu);
                    if (r) {
                        return *r;
                    }
                }
                a.exception = 1;
                return {};
            }
            static const int tbl[] = {0, 1, 2, 3, 4, 1, 3, 0, 0, 0, 0, 0, 0, 0, 0, 1, 3};
            auto& m = s.regs[tbl[a.fn]];
            if (a.count < 1 || (!a.isWrite() && a.fn >= 3 && a.count > s.maxRead)) {
                a.exception = 3;
                return {};
            }
            for (int i = 0; i < a.count; ++i) {
                if (!m.count(a.addr + i) && !(!a.isWrite() && a.fn >= 3 && s.fill && s.regs[3].count(114) && s.regs[3][114] == 1)) {
                    a.exception = 2;
                    return {};
                }
            }
            bytes r{(uint8_t)a.fn};
            if (a.isWrite()) {
                for (int i = 0; i < a.count; ++i) {
                    m[a.addr + i] = a.fn == 5 || a.fn == 15 ? (a.values[i] ? 1 : 0) : a.values[i];
                }
                a.applied = true;
                r.insert(r.end(), pdu.begin() + 1, pdu.begin() + 5);
            } else if (a.fn <= 2) {
                r.push_back((a.count + 7) / 8);
                r.resize(2 + r[1]);
                for (int i = 0; i < a.count; ++i) {
                    r[2 + i / 8] |= (m[a.addr + i] ? 1 : 0) << (i % 8);
                }
            } else {
                r.push_back(a.count * 2);
                for (int i = 0; i < a.count; ++i) {
                    auto it = m.find(a.addr + i);
                    uint16_t v = it == m.end() ? 0xFFFE : it->second;
                    r.push_back(v >> 8);
                    r.push_back(v);
                }
            }
            return r;
        }
        void send(Slave& s, const Access& a, const bytes& req, const bytes& pdu)
        {
            switch (a.fault) {
                case LOST:
                case REPLY_LOST:
                    return;
                case BADCRC: {
                    auto f = pack(req, s.id, pdu);
                    f[f.size() - 1] ^= 1;
                    bus.Reply(f, s.latency);
                    return;
                }
                case TRUNC: {
                    auto f = pack(req, s.id, pdu);
                    f.resize(f.size() - 2);
                    bus.Reply(f, s.latency);
                    return;
                }
                case WRONGSLAVE:
                    bus.Reply(pack(req, s.id ^ 0x40, pdu), s.latency);
                    return;
                case WRONGFUNC: {
                    auto p = pdu;
                    p[0] ^= 7;
                    bus.Reply(pack(req, s.id, p), s.latency);
                    return;
                }
                case GARBAGE:
                    bus.Reply({0x00, 0xFF, 0x12}, s.latency);
                    return;
                case STALE:
                    bus.Reply(pack(req, s.id, pdu), s.latency + 700 * MS);
                    return;
                default:
                    bus.Reply(pack(req, s.id, pdu), s.latency);
            }
        }
    };

    inline TSerialDeviceFactory& factory()
    {
        static TSerialDeviceFactory* f = [] {
            auto p = new TSerialDeviceFactory;
            RegisterProtocols(*p);
            return p;
        }();
        return *f;
    }
    inline TTemplateMap& templates()
    {
        static auto* t = new TTemplateMap;
        return *t;
    }
    inline Json::Value json(const std::string& s)
    {
        Json::Value v;
        Json::CharReaderBuilder b;
        std::string err;
        std::istringstream ss(s);
        if (!Json::parseFromStream(b, ss, &v, &err)) {
            fprintf(stderr, "bad json in the harness: %s\n%s\n", err.c_str(), s.c_str());
            abort();
        }
        return v;
    }

    //! One port with devices, from the MQTT driver to the bus
    struct World
    {
        Agenda agenda;
        std::shared_ptr<Bus> bus = std::make_shared<Bus>();
        Net net;
        WBMQTT::PDeviceDriver mqtt = std::make_shared<WBMQTT::TDeviceDriver>();
        PFeaturePort port;
        PPortConfig config = std::make_shared<TPortConfig>();
        PSerialPortDriver driver;
        std::vector<PSerialDevice> devices;
        int64_t start;
        uint64_t cycles = 0;
        std::function<void()> onWait; //!< called when the port thread waits

        World(bool tcp = false, bool mge = false): net(*bus, tcp)
        {
            vclock::reset();
            start = vclock::now;
            bus->agenda = &agenda;
            port = std::make_shared<TFeaturePort>(bus, tcp, mge);
            config->Port = port;
            vclock::onWait = [this](int64_t deadline) {
                if (onWait) {
                    onWait();
                }
                if (agenda.next() <= deadline) {
                    if (agenda.next() > vclock::now) {
                        vclock::now = agenda.next();
                    }
                    agenda.runDue();
                    return true;
                }
                return false;
            };
        }
        ~World()
        {
            vclock::onWait = nullptr;
            bus->onClose = nullptr;
            mqtt->OnPublish = nullptr;
            if (driver) {
                driver->ClearDevices();
            }
        }
        PSerialDevice device(const Json::Value& cfg, bool wb = false)
        {
            TSerialDeviceFactory::TCreateDeviceParams p;
            p.Defaults.Id = "dev" + cfg["slave_id"].asString();
            p.Defaults.RequestDelay = config->RequestDelay;
            p.Defaults.ReadRateLimit = config->ReadRateLimit;
            p.IsModbusTcp = net.tcp;
            auto d = factory().CreateDevice(cfg, p, templates());
            d->Device->SetWbDevice(wb);
            config->AddDevice(d);
            devices.push_back(d->Device);
            return d->Device;
        }
        void begin(WBMQTT::TPublishParameters policy = {}, size_t rateLimit = std::numeric_limits<size_t>::max())
        {
            driver = std::make_shared<TSerialPortDriver>(mqtt, config, policy, rateLimit);
            driver->SetUpDevices();
            mqtt->On<WBMQTT::TControlOnValueEvent>(TSerialPortDriver::HandleControlOnValueEvent);
        }
        PSerialClient client()
        {
            return driver->GetSerialClient();
        }
        int64_t now() const
        {
            return vclock::now - start;
        }
        void at(int64_t t, std::function<void()> f)
        {
            agenda.at(start + t, std::move(f));
        }
        //! Run cycles till the time. Every cycle must let the time go on.
        void runTo(int64_t t)
        {
            int idle = 0;
            while (now() < t) {
                auto before = vclock::now;
                driver->Cycle();
                ++cycles;
                mc::transition();
                idle = vclock::now == before ? idle + 1 : 0;
                if (idle) {
                    vclock::now += 100; // a cycle takes some time; waiting for events the thread may spin for up to 100 ms
                    agenda.runDue();
                }
                if (idle > 2500) {
                    mc::fail("busy-loop", mc::str("the port thread spins without waiting at ", now() / MS, " ms"));
                    throw ExecutionEnd();
                }
            }
        }
        void command(int slave, const std::string& control, const std::string& value)
        {
            mqtt->Command("dev" + std::to_string(slave), control, value);
        }
        PRegister reg(int dev, int index)
        {
            auto& l = devices.at(dev)->GetRegisters();
            auto it = l.begin();
            std::advance(it, index);
            return *it;
        }
        uint64_t digest() const
        {
            uint64_t h = 7;
            for (auto& a: net.log) {
                h = mc::mix(mc::mix(mc::mix(h, a.slave << 24 | a.fn << 16 | a.addr), a.fault), a.t);
                for (auto v: a.values) {
                    h = mc::mix(h, v);
                }
            }
            return h;
        }
        void trace() const
        {
            if (!mc::tracing()) {
                return;
            }
            for (auto& a: net.log) {
                mc::note(Access(a).str());
            }
            for (auto& p: mqtt->Log) {
                mc::note(mc::str("mqtt ", p.Device, "/", p.Control, p.HasValue ? " = " + p.Value : "", " error '", p.Error, "'"));
            }
        }
    };
}
