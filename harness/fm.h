// Fast Modbus side of simulated devices: events, scan, addressing by serial number
#pragma once
#include "sim.h"

namespace sim
{
    struct FmNet;
    struct FmDevice
    {
        Slave* slave = nullptr;
        uint32_t sn = 0;
        bool initialEvents = true;                 // an enabled register reports its value at once
        bool supported = true;                     // understands function 0x46 at all
        std::map<std::pair<int, int>, int> enabled; // (type, address) -> priority
        std::set<std::pair<int, int>> unsupported;  // registers without events
        std::vector<std::pair<int, int>> pending;   // in the order of appearance
        std::vector<std::pair<int, int>> sent;      // in the last packet, not confirmed yet
        bool unconfirmed = false;
        uint8_t flag = 0;
        bool foundByScan = false;
        int enableRequests = 0;
        int maxEvents = 100;                        // in a packet
        std::map<std::pair<int, int>, int> width;   // bytes of event data if not 2 (1 for bits)

        void mark(const std::pair<int, int>& k)
        {
            if (enabled.count(k) && std::find(pending.begin(), pending.end(), k) == pending.end()) {
                pending.push_back(k);
            }
            // a value changed after it was sent has to be sent again
            sent.erase(std::remove(sent.begin(), sent.end(), k), sent.end());
        }
        void set(int type, int addr, uint16_t v)
        {
            auto& r = slave->regs[type][addr];
            if (r != v) {
                r = v;
                mark({type, addr});
                auto it = width.find({type, addr - 1}); // low word of a 32-bit register
                if (it != width.end() && it->second == 4) {
                    mark({type, addr - 1});
                }
            }
        }
        void reboot()
        {
            enabled.clear();
            pending.clear();
            sent.clear();
            unconfirmed = false;
            // the flag goes on: a device starting with a random one isn't the subject
            enabled[{15, 0}] = 1;
            pending.push_back({15, 0});
        }
        bytes onEnable(const bytes& pdu)
        {
            ++enableRequests;
            bytes r{0x46, 0x18, 0};
            size_t i = 3, end = std::min<size_t>(pdu.size(), 3 + pdu.at(2));
            if (3u + pdu.at(2) != pdu.size()) {
                mc::fail("enable-size", "wrong size in the request enabling events: " + hex(pdu));
            }
            while (i + 4 < end) {
                int type = pdu[i], addr = pdu[i + 1] << 8 | pdu[i + 2], n = pdu[i + 3];
                i += 4;
                bytes bits((n + 7) / 8, 0);
                for (int k = 0; k < n; ++k, ++i) {
                    std::pair<int, int> key{type, addr + k};
                    bool exists = type == 15 || (type >= 1 && type <= 4 && slave->regs[type].count(addr + k));
                    int prio = pdu.at(i);
                    if (!exists || unsupported.count(key) || !prio) {
                        enabled.erase(key);
                        pending.erase(std::remove(pending.begin(), pending.end(), key), pending.end());
                        continue;
                    }
                    bool was = enabled.count(key);
                    enabled[key] = prio;
                    bits[k / 8] |= 1 << (k % 8);
                    if (initialEvents && !was) {
                        mark(key);
                    }
                }
                r.insert(r.end(), bits.begin(), bits.end());
            }
            r[2] = r.size() - 3;
            return r;
        }
        bytes packet(int maxBytes)
        {
            bytes data;
            sent.clear();
            for (auto& k: pending) {
                int size = k.first == 15 ? 0 : k.first <= 2 ? 1 : 2;
                auto w = width.find(k);
                if (w != width.end()) {
                    size = w->second;
                }
                if ((int)data.size() + 4 + size > maxBytes || (int)sent.size() >= maxEvents) {
                    break;
                }
                data.insert(data.end(), {(uint8_t)size, (uint8_t)k.first, (uint8_t)(k.second >> 8), (uint8_t)k.second});
                uint64_t v = size ? slave->regs[k.first][k.second] : 0;
                if (size == 4) {
                    v = v << 16 | slave->regs[k.first][k.second + 1];
                }
                for (int i = 0; i < size; ++i) {
                    data.push_back(v >> (8 * i));
                }
                sent.push_back(k);
            }
            if (!unconfirmed) {
                flag ^= 1;
            }
            unconfirmed = true;
            bytes p{0x46, 0x11, flag, (uint8_t)sent.size(), (uint8_t)data.size()};
            p.insert(p.end(), data.begin(), data.end());
            return p;
        }
        void confirm(int id, uint8_t f)
        {
            if (unconfirmed && id == slave->id && f == flag) {
                for (auto& k: sent) {
                    pending.erase(std::remove(pending.begin(), pending.end(), k), pending.end());
                }
                sent.clear();
                unconfirmed = false;
            }
        }
    };

    struct EventRequest
    {
        int64_t t;
        int start, maxBytes, slave, flag;
        int answeredBy; // 0: nobody has events
        int fault;
        int packetFlag = 0;
    };

    struct FmNet
    {
        Net& net;
        std::map<int, FmDevice> devices; // by slave id
        std::vector<EventRequest> requests;
        std::function<int(int slaveId)> eventFault; // fault of an answer to an event request: OK, LOST, REPLY_LOST, BADCRC, TRUNC..
        std::function<void(bytes&)> mutate;         // other changes of a reply frame
        int arbitration = 5;                        // 0xFF bytes before an answer
        int64_t latency = 3 * MS;
        bool respondsNoEvents = true;
        std::vector<uint8_t> ids; // scan order is the map order unless set

        FmNet(Net& n): net(n)
        {
            net.raw = [this](const bytes& f) { return onFrame(f); };
        }
        FmDevice& add(Slave& s, uint32_t sn = 0)
        {
            auto& d = devices[s.id];
            d.slave = &s;
            d.sn = sn;
            d.enabled[{15, 0}] = 1;
            d.pending.push_back({15, 0});
            auto* p = &d;
            s.custom = [p](const bytes& pdu) -> std::optional<bytes> {
                if (!p->supported || pdu.size() < 3 || pdu[0] != 0x46 || pdu[1] != 0x18) {
                    return std::nullopt;
                }
                return p->onEnable(pdu);
            };
            return d;
        }
        std::optional<bytes> onFrame(const bytes& f)
        {
            bytes pdu;
            if (net.tcp) {
                if (f.size() < 9 || f[6] != 0xFD) {
                    return std::nullopt;
                }
                pdu.assign(f.begin() + 7, f.end());
            } else {
                if (f.size() < 5 || f[0] != 0xFD || (f[1] != 0x46 && f[1] != 0x60)) {
                    return std::nullopt;
                }
                pdu.assign(f.begin() + 1, f.end() - 2);
            }
            if (pdu[1] == 0x10) {
                return onEvents(f, pdu);
            }
            return bytes();
        }
        bytes wrap(const bytes& req, int id, const bytes& pdu)
        {
            bytes r;
            if (!net.tcp) {
                r.assign(arbitration, 0xFF);
            }
            auto p = net.pack(req, id, pdu);
            r.insert(r.end(), p.begin(), p.end());
            return r;
        }
        bytes onEvents(const bytes& req, const bytes& pdu)
        {
            EventRequest e{vclock::now, pdu.at(2), pdu.at(3), pdu.at(4), pdu.at(5), 0, OK};
            if (pdu.size() != 6) {
                mc::fail("event-request", "wrong size of the event request " + hex(req));
            }
            bool any = false;
            FmDevice* winner = nullptr;
            int best = 0;
            e.fault = OK;
            if (eventFault && eventFault(-1) == LOST) { // the request doesn't reach anybody
                e.fault = LOST;
                requests.push_back(e);
                return {};
            }
            for (auto& x: devices) {
                auto& d = x.second;
                if (!d.slave->online || !d.supported) {
                    continue;
                }
                any = true;
                d.confirm(e.slave, e.flag);
                if (x.first < e.start) {
                    continue;
                }
                int prio = 0;
                for (auto& k: d.pending) {
                    prio = std::max(prio, d.enabled.count(k) ? d.enabled[k] : 0);
                }
                if (prio > best) {
                    best = prio;
                    winner = &d;
                }
            }
            bytes r;
            if (winner) {
                e.answeredBy = winner->slave->id;
                r = wrap(req, e.answeredBy, winner->packet(e.maxBytes));
                e.packetFlag = winner->flag;
            } else if (any) {
                r = wrap(req, 0xFD, {0x46, 0x12});
            }
            e.fault = eventFault ? eventFault(e.answeredBy) : OK;
            requests.push_back(e);
            switch (e.fault) {
                case OK:
                    break;
                case BADCRC:
                    r.back() ^= 1;
                    break;
                case TRUNC:
                    r.resize(r.size() > 3 ? r.size() - 3 : 0);
                    break;
                default:
                    r.clear();
            }
            if (mutate && !r.empty()) {
                mutate(r);
            }
            return r;
        }
    };
}
