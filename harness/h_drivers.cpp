// P21: meters and motors with protocols of their own. A simulated device answers, one of its answers is disturbed.
#include "sim.h"
#include <cstring>

using namespace sim;

namespace
{
    using std::string;
    const int ALL = -1;

    struct Reg
    {
        string name, cfg;
        string shown[2]; // by version of the state of the device
    };

    //! A device: answers requests, knows nothing about disturbances
    struct Meter
    {
        string name, device; // protocol, properties of the device
        int slave = 1;
        std::vector<Reg> regs;
        int version = 0;
        bool ids = true;       // answers name the register
        bool session = false;  // needs a session
        bool open = true;
        int shorten = 0;       // data of the next answer is shorter (longer) by n bytes
        bytes weird;           // data of the next answer
        std::vector<bytes> weirdData;
        int masks[3] = {0x01, 0x10, 0x40};
        uint32_t otherRegister = 0; // answer as to a request of other register

        virtual ~Meter() = default;
        //! Empty: no answer. data: it is an answer with data
        virtual bytes answer(const bytes& req, bool& data) = 0;
        virtual bytes error(const bytes& req, int n) //!< n-th error of the protocol
        {
            return {};
        }
        virtual bytes closed(const bytes& req) //!< session is closed
        {
            return {};
        }
        virtual void foreign(bool on)
        {}
        bytes adjust(bytes d)
        {
            if (!weird.empty()) {
                return weird;
            }
            if (shorten > 0) {
                d.resize(d.size() > (size_t)shorten ? d.size() - shorten : 0);
            }
            for (int i = shorten; i < 0; ++i) {
                d.push_back(0x31 + i);
            }
            return d;
        }
    };

    void le(bytes& b, uint64_t v, int n)
    {
        for (int i = 0; i < n; ++i) {
            b.push_back(v >> (8 * i));
        }
    }
    bytes leBytes(uint64_t v, int n)
    {
        bytes b;
        le(b, v, n);
        return b;
    }

    struct Uniel: Meter
    {
        int id = 1;
        Uniel()
        {
            name = "uniel";
            device = R"("protocol":"uniel","slave_id":"1")";
            regs = {{"A", R"("reg_type":"input","address":"0x0a")", {"17", "18"}},
                    {"B", R"("reg_type":"param","address":"0x02")", {"101", "255"}},
                    {"C", R"("reg_type":"input","address":"0x1b")", {"255", "0"}}};
        }
        void foreign(bool on) override
        {}
        bytes answer(const bytes& q, bool& data) override
        {
            if (q.size() != 8 || q[0] != 0xff || q[1] != 0xff || q[3] != 1 || q[2] != 5) {
                return {};
            }
            data = true;
            uint8_t v = 0;
            uint8_t addr = q[5];
            switch (addr) {
                case 0x0a: v = 17 + version; break;
                case 0x02: v = version ? 255 : 101; break;
                case 0x1b: v = version ? 0 : 255; break;
                default: return {};
            }
            if (otherRegister) {
                addr = addr == 0x0a ? 0x1b : 0x0a;
                v = 77;
            }
            bytes a{0xff, 0xff, 5, 0, v, addr, 0};
            a.push_back(a[2] + a[3] + a[4] + a[5] + a[6]);
            return a;
        }
    };

    void crc16(bytes& f)
    {
        Net::crc(f);
    }

    struct Milur: Meter
    {
        uint32_t id, realId;
        int width;
        Milur(int w)
        {
            width = w;
            name = mc::str("milur ", w);
            realId = id = w == 1 ? 0xff : 49932;
            device = mc::str(R"("protocol":"milur","access_level":1,"slave_id":")", id, '"');
            session = true;
            open = false;
            regs = {{"A", R"("reg_type":"param","address":102)", {"219999", "220001"}},
                    {"B", R"("reg_type":"energy","address":118)", {"11144", "11145"}},
                    {"C", R"("reg_type":"freq","address":9)", {"50000", "50011"}}};
        }
        void foreign(bool on) override
        {
            id = on ? realId ^ 1 : realId;
        }
        bytes frame(bytes d)
        {
            bytes a = leBytes(id, width);
            a.insert(a.end(), d.begin(), d.end());
            crc16(a);
            return a;
        }
        bytes answer(const bytes& q, bool& data) override
        {
            if ((int)q.size() < width + 3) {
                return {};
            }
            bytes c(q.begin(), q.end() - 2);
            crc16(c);
            if (c != q || !std::equal(q.begin(), q.begin() + width, leBytes(realId, width).begin())) {
                return {};
            }
            int cmd = q[width];
            if (cmd == 8) {
                open = true;
                return frame({8, q[width + 1]});
            }
            if (cmd != 1 || (int)q.size() != width + 4) {
                return {};
            }
            if (!open) {
                return closed(q);
            }
            data = true;
            uint8_t addr = q[width + 1];
            bytes d;
            switch (addr) {
                case 102: d = leBytes(219999 + 2 * version, 3); break;
                case 118: d = version ? bytes{0x54, 0x11, 0x10, 0x00} : bytes{0x44, 0x11, 0x10, 0x00}; break; // nibbles are swapped
                case 9: d = leBytes(version ? 50011 : 50000, 2); break;
                default: return {};
            }
            d = adjust(d);
            if (otherRegister) {
                addr ^= 1;
                d[0] ^= 0x10;
            }
            bytes a{1, addr, (uint8_t)d.size()};
            a.insert(a.end(), d.begin(), d.end());
            return frame(a);
        }
        bytes error(const bytes& q, int n) override
        {
            static const int codes[] = {2, 4, 6, 0x0a};
            return n < 4 && (int)q.size() > width ? frame({(uint8_t)(q[width] | 0x80), (uint8_t)codes[n], 0}) : bytes();
        }
        bytes closed(const bytes& q) override
        {
            return (int)q.size() > width ? frame({(uint8_t)(q[width] | 0x80), 8, 0}) : bytes();
        }
    };

    struct Mercury230: Meter
    {
        uint8_t id = 21;
        Mercury230()
        {
            name = "mercury230";
            device = R"("protocol":"mercury230","access_level":1,"slave_id":"21")";
            session = true;
            open = false;
            ids = false;
            regs = {{"A", R"("reg_type":"array","address":"0x00")", {"3196201", "3196202"}},
                    {"B", R"("reg_type":"array","address":"0x02")", {"300444", "300445"}},
                    {"C", R"("reg_type":"param","address":"0x1111")", {"24128", "24129"}},
                    {"D", R"("reg_type":"param","format":"u16","address":"0x1130")", {"500", "65000"}}};
        }
        void foreign(bool on) override
        {
            id = on ? 22 : 21;
        }
        bytes frame(bytes d)
        {
            bytes a{id};
            a.insert(a.end(), d.begin(), d.end());
            crc16(a);
            return a;
        }
        bytes answer(const bytes& q, bool& data) override
        {
            if (q.size() < 4 || q[0] != 21) {
                return {};
            }
            bytes c(q.begin(), q.end() - 2);
            crc16(c);
            if (c != q) {
                return {};
            }
            if (q[1] == 1) {
                open = true;
                return frame({0});
            }
            if (!open) {
                return closed(q);
            }
            data = true;
            bytes d;
            if (q[1] == 5 && q.size() == 6) {
                uint32_t v[4] = {3196201u + version, 11, 300444u + version, 12};
                for (auto x: v) {
                    d.insert(d.end(), {(uint8_t)(x >> 16), (uint8_t)(x >> 24), (uint8_t)x, (uint8_t)(x >> 8)});
                }
            } else if (q[1] == 8 && q.size() == 6 && q[3] == 0x11) {
                uint32_t x = 24128 + version;
                d = {(uint8_t)(x >> 16), (uint8_t)x, (uint8_t)(x >> 8)};
            } else if (q[1] == 8 && q.size() == 6 && q[3] == 0x30) {
                d = leBytes(version ? 65000 : 500, 2);
            } else {
                return {};
            }
            return frame(adjust(d));
        }
        bytes error(const bytes& q, int n) override
        {
            static const int codes[] = {2, 3, 4, 7};
            return n < 4 ? frame({(uint8_t)codes[n]}) : bytes();
        }
        bytes closed(const bytes& q) override
        {
            return frame({5});
        }
    };

    struct Mercury200: Meter
    {
        uint32_t id = 22417438;
        Mercury200()
        {
            name = "mercury200";
            device = R"("protocol":"mercury200","slave_id":"22417438")";
            regs = {{"A", R"("reg_type":"param32","address":"0x2700")", {"62142", "62143"}},
                    {"B", R"("reg_type":"param32","address":"0x270c")", {"1234", "1235"}},
                    {"C", R"("reg_type":"param16","address":"0x6300")", {"1233", "1234"}},
                    {"D", R"("reg_type":"param24","address":"0x6304")", {"373", "374"}}};
        }
        void foreign(bool on) override
        {
            id = on ? 22417439 : 22417438;
        }
        bytes answer(const bytes& q, bool& data) override
        {
            bytes c(q.begin(), q.end() - std::min<size_t>(2, q.size()));
            crc16(c);
            if (q.size() != 7 || c != q || (q[0] << 24 | q[1] << 16 | q[2] << 8 | q[3]) != 22417438) {
                return {};
            }
            data = true;
            bytes d;
            uint8_t v = version;
            if (q[4] == 0x27) {
                d = {0x00, 0x06, 0x21, (uint8_t)(0x42 + v), 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0x12, (uint8_t)(0x34 + v)};
            } else if (q[4] == 0x63) {
                d = {0x12, (uint8_t)(0x33 + v), 0x03, 0x98, 0x00, 0x03, (uint8_t)(0x73 + v)};
            } else {
                return {};
            }
            d = adjust(d);
            bytes a{(uint8_t)(id >> 24), (uint8_t)(id >> 16), (uint8_t)(id >> 8), (uint8_t)id, (uint8_t)(q[4] ^ (otherRegister ? 0x44 : 0))};
            a.insert(a.end(), d.begin(), d.end());
            crc16(a);
            return a;
        }
    };

    struct Ivtm: Meter
    {
        int id = 7;
        Ivtm()
        {
            name = "ivtm";
            device = R"("protocol":"ivtm","slave_id":"7")";
            ids = false;
            regs = {{"A", R"("address":0,"format":"float")", {"1.5", "2.5"}},
                    {"B", R"("address":4,"format":"u32")", {"305419896", "305419897"}},
                    {"C", R"("address":8,"format":"u16")", {"4660", "4661"}}};
            weirdData = {{'Z', 'Z', '4', '5', '0', '0', '0', '0'}, {' ', '-', '4', '5', '0', '0', '0', '0'}, {'+', '1', '-', '2', ' ', '3', 'x', '4'},
                         {0, 0, 0, 0, 0, 0, 0, 0}, {'0', 'x', '4', '5', '0', '0', '0', '0'}};
        }
        void foreign(bool on) override
        {
            id = on ? 8 : 7;
        }
        bytes answer(const bytes& q, bool& data) override
        {
            if (q.size() != 16 || string(q.begin(), q.begin() + 7) != "$0007RR") {
                return {};
            }
            data = true;
            int addr = std::stoi(string(q.begin() + 7, q.begin() + 11), nullptr, 16);
            int n = std::stoi(string(q.begin() + 11, q.begin() + 13), nullptr, 16);
            uint32_t v = addr == 0 ? (version ? 0x40200000 : 0x3fc00000) : addr == 4 ? 305419896 + version : 4660 + version;
            string hexData;
            char b[16];
            for (int i = 0; i < n; ++i) {
                snprintf(b, sizeof b, "%02X", v >> (8 * i) & 0xff);
                hexData += b;
            }
            auto d = adjust(bytes(hexData.begin(), hexData.end()));
            snprintf(b, sizeof b, "!%04XRR", id);
            bytes a(b, b + 7);
            a.insert(a.end(), d.begin(), d.end());
            uint8_t s = 0;
            for (auto c: a) {
                s += c;
            }
            snprintf(b, sizeof b, "%02X\r", s);
            a.insert(a.end(), b, b + 3);
            return a;
        }
    };

    struct Lls: Meter
    {
        uint8_t id = 1;
        Lls()
        {
            name = "lls";
            device = R"("protocol":"lls","slave_id":"1")";
            regs = {{"A", R"("address":"0x0600","format":"u8")", {"26", "27"}},
                    {"B", R"("address":"0x0601","format":"u16")", {"1024", "1025"}},
                    {"C", R"("address":"0x0603","format":"u16")", {"6400", "6401"}},
                    {"D", R"("address":"0x2000","format":"u32")", {"70000", "70001"}}};
        }
        void foreign(bool on) override
        {
            id = on ? 2 : 1;
        }
        static uint8_t crc(const bytes& d)
        {
            uint8_t c = 0;
            for (auto x: d) {
                for (int j = 0; j < 8; ++j) {
                    bool mix = (c ^ x) & 1;
                    c >>= 1;
                    if (mix) {
                        c ^= 0x8c;
                    }
                    x >>= 1;
                }
            }
            return c;
        }
        bytes answer(const bytes& q, bool& data) override
        {
            if (q.size() != 4 || q[0] != 0x31 || q[1] != 1 || crc(q) != 0) {
                return {};
            }
            data = true;
            bytes d;
            if (q[2] == 6) {
                d.push_back(26 + version);
                le(d, 1024 + version, 2);
                le(d, 6400 + version, 2);
            } else if (q[2] == 0x20) {
                le(d, 70000 + version, 4);
            } else {
                return {};
            }
            d = adjust(d);
            bytes a{0x3e, id, (uint8_t)(q[2] ^ (otherRegister ? 0x26 : 0))};
            a.insert(a.end(), d.begin(), d.end());
            a.push_back(crc(a));
            return a;
        }
        bytes error(const bytes& q, int n) override
        {
            return n == 0 ? bytes{0x3e} : n == 1 ? bytes{0x3e, 1} : n == 2 ? bytes{0x3e, 1, 6} : n == 3 ? bytes{0x3e, 1, 0x20} : bytes{};
        }
    };

    struct Pulsar: Meter
    {
        bytes id{0x00, 0x10, 0x70, 0x80};
        Pulsar()
        {
            name = "pulsar";
            device = R"("protocol":"pulsar","slave_id":"107080")";
            regs = {{"A", R"("address":2,"format":"float")", {"24.5", "25.5"}},
                    {"B", R"("address":3,"format":"float")", {"44.5", "45.5"}},
                    {"C", R"("address":4,"format":"double")", {"1.5", "2.5"}}};
        }
        void foreign(bool on) override
        {
            id[3] = on ? 0x81 : 0x80;
        }
        static void crc(bytes& d)
        {
            auto c = CRC16::CalculateCRC16(d.data(), d.size());
            d.push_back(c >> 8);
            d.push_back(c);
        }
        bytes answer(const bytes& q, bool& data) override
        {
            if (q.size() != 14 || q[4] != 1 || q[5] != 14 || !std::equal(q.begin(), q.begin() + 4, bytes{0x00, 0x10, 0x70, 0x80}.begin())) {
                return {};
            }
            data = true;
            uint32_t mask = q[6] | q[7] << 8 | q[8] << 16 | (uint32_t)q[9] << 24;
            bytes d;
            if (mask == 4 || mask == 8) {
                float f = (mask == 4 ? 24.5 : 44.5) + version;
                d.resize(4);
                memcpy(d.data(), &f, 4);
            } else {
                double f = 1.5 + version;
                d.resize(8);
                memcpy(d.data(), &f, 8);
            }
            d = adjust(d);
            bytes a = id;
            a.push_back(1);
            a.push_back(d.size() + 10);
            a.insert(a.end(), d.begin(), d.end());
            a.push_back(q[10] ^ (otherRegister ? 1 : 0));
            a.push_back(q[11]);
            crc(a);
            return a;
        }
        bytes error(const bytes& q, int n) override
        {
            if (n > 1 || q.size() != 14) {
                return {};
            }
            bytes a = id;
            a.insert(a.end(), {0, 11, (uint8_t)(n + 1), q[10], q[11]});
            crc(a);
            return a;
        }
    };

    struct EnergomeraCe: Meter
    {
        uint16_t id = 0x0321;
        EnergomeraCe()
        {
            name = "energomera_ce";
            device = R"("protocol":"energomera_ce","slave_id":"801")";
            regs = {{"A", R"("address":"0x0132")", {"12345", "12346"}},
                    {"B", R"("address":"0x0133","format":"u32")", {"3234595035", "3234595036"}}, // 0xc0cc00db: stuffed bytes
                    {"C", R"("reg_type":"energy","address":"0x01300100")", {"70000", "70001"}}};
        }
        void foreign(bool on) override
        {
            id = on ? 0x0322 : 0x0321;
        }
        static uint8_t crc(const bytes& d)
        {
            uint8_t c = 0;
            for (auto x: d) {
                c ^= x;
                for (int i = 0; i < 8; ++i) {
                    c = c & 0x80 ? (c << 1) ^ 0xb5 : c << 1;
                }
            }
            return c;
        }
        static bytes stuff(const bytes& d)
        {
            bytes r{0xc0};
            for (auto x: d) {
                if (x == 0xc0 || x == 0xdb) {
                    r.push_back(0xdb);
                    r.push_back(x == 0xc0 ? 0xdc : 0xdd);
                } else {
                    r.push_back(x);
                }
            }
            r.push_back(0xc0);
            return r;
        }
        static bytes unstuff(const bytes& f)
        {
            bytes r;
            for (size_t i = 1; i + 1 < f.size(); ++i) {
                if (f[i] == 0xdb) {
                    ++i;
                    r.push_back(f[i] == 0xdc ? 0xc0 : 0xdb);
                } else {
                    r.push_back(f[i]);
                }
            }
            return r;
        }
        bytes pack(int cls, uint8_t c1, uint8_t c2, const bytes& d)
        {
            bytes a{0x48, 0xfd, 0x00, (uint8_t)id, (uint8_t)(id >> 8), (uint8_t)(cls << 4 | (d.size() & 15)), c1, c2};
            a.insert(a.end(), d.begin(), d.end());
            a.push_back(crc(a));
            return stuff(a);
        }
        bytes answer(const bytes& f, bool& data) override
        {
            auto q = unstuff(f);
            if (q.size() < 13 || crc(q) != 0 || q[1] != 0x21 || q[2] != 0x03) {
                return {};
            }
            data = true;
            bytes d;
            if (q[11] == 0x32) {
                d = {(uint8_t)(12345 >> 8), (uint8_t)(12345 + version)};
            } else if (q[11] == 0x33) {
                d = {0xc0, 0xcc, 0x00, (uint8_t)(0xdb + version)};
            } else if (q[11] == 0x30) {
                d = {1, 2, 3};
                le(d, 70000 + version, 4);
            } else {
                return {};
            }
            return pack(5, q[10], q[11] ^ (otherRegister ? 4 : 0), adjust(d));
        }
        bytes error(const bytes& f, int n) override
        {
            auto q = unstuff(f);
            return n < 2 && q.size() > 11 ? pack(7, q[10], q[11], {(uint8_t)(n + 1)}) : bytes();
        }
    };

    struct Aok: Meter
    {
        uint8_t id = 1;
        Aok()
        {
            name = "a_ok";
            device = R"("protocol":"a_ok","slave_id":"66051")"; // 0x010203
            ids = false;
            regs = {{"A", R"("reg_type":"position","address":0)", {"43", "44"}},
                    {"B", R"("reg_type":"zonebit","address":2)", {"0", "1"}},
                    {"C", R"("reg_type":"status","address":"0xcc00:8:8")", {"21", "22"}}};
        }
        void foreign(bool on) override
        {
            id = on ? 4 : 1;
        }
        bytes answer(const bytes& q, bool& data) override
        {
            uint8_t x = 0;
            for (size_t i = 1; i < q.size(); ++i) {
                x ^= q[i];
            }
            if (q.size() != 7 || q[0] != 0x9a || x || q[1] != 1 || q[2] != 2 || q[3] != 3) {
                return {};
            }
            data = true;
            uint8_t v = version;
            bytes d;
            if (q[4] == 0xcc) {
                d = {0x11, (uint8_t)(21 + v), 0x33, (uint8_t)(43 + v), 0};
            } else if (q[4] == 0xca) {
                d = {1, 2, 3, 99, (uint8_t)(v ? 4 : 3)};
            } else {
                return {};
            }
            d = adjust(d);
            bytes a{0xd8, id, 2, 3};
            a.insert(a.end(), d.begin(), d.end());
            x = 0;
            for (size_t i = 1; i < a.size(); ++i) {
                x ^= a[i];
            }
            a.push_back(x);
            return a;
        }
        bytes error(const bytes& q, int n) override
        {
            return n == 0 ? bytes{0xd8, 1, 2, 3} : n == 1 ? bytes{0xd8} : n == 2 ? bytes{0xd8, 1, 2, 3, 0xff, 0xff} : bytes{};
        }
    };

    struct Dooya: Meter
    {
        uint8_t id = 1;
        Dooya()
        {
            name = "dooya";
            device = R"("protocol":"dooya","slave_id":"257")";
            ids = false;
            regs = {{"A", R"("reg_type":"position","address":0)", {"43", "44"}},
                    {"B", R"("reg_type":"param","address":3)", {"0", "255"}},
                    {"C", R"("reg_type":"type","address":"0xf0","string_data_size":10)", {"roller", "venetian"}}};
        }
        void foreign(bool on) override
        {
            id = on ? 4 : 1;
        }
        static void crc(bytes& d)
        {
            auto c = CRC16::CalculateCRC16(d.data(), d.size());
            d.push_back(c >> 8);
            d.push_back(c);
        }
        bytes answer(const bytes& q, bool& data) override
        {
            if (q.size() != 8 || q[0] != 0x55 || q[1] != 1 || q[2] != 1 || q[3] != 1) {
                return {};
            }
            data = true;
            uint8_t v = version;
            bytes d;
            switch (q[4]) {
                case 2: d = {(uint8_t)(43 + v)}; break;
                case 3: d = {(uint8_t)(v ? 255 : 0)}; break;
                case 0xf0: d = {(uint8_t)(0x11 + v)}; break;
                default: return {};
            }
            d = adjust(d);
            bytes a{0x55, 1, id, 1, (uint8_t)d.size()};
            a.insert(a.end(), d.begin(), d.end());
            crc(a);
            return a;
        }
        bytes error(const bytes& q, int n) override
        {
            bytes a{0x55, 1, id, 1, (uint8_t)(0xf1 + n)};
            crc(a);
            return n < 3 ? a : bytes();
        }
    };

    struct WinDeco: Meter
    {
        uint8_t id = 3;
        WinDeco()
        {
            name = "windeco";
            device = R"("protocol":"windeco","slave_id":"3")";
            ids = false;
            regs = {{"A", R"("reg_type":"position","address":0)", {"43", "44"}},
                    {"B", R"("reg_type":"param","address":0)", {"2", "3"}}};
        }
        void foreign(bool on) override
        {
            id = on ? 4 : 3;
        }
        static void crc(bytes& d)
        {
            uint8_t c = 0;
            for (size_t i = 0; i < d.size(); ++i) {
                c += d[i] * (i + 1);
            }
            d.push_back(c);
        }
        bytes answer(const bytes& q, bool& data) override
        {
            if (q.size() != 7 || q[0] != 0x81 || q[3] != 1 || q[4] != 3) {
                return {};
            }
            data = true;
            if (q[5] != 6 && q[5] != 7) {
                return {};
            }
            bytes a{0x01, 0, 0, 1, id, (uint8_t)(q[5] == 6 ? 43 + version : 2 + version)};
            crc(a);
            return a;
        }
        bytes error(const bytes& q, int n) override
        {
            bytes a{0x01, 0, 0, 1, id, (uint8_t)(n == 0 ? 0xaa : n == 1 ? 0xbb : 101)};
            crc(a);
            return n < 3 && q.size() == 7 && q[5] == 6 ? a : bytes();
        }
    };

    struct Somfy: Meter
    {
        uint32_t id = 0x00080501;
        Somfy()
        {
            name = "somfy";
            device = R"("protocol":"somfy","slave_id":"525569")";
            regs = {{"A", R"("reg_type":"position","address":"0x0c","response_header":"0x0d")", {"43", "44"}},
                    {"B", R"("reg_type":"param","address":"0x21:0:8","response_header":"0x31")", {"1", "2"}}};
        }
        void foreign(bool on) override
        {
            id = on ? 0x00080502 : 0x00080501;
        }
        bytes frame(uint8_t header, const bytes& d)
        {
            bytes a{header, (uint8_t)(11 + d.size()), 0x02};
            le(a, id, 3);
            le(a, 0xffff, 3);
            a.insert(a.end(), d.begin(), d.end());
            uint16_t s = 0;
            for (auto& x: a) {
                x = ~x;
                s += x;
            }
            a.push_back(s >> 8);
            a.push_back(s);
            return a;
        }
        bytes answer(const bytes& f, bool& data) override
        {
            auto q = f;
            if (f.size() < 11) {
                return {};
            }
            for (size_t i = 0; i + 2 < q.size(); ++i) {
                q[i] = ~q[i];
            }
            if ((q[6] | q[7] << 8 | q[8] << 16) != 0x00080501) {
                return {};
            }
            data = true;
            uint8_t v = version;
            if (q[0] == 0x0c) {
                return frame(otherRegister ? 0x31 : 0x0d, adjust({0x10, 0x11, (uint8_t)(43 + v), 0x00, 0x22}));
            }
            if (q[0] == 0x21) {
                return frame(otherRegister ? 0x0d : 0x31, adjust({(uint8_t)(1 + v)}));
            }
            return {};
        }
        bytes error(const bytes& q, int n) override
        {
            static const bytes raw[] = {{0xff}, {0xff, 0xff}, {0xf2, 0xf4}, {0x00, 0x00, 0x00}};
            return n == 0 ? frame(0x6f, {0x10}) : n == 1 ? frame(0x6f, {}) : n < 6 ? raw[n - 2] : bytes();
        }
    };

    struct Neva: Meter
    {
        Neva()
        {
            name = "neva";
            device = R"("protocol":"neva","slave_id":"00000201")";
            session = true;
            open = false;
            regs = {{"A", R"("reg_type":"default","address":"0x100700FF")", {"5.3", "5.4"}},
                    {"B", R"("reg_type":"item_1","address":"0x0F0880FF")", {"10.5", "11.5"}},
                    {"C", R"("reg_type":"item_3","address":"0x0F0880FF")", {"30.5", "31.5"}},
                    {"D", R"("reg_type":"temperature","address":"0x600900FF")", {"-29", "29"}}};
            auto s = [](const char* p) { return bytes(p, p + strlen(p)); };
            weirdData = {s("()"), s("( )"), s("(,)"), s("(abc)"), s(")"), s("("), s("(1"), s("1)"), s("((((((()"), s("(ERR")};
            masks[0] = 1;
            masks[1] = 0x10;
            masks[2] = 0x40;
        }
        int mode = 0; // 1: signed on, 2: programming mode, 3: password is accepted
        bool other = false;
        void foreign(bool on) override
        {
            other = on;
        }
        bytes block(const string& s, const string& tail)
        {
            bytes a(s.begin(), s.end());
            a.insert(a.end(), tail.begin(), tail.end());
            a.push_back(3);
            uint8_t x = 0;
            for (size_t i = 1; i < a.size(); ++i) {
                x ^= a[i];
            }
            a.push_back(x & 0x7f);
            return a;
        }
        bytes answer(const bytes& q, bool& data) override
        {
            string s(q.begin(), q.end());
            if (s == "/?00000201!\r\n") {
                mode = 1;
                string r = "/TPC5NEVAMT324.2307\r\n";
                return bytes(r.begin(), r.end());
            }
            if (s == "\x06" "051\r\n" && mode == 1) {
                mode = 2;
                return block("\x01P0\x02", "(00000000)");
            }
            if (s.substr(0, 4) == "\x01P1\x02" && mode == 2) {
                mode = 3;
                open = true;
                return {6};
            }
            if (s.substr(0, 3) == "\x01" "B0") {
                mode = 0;
                open = false;
                return {};
            }
            if (s.substr(0, 4) != "\x01R1\x02" || mode != 3 || !open) {
                return {};
            }
            auto addr = s.substr(4, 8);
            string d;
            if (addr == "100700FF") {
                d = version ? "(00005.4)" : "(00005.3)";
            } else if (addr == "0F0880FF") {
                d = version ? "(11.5,21.5,31.5,41.5,51.5)" : "(10.5,20.5,30.5,40.5,50.5)";
            } else if (addr == "600900FF") {
                d = version ? "(029)" : "(129)";
            } else {
                return block("\x02", "(01)");
            }
            data = true;
            auto b = adjust(bytes(d.begin(), d.end()));
            if (shorten < 0 && weird.empty()) {
                d.insert(d.size() - 1, ",7"); // a longer list
            } else if (shorten > 0 && weird.empty()) {
                d = d.find(',') != string::npos ? d.substr(0, d.find(',')) + ")" : "()";
            } else {
                d.assign(b.begin(), b.end());
            }
            if (otherRegister || other) {
                addr[7] = 'E';
            }
            return block("\x02" + addr, d);
        }
        bytes error(const bytes& q, int n) override
        {
            bool read = q.size() > 3 && q[1] == 'R';
            static const bytes raw[] = {{0x15}, {0x06}, {0x02}, {0x02, 0x03}, {0x02, 0x03, 0x03}, {0x02, '(', 0x03, '('^3}, {0x02, '(', ')', 0x03, '('^')'^3}};
            return !read ? bytes() : n < 4 ? block("\x02", mc::str("(0", n, ")")) : n < 11 ? raw[n - 4] : bytes();
        }
    };

    struct EnergomeraIec: Meter
    {
        bool other = false;
        EnergomeraIec()
        {
            name = "energomera_iec";
            device = R"("protocol":"energomera_iec","slave_id":"00000211")";
            regs = {{"A", R"("reg_type":"group_single","address":"0x100101")", {"0.875", "0.5"}},
                    {"B", R"("reg_type":"group_single","address":"0x400101")", {"1.25", "-1.5"}},
                    {"C", R"("reg_type":"group_single","address":"0x400103")", {"256.5", "0"}}};
            auto s = [](const char* p) { return bytes(p, p + strlen(p)); };
            weirdData = {s(""), s("("), s("1001"), s("1001()"), s("1001(0.875"), s("1001(0.875)4001(1.25)(256.5)(2"), s("1001(0.875)4001(E5)(E5)(E5"), s("4001(1)(2)(3)"), s("(1)(2)"), s("XYZW(1)")};
        }
        void foreign(bool on) override
        {
            other = on;
        }
        bytes answer(const bytes& q, bool& data) override
        {
            string s(q.begin(), q.end());
            const string head = "/?00000211!\x01R1\x02GROUP(";
            if (s.substr(0, head.size()) != head) {
                return {};
            }
            uint8_t bcc = 0;
            auto from = s.find('\x01') + 1;
            for (size_t i = from; i + 1 < s.size(); ++i) {
                bcc += s[i];
            }
            if ((bcc & 0x7f) != (uint8_t)s.back() || s[s.size() - 2] != 3 || s[s.size() - 3] != ')') {
                return {};
            }
            data = true;
            static const std::map<string, std::vector<std::pair<string, string>>> values = {
                {"1001", {{"0.875", "0.5"}}}, {"4001", {{"1.25", "-1.5"}, {"3.5", "4.5"}, {"256.5", "0"}}}};
            string d;
            auto groups = s.substr(head.size(), s.size() - head.size() - 3);
            for (size_t i = 0; i + 6 < groups.size() + 1;) {
                auto id = groups.substr(i, 4);
                auto e = groups.find(')', i);
                auto mask = std::stoi(groups.substr(i + 5, e - i - 5), nullptr, 16);
                i = e + 1;
                auto it = values.find(id);
                d += id;
                for (int b = 0; b < 16; ++b) {
                    if (mask >> b & 1) {
                        d += it != values.end() && b < (int)it->second.size() ? "(" + (version ? it->second[b].second : it->second[b].first) + ")" : "(E5)";
                    }
                }
            }
            auto b = adjust(bytes(d.begin(), d.end()));
            d.assign(b.begin(), b.end());
            d = "\x02" + d + "\x03";
            bcc = 0;
            for (size_t i = 1; i < d.size(); ++i) {
                bcc += d[i];
            }
            d.push_back(bcc & 0x7f);
            return bytes(d.begin(), d.end());
        }
        bytes error(const bytes& q, int n) override
        {
            static const char* texts[] = {"1001(E5)4001(E5)(E5)", "1001(E)4001(E)(E)", "1001(E1)", "1001(0.875)4001(E3)(256.5)", "ERR"};
            if (n > 4) {
                return {};
            }
            string d = mc::str("\x02", texts[n], "\x03");
            uint8_t bcc = 0;
            for (size_t i = 1; i < d.size(); ++i) {
                bcc += d[i];
            }
            d.push_back(bcc & 0x7f);
            return bytes(d.begin(), d.end());
        }
    };

    std::unique_ptr<Meter> make(int n)
    {
        switch (n) {
            case 0: return std::make_unique<Uniel>();
            case 1: return std::make_unique<Milur>(1);
            case 2: return std::make_unique<Milur>(4);
            case 3: return std::make_unique<Mercury230>();
            case 4: return std::make_unique<Mercury200>();
            case 5: return std::make_unique<Ivtm>();
            case 6: return std::make_unique<Lls>();
            case 7: return std::make_unique<Pulsar>();
            case 8: return std::make_unique<EnergomeraCe>();
            case 9: return std::make_unique<Aok>();
            case 10: return std::make_unique<Dooya>();
            case 11: return std::make_unique<WinDeco>();
            case 12: return std::make_unique<Somfy>();
            case 13: return std::make_unique<Neva>();
            default: return std::make_unique<EnergomeraIec>();
        }
    }
    const int METERS = 15;

    enum Kind
    {
        NONE,
        SILENCE,
        LATE_SOON, // just after the timeout, during the next exchange
        LATE,
        CUT,
        CHANGED,
        EXTRA_AFTER,
        EXTRA_BEFORE,
        FOREIGN,
        OTHER_REGISTER,
        ERROR,
        SHORTER,
        LONGER,
        WEIRD,
        CLOSED,
        KINDS
    };
    const char* KIND_NAMES[] = {"none", "silence", "late, next exchange", "late", "cut", "changed", "extra after", "extra before",
                                "foreign", "other register", "error", "shorter", "longer", "weird", "closed"};

    void drivers()
    {
        int which = mc::choose(METERS, "protocol");
        auto m = make(which);
        int kind = mc::choose(KINDS, "disturbance");
        if ((kind == LATE_SOON || kind == OTHER_REGISTER) && !m->ids) {
            return;
        }
        bool anySize = which == 0 || which == 8 || which == 11; // a fixed size, or any one is right
        if ((kind == CLOSED && (!m->session || which == 13)) || (kind == WEIRD && m->weirdData.empty()) ||
            ((kind == SHORTER || kind == LONGER) && anySize) || ((which == 0 || which == 14) && kind == FOREIGN))
        {
            return;
        }
        int nth = kind == NONE ? 0 : mc::choose(2 * m->regs.size() + (m->session ? 3 : 1), "exchange");
        static const int64_t DURATIONS[] = {0, 12 * SEC}; // that exchange only, all exchanges for the time
        int64_t duration = kind == NONE ? 0 : DURATIONS[mc::choose(2, "duration")];
        int arg = -1; // chosen when the answer is known
#ifdef __SANITIZE_ADDRESS__
        bool patient = false;
#else
        bool patient = kind != NONE && mc::choose(2, "device_timeout_ms"); // the device isn't lost and found again meanwhile
#endif
        int mask = 0;

        World w;
        w.bus->byteUs = 1145.8;
        std::string channels;
        for (auto& r: m->regs) {
            channels += mc::str(channels.empty() ? "" : ",", R"({"name":")", r.name, R"(",)", r.cfg, R"(,"read_period_ms":4000})");
        }
        auto cfg = json(mc::str("{", m->device, patient ? R"(,"device_timeout_ms":60000)" : "", R"(,"response_timeout_ms":200,"frame_timeout_ms":15,"channels":[)", channels, "]}"));
        string id = "dev" + cfg["slave_id"].asString();

        bool changed = false;
        int64_t busyTill = 0;
        int exchanges = 0;
        int64_t disturbed = -1;
        bool dataSeen = false;
        int traffic = 0;
        std::vector<int64_t> recent; // requests of data
        w.net.raw = [&](const bytes& q) -> std::optional<bytes> {
            if (++traffic > 4000) {
                mc::fail("endless-exchange", mc::str(m->name, ", ", KIND_NAMES[kind], ": requests are repeated without an end"));
                throw ExecutionEnd();
            }
            if (mc::tracing()) {
                mc::note(mc::str(w.now() / MS, " ms -> ", hex(q)));
            }
            if (w.now() < busyTill) {
                return bytes(); // the device is thinking about an earlier request
            }
            bool data = false;
            bool hit = kind != NONE && (disturbed < 0 ? exchanges == nth : w.now() < disturbed + duration);
            if (hit) {
                m->otherRegister = kind == OTHER_REGISTER;
                m->foreign(kind == FOREIGN);
                if (kind == SHORTER || kind == LONGER) {
                    if (arg < 0) {
                        arg = mc::choose(6, "bytes");
                    }
                    m->shorten = kind == SHORTER ? arg + 1 : -arg - 1;
                }
                if (kind == WEIRD) {
                    if (arg < 0) {
                        arg = mc::choose(m->weirdData.size(), "data");
                    }
                    m->weird = m->weirdData[arg];
                }
            }
            int version = m->version;
            if (hit && kind == FOREIGN) {
                m->version = 2; // its values differ
            }
            auto a = m->answer(q, data);
            m->version = version;
            m->otherRegister = 0;
            m->foreign(false);
            m->shorten = 0;
            m->weird.clear();
            if (a.empty()) {
                return bytes();
            }
            dataSeen = dataSeen || data;
            if (data) {
                recent.push_back(w.now());
                if (recent.size() > 30 && recent[recent.size() - 31] > w.now() - 2 * SEC) {
                    mc::fail("endless-exchange", mc::str(m->name, ", ", KIND_NAMES[kind], ": more than 30 requests in 2 s"));
                    throw ExecutionEnd();
                }
            }
            ++exchanges;
            int64_t delay = 5 * MS;
            if (hit) {
                if (disturbed < 0) {
                    disturbed = w.now();
                }
                if (mc::tracing()) {
                    mc::note(mc::str("disturbed: ", KIND_NAMES[kind]));
                }
                switch (kind) {
                    case SILENCE:
                        return bytes();
                    case LATE_SOON:
                        delay = 230 * MS;
                        break;
                    case LATE:
                        delay = 2500 * MS;
                        break;
                    case CUT:
                        if (arg < 0) {
                            arg = 1 + mc::choose(std::max<int>(1, a.size() - 1), "bytes");
                        }
                        a.resize(std::min<size_t>(a.size(), arg));
                        break;
                    case CHANGED:
                        if (arg < 0) {
                            arg = mc::choose(a.size(), "byte");
                            mask = m->masks[mc::choose(3, "bit")];
                        }
                        a[std::min<size_t>(arg, a.size() - 1)] ^= mask;
                        break;
                    case EXTRA_AFTER:
                        if (arg < 0) {
                            arg = mc::choose(3, "byte");
                        }
                        a.push_back(arg == 0 ? 0 : arg == 1 ? 0x55 : a.back());
                        break;
                    case EXTRA_BEFORE:
                        if (arg < 0) {
                            arg = mc::choose(3, "byte");
                        }
                        a.insert(a.begin(), arg == 0 ? 0 : arg == 1 ? 0x55 : a.front());
                        break;
                    case ERROR: {
                        if (arg < 0) {
                            arg = mc::choose(12, "error");
                        }
                        auto e = m->error(q, arg);
                        if (!e.empty()) {
                            a = e;
                        }
                        break;
                    }
                    case CLOSED: {
                        auto e = m->closed(q);
                        if (data && !e.empty()) {
                            m->open = false;
                            a = e;
                        }
                        break;
                    }
                    default:
                        break;
                }
            }
            if (mc::tracing()) {
                mc::note(mc::str(w.now() / MS, " ms <- ", hex(a), delay > 5 * MS ? mc::str("after ", delay / MS, " ms") : ""));
            }
            if (delay > 5 * MS) {
                busyTill = w.now() + (kind == LATE ? delay : 0);
            }
            w.bus->Reply(a, delay);
            return bytes();
        };
        std::map<string, string> value, err;
        std::map<string, string> expected[2];
        for (auto& r: m->regs) {
            expected[0][r.name] = r.shown[0];
            expected[1][r.name] = r.shown[1];
        }
        w.mqtt->OnPublish = [&](const WBMQTT::TPublication& p) {
            if (p.HasValue) {
                value[p.Control] = p.Value;
            }
            if (p.HasError) {
                err[p.Control] = p.Error;
            }
            if (mc::tracing()) {
                mc::note(mc::str(w.now() / MS, " ms ", p.Control, p.HasValue ? " = " + p.Value : "", p.HasError ? " error '" + p.Error + "'" : ""));
            }
            if (expected[0].count(p.Control) && p.HasValue && err[p.Control].find('r') == string::npos && !p.Value.empty()) {
                bool good = p.Value == expected[0][p.Control] || (changed && p.Value == expected[1][p.Control]);
                MC_CHECK(good, "wrong-value " + m->name, p.Control, " of ", m->name, " shows ", p.Value, " after '", KIND_NAMES[kind], "', the register is ", expected[0][p.Control], " or ", expected[1][p.Control]);
            }
        };
        try {
            w.device(cfg);
            w.begin();
            const int64_t FIRST = 8 * SEC;
            w.runTo(FIRST);
            if (kind == NONE) {
                for (auto& r: m->regs) {
                    MC_CHECK(value[r.name] == r.shown[0] && err[r.name].find_first_of("rw") == string::npos, "not-read " + m->name, r.name, " of ", m->name, " shows '", value[r.name], "' error '", err[r.name], "'");
                }
            }
            m->version = 1;
            changed = true;
            int64_t from = std::max(FIRST, disturbed < 0 ? 0 : disturbed + duration);
            w.runTo(from + 24 * SEC);
            // a value of an earlier exchange would be shown later than it must
            m->version = 0;
            w.runTo(from + 30 * SEC);
        } catch (const ExecutionEnd&) {
            return;
        } catch (const std::exception& e) {
            mc::fail("exception " + m->name, mc::str(m->name, ", ", KIND_NAMES[kind], ": an exception stops the port: ", e.what()));
            return;
        }
        if (kind != NONE && disturbed < 0) {
            return;
        }
        for (auto& r: m->regs) {
            MC_CHECK(value[r.name] == r.shown[0] && err[r.name].find_first_of("rw") == string::npos, "not-recovered " + m->name, r.name, " of ", m->name, " shows '", value[r.name], "' error '", err[r.name],
                     "' 30 s after '", KIND_NAMES[kind], "', the register is ", r.shown[0]);
        }
        mc::nontrivial();
        mc::cover(KIND_NAMES[kind]);
        mc::cover(m->name.c_str());
        uint64_t h = 7;
        for (auto& p: w.mqtt->Log) {
            for (auto c: p.Control + p.Value + p.Error) {
                h = mc::mix(h, c);
            }
        }
        mc::outcome(h);
        mc::state(h);
    }

    // ---------------------------------------------------------------- commands

    struct Ctl
    {
        string name, cfg;
        std::vector<int> values;
        int initial;
        bool readable = true;
    };

    //! A device with a state, answers only intact requests to it
    struct Actor
    {
        string name, device;
        std::vector<Ctl> ctls;
        std::map<string, int> state;
        int writes = 0;
        bool ids = true;

        virtual ~Actor() = default;
        //! empty: no answer. written: it is a command, wants is whether the device has to execute it
        virtual bytes answer(const bytes& q, bool execute, bool& written) = 0;
        virtual bytes refuse(const bytes& q)
        {
            return {};
        }
        void set(const string& n, int v, bool execute)
        {
            if (execute) {
                state[n] = v;
                ++writes;
            }
        }
    };

    struct UnielA: Actor
    {
        UnielA()
        {
            name = "uniel";
            device = R"("protocol":"uniel","slave_id":"1")";
            ctls = {{"A", R"("reg_type":"relay","address":"0x1b")", {1, 0}, 0},
                    {"B", R"("reg_type":"param","address":"0x02")", {7, 255}, 100},
                    {"C", R"("reg_type":"brightness","address":"0x0141")", {33, 0}, 12}};
        }
        bytes answer(const bytes& q, bool execute, bool& written) override
        {
            if (q.size() != 8 || q[0] != 0xff || q[1] != 0xff || q[3] != 1 || q[7] != (uint8_t)(q[2] + q[3] + q[4] + q[5] + q[6])) {
                return {};
            }
            written = q[2] != 5;
            uint8_t v = q[4];
            if (q[2] == 5) {
                switch (q[5]) {
                    case 0x1b: v = state["A"] ? 255 : 0; break;
                    case 0x02: v = state["B"]; break;
                    case 0x41: v = state["C"]; break;
                    default: return {};
                }
            } else if (q[2] == 6) {
                switch (q[5]) {
                    case 0x1b: set("A", v == 255 ? 1 : v, execute); break;
                    case 0x02: set("B", v, execute); break;
                    default: return {};
                }
            } else if (q[2] == 10 && q[5] == 1) {
                set("C", v, execute);
            } else {
                return {};
            }
            bytes a{0xff, 0xff, q[2], 0, v, q[5], 0};
            a.push_back(a[2] + a[3] + a[4] + a[5] + a[6]);
            return a;
        }
    };

    struct DooyaA: Actor
    {
        DooyaA()
        {
            ids = false;
            name = "dooya";
            device = R"("protocol":"dooya","slave_id":"257")";
            ctls = {{"A", R"("reg_type":"position","address":0)", {0, 100, 50}, 43},
                    {"B", R"("reg_type":"param","address":3)", {1, 0}, 0},
                    {"D", R"("reg_type":"command","address":"0x0502","on_value":1,"type":"pushbutton")", {1}, 0, false}};
        }
        bytes frame(const bytes& d)
        {
            bytes a{0x55, 1, 1};
            a.insert(a.end(), d.begin(), d.end());
            Dooya::crc(a);
            return a;
        }
        bytes answer(const bytes& q, bool execute, bool& written) override
        {
            if (q.size() < 7 || frame(bytes(q.begin() + 3, q.end() - 2)) != q) {
                return {};
            }
            written = q[3] != 1;
            if (q[3] == 1 && q.size() == 8) {
                return q[4] == 2 ? frame({1, 1, (uint8_t)state["A"]}) : q[4] == 3 ? frame({1, 1, (uint8_t)state["B"]}) : bytes();
            }
            if (q[3] == 2 && q[4] == 3 && q[5] == 1 && q.size() == 9) {
                set("B", q[6], execute);
                return frame({2, 3, 1});
            }
            if (q[3] == 3) {
                if (q.size() == 7 && q[4] == 1) {
                    set("A", 100, execute);
                } else if (q.size() == 7 && q[4] == 2) {
                    set("A", 0, execute);
                } else if (q.size() == 8 && q[4] == 4 && q[5] <= 100) {
                    set("A", q[5], execute);
                } else if (q.size() == 8 && q[4] == 5) {
                    set("D", q[5] == 2 ? 1 : -1, execute);
                } else {
                    return {};
                }
                return q;
            }
            return {};
        }
        bytes refuse(const bytes& q) override
        {
            return q.size() > 4 && q[3] == 3 ? frame({3, q[4], 0xff}) : bytes();
        }
    };

    struct WinDecoA: Actor
    {
        WinDecoA()
        {
            ids = false;
            name = "windeco";
            device = R"("protocol":"windeco","slave_id":"3")";
            ctls = {{"A", R"("reg_type":"position","address":0)", {0, 100, 50}, 43},
                    {"B", R"("reg_type":"param","address":0,"readonly":true)", {}, 2},
                    {"D", R"("reg_type":"command","address":3,"on_value":1,"type":"pushbutton")", {1}, 0, false}};
        }
        bytes answer(const bytes& q, bool execute, bool& written) override
        {
            bytes c(q.begin(), q.end() - 1);
            WinDeco::crc(c);
            if (q.size() != 7 || q[0] != 0x81 || q[3] != 1 || q[4] != 3 || c != q) {
                return {};
            }
            uint8_t r = q[5];
            written = r != 6 && r != 7;
            switch (r) {
                case 6: r = state["A"]; break;
                case 7: r = state["B"]; break;
                case 2: set("A", 100, execute); break;
                case 4: set("A", 0, execute); break;
                case 3: set("D", 1, execute); break;
                default:
                    if (r < 0x80 || r > 0x80 + 100) {
                        return {};
                    }
                    r &= 0x7f;
                    set("A", r, execute);
            }
            bytes a{0x01, 0, 0, 1, 3, r};
            WinDeco::crc(a);
            return a;
        }
        bytes refuse(const bytes& q) override
        {
            bytes a{0x01, 0, 0, 1, 3, 0xaa};
            WinDeco::crc(a);
            return q.size() == 7 && q[5] == 7 ? bytes() : a;
        }
    };

    struct SomfyA: Actor
    {
        Somfy f;
        SomfyA()
        {
            name = "somfy";
            device = f.device;
            ctls = {{"A", R"("reg_type":"position","address":"0x0c","response_header":"0x0d")", {0, 100, 50}, 43},
                    {"B", R"("reg_type":"param","address":"0x23:8:8","response_header":"0x33","write_address":"0x13")", {9, 0}, 5},
                    {"C", R"("reg_type":"param","address":"0x23:0:8","response_header":"0x33","write_address":"0x13")", {8, 255}, 4},
                    {"D", R"("reg_type":"command","address":"0x02","on_value":"0x0101","type":"pushbutton")", {1}, 0, false}};
        }
        bytes answer(const bytes& raw, bool execute, bool& written) override
        {
            auto q = raw;
            if (q.size() < 11) {
                return {};
            }
            uint16_t sum = 0;
            for (size_t i = 0; i + 2 < q.size(); ++i) {
                sum += q[i];
                q[i] = ~q[i];
            }
            if (sum != (q[q.size() - 2] << 8 | q.back()) || (q[1] & 0x1f) != q.size() || (q[6] | q[7] << 8 | q[8] << 16) != 0x00080501) {
                return {};
            }
            bytes d(q.begin() + 9, q.end() - 2);
            written = q[0] != 0x0c && q[0] != 0x23;
            switch (q[0]) {
                case 0x0c: return f.frame(0x0d, {0x10, 0x11, (uint8_t)state["A"], 0, 0x22});
                case 0x23: return f.frame(0x33, {(uint8_t)state["C"], (uint8_t)state["B"], 6, 7});
                case 0x03:
                    if (d.size() < 4) {
                        return {};
                    }
                    set("A", d[0] == 0 ? 100 : d[0] == 1 ? 0 : d[0] == 4 || d[0] == 7 ? d[1] : -1, execute);
                    return f.frame(0x7f, {});
                case 0x13:
                    if (d.size() < 3) {
                        return {};
                    }
                    set("C", d[0], execute);
                    set("B", d[1], execute);
                    MC_CHECK(d[2] == 6, "other-setting", "other settings of somfy are changed: ", hex(d));
                    return f.frame(0x7f, {});
                case 0x02:
                    set("D", d == bytes{1} ? 1 : -1, execute);
                    return f.frame(0x7f, {});
                default: return {};
            }
        }
        bytes refuse(const bytes& q) override
        {
            return f.frame(0x6f, {0x10});
        }
    };

    struct S2kA: Actor
    {
        static uint8_t crc(const bytes& d)
        {
            // CRC-8 of Dallas, with two odd values of the table of the driver
            uint8_t c = 0;
            for (auto b: d) {
                uint8_t i = c ^ b, x = i;
                for (int k = 0; k < 8; ++k) {
                    x = x & 1 ? x >> 1 ^ 0x8c : x >> 1;
                }
                c = i == 247 ? 0xf6 : i == 249 ? 0xfc : x;
            }
            return c;
        }
        S2kA()
        {
            name = "s2k";
            device = R"("protocol":"s2k","slave_id":"5")";
            ctls = {{"A", R"("reg_type":"relay","address":1)", {1, 0}, 0},
                    {"B", R"("reg_type":"relay","address":4)", {1, 0}, 0},
                    {"C", R"("reg_type":"relay_default","address":2,"readonly":true)", {}, 6},
                    {"E", R"("reg_type":"relay_delay","address":2,"readonly":true)", {}, 17}};
        }
        bytes answer(const bytes& q, bool execute, bool& written) override
        {
            if (q.size() != 7 || q[0] != 5 || q[1] != 6 || crc(bytes(q.begin(), q.end() - 1)) != q[6]) {
                return {};
            }
            written = q[3] == 0x15;
            bytes a;
            if (q[3] == 0x15 && (q[4] == 1 || q[4] == 4)) {
                set(q[4] == 1 ? "A" : "B", q[5] == 1 ? 1 : q[5] == 2 ? 0 : -1, execute);
                a = {5, 5, 0x16, q[4], q[5]};
            } else if (q[3] == 5 && (q[4] == 2 || q[4] == 6)) {
                a = {5, 5, 6, q[4], (uint8_t)(q[4] == 2 ? state["C"] : state["E"])};
            } else {
                return {};
            }
            a.push_back(crc(a));
            return a;
        }
        bytes refuse(const bytes& q) override // of a relay which doesn't exist
        {
            bytes a{5, 5, (uint8_t)(q[3] == 0x15 ? 0x16 : 6), 200, 1};
            a.push_back(crc(a));
            return a;
        }
    };

    struct AokA: Actor
    {
        AokA()
        {
            ids = false;
            name = "a_ok";
            device = R"("protocol":"a_ok","slave_id":"66051")";
            ctls = {{"A", R"("reg_type":"position","address":0)", {0, 100, 50}, 43},
                    {"B", R"("reg_type":"zonebit","address":2,"max":1)", {1, 0}, 0},
                    {"C", R"("reg_type":"zonebit","address":5,"max":1)", {1, 0}, 0},
                    {"D", R"("reg_type":"command","address":"0xcc","on_value":1,"type":"pushbutton")", {1}, 0, false}};
        }
        bytes answer(const bytes& q, bool execute, bool& written) override
        {
            uint8_t x = 0;
            for (size_t i = 1; i < q.size(); ++i) {
                x ^= q[i];
            }
            if (q.size() != 7 || q[0] != 0x9a || x || q[1] != 1 || q[2] != 2 || q[3] != 3) {
                return {};
            }
            written = q[4] != 0xcc && q[4] != 0xca;
            bytes d;
            switch (q[4]) {
                case 0xcc: d = {1, 2, 3, (uint8_t)state["A"], 0}; break;
                case 0xca: d = {1, 2, 3, 99, (uint8_t)(0x41 | state["B"] << 2 | state["C"] << 5)}; break;
                case 0xdd: set("A", q[5], execute); return {};
                case 0x0a: set("D", q[5] == 0xcc ? 1 : -1, execute); return {};
                case 0xd5:
                    MC_CHECK((q[5] & 0xdb) == 0x41, "other-setting", "other settings of a_ok are changed: ", hex(q));
                    set("B", q[5] >> 2 & 1, execute);
                    set("C", q[5] >> 5 & 1, execute);
                    return {};
                default: return {};
            }
            bytes a{0xd8, 1, 2, 3};
            a.insert(a.end(), d.begin(), d.end());
            x = 0;
            for (size_t i = 1; i < a.size(); ++i) {
                x ^= a[i];
            }
            a.push_back(x);
            return a;
        }
    };

    const int ACTORS = 6;
    std::unique_ptr<Actor> makeActor(int n)
    {
        switch (n) {
            case 0: return std::make_unique<UnielA>();
            case 1: return std::make_unique<DooyaA>();
            case 2: return std::make_unique<WinDecoA>();
            case 3: return std::make_unique<SomfyA>();
            case 4: return std::make_unique<S2kA>();
            default: return std::make_unique<AokA>();
        }
    }

    enum Fault
    {
        F_NONE,
        F_REQUEST, // the device doesn't get the request
        F_ANSWER,  // the answer is lost
        F_LATE,
        F_CUT,
        F_CHANGED,
        F_REFUSED,
        FAULTS
    };
    const char* FAULT_NAMES[] = {"command", "request lost", "answer lost", "answer late", "answer cut", "answer changed", "refused"};

    //! Two commands, one of exchanges after the first one is disturbed
    void commands()
    {
        int which = mc::choose(ACTORS, "protocol");
        auto m = makeActor(which);
        std::vector<std::pair<int, int>> all;
        for (size_t c = 0; c < m->ctls.size(); ++c) {
            for (auto v: m->ctls[c].values) {
                all.push_back({c, v});
            }
        }
        auto first = all[mc::choose(all.size(), "first command")];
#ifdef __SANITIZE_ADDRESS__
        int second = mc::choose(2, "second command") ? (first.first + 1) % all.size() : -1; // memory is watched here
#else
        int second = mc::choose(all.size() + 1, "second command") - 1;
#endif
        int64_t pause = second < 0 ? 0 : mc::choose(2, "pause") * 210 * MS;
        int fault = mc::choose(FAULTS, "fault");
        bool answers = which != 5; // commands are answered
        int nth = fault == F_NONE ? 0 : mc::choose(4, "exchange");
        int64_t duration = fault == F_NONE ? 0 : mc::choose(2, "duration") * 3 * SEC;
        int arg = -1;
        if (!m->ids && fault == F_LATE && duration) {
            return;
        }
        if (which == 4 && fault == F_LATE && second >= 0 && all[second].first == first.first && all[second].second != first.second) {
            return; // nobody can tell the answer to an earlier command of the same relay
        }
        if (!answers && (fault == F_REQUEST || fault == F_REFUSED)) {
            return; // nobody knows that the command is lost
        }

        World w;
        w.bus->byteUs = 1145.8;
        std::string channels;
        for (auto& c: m->ctls) {
            m->state[c.name] = c.initial;
            channels += mc::str(channels.empty() ? "" : ",", R"({"name":")", c.name, R"(",)", c.cfg, R"(,"read_period_ms":2000})");
        }
        auto cfg = json(mc::str("{", m->device, R"(,"response_timeout_ms":200,"frame_timeout_ms":15,"channels":[)", channels, "]}"));
        string id = "dev" + cfg["slave_id"].asString();
        bool armed = false;
        int exchanges = 0;
        int64_t disturbed = -1;
        int refused = 0;
        int64_t refusedAt = -1;
        w.net.raw = [&](const bytes& q) -> std::optional<bytes> {
            bool written = false;
            auto before = m->state;
            bool hit = fault != F_NONE && armed && (disturbed < 0 ? exchanges == nth : w.now() < disturbed + duration);
            if (armed) {
                ++exchanges;
            }
            if (hit && disturbed < 0) {
                disturbed = w.now();
            }
            bool execute = !(hit && (fault == F_REQUEST || fault == F_REFUSED));
            auto a = m->answer(q, execute, written);
            if (!armed) {
                MC_CHECK(!written, "command-unasked", m->name, " is written without a command");
            }
            if (!written || !armed) {
                MC_CHECK(before == m->state, "state-changed", "a read changes the state of ", m->name);
            }
            int64_t delay = 5 * MS;
            if (hit) {
                switch (fault) {
                    case F_REQUEST:
                    case F_ANSWER:
                        a.clear();
                        break;
                    case F_LATE:
                        // nobody can tell a late answer to a read from that to another one
                        if (written || m->ids) {
                            delay = 230 * MS;
                        }
                        break;
                    case F_CUT:
                        if (a.size() > 1) {
                            a.resize(a.size() - 1);
                        }
                        break;
                    case F_CHANGED:
                        if (!a.empty()) {
                            if (arg < 0) {
                                arg = mc::choose(2, "byte");
                            }
                            a[a.size() - 1 - arg] ^= 0x10;
                        }
                        break;
                    case F_REFUSED: {
                        auto e = m->refuse(q);
                        if (!e.empty()) {
                            a = e;
                            if (written) {
                                ++refused;
                                refusedAt = w.now();
                            }
                        } else {
                            a.clear();
                        }
                        break;
                    }
                }
            }
            if (mc::tracing()) {
                mc::note(mc::str(w.now() / MS, " ms -> ", hex(q), " <- ", hex(a), hit ? mc::str(" ", FAULT_NAMES[fault]) : ""));
            }
            if (!a.empty()) {
                w.bus->Reply(a, delay);
            }
            return bytes();
        };
        std::map<string, string> value, err;
        std::map<string, std::vector<int>> allowed;
        for (auto& c: m->ctls) {
            allowed[c.name] = {c.initial};
        }
        w.mqtt->OnPublish = [&](const WBMQTT::TPublication& p) {
            if (p.HasValue) {
                value[p.Control] = p.Value;
            }
            if (p.HasError) {
                err[p.Control] = p.Error;
            }
            if (mc::tracing()) {
                mc::note(mc::str(w.now() / MS, " ms ", p.Control, p.HasValue ? " = " + p.Value : "", p.HasError ? " error '" + p.Error + "'" : ""));
            }
            auto it = allowed.find(p.Control);
            if (it != allowed.end() && p.HasValue && err[p.Control].find('r') == string::npos && !p.Value.empty()) {
                bool good = false;
                for (auto v: it->second) {
                    good = good || std::to_string(v) == p.Value;
                }
                MC_CHECK(good, "wrong-value " + m->name, p.Control, " of ", m->name, " shows ", p.Value, " after '", FAULT_NAMES[fault], "'");
            }
        };
        std::map<string, int> last;
        auto send = [&](std::pair<int, int> c) {
            auto& ctl = m->ctls[c.first];
            allowed[ctl.name].push_back(c.second);
            last[ctl.name] = c.second;
            if (mc::tracing()) {
                mc::note(mc::str(w.now() / MS, " ms command ", ctl.name, " ", c.second));
            }
            w.mqtt->Command(id, ctl.name, std::to_string(c.second));
        };
        try {
            w.device(cfg);
            w.begin();
            w.runTo(6 * SEC);
            for (auto& c: m->ctls) {
                if (c.readable) {
                    MC_CHECK(value[c.name] == std::to_string(c.initial), "not-read " + m->name, c.name, " of ", m->name, " shows '", value[c.name], "'");
                }
            }
            w.at(6 * SEC + 100 * MS, [&] {
                armed = true;
                send(first);
            });
            if (second >= 0) {
                w.at(6 * SEC + 100 * MS + pause, [&] { send(all[second]); });
            }
            w.runTo(6 * SEC + 22 * SEC);
        } catch (const ExecutionEnd&) {
            return;
        } catch (const std::exception& e) {
            mc::fail("exception " + m->name, mc::str(m->name, ", ", FAULT_NAMES[fault], ": an exception stops the port: ", e.what()));
            return;
        }
        if (fault != F_NONE && disturbed < 0) {
            return;
        }
        for (auto& c: m->ctls) {
            int want = last.count(c.name) ? last[c.name] : c.initial;
            bool werr = err[c.name].find('w') != string::npos;
            // the device itself refuses the command: it isn't repeated for ever, but isn't shown as executed
            if (refused && (m->state[c.name] != want || werr)) {
                MC_CHECK(werr || !c.readable, "refusal-hidden " + m->name, "command ", c.name, " of ", m->name, " is refused, no error");
                continue;
            }
            MC_CHECK(m->state[c.name] == want, "not-delivered " + m->name, c.name, " of ", m->name, " is ", m->state[c.name], " after '", FAULT_NAMES[fault], "', the last command is ", want, " (", last.count(c.name) ? "sent" : "not sent", ")");
            if (c.readable) {
                MC_CHECK(value[c.name] == std::to_string(want) && err[c.name].find_first_of("rw") == string::npos, "not-shown " + m->name, c.name, " of ", m->name, " shows '", value[c.name], "' error '", err[c.name], "' after '",
                         FAULT_NAMES[fault], "', it is ", want);
            }
        }
        mc::nontrivial();
        mc::cover(FAULT_NAMES[fault]);
        mc::cover(("commands of " + m->name).c_str());
        uint64_t h = 11;
        for (auto& p: w.mqtt->Log) {
            for (auto c: p.Control + p.Value + p.Error) {
                h = mc::mix(h, c);
            }
        }
        mc::outcome(h);
        mc::state(h);
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    mc::Options o;
    o.name = "drivers";
    o.seconds = 60;
    o.executionSeconds = 30;
    o.shardDepth = 3;
    for (auto k: KIND_NAMES) {
        o.mustCover.push_back(k);
    }
    for (int i = 0; i < METERS; ++i) {
        o.mustCover.push_back(make(i)->name);
    }
    mc::explore(o, [] { drivers(); });
    mc::Options c;
    c.name = "commands";
    c.seconds = 60;
    c.executionSeconds = 30;
    c.shardDepth = 3;
    for (auto k: FAULT_NAMES) {
        c.mustCover.push_back(k);
    }
    for (int i = 0; i < ACTORS; ++i) {
        c.mustCover.push_back("commands of " + makeActor(i)->name);
    }
    mc::explore(c, [] { commands(); });
    return mc::finish();
}
