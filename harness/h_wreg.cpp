// P08: values written to Modbus registers get exactly to their places
#include "sim.h"
#include <cstring>
using namespace sim;

namespace
{
    enum Conv
    {
        SIGNED,
        UNSIGNED,
        BCD_,
        FLOAT_,
        DOUBLE_,
        CHAR_,
        STRING_, // a char in the low byte of every register
        STRING8_
    };
    struct Kind
    {
        const char* format;
        int bytes;
        Conv conv;
        int offset, width; // bits, width 0: all
        std::vector<std::string> values;
        int words() const
        {
            if (conv >= STRING_) {
                return bytes;
            }
            return (std::max(bytes * 8, offset + bits()) + 15) / 16;
        }
        int bits() const
        {
            return width ? width : bytes * 8;
        }
        bool foreignBits() const
        {
            return conv < STRING_ && bits() != words() * 16;
        }
    };
    const std::vector<Kind> KINDS = {
        {"u16", 2, UNSIGNED, 0, 0, {"4660", "65535", "0"}},
        {"u16", 2, UNSIGNED, 4, 5, {"21", "31", "100"}},
        {"u16", 2, UNSIGNED, 0, 1, {"1", "0", "2"}},
        {"u8", 1, UNSIGNED, 0, 0, {"165", "255", "1"}},
        {"s32", 4, SIGNED, 0, 0, {"-2147483648", "305419896", "-2"}},
        {"u32", 4, UNSIGNED, 12, 9, {"437", "511", "65535"}},
        {"string", 3, STRING_, 0, 24, {"abc", "xyz", "\xD0\xAF!"}},
        {"string8", 2, STRING8_, 0, 16, {"abcd", "wxyz", "\xD0\xAF\xD1\x8F"}},
        {"s16", 2, SIGNED, 0, 0, {"-32768", "32767", "-2"}},
        {"u16", 2, UNSIGNED, 8, 8, {"165", "255", "256"}},
        {"u16", 2, UNSIGNED, 15, 1, {"1", "0", "3"}},
        {"s8", 1, SIGNED, 0, 0, {"-128", "127", "-2"}},
        {"u24", 3, UNSIGNED, 0, 0, {"11259375", "16777215", "1"}},
        {"s24", 3, SIGNED, 0, 0, {"-8388608", "8388607", "-2"}},
        {"u32", 4, UNSIGNED, 0, 0, {"4294967295", "305419896", "1"}},
        {"u64", 8, UNSIGNED, 0, 0, {"18446744073709551615", "81985529216486895", "1"}},
        {"s64", 8, SIGNED, 0, 0, {"-9223372036854775808", "81985529216486895", "-2"}},
        {"u64", 8, UNSIGNED, 30, 20, {"1048575", "703710", "1048577"}},
        {"float", 4, FLOAT_, 0, 0, {"1.5", "-0.375", "1e+10"}},
        {"double", 8, DOUBLE_, 0, 0, {"1.25", "-0.1", "1e+100"}},
        {"bcd8", 1, BCD_, 0, 0, {"99", "7", "10"}},
        {"bcd16", 2, BCD_, 0, 0, {"9999", "7", "1020"}},
        {"bcd24", 3, BCD_, 0, 0, {"999999", "7", "102030"}},
        {"bcd32", 4, BCD_, 0, 0, {"99999999", "7", "10203040"}},
        {"char8", 1, CHAR_, 0, 0, {"A", "z", "~"}},
        {"s16", 2, SIGNED, 0, 8, {"127", "3", "1"}},
        {"u32", 4, UNSIGNED, 0, 17, {"131071", "65536", "131073"}},
    };
    const size_t QUICK_KINDS = 8;

    uint64_t toRaw(const Kind& k, const std::string& v)
    {
        switch (k.conv) {
            case SIGNED:
                return (uint64_t)strtoll(v.c_str(), nullptr, 10);
            case UNSIGNED:
                return strtoull(v.c_str(), nullptr, 10);
            case BCD_:
                return strtoull(v.c_str(), nullptr, 16);
            case FLOAT_: {
                float f = strtof(v.c_str(), nullptr);
                uint32_t r;
                memcpy(&r, &f, 4);
                return r;
            }
            case DOUBLE_: {
                double f = strtod(v.c_str(), nullptr);
                uint64_t r;
                memcpy(&r, &f, 8);
                return r;
            }
            default:
                return (uint8_t)v[0];
        }
    }

    struct Place
    {
        int addr;
        bool wordLE, byteLE;
    };
    uint16_t swap(uint16_t w)
    {
        return w >> 8 | w << 8;
    }
    //! What has to be in the registers after writing
    void put(std::map<int, uint16_t>& m, const Place& p, const Kind& k, const std::string& v)
    {
        int n = k.words();
        std::vector<uint16_t> words(n);
        if (k.conv >= STRING_) {
            for (int i = 0; i < n; ++i) {
                auto c = [&](size_t j) { return j < v.size() ? (uint8_t)v[j] : 0; };
                words[i] = k.conv == STRING_ ? c(i) : c(2 * i) << 8 | c(2 * i + 1);
            }
        } else {
            unsigned __int128 all = 0;
            for (int i = 0; i < n; ++i) {
                auto w = m[p.addr + (p.wordLE ? n - 1 - i : i)];
                all = all << 16 | (p.byteLE ? swap(w) : w);
            }
            unsigned __int128 mask = (((unsigned __int128)1 << k.bits()) - 1) << k.offset;
            all = (all & ~mask) | ((unsigned __int128)toRaw(k, v) << k.offset & mask);
            for (int i = 0; i < n; ++i) {
                words[n - 1 - i] = (uint16_t)(all >> 16 * i);
            }
        }
        for (int i = 0; i < n; ++i) {
            m[p.addr + (p.wordLE ? n - 1 - i : i)] = p.byteLE ? swap(words[i]) : words[i];
        }
    }
    bool fits(const Kind& k, const std::string& v)
    {
        return k.conv != UNSIGNED || k.bits() >= 64 || strtoull(v.c_str(), nullptr, 10) >> k.bits() == 0;
    }

    enum Op
    {
        W0,
        W1,
        W2,
        NEIGHBOUR,
        CHANGED,   // the device changes its registers and is polled
        LOST_,     // the first attempt of the next write doesn't get to the device
        REPLYLOST, // the answer to it is lost
        REFUSED,   // it is refused
        RESTART,   // the device is off for a long time, a value is sent while it's off, its registers are changed
        OPS
    };
    const char* OPNAMES[] = {"write 0", "write 1", "write 2", "write the neighbour", "changed by the device", "lost, write 1", "reply lost, write 1", "refused, write 1", "write 1 to a device which is off, it has other values after that"};

    void body()
    {
        size_t kindIndex = mc::choose(mc::thorough() ? KINDS.size() : KINDS.size(), "kind");
        auto& k = KINDS[kindIndex];
        static const char* TYPES[] = {"holding", "holding_multi", "holding_single"};
        int type = mc::choose(3, "type");
        Place p;
        p.byteLE = mc::choose(2, "byte order");
        p.wordLE = k.words() > 1 && mc::choose(2, "word order");
        if (type == 2 && k.words() > 1 && (p.wordLE || k.foreignBits() || k.conv >= STRING_)) {
            return; // not supported, README
        }
        int place = mc::choose(k.foreignBits() ? 1 : k.conv >= STRING_ ? 2 : 3, "place"); // the same address, another one for writing, only for writing
        int io = mc::choose(2, "modbus_io") ? 2 : 0;
        if (io && type) {
            return; // such devices have only "holding"
        }
        int early = place == 2 ? 1 : mc::choose(2, "early");
        bool tcp = mc::choose(2, "tcp");
        int opCount = mc::thorough() ? 3 : kindIndex < QUICK_KINDS ? 3 : 2;
        std::vector<int> ops;
        for (int i = 0; i < opCount; ++i) {
            auto o = mc::choose(OPS, "operation");
            ops.push_back(o);
        }
        bool foreign = k.foreignBits();
        for (size_t i = 0; i < ops.size(); ++i) {
            if (!foreign && ops[i] == NEIGHBOUR) {
                return;
            }
        }
        static const int STRIDE = 1000, SHIFT = 70;
        const int shift = io ? ((io - 1) % 4 + 1) * STRIDE + SHIFT : 0;
        const int readAddr = 40, writeAddr = place ? 60 : 40;
        p.addr = writeAddr;

        World w(tcp);
        w.config->OpenCloseSettings.MaxFailTime = milliseconds(-1);
        auto& s = w.net.add(1);
        auto& mem = s.regs[3];
        uint32_t salt = 0;
        auto change = [&] {
            ++salt;
            for (int a = 30; a < 80; ++a) {
                mem[a + shift] = k.conv >= STRING_ ? (0x6161 + (a + salt) % 13 * 0x101) : 0x8765 + a * 0x1357 + salt * 0x2A7F;
            }
        };
        change();
        if (k.conv == BCD_) {
            for (auto& x: mem) {
                x.second = 0x1234;
            }
        }
        int next = OK;
        s.fault = [&](const Access& a) {
            if (a.isWrite() && a.addr != 114) {
                auto f = next;
                next = OK;
                return f;
            }
            return (int)OK;
        };
        auto order = mc::str(p.byteLE ? R"(,"byte_order":"little_endian")" : "", p.wordLE ? R"(,"word_order":"little_endian")" : "");
        auto bits = k.conv >= STRING_ ? "" : k.width ? mc::str(":", k.offset, ":", k.width) : "";
        auto size = k.conv >= STRING_ ? mc::str(",\"string_data_size\":", k.bytes) : "";
        auto addrs = mc::str(place < 2 ? mc::str("\"address\":\"", readAddr, bits, "\"") : "", place == 1 ? "," : "", place ? mc::str("\"write_address\":\"", writeAddr, bits, "\"") : "");
        // a neighbour in the same registers
        Kind nk{k.bytes > 4 || k.words() > 2 ? "u64" : k.words() > 1 ? "u32" : "u16", k.words() * 2, UNSIGNED, 0, 0, {}};
        if (foreign) {
            int total = k.words() * 16;
            if (k.offset + k.bits() < total) {
                nk.offset = k.offset + k.bits();
                nk.width = std::min(3, total - nk.offset);
            } else {
                nk.offset = 0;
                nk.width = std::min(3, k.offset);
            }
        }
        auto neighbour = foreign ? mc::str(R"(,{"name":"N","type":"value","reg_type":")", TYPES[type], R"(","read_rate_limit_ms":20000,"address":")", readAddr, ":", nk.offset, ":", nk.width, R"(","format":")", nk.format, "\"", order, "}") : "";
        w.device(json(mc::str(R"({"slave_id":")", io ? "1:2" : "1", R"(",)", io ? mc::str(R"("protocol":"modbus_io","stride":)", STRIDE, ",\"shift\":", SHIFT) : R"("protocol":"modbus")",
            R"(,"response_timeout_ms":50,"device_timeout_ms":1000,"device_max_fail_cycles":1,"channels":[{"name":"P","reg_type":"holding","address":35,"read_rate_limit_ms":300},{"name":"M","type":")", k.conv >= STRING_ || k.conv == CHAR_ ? "text" : "value", R"(","reg_type":")", TYPES[type], R"(","read_rate_limit_ms":20000,)", addrs, R"(,"format":")", k.format, "\"", size, order, "}", neighbour, "]}")));
        auto dev = io ? "dev1:2" : "dev1";
        w.bus->byteUs = 100;
        s.latency = 2 * MS;
        std::map<std::string, std::pair<std::string, std::string>> shown;
        w.mqtt->OnPublish = [&](const WBMQTT::TPublication& pub) {
            if (pub.HasValue) {
                shown[pub.Control].first = pub.Value;
            }
            shown[pub.Control].second = pub.Error;
        };
        w.begin();
        int64_t t = 0;
        auto wait = [&](int64_t ms) {
            t += ms;
            w.runTo(t * MS);
        };
        if (!early) {
            wait(700);
        } else {
            wait(0);
        }
        auto memory = [&] {
            std::string r;
            for (auto& x: mem) {
                char b[8];
                snprintf(b, sizeof(b), "%04X ", x.second);
                r += x.first >= writeAddr - 2 + shift && x.first < writeAddr + 6 + shift ? b : "";
            }
            return r;
        };
        std::string history;
        for (auto o: ops) {
            history += mc::str(history.empty() ? "" : ", ", OPNAMES[o]);
            auto what = [&] { return mc::str(k.format, " ", bits, " ", TYPES[type], order, place == 1 ? " with another write_address" : place == 2 ? " with write_address only" : "", io ? " modbus_io" : "", early ? " before the first poll" : "", ": ", history, ": "); };
            size_t logged = w.net.log.size();
            // Expected contents, with addresses of the device
            auto expected = mem;
            auto apply = [&](const Kind& kind, const std::string& v) {
                std::map<int, uint16_t> m;
                for (auto& x: expected) {
                    m[x.first - shift] = x.second;
                }
                put(m, p, kind, v);
                for (auto& x: m) {
                    expected[x.first + shift] = x.second;
                }
            };
            std::string control = "M", value;
            int attempts = 1;
            if (o == RESTART) {
                s.online = false;
                wait(3000);
                auto& v = k.values[1];
                w.mqtt->Command(dev, "M", v);
                wait(2000);
                change();
                if (k.conv == BCD_) {
                    for (auto& x: mem) {
                        x.second = 0x4321 + salt;
                    }
                }
                s.online = true;
                expected = mem;
                apply(k, v);
                value = v;
                logged = w.net.log.size();
                wait(15000);
                mc::cover("write after a restart");
            } else if (o == CHANGED) {
                change();
                expected = mem;
                wait(21000);
                attempts = 0;
            } else {
                next = o == LOST_ ? LOST : o == REPLYLOST ? REPLY_LOST : o == REFUSED ? EXC2 : OK;
                if (o == NEIGHBOUR) {
                    control = "N";
                    value = nk.width < 3 ? "1" : "5";
                    apply(nk, value);
                } else {
                    value = k.values[o == W0 ? 0 : o == W2 ? 2 : 1];
                    if (o != REFUSED) {
                        apply(k, value);
                    }
                }
                if (o == LOST_ || o == REPLYLOST) {
                    attempts = 2;
                }
                w.mqtt->Command(dev, control, value);
                wait(1500);
                mc::nontrivial();
            }
            for (auto& x: mem) {
                MC_CHECK(x.second == expected[x.first], "memory", what(), "register ", x.first - shift, " is ", x.second, " instead of ", expected[x.first], " (registers from ", writeAddr - 2, ": ", memory(), ")");
            }
            // Requests
            int writes = 0;
            std::string requests;
            for (size_t i = logged; i < w.net.log.size(); ++i) {
                auto& a = w.net.log[i];
                if (!a.isWrite() || a.addr == 114) {
                    continue;
                }
                ++writes;
                requests += a.str() + "; ";
                bool multi = type == 1 || (type == 0 && k.words() > 1);
                MC_CHECK(a.fn == (multi ? 16 : 6), "function", what(), "wrong function in ", a.str());
                MC_CHECK(a.addr >= writeAddr + shift && a.addr + a.count <= writeAddr + shift + k.words(), "request-range", what(), "wrong registers in ", a.str());
                MC_CHECK(!multi || a.count == k.words() || k.conv >= STRING_, "request-atomic", what(), "not all registers are written at once in ", a.str());
                if (foreign) {
                    mc::cover("partial register written");
                }
            }
            int perValue = type == 2 ? k.words() : 1;
            MC_CHECK(attempts ? writes >= (o == REFUSED ? 1 : perValue) : writes == 0, "not-written", what(), writes, " write requests");
            if (o != RESTART) {
                MC_CHECK(writes <= perValue * attempts, "too-many-writes", what(), writes, " write requests: ", requests);
            }
            // what the controls show
            if (o == REFUSED) {
                MC_CHECK(shown[control].second.find('w') != std::string::npos, "refused-error", what(), "no write error");
                continue;
            }
            if (attempts && (control == "N" || fits(k, value)) && (place != 1 || (o != RESTART && !early))) {
                MC_CHECK(shown[control].first == value && (shown[control].second.empty() || (early && o == RESTART)), "shown", what(), control, " shows '", shown[control].first, "' error '", shown[control].second, "' instead of '", value, "'");
                mc::cover("value shown");
            }
            if (attempts && place == 0 && ops.back() == o && fits(k, value)) {
                auto log = w.mqtt->Log.size();
                wait(21000);
                MC_CHECK(shown[control].first == value && shown[control].second.empty(), "shown-after-poll", what(), control, " shows '", shown[control].first, "' error '", shown[control].second, "' instead of '", value, "' after polling");
                (void)log;
            }
        }
        w.trace();
        mc::outcome(w.digest());
        mc::state(w.digest());
    }

    //! Coils and strings of other lengths
    void coils()
    {
        bool tcp = mc::choose(2, "tcp");
        int place = mc::choose(3, "place");
        int io = mc::choose(2, "modbus_io") ? 3 : 0;
        const int shift = io ? 3 * 100 + 7 : 0;
        World w(tcp);
        auto& s = w.net.add(1);
        auto& mem = s.regs[1];
        for (int a = 0; a < 20; ++a) {
            mem[a + shift] = mc::choose(2, "initial") ^ (a & 1);
            if (a == 3) {
                for (++a; a < 20; ++a) {
                    mem[a + shift] = a & 1;
                }
            }
        }
        s.regs[3][114] = 0;
        int writeAddr = place ? 9 : 5;
        w.device(json(mc::str(R"({"slave_id":")", io ? "1:3" : "1", R"(",)", io ? R"("protocol":"modbus_io","stride":100,"shift":7)" : R"("protocol":"modbus")", R"(,"channels":[{"name":"P","reg_type":"coil","address":1},{"name":"M","type":"switch","reg_type":"coil",)", place < 2 ? R"("address":5,)" : "", place ? R"("write_address":9,)" : "", R"("read_rate_limit_ms":20000}]})")));
        w.begin();
        w.runTo(500 * MS);
        int64_t t = 500 * MS;
        for (int i = 0; i < 3; ++i) {
            int v = mc::choose(2, "value");
            auto expected = mem;
            expected[writeAddr + shift] = v;
            auto logged = w.net.log.size();
            w.mqtt->Command(io ? "dev1:3" : "dev1", "M", v ? "1" : "0");
            w.runTo(t += 500 * MS);
            MC_CHECK(mem == expected, "coil-memory", "wrong coils after writing ", v);
            int writes = 0;
            for (; logged < w.net.log.size(); ++logged) {
                auto& a = w.net.log[logged];
                if (a.isWrite() && a.addr != 114) {
                    ++writes;
                    MC_CHECK(a.fn == 5 && a.values[0] == (v ? 0xFF00 : 0), "coil-request", "wrong request ", a.str());
                }
            }
            MC_CHECK(writes == 1, "coil-requests", writes, " write requests");
        }
        w.trace();
        mc::cover("coils");
        mc::nontrivial();
        mc::outcome(w.digest());
        mc::state(w.digest());
    }

    void strings()
    {
        bool eight = mc::choose(2, "string8");
        bool wordLE = false;
        bool byteLE = mc::choose(2, "byte order");
        int size = 1 + mc::choose(mc::thorough() ? 6 : 4, "size");
        int first = mc::choose(mc::thorough() ? 14 : 10, "first length"), second = mc::choose(mc::thorough() ? 14 : 10, "second length");
        World w;
        auto& s = w.net.add(1);
        auto& mem = s.regs[3];
        for (int a = 30; a < 60; ++a) {
            mem[a] = 0x5858;
        }
        w.device(json(mc::str(R"({"slave_id":"1","protocol":"modbus","channels":[{"name":"P","reg_type":"holding","address":35,"read_rate_limit_ms":300},{"name":"M","type":"text","reg_type":"holding_multi","address":40,"read_rate_limit_ms":1000,"format":")", eight ? "string8" : "string", R"(","string_data_size":)", size, byteLE ? R"(,"byte_order":"little_endian")" : "", wordLE ? R"(,"word_order":"little_endian")" : "", "}]}")));
        std::string shown, error;
        w.mqtt->OnPublish = [&](const WBMQTT::TPublication& pub) {
            if (pub.Control == "M") {
                shown = pub.HasValue ? pub.Value : shown;
                error = pub.Error;
            }
        };
        w.begin();
        w.runTo(500 * MS);
        int64_t t = 500 * MS;
        int capacity = eight ? size * 2 : size;
        size_t used = size; // registers with characters
        for (int len: {first, second}) {
            std::string v;
            for (int i = 0; i < len; ++i) {
                v += i % 3 == 2 ? '\xE9' : 'a' + (i + len) % 26;
            }
            auto logged = w.net.log.size();
            w.mqtt->Command("dev1", "M", v);
            w.runTo(t += 3000 * MS);
            for (; logged < w.net.log.size(); ++logged) {
                auto& a = w.net.log[logged];
                MC_CHECK(!a.isWrite() || (a.fn == 16 && a.addr == 40 && a.count <= size), "string-request", "wrong request ", a.str());
            }
            for (int a = 30; a < 60; ++a) {
                MC_CHECK((a >= 40 && a < 40 + size) || mem[a] == 0x5858, "string-outside", "register ", a, " outside of the string is changed");
            }
            auto expected = v.substr(0, capacity);
            size_t uses = eight ? (expected.size() + 1) / 2 : expected.size();
            bool shorter = uses < used;
            used = std::max(used, uses);
            auto what = mc::str("string", eight ? "8" : "", " of ", size, " registers, '", v, "' after ", first, " characters: ");
            if (shorter) {
                MC_CHECK(shown == expected && error.empty(), "string-tail", what, "'", shown, "' error '", error, "'");
            } else {
                MC_CHECK(shown == expected && error.empty(), "string", what, "'", shown, "' error '", error, "'");
            }
        }
        w.trace();
        mc::cover("strings");
        mc::nontrivial();
        mc::outcome(w.digest());
        mc::state(w.digest());
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    auto run = [](const char* name, void (*f)(), std::vector<std::string> cover) {
        mc::Options o;
        o.name = name;
        o.seconds = 120;
        o.shardDepth = 4;
        for (auto& c: cover) {
            o.mustCover.insert(o.mustCover.end(), c);
        }
        mc::explore(o, [=] {
            try {
                f();
            } catch (const ExecutionEnd&) {
            }
        });
    };
    run("values", body, {"partial register written", "value shown", "write after a restart"});
    run("coils", coils, {"coils"});
    run("strings", strings, {"strings"});
    return mc::finish();
}
