// P07: every register is read by requests within the limits and decoded from its own place
#include "sim.h"
using namespace sim;

namespace
{
    struct Kind
    {
        const char* json;
        int width; // in addresses
        const char* bits; // appended to the address
    };
    const Kind WORDS[] = {
        {"", 1, ""},
        {",\"format\":\"s32\",\"word_order\":\"little_endian\"", 2, ""},
        {"", 1, ":4:5"},
        {",\"format\":\"string\",\"string_data_size\":3", 3, ""},
        {",\"format\":\"u32\"", 2, ":12:9"},
        {",\"format\":\"s8\",\"byte_order\":\"little_endian\"", 1, ""},
        {",\"format\":\"u64\",\"byte_order\":\"little_endian\"", 4, ""},
        {",\"format\":\"string8\",\"string_data_size\":2", 2, ""},
        {",\"format\":\"s24\"", 2, ""},
    };
    enum
    {
        W_U16,
        W_S32LE,
        W_BITS,
        W_STRING,
        W_BITS32,
        W_S8LE,
        W_U64LEB,
        W_STRING8,
        W_S24,
        W_COUNT
    };

    std::string decode(int kind, const std::map<int, uint16_t>& m, int addr)
    {
        auto w = [&](int i) { return (uint64_t)m.at(addr + i); };
        auto sw = [&](int i) { return (uint64_t)(uint16_t)(m.at(addr + i) >> 8 | m.at(addr + i) << 8); };
        switch (kind) {
            case W_U16:
                return std::to_string(w(0));
            case W_S32LE:
                return std::to_string((int32_t)(w(1) << 16 | w(0)));
            case W_BITS:
                return std::to_string(w(0) >> 4 & 31);
            case W_BITS32:
                return std::to_string((w(0) << 16 | w(1)) >> 12 & 511);
            case W_S8LE:
                return std::to_string((int8_t)(uint8_t)sw(0));
            case W_U64LEB:
                return std::to_string(sw(0) << 48 | sw(1) << 32 | sw(2) << 16 | sw(3));
            case W_S24: {
                int32_t v = (w(0) << 16 | w(1)) & 0xFFFFFF;
                return std::to_string(v & 0x800000 ? v - 0x1000000 : v);
            }
            case W_STRING:
            case W_STRING8: {
                std::string s;
                for (int i = 0; i < WORDS[kind].width; ++i) {
                    char hi = w(i) >> 8, lo = w(i);
                    for (char c: kind == W_STRING8 ? std::vector<char>{hi, lo} : std::vector<char>{lo}) {
                        if (!c || c == '\xFF') {
                            return s;
                        }
                        s += c;
                    }
                }
                return s;
            }
        }
        return "?";
    }

    struct Item
    {
        int kind, addr, width;
    };

    enum Behaviour
    {
        PLAIN,      // other registers can't be read
        HOLES,      // all registers can be read
        REFUSES,    // and one of the configured registers doesn't exist
        CONTINUOUS, // continuous read mode of Wiren Board devices
        BEHAVIOURS
    };

    struct Params
    {
        int type; // read function
        int hole, maxRead, minRead, behaviour, refused;
        bool reversed, tcp;
        int io = 0; // secondary address of a modbus_io device, 0 - an ordinary device
        std::vector<Item> items;
    };

    void run(const Params& p)
    {
        World w(p.tcp);
        w.config->OpenCloseSettings.MaxFailTime = milliseconds(-1);
        auto& s = w.net.add(1);
        auto& mem = s.regs[p.type];
        bool bits = p.type <= 2;
        std::set<int> known;
        for (size_t i = 0; i < p.items.size(); ++i) {
            for (int j = 0; j < p.items[i].width; ++j) {
                known.insert(p.items[i].addr + j);
            }
        }
        auto isString = [&](int a) {
            for (auto& i: p.items) {
                if (!bits && (i.kind == W_STRING || i.kind == W_STRING8) && a >= i.addr && a < i.addr + i.width) {
                    return true;
                }
            }
            return false;
        };
        static const int STRIDE = 1000, SHIFT = 70;
        const int shift = p.io ? ((p.io - 1) % 4 + 1) * STRIDE + SHIFT : 0;
        int lo = *known.begin() - 30, hi = *known.rbegin() + 30;
        auto value = [&](int a, int phase) -> uint16_t {
            if (bits) {
                return (a * 7 + phase * (a % 2 + 1)) >> 1 & 1;
            }
            if (isString(a)) {
                return ((a + phase) % 3 == 2 ? 0 : 'a' + (a + phase) % 20) + (((a * 3 + phase) % 5 ? 'k' + phase : 0) << 8);
            }
            return 0x8765 + a * 0x1357 + phase * 0x2171;
        };
        auto fill = [&](int phase) {
            mem.clear();
            for (int a = lo; a < hi; ++a) {
                if (p.behaviour == HOLES || known.count(a)) {
                    mem[a + shift] = value(a, phase);
                } else if (p.behaviour == CONTINUOUS) {
                    mem[a + shift] = 0xFFFE;
                }
            }
            if (p.behaviour == REFUSES) {
                for (int j = 0; j < p.items[p.refused].width; ++j) {
                    mem.erase(p.items[p.refused].addr + j + shift);
                }
            }
        };
        fill(0);
        if (p.behaviour == CONTINUOUS) {
            s.regs[3][114] = 0;
        }
        static const char* TYPES[] = {"", "coil", "discrete", "holding", "input"};
        std::string channels;
        for (size_t n = 0; n < p.items.size(); ++n) {
            auto i = p.reversed ? p.items.size() - 1 - n : n;
            auto& it = p.items[i];
            auto c = mc::str(R"({"name":"C)", i, R"(","reg_type":")", TYPES[p.type], R"(","address":")", it.addr, bits ? "" : WORDS[it.kind].bits, "\"", bits ? "" : WORDS[it.kind].json, "}");
            channels += (channels.empty() ? "" : ",") + c;
        }
        auto limits = mc::str(p.maxRead >= 0 ? mc::str("\"max_read_registers\":", p.maxRead, ",") : "", p.hole ? mc::str("\"max_reg_hole\":", p.hole, ",\"max_bit_hole\":", p.hole, ",") : "", p.minRead > 1 ? mc::str("\"min_read_registers\":", p.minRead, ",") : "", p.behaviour == CONTINUOUS ? "\"enable_wb_continuous_read\":true," : "");
        w.device(json(mc::str(R"({"slave_id":")", p.io ? mc::str("1:", p.io) : "1", "\",", p.io ? mc::str(R"("protocol":"modbus_io","stride":)", STRIDE, ",\"shift\":", SHIFT) : R"("protocol":"modbus")", R"(,"response_timeout_ms":50,)", limits, R"("channels":[)", channels, "]}")));
        w.bus->byteUs = p.behaviour == REFUSES ? 1500 : 200;
        std::map<std::string, std::pair<std::string, std::string>> shown;
        w.mqtt->OnPublish = [&](const WBMQTT::TPublication& pub) {
            if (!pub.Control.empty()) {
                if (pub.HasValue) {
                    shown[pub.Control].first = pub.Value;
                }
                shown[pub.Control].second = pub.Error;
            }
        };
        w.begin();
        int64_t half = p.behaviour == REFUSES ? 1200 : 100 + 20 * p.items.size();
        size_t logged = 0;
        bool holesRefused = false;
        int refusals = 0;
        int single = 1;
        for (auto& i: p.items) {
            single = std::max(single, i.width);
        }
        int hole = p.behaviour == CONTINUOUS ? std::max(p.hole, bits ? 80 : 10) : p.hole;
        int maxRead = p.maxRead < 0 ? 1 : p.maxRead == 0 ? (bits ? 2000 : 125) : p.maxRead;
        std::map<int, int> refusedReads;
        int failures = 0;
        for (int phase = 0; phase < 2; ++phase) {
            if (phase) {
                fill(1);
            }
            w.runTo(half * (phase + 1) * MS);
            // requests
            std::set<int> covered;
            for (; logged < w.net.log.size(); ++logged) {
                auto a = w.net.log[logged];
                auto what = mc::str("request ", a.str(), ": ");
                a.addr -= shift;
                if (a.isWrite()) {
                    MC_CHECK((p.behaviour == CONTINUOUS || p.io) && a.fn == 6 && a.addr == 114 - shift && a.values[0] == 1, "write", what, "a write without a command");
                    continue;
                }
                MC_CHECK(a.fn == p.type, "function", what, "wrong function");
                bool min = p.minRead > 1 && a.count == p.minRead;
                MC_CHECK(a.count >= std::min(p.minRead, 125), "min-read", what, "fewer than ", p.minRead, " registers");
                MC_CHECK(a.count <= std::max({maxRead, single, p.minRead}), "max-read", what, "more than ", maxRead, " registers");
                if (a.count > maxRead && !min) {
                    // only one register may be longer than the limit
                    bool one = false;
                    for (auto& i: p.items) {
                        one = one || (a.addr == i.addr && a.count == i.width);
                    }
                    MC_CHECK(one, "max-read", what, "more than ", maxRead, " registers and not a single one");
                }
                int end = a.addr + a.count;
                bool starts = false, ends = min;
                for (auto& i: p.items) {
                    starts = starts || i.addr == a.addr;
                    ends = ends || i.addr + i.width == end;
                }
                MC_CHECK(starts, "start", what, "doesn't start at a register");
                MC_CHECK(ends, "end", what, "doesn't end at a register");
                int gap = 0;
                bool hasHoles = false;
                for (int x = a.addr; x < end; ++x) {
                    if (known.count(x)) {
                        gap = 0;
                        continue;
                    }
                    ++gap;
                    if (!min) {
                        hasHoles = true;
                        MC_CHECK(gap <= hole, "hole", what, "more than ", hole, " other registers in a row are read");
                    }
                }
                if (hasHoles) {
                    MC_CHECK(!holesRefused, "hole-refused", what, "other registers are read though the device has refused it");
                    mc::cover("read with a hole");
                }
                if (a.exception) {
                    ++failures;
                    ++refusals;
                    if (hasHoles) {
                        holesRefused = true;
                        mc::cover("hole refused");
                    } else {
                        ++refusedReads[a.addr];
                    }
                }
                if (a.count > single) {
                    mc::cover("merged request");
                    mc::nontrivial();
                }
            }
            // values
            for (size_t i = 0; i < p.items.size(); ++i) {
                auto& it = p.items[i];
                auto& sh = shown["C" + std::to_string(i)];
                bool exists = true;
                for (int j = 0; j < it.width; ++j) {
                    exists = exists && mem.count(it.addr + j + shift);
                }
                auto what = mc::str("phase ", phase, " register ", i, " at ", it.addr, " of kind ", bits ? -1 : it.kind, ": ");
                if (!exists) {
                    MC_CHECK(sh.second == "r", "refused-error", what, "a refused register shows no read error ('", sh.second, "', value '", sh.first, "')");
                    mc::cover("refused register");
                    continue;
                }
                auto expected = bits ? std::to_string(mem[it.addr + shift]) : decode(it.kind, mem, it.addr + shift);
                MC_CHECK(sh.first == expected && sh.second.empty(), "value", what, "shows '", sh.first, "' error '", sh.second, "' instead of '", expected, "'");
            }
        }
        if (p.minRead <= 1) {
            for (auto& r: refusedReads) {
                size_t same = 0;
                for (auto& i: p.items) {
                    same += i.addr <= r.first && r.first < i.addr + i.width;
                }
                MC_CHECK((size_t)r.second <= std::max<size_t>(same, 1) + 2, "refused-again", "the refused register ", r.first, " is read ", r.second, " times");
            }
        }
        w.trace();
        mc::outcome(w.digest());
        mc::state(w.digest());
    }

    void layouts()
    {
        Params p;
        p.type = 1 + mc::choose(4, "type");
        bool bits = p.type <= 2;
        p.behaviour = mc::choose(BEHAVIOURS, "behaviour");
        static const int HOLES_[] = {0, 1, 3};
        p.hole = HOLES_[mc::choose(3, "hole")];
        static const int MAX[] = {-1, 2, 4, 0};
        p.maxRead = MAX[mc::choose(4, "max read")];
        p.minRead = 1;
        p.refused = 0;
        p.reversed = mc::choose(2, "order");
        p.tcp = p.reversed;
        if (p.behaviour != CONTINUOUS && p.hole == 1 && (p.maxRead == 4 || mc::thorough())) {
            static const int IO[] = {0, 1, 4, 6};
            p.io = IO[mc::choose(4, "modbus_io")];
        }
        int n = mc::thorough() && bits ? 5 : 3;
        int end = 40, prev = 40;
        std::vector<int> kinds = mc::thorough() ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8} : std::vector<int>{W_U16, W_S32LE, W_BITS, W_STRING, W_U64LEB};
        if (p.type == 4 && !mc::thorough()) {
            kinds = {W_U16, W_S32LE};
        }
        for (int i = 0; i < n; ++i) {
            Item it;
            it.kind = bits ? 0 : kinds[mc::choose(kinds.size(), "kind")];
            it.width = bits ? 1 : WORDS[it.kind].width;
            static const int GAPS[] = {0, 1, 2, 4};
            int g = i ? mc::choose(bits ? 4 : 5, "gap") : 0;
            it.addr = g == 4 ? prev : end + GAPS[g];
            if (i && g == 4 && !bits && ((WORDS[it.kind].bits[0] == 0) == (WORDS[p.items.back().kind].bits[0] == 0))) {
                // the same place in the same manner isn't interesting (and can be a duplicate)
                it.addr = end + 11;
            }
            prev = it.addr;
            end = std::max(end, it.addr + it.width);
            p.items.push_back(it);
        }
        if (p.behaviour == REFUSES) {
            if (bits && p.maxRead != -1) {
                return; // bits are tried in groups
            }
            p.refused = mc::choose(n, "refused");
            for (int i = 0; i < n; ++i) {
                // registers sharing an address with the refused one are not compared
                if (i != p.refused && p.items[i].addr < p.items[p.refused].addr + p.items[p.refused].width && p.items[p.refused].addr < p.items[i].addr + p.items[i].width) {
                    return;
                }
            }
        }
        run(p);
    }

    // Long tables: the limits of the protocol
    void tables()
    {
        Params p;
        p.type = 1 + mc::choose(4, "type");
        bool bits = p.type <= 2;
        static const int MAX[] = {0, 7, 124, 125, 126, 2000, 1, 100, 500, 1999, 3000};
        p.maxRead = MAX[mc::choose(mc::thorough() ? 11 : 6, "max read")];
        static const int MIN[] = {1, 3, 8};
        p.minRead = MIN[mc::choose(3, "min read")];
        p.hole = mc::choose(2, "hole") * 2;
        p.behaviour = HOLES;
        p.refused = 0;
        p.reversed = mc::choose(2, "order");
        p.tcp = mc::choose(2, "tcp");
        int step = p.hole ? 3 : 1;
        int kind = bits ? 0 : mc::choose(2, "kind") ? W_S32LE : W_U16;
        int width = kind == W_U16 ? 1 : 2;
        int count = mc::thorough() ? (bits ? 2100 : 300) : (bits ? 200 : 128);
        for (int i = 0; i < count; ++i) {
            p.items.push_back({kind, 100 + i * (step - 1 + width), width});
        }
        run(p);
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    mc::Options o;
    o.name = "layouts";
    o.seconds = 60;
    o.shardDepth = 5;
    o.mustCover = {"read with a hole", "hole refused", "merged request", "refused register"};
    mc::explore(o, [=] {
        try {
            layouts();
        } catch (const ExecutionEnd&) {
        }
    });
    mc::Options t;
    t.name = "tables";
    t.seconds = 60;
    t.shardDepth = 5;
    t.mustCover = {"merged request", "read with a hole"};
    mc::explore(t, [=] {
        try {
            tables();
        } catch (const ExecutionEnd&) {
        }
    });
    return mc::finish();
}
