// P10: conversion between contents of registers and text
#include "sim.h"
#include <cmath>
#include <cstring>
using namespace sim;

namespace
{
    struct Format
    {
        const char* name;
        int bits;
        char kind; // u, s, b (BCD), f, d
        int words;
    };
    const Format FORMATS[] = {
        {"u8", 8, 'u', 1}, {"s8", 8, 's', 1}, {"u16", 16, 'u', 1}, {"s16", 16, 's', 1}, {"u24", 24, 'u', 2},
        {"s24", 24, 's', 2}, {"u32", 32, 'u', 2}, {"s32", 32, 's', 2}, {"u64", 64, 'u', 4}, {"s64", 64, 's', 4},
        {"bcd8", 8, 'b', 1}, {"bcd16", 16, 'b', 1}, {"bcd24", 24, 'b', 2}, {"bcd32", 32, 'b', 2},
        {"float", 32, 'f', 2}, {"double", 64, 'd', 4},
    };
    const double SCALES[] = {1, 0.1, 0.5, 2, -1, 10, 0.001, 0.075, -0.25};
    const double OFFSETS[] = {0, -273.1, 10, -12.5, 1000};
    const double ROUNDS[] = {0, 0.1, 1, 0.5, 0.01, 10};

    Json::Value channel(const Format& f, double scale, double offset, double round)
    {
        Json::Value c;
        c["name"] = "V";
        c["reg_type"] = "holding";
        c["address"] = 10;
        c["format"] = f.name;
        c["type"] = "value";
        if (scale != 1) {
            c["scale"] = scale;
        }
        if (offset != 0) {
            c["offset"] = offset;
        }
        if (round != 0) {
            c["round_to"] = round;
        }
        return c;
    }
    Json::Value deviceWith(const Json::Value& c)
    {
        auto d = json(R"({"slave_id":"1","protocol":"modbus","channels":[]})");
        d["channels"].append(c);
        return d;
    }
    //! value of raw contents
    bool valueOf(const Format& f, uint64_t raw, long double& v)
    {
        switch (f.kind) {
            case 'u':
                v = (long double)raw;
                return true;
            case 's':
                v = (long double)((int64_t)(raw << (64 - f.bits)) >> (64 - f.bits));
                return true;
            case 'b': {
                v = 0;
                for (int i = f.bits - 4; i >= 0; i -= 4) {
                    int d = raw >> i & 15;
                    if (d > 9) {
                        return false;
                    }
                    v = v * 10 + d;
                }
                return true;
            }
            case 'f': {
                float x;
                uint32_t r = raw;
                memcpy(&x, &r, 4);
                v = x;
                return true;
            }
            default: {
                double x;
                memcpy(&x, &raw, 8);
                v = x;
                return true;
            }
        }
    }
    std::vector<uint64_t> raws(const Format& f, bool all)
    {
        std::set<uint64_t> r;
        if (f.bits <= 16 && f.kind != 'f' && (all || f.bits == 8)) {
            for (uint64_t i = 0; i < (1ull << f.bits); ++i) {
                r.insert(i);
            }
        } else if (f.kind == 'f') {
            for (uint64_t e = 0; e < 256; ++e) {
                for (uint64_t m: {0x0ull, 0x1ull, 0x400000ull, 0x7FFFFFull, 0x123456ull, 0x666666ull}) {
                    r.insert(e << 23 | m);
                    r.insert(1ull << 31 | e << 23 | m);
                }
            }
            for (float x: {0.1f, 25.3f, 1e6f, 16777217.f, 123456.7f, 0.0001f}) {
                uint32_t u;
                memcpy(&u, &x, 4);
                r.insert(u);
            }
        } else if (f.kind == 'd') {
            for (uint64_t e = 0; e < 2048; e += all ? 1 : 7) {
                for (uint64_t m: {0x0ull, 0x1ull, 0x8000000000000ull, 0xFFFFFFFFFFFFFull, 0x999999999999Aull}) {
                    r.insert(e << 52 | m);
                    r.insert(1ull << 63 | e << 52 | m);
                }
            }
        } else {
            uint64_t mask = f.bits == 64 ? ~0ull : (1ull << f.bits) - 1;
            for (int b = 0; b < f.bits; ++b) {
                for (int64_t d = -3; d <= 3; ++d) {
                    r.insert(((1ull << b) + d) & mask);
                    r.insert((~(1ull << b) + d) & mask);
                    r.insert((uint64_t)(-(1ll << b) + d) & mask);
                }
            }
            for (uint64_t d: {0x12345678ull, 0x99999999ull, 0x09876543ull, 0x1234567890123456ull, 1000000ull, 12345ull, 253ull}) {
                r.insert(d & mask);
            }
        }
        return {r.begin(), r.end()};
    }
    std::string cfgText(const Format& f, double s, double o, double r)
    {
        return mc::str(f.name, " scale ", s, " offset ", o, " round_to ", r);
    }

    // Contents -> text -> contents for all contents
    void convert()
    {
        const auto& f = FORMATS[mc::choose(16, "format")];
        double s = SCALES[mc::choose(9, "scale")], o = OFFSETS[mc::choose(5, "offset")], rd = ROUNDS[mc::choose(6, "round")];
        bool plain = s == 1 && o == 0 && rd == 0;
        World w;
        w.device(deviceWith(channel(f, s, o, rd)));
        auto cfg = w.reg(0, 0)->GetConfig();
        MC_CHECK(cfg->GetDataWidth() == (uint32_t)f.bits, "width", f.name, " is ", cfg->GetDataWidth(), " bits wide");
        uint64_t n = 0;
        for (auto raw: raws(f, plain || mc::thorough() || (rd == 0 && (s == 0.1 || s == -0.25)))) {
            long double v;
            if (!valueOf(f, raw, v)) {
                continue; // not a BCD number
            }
            ++n;
            auto text = ConvertFromRawValue(*cfg, TRegisterValue(raw));
            auto what = [&] { return mc::str(cfgText(f, s, o, rd), " contents ", raw, " shown as '", text, "'"); };
            if (std::isnan(v) || std::isinf(v)) {
                continue;
            }
            if (plain && strchr("usb", f.kind)) {
                std::string exact = f.kind == 's' ? std::to_string((int64_t)v) : std::to_string((uint64_t)v);
                if (text != exact) {
                    mc::fail("not-exact", mc::str(what(), " instead of ", exact));
                    return;
                }
            } else {
                char* end;
                long double shown = strtold(text.c_str(), &end);
                if (text.empty() || *end) {
                    if (std::fabs((double)(s * v + o)) < 1e300) {
                        mc::fail("not-number", what());
                        return;
                    }
                    continue;
                }
                long double e = (long double)s * v + o;
                long double prec = f.kind == 'f' ? 3e-6L : 4e-14L;
                long double tol = prec * (std::fabs(e) + std::fabs((long double)s * v) * 1e-2L + (f.kind == 'f' ? 0 : std::fabs(o) * 1e-2)) + 1e-300L;
                if (f.kind == 'f') {
                    tol = 1e-6L * std::fabs(e) + 1e-13L * (std::fabs(s * v) + std::fabs(o)) + 1e-40L;
                } else {
                    tol = 1e-14L * std::fabs(e) + 1e-15L * (std::fabs(s * v) + std::fabs(o)) + 1e-320L;
                }
                if (std::fabs(e) > 1e300L) {
                    continue;
                }
                if (rd > 0) {
                    // the nearest multiple
                    if (std::fabs(shown - e) > rd / 2 * (1 + 1e-9L) + tol) {
                        mc::fail("wrong-rounding", mc::str(what(), ", not the nearest multiple of ", rd));
                        return;
                    }
                    auto k = std::round(shown / rd);
                    if (std::fabs(shown - k * (long double)rd) > tol + 1e-12L * std::fabs(e) + 1e-12L) {
                        mc::fail("not-rounded", mc::str(what(), ", not a multiple of ", rd));
                        return;
                    }
                } else if (std::fabs(shown - e) > tol) {
                    mc::fail("wrong-value", mc::str(what(), " instead of ", (double)e));
                    return;
                }
            }
            // and back
            bool back = rd == 0 || (rd < std::fabs(s) * 0.99);
            if (f.kind == 'f' || f.kind == 'd') {
                back = false;
            }
            if (back && std::fabs(v) * (s == 1 && o == 0 ? (plain ? 0 : 1) : 1) < 4e15L && std::fabs(v) * std::max(1.0, std::fabs(o / s)) < 1e14L + (plain ? 1e30L : 0)) {
                try {
                    auto r = ConvertToRawValue(*cfg, text).Get<uint64_t>();
                    if (r != raw) {
                        mc::fail("round-trip", mc::str(what(), ", but the text is written as ", r));
                        return;
                    }
                } catch (const std::exception& ex) {
                    mc::fail("round-trip", mc::str(what(), ", but the text is refused: ", ex.what()));
                    return;
                }
            }
            if ((f.kind == 'f' || f.kind == 'd') && rd == 0) {
                // as near as the text allows
                try {
                    auto r = ConvertToRawValue(*cfg, text).Get<uint64_t>();
                    long double u;
                    valueOf(f, r, u);
                    long double e = (long double)s * v + o;
                    long double lim = (f.kind == 'f' ? 2e-6L : 1e-13L) * (std::fabs(v) + std::fabs(o / s)) + (f.kind == 'f' ? 1e-40L : 1e-310L);
                    if (std::fabs(u - v) > lim && std::fabs(e) < (f.kind == 'f' ? 1e37L : 1e300L) && std::fabs(v) > 1e-300L) {
                        mc::fail("round-trip", mc::str(what(), ", but the text is written as ", (double)u));
                        return;
                    }
                } catch (const std::out_of_range&) { // denormal
                } catch (const std::exception& ex) {
                    mc::fail("round-trip", mc::str(what(), ", but the text is refused: ", ex.what()));
                    return;
                }
            }
        }
        mc::evaluated(n);
        if (!plain) {
            mc::nontrivial();
        }
        mc::outcome(mc::mix(n, mc::hash(cfgText(f, s, o, rd))));
    }

    struct Text
    {
        const char* t;
        enum
        {
            NUMBER,
            BAD,
            LENIENT, // a number or refused
        } kind;
        long double v;
    };
    const Text TEXTS[] = {
        {"0", Text::NUMBER, 0},
        {"1", Text::NUMBER, 1},
        {"-1", Text::NUMBER, -1},
        {"12", Text::NUMBER, 12},
        {"127", Text::NUMBER, 127},
        {"128", Text::NUMBER, 128},
        {"255", Text::NUMBER, 255},
        {"256", Text::NUMBER, 256},
        {"-128", Text::NUMBER, -128},
        {"-129", Text::NUMBER, -129},
        {"32767", Text::NUMBER, 32767},
        {"65535", Text::NUMBER, 65535},
        {"65536", Text::NUMBER, 65536},
        {"-32768", Text::NUMBER, -32768},
        {"8388607", Text::NUMBER, 8388607},
        {"-8388608", Text::NUMBER, -8388608},
        {"4294967295", Text::NUMBER, 4294967295.L},
        {"-2147483648", Text::NUMBER, -2147483648.L},
        {"9223372036854775807", Text::NUMBER, 9223372036854775807.L},
        {"-9223372036854775808", Text::NUMBER, -9223372036854775808.L},
        {"9223372036854775808", Text::NUMBER, 9223372036854775808.L},
        {"18446744073709551615", Text::NUMBER, 18446744073709551615.L},
        {"18446744073709551616", Text::NUMBER, 18446744073709551616.L},
        {"0x10", Text::NUMBER, 16},
        {"0xFF", Text::NUMBER, 255},
        {"0XfF", Text::NUMBER, 255},
        {"-0x10", Text::LENIENT, -16},
        {"0xZ", Text::BAD, 0},
        {"0x", Text::BAD, 0},
        {"0x1G", Text::BAD, 0},
        {"010", Text::NUMBER, 10},
        {"10.0", Text::NUMBER, 10},
        {"10.4", Text::NUMBER, 10.4L},
        {"10.6", Text::NUMBER, 10.6L},
        {"-10.6", Text::NUMBER, -10.6L},
        {"25.3", Text::NUMBER, 25.3L},
        {"-5", Text::NUMBER, -5},
        {"-5.0", Text::NUMBER, -5},
        {"-300", Text::NUMBER, -300},
        {"-300.0", Text::NUMBER, -300},
        {"1e2", Text::NUMBER, 100},
        {"2.5E+1", Text::NUMBER, 25},
        {"-0", Text::NUMBER, 0},
        {"0.0", Text::NUMBER, 0},
        {"-0.4", Text::NUMBER, -0.4L},
        {"+7", Text::LENIENT, 7},
        {" 7", Text::LENIENT, 7},
        {"7 ", Text::BAD, 0},
        {"", Text::BAD, 0},
        {" ", Text::BAD, 0},
        {"abc", Text::BAD, 0},
        {"1abc", Text::BAD, 0},
        {"1.2.3", Text::BAD, 0},
        {"1,5", Text::BAD, 0},
        {"--1", Text::BAD, 0},
        {"1 2", Text::BAD, 0},
        {"true", Text::BAD, 0},
        {"nan", Text::BAD, 0},
        {"NaN", Text::BAD, 0},
        {"inf", Text::BAD, 0},
        {"-Infinity", Text::BAD, 0},
        {"1e30", Text::NUMBER, 1e30L},
        {"-1e30", Text::NUMBER, -1e30L},
        {"1e18", Text::NUMBER, 1e18L},
        {"-1e18", Text::NUMBER, -1e18L},
        {"1e400", Text::BAD, 0},
    };

    // Text from MQTT to registers of the device
    void texts()
    {
        const auto& f = FORMATS[mc::choose(16, "format")];
        static const struct
        {
            double s, o, r;
        } CFG[] = {{1, 0, 0}, {0.1, 0, 0}, {1, -273.1, 0}, {0.1, -273.1, 0.1}, {-1, 0, 0}, {10, 1000, 0}, {0.001, 0, 1}, {2, 10, 0}, {1, 0, 0.5}};
        const auto& c = CFG[mc::choose(9, "conversion")];
        const auto& t = TEXTS[mc::choose(sizeof TEXTS / sizeof *TEXTS, "text")];
        try {
            World w;
            auto& slave = w.net.add(1);
            const uint16_t OLD = 0x1234;
            for (int i = 8; i < 18; ++i) {
                slave.regs[3][i] = OLD;
            }
            w.device(deviceWith(channel(f, c.s, c.o, c.r)));
            w.begin();
            w.runTo(500 * MS);
            w.command(1, "V", t.t);
            w.runTo(1500 * MS);
            bool written = false;
            for (auto& a: w.net.log) {
                written = written || a.isWrite();
            }
            uint64_t raw = 0;
            for (int i = 0; i < f.words; ++i) {
                raw = raw << 16 | slave.regs[3][10 + i];
            }
            uint64_t mask = f.bits == 64 ? ~0ull : (1ull << f.bits) - 1;
            raw &= mask;
            auto what = [&] { return mc::str(cfgText(f, c.s, c.o, c.r), " text '", t.t, "' ", written ? mc::str("written as ", raw) : "refused"); };
            bool isFloat = f.kind == 'f' || f.kind == 'd';
            if (t.kind == Text::BAD) {
                mc::cover("bad");
                bool special = isFloat && (strchr("nNi-", t.t[0]) && strlen(t.t) > 2);
                MC_CHECK(!written || special, "bad-accepted", what());
            } else {
                mc::nontrivial();
                long double e = (t.v - (long double)c.o) / c.s;
                long double er = e; // a fraction may be rounded by round_to before
                if (c.r > 0) {
                    er = (std::round(t.v / c.r) * c.r - (long double)c.o) / c.s;
                }
                if (isFloat) {
                    if (std::fabs(e) < 1e37L) {
                        MC_CHECK(written || t.kind == Text::LENIENT, "number-refused", what());
                    }
                    if (written) {
                        long double u;
                        valueOf(f, raw, u);
                        long double tol = (f.kind == 'f' ? 2e-7L : 1e-14L) * (std::fabs(e) + std::fabs(c.o / c.s)) + 1e-30L;
                        MC_CHECK(std::fabs(u - e) <= tol || std::fabs(u - er) <= tol, "wrong-number", what(), " = ", (double)u, " instead of ", (double)e);
                    }
                } else {
                    long double lo = f.kind == 's' ? -std::pow(2.L, f.bits - 1) : 0;
                    long double hi = f.kind == 's' ? std::pow(2.L, f.bits - 1) - 1 : f.kind == 'b' ? std::pow(10.L, f.bits / 4) - 1 : std::pow(2.L, f.bits) - 1;
                    auto fits = [&](long double x) { return std::round(x) >= lo && std::round(x) <= hi; };
                    bool exactInt = c.s == 1 && c.o == 0 && t.v == std::floor(t.v);
                    bool must = fits(e) && fits(er) && (exactInt || std::fabs(e) < 9e18L) && t.kind == Text::NUMBER && !(std::fabs(t.v) > 9223372036854775807.L && f.kind == 's') && std::fabs(t.v) < 1.84467440737095516e19L;
                    if (must) {
                        MC_CHECK(written, "number-refused", what());
                        mc::cover("number");
                    }
                    if (written) {
                        auto bits = [&](long double x) {
                            x = std::round(x);
                            if (f.kind == 'b') {
                                uint64_t r = 0;
                                auto n = (uint64_t)x;
                                for (int i = 0; i < f.bits; i += 4) {
                                    r |= (n % 10) << i;
                                    n /= 10;
                                }
                                return r;
                            }
                            return (x < 0 ? (uint64_t)(int64_t)x : (uint64_t)x) & mask;
                        };
                        if (f.kind == 'b' && !(fits(e) && fits(er))) {
                            return; // too long numbers are not defined for BCD
                        }
                        bool ok;
                        if (std::fabs(e) > 1.85e19L || e < -9.3e18L) {
                            ok = false; // nothing sensible can be written
                        } else if (std::fabs(e) > 1e15L && !exactInt) {
                            // precision of double
                            ok = true;
                            if (f.bits == 64) {
                                auto d = (long double)(int64_t)(raw - bits(e));
                                ok = std::fabs(d) <= std::fabs(e) * 1e-15L;
                            }
                        } else {
                            auto near = [&](long double x) {
                                return raw == bits(x - 1e-9L) || raw == bits(x + 1e-9L);
                            };
                            ok = near(e) || near(er);
                        }
                        MC_CHECK(ok, "wrong-number", what(), ", the value of the register has to be ", (double)e);
                    }
                }
            }
            if (!written) {
                MC_CHECK(slave.regs[3][10] == OLD, "harness", "?");
            }
            // other addresses are intact
            for (int i = 8; i < 18; ++i) {
                MC_CHECK((i >= 10 && i < 10 + f.words) || slave.regs[3][i] == OLD, "neighbour", what(), ": register ", i, " is changed");
            }
            mc::outcome(mc::mix(raw, written));
        } catch (const ExecutionEnd&) {
        }
    }

    // on_value and off_value
    void onOff()
    {
        const auto& f = FORMATS[mc::choose(10, "format")];
        static const char* ONS[] = {"1", "255", "\"0xFF\"", "\"100\"", "0", "-2", "\"-2\""};
        static const int64_t ONV[] = {1, 255, 255, 100, 0, -2, -2};
        static const char* OFFS[] = {"0", "170", "\"0x55\"", "1", "-3"};
        static const int64_t OFFV[] = {0, 170, 85, 1, -3};
        int on = mc::choose(7, "on"), off = mc::choose(6, "off");
        int64_t onv = ONV[on], offv = off < 5 ? OFFV[off] : 0;
        auto fits = [&](int64_t v) {
            if (f.kind == 'u') {
                return v >= 0;
            }
            return f.bits == 64 || (v >= -(1ll << (f.bits - 1)) && v < (1ll << (f.bits - 1)));
        };
        if (!fits(onv) || !fits(offv) || (onv == offv && off < 5)) {
            return;
        }
        try {
            World w;
            auto& slave = w.net.add(1);
            auto c = channel(f, 1, 0, 0);
            c["type"] = "switch";
            c["on_value"] = json(mc::str("{\"x\":", ONS[on], "}"))["x"];
            if (off < 5) {
                c["off_value"] = json(mc::str("{\"x\":", OFFS[off], "}"))["x"];
            }
            uint64_t mask = f.bits == 64 ? ~0ull : (1ull << f.bits) - 1;
            auto put = [&](int64_t v) {
                uint64_t raw = (uint64_t)v & mask;
                for (int i = f.words - 1; i >= 0; --i) {
                    slave.regs[3][10 + i] = raw;
                    raw >>= 16;
                }
            };
            auto get = [&] {
                uint64_t raw = 0;
                for (int i = 0; i < f.words; ++i) {
                    raw = raw << 16 | slave.regs[3][10 + i];
                }
                return raw & mask;
            };
            put(33);
            w.device(deviceWith(c));
            w.begin();
            int64_t t = 500 * MS;
            auto shown = [&] {
                std::string s = "?";
                for (auto& p: w.mqtt->Log) {
                    if (p.Control == "V" && p.HasValue) {
                        s = p.Value;
                    }
                }
                return s;
            };
            auto expect = [&](int64_t v) {
                return v == onv ? std::string("1") : off < 5 && v == offv ? std::string("0") : std::to_string(v);
            };
            mc::nontrivial();
            w.runTo(t);
            MC_CHECK(shown() == expect(33), "shown", "33 is shown as ", shown());
            for (int64_t v: {onv, (int64_t)34, offv, (int64_t)1, (int64_t)0}) {
                put(v);
                w.runTo(t += 500 * MS);
                MC_CHECK(shown() == expect(v), "shown", f.name, " on_value ", ONS[on], " off ", off, ": ", v, " is shown as ", shown(), " instead of ", expect(v));
            }
            put(33);
            w.runTo(t += 500 * MS);
            for (const char* cmd: {"1", "0", "1", "7"}) {
                w.command(1, "V", cmd);
                w.runTo(t += 500 * MS);
                int64_t e = cmd[0] == '1' ? onv : cmd[0] == '0' && off < 5 ? offv : atoi(cmd);
                MC_CHECK(get() == ((uint64_t)e & mask), "written", f.name, " on_value ", ONS[on], " off ", off, ": command ", cmd, " is written as ", get());
                MC_CHECK(shown() == expect(e), "shown", "command ", cmd, " is shown as ", shown());
            }
            mc::outcome(w.digest());
        } catch (const ExecutionEnd&) {
        }
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    mc::Options o;
    o.name = "convert";
    o.seconds = mc::thorough() ? 600 : 60;
    mc::explore(o, convert);
    o.name = "texts";
    o.mustCover = {"bad", "number"};
    mc::explore(o, texts);
    o.name = "on-off";
    o.mustCover = {};
    mc::explore(o, onOff);
    return mc::finish();
}
