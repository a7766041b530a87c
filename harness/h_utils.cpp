// P22: binary utilities, P23: version comparison and MQTT names. Complete enumerations of bounded inputs.
#include "bcd_utils.h"
#include "bin_utils.h"
#include "common_utils.h"
#include "crc16.h"
#include "mc.h"
#include <cstring>
#include <iterator>
#include <optional>

namespace
{
    std::string hex(const std::vector<uint8_t>& v)
    {
        std::string s;
        char b[4];
        for (auto x: v) {
            snprintf(b, sizeof(b), "%02x", x);
            s += b;
        }
        return s;
    }

    uint16_t refCrc(const uint8_t* p, size_t n)
    {
        uint16_t crc = 0xFFFF;
        for (size_t i = 0; i < n; ++i) {
            crc ^= p[i];
            for (int b = 0; b < 8; ++b) {
                crc = (crc & 1) ? (crc >> 1) ^ 0xA001 : crc >> 1;
            }
        }
        // The implementation returns the bytes in transmission order
        return (uint16_t)((crc << 8) | (crc >> 8));
    }

    void crcAll()
    {
        int a = mc::choose(256, "first byte");
        mc::nontrivial();
        std::vector<uint8_t> v{(uint8_t)a};
        auto chk = [&] {
            MC_CHECK(CRC16::CalculateCRC16(v.data(), v.size()) == refCrc(v.data(), v.size()), "crc", "wrong CRC16 of ", hex(v));
        };
        chk();
        for (int b = 0; b < 256; ++b) {
            v = {(uint8_t)a, (uint8_t)b};
            chk();
            for (int c = 0; c < 256; ++c) {
                v = {(uint8_t)a, (uint8_t)b, (uint8_t)c};
                chk();
            }
        }
        // every position of long frames
        for (size_t len: {4, 8, 255, 256, 257, 600}) {
            v.assign(len, (uint8_t)a);
            chk();
            for (size_t i = 0; i < len; ++i) {
                std::fill(v.begin(), v.end(), 0);
                v[i] = a;
                chk();
            }
        }
    }

    const uint8_t PATTERN[] = {0, 1, 0x7f, 0x80, 0xff, 0x5a};

    template<class T> void numbers(const std::vector<uint8_t>& v)
    {
        if (v.size() != sizeof(T)) {
            return;
        }
        T le = 0, be = 0;
        for (size_t i = 0; i < v.size(); ++i) {
            le |= (T)((T)v[i] << (8 * i));
            be |= (T)((T)v[i] << (8 * (v.size() - 1 - i)));
        }
        MC_CHECK(BinUtils::GetFrom<T>(v.begin()) == le, "get-from", "GetFrom ", hex(v));
        MC_CHECK(BinUtils::GetFromBigEndian<T>(v.begin()) == be, "get-from-be", "GetFromBigEndian ", hex(v));
        std::vector<uint8_t> o;
        BinUtils::Append(std::back_inserter(o), le);
        MC_CHECK(o == v, "append-default", "Append of ", le, " gives ", hex(o));
        o.clear();
        BinUtils::AppendBigEndian(std::back_inserter(o), be);
        MC_CHECK(o == v, "append-be-default", "AppendBigEndian of ", be, " gives ", hex(o));
    }

    void byteOrder()
    {
        size_t n = 1 + mc::choose(8, "size");
        std::vector<uint8_t> v;
        for (size_t i = 0; i < n; ++i) {
            v.push_back(PATTERN[mc::choose(n > 6 && !mc::thorough() ? 5 : 6, "byte")]);
        }
        mc::nontrivial();
        uint64_t le = 0, be = 0;
        for (size_t i = 0; i < n; ++i) {
            le |= (uint64_t)v[i] << (8 * i);
            be = (be << 8) | v[i];
        }
        MC_CHECK(BinUtils::Get<uint64_t>(v.begin(), v.end()) == le, "get", "Get ", hex(v));
        MC_CHECK(BinUtils::GetBigEndian<uint64_t>(v.begin(), v.end()) == be, "get-be", "GetBigEndian ", hex(v));
        std::vector<uint8_t> o{1};
        BinUtils::Append(std::back_inserter(o), le, n);
        MC_CHECK(std::vector<uint8_t>(o.begin() + 1, o.end()) == v, "append", "Append gives ", hex(o), " for ", hex(v));
        o = {1};
        BinUtils::AppendBigEndian(std::back_inserter(o), be, n);
        MC_CHECK(std::vector<uint8_t>(o.begin() + 1, o.end()) == v, "append-be", "AppendBigEndian gives ", hex(o), " for ", hex(v));
        numbers<uint8_t>(v);
        numbers<uint16_t>(v);
        numbers<uint32_t>(v);
        numbers<uint64_t>(v);
    }

    void masks()
    {
        int b = mc::choose(256, "bits");
        mc::nontrivial();
        uint64_t m = 0;
        for (int i = 0; i < b && i < 64; ++i) {
            m |= uint64_t(1) << i;
        }
        MC_CHECK(BinUtils::GetLSBMask(b) == m, "mask", "GetLSBMask(", b, ") is wrong");
        for (int i = 0; i < 256; ++i) {
            uint8_t d[4] = {9, 9, 9, 9};
            BinUtils::WriteAs2Bytes(d + 1, b * 256 + i);
            MC_CHECK(d[0] == 9 && d[1] == b && d[2] == i && d[3] == 9, "write2", "WriteAs2Bytes(", b * 256 + i, ")");
        }
    }

    void stuffing()
    {
        const std::unordered_map<uint8_t, std::vector<uint8_t>> rules = {{0xc0, {0xdb, 0xdc}}, {0xdb, {0xdb, 0xdd}}};
        const uint8_t alphabet[] = {0x01, 0xc0, 0xdb, 0xdc, 0xdd};
        int n = mc::choose(mc::thorough() ? 10 : 9, "length");
        std::vector<uint8_t> v, enc, ref;
        for (int i = 0; i < n; ++i) {
            v.push_back(alphabet[mc::choose(5, "byte")]);
        }
        for (auto x: v) {
            if (x == 0xc0) {
                ref.insert(ref.end(), {0xdb, 0xdc});
                mc::nontrivial();
            } else if (x == 0xdb) {
                ref.insert(ref.end(), {0xdb, 0xdd});
                mc::nontrivial();
            } else {
                ref.push_back(x);
            }
        }
        BinUtils::ApplyByteStuffing(v, rules, std::back_inserter(enc));
        MC_CHECK(enc == ref, "stuffing-encode", "stuffing of ", hex(v), " gives ", hex(enc));
        auto dec = ref;
        BinUtils::DecodeByteStuffing(dec, rules);
        MC_CHECK(dec == v, "stuffing-roundtrip", "stuffing and decoding of ", hex(v), " gives ", hex(dec));
    }

    void bcd()
    {
        // All numbers of one to three bytes, all combinations of border digits of four bytes
        int hi = mc::choose(100, "two upper digits");
        mc::nontrivial();
        auto one = [&](uint32_t value, int bytes) {
            WordSizes sz = (WordSizes)bytes;
            std::vector<uint8_t> a = IntToBCDArray(value, sz);
            uint32_t packed = 0;
            auto x = value;
            for (int i = 0; i < bytes; ++i) {
                packed |= (uint32_t)((x % 10) | ((x / 10 % 10) << 4)) << (8 * i);
                x /= 100;
            }
            std::vector<uint8_t> ref;
            for (int i = bytes - 1; i >= 0; --i) {
                ref.push_back(packed >> (8 * i));
            }
            MC_CHECK(a == ref, "bcd-array", "IntToBCDArray(", value, ",", bytes, ") is ", hex(a));
            MC_CHECK(IntToPackedBCD(value, sz) == packed, "bcd-packed", "IntToPackedBCD(", value, ",", bytes, ")");
            MC_CHECK(PackedBCD2Int(packed, sz) == value, "bcd-int", "PackedBCD2Int of ", value, ",", bytes, " is ", PackedBCD2Int(packed, sz));
            MC_CHECK(PackBytes(ref.data(), sz) == packed, "pack-bytes", "PackBytes of ", hex(ref));
        };
        one(hi, 1);
        for (int i = 0; i < 100; ++i) {
            one(hi * 100 + i, 2);
            for (int j = 0; j < 100; ++j) {
                one(hi * 10000 + i * 100 + j, 3);
                for (int k: {0, 1, 9, 10, 19, 50, 90, 91, 99}) {
                    one(hi * 1000000 + i * 10000 + j * 100 + k, 4);
                }
            }
        }
    }

    // ---------------------------------------------------------------- versions

    struct V
    {
        std::string text;
        bool empty;
        std::vector<int> num;
        int suffix; // <0 - rc, >0 - wb
    };

    int refCmp(const V& a, const V& b)
    {
        if (a.empty || b.empty) {
            return a.empty && b.empty ? 0 : (a.empty ? -1 : 1);
        }
        for (int i = 0; i < 3; ++i) {
            if (a.num[i] != b.num[i]) {
                return a.num[i] < b.num[i] ? -1 : 1;
            }
        }
        return a.suffix == b.suffix ? 0 : (a.suffix < b.suffix ? -1 : 1);
    }

    int sgn(int x)
    {
        return (x > 0) - (x < 0);
    }

    std::vector<V> versions()
    {
        std::vector<V> res{{"", true, {}, 0}};
        for (int a: {0, 1, 10}) {
            for (int b: {0, 9, 10, 127}) {
                for (int c: {0, 19, 128}) {
                    for (int s: {0, 1, 2, 10, 99, -1, -2, -10, -100}) {
                        V v;
                        v.empty = false;
                        v.num = {a, b, c};
                        v.suffix = 0;
                        v.text = mc::str(a, ".", b, ".", c);
                        if (s > 0) {
                            v.text += mc::str("+wb", s);
                            v.suffix = s;
                        } else if (s < 0) {
                            v.text += mc::str("-rc", -s);
                            v.suffix = s == -100 ? -1000 + 100 : -1000 + -s; // rc1 < rc10 < release
                        }
                        res.push_back(v);
                    }
                }
            }
        }
        return res;
    }

    void versionOrder()
    {
        static auto all = versions();
        int i = mc::choose(all.size(), "version");
        mc::nontrivial();
        for (auto& b: all) {
            auto r = util::CompareVersionStrings(all[i].text, b.text);
            MC_CHECK(sgn(r) == refCmp(all[i], b), "version-order", "'", all[i].text, "' against '", b.text, "' gives ", r);
        }
    }

    void versionTransitive()
    {
        // Any strings of versions, well formed or not: antisymmetric and transitive
        static std::vector<std::string> all;
        static std::vector<std::vector<int8_t>> m;
        if (all.empty()) {
            all.push_back("");
            for (auto a: {"0", "1", "10", "x"}) {
                for (auto b: {"", ".0", ".1", ".2-rc1", ".1-rc2", ".1+wb1", ".1+wb2", ".", ".x"}) {
                    for (auto c: {"", ".0", ".3", ".3-rc1", ".3+wb1"}) {
                        all.push_back(std::string(a) + b + c);
                    }
                }
            }
            for (auto& a: all) {
                m.emplace_back();
                for (auto& b: all) {
                    m.back().push_back(util::CompareVersionStrings(a, b));
                }
            }
        }
        int i = mc::choose(all.size(), "version");
        mc::nontrivial();
        MC_CHECK(m[i][i] == 0, "version-reflexive", "'", all[i], "' is not equal to itself");
        for (size_t j = 0; j < all.size(); ++j) {
            MC_CHECK(m[i][j] == -m[j][i], "version-antisymmetric", "'", all[i], "' and '", all[j], "'");
            for (size_t k = 0; k < all.size(); ++k) {
                if (m[i][j] <= 0 && m[j][k] <= 0) {
                    MC_CHECK(m[i][k] <= 0 && (m[i][k] == 0) == (m[i][j] == 0 && m[j][k] == 0), "version-transitive", "'", all[i], "', '", all[j], "', '", all[k], "'");
                }
            }
        }
    }

    void mqttNames()
    {
        const char alphabet[] = {'a', '\'', '"', '/', '+', '$', '#', '_', ' ', '|', (char)0xd0, '0'};
        int n = mc::choose(mc::thorough() ? 7 : 6, "length");
        std::string s, ref;
        bool valid = true;
        for (int i = 0; i < n; ++i) {
            char c = alphabet[mc::choose(sizeof(alphabet), "char")];
            s += c;
            switch (c) {
                case '\'':
                case '"':
                case '/':
                    ref += '|';
                    valid = false;
                    break;
                case '+':
                    ref += "_plus_";
                    valid = false;
                    break;
                case '$':
                case '#':
                    ref += "_";
                    valid = false;
                    break;
                default:
                    ref += c;
            }
        }
        if (!valid) {
            mc::nontrivial();
        }
        MC_CHECK(util::IsValidMqttTopicString(s) == valid, "topic-valid", "validity of '", s, "'");
        auto r = util::ConvertToValidMqttTopicString(s);
        MC_CHECK(r == ref, "topic-convert", "'", s, "' is converted to '", r, "'");
        MC_CHECK(util::IsValidMqttTopicString(r), "topic-converted-valid", "'", r, "' is not valid");
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    bool names = argc > 1 && std::string(argv[1]) == "P23";
    if (names) {
        mc::explore({.name = "version-order", .executionSeconds = 60, .shardDepth = 1}, versionOrder);
        mc::explore({.name = "version-total-order", .executionSeconds = 60, .shardDepth = 1}, versionTransitive);
        mc::explore({.name = "mqtt-names"}, mqttNames);
    } else {
        mc::explore({.name = "crc16", .executionSeconds = 60, .shardDepth = 1}, crcAll);
        mc::explore({.name = "masks", .shardDepth = 1}, masks);
        mc::explore({.name = "byte-order"}, byteOrder);
        mc::explore({.name = "byte-stuffing"}, stuffing);
        mc::explore({.name = "bcd", .executionSeconds = 60, .shardDepth = 1}, bcd);
    }
    return mc::finish();
}
