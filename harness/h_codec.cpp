// P06: which answers of Modbus devices are accepted
#include "devices/modbus_device.h"
#include "modbus_common.h"
#include "sim.h"
using namespace sim;

namespace
{
    //! An exchange: what is requested and which answer is right
    struct Exchange
    {
        const char* name;
        int fn, addr, count;
        bool write;
        const char* channels;
        std::vector<int> use; // registers of the device taking part
        uint64_t value = 0;   // written
    };

    const char* CH_HOLDINGS = R"({"name":"A","reg_type":"holding","address":10},{"name":"B","reg_type":"holding","address":11},{"name":"C","reg_type":"holding","address":12,"format":"u32"})";
    const char* CH_BITS = R"({"name":"A","reg_type":"coil","address":3},{"name":"B","reg_type":"coil","address":4},{"name":"C","reg_type":"coil","address":11},{"name":"D","reg_type":"discrete","address":3})";
    const char* CH_INPUTS = R"({"name":"A","reg_type":"input","address":10,"format":"s32"},{"name":"S","reg_type":"holding","address":20,"format":"string","string_data_size":4})";

    const std::vector<Exchange> EXCHANGES = {
        {"read a coil", 1, 3, 1, false, CH_BITS, {0}},
        {"read 9 coils", 1, 3, 9, false, CH_BITS, {0, 1, 2}},
        {"read a discrete", 2, 3, 1, false, CH_BITS, {3}},
        {"read a holding", 3, 10, 1, false, CH_HOLDINGS, {0}},
        {"read 4 holdings", 3, 10, 4, false, CH_HOLDINGS, {0, 1, 2}},
        {"read 2 inputs", 4, 10, 2, false, CH_INPUTS, {0}},
        {"read a string", 3, 20, 4, false, CH_INPUTS, {1}},
        {"write a coil", 5, 3, 1, true, CH_BITS, {0}, 1},
        {"write a holding", 6, 10, 1, true, CH_HOLDINGS, {0}, 0x1234},
        {"write 2 holdings", 16, 12, 2, true, CH_HOLDINGS, {2}, 0x12345678},
    };

    struct Answer
    {
        std::string what;
        std::vector<bytes> frames; // one after another, without pauses
        bool late = false;         // the first frame comes after the time is out
    };

    bytes rtu(int slave, const bytes& pdu)
    {
        bytes f{(uint8_t)slave};
        f.insert(f.end(), pdu.begin(), pdu.end());
        Net::crc(f);
        return f;
    }
    bytes tcp(int tid, int slave, const bytes& pdu, int len = -1)
    {
        if (len < 0) {
            len = pdu.size() + 1;
        }
        bytes f{(uint8_t)(tid >> 8), (uint8_t)tid, 0, 0, (uint8_t)(len >> 8), (uint8_t)len, (uint8_t)slave};
        f.insert(f.end(), pdu.begin(), pdu.end());
        return f;
    }
    //! Data of an answer to a read request
    bytes data(const Exchange& e)
    {
        bytes d;
        if (e.fn <= 2) {
            for (int i = 0; i < (e.count + 7) / 8; ++i) {
                d.push_back((uint8_t)(0xB3 + 0x4E * i) & (e.count - 8 * i >= 8 ? 0xFF : (1 << (e.count - 8 * i)) - 1));
            }
        } else {
            for (int i = 0; i < e.count * 2; ++i) {
                d.push_back(e.addr == 20 ? (i & 1 ? 'a' + i : 0) : 0x81 + 0x13 * i);
            }
        }
        return d;
    }
    bytes goodPdu(const Exchange& e)
    {
        bytes p{(uint8_t)e.fn};
        if (e.write) {
            p.insert(p.end(), {(uint8_t)(e.addr >> 8), (uint8_t)e.addr});
            if (e.fn == 5) {
                p.insert(p.end(), {(uint8_t)(e.value ? 0xFF : 0), 0});
            } else if (e.fn == 6) {
                p.insert(p.end(), {(uint8_t)(e.value >> 8), (uint8_t)e.value});
            } else {
                p.insert(p.end(), {(uint8_t)(e.count >> 8), (uint8_t)e.count});
            }
        } else {
            auto d = data(e);
            p.push_back(d.size());
            p.insert(p.end(), d.begin(), d.end());
        }
        return p;
    }

    const int SLAVE = 5;

    //! All answers to try. The transaction id is known only when the request is seen.
    std::vector<Answer> answers(const Exchange& e, bool isTcp, int tid)
    {
        std::vector<Answer> res;
        auto pdu = goodPdu(e);
        auto pack = [&](int slave, const bytes& p) { return isTcp ? tcp(tid, slave, p) : rtu(slave, p); };
        auto good = pack(SLAVE, pdu);
        auto add = [&](std::string what, bytes f) { res.push_back({std::move(what), {std::move(f)}}); };
        add("good", good);
        res.push_back({"nothing", {}});
        for (size_t n = 1; n < good.size(); ++n) {
            add(mc::str("first ", n, " bytes"), bytes(good.begin(), good.begin() + n));
            add(mc::str("last ", n, " bytes"), bytes(good.end() - n, good.end()));
        }
        for (size_t n = 1; n <= 6; ++n) {
            auto f = good;
            f.insert(f.end(), n, 0x5A);
            add(mc::str("good and ", n, " more bytes"), f);
            f = good;
            f.insert(f.begin(), n, 0xFF);
            add(mc::str(n, " more bytes and good"), f);
            f = good;
            f.insert(f.begin(), n, 0x00);
            add(mc::str(n, " more zeros and good"), f);
        }
        size_t bits = good.size() * 8;
        for (size_t i = 0; i < bits; ++i) {
            auto f = good;
            f[i / 8] ^= 1 << i % 8;
            add(mc::str("bit ", i), f);
            if (!isTcp) {
                for (size_t j = i + 1; j < bits; ++j) {
                    auto g = f;
                    g[j / 8] ^= 1 << j % 8;
                    add(mc::str("bits ", i, " and ", j), g);
                }
            }
        }
        if (!isTcp && mc::thorough()) {
            // bursts
            for (uint32_t pattern = 5; pattern < 1024; pattern += 2) {
                for (size_t i = 0; i < bits; ++i) {
                    auto f = good;
                    for (int b = 0; b < 10; ++b) {
                        if (pattern >> b & 1 && i + b < bits) {
                            f[(i + b) / 8] ^= 1 << (i + b) % 8;
                        }
                    }
                    if (f != good) {
                        add(mc::str("bits of the burst ", pattern, " at ", i), f);
                    }
                }
            }
        }
        for (int fn = 0; fn < 256; ++fn) {
            auto p = pdu;
            p[0] = fn;
            add(mc::str("function ", fn), pack(SLAVE, p));
            add(mc::str("exception ", fn), pack(SLAVE, {(uint8_t)(e.fn | 0x80), (uint8_t)fn}));
            add(mc::str("exception of another function ", fn), pack(SLAVE, {(uint8_t)((e.fn ^ 1) | 0x80), (uint8_t)fn}));
            add(mc::str("only function ", fn), pack(SLAVE, {(uint8_t)fn}));
            add(mc::str("slave ", fn), pack(fn, pdu));
            for (int code: {1, 2, 3, 4, 11}) {
                if (fn != SLAVE) {
                    add(mc::str("exception ", code, " of slave ", fn), pack(fn, {(uint8_t)(e.fn | 0x80), (uint8_t)code}));
                }
            }
            if (!e.write) {
                p = pdu;
                p[1] = fn;
                add(mc::str("byte count ", fn), pack(SLAVE, p));
            }
        }
        add("exception without a code", pack(SLAVE, {(uint8_t)(e.fn | 0x80)}));
        add("exception with a tail", pack(SLAVE, {(uint8_t)(e.fn | 0x80), 2, 3}));
        add("empty PDU", pack(SLAVE, {}));
        for (int n = 0; n <= 250; n += (n < 24 ? 1 : 13)) {
            // consistent answers of another length
            bytes p{(uint8_t)e.fn};
            if (!e.write) {
                p.push_back(n);
            }
            for (int i = 0; i < n; ++i) {
                p.push_back(0x21 + i);
            }
            add(mc::str(n, " bytes of data"), pack(SLAVE, p));
        }
        if (isTcp) {
            for (int len = 0; len < 300; ++len) {
                add(mc::str("MBAP length ", len), tcp(tid, SLAVE, pdu, len));
            }
            add("MBAP length 65535", tcp(tid, SLAVE, pdu, 65535));
            bytes wrong = pdu;
            wrong.back() ^= 0x55;
            bytes exc{(uint8_t)(e.fn | 0x80), 2};
            for (int d: {-1, -2, 1, 256, -256, 0x8000}) {
                int other = (tid + d) & 0xFFFF;
                res.push_back({mc::str("transaction ", d), {tcp(other, SLAVE, wrong)}});
                res.push_back({mc::str("transaction ", d, " and good"), {tcp(other, SLAVE, wrong), good}});
                res.push_back({mc::str("exception of transaction ", d, " and good"), {tcp(other, SLAVE, exc), good}});
                res.push_back({mc::str("two of transaction ", d, " and good"), {tcp(other, SLAVE, wrong), tcp(other, SLAVE, bytes(40, 1)), good}});
                res.push_back({mc::str("other slave and transaction ", d, " and good"), {tcp(other, SLAVE ^ 7, wrong), good}});
                res.push_back({mc::str("empty of transaction ", d, " and good"), {tcp(other, SLAVE, {}), good}});
            }
        }
        return res;
    }

    enum Result
    {
        ACCEPT,
        TRANSIENT,
        PERMANENT,
        EITHER, // accepted with the right value or a transient error
        ERROR,  // any error
    };

    //! What has to be done with an answer
    Result judge(const Exchange& e, bool isTcp, int tid, const Answer& a, bytes& got)
    {
        bytes all;
        for (auto& f: a.frames) {
            all.insert(all.end(), f.begin(), f.end());
        }
        bytes pdu;
        int slave;
        bool tail = false;
        if (isTcp) {
            size_t pos = 0;
            while (true) {
                if (all.size() < pos + 7) {
                    return TRANSIENT;
                }
                size_t len = all[pos + 4] << 8 | all[pos + 5];
                if (!len || all.size() < pos + 6 + len) {
                    return TRANSIENT;
                }
                if ((all[pos] << 8 | all[pos + 1]) == tid) {
                    slave = all[pos + 6];
                    pdu.assign(all.begin() + pos + 7, all.begin() + pos + 6 + len);
                    tail = false; // the next answer of the stream
                    break;
                }
                pos += 6 + len;
            }
        } else {
            if (all.size() < 4) {
                return TRANSIENT;
            }
            auto f = all;
            bytes body(f.begin(), f.end() - 2);
            Net::crc(body);
            if (body != f || (all[1] & 0x80 && all.size() > 5)) {
                // a good answer followed by something
                size_t n = 3 + goodPdu(e).size();
                if (all.size() > 1 && all[1] & 0x80) {
                    n = 5;
                }
                if (all.size() <= n) {
                    return TRANSIENT;
                }
                f.resize(n);
                body.assign(f.begin(), f.end() - 2);
                Net::crc(body);
                if (body != f) {
                    return TRANSIENT;
                }
                tail = true;
            }
            slave = f[0];
            pdu.assign(f.begin() + 1, f.end() - 2);
        }
        if (slave != SLAVE || pdu.empty() || (pdu[0] & 0x7F) != e.fn) {
            return TRANSIENT;
        }
        if (pdu[0] & 0x80) {
            if (pdu.size() != 2) {
                return ERROR;
            }
            return pdu[1] >= 1 && pdu[1] <= 3 ? PERMANENT : TRANSIENT;
        }
        if (e.write) {
            if (pdu.size() != 5) {
                return TRANSIENT;
            }
            return pdu == goodPdu(e) && !tail ? ACCEPT : EITHER; // the echo isn't compared
        }
        size_t need = e.fn <= 2 ? (e.count + 7) / 8 : e.count * 2;
        if (pdu.size() < need + 2 || pdu.size() != pdu[1] + 2u) {
            return TRANSIENT;
        }
        got.assign(pdu.begin() + 2, pdu.end());
        return tail || pdu[1] != need ? EITHER : ACCEPT;
    }

    std::string regText(const Exchange& e, int i, const bytes& d)
    {
        // the reference decoding
        auto bit = [&](int n) { return std::to_string(d[n / 8] >> n % 8 & 1); };
        auto word = [&](int n) { return (uint32_t)(d[2 * n] << 8 | d[2 * n + 1]); };
        if (e.fn == 1) {
            static const int pos[] = {0, 1, 8};
            return bit(pos[i]);
        }
        if (e.fn == 2) {
            return bit(0);
        }
        if (e.addr == 20) {
            std::string s;
            for (int n = 0; n < 4; ++n) {
                char c = d[2 * n + 1];
                if (!c || c == '\xFF') {
                    break;
                }
                s += c;
            }
            return s;
        }
        if (e.fn == 4) {
            return std::to_string((int32_t)(word(0) << 16 | word(1)));
        }
        return i == 2 ? std::to_string(word(2) << 16 | word(3)) : std::to_string(word(i));
    }

    enum Transport
    {
        RTU,
        STRICT, // RTU with force_frame_timeout
        TCP,
        TRANSPORTS
    };

    void acceptance()
    {
        int transport = mc::choose(TRANSPORTS, "transport");
        bool isTcp = transport == TCP;
        auto& e = EXCHANGES[mc::choose(EXCHANGES.size(), "exchange")];
        static std::map<std::pair<int, int>, std::vector<Answer>> lists;
        auto key = std::make_pair((int)isTcp, (int)(&e - &EXCHANGES[0]));
        auto& list = lists[key];
        if (list.empty()) {
            list = answers(e, isTcp, 1);
        }
        size_t block = 64;
        size_t blocks = (list.size() + block - 1) / block;
        size_t from = mc::choose(blocks, "block of answers") * block;

        World w(isTcp);
        auto dev = w.device(json(mc::str(R"({"slave_id":")", SLAVE, R"(","protocol":"modbus","response_timeout_ms":50,"frame_timeout_ms":20,"max_read_registers":100,"max_reg_hole":20,"max_bit_hole":20,)", transport == STRICT ? R"("force_frame_timeout":true,)" : "", R"("channels":[)", e.channels, "]}")));
        if (isTcp) {
            w.bus->byteUs = 10;
        }
        w.bus->Open();
        std::vector<PRegister> regs;
        for (auto i: e.use) {
            auto it = dev->GetRegisters().begin();
            std::advance(it, i);
            regs.push_back(*it);
        }
        bytes expectedData = data(e);
        const Answer* answer = nullptr;
        int lastTid = 0;
        size_t index = 0;
        bool sendGood = false;
        w.net.raw = [&](const bytes& f) -> std::optional<bytes> {
            lastTid = isTcp ? f[0] << 8 | f[1] : 0;
            // the request itself
            bytes pdu(f.begin() + (isTcp ? 7 : 1), f.end() - (isTcp ? 0 : 2));
            MC_CHECK(pdu.size() >= 5 && pdu[0] == e.fn && (pdu[1] << 8 | pdu[2]) == e.addr && f[isTcp ? 6 : 0] == SLAVE, "request", e.name, ": request ", hex(f));
            if (isTcp) {
                MC_CHECK((size_t)(f[4] << 8 | f[5]) == pdu.size() + 1 && !f[2] && !f[3], "request-mbap", e.name, ": request ", hex(f));
            }
            if (sendGood) {
                return isTcp ? tcp(lastTid, SLAVE, goodPdu(e)) : rtu(SLAVE, goodPdu(e));
            }
            MC_CHECK(!isTcp || lastTid == 1, "harness-tid", "unexpected transaction ", lastTid);
            answer = &list[index];
            bytes all;
            for (auto& x: answer->frames) {
                all.insert(all.end(), x.begin(), x.end());
            }
            return all;
        };
        enum
        {
            GOT_OK,
            GOT_TRANSIENT,
            GOT_PERMANENT,
            GOT_OTHER
        } result;
        std::string error;
        auto exchange = [&] {
            try {
                error.clear();
                if (e.write) {
                    dev->WriteRegister(*w.bus, regs[0], TRegisterValue(e.value));
                } else {
                    auto range = dev->CreateRegisterRange();
                    for (auto& r: regs) {
                        if (!range->Add(*w.bus, r, milliseconds(10000))) {
                            mc::fail("harness-range", "the registers don't fit into a range");
                        }
                    }
                    dev->ReadRegisterRange(*w.bus, range, true);
                }
                result = GOT_OK;
            } catch (const TSerialDevicePermanentRegisterException& x) {
                error = x.what();
                result = GOT_PERMANENT;
            } catch (const TSerialDeviceTransientErrorException& x) {
                error = x.what();
                result = GOT_TRANSIENT;
            } catch (const ExecutionEnd&) {
                throw;
            } catch (const std::exception& x) {
                error = x.what();
                result = GOT_OTHER;
            }
        };
        auto values = [&] {
            std::string s;
            for (auto& r: regs) {
                s += (r->GetValue().GetType() == TRegisterValue::ValueType::Undefined ? "undefined" : ConvertFromRawValue(*r->GetConfig(), r->GetValue())) + "|";
            }
            return s;
        };
        auto expected = [&](const bytes& d) {
            std::string s;
            for (size_t i = 0; i < regs.size(); ++i) {
                s += regText(e, i, d) + "|";
            }
            return s;
        };
        auto reset = [&] {
            dev->SetSupportsHoles(true);
            for (auto& r: regs) {
                r->SetAvailable(TRegisterAvailability::AVAILABLE);
                r->IncludeInPolling();
            }
            w.bus->queue.clear();
            w.bus->busyUntil = 0;
            vclock::now += SEC;
        };
        for (index = from; index < std::min(from + block, list.size()); ++index) {
            mc::transition();
            reset();
            if (!e.write) {
                // some other values which must stay after a rejected answer
                for (auto& r: regs) {
                    r->SetValue(r->GetConfig()->IsString() ? TRegisterValue(std::string("old")) : TRegisterValue(1));
                }
            }
            if (isTcp) {
                Modbus::TModbusTCPTraits::ResetTransactionId(*w.bus);
            }
            auto before = values();
            auto t = vclock::now;
            exchange();
            bytes d;
            auto need = judge(e, isTcp, lastTid, *answer, d);
            bytes all;
            for (auto& x: answer->frames) {
                all.insert(all.end(), x.begin(), x.end());
            }
            auto what = mc::str(isTcp ? "TCP: " : transport == STRICT ? "strict RTU: " : "RTU: ", e.name, ", answer '", answer->what, "' ", hex(all), ": ");
            if (mc::tracing()) {
                mc::note(mc::str(what, "result ", result, " ", error, " values ", values()));
            }
            MC_CHECK(result != GOT_OTHER, "unexpected-exception", what, "unexpected exception '", error, "'");
            MC_CHECK(vclock::now - t < 1500 * MS, "too-long", what, "waited for ", (vclock::now - t) / MS, " ms");
            switch (need) {
                case ACCEPT:
                    MC_CHECK(result == GOT_OK, "good-rejected", what, "a good answer is rejected: ", error);
                    mc::cover("accepted");
                    break;
                case EITHER:
                    MC_CHECK(result != GOT_PERMANENT, "either", what, "taken as a refusal: ", error);
                    break;
                case TRANSIENT:
                    MC_CHECK(result != GOT_OK, "bad-accepted", what, "a bad answer is accepted, values ", values());
                    MC_CHECK(result != GOT_PERMANENT, "bad-permanent", what, "taken as a refusal: ", error);
                    mc::cover("rejected");
                    mc::nontrivial();
                    break;
                case ERROR:
                    MC_CHECK(result != GOT_OK, "bad-accepted", what, "a bad answer is accepted, values ", values());
                    break;
                case PERMANENT:
                    MC_CHECK(result == GOT_PERMANENT, "refusal", what, "a refusal isn't recognised: ", error);
                    mc::cover("refused");
                    break;
            }
            if (!e.write) {
                if (result == GOT_OK) {
                    if (!d.empty()) {
                        MC_CHECK(values() == expected(d), "decode", what, "read ", values(), " instead of ", expected(d));
                    }
                } else {
                    MC_CHECK(values() == before, "value-changed", what, "values are changed to ", values());
                }
                for (auto& r: regs) {
                    MC_CHECK(r->GetErrorState().test(TRegister::ReadError) == (result != GOT_OK), "read-error", what, "the read error mark is ", result == GOT_OK ? "set" : "not set");
                }
            }
            // Nothing of a bad answer is taken for the next one: the next exchanges fail or give the right values
            if (answer->what.find("bits") == 0 && !mc::thorough()) {
                continue; // takes too much time
            }
            for (int i = 0; i < 3; ++i) {
                sendGood = true;
                dev->SetSupportsHoles(true);
                for (auto& r: regs) {
                    r->SetAvailable(TRegisterAvailability::AVAILABLE);
                    r->IncludeInPolling();
                }
                vclock::now += 100 * MS;
                if (isTcp && i == 0) {
                    // A stream isn't synchronised after a bad length, the port will be reopened
                    bool framed = true;
                    for (auto& x: answer->frames) {
                        framed = framed && x.size() >= 7 && (size_t)(x[4] << 8 | x[5]) + 6 == x.size();
                    }
                    if (!framed) {
                        w.bus->queue.clear();
                    }
                }
                exchange();
                sendGood = false;
                MC_CHECK(result != GOT_OTHER, "unexpected-exception", what, "unexpected exception in a good exchange after it '", error, "'");
                if (result == GOT_OK) {
                    if (!e.write) {
                        MC_CHECK(values() == expected(expectedData), "next-decode", what, "the next good exchange gives ", values(), " instead of ", expected(expectedData));
                    }
                    break;
                }
                bool clean = isTcp || transport == STRICT || all.size() <= 5 || (all.size() <= 3 + goodPdu(e).size() && !(all[1] & 0x80));
                MC_CHECK(!(clean && i == 0), "next-rejected", what, "the next good exchange is rejected: ", error);
                MC_CHECK(i < 2, "no-recovery", what, "three good exchanges in a row are rejected: ", error);
                mc::cover("recovered after a disturbed exchange");
            }
        }
        mc::outcome(mc::mix(key.first * 100 + key.second, from));
        mc::state(mc::mix(transport * 100 + key.second, from));
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    mc::Options o;
    o.name = "answers";
    o.seconds = 120;
    o.shardDepth = 3;
    o.mustCover = {"accepted", "rejected", "refused"};
    mc::explore(o, [=] {
        try {
            acceptance();
        } catch (const ExecutionEnd&) {
        }
    });
    return mc::finish();
}
