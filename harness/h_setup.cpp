// P09: setup items are applied before polling after every (re)connection
#include "sim.h"
using namespace sim;

namespace
{
    struct Item
    {
        const char* json;
        int table; // 1 coils, 3 holdings
        int addr;
        std::vector<std::pair<uint16_t, uint16_t>> words; // mask, value
    };
    const Item ITEMS[] = {
        {R"({"title":"a","address":100,"value":"0x1111"})", 3, 100, {{0xFFFF, 0x1111}}},
        {R"({"title":"b","address":101,"value":"-2","format":"s16"})", 3, 101, {{0xFFFF, 0xFFFE}}},
        {R"({"title":"c","address":102,"value":305419896,"format":"u32"})", 3, 102, {{0xFFFF, 0x1234}, {0xFFFF, 0x5678}}},
        {R"({"title":"d","address":"104:0:4","value":5})", 3, 104, {{0x000F, 5}}},
        {R"({"title":"e","address":"104:8:8","value":195})", 3, 104, {{0xFF00, 0xC300}}},
        {R"({"title":"f","address":105,"value":7})", 3, 105, {{0xFFFF, 7}}},
        {R"({"title":"g","address":7,"reg_type":"coil","value":1})", 1, 7, {{1, 1}}},
        {R"({"title":"h","address":106,"reg_type":"holding_multi","value":9})", 3, 106, {{0xFFFF, 9}}},
        {R"({"title":"i","address":107,"value":12.5,"scale":0.1})", 3, 107, {{0xFFFF, 125}}},
        {R"({"title":"j","address":108,"value":"abc","format":"string","string_data_size":3})", 3, 108, {{0xFFFF, 'a'}, {0xFFFF, 'b'}, {0xFFFF, 'c'}}},
        {R"({"title":"k","address":111,"value":3})", 3, 111, {{0xFFFF, 3}}},
        {R"({"title":"l","address":112,"value":305419896,"format":"u32","word_order":"little_endian"})", 3, 112, {{0xFFFF, 0x5678}, {0xFFFF, 0x1234}}},
        {R"({"title":"m","address":"113:4:4","value":6})", 3, 113, {{0x00F0, 0x60}}},
        {R"({"title":"n","address":114,"reg_type":"holding_single","value":300})", 3, 114, {{0xFFFF, 300}}},
    };
    const int N = sizeof ITEMS / sizeof *ITEMS;
    const int POLLED = 200;

    void fill(Slave& s, uint16_t v)
    {
        for (int i = 98; i <= 120; ++i) {
            s.regs[3][i] = v ^ (i << 8 & 0x0F00);
        }
        for (int i = 0; i < 16; ++i) {
            s.regs[1][i] = 0;
        }
        s.regs[4][POLLED] = 77;
    }

    bool permanent(const Access& a)
    {
        return a.exception >= 1 && a.exception <= 3;
    }

    void setup(int maxItems, int faultPositions)
    {
        // The items
        std::vector<int> items;
        int n = 1 + mc::choose(maxItems, "items");
        int from = 0;
        for (int i = 0; i < n; ++i) {
            int left = n - i - 1;
            int k = from + mc::choose(N - left - from, "item");
            items.push_back(k);
            from = k + 1;
        }
        // 112 u32 and 113:4:4 overlap: not a legal template
        if (std::count(items.begin(), items.end(), 11) && std::count(items.begin(), items.end(), 12)) {
            return;
        }
        bool reversed = n > 1 && mc::choose(2, "reversed");
        bool preserve = n > 1 && mc::choose(2, "preserve order");
        if (reversed) {
            std::reverse(items.begin(), items.end());
        }
        static const int maxWrite[] = {0, 2, 1};
        int mw = maxWrite[mc::choose(n > 1 ? 3 : 1, "max_write_registers")];
        // One fault
        int faultAt = mc::choose(faultPositions + 1, "fault position") - 1;
        static const int kinds[] = {EXC2, LOST, EXC4, REPLY_LOST, BADCRC};
        int kind = faultAt < 0 ? OK : kinds[mc::choose(mc::thorough() ? 5 : 3, "fault")];
        int faultEpoch = faultAt < 0 ? 0 : mc::choose(2, "fault epoch");

        World w;
        w.config->OpenCloseSettings.MaxFailTime = milliseconds(-1);
        auto& s = w.net.add(1);
        fill(s, 0xA5A5);
        int epoch = 0, count = 0;
        auto initial = s.regs[3];
        auto initialCoils = s.regs[1];
        bool polledInEpoch = false;
        // addresses refused permanently and items written since the beginning of the attempt
        std::set<std::pair<int, int>> refused;
        std::vector<int> order;
        bool faulted = false;
        auto check = [&] {
            for (auto k: items) {
                auto& it = ITEMS[k];
                for (size_t i = 0; i < it.words.size(); ++i) {
                    auto& m = it.table == 1 ? initialCoils : initial;
                    int a = it.addr + i;
                    if (refused.count({it.table, a})) {
                        mc::cover("refused item is skipped");
                        if (s.regs[it.table][a] != m[a] && it.words.size() == 1 && it.words[0].first == 0xFFFF) {
                            mc::fail("refused-applied", "harness: refused write is applied");
                        }
                        m[a] = s.regs[it.table][a];
                        continue;
                    }
                    m[a] = (m[a] & ~it.words[i].first) | it.words[i].second;
                }
            }
            for (auto& x: initial) {
                MC_CHECK(s.regs[3][x.first] == x.second, mc::str("setup-value"), "epoch ", epoch, ": holding register ", x.first,
                         " is ", s.regs[3][x.first], " instead of ", x.second, " when polling begins");
            }
            for (auto& x: initialCoils) {
                MC_CHECK(s.regs[1][x.first] == x.second, "setup-coil", "epoch ", epoch, ": coil ", x.first, " is ", s.regs[1][x.first],
                         " instead of ", x.second, " when polling begins");
            }
            // order of writes of the last attempt
            std::vector<int> expected = items;
            if (!preserve) {
                // by type, then by address
                std::stable_sort(expected.begin(), expected.end(), [](int a, int b) {
                    return ITEMS[a].addr < ITEMS[b].addr || (ITEMS[a].addr == ITEMS[b].addr && ITEMS[a].words[0].first < ITEMS[b].words[0].first);
                });
            }
            std::vector<int> addrs;
            for (auto k: expected) {
                addrs.push_back(ITEMS[k].addr);
            }
            std::vector<int> got, holdings;
            for (auto a: order) {
                if (std::count(addrs.begin(), addrs.end(), a)) {
                    got.push_back(a);
                }
            }
            if (preserve) {
                MC_CHECK(got == addrs, "setup-order", "epoch ", epoch, ": order of writes is not the one of the template");
                mc::cover("order kept");
            } else {
                // only the order within a type is meaningful
                auto plain = [](int a) { return a != 7 && a != 106 && a != 114; };
                std::vector<int> g, e;
                std::copy_if(got.begin(), got.end(), std::back_inserter(g), plain);
                std::copy_if(addrs.begin(), addrs.end(), std::back_inserter(e), plain);
                MC_CHECK(g == e, "setup-sorted", "epoch ", epoch, ": setup items are not sorted by address");
            }
        };
        s.fault = [&](const Access& a) -> int {
            int k = count++;
            if (a.addr == POLLED) {
                if (!polledInEpoch) {
                    check();
                    polledInEpoch = true;
                    mc::cover(epoch ? "set up after a reconnection" : "set up");
                    if (faulted) {
                        mc::nontrivial();
                    }
                }
                return OK;
            }
            if (polledInEpoch) {
                MC_CHECK(false, "setup-again", "epoch ", epoch, ": ", a.str(), " after the setup is finished");
            }
            if (mw && a.isWrite()) {
                MC_CHECK(a.count <= std::max(mw, 3), "max-write", a.str(), " exceeds max_write_registers ", mw);
            }
            if (epoch == faultEpoch && k == faultAt) {
                faulted = true;
                if (kind == EXC2 && a.isWrite()) {
                    for (int i = 0; i < a.count; ++i) {
                        refused.insert({a.fn == 5 || a.fn == 15 ? 1 : 3, a.addr + i});
                        order.push_back(a.addr + i);
                    }
                } else {
                    order.clear();
                    refused.clear();
                    mc::cover("setup is retried");
                }
                return kind;
            }
            if (a.isWrite()) {
                for (int i = 0; i < a.count; ++i) {
                    order.push_back(a.addr + i);
                }
            }
            return OK;
        };
        std::string list;
        for (auto k: items) {
            list += (list.empty() ? "" : ",") + std::string(ITEMS[k].json);
        }
        w.device(json(mc::str(R"({"slave_id":"1","protocol":"modbus","response_timeout_ms":50,"device_timeout_ms":300,"device_max_fail_cycles":1)",
                              mw ? mc::str(",\"max_write_registers\":", mw) : "", preserve ? ",\"preserve_setup_order\":true" : "",
                              ",\"setup\":[", list, R"(],"channels":[{"name":"A","reg_type":"input","address":200,"read_rate_limit_ms":200}]})")));
        w.begin();
        w.runTo(5 * SEC);
        MC_CHECK(polledInEpoch, "not-polled", "the device isn't polled 5 s after the start");
        // power cycle
        s.online = false;
        w.runTo(8 * SEC);
        fill(s, 0x5A5A);
        initial = s.regs[3];
        initialCoils = s.regs[1];
        epoch = 1;
        count = 0;
        polledInEpoch = false;
        order.clear();
        refused.clear();
        s.online = true;
        w.runTo(15 * SEC);
        w.trace();
        MC_CHECK(polledInEpoch, "not-polled-2", "the device isn't polled 7 s after it is back");
        mc::outcome(w.digest());
        mc::state(w.digest());
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    mc::Options o;
    o.name = "setup";
    o.seconds = 60;
    o.shardDepth = 5;
    o.mustCover = {"set up", "set up after a reconnection", "refused item is skipped", "setup is retried", "order kept"};
    int items = mc::thorough() ? 4 : 3;
    int positions = mc::thorough() ? 7 : 5;
    mc::explore(o, [=] {
        try {
            setup(items, positions);
        } catch (const ExecutionEnd&) {
        }
    });
    return mc::finish();
}
