// Stand-in for libwbmqtt1: string helpers
#pragma once
#include <algorithm>
#include <atomic>
#include <cctype>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <iomanip>
#include <iostream>
#include <memory>
#include <mutex>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace WBMQTT
{
    inline std::string StringFormat(const char* fmt, ...)
    {
        va_list ap;
        va_start(ap, fmt);
        va_list ap2;
        va_copy(ap2, ap);
        int n = vsnprintf(nullptr, 0, fmt, ap);
        va_end(ap);
        std::string res(n > 0 ? n : 0, '\0');
        if (n > 0) {
            vsnprintf(&res[0], n + 1, fmt, ap2);
        }
        va_end(ap2);
        return res;
    }

    inline std::vector<std::string> StringSplit(const std::string& s, char sep)
    {
        std::vector<std::string> res;
        std::istringstream ss(s);
        std::string item;
        while (std::getline(ss, item, sep)) {
            res.push_back(item);
        }
        return res;
    }

    inline std::vector<std::string> StringSplit(const std::string& s, const std::string& sep)
    {
        std::vector<std::string> res;
        size_t pos = 0;
        while (true) {
            auto next = s.find(sep, pos);
            if (next == std::string::npos) {
                res.push_back(s.substr(pos));
                return res;
            }
            res.push_back(s.substr(pos, next - pos));
            pos = next + sep.size();
        }
    }

    inline bool StringStartsWith(const std::string& s, const std::string& prefix)
    {
        return s.size() >= prefix.size() && s.compare(0, prefix.size(), prefix) == 0;
    }

    inline bool StringHasSuffix(const std::string& s, const std::string& suffix)
    {
        return s.size() >= suffix.size() && s.compare(s.size() - suffix.size(), suffix.size(), suffix) == 0;
    }

    inline std::string& StringReplace(std::string& s, const std::string& what, const std::string& to)
    {
        for (size_t p = 0; (p = s.find(what, p)) != std::string::npos; p += to.size()) {
            s.replace(p, what.size(), to);
        }
        return s;
    }

    inline std::string HexDump(const uint8_t* data, size_t size)
    {
        std::ostringstream ss;
        ss << std::hex << std::setfill('0');
        bool first = true;
        for (size_t i = 0; i < size; ++i) {
            if (!first) {
                ss << " ";
            }
            first = false;
            ss << std::setw(2) << static_cast<unsigned>(data[i]);
        }
        return ss.str();
    }

    inline std::string HexDump(const std::vector<uint8_t>& data)
    {
        return HexDump(data.data(), data.size());
    }

    inline void SetThreadName(const std::string&)
    {}
}
