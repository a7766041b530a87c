// Stand-in for libwbmqtt1: JSON helpers
#pragma once
#include "json/json.h"
#include <chrono>
#include <memory>
#include <mutex>
#include <optional>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <functional>
#include <iostream>
#include <sstream>
#include <map>
#include "utils.h"

namespace WBMQTT
{
    namespace JSON
    {
        class TBadConfigError: public std::runtime_error
        {
        public:
            using std::runtime_error::runtime_error;
        };

        Json::Value Parse(const std::string& fileName);
        Json::Value ParseWithSettings(const std::string& fileName, const Json::Value& settings);

        template<class T> bool Is(const Json::Value& value);
        template<class T> T As(const Json::Value& value);

        template<> inline bool Is<bool>(const Json::Value& v) { return v.isBool(); }
        template<> inline bool As<bool>(const Json::Value& v) { return v.asBool(); }
        template<> inline bool Is<int32_t>(const Json::Value& v) { return v.isInt(); }
        template<> inline int32_t As<int32_t>(const Json::Value& v) { return v.asInt(); }
        template<> inline bool Is<uint32_t>(const Json::Value& v) { return v.isUInt(); }
        template<> inline uint32_t As<uint32_t>(const Json::Value& v) { return v.asUInt(); }
        template<> inline bool Is<uint64_t>(const Json::Value& v) { return v.isUInt64(); }
        template<> inline uint64_t As<uint64_t>(const Json::Value& v) { return v.asUInt64(); }
        template<> inline bool Is<int64_t>(const Json::Value& v) { return v.isInt64(); }
        template<> inline int64_t As<int64_t>(const Json::Value& v) { return v.asInt64(); }
        template<> inline bool Is<double>(const Json::Value& v) { return v.isNumeric(); }
        template<> inline double As<double>(const Json::Value& v) { return v.asDouble(); }
        template<> inline bool Is<std::string>(const Json::Value& v) { return v.isString(); }
        template<> inline std::string As<std::string>(const Json::Value& v) { return v.asString(); }
        template<> inline bool Is<std::chrono::milliseconds>(const Json::Value& v) { return v.isInt(); }
        template<> inline std::chrono::milliseconds As<std::chrono::milliseconds>(const Json::Value& v)
        {
            return std::chrono::milliseconds(v.asInt());
        }
        template<> inline bool Is<std::chrono::microseconds>(const Json::Value& v) { return v.isInt(); }
        template<> inline std::chrono::microseconds As<std::chrono::microseconds>(const Json::Value& v)
        {
            return std::chrono::microseconds(v.asInt());
        }
        template<> inline bool Is<std::chrono::seconds>(const Json::Value& v) { return v.isInt(); }
        template<> inline std::chrono::seconds As<std::chrono::seconds>(const Json::Value& v)
        {
            return std::chrono::seconds(v.asInt());
        }

        template<class T> bool Get(const Json::Value& root, const std::string& key, T& value)
        {
            if (!root.isMember(key)) {
                return false;
            }
            const auto& v = root[key];
            if (!Is<T>(v)) {
                throw TBadConfigError("'" + key + "' has wrong type");
            }
            value = As<T>(v);
            return true;
        }

        class TValidator
        {
            Json::Value Schema;

        public:
            explicit TValidator(const Json::Value& schema): Schema(schema)
            {}
            void Validate(const Json::Value& root) const;
        };

        void Validate(const Json::Value& root, const Json::Value& schema);
    }
}
