// Stand-in for libwbmqtt1: JSON files and JSON schema validation
#include "wblib/json_utils.h"
#include "wblib/log.h"
#include <fstream>
#include <map>
#include <regex>
#include <set>
#include <cmath>

namespace WBMQTT
{
    TLogger Error("ERROR: ");
    TLogger Warn("WARNING: ");
    TLogger Info("INFO: ");
    TLogger Debug("DEBUG: ", TLogger::StdErr, 0, false);
}

namespace
{
    Json::Value ParseFile(const std::string& fileName, const Json::Value& settings)
    {
        std::ifstream f(fileName);
        if (!f.is_open()) {
            throw std::runtime_error("Can't open file: " + fileName);
        }
        Json::CharReaderBuilder b;
        for (auto it = settings.begin(); it != settings.end(); ++it) {
            b[it.name()] = *it;
        }
        Json::Value root;
        std::string errs;
        if (!Json::parseFromStream(b, f, &root, &errs)) {
            throw std::runtime_error("Failed to parse JSON " + fileName + ":" + errs);
        }
        return root;
    }

    const std::regex& Regex(const std::string& pattern)
    {
        static thread_local std::map<std::string, std::regex> cache;
        auto it = cache.find(pattern);
        if (it == cache.end()) {
            it = cache.emplace(pattern, std::regex(pattern)).first;
        }
        return it->second;
    }

    struct TCheck
    {
        const Json::Value& Root;

        const Json::Value& Resolve(const std::string& ref)
        {
            if (ref.empty() || ref[0] != '#') {
                throw std::runtime_error("unsupported $ref " + ref);
            }
            const Json::Value* v = &Root;
            std::istringstream ss(ref.substr(1));
            std::string part;
            while (std::getline(ss, part, '/')) {
                if (part.empty()) {
                    continue;
                }
                if (!v->isMember(part)) {
                    throw std::runtime_error("unresolved $ref " + ref);
                }
                v = &(*v)[part];
            }
            return *v;
        }

        static bool TypeIs(const std::string& t, const Json::Value& v)
        {
            if (t == "object") return v.isObject();
            if (t == "array") return v.isArray();
            if (t == "string") return v.isString();
            if (t == "boolean") return v.isBool();
            if (t == "null") return v.isNull();
            if (t == "integer") return v.isIntegral();
            if (t == "number") return v.isNumeric();
            return false;
        }

        std::string Run(const Json::Value& s, const Json::Value& v, const std::string& path)
        {
            if (s.isBool()) {
                return s.asBool() ? "" : path + ": not allowed";
            }
            if (!s.isObject()) {
                return "";
            }
            if (s.isMember("$ref")) {
                auto e = Run(Resolve(s["$ref"].asString()), v, path);
                if (!e.empty()) {
                    return e;
                }
            }
            if (s.isMember("type")) {
                const auto& t = s["type"];
                bool ok = false;
                if (t.isArray()) {
                    for (const auto& x: t) {
                        ok |= TypeIs(x.asString(), v);
                    }
                } else {
                    ok = TypeIs(t.asString(), v);
                }
                if (!ok) {
                    return path + ": wrong type";
                }
            }
            if (s.isMember("enum")) {
                bool ok = false;
                for (const auto& x: s["enum"]) {
                    ok |= (x == v) || (x.isNumeric() && v.isNumeric() && x.asDouble() == v.asDouble());
                }
                if (!ok) {
                    return path + ": not in enum";
                }
            }
            if (s.isMember("const") && s["const"] != v) {
                return path + ": not the constant";
            }
            if (v.isObject()) {
                for (const auto& r: s["required"]) {
                    if (!v.isMember(r.asString())) {
                        return path + ": missing " + r.asString();
                    }
                }
                const auto& props = s["properties"];
                std::set<std::string> known;
                for (auto it = v.begin(); it != v.end(); ++it) {
                    bool matched = false;
                    if (props.isMember(it.name())) {
                        matched = true;
                        auto e = Run(props[it.name()], *it, path + "/" + it.name());
                        if (!e.empty()) {
                            return e;
                        }
                    }
                    const auto& pp = s["patternProperties"];
                    for (auto p = pp.begin(); p != pp.end(); ++p) {
                        if (std::regex_search(it.name(), Regex(p.name()))) {
                            matched = true;
                            auto e = Run(*p, *it, path + "/" + it.name());
                            if (!e.empty()) {
                                return e;
                            }
                        }
                    }
                    if (!matched && s.isMember("additionalProperties")) {
                        auto e = Run(s["additionalProperties"], *it, path + "/" + it.name());
                        if (!e.empty()) {
                            return e;
                        }
                    }
                }
                if (s.isMember("minProperties") && v.size() < s["minProperties"].asUInt()) {
                    return path + ": minProperties";
                }
            }
            if (v.isArray()) {
                if (s.isMember("items")) {
                    for (Json::ArrayIndex i = 0; i < v.size(); ++i) {
                        auto e = Run(s["items"].isArray() ? s["items"][i] : s["items"],
                                     v[i],
                                     path + "/" + std::to_string(i));
                        if (!e.empty()) {
                            return e;
                        }
                    }
                }
                if (s.isMember("minItems") && v.size() < s["minItems"].asUInt()) {
                    return path + ": minItems";
                }
                if (s.isMember("maxItems") && v.size() > s["maxItems"].asUInt()) {
                    return path + ": maxItems";
                }
                if (s.get("uniqueItems", false).asBool()) {
                    for (Json::ArrayIndex i = 0; i < v.size(); ++i) {
                        for (Json::ArrayIndex j = 0; j < i; ++j) {
                            if (v[i] == v[j]) {
                                return path + ": not unique";
                            }
                        }
                    }
                }
            }
            if (v.isString()) {
                if (s.isMember("minLength") && v.asString().size() < s["minLength"].asUInt()) {
                    return path + ": minLength";
                }
                if (s.isMember("maxLength") && v.asString().size() > s["maxLength"].asUInt()) {
                    return path + ": maxLength";
                }
                if (s.isMember("pattern") && !std::regex_search(v.asString(), Regex(s["pattern"].asString()))) {
                    return path + ": pattern";
                }
            }
            if (v.isNumeric()) {
                bool exMin = s["exclusiveMinimum"].isBool() && s["exclusiveMinimum"].asBool();
                bool exMax = s["exclusiveMaximum"].isBool() && s["exclusiveMaximum"].asBool();
                if (s.isMember("minimum") &&
                    (v.asDouble() < s["minimum"].asDouble() || (exMin && v.asDouble() == s["minimum"].asDouble())))
                {
                    return path + ": minimum";
                }
                if (s.isMember("maximum") &&
                    (v.asDouble() > s["maximum"].asDouble() || (exMax && v.asDouble() == s["maximum"].asDouble())))
                {
                    return path + ": maximum";
                }
            }
            for (const auto& x: s["allOf"]) {
                auto e = Run(x, v, path);
                if (!e.empty()) {
                    return e;
                }
            }
            if (s.isMember("anyOf")) {
                bool ok = false;
                std::string all;
                for (const auto& x: s["anyOf"]) {
                    auto e = Run(x, v, path);
                    ok |= e.empty();
                    all += "[" + e + "]";
                }
                if (!ok) {
                    return path + ": anyOf " + all;
                }
            }
            if (s.isMember("oneOf")) {
                size_t n = 0;
                std::string all;
                for (const auto& x: s["oneOf"]) {
                    auto e = Run(x, v, path);
                    n += e.empty();
                    all += "[" + e + "]";
                }
                if (n != 1) {
                    return path + ": oneOf(" + std::to_string(n) + ") " + all;
                }
            }
            if (s.isMember("not") && Run(s["not"], v, path).empty()) {
                return path + ": not";
            }
            if (s.isMember("if")) {
                if (Run(s["if"], v, path).empty()) {
                    if (s.isMember("then")) {
                        return Run(s["then"], v, path);
                    }
                } else if (s.isMember("else")) {
                    return Run(s["else"], v, path);
                }
            }
            return "";
        }
    };
}

Json::Value WBMQTT::JSON::Parse(const std::string& fileName)
{
    return ParseFile(fileName, Json::Value());
}

Json::Value WBMQTT::JSON::ParseWithSettings(const std::string& fileName, const Json::Value& settings)
{
    return ParseFile(fileName, settings);
}

void WBMQTT::JSON::Validate(const Json::Value& root, const Json::Value& schema)
{
    TCheck c{schema};
    auto e = c.Run(schema, root, "<root>");
    if (!e.empty()) {
        throw std::runtime_error("JSON schema validation failed: " + e);
    }
}

void WBMQTT::JSON::TValidator::Validate(const Json::Value& root) const
{
    WBMQTT::JSON::Validate(root, Schema);
}
