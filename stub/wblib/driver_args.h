// Stand-in for libwbmqtt1: arguments of devices and controls
#pragma once
#include "declarations.h"
#include <any>
#include <chrono>
#include <map>
#include <string>
#include <unordered_map>

namespace WBMQTT
{
    using TTitleTranslations = std::unordered_map<std::string, std::string>;

    struct TPublishParameters
    {
        enum TPublishPolicy
        {
            PublishOnlyOnChange,
            PublishAll,
            PublishSomeUnchanged
        };
        TPublishPolicy Policy = PublishOnlyOnChange;
        std::chrono::milliseconds PublishUnchangedInterval = std::chrono::milliseconds::zero();

        //! negative - only on change, 0 - all, positive - on change or not more often than the interval
        void Set(std::chrono::milliseconds interval)
        {
            if (interval.count() < 0) {
                Policy = PublishOnlyOnChange;
            } else if (interval.count() == 0) {
                Policy = PublishAll;
            } else {
                Policy = PublishSomeUnchanged;
                PublishUnchangedInterval = interval;
            }
        }
        void Set(int64_t seconds)
        {
            Set(std::chrono::milliseconds(seconds * 1000));
        }
    };

    class TAny
    {
        std::any Value;

    public:
        TAny() = default;
        template<class T> TAny(const T& v): Value(v)
        {}
        template<class T> const T& As() const
        {
            return *std::any_cast<T>(&Value);
        }
    };

#define WB_ARG(Type, Name)                                                                                            \
    Type Name{};                                                                                                       \
    auto& Set##Name(const Type& v)                                                                                     \
    {                                                                                                                  \
        Name = v;                                                                                                      \
        return *this;                                                                                                  \
    }

    struct TControlArgs
    {
        WB_ARG(std::string, Id)
        WB_ARG(int, Order)
        WB_ARG(std::string, Type)
        WB_ARG(bool, Readonly)
        WB_ARG(std::string, Units)
        WB_ARG(bool, Hidden)
        WB_ARG(double, Max)
        WB_ARG(double, Min)
        WB_ARG(double, Precision)
        TAny UserData;
        bool Durable = false;
        std::map<std::string, std::string> Titles;
        std::map<std::string, TTitleTranslations> Enums;
        template<class T> TControlArgs& SetUserData(const T& v)
        {
            UserData = TAny(v);
            return *this;
        }
        TControlArgs& SetTitle(const std::string& title, const std::string& lang)
        {
            Titles[lang] = title;
            return *this;
        }
        template<class M> TControlArgs& SetEnumValueTitles(const std::string& v, const M& titles)
        {
            for (const auto& t: titles) {
                Enums[v][t.first] = t.second;
            }
            Enums[v];
            return *this;
        }
        TControlArgs& SetDurable()
        {
            Durable = true;
            return *this;
        }
    };

    struct TLocalDeviceArgs
    {
        WB_ARG(std::string, Id)
        WB_ARG(std::string, Title)
        WB_ARG(bool, IsVirtual)
        WB_ARG(bool, DoLoadPrevious)
    };
#undef WB_ARG
}
