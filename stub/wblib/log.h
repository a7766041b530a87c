// Stand-in for libwbmqtt1: logger. Silent unless VERIF_LOG is set; one statement = one message.
#pragma once
#include <chrono>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <thread>

namespace WBMQTT
{
    class TLogger
    {
    public:
        enum ELogOutput
        {
            StdErr,
            StdOut
        };
        enum EColor
        {
            RED,
            YELLOW,
            GREY,
            WHITE,
            BLUE,
            GREEN
        };
        enum class EColorUsage
        {
            AUTO,
            OFF,
            ON
        };

        class TEntry
        {
            bool On;
            std::ostringstream Stream;

        public:
            TEntry(bool on, const std::string& prefix): On(on)
            {
                if (On) {
                    Stream << prefix;
                }
            }
            TEntry(TEntry&&) = default;
            ~TEntry()
            {
                if (On) {
                    std::cerr << Stream.str() << std::endl;
                }
            }
            template<class T> TEntry& operator<<(const T& v)
            {
                // the value is always formatted, as in the real logger
                Stream << v;
                return *this;
            }
        };

        TLogger(const std::string& prefix,
                ELogOutput = StdErr,
                int = 0,
                bool enabled = true,
                EColorUsage = EColorUsage::AUTO)
            : Prefix(prefix),
              Enabled(enabled)
        {}

        TEntry Log()
        {
            static const bool print = getenv("VERIF_LOG") != nullptr;
            return TEntry(print && Enabled, Prefix);
        }
        bool IsEnabled() const
        {
            return Enabled;
        }
        void SetEnabled(bool e)
        {
            Enabled = e;
        }

    private:
        std::string Prefix;
        bool Enabled;
    };

    extern TLogger Error;
    extern TLogger Warn;
    extern TLogger Info;
    extern TLogger Debug;
}
