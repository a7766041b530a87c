// Exhaustive explorer: stateless depth-first search over the choices a harness makes.
//
//   choose(n)   - free nondeterminism: all n alternatives are explored
//   deviate(n)  - like choose, but 0 is the usual behaviour and any other costs one unit of the deviation
//                 budget; with an exhausted budget only 0 is explored
//   check(...)  - the property; a failure is recorded with the choices that lead to it
//
// A body is run from scratch for every execution and must depend on nothing but the choices. All executions with
// at most `bound` deviations are enumerated (bound = 0, 1, .. is iterated), spread over worker processes.
// Every violation (a crash and a hang of the code under test included) is replayed from its recorded choices in
// a fresh process before it is reported.
#pragma once
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace mc
{
    int choose(int n, const char* tag = "");
    int deviate(int n, const char* tag = "");
    bool flip(const char* tag = ""); // deviate(2) != 0

    //! Remaining deviation budget
    int budget();

    //! Count an abstract state / transition (a 64 bit digest). Distinct ones are reported in the evidence.
    void state(uint64_t digest);
    void transition();
    //! Distinct observable outcome of an execution
    void outcome(uint64_t digest);
    //! Mark the execution as one in which the checked situation has really occurred
    void nontrivial();
    //! Count an oracle evaluation
    void evaluated(uint64_t n = 1);
    //! Free form coverage counter; must be nonzero at the end when listed in Options::mustCover
    void cover(const char* what);
    //! Explicit-state search: true if this state was already expanded with the same or a bigger remaining budget.
    //! The body should return then. Must be called between transitions of the harness, with a digest of the
    //! complete state.
    bool seen(uint64_t digest);

    //! Records a violation. key identifies the cause for the known-findings file. Execution continues.
    void fail(const std::string& key, const std::string& msg);
    template<class... T> std::string str(const T&... t)
    {
        std::ostringstream ss;
        (ss << ... << t);
        return ss.str();
    }
    inline void check(bool ok, const std::string& key, const std::string& msg)
    {
        evaluated();
        if (!ok) {
            fail(key, msg);
        }
    }
#define MC_CHECK(cond, key, ...)                                                                                       \
    do {                                                                                                               \
        mc::evaluated();                                                                                               \
        if (!(cond)) {                                                                                                 \
            mc::fail(key, mc::str(__VA_ARGS__));                                                                       \
        }                                                                                                              \
    } while (0)

    //! The same for an execution which can't be brought to an end (its threads are blocked): the process exits
    [[noreturn]] void abandon(const std::string& key, const std::string& msg);

    //! Text about the current execution, printed with a violation
    void note(const std::string& s);
    bool tracing(); //!< true when an execution is replayed for a report

    inline uint64_t mix(uint64_t h, uint64_t v)
    {
        h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        h ^= h >> 32;
        return h;
    }
    inline uint64_t hash(const std::string& s)
    {
        uint64_t h = 1469598103934665603ull;
        for (unsigned char c: s) {
            h = (h ^ c) * 1099511628211ull;
        }
        return h;
    }
    template<class C> uint64_t hashBytes(const C& c)
    {
        uint64_t h = 1469598103934665603ull;
        for (auto x: c) {
            h = mix(h, (uint64_t)x);
        }
        return h;
    }

    struct Options
    {
        std::string name;                  //!< name of the harness
        int bound = 0;                     //!< deviation bound
        double seconds = 120;              //!< time limit for the exploration
        double executionSeconds = 20;      //!< one execution running longer is a hang
        int shardDepth = 3;                //!< choices that decide which worker runs an execution
        std::vector<std::string> mustCover; //!< vacuity guard
        size_t maxViolations = 20;
    };

    //! Explore all executions of body. Several explorations may be run by one program. 
    void explore(const Options& opts, const std::function<void()>& body);

    bool thorough(); //!< VERIF tier
    //! Prints the verdict and writes evidence; the return value is the exit status
    int finish();
    //! Parses the command line: <property> [--tier quick|thorough] [--replay file]
    void init(int argc, char** argv);
}

//! Virtual time (microseconds); steady_clock and sleeps use it when vclock.cpp is linked
namespace vclock
{
    extern int64_t now;
    using time_point = std::chrono::steady_clock::time_point;
    //! Called when the code waits on a condition variable till the deadline in a single threaded harness.
    //! Return true to wake it up now.
    extern std::function<bool(int64_t deadlineUs)> onWait;
    extern std::function<void(int64_t)> onSleep;
    void reset(int64_t us = 1000000000);
    inline void advance(int64_t us)
    {
        now += us;
    }
    inline time_point tp()
    {
        return time_point(std::chrono::microseconds(now));
    }
}
