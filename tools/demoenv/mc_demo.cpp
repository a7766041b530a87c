// The exploration engine is not needed for a demonstration: failures end it
#include "mc.h"
#include <cstdlib>
namespace mc
{
    int choose(int, const char*) { return 0; }
    int deviate(int, const char*) { return 0; }
    bool flip(const char*) { return false; }
    int budget() { return 0; }
    void state(uint64_t) {}
    void transition() {}
    void outcome(uint64_t) {}
    void nontrivial() {}
    void evaluated(uint64_t) {}
    void cover(const char*) {}
    bool seen(uint64_t) { return false; }
    void fail(const std::string& key, const std::string& msg)
    {
        printf("FAILED: %s: %s\n", key.c_str(), msg.c_str());
        fflush(stdout);
        _Exit(1);
    }
    void note(const std::string& s) { printf("%s\n", s.c_str()); }
    bool tracing() { return getenv("DEMO_TRACE"); }
    bool thorough() { return false; }
}
