// Controlled scheduler and happens-before race detector for the real threads of the service.
//
// Only one thread runs at a time. At every synchronisation (mutex, condition variable, atomic load/store, start and
// join of a thread, exchange with a device) the explorer may run another thread: the deterministic round-robin order
// is the usual behaviour, anything else is a deviation. Time is virtual: it goes on when all threads wait.
// Accesses of the code compiled with -fsanitize=thread come to the detector, which needs no luck: two accesses not
// ordered by synchronisation of the program are reported whatever the real order of them was.
#pragma once
#include <cstdint>
#include <functional>

namespace race
{
    //! Runs the function as the first thread under the scheduler
    void run(const std::function<void()>& f);
    //! The same without exploring and race detection: initialises static variables
    void warmUp(const std::function<void()>& f);
    //! Time consuming exchange: other threads run while it lasts
    void io();
    //! Virtual sleep
    void sleepUs(int64_t us);
    //! mc::choose, must be used by a function which is warmed up
    int choose(int n, const char* tag = "");
    //! Number of threads created during this execution
    int threads();
    //! Accesses checked in this execution
    uint64_t accesses();
    uint64_t points();

    //! Accesses of the current thread aren't tracked (harness's own data)
    struct Off
    {
        Off();
        ~Off();
    };
}
