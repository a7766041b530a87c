#include "race.h"
#include "mc.h"
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <string>
#include <time.h>
#include <unistd.h>

extern "C" char __executable_start, _end;

namespace
{
    const int MAXT = 32;
    typedef uint32_t Clock[MAXT];
    const uint64_t MAX_POINTS = 200000;

    enum State
    {
        RUNNABLE,
        ON_MUTEX,
        ON_COND,
        SLEEPING,
        JOINING,
        ON_GUARD,
        DONE
    };

    struct Thread
    {
        int id = 0;
        pthread_t real = 0;
        sem_t baton;
        State state = RUNNABLE;
        const void* object = nullptr;
        const void* condMutex = nullptr;
        int64_t deadline = INT64_MAX; // of ON_COND and SLEEPING
        bool signaled = false;
        uint64_t waitOrder = 0;
        Clock vc;
        int off = 0;
        bool finished = false;
        void* (*fn)(void*) = nullptr;
        void* arg = nullptr;
        int depth = 0;
        const void* stack[256];
    };

    Thread* threads[MAXT];
    int nthreads = 0;
    Thread* cur = nullptr;
    thread_local Thread* self = nullptr;
    bool active = false;
    bool quiet = false;
    uint64_t npoints = 0, naccesses = 0, order = 0;
    char* joinedRealStack = nullptr;

    //! Synchronisation objects by address
    struct Sync
    {
        const void* addr;
        uint32_t gen;
        int owner; // -1: free
        Clock vc;
    };
    const int NSYNC = 1 << 13;
    Sync syncs[NSYNC];
    uint32_t gen = 0;

    Sync& sync(const void* p)
    {
        auto h = ((uintptr_t)p >> 3) * 0x9E3779B97F4A7C15ull >> 51;
        for (int i = 0; i < NSYNC; ++i) {
            auto& s = syncs[(h + i) & (NSYNC - 1)];
            if (s.gen != gen) {
                s.gen = gen;
                s.addr = p;
                s.owner = -1;
                memset(s.vc, 0, sizeof(s.vc));
                return s;
            }
            if (s.addr == p) {
                return s;
            }
        }
        fprintf(stderr, "BROKEN HARNESS: too many synchronisation objects\n");
        _exit(70);
    }

    void join(Clock& a, const Clock& b)
    {
        for (int i = 0; i < nthreads; ++i) {
            if (b[i] > a[i]) {
                a[i] = b[i];
            }
        }
    }
    void acquire(const void* p)
    {
        join(self->vc, sync(p).vc);
    }
    void release(const void* p)
    {
        join(sync(p).vc, self->vc);
        ++self->vc[self->id];
    }

    // ---- shadow memory -------------------------------------------------------------------------------------------
    const int NPC = 4;
    struct Rec
    {
        uint8_t tid, mask, write, freed;
        uint32_t clk;
        const void* pc[NPC];
    };
    struct Cell
    {
        uintptr_t addr;
        uint32_t gen;
        uint8_t n;
        Rec rec[5];
    };
    const size_t NCELL = 1 << 18;
    Cell* cells = nullptr;
    size_t usedCells = 0;

    Cell* cell(uintptr_t a, bool create)
    {
        size_t h = a * 0x9E3779B97F4A7C15ull >> 46;
        while (true) {
            auto& c = cells[h & (NCELL - 1)];
            if (c.gen != gen) {
                if (!create) {
                    return nullptr;
                }
                if (++usedCells > NCELL * 3 / 4) {
                    fprintf(stderr, "BROKEN HARNESS: shadow memory is exhausted\n");
                    _exit(70);
                }
                c.gen = gen;
                c.addr = a;
                c.n = 0;
                return &c;
            }
            if (c.addr == a) {
                return &c;
            }
            ++h;
        }
    }

    std::string symbol(const void* const* pcs)
    {
        char cmd[600];
        int n = snprintf(cmd, sizeof(cmd), "addr2line -e /proc/%d/exe -f -C -i", getpid());
        for (int i = 0; i < NPC && pcs[i]; ++i) {
            n += snprintf(cmd + n, sizeof(cmd) - n, " %#lx", (uintptr_t)pcs[i] - 1 - (uintptr_t)&__executable_start);
        }
        static std::map<std::string, std::string> known;
        auto it = known.find(cmd);
        if (it != known.end()) {
            return it->second;
        }
        FILE* f = popen(cmd, "r");
        if (!f) {
            return "?";
        }
        char fn[1000], loc[1000];
        std::string first;
        while (fgets(fn, sizeof(fn), f) && fgets(loc, sizeof(loc), f)) {
            fn[strcspn(fn, "\n")] = 0;
            loc[strcspn(loc, "\n")] = 0;
            if (first.empty()) {
                first = fn;
            }
            auto src = strstr(loc, "/src/");
            if (src && !strstr(loc, "/usr/")) {
                std::string s = fn;
                first = s;
                break;
            }
        }
        pclose(f);
        // without arguments of templates and of the function
        std::string name;
        int depth = 0;
        for (char c: first) {
            depth -= c == '>';
            if (!depth && c == '(' && !name.empty()) {
                break;
            }
            if (!depth && c != '>') {
                name += c;
            }
            depth += c == '<';
        }
        name.resize(std::min<size_t>(name.size(), 70));
        known[cmd] = name;
        return name;
    }

    struct Pair
    {
        const void *a, *b;
    } reported[256];
    int nreported = 0;

    void report(const Rec& r, bool write, bool freed, const void* const* pc, uintptr_t addr)
    {
        bool old = false;
        for (int i = 0; i < nreported; ++i) {
            old |= reported[i].a == r.pc[0] && reported[i].b == pc[0];
        }
        if (!old && nreported < 256) {
            reported[nreported++] = {r.pc[0], pc[0]};
        } else {
            return;
        }
        ++self->off;
        auto a = symbol(r.pc), b = symbol(pc);
        auto k1 = a < b ? a : b, k2 = a < b ? b : a;
        mc::fail("data race " + k1 + " / " + k2,
                 mc::str("thread ", (int)r.tid, r.freed ? " frees" : r.write ? " writes" : " reads", " in ", a, ", thread ", self->id,
                         freed ? " frees" : write ? " writes" : " reads", " the same memory in ", b,
                         ", nothing orders the accesses"));
        --self->off;
    }

    void access(uintptr_t a, size_t size, bool write, const void* pc, bool freed = false)
    {
        if (!active || quiet) {
            return;
        }
        auto t = self;
        if (!t || t->off || t->finished || nthreads < 2) {
            return;
        }
        if (t != cur) {
            fprintf(stderr, "BROKEN HARNESS: two threads are running\n");
            _exit(70);
        }
        if (a == (uintptr_t)&vclock::now) {
            return;
        }
        ++naccesses;
        const void* pcs[NPC] = {pc, nullptr, nullptr, nullptr};
        for (int i = 1; i < NPC && i <= t->depth && i <= 255; ++i) {
            pcs[i] = t->depth - i < 256 ? t->stack[t->depth - i] : nullptr;
        }
        auto end = a + size;
        while (a < end) {
            auto base = a & ~(uintptr_t)7;
            auto stop = base + 8 < end ? base + 8 : end;
            uint8_t mask = ((1u << (stop - a)) - 1) << (a - base);
            auto& c = *cell(base, true);
            int slot = -1;
            for (int i = 0; i < c.n; ++i) {
                auto& r = c.rec[i];
                if (r.tid != t->id && (r.mask & mask) && (write || r.write) && r.clk > t->vc[r.tid]) {
                    report(r, write, freed, pcs, a);
                    break;
                }
            }
            for (int i = 0; i < c.n;) {
                auto& r = c.rec[i];
                bool ordered = r.tid == t->id || r.clk <= t->vc[r.tid];
                // what happens before this access and conflicts with nothing more than it does
                if (ordered && !(r.mask & ~mask) && (write || !r.write)) {
                    r = c.rec[--c.n];
                } else {
                    ++i;
                }
            }
            slot = c.n < 5 ? c.n++ : 4;
            auto& r = c.rec[slot];
            r.tid = t->id;
            r.mask = mask;
            r.write = write;
            r.freed = freed;
            r.clk = t->vc[t->id];
            memcpy(r.pc, pcs, sizeof(pcs));
            a = stop;
        }
    }

    void forget(uintptr_t a, size_t size)
    {
        for (auto b = a & ~(uintptr_t)7; b < a + size; b += 8) {
            if (auto c = cell(b, false)) {
                c->n = 0;
            }
        }
    }

    // ---- scheduler -------------------------------------------------------------------------------------------------
    bool runnable(const Thread& t)
    {
        switch (t.state) {
            case RUNNABLE:
                return true;
            case ON_MUTEX:
                return sync(t.object).owner < 0;
            case ON_COND:
                return (t.signaled || t.deadline <= vclock::now) && sync(t.condMutex).owner < 0;
            case SLEEPING:
                return t.deadline <= vclock::now;
            case JOINING:
                return ((const Thread*)t.object)->state == DONE;
            case ON_GUARD:
                return !((const char*)t.object)[1];
            case DONE:
                return false;
        }
        return false;
    }

    void switchTo(Thread* t, bool wait = true)
    {
        auto me = self;
        if (t == me) {
            return;
        }
        cur = t;
        sem_post(&t->baton);
        if (wait) {
            while (sem_wait(&me->baton)) {
            }
        }
    }

    int candidates(Thread** list, bool withMe)
    {
        int n = 0;
        if (withMe) {
            list[n++] = self;
        }
        for (int i = 1; i <= nthreads; ++i) {
            auto t = threads[(self->id + i) % nthreads];
            if (t != self && runnable(*t)) {
                list[n++] = t;
            }
        }
        return n;
    }

    const char* stateNames[] = {"runnable", "waits for a mutex", "waits for a condition", "sleeps", "joins", "waits for initialisation", "done"};

    void count()
    {
        if (++npoints > MAX_POINTS) {
            mc::abandon("livelock", "the threads never come to an end");
        }
    }

    int decide(int n, const char* tag)
    {
        if (n == 1 || quiet) {
            return 0;
        }
        ++self->off;
        mc::transition();
        int v = mc::deviate(n, tag);
        --self->off;
        return v;
    }

    //! The current thread can go on
    void point(const char* tag, bool yield = false)
    {
        count();
        if (nthreads < 2) {
            return;
        }
        Thread* list[MAXT];
        int n = candidates(list, true);
        if (n > 1) {
            if (yield) {
                // the others go first
                auto me = list[0];
                for (int i = 1; i < n; ++i) {
                    list[i - 1] = list[i];
                }
                list[n - 1] = me;
            }
            switchTo(list[decide(n, tag)]);
        }
    }

    //! The current thread can't go on
    void block(bool wait = true)
    {
        count();
        Thread* list[MAXT];
        while (true) {
            int n = candidates(list, runnable(*self));
            int64_t next = INT64_MAX;
            Thread* first = nullptr;
            for (int i = 0; i < nthreads; ++i) {
                auto& t = *threads[i];
                if ((t.state == SLEEPING || (t.state == ON_COND && !t.signaled)) && t.deadline > vclock::now &&
                    t.deadline < next) {
                    next = t.deadline;
                    first = &t;
                }
            }
            if (n) {
                // A thread waiting for a condition can time out before the others do anything
                bool early = first && first->state == ON_COND && sync(first->condMutex).owner < 0;
                int v = decide(n + early, "block");
                if (v == n) {
                    vclock::now = next;
                    switchTo(first, wait);
                } else {
                    switchTo(list[v], wait);
                }
                return;
            }
            if (!first) {
                break;
            }
            vclock::now = next;
        }
        bool all = true;
        std::string s;
        ++self->off;
        for (int i = 0; i < nthreads; ++i) {
            all &= threads[i]->state == DONE;
            s += mc::str(i ? ", " : "", "thread ", i, " ", stateNames[threads[i]->state]);
        }
        mc::abandon("deadlock", "no thread can go on: " + s);
    }

    void lock(const void* m)
    {
        point("lock");
        auto* s = &sync(m);
        if (s->owner == self->id) {
            ++self->off;
            mc::abandon("deadlock", "a thread locks a mutex it owns");
        }
        while (s->owner >= 0) {
            self->state = ON_MUTEX;
            self->object = m;
            block();
            self->state = RUNNABLE;
        }
        s->owner = self->id;
        acquire(m);
    }
    void unlock(const void* m)
    {
        auto& s = sync(m);
        if (s.owner != self->id) {
            ++self->off;
            mc::abandon("bad-unlock", "a thread unlocks a mutex it doesn't own");
        }
        release(m);
        s.owner = -1;
    }
    int waitCond(const void* c, const void* m, int64_t deadline)
    {
        point("wait");
        unlock(m);
        if (deadline <= vclock::now) {
            // A loop polling something takes some time
            vclock::now += 1000;
            point("poll", true);
            lock(m);
            return ETIMEDOUT;
        }
        self->state = ON_COND;
        self->object = c;
        self->condMutex = m;
        self->deadline = deadline;
        self->signaled = false;
        self->waitOrder = ++order;
        block();
        self->state = RUNNABLE;
        bool timeout = !self->signaled;
        auto& s = sync(m);
        if (s.owner >= 0) {
            fprintf(stderr, "BROKEN HARNESS: the mutex is owned after a wait\n");
            _exit(70);
        }
        s.owner = self->id;
        acquire(m);
        return timeout ? ETIMEDOUT : 0;
    }
    void signal(const void* c, bool all)
    {
        point("notify");
        while (true) {
            Thread* t = nullptr;
            for (int i = 0; i < nthreads; ++i) {
                auto x = threads[i];
                if (x->state == ON_COND && x->object == c && !x->signaled && (!t || x->waitOrder < t->waitOrder)) {
                    t = x;
                }
            }
            if (!t) {
                return;
            }
            t->signaled = true;
            if (!all) {
                return;
            }
        }
    }

    bool on()
    {
        return active && self && !self->finished;
    }

    Thread* newThread()
    {
        if (nthreads == MAXT) {
            fprintf(stderr, "BROKEN HARNESS: too many threads\n");
            _exit(70);
        }
        auto t = (Thread*)calloc(1, sizeof(Thread));
        new (t) Thread();
        memset(t->vc, 0, sizeof(t->vc));
        sem_init(&t->baton, 0, 0);
        t->id = nthreads;
        t->vc[t->id] = 1;
        threads[nthreads++] = t;
        return t;
    }

    void* threadMain(void* p)
    {
        auto t = (Thread*)p;
        while (sem_wait(&t->baton)) {
        }
        self = t;
        // The stack could have belonged to another thread
        pthread_attr_t attr;
        if (!pthread_getattr_np(pthread_self(), &attr)) {
            void* base;
            size_t size;
            pthread_attr_getstack(&attr, &base, &size);
            pthread_attr_destroy(&attr);
            auto lo = (uintptr_t)base, hi = lo + size;
            for (size_t i = 0; i < NCELL; ++i) {
                if (cells[i].gen == gen && cells[i].addr >= lo && cells[i].addr < hi) {
                    cells[i].n = 0;
                }
            }
        }
        auto res = t->fn(t->arg);
        t->finished = true;
        t->state = DONE;
        block(false);
        return res;
    }

    template<class F> F real(const char* name)
    {
        return (F)dlsym(RTLD_NEXT, name);
    }

    void start(const std::function<void()>& f, bool q)
    {
        mallopt(M_ARENA_MAX, 1);
        if (!cells) {
            cells = (Cell*)calloc(NCELL, sizeof(Cell));
        }
        ++gen;
        usedCells = 0;
        for (int i = 0; i < nthreads; ++i) {
            sem_destroy(&threads[i]->baton);
            free(threads[i]);
        }
        nthreads = 0;
        npoints = naccesses = order = 0;
        nreported = 0;
        quiet = q;
        self = cur = newThread();
        active = true;
        f();
        // all others must have been joined
        for (int i = 1; i < nthreads; ++i) {
            if (threads[i]->state != DONE) {
                fprintf(stderr, "BROKEN HARNESS: a thread is left running\n");
                _exit(70);
            }
        }
        active = false;
        self = nullptr;
    }
}

namespace race
{
    void run(const std::function<void()>& f)
    {
        start(f, false);
    }
    void warmUp(const std::function<void()>& f)
    {
        start(f, true);
    }
    void io()
    {
        if (on()) {
            point("io", true);
        }
    }
    void sleepUs(int64_t us)
    {
        if (!on()) {
            vclock::now += us > 0 ? us : 0;
            return;
        }
        self->deadline = vclock::now + (us > 0 ? us : 0);
        self->state = SLEEPING;
        block();
        self->state = RUNNABLE;
    }
    int choose(int n, const char* tag)
    {
        return quiet ? 0 : mc::choose(n, tag);
    }
    int threads()
    {
        return nthreads;
    }
    uint64_t accesses()
    {
        return naccesses;
    }
    uint64_t points()
    {
        return npoints;
    }
    Off::Off()
    {
        if (self) {
            ++self->off;
        }
    }
    Off::~Off()
    {
        if (self) {
            --self->off;
        }
    }
}

namespace vclock
{
    int64_t now = 1000000000;
    std::function<bool(int64_t)> onWait;
    std::function<void(int64_t)> onSleep;
    void reset(int64_t us)
    {
        now = us;
        onWait = nullptr;
        onSleep = nullptr;
    }
}

namespace std::chrono
{
    inline namespace _V2
    {
        steady_clock::time_point steady_clock::now() noexcept
        {
            return time_point(microseconds(vclock::now));
        }
    }
}

static int64_t us(const struct timespec* ts)
{
    return ts->tv_sec * 1000000 + (ts->tv_nsec + 999) / 1000;
}

extern "C" void* __libc_malloc(size_t);
//! Memory could have belonged to another thread. libstdc++ takes memory for exceptions here
extern "C" void* malloc(size_t n)
{
    auto p = __libc_malloc(n);
    if (p && on() && !quiet) {
        forget((uintptr_t)p, malloc_usable_size(p));
    }
    return p;
}
void* operator new(size_t n)
{
    auto p = malloc(n ? n : 1);
    if (!p) {
        throw std::bad_alloc();
    }
    return p;
}
void* operator new[](size_t n)
{
    return operator new(n);
}
static void del(void* p, const void* pc)
{
    if (p && on() && !quiet) {
        auto n = malloc_usable_size(p);
        access((uintptr_t)p, n > 512 ? 512 : n, true, pc, true);
        forget((uintptr_t)p, n);
    }
    free(p);
}
void operator delete(void* p) noexcept
{
    del(p, __builtin_return_address(0));
}
void operator delete[](void* p) noexcept
{
    del(p, __builtin_return_address(0));
}
void operator delete(void* p, size_t) noexcept
{
    del(p, __builtin_return_address(0));
}
void operator delete[](void* p, size_t) noexcept
{
    del(p, __builtin_return_address(0));
}

extern "C" {
int nanosleep(const struct timespec* req, struct timespec*)
{
    race::sleepUs(us(req));
    return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* req, struct timespec*)
{
    race::sleepUs(us(req) - (flags & TIMER_ABSTIME ? vclock::now : 0));
    return 0;
}
int usleep(useconds_t t)
{
    if (!on()) {
        struct timespec ts = {t / 1000000, (t % 1000000) * 1000};
        static auto f = real<int (*)(const struct timespec*, struct timespec*)>("nanosleep");
        return f(&ts, nullptr);
    }
    race::sleepUs(t);
    return 0;
}

int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    static auto f = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    if (!on()) {
        return f(th, attr, fn, arg);
    }
    auto t = newThread();
    t->fn = fn;
    t->arg = arg;
    join(t->vc, self->vc);
    ++self->vc[self->id];
    int r = f(th, attr, threadMain, t);
    if (r) {
        fprintf(stderr, "BROKEN HARNESS: can't create a thread\n");
        _exit(70);
    }
    t->real = *th;
    point("create");
    return 0;
}
int pthread_join(pthread_t th, void** res)
{
    static auto f = real<int (*)(pthread_t, void**)>("pthread_join");
    if (on()) {
        for (int i = 0; i < nthreads; ++i) {
            auto t = threads[i];
            if (t->real == th && t->real) {
                if (t->state != DONE) {
                    self->state = JOINING;
                    self->object = t;
                    block();
                    self->state = RUNNABLE;
                }
                join(self->vc, t->vc);
                t->real = 0;
                break;
            }
        }
    }
    return f(th, res);
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (on()) {
        lock(m);
        return 0;
    }
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    return f(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (on()) {
        point("trylock");
        if (sync(m).owner >= 0) {
            return EBUSY;
        }
        sync(m).owner = self->id;
        acquire(m);
        return 0;
    }
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (on()) {
        unlock(m);
        return 0;
    }
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    return f(m);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts)
{
    if (!on()) {
        if (us(ts) > vclock::now) {
            vclock::now = us(ts);
        }
        return ETIMEDOUT;
    }
    return waitCond(c, m, us(ts));
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    return pthread_cond_clockwait(c, m, CLOCK_MONOTONIC, ts);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!on()) {
        fprintf(stderr, "BROKEN HARNESS: endless wait outside of the scheduler\n");
        _exit(70);
    }
    return waitCond(c, m, INT64_MAX);
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if (on()) {
        signal(c, false);
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (on()) {
        signal(c, true);
    }
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c)
{
    if (on()) {
        for (int i = 0; i < nthreads; ++i) {
            if (threads[i]->state == ON_COND && threads[i]->object == c) {
                ++self->off;
                mc::fail("destroyed-condition", "a condition variable is destroyed while a thread waits for it");
                --self->off;
            }
        }
    }
    return 0;
}

int __cxa_guard_acquire(long long int* gp)
{
    auto g = (char*)gp;
    if (!on()) {
        return !*g;
    }
    while (g[1]) {
        self->state = ON_GUARD;
        self->object = g;
        block();
        self->state = RUNNABLE;
    }
    if (*g) {
        acquire(g);
        return 0;
    }
    g[1] = 1;
    return 1;
}
void __cxa_guard_release(long long int* gp)
{
    auto g = (char*)gp;
    *g = 1;
    g[1] = 0;
    if (on()) {
        release(g);
    }
}
void __cxa_guard_abort(long long int* gp)
{
    auto g = (char*)gp;
    g[1] = 0;
}

// ---- what the compiler calls ---------------------------------------------------------------------------------------
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void* pc)
{
    if (active && self) {
        if (self->depth < 256) {
            self->stack[self->depth] = pc;
        }
        ++self->depth;
    }
}
void __tsan_func_exit()
{
    if (active && self && self->depth > 0) {
        --self->depth;
    }
}
#define RW(N)                                                                                                          \
    void __tsan_read##N(void* p)                                                                                       \
    {                                                                                                                  \
        access((uintptr_t)p, N, false, PC);                                                                            \
    }                                                                                                                  \
    void __tsan_write##N(void* p)                                                                                      \
    {                                                                                                                  \
        access((uintptr_t)p, N, true, PC);                                                                             \
    }                                                                                                                  \
    void __tsan_unaligned_read##N(void* p)                                                                             \
    {                                                                                                                  \
        access((uintptr_t)p, N, false, PC);                                                                            \
    }                                                                                                                  \
    void __tsan_unaligned_write##N(void* p)                                                                            \
    {                                                                                                                  \
        access((uintptr_t)p, N, true, PC);                                                                             \
    }                                                                                                                  \
    void __tsan_volatile_read##N(void* p)                                                                              \
    {                                                                                                                  \
        access((uintptr_t)p, N, false, PC);                                                                            \
    }                                                                                                                  \
    void __tsan_volatile_write##N(void* p)                                                                             \
    {                                                                                                                  \
        access((uintptr_t)p, N, true, PC);                                                                             \
    }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* p, size_t n)
{
    access((uintptr_t)p, n, false, PC);
}
void __tsan_write_range(void* p, size_t n)
{
    access((uintptr_t)p, n, true, PC);
}
void __tsan_vptr_read(void** p)
{
    access((uintptr_t)p, 8, false, PC);
}
void __tsan_vptr_update(void** p, void* v)
{
    if (*p != v) {
        access((uintptr_t)p, 8, true, PC);
    }
}

void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    access((uintptr_t)s, n, false, PC);
    access((uintptr_t)d, n, true, PC);
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    access((uintptr_t)s, n, false, PC);
    access((uintptr_t)d, n, true, PC);
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int v, size_t n)
{
    access((uintptr_t)d, n, true, PC);
    return __real_memset(d, v, n);
}
int __wrap_memcmp(const void* d, const void* s, size_t n)
{
    access((uintptr_t)d, n, false, PC);
    access((uintptr_t)s, n, false, PC);
    return __real_memcmp(d, s, n);
}

// Nodes of trees and lists are linked by the library
void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, void*, void*, void*);
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, void* x, void* p, void* h)
{
    access((uintptr_t)p, 32, true, PC);
    access((uintptr_t)h, 32, true, PC);
    __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, x, p, h);
}
void* __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void*, void*);
void* __wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void* z, void* h)
{
    access((uintptr_t)z, 32, true, PC);
    access((uintptr_t)h, 32, true, PC);
    return __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(z, h);
}
void __real__ZNSt8__detail15_List_node_base7_M_hookEPS0_(void*, void*);
void __wrap__ZNSt8__detail15_List_node_base7_M_hookEPS0_(void* n, void* pos)
{
    access((uintptr_t)n, 16, true, PC);
    access((uintptr_t)pos, 16, true, PC);
    __real__ZNSt8__detail15_List_node_base7_M_hookEPS0_(n, pos);
}
void __real__ZNSt8__detail15_List_node_base9_M_unhookEv(void*);
void __wrap__ZNSt8__detail15_List_node_base9_M_unhookEv(void* n)
{
    access((uintptr_t)n, 16, true, PC);
    __real__ZNSt8__detail15_List_node_base9_M_unhookEv(n);
}

//! Guards of static variables are there
static bool inImage(const void* p)
{
    return p >= &__executable_start && p < &_end;
}
#define ACQ(o) ((o) != __ATOMIC_RELAXED && (o) != __ATOMIC_RELEASE)
#define REL(o) ((o) == __ATOMIC_RELEASE || (o) == __ATOMIC_ACQ_REL || (o) == __ATOMIC_SEQ_CST)
#define RMW(N, T, NAME, FN)                                                                                            \
    T __tsan_atomic##N##_##NAME(volatile T* p, T v, int o)                                                             \
    {                                                                                                                  \
        if (on() && !quiet) {                                                                                          \
            if (ACQ(o)) {                                                                                              \
                acquire((const void*)p);                                                                               \
            }                                                                                                          \
            if (REL(o)) {                                                                                              \
                release((const void*)p);                                                                               \
            }                                                                                                          \
        }                                                                                                              \
        return FN(p, v, __ATOMIC_SEQ_CST);                                                                             \
    }
#define ATOMIC(N, T)                                                                                                   \
    T __tsan_atomic##N##_load(const volatile T* p, int o)                                                              \
    {                                                                                                                  \
        if (on()) {                                                                                                    \
            if (!self->off && o != __ATOMIC_RELAXED && !inImage((const void*)p)) {                                     \
                point("load");                                                                                         \
            }                                                                                                          \
            if (ACQ(o)) {                                                                                              \
                acquire((const void*)p);                                                                               \
            }                                                                                                          \
        }                                                                                                              \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                   \
    }                                                                                                                  \
    void __tsan_atomic##N##_store(volatile T* p, T v, int o)                                                           \
    {                                                                                                                  \
        if (on()) {                                                                                                    \
            if (!self->off) {                                                                                          \
                point("store");                                                                                        \
            }                                                                                                          \
            if (REL(o)) {                                                                                              \
                release((const void*)p);                                                                               \
            }                                                                                                          \
        }                                                                                                              \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                      \
    }                                                                                                                  \
    RMW(N, T, fetch_add, __atomic_fetch_add)                                                                           \
    RMW(N, T, fetch_sub, __atomic_fetch_sub)                                                                           \
    RMW(N, T, fetch_and, __atomic_fetch_and)                                                                           \
    RMW(N, T, fetch_or, __atomic_fetch_or)                                                                             \
    RMW(N, T, fetch_xor, __atomic_fetch_xor)                                                                           \
    T __tsan_atomic##N##_exchange(volatile T* p, T v, int o)                                                           \
    {                                                                                                                  \
        if (on()) {                                                                                                    \
            if (!self->off) {                                                                                          \
                point("exchange");                                                                                     \
            }                                                                                                          \
            acquire((const void*)p);                                                                                   \
            release((const void*)p);                                                                                   \
        }                                                                                                              \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                  \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int, int)                                 \
    {                                                                                                                  \
        if (on()) {                                                                                                    \
            acquire((const void*)p);                                                                                   \
            release((const void*)p);                                                                                   \
        }                                                                                                              \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }                                                                                                                  \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int a, int b)                               \
    {                                                                                                                  \
        return __tsan_atomic##N##_compare_exchange_strong(p, e, v, a, b);                                              \
    }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
