// P15: ports over descriptors. The real TSerialPort and TTcpPort on simulated system calls in virtual time
#include "mc.h"
#include "port/serial_port.h"
#include "port/tcp_port.h"
#include "serial_exc.h"
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <deque>
#include <errno.h>
#include <fcntl.h>
#include <memory>
#include <netinet/in.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <termios.h>
#include <unistd.h>

using std::chrono::microseconds;
using std::chrono::milliseconds;
typedef std::vector<uint8_t> bytes;

namespace
{
    const int FD = 900;
    struct Stop
    {};

    // The other side of the descriptor
    struct Line
    {
        bool on = false; // calls with FD are simulated
        bool fdOpen = false;
        int opens = 0, closes = 0;
        std::deque<std::pair<int64_t, uint8_t>> in; // moment of arrival, byte
        std::deque<int64_t> spurious;               // moments when the descriptor seems to be readable
        int64_t hangup = INT64_MAX;                 // closed by the remote side
        bytes out;
        int64_t lastWrite = 0;
        int failAt = -1, failErrno = 0, calls = 0; // the failing system call
        std::string failed;
        termios tio = {}, original = {};
        int shortWrite = -1;
        bool epipe = false;
        int64_t started = 0;
        int64_t limit = 20000000; // an operation working longer than that is hung
        std::function<void(Line&)> refill;
        bool flushed = false;
        bool dead = false;

        [[noreturn]] void stop()
        {
            dead = true;
            throw Stop();
        }
        //! ioctl() and similar calls can't throw exceptions
        void stopIfDead()
        {
            if (dead) {
                throw Stop();
            }
        }
        bool fail(const char* what)
        {
            if (vclock::now - started > limit && !dead) {
                mc::fail("endless", mc::str("an operation on the port doesn't end in ", limit / 1000000, " s"));
                dead = true;
            }
            if (calls++ == failAt) {
                failed = what;
                errno = failErrno;
                vclock::now += 1000;
                return true;
            }
            return false;
        }
        void need(const char* what)
        {
            MC_CHECK(fdOpen || dead, "closed-descriptor", what, " on a closed descriptor");
            if (!fdOpen) {
                dead = true;
            }
        }
        void drop()
        {
            while (!in.empty() && in.front().first <= vclock::now) {
                in.pop_front();
            }
        }
    } L;

    template<class... A> long sys(long n, A... a)
    {
        return syscall(n, a...);
    }
}

extern "C" {
int open(const char* path, int flags, ...)
{
    if (L.on && !strcmp(path, "/dev/vsim")) {
        if (L.fail("open")) {
            return -1;
        }
        MC_CHECK(!L.fdOpen, "opened-twice", "the device is opened again without closing, a descriptor is lost");
        L.fdOpen = true;
        ++L.opens;
        L.drop(); // nobody received it
        return FD;
    }
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    return sys(SYS_openat, AT_FDCWD, path, flags, mode);
}
int socket(int d, int t, int p)
{
    if (L.on) {
        if (L.fail("socket")) {
            return -1;
        }
        MC_CHECK(!L.fdOpen, "opened-twice", "a new socket while the old one is not closed, a descriptor is lost");
        L.fdOpen = true;
        ++L.opens;
        return FD;
    }
    return sys(SYS_socket, d, t, p);
}
int connect(int fd, const sockaddr* a, socklen_t l)
{
    if (fd == FD) {
        L.need("connect");
        if (L.fail("connect")) {
            return -1;
        }
        L.in.clear();
        return 0;
    }
    return sys(SYS_connect, fd, a, l);
}
int setsockopt(int fd, int level, int n, const void* v, socklen_t l)
{
    if (fd == FD) {
        L.need("setsockopt");
        return L.fail("setsockopt") ? -1 : 0;
    }
    return sys(SYS_setsockopt, fd, level, n, v, l);
}
int getsockopt(int fd, int level, int n, void* v, socklen_t* l)
{
    if (fd == FD) {
        L.need("getsockopt");
        *(int*)v = L.fail("getsockopt") ? ECONNREFUSED : 0;
        return 0;
    }
    return sys(SYS_getsockopt, fd, level, n, v, l);
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    if (fd == FD) {
        L.need("fcntl");
        return 0;
    }
    return sys(SYS_fcntl, fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    return fcntl(fd, cmd, arg);
}
int close(int fd)
{
    if (fd == FD) {
        L.need("close");
        L.fdOpen = false;
        ++L.closes;
        return 0;
    }
    return sys(SYS_close, fd);
}
int tcgetattr(int fd, termios* t)
{
    L.need("tcgetattr");
    if (L.fail("tcgetattr")) {
        return -1;
    }
    *t = L.tio;
    return 0;
}
int tcsetattr(int fd, int, const termios* t)
{
    L.need("tcsetattr");
    if (L.fail("tcsetattr")) {
        return -1;
    }
    L.tio = *t;
    return 0;
}
int tcflush(int fd, int)
{
    L.need("tcflush");
    if (L.fail("tcflush")) {
        return -1;
    }
    L.drop();
    L.flushed = true;
    return 0;
}
int select(int n, fd_set* r, fd_set* w, fd_set* e, timeval* tv)
{
    if (!L.on) {
        return sys(SYS_select, n, r, w, e, tv);
    }
    L.need("select");
    L.stopIfDead();
    MC_CHECK(n == FD + 1, "wrong-select", "select() for a strange descriptor");
    if (L.fail("select")) {
        return -1;
    }
    if (w) {
        return 1;
    }
    if (L.refill) {
        L.refill(L);
    }
    auto limit = tv ? vclock::now + tv->tv_sec * 1000000 + tv->tv_usec : INT64_MAX;
    auto t = std::min(L.in.empty() ? INT64_MAX : L.in.front().first, L.hangup);
    if (!L.spurious.empty()) {
        t = std::min(t, L.spurious.front());
    }
    if (t > limit) {
        vclock::now = limit;
        FD_ZERO(r);
        return 0;
    }
    if (t == INT64_MAX) {
        mc::fail("endless", "waiting for data without a time limit");
        L.stop();
    }
    vclock::now = std::max(vclock::now, t);
    if (!L.spurious.empty() && L.spurious.front() <= vclock::now) {
        L.spurious.pop_front();
    }
    return 1;
}
static ssize_t doRead(int fd, void* buf, size_t n)
{
    L.need("read");
    if (L.fail("read")) {
        return -1;
    }
    size_t k = 0;
    while (k < n && !L.in.empty() && L.in.front().first <= vclock::now) {
        ((uint8_t*)buf)[k++] = L.in.front().second;
        L.in.pop_front();
    }
    return k;
}
ssize_t read(int fd, void* buf, size_t n)
{
    return fd == FD ? doRead(fd, buf, n) : sys(SYS_read, fd, buf, n);
}
ssize_t __read_chk(int fd, void* buf, size_t n, size_t)
{
    return fd == FD ? doRead(fd, buf, n) : sys(SYS_read, fd, buf, n);
}
ssize_t write(int fd, const void* buf, size_t n)
{
    if (fd != FD) {
        return sys(SYS_write, fd, buf, n);
    }
    L.need("write");
    if (L.fail("write")) {
        return -1;
    }
    if (L.epipe) {
        errno = EPIPE;
        return -1;
    }
    if (L.shortWrite >= 0 && (size_t)L.shortWrite < n) {
        n = L.shortWrite;
    }
    L.out.insert(L.out.end(), (uint8_t*)buf, (uint8_t*)buf + n);
    L.lastWrite = vclock::now;
    return n;
}
int ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    va_start(ap, req);
    void* p = va_arg(ap, void*);
    va_end(ap);
    if (fd != FD) {
        return sys(SYS_ioctl, fd, req, p);
    }
    L.need("ioctl");
    if (L.fail("ioctl")) {
        return -1;
    }
    int n = 0;
    for (auto& x: L.in) {
        n += x.first <= vclock::now;
    }
    *(int*)p = n;
    return 0;
}
}

namespace
{
    struct Kind
    {
        const char* name;
        bool tcp;
        TSerialPortConnectionSettings s;
        double byteUs() const
        {
            return tcp ? 11 * 1000000.0 / 9600 : (1 + s.DataBits + (s.Parity != 'N') + s.StopBits) * 1000000.0 / s.BaudRate;
        }
        double bitUs() const
        {
            return tcp ? 1000000.0 / 9600 : 1000000.0 / s.BaudRate;
        }
        int64_t lag() const // documented additional waiting, with a margin
        {
            return tcp ? 700000 : 60000 + 2 * byteUs();
        }
    };
    const Kind KINDS[] = {
        {"1200", false, {1200, 'N', 8, 2}},
        {"9600", false, {9600, 'N', 8, 2}},
        {"115200", false, {115200, 'E', 8, 1}},
        {"tcp", true, {}},
    };
    void resetLine()
    {
        L = Line();
        L.on = true;
        memset(&L.tio, 0x5A, sizeof L.tio);
        L.original = L.tio;
        vclock::reset();
        L.started = vclock::now;
    }
    std::shared_ptr<TPort> makePort(const Kind& k)
    {
        if (k.tcp) {
            return std::make_shared<TTcpPort>(TTcpPortSettings("127.0.0.1", 5000));
        }
        return std::make_shared<TSerialPort>(TSerialPortSettings("/dev/vsim", k.s));
    }
    struct LineGuard
    {
        ~LineGuard()
        {
            L.on = false;
        }
    };

    std::string hex(const bytes& b)
    {
        std::string s;
        char x[4];
        for (auto c: b) {
            snprintf(x, sizeof x, "%02x ", c);
            s += x;
        }
        return s;
    }

    // Reads frames out of a stream of bytes with pauses
    void frames()
    {
        const auto& k = KINDS[mc::choose(4, "kind")];
        const int64_t RESP = 100000, FRAME = 20000;
        int sizes[] = {1, 2, 3, 4, 8};
        size_t size = sizes[mc::choose(5, "size")];
        size_t complete = mc::choose(mc::thorough() ? 5 : 4, "complete");
        if (complete == 1) {
            complete = 6;
        }
        int n = mc::choose(mc::thorough() ? 7 : 6, "bytes");
        bool minimal = mc::choose(2, "minimal response timeout");
        int64_t resp = minimal ? 300000 : RESP;
        resetLine();
        LineGuard g;
        auto port = makePort(k);
        try {
            port->Open();
            if (minimal) {
                port->SetMinimalResponseTimeout(microseconds(resp));
            }
            auto t0 = vclock::now;
            int64_t t = t0;
            bytes sent;
            std::vector<int64_t> times;
            for (int i = 0; i < n; ++i) {
                if (i == 0) {
                    const int64_t delays[] = {0, 30000, resp, resp + k.lag() + 1000};
                    t += delays[mc::choose(4, "delay")];
                } else {
                    const int64_t gaps[] = {0, (int64_t)k.byteUs(), FRAME, FRAME + k.lag() + 1000};
                    t += gaps[mc::choose(4, "gap")];
                }
                sent.push_back(0x11 * (i + 1));
                times.push_back(t);
                L.in.emplace_back(t, sent.back());
            }
            int sp = mc::choose(k.tcp ? 1 : 3, "spurious");
            int64_t spurious = 0;
            if (sp) {
                spurious = sp == 1 ? t0 + 10000 : (n > 1 ? times[0] + 1 : t0);
                L.spurious.push_back(spurious);
            }
            mc::nontrivial();
            size_t got = 0;
            for (int call = 0; call < 14; ++call) {
                bytes buf(size + 2, 0xEE);
                auto start = vclock::now;
                int64_t first = got < times.size() ? std::max(times[got], start) : INT64_MAX;
                TReadFrameResult r;
                bool timeout = false;
                try {
                    r = port->ReadFrame(buf.data(),
                                        size,
                                        microseconds(RESP),
                                        microseconds(FRAME),
                                        complete ? TPort::TFrameCompletePred([&](uint8_t* b, size_t c) {
                                            bytes seen(b, b + c);
                                            bytes want(sent.begin() + got, sent.begin() + std::min(got + c, sent.size()));
                                            MC_CHECK(seen == want, "predicate-data", "the end of the frame is sought in ", hex(seen), "instead of ", hex(want));
                                            return c >= complete;
                                        })
                                                 : TPort::TFrameCompletePred());
                } catch (const TResponseTimeoutException&) {
                    timeout = true;
                }
                auto extra = sp ? resp + k.lag() : 0; // waiting begins again after a false readiness
                if (timeout) {
                    mc::cover("timeout");
                    MC_CHECK(first - start > resp, "early-timeout", "no answer reported, but the first byte comes in ", (first - start) / 1000.0, " ms");
                    MC_CHECK(vclock::now - start <= resp + k.lag() + extra, "late-timeout", "waiting for the answer took ", (vclock::now - start) / 1000.0, " ms");
                    MC_CHECK(vclock::now - start >= resp, "early-timeout", "waiting for the answer took only ", (vclock::now - start) / 1000.0, " ms");
                    // go on with the rest
                    if (got < times.size()) {
                        vclock::now = std::max(vclock::now, times[got]);
                    }
                    continue;
                }
                MC_CHECK(r.Count > 0 && r.Count <= size, "bad-count", "frame of ", r.Count, " bytes");
                MC_CHECK(buf[size] == 0xEE, "overflow", "the buffer is overrun");
                bytes seen(buf.begin(), buf.begin() + r.Count);
                bytes want(sent.begin() + got, sent.begin() + std::min(got + r.Count, sent.size()));
                MC_CHECK(seen == want, "wrong-data", "frame ", hex(seen), "instead of ", hex(want));
                if (got + r.Count > sent.size()) {
                    throw Stop();
                }
                MC_CHECK(first - start <= resp + k.lag() + extra, "late-answer", "a byte that came in ", (first - start) / 1000.0, " ms is taken for an answer");
                MC_CHECK(r.ResponseTime.count() >= first - start && r.ResponseTime.count() <= first - start + 1000, "response-time", "response time ", r.ResponseTime.count(), " us, the first byte came in ", first - start);
                auto at = [&](size_t i) { return std::max(times[got + i], start); };
                // nothing may be joined after the end of a frame
                for (size_t i = 1; i < r.Count; ++i) {
                    auto gap = at(i) - at(i - 1);
                    MC_CHECK(gap <= FRAME + k.lag() + (sp ? FRAME + k.lag() : 0), "joined", "bytes with a pause of ", gap / 1000.0, " ms between them are in one frame");
                    MC_CHECK(!(complete && i >= complete && gap > 0), "after-complete", "a byte is read after the complete frame");
                }
                // and the frame must have an end
                auto last = at(r.Count - 1);
                bool full = r.Count == size, whole = complete && r.Count >= complete;
                if (!full && !whole) {
                    mc::cover("pause");
                    auto next = got + r.Count < times.size() ? times[got + r.Count] : INT64_MAX;
                    MC_CHECK(next - last > FRAME, "torn", "the frame is torn at a pause of ", (next - last) / 1000.0, " ms");
                    MC_CHECK(vclock::now - last <= FRAME + k.lag() + (sp ? FRAME + k.lag() : 0) + k.bitUs() + 1, "slow-end", "the end of the frame is found in ", (vclock::now - last) / 1000.0, " ms");
                } else {
                    mc::cover("complete");
                    MC_CHECK(vclock::now - last <= k.bitUs() + 2 + 20000, "slow-end", "a complete frame is returned in ", (vclock::now - last) / 1000.0, " ms after its last byte");
                }
                if (!k.tcp) {
                    MC_CHECK(vclock::now - last >= std::floor(k.bitUs()), "stop-bit", "the frame is returned before the end of the second stop bit");
                }
                got += r.Count;
            }
            MC_CHECK(got == sent.size(), "lost", "only ", got, " bytes of ", sent.size(), " are read by 14 calls");
        } catch (const Stop&) {
        } catch (const std::exception& e) {
            mc::fail("exception", mc::str("unexpected exception: ", e.what()));
        }
        mc::outcome(mc::mix(vclock::now, L.calls));
        L.limit = INT64_MAX / 2;
        L.failAt = -1;
    }

    // Remains of a previous exchange don't get into the next answer
    void noise()
    {
        const auto& k = KINDS[mc::choose(4, "kind")];
        resetLine();
        LineGuard g;
        auto port = makePort(k);
        try {
            port->Open();
            int n = mc::choose(mc::thorough() ? 7 : 5, "noise");
            double t = vclock::now;
            for (int i = 0; i < n; ++i) {
                const double gaps[] = {0, 1, 1.6, 3.3};
                t += gaps[mc::choose(4, "gap")] * k.byteUs();
                L.in.emplace_back((int64_t)t, 0xA0 + i);
            }
            if (n) {
                mc::nontrivial();
            }
            if (n && !k.tcp && mc::choose(2, "spurious")) {
                L.spurious.push_back(L.in[0].first + 1);
            }
            int opens = L.opens;
            port->SkipNoise();
            MC_CHECK(L.in.empty(), "noise-left", L.in.size(), " bytes of noise are left, pauses are not longer than 3.5 characters");
            MC_CHECK(L.opens == opens || n * 3.3 * k.byteUs() > 95000, "reopened", "the port is reopened because of ", n, " bytes of noise");
            MC_CHECK(vclock::now - t <= std::max(5000.0, 8 * k.byteUs()), "slow-skip", "skipping takes ", (vclock::now - t) / 1000.0, " ms after the last byte");
            port->WriteBytes(bytes{1, 2, 3});
            MC_CHECK(L.out == bytes({1, 2, 3}), "wrong-output", "written ", hex(L.out));
            auto at = vclock::now + 5000;
            for (int i = 0; i < 4; ++i) {
                at += k.byteUs();
                L.in.emplace_back(at, i + 1);
            }
            uint8_t buf[4] = {};
            auto r = port->ReadFrame(buf, 4, milliseconds(100), milliseconds(20));
            bytes got(buf, buf + r.Count);
            MC_CHECK(got == bytes({1, 2, 3, 4}), "noise-in-answer", "got ", hex(got), "after ", n, " bytes of noise");
        } catch (const Stop&) {
        } catch (const std::exception& e) {
            mc::fail("exception", mc::str("unexpected exception: ", e.what()));
        }
        mc::outcome(mc::mix(vclock::now, L.calls));
    }

    // Somebody sends all the time
    void continuous()
    {
        const auto& k = KINDS[mc::choose(4, "kind")];
        bool openPort = mc::choose(2, "the flow has begun before opening");
        const int64_t durations[] = {60000, 95000, 150000, 300000, 700000, INT64_MAX / 4};
        auto duration = durations[mc::choose(6, "duration")];
        const double gaps[] = {0.5, 1, 3};
        auto gap = std::max(1.0, gaps[mc::choose(3, "gap")] * k.byteUs());
        resetLine();
        LineGuard g;
        auto port = makePort(k);
        double next = vclock::now;
        auto end = vclock::now + duration;
        auto flow = [&](Line& l) {
            if (!l.in.empty()) {
                return;
            }
            if (next < vclock::now) { // the beginning of what the kernel keeps
                next = vclock::now;
            }
            if (next <= end) {
                l.in.emplace_back((int64_t)next, 0x55);
                next += gap;
            }
        };
        bool threw = false;
        try {
            if (openPort) {
                L.refill = flow;
            } else {
                port->Open();
                next = vclock::now;
                L.refill = flow;
            }
            auto t = vclock::now;
            int opens = L.opens;
            end = duration == INT64_MAX / 4 ? INT64_MAX / 2 : t + duration;
            try {
                if (openPort) {
                    port->Open();
                } else {
                    port->SkipNoise();
                }
            } catch (const TSerialDeviceException& e) {
                threw = true;
            }
            mc::nontrivial();
            if (duration < 100000) {
                MC_CHECK(!threw, "short-noise", "noise of ", duration / 1000, " ms is an error");
                MC_CHECK(L.opens - opens <= openPort, "reopened", "the port is reopened because of noise of ", duration / 1000, " ms");
            }
            if (duration > 2000000 && !(k.tcp && openPort)) {
                MC_CHECK(threw, "noise-accepted", "a continuous flow of data is not an error");
            }
            if (!threw) {
                MC_CHECK(vclock::now > end || L.opens > opens || k.tcp, "noise-left", "skipping has ended before the end of the noise");
            }
            MC_CHECK(vclock::now - t < 3000000, "endless", "skipping of noise took ", (vclock::now - t) / 1000, " ms");
            mc::cover(threw ? "flow error" : "flow skipped");
            // when the flow ends, the port works
            L.refill = nullptr;
            L.in.clear();
            if (port->IsOpen()) {
                port->Close();
            }
            port->Open();
            L.in.emplace_back(vclock::now + 5000, 7);
            uint8_t b = 0;
            auto r = port->ReadFrame(&b, 1, milliseconds(100), milliseconds(20));
            MC_CHECK(r.Count == 1 && b == 7, "broken-port", "the port doesn't work after the noise");
        } catch (const Stop&) {
        } catch (const std::exception& e) {
            mc::fail("exception", mc::str("unexpected exception: ", e.what()));
        }
        mc::outcome(mc::mix(vclock::now, L.calls));
    }

    // System calls fail at any moment of any sequence of operations
    void faults()
    {
        const auto& k = KINDS[mc::choose(2, "kind") * 2 + 1];
        resetLine();
        LineGuard g;
        {
            auto port = makePort(k);
            try {
                int steps = mc::thorough() ? 5 : 4;
                int fails = 1;
                bool anyFailed = false;
                for (int i = 0; i < steps; ++i) {
                    int op = mc::choose(8, "operation");
                    if (op == 0 && L.fdOpen) {
                        continue; // never done
                    }
                    L.failAt = -1;
                    if (fails && op != 6) {
                        int f = mc::choose(op == 0 ? 9 : 5, "fault");
                        if (f) {
                            --fails;
                            L.failAt = L.calls + f - 1;
                            L.failErrno = mc::choose(2, "errno") ? EIO : ENODEV;
                        }
                    }
                    L.failed.clear();
                    auto calls = L.calls;
                    bool was = L.fdOpen, threw = false;
                    MC_CHECK(port->IsOpen() == L.fdOpen, "wrong-state", "the port is ", port->IsOpen() ? "open" : "closed", ", its descriptor is ", L.fdOpen ? "open" : "closed");
                    auto t = vclock::now;
                    bool bad = false; // an error must be reported
                    size_t outBefore = L.out.size();
                    try {
                        switch (op) {
                            case 0:
                                bad = was;
                                port->Open();
                                break;
                            case 1: { // exchange
                                L.in.clear();
                                uint8_t b[2] = {};
                                port->WriteBytes(bytes{1, 2, 3});
                                L.in.emplace_back(vclock::now + 3000, 9);
                                L.in.emplace_back(vclock::now + 4000, 8);
                                auto r = port->ReadFrame(b, 2, milliseconds(50), milliseconds(10));
                                if (was) {
                                    MC_CHECK(r.Count == 2 && b[0] == 9 && b[1] == 8, "wrong-answer", "the answer is ", r.Count, " bytes");
                                } else {
                                    MC_CHECK(r.Count == 0, "wrong-answer", "an answer from a closed port");
                                }
                                break;
                            }
                            case 2:
                                L.in.clear();
                                L.in.emplace_back(vclock::now, 1);
                                port->SkipNoise();
                                break;
                            case 3: { // the other side has closed the connection
                                L.in.clear();
                                if (was) {
                                    L.hangup = k.tcp ? vclock::now + 1000 : INT64_MAX;
                                    L.epipe = false;
                                }
                                uint8_t b[2];
                                bad = true;
                                auto r = port->ReadFrame(b, 2, milliseconds(50), milliseconds(10));
                                bad = r.Count != 0 || was;
                                break;
                            }
                            case 4: // broken pipe
                                L.epipe = true;
                                bad = was;
                                port->WriteBytes(bytes{1, 2, 3});
                                break;
                            case 5: // a part is written
                                L.shortWrite = mc::choose(3, "written");
                                bad = was;
                                port->WriteBytes(bytes{1, 2, 3});
                                break;
                            case 7: { // temporary settings
                                bad = false;
                                if (!was) {
                                    break;
                                }
                                TSerialPortSettingsGuard guard(port, TSerialPortConnectionSettings(19200, 'E', 8, 1));
                                port->WriteBytes(bytes{1});
                                break;
                            }
                            case 6:
                                port->Close();
                                MC_CHECK(!L.fdOpen, "not-closed", "the descriptor remains open after closing");
                                break;
                        }
                    } catch (const TSerialDeviceException& e) {
                        threw = true;
                    } catch (const std::runtime_error& e) {
                        if (op != 7) mc::fail("exception", mc::str("the exception isn't an error of the port: ", e.what()));
                        threw = true;
                    }
                    mc::transition();
                    anyFailed = anyFailed || !L.failed.empty();
                    L.epipe = false;
                    L.shortWrite = -1;
                    L.hangup = INT64_MAX;
                    if (bad) {
                        mc::cover("bad");
                        MC_CHECK(threw, "silent", "an error is not reported, operation ", op);
                    }
                    if (!L.failed.empty()) {
                        mc::nontrivial();
                        mc::cover("failed call");
                        MC_CHECK(threw || L.failed == "setsockopt" || op == 6 || op == 7, "silent", "failure of ", L.failed, " is not reported, operation ", op);
                    } else if (op == 0 && !was) {
                        MC_CHECK(!threw && L.fdOpen, "not-opened", "the port can't be opened");
                    } else if (was && (op == 1 || op == 2)) {
                        MC_CHECK(!threw, "false-error", "operation ", op, " fails without a cause");
                    }
                    if (op == 0 && threw && !was && L.failed != "select" && L.failed != "ioctl" && L.failed != "read") {
                        MC_CHECK(!L.fdOpen, "leak", "the descriptor remains open after a failed attempt to open the port (", L.failed, ")");
                    }
                    MC_CHECK(port->IsOpen() == L.fdOpen, "wrong-state", "the port is ", port->IsOpen() ? "open" : "closed", ", its descriptor is ", L.fdOpen ? "open" : "closed");
                    if (was && k.tcp && L.failed.empty() && (op == 3 || op == 4)) {
                        MC_CHECK(!L.fdOpen, "not-closed", "the connection closed by the other side is still considered open");
                    }
                    if (!was && op != 0) {
                        MC_CHECK(L.calls == calls && L.out.size() == outBefore, "closed-descriptor", "system calls for a closed port");
                    }
                    MC_CHECK(vclock::now - t < 2000000, "endless", "operation ", op, " takes ", (vclock::now - t) / 1000, " ms");
                    if (was && !L.fdOpen && !k.tcp) {
                        MC_CHECK(!memcmp(&L.tio, &L.original, sizeof L.tio) || anyFailed, "settings-left", "settings of the line are not restored");
                    }
                }
            } catch (const Stop&) {
            }
            L.failAt = -1;
        }
        MC_CHECK(!L.fdOpen, "leak", "the descriptor remains open after the port");
        mc::outcome(mc::mix(mc::hashBytes(L.out), L.calls * 100 + L.opens));
    }

    // Settings of the line
    void settings()
    {
        const int bauds[] = {110, 300, 600, 1200, 2400, 4800, 9600, 19200, 38400, 57600, 115200};
        const speed_t speeds[] = {B110, B300, B600, B1200, B2400, B4800, B9600, B19200, B38400, B57600, B115200};
        auto choose = [&](TSerialPortConnectionSettings& s, speed_t& speed) {
            int b = mc::choose(11, "baud");
            s.BaudRate = bauds[b];
            speed = speeds[b];
            s.Parity = "NEO"[mc::choose(3, "parity")];
            s.DataBits = mc::choose(2, "bits") ? 8 : 7;
            s.StopBits = 1 + mc::choose(2, "stop");
        };
        auto same = [](const TSerialPortConnectionSettings& s, speed_t speed) {
            auto& t = L.tio;
            return cfgetospeed(&t) == speed && cfgetispeed(&t) == speed &&
                   (t.c_cflag & CSIZE) == (s.DataBits == 8 ? CS8 : CS7) && !!(t.c_cflag & CSTOPB) == (s.StopBits == 2) &&
                   !!(t.c_cflag & PARENB) == (s.Parity != 'N') && !!(t.c_cflag & PARODD) == (s.Parity == 'O') &&
                   (t.c_cflag & CREAD) && (t.c_cflag & CLOCAL) && !(t.c_cflag & CRTSCTS) &&
                   !(t.c_lflag & (ICANON | ECHO | ECHOE | ISIG | IEXTEN)) &&
                   !(t.c_iflag & (IXON | IXOFF | IXANY | ICRNL | INLCR | IGNCR | ISTRIP | PARMRK)) && !(t.c_oflag & OPOST);
        };
        TSerialPortConnectionSettings s, other;
        speed_t speed, otherSpeed;
        choose(s, speed);
        int scenario = mc::choose(4, "scenario");
        resetLine();
        LineGuard g;
        {
            std::shared_ptr<TPort> port = std::make_shared<TSerialPort>(TSerialPortSettings("/dev/vsim", s));
            auto times = [&](const TSerialPortConnectionSettings& x) {
                int bits = 1 + x.DataBits + x.StopBits + (x.Parity != 'N');
                for (double n: {1.0, 1.5, 3.5, 5.0, 256.0}) {
                    double exact = bits * n * 1e6 / x.BaudRate;
                    double bit = 1e6 / x.BaudRate;
                    auto v = port->GetSendTimeBytes(n).count();
                    MC_CHECK(v >= exact - 1e-6 && v <= exact + bit + 1, "send-time", n, " bytes are sent in ", v, " us instead of ", exact);
                }
                for (int n: {1, 11, 1000}) {
                    double exact = n * 1e6 / x.BaudRate;
                    auto v = port->GetSendTimeBits(n).count();
                    MC_CHECK(v >= exact - 1e-6 && v <= exact + 1, "send-time", n, " bits are sent in ", v, " us instead of ", exact);
                }
            };
            auto write = [&](const TSerialPortConnectionSettings& x) {
                int bits = 1 + x.DataBits + x.StopBits + (x.Parity != 'N');
                auto t = vclock::now;
                port->WriteBytes(bytes(7, 0x55));
                MC_CHECK(vclock::now - t >= bits * 7 * 1e6 / x.BaudRate - 1e-6, "not-sent", "writing ends in ", vclock::now - t, " us, before the end of the transmission");
                auto e = vclock::now;
                // the pause before the next request is counted from the end
                port->SleepSinceLastInteraction(milliseconds(10));
                MC_CHECK(vclock::now - e >= 10000 && vclock::now - e <= 10001, "request-delay", "the pause after a request is ", vclock::now - e, " us");
                vclock::now += 4000;
                e = vclock::now;
                port->SleepSinceLastInteraction(milliseconds(20));
                MC_CHECK(vclock::now - e >= 6000 - 1 && vclock::now - e <= 6001, "request-delay", "the pause is not counted from the last interaction: ", vclock::now - e);
                port->SleepSinceLastInteraction(milliseconds(20));
                e = vclock::now;
                vclock::now += 30000;
                port->SleepSinceLastInteraction(milliseconds(20));
                MC_CHECK(vclock::now - e == 30000, "request-delay", "a needless pause");
                L.in.emplace_back(vclock::now + 1000, 1);
                uint8_t b;
                port->ReadFrame(&b, 1, milliseconds(50), milliseconds(5));
                e = vclock::now;
                vclock::now += 3000;
                port->SleepSinceLastInteraction(milliseconds(8));
                MC_CHECK(vclock::now - e >= 8000 && vclock::now - e <= 8001, "request-delay", "the pause after an answer is ", vclock::now - e, " us");
            };
            try {
                times(s);
                port->Open();
                MC_CHECK(same(s, speed), "settings", "wrong settings after opening");
                write(s);
                if (scenario) {
                    choose(other, otherSpeed);
                    if (scenario == 1) {
                        {
                            TSerialPortSettingsGuard guard(port, other);
                            MC_CHECK(same(other, otherSpeed), "settings", "temporary settings are not applied");
                            times(other);
                        }
                    } else if (scenario == 2) {
                        try {
                            TSerialPortSettingsGuard guard(port, other);
                            write(other);
                            throw 1;
                        } catch (int) {
                        }
                    } else {
                        port->ApplySerialPortSettings(other);
                        port->Reopen();
                        MC_CHECK(same(other, otherSpeed), "settings", "wrong settings after reopening");
                        port->ResetSerialPortSettings();
                    }
                    mc::nontrivial();
                    MC_CHECK(same(s, speed), "settings-left", "settings of the line are not restored after a temporary change");
                    times(s);
                }
                port->Close();
                MC_CHECK(!memcmp(&L.tio, &L.original, sizeof L.tio), "settings-left", "original settings of the line are not restored by closing");
                if (scenario) {
                    // and again
                    L.tio = L.original;
                    port->Open();
                    MC_CHECK(same(s, speed), "settings", "wrong settings after opening again");
                }
            } catch (const Stop&) {
            } catch (const std::exception& e) {
                mc::fail("exception", mc::str("unexpected exception: ", e.what()));
            }
        }
        MC_CHECK(!L.fdOpen, "leak", "the descriptor remains open after the port");
        mc::outcome(mc::mix(vclock::now, L.calls));
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    mc::Options o;
    o.name = "frames";
    o.seconds = mc::thorough() ? 400 : 60;
    o.mustCover = {"timeout", "pause", "complete"};
    mc::explore(o, frames);
    o = mc::Options();
    o.name = "noise";
    mc::explore(o, noise);
    o.name = "continuous";
    o.mustCover = {"flow error", "flow skipped"};
    mc::explore(o, continuous);
    o.name = "faults";
    o.seconds = 200;
    o.mustCover = {"failed call", "bad"};
    mc::explore(o, faults);
    o.name = "settings";
    o.mustCover = {};
    mc::explore(o, settings);
    return mc::finish();
}
