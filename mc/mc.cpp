#include "mc.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

// Real time is needed here even though steady_clock is virtual
static double realNow()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

namespace
{
    constexpr size_t MAX_CHOICES = 1 << 16;
    constexpr size_t MAX_COVER = 64;
    constexpr size_t MAX_VIOL = 64;

    struct Choice
    {
        uint16_t n;
        uint16_t value;
        uint8_t dev;
    };

    struct ViolationRec
    {
        char key[200];
        char msg[1800];
        uint32_t size;
        uint16_t values[4000];
    };

    //! Shared between a worker and the master
    struct Shared
    {
        volatile uint32_t curSize;
        uint16_t cur[MAX_CHOICES];
        volatile double execStart;
        uint64_t executions, transitions, nontrivial, evaluations, states, outcomes, choices, pruned;
        uint32_t maxDepth;
        uint32_t done; // 1 - completed, 2 - time is over
        uint32_t broken;
        char brokenMsg[400];
        uint32_t nviol;
        ViolationRec viol[MAX_VIOL];
        uint32_t ncover;
        struct
        {
            char name[64];
            uint64_t count;
        } coverage[MAX_COVER];
        uint32_t nsample;
        char sample[8][400];
    };

    struct Total
    {
        std::string name;
        uint64_t executions = 0, transitions = 0, nontrivial = 0, evaluations = 0, states = 0, outcomes = 0,
                 choices = 0, pruned = 0;
        uint32_t maxDepth = 0;
        int completedBound = -1;
        int wantedBound = 0;
        bool complete = false;
        double seconds = 0;
        std::map<std::string, uint64_t> coverage;
        std::vector<std::string> samples;
    };

    struct Violation
    {
        std::string harness, key, msg, replayFile;
        int bound = 0;
        std::vector<uint16_t> values;
    };

    std::vector<Total> totals;
    std::vector<Violation> violations;
    std::vector<std::string> brokenMsgs;
    std::string property = "X00";
    bool isThorough = false;
    std::string replayHarness;
    std::vector<uint16_t> replayValues;
    bool replayMode = false;
    int replayBound = 0;
    bool replayFailed = false;
    double startTime = 0;
    double totalSeconds = 800; // all explorations of one program

    // state of the running execution
    std::vector<Choice> path;
    size_t pos = 0;
    int remaining = 0;
    int shardDepth = 3;
    bool trace = false;
    bool failedNow = false;
    std::string noteText;
    Shared* sh = nullptr;
    std::unordered_set<uint64_t> stateSet, outcomeSet;
    std::unordered_map<uint64_t, int> seenSet;
    std::set<std::string> keysSeen;
    std::vector<std::pair<std::string, std::string>> replayFails;
    std::vector<uint16_t>* forced = nullptr;
    bool execNontrivial = false;

    void broken(const std::string& msg)
    {
        if (sh) {
            sh->broken = 1;
            snprintf(sh->brokenMsg, sizeof(sh->brokenMsg), "%s", msg.c_str());
        }
        fprintf(stderr, "BROKEN HARNESS: %s\n", msg.c_str());
        _exit(70);
    }

    int next(int n, bool dev, const char* tag)
    {
        if (n <= 0) {
            broken(std::string("choice of nothing at ") + tag);
        }
        if (dev && remaining <= 0) {
            n = 1;
        }
        if (n == 1) {
            return 0;
        }
        int v = 0;
        if (forced) {
            v = pos < forced->size() ? (*forced)[pos] : 0;
            if (v >= n) {
                broken(std::string("replay diverges at ") + tag);
            }
            ++pos;
        } else {
            if (pos < path.size()) {
                if (path[pos].n != n || path[pos].dev != dev) {
                    broken(mc::str("nondeterministic harness at '", tag, "': ", path[pos].n, " -> ", n));
                }
                v = path[pos].value;
            } else {
                path.push_back({(uint16_t)n, 0, (uint8_t)dev});
            }
            if (sh && pos < MAX_CHOICES) {
                sh->cur[pos] = v;
                sh->curSize = pos + 1;
            }
            ++pos;
        }
        if (dev && v) {
            --remaining;
        }
        if (trace) {
            std::cout << "    [choice] " << (dev ? "deviation " : "") << tag << " = " << v << " of " << n << "\n";
        }
        return v;
    }

    std::string jsonStr(const std::string& s)
    {
        std::string r = "\"";
        for (unsigned char c: s) {
            if (c == '"' || c == '\\') {
                r += '\\';
                r += c;
            } else if (c < 0x20 || c >= 0x7f) {
                char b[8];
                snprintf(b, sizeof(b), "\\u%04x", c);
                r += b;
            } else {
                r += c;
            }
        }
        return r + "\"";
    }

    void runOnce(const std::function<void()>& body, int bound)
    {
        pos = 0;
        remaining = bound;
        failedNow = false;
        execNontrivial = false;
        noteText.clear();
        if (sh) {
            sh->curSize = 0;
            sh->execStart = realNow();
        }
        try {
            body();
        } catch (const std::exception& e) {
            mc::fail("unexpected-exception", std::string("exception left the harness: ") + e.what());
        }
        if (sh) {
            sh->execStart = 0;
        }
    }

    bool backtrack()
    {
        path.resize(std::min(path.size(), pos));
        while (!path.empty()) {
            auto& c = path.back();
            if (c.value + 1 < c.n) {
                ++c.value;
                return true;
            }
            path.pop_back();
        }
        return false;
    }

    int setsFd = -1;
    int replayFd = -1;

    //! Sets of digests are handed to the master, which unites them
    void dump(int fd, const std::unordered_set<uint64_t>& set)
    {
        std::vector<uint64_t> v(set.begin(), set.end());
        uint64_t n = v.size();
        bool ok = write(fd, &n, sizeof(n)) == sizeof(n);
        const char* p = (const char*)v.data();
        size_t left = n * sizeof(uint64_t);
        while (ok && left) {
            auto r = write(fd, p, left);
            if (r <= 0) {
                break;
            }
            p += r;
            left -= r;
        }
    }

    void load(int fd, std::unordered_set<uint64_t>& set)
    {
        uint64_t n = 0;
        if (read(fd, &n, sizeof(n)) != sizeof(n)) {
            return;
        }
        std::vector<uint64_t> v(n);
        char* p = (char*)v.data();
        size_t left = n * sizeof(uint64_t);
        while (left) {
            auto r = read(fd, p, left);
            if (r <= 0) {
                return;
            }
            p += r;
            left -= r;
        }
        set.insert(v.begin(), v.end());
    }

    void dumpSets()
    {
        sh->states = stateSet.size();
        sh->outcomes = outcomeSet.size();
        dump(setsFd, stateSet);
        dump(setsFd, outcomeSet);
    }

    void sendReplayFails()
    {
        std::string out;
        for (auto& f: replayFails) {
            out += f.first + "\t" + f.second + "\n";
        }
        out += "END\n";
        if (write(replayFd, out.data(), out.size()) < 0) {
        }
        std::cout.flush();
        fflush(stdout);
    }

    void worker(const mc::Options& o, const std::function<void()>& body, int bound, int id, int n, double deadline)
    {
        path.clear();
        seenSet.clear();
        uint64_t lastPrefix = 0;
        uint64_t prefixCount = 0;
        bool first = true;
        while (true) {
            runOnce(body, bound);
            // The owner of an execution is decided by its first choices
            uint64_t h = 77;
            for (size_t i = 0; i < path.size() && i < pos && i < (size_t)o.shardDepth; ++i) {
                h = mc::mix(h, path[i].value * 131 + i);
            }
            if (first || h != lastPrefix) {
                ++prefixCount;
                lastPrefix = h;
                first = false;
            }
            if (int(prefixCount % n) != id) {
                // skip the rest of the subtree
                if (path.size() > (size_t)o.shardDepth) {
                    path.resize(o.shardDepth);
                }
                pos = std::min(pos, path.size());
            } else {
                ++sh->executions;
                sh->nontrivial += execNontrivial;
                sh->choices += pos;
                if (pos > sh->maxDepth) {
                    sh->maxDepth = pos;
                }
                if (sh->nsample < 3 && (sh->executions & (sh->executions - 1)) == 0) {
                    std::string s;
                    for (size_t i = 0; i < pos && i < 40; ++i) {
                        s += (i ? "," : "") + std::to_string(path[i].value);
                    }
                    if (!noteText.empty()) {
                        s += " | " + noteText;
                    }
                    snprintf(sh->sample[sh->nsample++], 400, "%s", s.c_str());
                }
            }
            if (!backtrack()) {
                sh->done = 1;
                break;
            }
            if (realNow() > deadline) {
                sh->done = 2;
                break;
            }
        }
        dumpSets();
    }

    // Whether the execution being run belongs to this worker is known only at the end, so violations of foreign
    // executions are reported by several workers: duplicates are removed by key.

    double cpuTime(pid_t pid)
    {
        clockid_t c;
        timespec ts;
        if (clock_getcpuclockid(pid, &c) || clock_gettime(c, &ts)) {
            return 0;
        }
        return ts.tv_sec + ts.tv_nsec / 1e9;
    }

    //! Runs one execution in a child. Returns keys of violations.
    std::vector<std::pair<std::string, std::string>> replay(const mc::Options& o,
                                                            const std::function<void()>& body,
                                                            const std::vector<uint16_t>& values,
                                                            int bound,
                                                            bool print)
    {
        int fd[2];
        if (pipe(fd)) {
            abort();
        }
        fflush(stdout);
        std::cout.flush();
        pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]);
            sh = nullptr;
            trace = print;
            auto v = values;
            forced = &v;
            // a busy execution is limited by processor time: the machine can be loaded
            rlimit cpu{(rlim_t)o.executionSeconds + 5, (rlim_t)o.executionSeconds + 10};
            setrlimit(RLIMIT_CPU, &cpu);
            alarm((unsigned)o.executionSeconds * 5 + 5);
            replayFails.clear();
            replayFd = fd[1];
            runOnce(body, bound);
            sendReplayFails();
            _exit(0);
        }
        close(fd[1]);
        std::string out;
        char buf[4096];
        ssize_t r;
        while ((r = read(fd[0], buf, sizeof(buf))) > 0) {
            out.append(buf, r);
        }
        close(fd[0]);
        int st;
        waitpid(pid, &st, 0);
        std::vector<std::pair<std::string, std::string>> res;
        std::istringstream ss(out);
        std::string line;
        bool end = false;
        while (std::getline(ss, line)) {
            if (line == "END") {
                end = true;
                break;
            }
            auto t = line.find('\t');
            res.emplace_back(line.substr(0, t), t == std::string::npos ? "" : line.substr(t + 1));
        }
        if (!end) {
            if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXCPU)) {
                res.emplace_back("hang", "the execution does not end");
            } else if (WIFEXITED(st) && WEXITSTATUS(st) == 70) {
                // harness is broken: not a violation
            } else {
                res.emplace_back("crash", "the code under test crashes (sanitizer report, signal or exit)");
            }
        }
        return res;
    }

    std::string verifDir()
    {
        const char* d = getenv("VERIF_DIR");
        return d ? d : "/verif";
    }
}

namespace mc
{
    int choose(int n, const char* tag)
    {
        return next(n, false, tag);
    }
    int deviate(int n, const char* tag)
    {
        return next(n, true, tag);
    }
    bool flip(const char* tag)
    {
        return next(2, true, tag) != 0;
    }
    int budget()
    {
        return remaining;
    }
    void state(uint64_t d)
    {
        if (sh) {
            stateSet.insert(d);
        }
    }
    void transition()
    {
        if (sh) {
            ++sh->transitions;
        }
    }
    void outcome(uint64_t d)
    {
        if (sh) {
            outcomeSet.insert(d);
        }
    }
    void nontrivial()
    {
        execNontrivial = true;
    }
    void evaluated(uint64_t n)
    {
        if (sh) {
            sh->evaluations += n;
        }
    }
    void cover(const char* what)
    {
        if (!sh) {
            return;
        }
        for (uint32_t i = 0; i < sh->ncover; ++i) {
            if (!strcmp(sh->coverage[i].name, what)) {
                ++sh->coverage[i].count;
                return;
            }
        }
        if (sh->ncover < MAX_COVER) {
            snprintf(sh->coverage[sh->ncover].name, 64, "%s", what);
            sh->coverage[sh->ncover].count = 1;
            ++sh->ncover;
        }
    }
    bool seen(uint64_t d)
    {
        if (!sh) {
            return false;
        }
        stateSet.insert(d);
        if (forced || pos < path.size()) {
            return false; // still following the recorded prefix
        }
        // Executions of other workers are cut at the shard depth, so nothing above it may be pruned
        if (pos < (size_t)shardDepth) {
            return false;
        }
        auto it = seenSet.find(d);
        if (it != seenSet.end() && it->second >= remaining) {
            ++sh->pruned;
            return true;
        }
        seenSet[d] = remaining;
        return false;
    }
    void note(const std::string& s)
    {
        noteText = s;
        if (trace) {
            std::cout << "    " << s << "\n";
        }
    }
    bool tracing()
    {
        return trace;
    }
    void fail(const std::string& key, const std::string& msg)
    {
        if (!sh) {
            for (auto& f: replayFails) {
                if (f.first == key) {
                    return;
                }
            }
            auto m = msg;
            std::replace(m.begin(), m.end(), '\n', ' ');
            replayFails.emplace_back(key, m);
            if (trace) {
                std::cout << "    VIOLATED: " << key << ": " << msg << "\n";
            }
            return;
        }
        failedNow = true;
        if (!keysSeen.insert(key).second) {
            return;
        }
        if (sh->nviol < MAX_VIOL) {
            auto& v = sh->viol[sh->nviol];
            snprintf(v.key, sizeof(v.key), "%s", key.c_str());
            snprintf(v.msg, sizeof(v.msg), "%s", msg.c_str());
            v.size = std::min<size_t>(pos, 4000);
            for (size_t i = 0; i < v.size; ++i) {
                v.values[i] = path[i].value;
            }
            ++sh->nviol;
        }
    }

    void abandon(const std::string& key, const std::string& msg)
    {
        fail(key, msg);
        if (sh) {
            ++sh->executions;
            sh->done = 2;
            dumpSets();
        } else {
            sendReplayFails();
        }
        _exit(0);
    }

    bool thorough()
    {
        return isThorough;
    }

    void init(int argc, char** argv)
    {
        startTime = realNow();
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            if (a == "--tier" && i + 1 < argc) {
                isThorough = std::string(argv[++i]) == "thorough";
            } else if (a == "--seconds" && i + 1 < argc) {
                totalSeconds = atof(argv[++i]);
            } else if (a == "--replay" && i + 1 < argc) {
                std::ifstream f(argv[++i]);
                if (!f) {
                    std::cerr << "can't open replay file\n";
                    exit(2);
                }
                std::string line;
                while (std::getline(f, line)) {
                    if (line.rfind("harness ", 0) == 0) {
                        replayHarness = line.substr(8);
                    } else if (line.rfind("bound ", 0) == 0) {
                        replayBound = atoi(line.c_str() + 6);
                    } else if (line.rfind("choices", 0) == 0) {
                        std::istringstream ss(line.substr(7));
                        int x;
                        while (ss >> x) {
                            replayValues.push_back(x);
                        }
                    }
                }
                replayMode = true;
            } else {
                property = a;
            }
        }
        if (isThorough && totalSeconds == 800) {
            totalSeconds = 3000;
        }
        setvbuf(stdout, nullptr, _IOLBF, 0);
    }

    void explore(const Options& o, const std::function<void()>& body)
    {
        shardDepth = o.shardDepth;
        if (replayMode) {
            if (o.name == replayHarness) {
                auto res = replay(o, body, replayValues, replayBound, true);
                for (auto& r: res) {
                    std::cout << "REPLAYED " << property << " " << o.name << " " << r.first << ": " << r.second << "\n";
                    replayFailed = true;
                }
                if (res.empty()) {
                    std::cout << "REPLAY of " << o.name << " does not violate the property\n";
                }
            }
            return;
        }
        int n = std::max(1, (int)sysconf(_SC_NPROCESSORS_ONLN));
        if (getenv("VERIF_JOBS")) {
            n = std::max(1, atoi(getenv("VERIF_JOBS")));
        }
        n = std::min(n, 16);
        Total t;
        t.name = o.name;
        t.wantedBound = o.bound;
        double begin = realNow();
        double limit = std::min(begin + o.seconds * (isThorough ? 6 : 1), startTime + totalSeconds);
        std::set<std::string> seenKeys;
        for (int bound = 0; bound <= o.bound; ++bound) {
            if (realNow() > limit) {
                break;
            }
            std::vector<Shared*> shs;
            std::vector<pid_t> pids;
            std::vector<int> fds;
            fflush(stdout);
            std::cout.flush();
            for (int i = 0; i < n; ++i) {
                auto* s = (Shared*)mmap(nullptr,
                                        sizeof(Shared),
                                        PROT_READ | PROT_WRITE,
                                        MAP_SHARED | MAP_ANONYMOUS,
                                        -1,
                                        0);
                if (s == MAP_FAILED) {
                    perror("mmap");
                    exit(2);
                }
                shs.push_back(s);
                fds.push_back(memfd_create("mc", 0));
                pid_t p = fork();
                if (p == 0) {
                    setsFd = fds.back();
                    sh = s;
                    worker(o, body, bound, i, n, limit);
                    fflush(stdout);
                    _exit(0);
                }
                pids.push_back(p);
            }
            int left = n;
            bool crashed = false;
            std::vector<bool> ended(n, false);
            std::vector<double> watched(n, 0), cpuStart(n, 0);
            std::vector<std::pair<std::string, std::vector<uint16_t>>> aborted;
            while (left) {
                for (int i = 0; i < n; ++i) {
                    if (ended[i]) {
                        continue;
                    }
                    int st;
                    pid_t r = waitpid(pids[i], &st, WNOHANG);
                    if (r == pids[i]) {
                        ended[i] = true;
                        --left;
                        if (!shs[i]->done) {
                            if (shs[i]->broken) {
                                brokenMsgs.push_back(o.name + ": " + shs[i]->brokenMsg);
                            } else {
                                aborted.emplace_back(
                                    "crash",
                                    std::vector<uint16_t>(shs[i]->cur, shs[i]->cur + shs[i]->curSize));
                            }
                            crashed = true;
                        }
                        continue;
                    }
                    double es = shs[i]->execStart;
                    if (es > 0 && es != watched[i]) {
                        watched[i] = es;
                        cpuStart[i] = cpuTime(pids[i]);
                    }
                    double wall = realNow() - es;
                    if (es > 0 && wall > o.executionSeconds &&
                        (wall > 5 * o.executionSeconds || cpuTime(pids[i]) - cpuStart[i] > o.executionSeconds)) {
                        aborted.emplace_back("hang",
                                             std::vector<uint16_t>(shs[i]->cur, shs[i]->cur + shs[i]->curSize));
                        crashed = true;
                        kill(pids[i], SIGKILL);
                        waitpid(pids[i], &st, 0);
                        ended[i] = true;
                        --left;
                    }
                }
                if (left) {
                    usleep(2000);
                }
            }
            bool complete = !crashed;
            if (bound == o.bound || true) {
                // bounds are cumulative: only the deepest exploration is counted
                Total nt = t;
                nt.executions = nt.transitions = nt.nontrivial = nt.evaluations = nt.states = nt.outcomes =
                    nt.choices = nt.pruned = 0;
                nt.coverage.clear();
                nt.samples.clear();
                for (auto s: shs) {
                    nt.executions += s->executions;
                    nt.transitions += s->transitions;
                    nt.nontrivial += s->nontrivial;
                    nt.evaluations += s->evaluations;
                    nt.states += s->states;
                    nt.outcomes += s->outcomes;
                    nt.choices += s->choices;
                    nt.pruned += s->pruned;
                    nt.maxDepth = std::max(nt.maxDepth, s->maxDepth);
                    for (uint32_t i = 0; i < s->ncover; ++i) {
                        nt.coverage[s->coverage[i].name] += s->coverage[i].count;
                    }
                    for (uint32_t i = 0; i < s->nsample && nt.samples.size() < 6; ++i) {
                        nt.samples.push_back(s->sample[i]);
                    }
                    if (s->done != 1) {
                        complete = false;
                    }
                }
                t = nt;
            }
            if (complete) {
                t.completedBound = bound;
            }
            {
                std::unordered_set<uint64_t> st, oc;
                for (int fd: fds) {
                    lseek(fd, 0, SEEK_SET);
                    load(fd, st);
                    load(fd, oc);
                    close(fd);
                }
                t.states = st.size();
                t.outcomes = oc.size();
            }
            for (auto s: shs) {
                for (uint32_t i = 0; i < s->nviol; ++i) {
                    if (seenKeys.insert(s->viol[i].key).second && violations.size() < o.maxViolations) {
                        violations.push_back({o.name,
                                              s->viol[i].key,
                                              s->viol[i].msg,
                                              "",
                                              bound,
                                              std::vector<uint16_t>(s->viol[i].values,
                                                                    s->viol[i].values + s->viol[i].size)});
                        auto& v = violations.back();
                        auto res = replay(o, body, v.values, bound, false);
                        auto it = std::find_if(res.begin(), res.end(), [&](auto& x) { return x.first == v.key; });
                        if (it == res.end()) {
                            brokenMsgs.push_back(o.name + ": violation " + v.key + " (" + v.msg +
                                                 ") is not reproduced by replay");
                            violations.pop_back();
                        }
                    }
                }
                munmap(s, sizeof(Shared));
            }
            for (auto& a: aborted) {
                auto res = replay(o, body, a.second, bound, false);
                auto it = std::find_if(res.begin(), res.end(), [&](auto& x) {
                    return x.first == "crash" || x.first == "hang";
                });
                if (it == res.end()) {
                    brokenMsgs.push_back(o.name + ": a " + a.first + " of a worker is not reproduced by replay");
                } else if (seenKeys.insert(it->first).second) {
                    violations.push_back({o.name, it->first, it->second, "", bound, a.second});
                }
            }
            if (crashed || !seenKeys.empty() || !complete) {
                break;
            }
        }
        t.complete = t.completedBound == o.bound;
        t.seconds = realNow() - begin;
        for (const auto& m: o.mustCover) {
            if (!t.coverage[m] && violations.empty() && t.complete) {
                brokenMsgs.push_back(o.name + ": vacuous, never reached: " + m);
            }
        }
        totals.push_back(t);
        std::cout << "explored " << o.name << ": bound " << t.completedBound << "/" << o.bound << ", " << t.executions
                  << " executions, " << t.transitions << " transitions, " << t.states << " states, " << t.evaluations
                  << " checks, " << t.outcomes << " outcomes, " << t.nontrivial << " nontrivial, " << t.seconds << " s"
                  << std::endl;
        if (getenv("VERIF_VERBOSE")) {
            for (auto& c: t.coverage) {
                std::cout << "   " << c.first << ": " << c.second << "\n";
            }
        }
    }

    int finish()
    {
        if (replayMode) {
            return replayFailed ? 1 : 0;
        }
        auto dir = verifDir();
        // known findings: "<property> <harness> <key> ..." lines
        std::set<std::string> known;
        {
            std::ifstream f(dir + "/known_findings.txt");
            std::string line;
            while (std::getline(f, line)) {
                std::istringstream ss(line);
                std::string tag, p, h, k;
                ss >> tag >> p >> h >> k;
                if (tag == "known:") {
                    known.insert(p + " " + h + " " + k);
                }
            }
        }
        int rc = 0;
        size_t unknown = 0, knownCount = 0;
        if (!violations.empty()) {
            mkdir((dir + "/replays").c_str(), 0755);
        }
        for (auto& v: violations) {
            std::string id = "property=" + property + " " + v.harness + " " + v.key;
            if (known.count(id)) {
                ++knownCount;
                std::cout << "KNOWN-FINDING: property=" << property << " " << v.harness << " " << v.key << ": " << v.msg
                          << std::endl;
                continue;
            }
            ++unknown;
            const char* bin = getenv("VERIF_BIN");
            v.replayFile = dir + "/replays/" + property + "-" + (bin ? bin : "0") + "-" + std::to_string(unknown) +
                           ".txt";
            std::ofstream f(v.replayFile);
            f << "property " << property << "\nharness " << v.harness << "\nkey " << v.key << "\nbound " << v.bound << "\nmessage " << v.msg
              << "\nchoices";
            for (auto x: v.values) {
                f << " " << x;
            }
            f << "\n";
            std::cout << "  " << v.harness << ": " << v.key << ": " << v.msg << "\n";
            std::cout << "VIOLATION property=" << property << " replay=" << v.replayFile << std::endl;
            rc = 1;
        }
        if (!brokenMsgs.empty()) {
            for (auto& b: brokenMsgs) {
                std::cout << "BROKEN: " << b << std::endl;
            }
            if (!rc) {
                rc = 2;
            }
        }
        std::ofstream f(dir + "/evidence/parts/" + property + ".json.part");
        uint64_t ex = 0, tr = 0, st = 0, ev = 0, oc = 0, nt = 0, pr = 0;
        bool complete = true;
        for (auto& t: totals) {
            ex += t.executions;
            tr += t.transitions;
            st += t.states;
            ev += t.evaluations;
            oc += t.outcomes;
            nt += t.nontrivial;
            pr += t.pruned;
            complete &= t.complete;
        }
        f << "{\"executions\":" << ex << ",\"transitions\":" << tr << ",\"states\":" << st << ",\"evaluations\":" << ev
          << ",\"outcomes\":" << oc << ",\"nontrivial\":" << nt << ",\"pruned\":" << pr
          << ",\"complete\":" << (complete ? "true" : "false") << ",\"violations\":" << unknown
          << ",\"known\":" << knownCount << ",\"harnesses\":[";
        for (size_t i = 0; i < totals.size(); ++i) {
            auto& t = totals[i];
            f << (i ? "," : "") << "{\"name\":" << jsonStr(t.name) << ",\"deviation_bound\":" << t.wantedBound
              << ",\"completed_bound\":" << t.completedBound << ",\"executions\":" << t.executions
              << ",\"transitions\":" << t.transitions << ",\"states\":" << t.states
              << ",\"evaluations\":" << t.evaluations << ",\"outcomes\":" << t.outcomes
              << ",\"nontrivial\":" << t.nontrivial << ",\"pruned\":" << t.pruned << ",\"max_choices\":" << t.maxDepth
              << ",\"seconds\":" << t.seconds << ",\"covered\":{";
            bool first = true;
            for (auto& c: t.coverage) {
                f << (first ? "" : ",") << jsonStr(c.first) << ":" << c.second;
                first = false;
            }
            f << "},\"samples\":[";
            for (size_t j = 0; j < t.samples.size(); ++j) {
                f << (j ? "," : "") << jsonStr(t.samples[j]);
            }
            f << "]}";
        }
        f << "]}\n";
        std::cout << "property " << property << ": " << ex << " executions, " << unknown << " violations, " << knownCount
                  << " known findings, " << realNow() - startTime << " s" << std::endl;
        return rc;
    }
}
