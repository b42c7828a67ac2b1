#include "engine.h"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <new>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

#if defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#endif

namespace vf {
    namespace {
        uint64_t splitmix(uint64_t& x)
        {
            uint64_t z = (x += 0x9e3779b97f4a7c15ull);
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            return z ^ (z >> 31);
        }
        uint64_t rotl(uint64_t x, int k)
        {
            return (x << k) | (x >> (64 - k));
        }
    }

    uint64_t fnv(const std::string& s, uint64_t h)
    {
        for (unsigned char c : s)
            h = (h ^ c) * 1099511628211ull;
        return h;
    }

    std::string jsonEscape(const std::string& s)
    {
        std::string r;
        char buf[8];
        for (unsigned char c : s)
            if (c == '"')
                r += "\\\"";
            else if (c == '\\')
                r += "\\\\";
            else if (c == '\n')
                r += "\\n";
            else if (c < 0x20 || c >= 0x7f) {
                std::snprintf(buf, sizeof(buf), "\\u%04x", c);
                r += buf;
            } else
                r += static_cast<char>(c);
        return r;
    }

    Ctx::Ctx(uint64_t seed, bool useRng)
        : useRng(useRng)
    {
        uint64_t x = seed;
        for (auto& s : state)
            s = splitmix(x);
    }

    void Ctx::setTape(std::vector<uint32_t> t)
    {
        tape = std::move(t);
    }

    uint64_t Ctx::next()
    {
        const uint64_t result = rotl(state[1] * 5, 7) * 9;
        const uint64_t t = state[1] << 17;
        state[2] ^= state[0];
        state[3] ^= state[1];
        state[1] ^= state[2];
        state[0] ^= state[3];
        state[2] ^= t;
        state[3] = rotl(state[3], 45);
        return result;
    }

    uint32_t Ctx::draw(uint32_t n)
    {
        if (n == 0)
            n = 1;
        if (pos >= 60000)
            throw Discard{"tape too long"};
        if (pos < tape.size()) {
            const uint32_t v = std::min(tape[pos], n - 1);
            tape[pos++] = v;
            return v;
        }
        const uint32_t v = useRng ? static_cast<uint32_t>((next() >> 32) * n >> 32) : 0;
        tape.push_back(v);
        ++pos;
        return v;
    }

    int Ctx::range(int lo, int hi)
    {
        return lo + static_cast<int>(draw(static_cast<uint32_t>(hi - lo + 1)));
    }

    bool Ctx::chance(unsigned percent)
    {
        return draw(100) >= 100 - percent;
    }

    unsigned Ctx::weighted(const std::vector<unsigned>& w)
    {
        unsigned total = 0;
        for (unsigned x : w)
            total += x;
        uint32_t v = draw(total);
        for (unsigned i = 0; i < w.size(); ++i) {
            if (v < w[i])
                return i;
            v -= w[i];
        }
        return 0;
    }

    unsigned Ctx::weighted(std::initializer_list<unsigned> weights)
    {
        return weighted(std::vector<unsigned>(weights));
    }

    uint64_t Ctx::bits64()
    {
        uint64_t v = draw(1u << 16);
        for (int i = 0; i < 3; ++i)
            v = v << 16 | draw(1u << 16);
        return v;
    }

    void Ctx::fail(const std::string& tag, const std::string& msg)
    {
        throw Fail{tag, msg, ""};
    }

    void Ctx::discard(const std::string& reason)
    {
        throw Discard{reason};
    }

    void Ctx::known(const std::string& id, const std::string& msg)
    {
        knownHits[id] = msg;
    }

    void Ctx::publishInput() const
    {
        if (live != nullptr) {
            std::strncpy(live, inputText.c_str(), liveSize - 1);
            live[liveSize - 1] = 0;
        }
    }

    void Ctx::label(const std::string& name)
    {
        ++labels[name];
    }

    namespace {
        using Clock = std::chrono::steady_clock;

        struct Options {
            std::string tier = "quick";
            uint64_t seed = 1;
            double scale = 1.0;
            double wallCap = 300;
            std::string evidence;
            std::string replayDir = ".";
            std::string known;
            std::string replay;
            std::string suite;
            std::string scratch = "/tmp";
            long only = -1;
            unsigned jobs = 8;
            bool keepGoing = false;
            bool slow = false;
        };

        constexpr size_t maxTape = 61000;

        struct Report {
            volatile int status; /* 0 pass, 1 discard, 2 fail, 3 inconclusive, 9 running */
            char tag[128];
            char msg[6000];
            char input[12000];
            uint32_t tapeLen;
            uint32_t tape[maxTape];
        };

        struct WorkerState {
            volatile uint64_t current;
            volatile uint64_t done; /* next index to start with after a restart */
            volatile int phase; /* 0 idle, 1 in a case, 2 finished, 3 failed */
            Report report;
        };

        struct KnownEntry {
            std::string id;
            std::string text;
        };

        void put(char* dest, size_t n, const std::string& s)
        {
            std::strncpy(dest, s.c_str(), n - 1);
            dest[n - 1] = 0;
        }

        void setCaseTimer(double sec)
        {
            itimerval t{};
            t.it_value.tv_sec = static_cast<time_t>(sec);
            t.it_value.tv_usec = static_cast<suseconds_t>((sec - static_cast<double>(t.it_value.tv_sec)) * 1e6);
            setitimer(ITIMER_PROF, &t, nullptr);
        }

        uint64_t caseSeed(const Property& p, const Suite& s, uint64_t seed, uint64_t idx)
        {
            return fnv(p.id + "/" + s.name + "/" + std::to_string(seed) + "/" + std::to_string(idx));
        }

        std::set<std::string> knownIds;

        /* Runs one case. Returns the status and fills the report if it isn't a pass. */
        int runCase(const Property& p, const Suite& s, Ctx& ctx, Report* rep)
        {
            int status = 0;
            std::string tag, msg;

            if (p.beforeCase)
                p.beforeCase();

            try {
                s.run(ctx);
                for (const auto& [id, m] : ctx.knownHits)
                    if (knownIds.count(id) == 0) {
                        status = 2;
                        tag = "unlisted-" + id;
                        msg = m;
                    }
            } catch (const Fail& f) {
                status = 2;
                tag = f.tag;
                msg = f.msg;
            } catch (const Discard& d) {
                status = 1;
                tag = d.reason;
            } catch (const std::bad_alloc&) {
                status = 3;
                tag = "out-of-memory";
            } catch (const std::exception& e) {
                status = 2;
                tag = "exception";
                msg = std::string("unexpected exception: ") + e.what();
            }

            if (rep != nullptr && status != 0) {
                put(rep->tag, sizeof(rep->tag), tag);
                put(rep->msg, sizeof(rep->msg), msg);
                put(rep->input, sizeof(rep->input), ctx.inputText);
                rep->tapeLen = static_cast<uint32_t>(std::min(ctx.tape.size(), maxTape));
                std::copy_n(ctx.tape.begin(), rep->tapeLen, rep->tape);
                rep->status = status;
            }

            return status;
        }

        void limitMemory()
        {
#ifndef VF_ASAN
            rlimit r{};
            r.rlim_cur = r.rlim_max = 3ull << 30;
            setrlimit(RLIMIT_AS, &r);
#endif
            rlimit c{};
            setrlimit(RLIMIT_CORE, &c);
        }

        void muteStderr()
        {
            const int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 2);
            close(fd);
        }

        template <class T> T* sharedAlloc()
        {
            void* m = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            if (m == MAP_FAILED) {
                perror("mmap");
                std::exit(3);
            }
            return static_cast<T*>(m);
        }

        struct Outcome {
            int status; /* as in Report, 4: crash by signal, 5: timeout */
            std::string tag, msg, input;
            std::vector<uint32_t> tape;
        };

        Outcome runTapeForked(const Property& p, const Suite& s, const std::vector<uint32_t>& tape, bool useRng,
          uint64_t seed, double cpu)
        {
            static Report* rep = sharedAlloc<Report>();
            std::memset(static_cast<void*>(rep), 0, offsetof(Report, tape));
            rep->status = 9;
            std::cout.flush();
            const pid_t pid = fork();

            if (pid == 0) {
                limitMemory();
                muteStderr();
                setCaseTimer(cpu);
                Ctx ctx(seed, useRng);
                ctx.setTape(tape);
                ctx.live = rep->input;
                ctx.liveSize = sizeof(rep->input);
                const int st = runCase(p, s, ctx, rep);
                if (st == 0) {
                    put(rep->input, sizeof(rep->input), ctx.inputText);
                    rep->status = 0;
                }
                _exit(0);
            }

            int wst = 0;
            waitpid(pid, &wst, 0);
            Outcome o;
            o.tape = tape;
            o.input = rep->input;
            if (WIFSIGNALED(wst)) {
                if (WTERMSIG(wst) == SIGPROF) {
                    o.status = 5;
                    o.tag = "timeout";
                } else {
                    o.status = 4;
                    o.tag = "crash";
                    o.msg = "terminated by signal " + std::to_string(WTERMSIG(wst));
                }
                return o;
            } else if (WEXITSTATUS(wst) != 0) {
                o.status = 4;
                o.tag = "crash";
                o.msg = "abnormal exit with status " + std::to_string(WEXITSTATUS(wst));
                return o;
            }
            o.status = rep->status;
            o.tag = rep->tag;
            o.msg = rep->msg;
            o.input = rep->input;
            if (o.status != 0)
                o.tape.assign(rep->tape, rep->tape + rep->tapeLen);
            return o;
        }

        bool isFailure(const Property& p, const Outcome& o)
        {
            return o.status == 2 || o.status == 4 || (o.status == 5 && p.timeoutIsViolation);
        }

        /* Records the tape of a case even if it crashes: run in a child with the tape in shared memory. */
        std::vector<uint32_t> tapeOfIndex(const Property& p, const Suite& s, uint64_t seed, double cpu)
        {
            struct Shared {
                volatile uint32_t n;
                uint32_t t[maxTape];
            };
            static Shared* sh = sharedAlloc<Shared>();
            sh->n = 0;
            const pid_t pid = fork();
            if (pid == 0) {
                limitMemory();
                muteStderr();
                setCaseTimer(cpu);
                Ctx ctx(seed, true);
                ctx.tape.reserve(maxTape);
                /* The vector never reallocates, a signal handler copies it out. */
                static Ctx* g;
                static Shared* gs;
                g = &ctx;
                gs = sh;
                auto handler = [](int sig) {
                    const size_t n = std::min(g->tape.size(), maxTape);
                    std::copy_n(g->tape.data(), n, gs->t);
                    gs->n = static_cast<uint32_t>(n);
                    signal(sig, SIG_DFL);
                    raise(sig);
                };
                static char altstack[1 << 16];
                stack_t ss{};
                ss.ss_sp = altstack;
                ss.ss_size = sizeof(altstack);
                sigaltstack(&ss, nullptr);
                for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF}) {
                    struct sigaction sa {};
                    sa.sa_handler = handler;
                    sa.sa_flags = SA_ONSTACK;
                    sigaction(sg, &sa, nullptr);
                }
                runCase(p, s, ctx, nullptr);
                const size_t n = std::min(ctx.tape.size(), maxTape);
                std::copy_n(ctx.tape.data(), n, sh->t);
                sh->n = static_cast<uint32_t>(n);
                _exit(0);
            }
            int wst;
            waitpid(pid, &wst, 0);
            return {sh->t, sh->t + sh->n};
        }

        Outcome shrink(const Property& p, const Suite& s, Outcome best, double cpu, double budget)
        {
            const auto start = Clock::now();
            const auto within = [&]() {
                return std::chrono::duration<double>(Clock::now() - start).count() < budget;
            };
            unsigned attempts = 0;
            const auto attempt = [&](const std::vector<uint32_t>& cand) {
                ++attempts;
                Outcome o = runTapeForked(p, s, cand, false, 0, cpu);
                if (isFailure(p, o) && o.tag == best.tag) {
                    if (o.status == 4 || o.status == 5)
                        o.tape = cand;
                    if (o.tape.size() < best.tape.size() || (o.tape.size() == best.tape.size() && o.tape < best.tape)) {
                        best = o;
                        return true;
                    }
                }
                return false;
            };
            bool progress = true;
            while (progress && within() && attempts < 6000) {
                progress = false;
                for (size_t chunk = std::max<size_t>(best.tape.size() / 2, 1); chunk >= 1 && within(); chunk /= 2) {
                    for (size_t at = 0; at < best.tape.size() && within();) {
                        auto cand = best.tape;
                        const auto from = cand.begin() + static_cast<long>(at);
                        cand.erase(from, from + static_cast<long>(std::min(chunk, cand.size() - at)));
                        if (attempt(cand))
                            progress = true;
                        else
                            at += chunk;
                    }
                    if (chunk == 1)
                        break;
                }
                for (size_t chunk : {8u, 4u, 2u, 1u})
                    for (size_t at = 0; at < best.tape.size() && within(); at += chunk) {
                        auto cand = best.tape;
                        bool changed = false;
                        for (size_t k = at; k < std::min(at + chunk, cand.size()); ++k) {
                            changed = changed || cand[k] != 0;
                            cand[k] = 0;
                        }
                        if (changed && attempt(cand))
                            progress = true;
                    }
                for (size_t at = 0; at < best.tape.size() && within(); ++at) {
                    uint32_t lo = 0;
                    while (at < best.tape.size() && lo < best.tape[at] && within()) {
                        auto cand = best.tape;
                        const uint32_t mid = lo + (cand[at] - lo) / 2;
                        cand[at] = mid;
                        if (attempt(cand))
                            progress = true;
                        else
                            lo = mid + 1;
                    }
                }
            }
            return best;
        }

        std::string writeReplay(const Options& o, const Property& p, const Suite& s, const Outcome& out, uint64_t seed,
          const std::string& mode, uint64_t first, uint64_t last, uint64_t stride)
        {
            mkdir(o.replayDir.c_str(), 0755);
            const std::string path =
              o.replayDir + "/" + p.id + "-" + s.name + "-" + std::to_string(fnv(out.tag + out.input + out.msg) % 1000000) + ".replay";
            std::ofstream f(path);
            f << "property " << p.id << "\nsuite " << s.name << "\nmode " << mode << "\nseed " << seed << "\nfirst " << first
              << "\nlast " << last << "\nstride " << stride << "\ntape";
            if (mode == "tape")
                for (uint32_t v : out.tape)
                    f << ' ' << v;
            f << "\ntag " << out.tag << "\n# input: " << jsonEscape(out.input) << "\n# message: " << jsonEscape(out.msg)
              << "\n";
            return path;
        }

        /* Runs the cases first, first + stride, ..., last within one process (in a fork), returns the outcome of the
         * last one. */
        Outcome runSequenceForked(
          const Property& p, const Suite& s, uint64_t seed, uint64_t first, uint64_t last, uint64_t stride)
        {
            static Report* rep = sharedAlloc<Report>();
            std::memset(static_cast<void*>(rep), 0, offsetof(Report, tape));
            rep->status = 9;
            const pid_t pid = fork();
            if (pid == 0) {
                limitMemory();
                muteStderr();
                for (uint64_t i = first; i <= last; i += stride) {
                    setCaseTimer(p.caseCpuSeconds);
                    Ctx ctx(caseSeed(p, s, seed, i), true);
                    const int st = runCase(p, s, ctx, i == last ? rep : nullptr);
                    if (i == last && st == 0)
                        rep->status = 0;
                }
                _exit(0);
            }
            int wst;
            waitpid(pid, &wst, 0);
            Outcome o;
            if (WIFSIGNALED(wst)) {
                o.status = WTERMSIG(wst) == SIGPROF ? 5 : 4;
                o.tag = o.status == 5 ? "timeout" : "crash";
                o.msg = "terminated by signal " + std::to_string(WTERMSIG(wst));
                return o;
            }
            o.status = rep->status;
            o.tag = rep->tag;
            o.msg = rep->msg;
            o.input = rep->input;
            return o;
        }

        std::vector<KnownEntry> readKnown(const std::string& path, const std::string& prop)
        {
            /* Lines: "known: property=<id> finding=<fid> <text>" and "fixed: property=<id> <commit> <text>". */
            std::vector<KnownEntry> result;
            std::ifstream f(path);
            std::string line;
            while (std::getline(f, line)) {
                std::istringstream in(line);
                std::string kind, pr, fid;
                in >> kind >> pr >> fid;
                if (kind != "known:" || pr != "property=" + prop || fid.rfind("finding=", 0) != 0)
                    continue;
                std::string rest;
                std::getline(in, rest);
                result.push_back({fid.substr(8), rest});
            }
            return result;
        }

        struct SuiteStats {
            uint64_t planned = 0, evaluated = 0, discarded = 0, nontrivial = 0, timeouts = 0, oom = 0, checks = 0;
            std::map<std::string, uint64_t> labels;
            std::unordered_set<uint64_t> distinct;
            std::vector<std::string> samples;
            double cpuMax = 0;
            uint64_t cpuMaxIdx = 0;
        };

        void workerMain(const Property& p, const Suite& s, const Options& o, unsigned w, uint64_t start, uint64_t total,
          WorkerState* ws, const std::string& outFile, Clock::time_point deadline)
        {
            limitMemory();
            muteStderr();
            std::ofstream out(outFile, std::ios::app);
            uint64_t evaluated = 0, discarded = 0, nontrivial = 0, oom = 0, checks = 0;
            std::map<std::string, uint64_t> labels;
            double cpuMax = 0;
            uint64_t cpuMaxIdx = 0;
            unsigned samples = 0;
            const auto cpuNow = []() {
                timespec ts;
                clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
                return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
            };
            const auto flush = [&]() {
                out << "S " << evaluated << ' ' << discarded << ' ' << nontrivial << ' ' << oom << ' ' << checks << ' '
                    << cpuMax << ' ' << cpuMaxIdx << "\n";
                for (const auto& [k, v] : labels)
                    out << "L " << v << ' ' << k << "\n";
                out.flush();
                evaluated = discarded = nontrivial = oom = checks = 0;
                labels.clear();
            };

            for (uint64_t i = start; i < total; i += o.jobs) {
                if (Clock::now() > deadline)
                    break;
                ws->current = i;
                ws->phase = 1;
                setCaseTimer(p.caseCpuSeconds);
                Ctx ctx(caseSeed(p, s, o.seed, i), true);
                const double t0 = cpuNow();
                const int st = runCase(p, s, ctx, &ws->report);
                const double t = cpuNow() - t0;
                if (t > cpuMax) {
                    cpuMax = t;
                    cpuMaxIdx = i;
                }
                for (const auto& [k, v] : ctx.labels)
                    labels[k] += v;
                for (const auto& [k, v] : ctx.knownHits)
                    ++labels["known-finding:" + k];
                checks += ctx.checks;
                if (st == 2) {
                    ws->phase = 3;
                    flush();
                    _exit(10);
                }
                ws->done = i + o.jobs;
                ws->phase = 0;
                if (st == 1) {
                    ++discarded;
                    ++labels["discard:" + std::string(ws->report.tag)];
                } else if (st == 3)
                    ++oom;
                else {
                    ++evaluated;
                    if (ctx.isNontrivial) {
                        ++nontrivial;
                        out << "H " << fnv(ctx.inputText) << "\n";
                        if (samples < 3) {
                            ++samples;
                            std::string smp = ctx.inputText.substr(0, 400);
                            std::replace(smp.begin(), smp.end(), '\n', ' ');
                            out << "X " << smp << "\n";
                        }
                    }
                }
                if ((i / o.jobs) % 64 == 0)
                    flush();
            }
            flush();
            ws->phase = 2;
            (void) w;
            _exit(0);
        }

        void readStats(const std::string& file, SuiteStats& st)
        {
            std::ifstream f(file);
            std::string line;
            while (std::getline(f, line)) {
                if (line.size() < 2)
                    continue;
                std::istringstream in(line.substr(2));
                if (line[0] == 'H') {
                    uint64_t h;
                    in >> h;
                    st.distinct.insert(h);
                } else if (line[0] == 'L') {
                    uint64_t n;
                    std::string k;
                    in >> n;
                    std::getline(in >> std::ws, k);
                    st.labels[k] += n;
                } else if (line[0] == 'X')
                    st.samples.push_back(line.substr(2));
                else if (line[0] == 'S') {
                    uint64_t e, d, n, oo, c, ci;
                    double cm;
                    if (in >> e >> d >> n >> oo >> c >> cm >> ci) {
                        st.evaluated += e;
                        st.discarded += d;
                        st.nontrivial += n;
                        st.oom += oo;
                        st.checks += c;
                        if (cm > st.cpuMax) {
                            st.cpuMax = cm;
                            st.cpuMaxIdx = ci;
                        }
                    }
                }
            }
        }

        int replayFile(const Property& p, const std::string& path)
        {
            std::ifstream f(path);
            std::string line, suiteName, mode, tag;
            std::vector<uint32_t> tape;
            uint64_t seed = 0, first = 0, last = 0, stride = 1;
            while (std::getline(f, line)) {
                std::istringstream in(line);
                std::string key;
                in >> key;
                if (key == "suite")
                    in >> suiteName;
                else if (key == "mode")
                    in >> mode;
                else if (key == "seed")
                    in >> seed;
                else if (key == "first")
                    in >> first;
                else if (key == "last")
                    in >> last;
                else if (key == "stride")
                    in >> stride;
                else if (key == "tape") {
                    uint32_t v;
                    while (in >> v)
                        tape.push_back(v);
                }
            }
            for (const auto& s : p.suites)
                if (s.name == suiteName) {
                    const Outcome o = mode == "tape" ?
                      runTapeForked(p, s, tape, false, 0, p.caseCpuSeconds) :
                      runSequenceForked(p, s, seed, first, last, stride);
                    std::cout << "status " << o.status << " tag " << o.tag << "\ninput: " << o.input << "\nmessage: " << o.msg
                              << "\n";
                    if (isFailure(p, o)) {
                        std::cout << "VIOLATION property=" << p.id << " replay=" << path << "\n";
                        return 1;
                    }
                    return 0;
                }
            std::cerr << "unknown suite " << suiteName << "\n";
            return 3;
        }
    }
}

int main(int argc, char** argv)
{
    using namespace vf;
    const auto begin = Clock::now();
    Options o;
    for (int i = 1; i + 1 < argc; i += 2) {
        const std::string k = argv[i], v = argv[i + 1];
        if (k == "--tier")
            o.tier = v;
        else if (k == "--seed")
            o.seed = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "--scale")
            o.scale = std::atof(v.c_str());
        else if (k == "--wall")
            o.wallCap = std::atof(v.c_str());
        else if (k == "--evidence")
            o.evidence = v;
        else if (k == "--replay-dir")
            o.replayDir = v;
        else if (k == "--known")
            o.known = v;
        else if (k == "--replay")
            o.replay = v;
        else if (k == "--suite")
            o.suite = v;
        else if (k == "--scratch")
            o.scratch = v;
        else if (k == "--only")
            o.only = std::atol(v.c_str());
        else if (k == "--jobs")
            o.jobs = static_cast<unsigned>(std::atoi(v.c_str()));
        else if (k == "--keep-going")
            o.keepGoing = v == "1";
    }

    Property p = makeProperty();
    const auto knownEntries = readKnown(o.known, p.id);
    for (const auto& k : knownEntries)
        knownIds.insert(k.id);

    if (!o.replay.empty())
        return replayFile(p, o.replay);

    if (o.only >= 0) {
        for (const auto& s : p.suites)
            if (s.name == o.suite || o.suite.empty()) {
                const uint64_t sd = caseSeed(p, s, o.seed, static_cast<uint64_t>(o.only));
                Outcome out = runTapeForked(p, s, {}, true, sd, p.caseCpuSeconds);
                std::cout << s.name << ": status " << out.status << " tag " << out.tag << "\ninput: " << out.input
                          << "\nmessage: " << out.msg << "\n";
            }
        return 0;
    }

    const std::string dir = o.scratch + "/vf-" + p.id + "-" + std::to_string(getpid());
    mkdir(o.scratch.c_str(), 0755);
    mkdir(dir.c_str(), 0755);
    std::vector<std::pair<const Suite*, SuiteStats>> all;
    unsigned violations = 0;
    std::vector<std::string> violationLines;
    std::vector<WorkerState*> states(o.jobs);
    for (auto& s : states)
        s = sharedAlloc<WorkerState>();

    double totalCases = 0;
    for (const auto& s : p.suites)
        totalCases += static_cast<double>(o.tier == "quick" ? s.quickCases : s.thoroughCases);

    for (const auto& s : p.suites) {
        if (!o.suite.empty() && o.suite != s.name)
            continue;
        all.emplace_back(&s, SuiteStats{});
        SuiteStats& st = all.back().second;
        st.planned = static_cast<uint64_t>(static_cast<double>(o.tier == "quick" ? s.quickCases : s.thoroughCases) * o.scale);
        const double used = std::chrono::duration<double>(Clock::now() - begin).count();
        const double left = std::max(o.wallCap - used, 1.0);
        const double nLeft = static_cast<double>(&p.suites.back() - &s) + 1.0;
        const auto deadline =
          Clock::now() + std::chrono::milliseconds(static_cast<long>(1000 * std::min(left, 1.5 * left / nLeft)));
        std::map<pid_t, unsigned> running;
        std::vector<std::string> files;
        const auto spawn = [&](unsigned w, uint64_t start) {
            const std::string file = dir + "/" + s.name + "-" + std::to_string(w);
            if (std::find(files.begin(), files.end(), file) == files.end())
                files.push_back(file);
            states[w]->phase = 0;
            states[w]->done = start;
            std::cout.flush();
            const pid_t pid = fork();
            if (pid == 0)
                workerMain(p, s, o, w, start, st.planned, states[w], file, deadline);
            running[pid] = w;
        };
        for (unsigned w = 0; w < o.jobs; ++w)
            spawn(w, w);

        unsigned suiteFailures = 0;
        bool stop = false;
        while (!running.empty()) {
            int wst = 0;
            const pid_t pid = wait(&wst);
            if (pid < 0)
                break;
            const auto it = running.find(pid);
            if (it == running.end())
                continue;
            const unsigned w = it->second;
            running.erase(it);
            if (stop)
                continue;
            WorkerState* ws = states[w];
            if (WIFEXITED(wst) && WEXITSTATUS(wst) == 0)
                continue;
            const uint64_t idx = ws->current;
            const bool timeout = WIFSIGNALED(wst) && WTERMSIG(wst) == SIGPROF;
            if (WIFSIGNALED(wst) && WTERMSIG(wst) == SIGKILL) {
                /* Ended from outside (memory): inconclusive, go on. */
                ++st.oom;
                spawn(w, idx + o.jobs);
                continue;
            }
            if (timeout && !p.timeoutIsViolation) {
                ++st.timeouts;
                ++st.labels["timeout"];
                if (o.keepGoing)
                    std::cout << "timeout: " << s.name << " case " << idx << std::endl;
                spawn(w, idx + o.jobs);
                continue;
            }

            /* A candidate violation. Stop the others unless only surveying. */
            if (!o.keepGoing) {
                stop = true;
                for (const auto& [pp, unused] : running)
                    kill(pp, SIGKILL);
            }
            const double cpu = p.caseCpuSeconds;
            const uint64_t sd = caseSeed(p, s, o.seed, idx);
            Outcome out;
            if (WIFEXITED(wst) && WEXITSTATUS(wst) == 10) {
                out.status = 2;
                out.tag = ws->report.tag;
                out.msg = ws->report.msg;
                out.input = ws->report.input;
                out.tape.assign(ws->report.tape, ws->report.tape + ws->report.tapeLen);
            } else {
                out.status = timeout ? 5 : 4;
                out.tag = timeout ? "timeout" : "crash";
                out.msg = WIFSIGNALED(wst) ? "terminated by signal " + std::to_string(WTERMSIG(wst)) :
                                             "abnormal exit " + std::to_string(WEXITSTATUS(wst));
                out.tape = tapeOfIndex(p, s, sd, cpu);
            }
            const Outcome again = runTapeForked(p, s, out.tape, false, 0, cpu);
            std::string path;
            bool confirmed = false;
            if (isFailure(p, again) && again.tag == out.tag) {
                if (again.status == 2)
                    out = again;
                out = shrink(p, s, out, cpu, o.keepGoing ? 5 : (out.status == 5 ? 120 : 40));
                confirmed = true;
                for (int r = 0; r < 3; ++r) {
                    const Outcome c = runTapeForked(p, s, out.tape, false, 0, cpu);
                    out.input = c.input;
                    if (c.status == 2)
                        out.msg = c.msg;
                    confirmed = confirmed && isFailure(p, c) && c.tag == out.tag;
                }
                if (confirmed)
                    path = writeReplay(o, p, s, out, o.seed, "tape", idx, idx, 1);
            } else {
                /* Depends on the history of the process: replay the whole sequence. */
                const uint64_t first = idx % o.jobs;
                confirmed = true;
                Outcome c;
                for (int r = 0; r < 3 && confirmed; ++r) {
                    c = runSequenceForked(p, s, o.seed, first, idx, o.jobs);
                    confirmed = isFailure(p, c);
                }
                if (confirmed) {
                    out = c;
                    /* Shorten the history. */
                    uint64_t f = first;
                    for (uint64_t step = (idx - first) / o.jobs; step > 0; step /= 2) {
                        const uint64_t cand = f + step * o.jobs;
                        if (cand <= idx && isFailure(p, runSequenceForked(p, s, o.seed, cand, idx, o.jobs)))
                            f = cand;
                    }
                    path = writeReplay(o, p, s, out, o.seed, "sequence", f, idx, o.jobs);
                }
            }
            if (confirmed) {
                ++violations;
                ++suiteFailures;
                std::cout << "[" << p.id << "/" << s.name << "] case " << idx << " tag=" << out.tag << "\n  input: " << out.input
                          << "\n  message: " << out.msg << "\n";
                violationLines.push_back("VIOLATION property=" + p.id + " replay=" + path);
                std::cout << violationLines.back() << std::endl;
            } else {
                ++st.labels["unconfirmed-failure"];
                std::cout << "[" << p.id << "/" << s.name << "] case " << idx << " failed once (" << out.tag
                          << ") but not on replay, not reported\n";
                stop = false;
                if (!o.keepGoing) {
                    /* Everything else was stopped: restart the workers where they were. */
                    for (const auto& [pp, ww] : std::map<pid_t, unsigned>(running)) {
                        int x;
                        waitpid(pp, &x, 0);
                        running.erase(pp);
                        spawn(ww, states[ww]->done);
                    }
                }
                spawn(w, idx + o.jobs);
                continue;
            }
            if (o.keepGoing && suiteFailures < 400)
                spawn(w, idx + o.jobs);
        }
        for (const auto& f : files)
            readStats(f, st);
        for (const auto& f : files)
            unlink(f.c_str());
        if (violations > 0 && !o.keepGoing)
            break;
    }
    rmdir(dir.c_str());

    /* Listed findings: report each one that still exists. */
    std::map<std::string, std::string> probes;
    for (const auto& k : knownEntries) {
        std::string res = "hit by generated cases";
        const auto probe = p.findingProbes.find(k.id);
        if (probe != p.findingProbes.end())
            res = probe->second();
        if (!res.empty())
            std::cout << "KNOWN-FINDING: property=" << p.id << " " << k.id << k.text << " [" << res << "]\n";
    }

    uint64_t evaluations = 0, distinct = 0, planned = 0, discarded = 0, timeouts = 0;
    std::vector<std::string> samples;
    std::ostringstream classes;
    for (auto& [s, st] : all) {
        evaluations += st.evaluated;
        distinct += st.distinct.size();
        planned += st.planned;
        discarded += st.discarded;
        timeouts += st.timeouts;
        std::sort(st.samples.begin(), st.samples.end());
        for (size_t i = 0; i < st.samples.size() && i < 4; ++i)
            samples.push_back("[" + s->name + "] " + st.samples[i * st.samples.size() / 4]);
        classes << (classes.str().empty() ? "" : ", ") << "\"" << s->name << "\": {\"planned\": " << st.planned
                << ", \"evaluated\": " << st.evaluated << ", \"discarded\": " << st.discarded << ", \"nontrivial\": " << st.nontrivial
                << ", \"distinct_nontrivial\": " << st.distinct.size() << ", \"comparisons\": " << st.checks
                << ", \"timeouts_inconclusive\": " << st.timeouts << ", \"out_of_memory_inconclusive\": " << st.oom
                << ", \"max_case_cpu_s\": " << st.cpuMax << ", \"max_case_index\": " << st.cpuMaxIdx << ", \"classes\": {";
        bool firstLabel = true;
        for (const auto& [k, v] : st.labels) {
            classes << (firstLabel ? "" : ", ") << "\"" << jsonEscape(k) << "\": " << v;
            firstLabel = false;
        }
        classes << "}}";
    }
    const double wall = std::chrono::duration<double>(Clock::now() - begin).count();
    if (!o.evidence.empty()) {
        std::ofstream e(o.evidence);
        e << "{\"property\": \"" << p.id << "\", \"tier\": \"" << o.tier << "\", \"seed\": " << o.seed
          << ", \"level\": \"exploration\", \"coverage\": {\"evaluations\": " << evaluations
          << ", \"distinct_nontrivial\": " << distinct << ", \"rule\": \"" << jsonEscape(p.rule) << "\", \"planned\": " << planned
          << ", \"discarded\": " << discarded << ", \"timeouts_inconclusive\": " << timeouts << ", \"samples\": [";
        for (size_t i = 0; i < samples.size(); ++i)
            e << (i ? ", " : "") << "\"" << jsonEscape(samples[i]) << "\"";
        e << "], \"suites\": {" << classes.str() << "}}, \"wall_s\": " << wall << ", \"violations\": " << violations
          << ", \"assumptions\": [";
        for (size_t i = 0; i < p.assumptions.size(); ++i)
            e << (i ? ", " : "") << "\"" << jsonEscape(p.assumptions[i]) << "\"";
        e << "]}\n";
    }
    std::cout << "[" << p.id << "] tier=" << o.tier << " seed=" << o.seed << " evaluated=" << evaluations << "/" << planned
              << " discarded=" << discarded << " distinct_nontrivial=" << distinct << " timeouts=" << timeouts
              << " violations=" << violations << " wall=" << wall << "s\n";
    if (violations > 0)
        return 1;
    if (evaluations == 0 && planned > 0) {
        std::cout << "nothing evaluated\n";
        return 3;
    }
    return 0;
}
