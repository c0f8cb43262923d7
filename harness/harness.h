// Contract replay harness: runs the real code on generated inputs and compares with an independent oracle.
// Deterministic: case k of seed s is always the same input.  A crash, a failed assert or an exhausted CPU
// budget inside the code under test is attributed to the running case.
#ifndef HARNESS_H
#define HARNESS_H
#include <NTL/ZZ.h>
#include <NTL/ZZX.h>
#include <NTL/ZZ_p.h>
#include <NTL/ZZ_pX.h>
#include <NTL/ZZ_pE.h>
#include <NTL/lzz_p.h>
#include <NTL/mat_ZZ.h>
#include <NTL/mat_ZZ_p.h>
#include <NTL/mat_lzz_p.h>
#include <NTL/vec_ZZ.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <stdint.h>

namespace H {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x) { next(); next(); }
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    int64_t in(int64_t a, int64_t b) { return a + (int64_t)(next() % (uint64_t)(b - a + 1)); }   // inclusive
    bool coin() { return next() & 1; }
    bool one_in(int k) { return next() % k == 0; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
    NTL::ZZ bits(int k) { NTL::ZZ r(0); for (int i = 0; i < k; i += 32) { r <<= 32; r += (long)(next() & 0xffffffffu); } NTL::ZZ m; m = NTL::power2_ZZ(k); return r % m; }
    NTL::ZZ below(const NTL::ZZ &m) { return bits(NTL::NumBits(m) + 40) % m; }
};

struct Shared { volatile long current; volatile long done; volatile long nontrivial; volatile int failed; char desc[16384]; char what[8192]; double t0; };

struct Case {
    Rng r;
    long k;
    bool trivial;
    std::ostringstream d;     // description of the input, filled before the code under test runs
    Shared *sh;
    Case(uint64_t seed, long k_, Shared *s) : r(seed * 0x100000001b3ULL + (uint64_t)k_ * 0x9E3779B97F4A7C15ULL + 77), k(k_), trivial(false), sh(s) {}
    void publish() { std::string s = d.str(); if (sh) { strncpy(sh->desc, s.c_str(), sizeof(sh->desc) - 1); sh->desc[sizeof(sh->desc) - 1] = 0; } }
};

struct Fail { std::string what; };
inline void fail(const std::string &w) { throw Fail{w}; }
template <class A, class B> void same(const A &a, const B &b, const std::string &w) {
    if (!(a == b)) { std::ostringstream s; s << w << ": got " << a << " expected " << b; fail(s.str()); }
}
inline void ok(bool c, const std::string &w) { if (!c) fail(w); }

// runs f in a forked child: 0 = returned normally, 1 = ended (assert/abort/signal/exit)
inline int ends(const std::function<void()> &f, int cpu = 20) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
        signal(SIGPROF, SIG_DFL);
        struct rlimit rl = {(rlim_t)cpu, (rlim_t)cpu + 1}; setrlimit(RLIMIT_CPU, &rl);
        struct rlimit c0 = {0, 0}; setrlimit(RLIMIT_CORE, &c0);
        f();
        _exit(42);
    }
    int st = 0; waitpid(p, &st, 0);
    return (WIFEXITED(st) && WEXITSTATUS(st) == 42) ? 0 : 1;
}

inline double now() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + 1e-6 * t.tv_usec; }

static const int SETS = 1 << 16;

inline int main_(int argc, char **argv, void (*run)(Case &), long nquick, long nthorough, int cpu_per_case = 120, long nworkers = 8) {
    uint64_t seed = 1; long only = -1; double budget = 25; bool thorough = false; std::string scratch;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
        else if (a == "--case") only = atol(argv[++i]);
        else if (a == "--budget") budget = atof(argv[++i]);
        else if (a == "--thorough") thorough = true;
        else if (a == "--workers") nworkers = atol(argv[++i]);
    }
    long n = thorough ? nthorough : nquick;
    struct rlimit c0 = {0, 0}; setrlimit(RLIMIT_CORE, &c0);
    Shared *sh = (Shared *)mmap(0, sizeof(Shared) * nworkers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    uint64_t *hs = (uint64_t *)mmap(0, sizeof(uint64_t) * SETS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    char *samples = (char *)mmap(0, 3 * 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = now();
    if (only >= 0) nworkers = 1;
    std::vector<pid_t> pids(nworkers);
    fflush(stdout);
    for (long w = 0; w < nworkers; ++w) {
        sh[w].current = -1;
        pid_t p = fork();
        if (p == 0) {
            FILE *out = only >= 0 ? stdout : 0;
            if (only < 0) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); }
            for (long k = only >= 0 ? only : w; k < (only >= 0 ? only + 1 : n); k += nworkers) {
                if (only < 0 && now() - t0 > budget) break;
                Case c(seed, k, &sh[w]);
                sh[w].desc[0] = 0; sh[w].current = k;
                struct itimerval it = {{0, 0}, {cpu_per_case, 0}};
                setitimer(ITIMER_PROF, &it, 0);      // CPU time, not wall time
                try { run(c); }
                catch (Fail &f) {
                    c.publish(); strncpy(sh[w].what, f.what.c_str(), sizeof(sh[w].what) - 1); sh[w].failed = 1;
                    if (out) { fprintf(out, "case %ld\ninput: %s\nFAIL: %s\n", k, sh[w].desc, f.what.c_str()); fflush(out); }
                    _exit(3);
                }
                catch (std::exception &e) {
                    c.publish(); snprintf(sh[w].what, sizeof(sh[w].what), "exception: %s", e.what()); sh[w].failed = 1;
                    if (out) { fprintf(out, "case %ld\ninput: %s\nFAIL: exception %s\n", k, sh[w].desc, e.what()); fflush(out); }
                    _exit(3);
                }
                c.publish();
                if (out) { fprintf(out, "case %ld\ninput: %s\nheld\n", k, sh[w].desc); fflush(out); }
                sh[w].done++;
                if (!c.trivial) {
                    sh[w].nontrivial++;
                    uint64_t h = 1469598103934665603ULL; for (const char *q = sh[w].desc; *q; ++q) { h ^= (unsigned char)*q; h *= 1099511628211ULL; }
                    if (!h) h = 1;
                    for (uint64_t j = h, tries = 0; tries < 2000; ++j, ++tries) { uint64_t old = hs[j % SETS]; if (old == h) break; if (old == 0) { if (__sync_bool_compare_and_swap(&hs[j % SETS], 0, h)) break; } }
                    if (k < 3) { strncpy(samples + 4096 * k, sh[w].desc, 1500); }
                }
            }
            _exit(0);
        }
        pids[w] = p;
    }
    long done = 0, nt = 0; int bad = 0;
    for (long w = 0; w < nworkers; ++w) {
        int st = 0; waitpid(pids[w], &st, 0);
        done += sh[w].done; nt += sh[w].nontrivial;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        // the worker ended inside a case
        std::string why = sh[w].failed ? std::string(sh[w].what) : WIFSIGNALED(st) ? (WTERMSIG(st) == SIGPROF ? std::string("no termination within the CPU budget") : WTERMSIG(st) == SIGKILL ? std::string("KILLED") : "process ended by signal " + std::to_string(WTERMSIG(st)) + " (assert, abort or memory error) in the code under test") : "process exited with status " + std::to_string(WEXITSTATUS(st)) + " in the code under test";
        if (why == "KILLED") { printf("INCOMPLETE worker %ld ended by the sandbox at case %ld\n", w, (long)sh[w].current); continue; }
        ++bad;
        if (only < 0) {
            for (char *q = sh[w].desc; *q; ++q) if (*q == '\n') *q = ' ';
            for (char &ch : why) if (ch == '\n') ch = ' ';
            printf("FAIL\t%ld\t%s\t%s\n", (long)sh[w].current, why.c_str(), sh[w].desc);
        } else printf("%s\n", why.c_str());
    }
    long distinct = 0; for (int i = 0; i < SETS; ++i) distinct += hs[i] != 0;
    if (only < 0) {
        for (int i = 0; i < 3; ++i) if (samples[4096 * i]) { for (char *q = samples + 4096 * i; *q; ++q) if (*q == '\n') *q = ' '; printf("SAMPLE\t%s\n", samples + 4096 * i); }
        printf("DONE\t%ld\t%ld\t%ld\t%ld\t%.1f\n", n, done, nt, distinct, now() - t0);
    }
    return bad ? 3 : 0;
}

// ---------------------------------------------------------------- common helpers
typedef std::vector<int64_t> vi;
typedef std::map<vi, NTL::ZZ> poly;     // independent polynomial representation: exponent vector -> non-zero coefficient

template <class V> std::string str(const V &v) { std::ostringstream s; s << v; return s.str(); }
inline std::string str(const vi &v) { std::ostringstream s; s << "("; for (size_t i = 0; i < v.size(); ++i) s << (i ? "," : "") << v[i]; s << ")"; return s.str(); }
inline std::string str(const poly &f) { std::ostringstream s; s << "{"; bool first = true; for (poly::const_iterator i = f.begin(); i != f.end(); ++i) { s << (first ? "" : " ") << str(i->first) << ":" << i->second; first = false; } s << "}"; return s.str(); }
inline vi tovi(const NTL::Vec<int64_t> &v) { vi r(v.length()); for (long i = 0; i < v.length(); ++i) r[i] = v[i]; return r; }
inline NTL::Vec<int64_t> tovec(const vi &v) { NTL::Vec<int64_t> r; r.SetLength(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = v[i]; return r; }
inline std::ostream &operator<<(std::ostream &s, const vi &v) { return s << str(v); }

inline void padd(poly &f, const vi &m, const NTL::ZZ &c) { NTL::ZZ &x = f[m]; x += c; if (NTL::IsZero(x)) f.erase(m); }
inline poly pmul(const poly &a, const poly &b) { poly r; for (poly::const_iterator i = a.begin(); i != a.end(); ++i) for (poly::const_iterator j = b.begin(); j != b.end(); ++j) { vi m(i->first); for (size_t t = 0; t < m.size(); ++t) m[t] += j->first[t]; padd(r, m, i->second * j->second); } return r; }
inline poly pred(const poly &a, const NTL::ZZ &m) { poly r; for (poly::const_iterator i = a.begin(); i != a.end(); ++i) { NTL::ZZ c = i->second % m; if (!NTL::IsZero(c)) r[i->first] = c; } return r; }
inline poly pder(const poly &a, int v) { poly r; for (poly::const_iterator i = a.begin(); i != a.end(); ++i) if (i->first[v]) { vi m(i->first); NTL::ZZ c = i->second * m[v]; m[v]--; padd(r, m, c); } return r; }
// all monomials in n variables of degree d, lexicographic
inline void monos(int n, int d, std::vector<vi> &out) {
    out.clear();
    vi cur(n, 0);
    std::function<void(int, int)> go = [&](int i, int left) { if (i == n - 1) { cur[i] = left; out.push_back(cur); return; } for (int a = 0; a <= left; ++a) { cur[i] = a; go(i + 1, left - a); } };
    if (n > 0) go(0, d);
}
inline int64_t ppow(int64_t b, int e) { int64_t r = 1; while (e--) r *= b; return r; }
}  // namespace H
#endif
