// Driver for pbt.hpp.  Modes: run (default), --replay FILE, --list,
// --dump SEED CASE IDX, or libFuzzer when built with -DPBT_LIBFUZZER.
#include "pbt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <vector>
#include <string>
#include <algorithm>
#include <exception>
#include <set>
#include <map>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>

#if defined(__SANITIZE_THREAD__)
#define PBT_TSAN 1
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define PBT_TSAN 1
#endif
#endif

// ---------------------------------------------------------------- allocation
namespace pbt {
long g_new_live = 0, g_new_calls = 0;
bool (*g_new_fault)() = 0;
}
#ifndef PBT_TSAN
static void* do_new(size_t n, uint32_t kind) {
    ++pbt::g_new_calls;
    if (pbt::g_new_fault && pbt::g_new_fault()) throw std::bad_alloc();
    char* p = (char*)std::malloc(n + 32);
    if (!p) std::abort();
    uint32_t* h = (uint32_t*)p;
    h[0] = 0xA110CA7E; h[1] = kind; h[6] = 0xFEEDBEE5; h[7] = kind;
    ++pbt::g_new_live;
    return p + 32;
}
static void do_delete(void* q, uint32_t kind) {
    if (!q) return;
    uint32_t* h = (uint32_t*)((char*)q - 32);
    if (h[0] != 0xA110CA7E || h[6] != 0xFEEDBEE5 || h[1] != kind || h[7] != kind)
        pbt::fail(pbt::ALL, __FILE__, __LINE__, "operator delete on a block that is not a live block of that kind");
    h[0] = h[6] = 0xDEADDEAD;
    --pbt::g_new_live;
    std::free(h);
}
void* operator new(size_t n) { return do_new(n, 1); }
void* operator new[](size_t n) { return do_new(n, 2); }
void operator delete(void* p) noexcept { do_delete(p, 1); }
void operator delete[](void* p) noexcept { do_delete(p, 2); }
void operator delete(void* p, size_t) noexcept { do_delete(p, 1); }
void operator delete[](void* p, size_t) noexcept { do_delete(p, 2); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return do_new(n, 1); } catch (...) { return 0; } }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p, 1); }
#ifdef __cpp_aligned_new
static void* do_new_al(size_t n, size_t al) {
    ++pbt::g_new_calls;
    if (pbt::g_new_fault && pbt::g_new_fault()) throw std::bad_alloc();
    void* p = 0;
    if (posix_memalign(&p, al < sizeof(void*) ? sizeof(void*) : al, n ? n : 1)) std::abort();
    ++pbt::g_new_live;
    return p;
}
static void do_delete_al(void* p) { if (p) { --pbt::g_new_live; std::free(p); } }
void* operator new(size_t n, std::align_val_t a) { return do_new_al(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return do_new_al(n, (size_t)a); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete_al(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete_al(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete_al(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete_al(p); }
#endif
#endif

namespace pbt {

struct CaseInfo { const char* name; CaseFn fn; unsigned weight; uint64_t props; };
static std::vector<CaseInfo>& cases() { static std::vector<CaseInfo>* v = new std::vector<CaseInfo>; return *v; }
Registrar::Registrar(const char* name, CaseFn fn, unsigned weight, uint64_t props) {
    CaseInfo c = { name, fn, weight, props };
    cases().push_back(c);
}

bool g_trace = false;
static uint64_t g_mask = ALL;
bool active(uint64_t props) { return (props & g_mask) != 0; }

enum { EXIT_FOREIGN = 76, EXIT_FAIL = 77, EXIT_HANG = 78 };
enum { MAXB = 4096, MAXLAB = 160, HBITS = 21, MSG = 2048, TRB = 1 << 16 };

struct Shm {
    volatile int cur_case;
    volatile long cur_index;
    volatile int failed;            // 1 after fail() for our property
    volatile long evals, foreign, nontriv;
    volatile size_t len;
    char msg[MSG];
    uint8_t bytes[MAXB];
    int nlab;
    char labname[MAXLAB][48];
    volatile long labcount[MAXLAB];
    volatile long hcount;
    size_t trlen;
    char tr[TRB];
    uint64_t hset[1u << HBITS];
};
static Shm* S = 0;
static Shm* new_shm() {
    void* p = mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); std::_Exit(3); }
    return (Shm*)p;
}
static bool g_nontriv = false;
void nontrivial() { g_nontriv = true; }

static const char* g_labptr[MAXLAB]; static int g_labslot[MAXLAB]; static int g_nlabptr = 0;
void label(const char* n) {
    if (!S) return;
    for (int i = 0; i < g_nlabptr; ++i) if (g_labptr[i] == n) { if (g_labslot[i] >= 0) ++S->labcount[g_labslot[i]]; return; }
    int k = -1;
    for (int i = 0; i < S->nlab; ++i) if (!strncmp(S->labname[i], n, 47)) { k = i; break; }
    if (k < 0 && S->nlab < MAXLAB) { k = S->nlab++; strncpy(S->labname[k], n, 47); }
    if (g_nlabptr < MAXLAB) { g_labptr[g_nlabptr] = n; g_labslot[g_nlabptr++] = k; }
    if (k >= 0) ++S->labcount[k];
}
void trace_line(const std::string& s) {
    if (!S) { fprintf(stderr, "  %s\n", s.c_str()); return; }
    size_t room = TRB - 1 - S->trlen;
    size_t n = std::min(room, s.size() + 1);
    if (n > 1) { memcpy(S->tr + S->trlen, s.c_str(), n - 1); S->tr[S->trlen + n - 1] = '\n'; S->trlen += n; }
}
void fail(uint64_t props, const char* file, int line, const std::string& msg) {
    const char* b = strrchr(file, '/'); b = b ? b + 1 : file;
    if (!active(props)) {
        if (S) S->foreign = S->foreign + 1;
#ifdef PBT_LIBFUZZER
        std::_Exit(0);
#endif
        std::_Exit(EXIT_FOREIGN);
    }
    if (S) {
        snprintf(S->msg, MSG, "%s:%d: %s", b, line, msg.c_str());
        S->failed = 1;
    } else fprintf(stderr, "FAIL %s:%d: %s\n", b, line, msg.c_str());
#ifdef PBT_LIBFUZZER
    std::abort();
#endif
    std::_Exit(EXIT_FAIL);
}

static void on_prof(int) { std::_Exit(EXIT_HANG); }
static void on_term() {
    if (S && !S->msg[0]) snprintf(S->msg, MSG, "std::terminate called");
    std::_Exit(79);
}

static void run_bytes(int c, const uint8_t* p, size_t n) {
    g_nontriv = false;
    g_new_fault = 0;
    long live0 = g_new_live;
    Source src(p, n);
    try { cases()[c].fn(src); }
    catch (const std::exception& e) { fail(ALL, __FILE__, __LINE__, std::string("exception escaped the case: ") + e.what()); }
    catch (...) { fail(ALL, __FILE__, __LINE__, "unknown exception escaped the case"); }
#ifndef PBT_TSAN
    if (g_new_live != live0) {
        std::ostringstream o; o << (g_new_live - live0) << " operator-new block(s) still live after the case (leak)";
        fail(ALL, __FILE__, __LINE__, o.str());
    }
#else
    (void)live0;
#endif
    if (S) {
        S->evals = S->evals + 1;
        if (g_nontriv) {
            S->nontriv = S->nontriv + 1;
            uint64_t h = src.hash() * 31 + c + 1; if (!h) h = 1;
            uint64_t i = (h * 0x9E3779B97F4A7C15ull) >> (64 - HBITS);
            if (S->hcount < (long)((1u << HBITS) * 3 / 4))
                for (;; i = (i + 1) & ((1u << HBITS) - 1)) {
                    if (S->hset[i] == h) break;
                    if (!S->hset[i]) { S->hset[i] = h; ++S->hcount; break; }
                }
        }
    }
}

static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static uint64_t hstr(const char* s) { uint64_t h = 14695981039346656037ull; while (*s) h = (h ^ (uint8_t)*s++) * 1099511628211ull; return h; }
static size_t g_maxlen = 320;
static size_t gen_bytes(uint64_t seed, int c, long idx, uint8_t* out) {
    uint64_t x = seed * 0x2545F4914F6CDD1Dull ^ hstr(cases()[c].name) ^ ((uint64_t)idx * 0xD1342543DE82EF95ull);
    splitmix(x);
    uint64_t r = splitmix(x);
    size_t cap = (r & 3) == 0 ? 24 : (r & 3) == 1 ? 80 : g_maxlen;
    size_t n = 1 + (r >> 8) % cap;
    for (size_t i = 0; i < n; i += 8) { uint64_t v = splitmix(x); for (size_t k = 0; k < 8 && i + k < n; ++k) out[i + k] = uint8_t(v >> (8 * k)); }
    return n;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void arm_hang(int sec) {
    signal(SIGPROF, on_prof);
    itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &it, 0);
}

struct Outcome { bool failed; bool crash; std::string msg, trace; };

static std::string g_tmp;
static std::string slurp(const std::string& f, size_t max = 1 << 20) {
    std::string s; FILE* fp = fopen(f.c_str(), "rb"); if (!fp) return s;
    char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0 && s.size() < max) s.append(b, n);
    fclose(fp); return s;
}
static std::string describe(int st, const std::string& errtext, const char* shmmsg) {
    std::string m;
    if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAIL) return shmmsg;
    if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_HANG) return "no progress: CPU time limit of the case exceeded";
    size_t a = errtext.find("ERROR: AddressSanitizer"); 
    if (a == std::string::npos) a = errtext.find("runtime error:");
    if (a == std::string::npos) a = errtext.find("WARNING: ThreadSanitizer");
    if (a == std::string::npos) a = errtext.find("WARNING: MemorySanitizer");
    if (a == std::string::npos) a = errtext.find("Assertion");
    if (a != std::string::npos) { size_t ls = errtext.rfind('\n', a); ls = ls == std::string::npos ? 0 : ls + 1; m = errtext.substr(ls, std::min<size_t>(errtext.find('\n', a) - ls, 300)); }
    std::ostringstream o;
    if (WIFSIGNALED(st)) o << "process killed by signal " << WTERMSIG(st);
    else o << "process exited with status " << WEXITSTATUS(st);
    if (shmmsg[0]) o << " [" << shmmsg << "]";
    if (!m.empty()) o << ": " << m;
    return o.str();
}

static Outcome run_forked(int c, const uint8_t* p, size_t n, bool want_trace, std::string* err = 0) {
    Shm* sh = new_shm();
    std::string ef = g_tmp + "/one.err";
    fflush(0);
    pid_t pid = fork();
    if (pid == 0) {
        S = sh;
        int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd >= 0) { dup2(fd, 2); close(fd); }
        std::set_terminate(on_term);
        arm_hang(30);
        g_trace = want_trace;
        run_bytes(c, p, n);
        std::_Exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    Outcome o; o.failed = !(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == EXIT_FOREIGN));
    o.crash = o.failed && !(WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAIL);
    o.trace.assign(sh->tr, sh->trlen);
    std::string et = slurp(ef);
    if (o.failed) o.msg = describe(st, et, sh->msg);
    if (err) *err = et;
    munmap(sh, sizeof(Shm));
    return o;
}

static std::string hex(const std::vector<uint8_t>& b) { std::string s; char t[3]; for (size_t i = 0; i < b.size(); ++i) { snprintf(t, 3, "%02x", b[i]); s += t; } return s; }

static std::vector<uint8_t> shrink(int c, std::vector<uint8_t> b, double budget) {
    double t0 = now(); int tries = 0;
    struct T { static bool f(int c, const std::vector<uint8_t>& v) { static const uint8_t z = 0; return run_forked(c, v.empty() ? &z : &v[0], v.size(), false).failed; } };
    bool progress = true;
    while (progress && now() - t0 < budget && tries < 4000) {
        progress = false;
        for (size_t k = std::max<size_t>(1, b.size() / 2); k >= 1; k /= 2) {
            for (size_t i = 0; i + k <= b.size() && now() - t0 < budget;) {
                std::vector<uint8_t> d(b); d.erase(d.begin() + i, d.begin() + i + k); ++tries;
                if (T::f(c, d)) { b.swap(d); progress = true; } else i += k;
            }
            if (k == 1) break;
        }
        for (size_t i = 0; i < b.size() && now() - t0 < budget; ++i) {
            if (!b[i]) continue;
            uint8_t cand[4] = { 0, 1, (uint8_t)(b[i] / 2), (uint8_t)(b[i] - 1) };
            for (int q = 0; q < 4; ++q) {
                if (cand[q] >= b[i]) continue;
                std::vector<uint8_t> d(b); d[i] = cand[q]; ++tries;
                if (T::f(c, d)) { b.swap(d); progress = true; break; }
            }
        }
    }
    return b;
}

static std::string jesc(const std::string& s) {
    std::string o; char t[8];
    for (size_t i = 0; i < s.size(); ++i) { unsigned char ch = s[i];
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) { snprintf(t, 8, "\\u%04x", ch); o += t; } else o += ch; }
    return o;
}

static void worker(int w, int J, uint64_t seed, const std::vector<long>& counts, double deadline, int startc, long starti, Shm* sh) {
    S = sh;
    std::set_terminate(on_term);
    // in rounds, so that a run cut short by its time limit has exercised every case
    const int R = 16; int r0 = 0; long n = 0;
    while (r0 + 1 < R && starti - J >= counts[startc] * (r0 + 1) / R) ++r0;   // the round of the case to resume after
    for (int r = r0; r < R; ++r) for (int c = r == r0 ? startc : 0; c < (int)cases().size(); ++c) {
        long lo = counts[c] * r / R, hi = counts[c] * (r + 1) / R, b = lo + ((w - lo) % J + J) % J;
        for (long i = r == r0 && c == startc ? std::max(b, starti) : b; i < hi; i += J) {
            if ((n++ & 15) == 0) { arm_hang(30); if (now() > deadline) return; }
            S->cur_case = c; S->cur_index = i; S->len = gen_bytes(seed, c, i, S->bytes);
            run_bytes(c, S->bytes, S->len);
        }
    }
}

struct Fail { int c; long idx; std::vector<uint8_t> b; std::string msg; int w; };

static int main_run(int argc, char** argv) {
    uint64_t seed = 1; long N = 1000; int J = 8; std::string out, replay, replay_out, only; double tlimit = 1e9; int nsamples = 3;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        #define ARG(x) (a == x && i + 1 < argc)
        if (ARG("--seed")) seed = strtoull(argv[++i], 0, 10);
        else if (ARG("--cases")) N = atol(argv[++i]);
        else if (ARG("--jobs")) J = atoi(argv[++i]);
        else if (ARG("--out")) out = argv[++i];
        else if (ARG("--replay")) replay = argv[++i];
        else if (ARG("--replay-out")) replay_out = argv[++i];
        else if (ARG("--only")) only = argv[++i];
        else if (ARG("--time")) tlimit = atof(argv[++i]);
        else if (ARG("--maxlen")) g_maxlen = atol(argv[++i]);
        else if (ARG("--samples")) nsamples = atoi(argv[++i]);
        else if (ARG("--prop")) { int n = atoi(argv[++i] + 1); g_mask = P(n); }
        else if (ARG("--tmp")) g_tmp = argv[++i];
        else if (a == "--list") { for (size_t k = 0; k < cases().size(); ++k) printf("%s\n", cases()[k].name); return 0; }
        else { fprintf(stderr, "bad argument %s\n", argv[i]); return 3; }
    }
    if (g_tmp.empty()) { char t[] = "/tmp/pbtXXXXXX"; if (!mkdtemp(t)) { perror("mkdtemp"); return 3; } g_tmp = t; }
    // keep only the cases relevant to the property, in a fixed order
    { std::vector<CaseInfo> v; for (size_t k = 0; k < cases().size(); ++k) if (active(cases()[k].props) && (only.empty() || only == cases()[k].name)) v.push_back(cases()[k]);
      struct L { static bool f(const CaseInfo& a, const CaseInfo& b) { return strcmp(a.name, b.name) < 0; } };
      std::sort(v.begin(), v.end(), L::f); cases().swap(v); }
    if (!replay.empty()) {
        std::string t = slurp(replay), cn, hx; size_t a = t.find("case: "); if (a != std::string::npos) cn = t.substr(a + 6, t.find('\n', a) - a - 6);
        a = t.find("bytes: "); if (a != std::string::npos) hx = t.substr(a + 7, t.find('\n', a) - a - 7);
        std::vector<uint8_t> b; for (size_t i = 0; i + 1 < hx.size(); i += 2) b.push_back((uint8_t)strtol(hx.substr(i, 2).c_str(), 0, 16));
        for (size_t k = 0; k < cases().size(); ++k) if (cn == cases()[k].name) {
            static const uint8_t z = 0; std::string err;
            Outcome o = run_forked((int)k, b.empty() ? &z : &b[0], b.size(), true, &err);
            printf("%s", o.trace.c_str()); printf("%s\n", o.failed ? ("FAILED: " + o.msg).c_str() : "passed");
            if (o.crash) printf("%s\n", err.c_str());
            return o.failed ? 1 : 0;
        }
        fprintf(stderr, "unknown case %s\n", cn.c_str()); return 3;
    }
    if (cases().empty()) { fprintf(stderr, "no cases\n"); return 3; }
    double t0 = now(), deadline = t0 + tlimit;
    unsigned W = 0; for (size_t k = 0; k < cases().size(); ++k) W += cases()[k].weight;
    std::vector<long> counts; for (size_t k = 0; k < cases().size(); ++k) counts.push_back(std::max<long>(J, (long)((double)N * cases()[k].weight / W)));
    std::vector<Shm*> sh(J); std::vector<pid_t> pid(J); std::vector<Fail> fails; std::vector<int> restarts(J, 0);
    for (int w = 0; w < J; ++w) sh[w] = new_shm();
    struct Sp { static pid_t go(int w, int J, uint64_t seed, const std::vector<long>& counts, double dl, int c, long i, Shm* s) {
        fflush(0); pid_t p = fork();
        if (p == 0) { std::string ef = g_tmp + "/w" + std::to_string(w) + ".err"; int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd >= 0) { dup2(fd, 2); close(fd); }
            worker(w, J, seed, counts, dl, c, i, s); std::_Exit(0); }
        return p; } };
    for (int w = 0; w < J; ++w) { sh[w]->cur_case = 0; sh[w]->cur_index = w; pid[w] = Sp::go(w, J, seed, counts, deadline, 0, w, sh[w]); }
    int alive = J;
    while (alive) {
        int st; pid_t p = wait(&st); if (p < 0) break;
        int w = -1; for (int k = 0; k < J; ++k) if (pid[k] == p) w = k;
        if (w < 0) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { --alive; pid[w] = 0; continue; }
        int c = sh[w]->cur_case; long i = sh[w]->cur_index;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FOREIGN)) {
            Fail f; f.c = c; f.idx = i; f.w = w; f.b.assign(sh[w]->bytes, sh[w]->bytes + sh[w]->len);
            f.msg = describe(st, slurp(g_tmp + "/w" + std::to_string(w) + ".err"), sh[w]->msg);
            sh[w]->msg[0] = 0; sh[w]->failed = 0;
            fails.push_back(f);
            --alive; pid[w] = 0;
            for (int k = 0; k < J; ++k) if (pid[k]) kill(pid[k], SIGKILL);
            for (int k = 0; k < J; ++k) if (pid[k]) { waitpid(pid[k], &st, 0); pid[k] = 0; }
            alive = 0; break;
        }
        if (++restarts[w] > 5000) { --alive; pid[w] = 0; continue; }
        pid[w] = Sp::go(w, J, seed, counts, deadline, c, i + J, sh[w]);
    }
    double wall = now() - t0;
    long evals = 0, foreign = 0, nontriv = 0; std::map<std::string, long> labs; std::set<uint64_t>* dist = new std::set<uint64_t>; long distinct = 0;
    {   // merge hash sets
        std::vector<uint64_t> all;
        for (int w = 0; w < J; ++w) { evals += sh[w]->evals; foreign += sh[w]->foreign; nontriv += sh[w]->nontriv;
            for (int k = 0; k < sh[w]->nlab; ++k) labs[sh[w]->labname[k]] += sh[w]->labcount[k];
            for (uint32_t k = 0; k < (1u << HBITS); ++k) if (sh[w]->hset[k]) all.push_back(sh[w]->hset[k]); }
        std::sort(all.begin(), all.end()); distinct = std::unique(all.begin(), all.end()) - all.begin();
    }
    delete dist;
    // samples of this run, spread over the cases
    std::vector<std::string> samples;
    for (int k = 0; k < nsamples && fails.empty(); ++k) {
        int c = (int)((seed + k) % cases().size());
        uint8_t b[MAXB];
        for (long i = 0; i < 40; ++i) {
            long ix = (long)((seed * 7 + k * 13 + i) % std::max<long>(1, counts[c]));
            size_t n = gen_bytes(seed, c, ix, b); if (n > 60 && i < 30) continue;
            Outcome o = run_forked(c, b, n, true);
            if (!o.failed && o.trace.size() > 20) { samples.push_back(std::string(cases()[c].name) + "[" + std::to_string(ix) + "]: " + o.trace.substr(0, 1200)); break; }
        }
    }
    bool violation = false; std::string vmsg; std::string unrepro;
    if (!fails.empty()) {
        Fail f = fails[0];
        static const uint8_t z = 0; int rep = 0;
        for (int k = 0; k < 3; ++k) rep += run_forked(f.c, f.b.empty() ? &z : &f.b[0], f.b.size(), false).failed;
        if (rep == 3) {
            std::vector<uint8_t> b = shrink(f.c, f.b, 25);
            std::string err; Outcome o = run_forked(f.c, b.empty() ? &z : &b[0], b.size(), true, &err);
            if (!o.failed) { b = f.b; o = run_forked(f.c, b.empty() ? &z : &b[0], b.size(), true, &err); }
            violation = true; vmsg = o.msg.empty() ? f.msg : o.msg;
            if (!replay_out.empty()) { FILE* fp = fopen(replay_out.c_str(), "w"); if (fp) {
                fprintf(fp, "kind: bytes\ncase: %s\nseed: %llu\nindex: %ld\nbytes: %s\nmessage: %s\ntrace:\n%s\n", cases()[f.c].name, (unsigned long long)seed, f.idx, hex(b).c_str(), vmsg.c_str(), o.trace.c_str());
                if (o.crash) fprintf(fp, "stderr:\n%s\n", err.substr(0, 20000).c_str());
                fclose(fp); } }
        } else {
            // history dependent within the worker: re-run the same range
            int again = 0;
            for (int k = 0; k < 3; ++k) { Shm* s2 = new_shm(); pid_t p = Sp::go(f.w, J, seed, counts, now() + 300, 0, f.w, s2); int st; waitpid(p, &st, 0); bool fl = !(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == EXIT_FOREIGN)); again += fl; munmap(s2, sizeof(Shm)); if (!fl) break; }
            if (again == 3) {
                violation = true; vmsg = f.msg + " (reproduces when the whole worker range is replayed)";
                if (!replay_out.empty()) { FILE* fp = fopen(replay_out.c_str(), "w"); if (fp) { fprintf(fp, "kind: range\nworker: %d of %d\ncase: %s\nseed: %llu\nindex: %ld\nbytes: %s\nmessage: %s\n", f.w, J, cases()[f.c].name, (unsigned long long)seed, f.idx, hex(f.b).c_str(), vmsg.c_str()); fclose(fp); } }
            } else unrepro = f.msg;
        }
    }
    if (!out.empty()) {
        FILE* fp = fopen(out.c_str(), "w"); if (!fp) { perror(out.c_str()); return 3; }
        fprintf(fp, "{\"evaluations\":%ld,\"foreign\":%ld,\"nontrivial\":%ld,\"distinct_nontrivial\":%ld,\"wall\":%.3f,\"cases\":[", evals, foreign, nontriv, distinct, wall);
        for (size_t k = 0; k < cases().size(); ++k) fprintf(fp, "%s\"%s\"", k ? "," : "", cases()[k].name);
        fprintf(fp, "],\"labels\":{"); bool first = true;
        for (std::map<std::string, long>::iterator it = labs.begin(); it != labs.end(); ++it) { fprintf(fp, "%s\"%s\":%ld", first ? "" : ",", jesc(it->first).c_str(), it->second); first = false; }
        fprintf(fp, "},\"samples\":["); for (size_t k = 0; k < samples.size(); ++k) fprintf(fp, "%s\"%s\"", k ? "," : "", jesc(samples[k]).c_str());
        fprintf(fp, "],\"violation\":%s,\"message\":\"%s\",\"unreproduced\":\"%s\"}\n", violation ? "true" : "false", jesc(vmsg).c_str(), jesc(unrepro).c_str());
        fclose(fp);
    }
    if (violation) printf("violation: %s\n", vmsg.c_str());
    return violation ? 1 : 0;
}
} // namespace pbt

#ifdef PBT_LIBFUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    static int c = -1;
    if (c < 0) {
        const char* n = getenv("PBT_ONLY"); const char* pr = getenv("PBT_PROP");
        if (pr) pbt::g_mask = pbt::P(atoi(pr + 1));
        c = 0;
        for (size_t k = 0; n && k < pbt::cases().size(); ++k) if (!strcmp(n, pbt::cases()[k].name)) c = (int)k;
    }
    pbt::run_bytes(c, data, size);
    return 0;
}
#else
int main(int argc, char** argv) { return pbt::main_run(argc, argv); }
#endif
