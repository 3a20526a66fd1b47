// Native execution of the contracts against the real code: seeded search and replay of verifier models.
#include <exception>
#include "vc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <map>
#include <set>
#include <cmath>
#include <algorithm>
#include <cfloat>
#include <random>
#include <unistd.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

struct Entry { const char* name; void (*fn)(); bool bounded; };
static std::vector<Entry>& table() { static std::vector<Entry> t; return t; }
VcReg::VcReg(const char* n, void (*f)(), bool b) { table().push_back({n, f, b}); }

struct vc_discard {};
struct Shared
{
    long cases, ran, discarded, asserts, covers, nvals;
    int failed;
    char fail[256];
    double vals[8192];
    char kinds[8192];
    unsigned long long hashes;
};
static Shared* S;
static std::mt19937_64 rng;
static std::vector<float> recent;
static bool replaying = false;
static std::vector<double> replayVals;
static std::size_t replayPos;
static std::vector<void*> bufs;
static std::map<std::string, long> coverCount;
static bool coverBits[256];
static std::vector<std::string> coverNames;

static void record(char k, double v)
{
    if (S->nvals < 8192) { S->vals[S->nvals] = v; S->kinds[S->nvals] = k; }
    S->nvals++;
}
static bool next(double& v)
{
    if (!replaying) return false;
    if (replayPos >= replayVals.size()) return false; // natively-only choices after the recorded ones are drawn afresh
    v = replayVals[replayPos++];
    return true;
}
static double uni() { return std::uniform_real_distribution<double>(0., 1.)(rng); }
static unsigned long long r64() { return rng(); }

extern "C" {
bool vc_proof() { return false; }
float vc_any()
{
    double v;
    if (next(v)) { float f = (float)v; if (!std::isfinite(f)) throw vc_discard{}; record('a', f); return f; }
    float f;
    int k = r64() % 20;
    if (k < 5 && !recent.empty())
    {
        f = recent[r64() % recent.size()];
        if (k == 3) f = std::nextafter(f, INFINITY);
        if (k == 4) f = std::nextafter(f, -INFINITY);
        if (!std::isfinite(f)) f = 0;
    }
    else if (k < 8) f = (float)((int)(r64() % 9) - 4);
    else if (k < 10) f = ((int)(r64() % 65) - 32) / 4.f;
    else if (k < 14) f = (float)((uni() - 0.5) * 20);
    else if (k < 16) f = std::ldexp((float)(uni() - 0.5), (int)(r64() % 60) - 30);
    else if (k < 18)
    {
        do { uint32_t b = (uint32_t)r64(); std::memcpy(&f, &b, 4); } while (!std::isfinite(f));
    }
    else
    {
        static const float sp[] = {0.f, -0.f, FLT_MAX, -FLT_MAX, FLT_MIN, -FLT_MIN, FLT_TRUE_MIN, 1e30f, -1e30f, 1.f, 16777216.f, 16777218.f, -16777216.f};
        f = sp[r64() % 13];
    }
    recent.push_back(f);
    record('a', f);
    return f;
}
float vc_real()
{
    double v;
    if (next(v)) { float f = (float)v; if (!std::isfinite(f)) throw vc_discard{}; record('r', f); return f; }
    float f;
    int k = r64() % 20;
    if (k < 3 && !recent.empty()) f = recent[r64() % recent.size()];
    else if (k < 8) f = (float)((int)(r64() % 9) - 4);
    else if (k < 12) f = ((int)(r64() % 65) - 32) / 4.f;
    else f = (float)((uni() - 0.5) * 20);
    recent.push_back(f);
    record('r', f);
    return f;
}
float vc_range(float lo, float hi)
{
    double v;
    if (next(v)) { float f = (float)v; if (!(f >= lo && f <= hi)) throw vc_discard{}; record('g', f); return f; }
    float f;
    int k = r64() % 20;
    if (k == 0) f = lo;
    else if (k == 1) f = hi;
    else if (k < 5) { f = std::floor(lo + (hi - lo) * (float)uni()); if (!(f >= lo)) f = lo; }
    else { f = (float)(lo + ((double)hi - lo) * uni()); if (f < lo) f = lo; if (f > hi) f = hi; }
    record('g', f);
    return f;
}
float vc_num(float lo, float hi)
{
    double v;
    if (next(v)) { float f = (float)v; if (!(std::abs(f) <= 100 * std::max(std::abs(lo), std::abs(hi)))) throw vc_discard{}; record('m', f); return f; }
    float f;
    int k = r64() % 20;
    if (k == 0) f = lo;
    else if (k == 1) f = hi;
    else if (k < 5) { f = std::floor(lo + (hi - lo) * (float)uni()); if (!(f >= lo)) f = lo; }
    else { f = (float)(lo + ((double)hi - lo) * uni()); if (f < lo) f = lo; if (f > hi) f = hi; }
    record('m', f);
    return f;
}
int vc_int(int lo, int hi)
{
    double v;
    if (next(v)) { int i = (int)v; if (i < lo || i > hi) throw vc_discard{}; record('i', i); return i; }
    int i = lo + (int)(r64() % (unsigned long long)((long long)hi - lo + 1));
    record('i', i);
    return i;
}
std::size_t vc_size(std::size_t lo, std::size_t hi)
{
    double v;
    if (next(v)) { if (v < lo || v > 4000) throw vc_discard{}; record('n', v); return (std::size_t)v; }
    std::size_t n = lo + r64() % (hi - lo + 1);
    record('n', (double)n);
    return n;
}
bool vc_bool()
{
    double v;
    if (next(v)) { record('b', v != 0); return v != 0; }
    bool b = r64() & 1;
    record('b', b);
    return b;
}
float* vc_floats(std::size_t n, std::size_t per)
{
    float* p = (float*)std::malloc(n * per * sizeof(float)); // exact size: ASAN sees any overrun
    bufs.push_back(p);
    for (std::size_t i = 0; i < n * per; ++i) p[i] = vc_real();
    return p;
}
void vc_assume(bool c) { if (!c) throw vc_discard{}; }
static void fail(const char* name)
{
    std::snprintf(S->fail, sizeof S->fail, "%s", name);
    S->failed = 1;
    _exit(3);
}
void vc_assert_at(bool c, const char* name) { S->asserts++; if (!c) fail(name); }
void vc_eq_at(float a, float b, float scale, const char* name)
{
    S->asserts++;
    double tol = 4e-6 * (std::fabs((double)scale) + std::fabs((double)a) + std::fabs((double)b));
    if (a == b) return;
    if (!(std::fabs((double)a - b) <= tol)) fail(name);
}
void vc_le_at(float a, float b, float scale, const char* name)
{
    S->asserts++;
    double tol = 4e-6 * (std::fabs((double)scale) + std::fabs((double)a) + std::fabs((double)b));
    if (!((double)a <= b + tol)) fail(name);
}
void vc_cover_at(const char* name) { S->covers++; }
}

static bool runOne(void (*fn)())
{
    S->nvals = 0;
    recent.clear();
    bool ok = true;
    try { fn(); }
    catch (const vc_discard&) { ok = false; }
    catch (const std::exception& e)
    {
        char m[200];
        std::snprintf(m, sizeof m, "no-unexpected-exception: %s", e.what());
        fail(m);
    }
    for (void* b : bufs) std::free(b);
    bufs.clear();
    return ok;
}

int main(int argc, char** argv)
{
    if (argc < 2) return 2;
    if (!std::strcmp(argv[1], "--list"))
    {
        for (auto& e : table()) std::printf("%s %d\n", e.name, (int)e.bounded);
        return 0;
    }
    // runner CONTRACT cases seed out seconds   |   runner CONTRACT --replay file
    Entry* E = nullptr;
    for (auto& e : table()) if (!std::strcmp(e.name, argv[1])) E = &e;
    if (!E) { std::fprintf(stderr, "no contract %s\n", argv[1]); return 2; }
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::memset(S, 0, sizeof(Shared));
    if (argc >= 4 && !std::strcmp(argv[2], "--replay"))
    {
        FILE* f = std::fopen(argv[3], "r");
        if (!f) return 2;
        char line[512];
        while (std::fgets(line, sizeof line, f))
        {
            char k; char num[200];
            if (line[0] == '#' ) continue;
            if (std::sscanf(line, "%c %199s", &k, num) == 2) replayVals.push_back(std::strtod(num, nullptr));
        }
        std::fclose(f);
        replaying = true;
        pid_t p = fork();
        if (!p) { alarm(20); bool ok = runOne(E->fn); _exit(ok ? 0 : 4); }
        int st; waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { std::printf("HOLDS %s\n", E->name); return 0; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 4) { std::printf("DISCARDED %s\n", E->name); return 4; }
        if (!S->failed) std::snprintf(S->fail, sizeof S->fail, WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "hang" : "crash (sanitizer/abort/signal)");
        std::printf("FAIL %s %s\n", E->name, S->fail);
        return 1;
    }
    long cases = std::atol(argv[2]);
    unsigned long seed = std::strtoul(argv[3], nullptr, 10);
    const char* out = argv[4];
    double secs = argc > 5 ? std::atof(argv[5]) : 20;
    std::string samples;
    pid_t p = fork();
    if (!p)
    {
        struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
        std::set<unsigned long long> seen;
        for (long i = 0; i < cases; ++i)
        {
            rng.seed(seed * 1000003ull + i);
            S->cases = i;
            alarm(30);
            bool ok = runOne(E->fn);
            if (ok)
            {
                S->ran++;
                unsigned long long h = 1469598103934665603ull;
                for (long j = 0; j < S->nvals && j < 8192; ++j) { unsigned long long b; std::memcpy(&b, &S->vals[j], 8); h = (h ^ b) * 1099511628211ull; }
                if (seen.size() < 2000000) seen.insert(h);
                S->hashes = seen.size();
            }
            else S->discarded++;
            if ((i & 63) == 0)
            {
                struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
                if (t.tv_sec - t0.tv_sec > secs) break;
            }
        }
        _exit(0);
    }
    int st; waitpid(p, &st, 0);
    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    std::printf("RAN %ld DISCARDED %ld DISTINCT %llu ASSERTS %ld COVERS %ld\n", S->ran, S->discarded, S->hashes, S->asserts, S->covers);
    std::printf("SAMPLE");
    for (long j = 0; j < S->nvals && j < 24; ++j) std::printf(" %c=%.9g", S->kinds[j], S->vals[j]);
    std::printf("\n");
    if (bad)
    {
        if (!S->failed) std::snprintf(S->fail, sizeof S->fail, WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "hang" : "crash (sanitizer/abort/signal)");
        FILE* f = std::fopen(out, "w");
        if (f)
        {
            std::fprintf(f, "# contract %s\n# failed %s\n# seed %lu case %ld\n", E->name, S->fail, seed, S->cases);
            for (long j = 0; j < S->nvals && j < 8192; ++j) std::fprintf(f, "%c %.17g\n", S->kinds[j], S->vals[j]);
            std::fclose(f);
        }
        std::printf("FAIL %s %s\n", E->name, S->fail);
        return 1;
    }
    return 0;
}
