// Deterministic simulation core: choice engine, event log, violations,
// fuel/coverage accounting and counters.  One seed (or one recorded choice
// list) is one exactly repeatable execution.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <functional>

typedef std::string Bytes;
typedef uint64_t u64;
typedef uint32_t u32;

static inline u64 mix64(u64 x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 0) : s(seed) {}
    u64 next() { s += 0x9e3779b97f4a7c15ULL; u64 z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
};

// ---- shared status block (mmapped file): survives a crash of the worker ----
struct Status {
    u64 magic;
    u64 run_index;
    u64 seed;
    u64 nchoices;
    u64 loghash;
    char cls[96];
    char detail[1500];
    u64 cap;
    u32 choices[1];
};
extern Status *g_st;

// ---- choices ----
u64 choose(u64 n, const char *tag);          // uniform in [0,n); 0 is simplest
static inline bool chance(u64 num, u64 den, const char *tag)
{   // true with probability num/den; recorded 0 = false
    return choose(den, tag) >= den - num;
}
// Corner seeds: sixteen runs of every search (indices CORNER0...) in which a scenario may fix a first choice,
// so that rare, expensive shapes occur in every search.  The choice is recorded like any other.
enum { CORNER0 = 40 };
int corner();                                // 0..15, or -1 for other seeds
void need_fuel(size_t n);     // drive.cc: let library calls run as long as n bytes of input may need
u64 choose_at(u64 n, const char *tag, int forced);
// weighted pick: returns index; index 0 is the simplest alternative
u64 pick(std::initializer_list<u64> w, const char *tag);
static inline u64 range(u64 lo, u64 hi, const char *tag) { return lo + choose(hi - lo + 1, tag); }

// ---- events, violations ----
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // into the log hash (and trace)
void ev_u(u64 a, u64 b = 0, u64 c = 0);       // cheap numeric event
void ev_sched(u64 a);                         // contributes to the schedule hash
extern bool g_trace;
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- counters for the evidence ----
extern std::map<std::string, u64> g_count;    // named counters ("fault.read_eio", ...)
static inline void fault(const char *kind) { g_count[std::string("fault.") + kind]++; ev("fault %s", kind); }
static inline void cnt(const char *k, u64 n = 1) { g_count[k] += n; }
void note_state(u64 h);                       // distinct-state accounting
void note_nontrivial();                       // this run is non-trivial by the property's rule
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // one-line description of the run
extern std::string g_sample;

// ---- fuel: counts library basic blocks ----
extern "C" u64 g_fuel_used, g_fuel_limit;     // per API call
extern u64 g_blocks_total;
void api_enter(const char *name);
void api_leave();
extern const char *g_api;
struct Api { explicit Api(const char *n) { api_enter(n); } ~Api() { api_leave(); } };
// crash injection: when non-zero, sim_crash_hook() is called after that many blocks
extern u64 g_crash_countdown;
extern void (*g_crash_fn)();
// preemption: called when the countdown reaches zero
extern u64 g_preempt_countdown;
extern void (*g_preempt_fn)();
size_t edges_total();
size_t edges_hit();
u64 call_hash();

// per-run
void run_begin(u64 seed, const std::vector<u32> *replay);
void run_end();
struct RunInfo { u64 loghash, schedhash, nchoices; bool nontrivial; };
extern RunInfo g_run;

typedef void (*ScenarioFn)();
struct Scenario { const char *id; ScenarioFn fn; const char *rule; };
const Scenario *find_scenario(const char *id);
#define TIER_THOROUGH (g_tier == 1)
extern int g_tier;
extern const char *g_variant;
std::string hexs(const Bytes &b, size_t max = 24);
u64 hash_bytes(const void *p, size_t n);
static inline u64 hash_bytes(const Bytes &b) { return hash_bytes(b.data(), b.size()); }
