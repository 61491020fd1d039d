#include "core.h"
#include "seams.h"
#include <unistd.h>
#include <unordered_set>
#include <algorithm>

Status *g_st;
bool g_trace;
std::map<std::string, u64> g_count;
std::string g_sample;
u64 g_blocks_total;
extern "C" { u64 g_fuel_used, g_fuel_limit = 0; }
u64 g_crash_countdown, g_preempt_countdown;
void (*g_crash_fn)();
void (*g_preempt_fn)();
const char *g_api;
RunInfo g_run;
int g_tier;
const char *g_variant = "?";

static Rng g_rng;
static const std::vector<u32> *g_replay;
static u64 g_loghash, g_schedhash;
std::unordered_set<u64> g_states;

u64 hash_bytes(const void *p, size_t n)
{
    const unsigned char *c = (const unsigned char *)p;
    u64 h = 0xcbf29ce484222325ULL ^ n;
    while (n >= 8) { u64 w; memcpy(&w, c, 8); h = mix64(h ^ w); c += 8; n -= 8; }
    u64 w = 0; memcpy(&w, c, n);
    return mix64(h ^ w ^ ((u64)n << 56));
}

int corner() { return (g_st->seed >> 52) == 0xc0d ? (int)(g_st->seed >> 48 & 15) : -1; }
u64 choose(u64 n, const char *tag) { return choose_at(n, tag, -1); }
u64 choose_at(u64 n, const char *tag, int forced)
{
    if (n <= 1) return 0;
    if (n > 0xffffffffULL) harness_error("choose range too large (%s)", tag);
    u64 idx = g_st->nchoices, v;
    if (idx >= g_st->cap) {      // beyond what a replay file holds: decided by the position alone, so a replay agrees
        v = mix64(idx * 0x9e3779b97f4a7c15ULL) % n;
    } else if (g_replay) {
        v = idx < g_replay->size() ? (*g_replay)[idx] : 0;
        if (v >= n) v = v % n;
    } else {
        v = g_rng.below(n);
        if (forced >= 0) v = (u64)forced;
    }
    if (idx < g_st->cap) g_st->choices[idx] = (u32)v;
    g_st->nchoices = idx + 1;
    g_loghash = mix64(g_loghash ^ v ^ (n << 32));
    if (g_trace) fprintf(stderr, "  choice #%llu %s = %llu / %llu\n", (unsigned long long)idx, tag,
                         (unsigned long long)v, (unsigned long long)n);
    return v;
}

u64 pick(std::initializer_list<u64> w, const char *tag)
{
    u64 tot = 0;
    for (u64 x : w) tot += x;
    u64 v = choose(tot, tag), i = 0;
    for (u64 x : w) { if (v < x) return i; v -= x; i++; }
    return 0;
}

void ev(const char *fmt, ...)
{
    char b[600];
    va_list va; va_start(va, fmt);
    int n = vsnprintf(b, sizeof b, fmt, va);
    va_end(va);
    if (n < 0) n = 0;
    if (n >= (int)sizeof b) n = sizeof b - 1;
    g_loghash = mix64(g_loghash ^ hash_bytes(b, n));
    if (g_trace) fprintf(stderr, "%s\n", b);
}

void ev_u(u64 a, u64 b, u64 c)
{
    g_loghash = mix64(mix64(mix64(g_loghash ^ a) ^ b) ^ c);
    if (g_trace) fprintf(stderr, "  ev %llu %llu %llu\n", (unsigned long long)a, (unsigned long long)b, (unsigned long long)c);
}
void ev_sched(u64 a) { g_schedhash = mix64(g_schedhash ^ a); }

void note_state(u64 h) { if (g_states.size() < 4000000) g_states.insert(h); }
void note_nontrivial() { g_run.nontrivial = true; }
void sample(const char *fmt, ...)
{
    char b[700];
    va_list va; va_start(va, fmt); vsnprintf(b, sizeof b, fmt, va); va_end(va);
    g_sample = b;
}

void fail(const char *cls, const char *fmt, ...)
{
    seams_off();
    char b[1400];
    va_list va; va_start(va, fmt); vsnprintf(b, sizeof b, fmt, va); va_end(va);
    snprintf(g_st->cls, sizeof g_st->cls, "%s", cls);
    snprintf(g_st->detail, sizeof g_st->detail, "%s%s%s%s", b, g_api ? " [in " : "", g_api ? g_api : "", g_api ? "]" : "");
    g_st->loghash = g_loghash;
    fprintf(stderr, "SIM-VIOLATION class=%s run=%llu seed=%llu loghash=%016llx: %s\n", cls,
            (unsigned long long)g_st->run_index, (unsigned long long)g_st->seed,
            (unsigned long long)g_loghash, g_st->detail);
    fflush(stderr);
    _exit(10);
}

void harness_error(const char *fmt, ...)
{
    seams_off();
    char b[1400];
    va_list va; va_start(va, fmt); vsnprintf(b, sizeof b, fmt, va); va_end(va);
    snprintf(g_st->cls, sizeof g_st->cls, "harness-error");
    snprintf(g_st->detail, sizeof g_st->detail, "%s", b);
    fprintf(stderr, "SIM-HARNESS-ERROR seed=%llu: %s\n", (unsigned long long)g_st->seed, b);
    fflush(stderr);
    _exit(12);
}

// ---------------- coverage / fuel ----------------
static u32 *g_epoch;          // per guard: last call epoch it was hit in
static unsigned char *g_hit;
static u32 g_nguards, g_cur_epoch = 1;
static u64 g_callhash;
static u64 g_sched_next;      // next block index at which something must happen
static u64 g_blocks_call;

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop)
{
    if (start == stop || *start) return;
    u32 old = g_nguards;
    for (uint32_t *x = start; x < stop; x++) *x = ++g_nguards;
    u32 *ne = (u32 *)calloc(g_nguards + 1, 4);
    unsigned char *nh = (unsigned char *)calloc(g_nguards + 1, 1);
    if (old) { memcpy(ne, g_epoch, 4 * (old + 1)); memcpy(nh, g_hit, old + 1); }
    g_epoch = ne; g_hit = nh;
}

static __attribute__((noinline)) void guard_slow()
{
    if (g_api && g_fuel_limit && g_blocks_call > g_fuel_limit)
        fail("hang", "a library call executed more than %llu basic blocks without returning", (unsigned long long)g_fuel_limit);
}

extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *guard)
{
    u32 g = *guard;
    if (!g) return;
    if (g_epoch[g] != g_cur_epoch) {
        g_epoch[g] = g_cur_epoch;
        g_callhash += mix64(g);
        g_hit[g] = 1;
    }
    if ((++g_blocks_call & 0xffff) == 0) guard_slow();
    if (g_crash_countdown && g_api && --g_crash_countdown == 0) {
        if (g_crash_fn) g_crash_fn();
    }
    if (g_preempt_countdown && --g_preempt_countdown == 0 && g_preempt_fn) g_preempt_fn();
}

size_t edges_total() { return g_nguards; }
size_t edges_hit() { size_t n = 0; for (u32 i = 1; i <= g_nguards; i++) n += g_hit[i]; return n; }
u64 call_hash() { return g_callhash; }
extern "C" void sim_edges_dump(FILE *f) { for (u32 i = 1; i <= g_nguards; i++) fputc(g_hit[i] ? '1' : '0', f); }

void api_enter(const char *name)
{
    g_api = name;
    g_cur_epoch++;
    g_callhash = hash_bytes(name, strlen(name));
    g_blocks_total += g_blocks_call;
    g_blocks_call = 0;
}
void api_leave() { g_api = nullptr; g_blocks_total += g_blocks_call; g_blocks_call = 0; note_state(g_callhash); }

void run_begin(u64 seed, const std::vector<u32> *replay)
{
    g_rng = Rng(mix64(seed));
    g_replay = replay;
    g_st->seed = seed;
    g_st->nchoices = 0;
    g_st->cls[0] = g_st->detail[0] = 0;
    g_loghash = 0x1234; g_schedhash = 0;
    g_run = RunInfo();
    g_sample.clear();
    g_api = nullptr;
    g_crash_countdown = 0; g_crash_fn = nullptr;
    g_preempt_countdown = 0; g_preempt_fn = nullptr;
    g_fuel_limit = 300000000ULL;
    seams_reset();
}

void run_end()
{
    g_run.loghash = g_loghash;
    g_run.schedhash = g_schedhash;
    g_run.nchoices = g_st->nchoices;
    g_st->loghash = g_loghash;
    seams_off();
}

std::string hexs(const Bytes &b, size_t max)
{
    std::string r; char t[4];
    for (size_t i = 0; i < b.size() && i < max; i++) { snprintf(t, 4, "%02x", (unsigned char)b[i]); r += t; }
    if (b.size() > max) r += "...";
    return r;
}
