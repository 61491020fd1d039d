// Driver: seeded search over runs, reproduction, shrinking and replay.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "core.h"
#include "seams.h"
#include "refmodel.h"
#include <cstdlib>
#include <csignal>
#include <cerrno>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <unordered_set>
#include <algorithm>

#ifndef SIM_VARIANT
#define SIM_VARIANT "?"
#endif
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif

void c01(); void c02(); void c03(); void c04(); void c05(); void c06(); void c07(); void c08(); void c09(); void c10();
void c11(); void c12(); void c13(); void c14(); void c15(); void c16(); void c17(); void c18(); void c19(); void c20(); void c21(); void c22();
bool refmodel_selftest(std::string *why);
static const Scenario SCEN[] = {
    {"C01", c01, "each run: generated basis and new file, signature arguments, interface and buffer schedule; non-trivial = the delta mixes copies and literals and more than 8 library calls were made"},
    {"C02", c02, "each run: one operation executed two or three times on the same bytes under different schedules, interfaces and heap contents; non-trivial = more than 6 library calls and more than 20 output bytes"},
    {"C03", c03, "each run: generated file, signature arguments, schedule; the stream is compared with the format reference; non-trivial = more than one block and a short last block"},
    {"C04", c04, "each run: signature (true, foreign, random, window sums, corrupted) and new file; every command of the delta is checked; non-trivial = both copies and literals in the delta"},
    {"C05", c05, "each run: as C04, compared with a greedy reference matcher; non-trivial = both copies and literals in the delta"},
    {"C06", c06, "each run: generated delta (well-formed, malformed, corrupted) and basis; non-trivial = as flagged by the scenario (at least two commands executed)"},
    {"C07", c07, "each run: a stream cut or a process killed at a chosen point; non-trivial = the cut is strictly inside the stream"},
    {"C08", c08, "each run: adversarial buffer schedules against every operation; non-trivial = starved calls occurred and more than 8 calls were made"},
    {"C09", c09, "each run: exact-size, guard-paged, misaligned, poisoned buffers; non-trivial = more than 8 calls"},
    {"C10", c10, "each run: callbacks that fail, refuse or deliver short; non-trivial = the scripted result was delivered"},
    {"C11", c11, "each run: a whole-file operation over the simulated file system with a fault plan; non-trivial = a fault actually fired"},
    {"C12", c12, "each run: the real rdiff main() as a simulated process, with a fault plan or a kill point; non-trivial = a fault fired or the process was killed"},
    {"C13", c13, "each run: rdiff processes against existing, racing, unreadable targets; non-trivial = the target existed or appeared at open time"},
    {"C14", c14, "each run: one operation with the k-th (and following) allocations failing; non-trivial = an allocation failure fired"},
    {"C15", c15, "each run: operations abandoned at a chosen call, signatures outliving jobs; non-trivial = a job was freed before it finished"},
    {"C16", c16, "each run: one operation with its statistics compared with the streams; non-trivial = more than one command or block"},
    {"C17", c17, "each run: two to four tasks preempted between basic blocks; non-trivial = at least 3 preemptions inside library calls"},
    {"C18", c18, "each run: one operation on a long stream, heap high-water mark against the bound; non-trivial = the stream is at least 8 times the buffers lent"},
    {"C19", c19, "each run: offsets or lengths beyond 2^31 or 2^32; non-trivial = the large value was reached by the library"},
    {"C20", c20, "each run: a byte string offered as signature; non-trivial = the header or contents were altered"},
    {"C21", c21, "each run: operations at a chosen log level and sink; non-trivial = at least one line reached the sink or was filtered"},
    {"C22", c22, "each run: a message cut into chunks and fed to the MD4 accumulator; non-trivial = more than two chunks"},
};
const Scenario *find_scenario(const char *id)
{
    for (auto &s : SCEN) if (!strcmp(s.id, id)) return &s;
    return nullptr;
}
extern std::unordered_set<u64> g_states;

// ---- status area
static const size_t CAP = 2000000;
static void make_status()
{
    size_t n = sizeof(Status) + CAP * 4;
    g_st = (Status *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (g_st == MAP_FAILED) { perror("mmap"); exit(2); }
    g_st->cap = CAP;
}

#ifdef HAVE_ASAN
extern "C" const char *__asan_get_report_description();
extern "C" void __asan_on_error()
{
    if (g_st->cls[0]) return;
    const char *d = __asan_get_report_description();
    snprintf(g_st->cls, sizeof g_st->cls, "memory:%s", d ? d : "error");
    snprintf(g_st->detail, sizeof g_st->detail, "memory error (%s) in %s", d ? d : "?", g_api ? g_api : "-");
}
#endif
static void on_signal(int s)
{
    if (!g_st->cls[0]) {
        snprintf(g_st->cls, sizeof g_st->cls, "signal:%d", s);
        snprintf(g_st->detail, sizeof g_st->detail, "signal %d in %s", s, g_api ? g_api : "-");
    }
    _exit(10);
}
static void on_alarm(int)
{
    snprintf(g_st->cls, sizeof g_st->cls, "harness-error");
    snprintf(g_st->detail, sizeof g_st->detail, "a run took more than its wall-clock allowance (in %s)", g_api ? g_api : "-");
    static const char m[] = "SIM-HARNESS-ERROR: run exceeded its wall-clock allowance\n";
    ssize_t r = write(2, m, sizeof m - 1); (void)r;
    _exit(12);
}
static void arm_signals()
{
    static char alt[65536];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt;
#ifndef HAVE_ASAN
    sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
#else
    signal(SIGFPE, on_signal); signal(SIGABRT, on_signal); signal(SIGILL, on_signal);
#endif
    signal(SIGALRM, on_alarm);
    signal(SIGPIPE, SIG_IGN);
}

static void one_run(const Scenario *sc, u64 idx, u64 seed, const std::vector<u32> *replay)
{
    alarm(700);
    g_st->run_index = idx;
    run_begin(seed, replay);
    sc->fn();
    run_end();
    alarm(0);
}
static u64 seed_of(const char *prop, u64 base, u64 idx)
{
    // the top 16 bits tell corner seeds (see corner() in core.h) from the others
    u64 h = mix64(mix64(base) ^ hash_bytes(prop, strlen(prop))) ^ mix64(idx * 2 + 1);
    if (idx >= CORNER0 && idx < CORNER0 + 16) return (h & 0xffffffffffffULL) | (0xc0dULL << 52) | ((idx - CORNER0) << 48);
    return (h >> 52) == 0xc0d ? h ^ (1ULL << 63) : h;
}
static double now()
{
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec / 1e9;
}
static std::string jesc(const std::string &s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}
static void dump_set(const std::string &path, const std::unordered_set<u64> &s)
{
    FILE *f = fopen(path.c_str(), "wb");
    if (!f) { perror(path.c_str()); _exit(12); }
    for (u64 x : s) fwrite(&x, 8, 1, f);
    fclose(f);
}
extern "C" void sim_edges_dump(FILE *f);

// ---- the search loop of one worker (in a child process)
static int search(const Scenario *sc, u64 base, u64 start, u64 step, u64 count, double tcap, const std::string &out, bool quiet)
{
    arm_signals();
    std::unordered_set<u64> scheds, nontriv;
    std::vector<std::string> samples;
    u64 runs = 0, choices = 0; int64_t simsec = 0;
    std::vector<std::pair<u64, u64>> hashes;
    double t0 = now(), slow = getenv("SIM_SLOW") ? atof(getenv("SIM_SLOW")) : 0;
    for (u64 i = start; i < count; i += step) {
        if (tcap > 0 && now() - t0 > tcap) break;
        u64 seed = seed_of(sc->id, base, i);
        double r0 = slow > 0 ? now() : 0;
        one_run(sc, i, seed, nullptr);
        if (slow > 0 && now() - r0 > slow) fprintf(stderr, "SLOW run=%llu seed=%llu %.2fs choices=%llu: %s\n", (unsigned long long)i, (unsigned long long)g_st->seed, now() - r0, (unsigned long long)g_run.nchoices, g_sample.c_str());
        runs++;
        choices += g_run.nchoices;
        simsec += g_clock_advanced > 0 ? g_clock_advanced : 0;
        scheds.insert(g_run.schedhash);
        if (runs <= 400) hashes.push_back({i, g_run.loghash});
        if (g_run.nontrivial) {
            nontriv.insert(g_run.loghash);
            if (samples.size() < 3 || (samples.size() < 6 && runs % 97 == 0)) samples.push_back("seed " + std::to_string(seed) + ": " + g_sample);
        }
    }
    if (quiet) return 0;
    FILE *f = fopen((out + ".json").c_str(), "w");
    if (!f) _exit(12);
    fprintf(f, "{\"runs\":%llu,\"choices\":%llu,\"sim_seconds\":%lld,\"blocks\":%llu,\"edges_total\":%zu,\"wall\":%.3f,\"counters\":{",
            (unsigned long long)runs, (unsigned long long)choices, (long long)simsec, (unsigned long long)g_blocks_total, edges_total(), now() - t0);
    bool first = true;
    for (auto &e : g_count) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(e.first).c_str(), (unsigned long long)e.second); first = false; }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto &s : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
    fprintf(f, "],\"hashes\":{");
    first = true;
    for (auto &h : hashes) { fprintf(f, "%s\"%llu\":\"%016llx\"", first ? "" : ",", (unsigned long long)h.first, (unsigned long long)h.second); first = false; }
    fprintf(f, "},\"edges\":\"");
    sim_edges_dump(f);
    fprintf(f, "\"}\n");
    fclose(f);
    dump_set(out + ".states", g_states);
    dump_set(out + ".scheds", scheds);
    dump_set(out + ".nontriv", nontriv);
    return 0;
}

// ---- reproduction in a fresh child
struct Outcome { int code; std::string cls, detail; u64 loghash, nchoices; };
static Outcome attempt(const Scenario *sc, u64 seed, const std::vector<u32> *rep, bool silent)
{
    g_st->cls[0] = 0; g_st->detail[0] = 0; g_st->loghash = 0; g_st->nchoices = 0;
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) {
        if (silent) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); }
        arm_signals();
        one_run(sc, 0, seed, rep);
        _exit(0);
    }
    int st; waitpid(p, &st, 0);
    Outcome o;
    o.code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    o.cls = g_st->cls; o.detail = g_st->detail; o.loghash = g_st->loghash; o.nchoices = g_st->nchoices;
    if (o.code && o.cls.empty()) o.cls = "exit:" + std::to_string(o.code);
    return o;
}

static std::vector<u32> shrink(const Scenario *sc, u64 seed, std::vector<u32> best, const std::string &cls, double budget, u64 &tries)
{
    double t0 = now();
    auto ok = [&](const std::vector<u32> &c) { tries++; Outcome o = attempt(sc, seed, &c, true); return o.code != 0 && o.code != 12 && o.cls == cls; };
    auto over = [&] { return now() - t0 > budget || tries > 3000; };
    auto strip = [&] { while (!best.empty() && best.back() == 0) best.pop_back(); };
    strip();
    bool progress = true;
    while (progress && !over()) {
        progress = false;
        // cut the tail (the rest of the choices become 0)
        for (size_t cut = best.size() / 2; cut >= 1 && !over(); cut /= 2) {
            while (best.size() >= cut && !over()) {
                std::vector<u32> c(best.begin(), best.end() - (long)cut);
                if (!ok(c)) break;
                best.swap(c); strip(); progress = true;
            }
        }
        // delete, then zero, chunks
        for (int mode = 0; mode < 2; mode++)
            for (size_t w = std::max<size_t>(best.size() / 2, 1); w >= 1 && !over(); w /= 2) {
                for (size_t i = 0; i + w <= best.size() && !over();) {
                    std::vector<u32> c = best;
                    if (mode == 0) c.erase(c.begin() + (long)i, c.begin() + (long)(i + w));
                    else {
                        bool any = false;
                        for (size_t k = i; k < i + w; k++) { any |= c[k] != 0; c[k] = 0; }
                        if (!any) { i += w; continue; }
                    }
                    if (ok(c)) { best.swap(c); progress = true; if (mode == 1) i += w; }
                    else i += w;
                }
                if (w == 1) break;
            }
        strip();
        // smaller values
        for (size_t i = 0; i < best.size() && !over(); i++)
            for (u32 v = best[i]; v > 0 && !over();) {
                std::vector<u32> c = best;
                u32 nv = v / 2;
                c[i] = nv;
                if (ok(c)) { best.swap(c); v = nv; progress = true; }
                else if (v > 1 && (c[i] = v - 1, ok(c))) { best.swap(c); v = v - 1; progress = true; if (best[i] > 64) break; }
                else break;
            }
        strip();
    }
    return best;
}

static void write_replay(const std::string &path, const char *prop, u64 seed, const Outcome &o, const std::vector<u32> &c, size_t orig, u64 tries, const std::string &extra)
{
    FILE *f = fopen(path.c_str(), "w");
    if (!f) { perror(path.c_str()); exit(2); }
    fprintf(f, "librsync-sim-replay 1\nproperty %s\nvariant %s\ntier %d\nseed %llu\nclass %s\nloghash %016llx\ndetail %s\n", prop, SIM_VARIANT, g_tier,
            (unsigned long long)seed, o.cls.c_str(), (unsigned long long)o.loghash, o.detail.c_str());
    fprintf(f, "shrunk_from %zu choices in %llu attempts\n%schoices %zu", orig, (unsigned long long)tries, extra.c_str(), c.size());
    for (u32 v : c) fprintf(f, " %u", v);
    fprintf(f, "\nend\n");
    fclose(f);
}

static int cmd_worker(int argc, char **argv)
{
    // worker PROP base start step count tcap tier out
    if (argc < 10) return 2;
    const Scenario *sc = find_scenario(argv[2]);
    if (!sc) return 2;
    u64 base = strtoull(argv[3], 0, 10), start = strtoull(argv[4], 0, 10), step = strtoull(argv[5], 0, 10), count = strtoull(argv[6], 0, 10);
    double tcap = atof(argv[7]);
    g_tier = atoi(argv[8]);
    std::string out = argv[9];
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) { search(sc, base, start, step, count, tcap, out, false); fflush(nullptr); _exit(0); }
    int st; waitpid(p, &st, 0);
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    if (code == 0) return 0;
    std::string cls = g_st->cls, detail = g_st->detail;
    u64 seed = g_st->seed, idx = g_st->run_index, lh = g_st->loghash;
    std::vector<u32> ch(g_st->choices, g_st->choices + std::min<u64>(g_st->nchoices, CAP));
    if (cls == "harness-error" || code == 12) { fprintf(stderr, "harness error in %s run %llu seed %llu: %s\n", sc->id, (unsigned long long)idx, (unsigned long long)seed, detail.c_str()); return 2; }
    if (cls.empty()) cls = "exit:" + std::to_string(code);
    fprintf(stderr, "violation candidate %s run=%llu seed=%llu class=%s: %s\n", sc->id, (unsigned long long)idx, (unsigned long long)seed, cls.c_str(), detail.c_str());
    // marker so that the parent lets this worker finish
    { FILE *f = fopen((out + ".cand").c_str(), "w"); if (f) { fprintf(f, "%llu\n", (unsigned long long)idx); fclose(f); } }
    Outcome again = attempt(sc, seed, nullptr, true);
    if (again.code == 0 || again.code == 12 || again.cls != cls) {
        // The failure needs the history of this worker: replay the range.
        std::string extra = "range " + std::to_string(base) + " " + std::to_string(start) + " " + std::to_string(step) + " " + std::to_string(idx) + "\n";
        Outcome o; o.cls = cls; o.detail = detail; o.loghash = lh; o.code = code;
        write_replay(out + ".replay", sc->id, seed, o, ch, ch.size(), 0, extra);
        fprintf(stderr, "note: fresh run of the seed gives code=%d class=%s; keeping the whole range as replay\n", again.code, again.cls.c_str());
        return 1;
    }
    bool same = again.loghash == lh || code == 11;
    if (!same) fprintf(stderr, "note: log hash differs on the fresh run (%016llx / %016llx)\n", (unsigned long long)lh, (unsigned long long)again.loghash);
    ch.assign(g_st->choices, g_st->choices + std::min<u64>(again.nchoices, CAP));
    u64 tries = 0;
    std::vector<u32> best = shrink(sc, seed, ch, cls, g_tier ? 120 : 25, tries);
    Outcome fin = attempt(sc, seed, &best, true);
    if (fin.code == 0 || fin.cls != cls) { best = ch; fin = attempt(sc, seed, &best, true); }
    write_replay(out + ".replay", sc->id, seed, fin, best, ch.size(), tries, "");
    return 1;
}

static int cmd_replay(const char *path, bool trace)
{
    FILE *f = fopen(path, "r");
    if (!f) { perror(path); return 2; }
    static char line[1 << 24];
    std::string prop, cls; u64 seed = 0, lh = 0; std::vector<u32> c; bool range = false; u64 rb = 0, rs = 0, rt = 1, ri = 0;
    while (fgets(line, sizeof line, f)) {
        char a[200];
        unsigned long long x, y, z, w;
        if (sscanf(line, "property %199s", a) == 1) prop = a;
        else if (!strncmp(line, "class ", 6)) { cls = line + 6; if (!cls.empty() && cls.back() == '\n') cls.pop_back(); }
        else if (sscanf(line, "seed %llu", &x) == 1) seed = x;
        else if (sscanf(line, "tier %llu", &x) == 1) g_tier = (int)x;
        else if (sscanf(line, "loghash %llx", &x) == 1) lh = x;
        else if (sscanf(line, "range %llu %llu %llu %llu", &x, &y, &z, &w) == 4) { range = true; rb = x; rs = y; rt = z; ri = w; }
        else if (!strncmp(line, "choices ", 8)) {
            char *e = line + 8; size_t n = strtoull(e, &e, 10);
            for (size_t i = 0; i < n; i++) c.push_back((u32)strtoul(e, &e, 10));
        }
    }
    fclose(f);
    const Scenario *sc = find_scenario(prop.c_str());
    if (!sc) { fprintf(stderr, "bad replay file\n"); return 2; }
    Outcome o;
    if (range) {
        g_st->cls[0] = 0;
        pid_t p = fork();
        if (p == 0) { search(sc, rb, rs, rt, ri + 1, 0, "", true); _exit(0); }
        int st; waitpid(p, &st, 0);
        o.code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
        o.cls = g_st->cls; o.detail = g_st->detail; o.loghash = g_st->loghash;
        if (o.code && o.cls.empty()) o.cls = "exit:" + std::to_string(o.code);
    } else {
        g_trace = trace;
        o = attempt(sc, seed, &c, false);
    }
    bool rep = o.code != 0 && o.code != 12 && o.cls == cls;
    printf("REPLAY property=%s class=%s reproduced=%s loghash=%016llx %s\n  %s\n", prop.c_str(), o.cls.c_str(), rep ? "yes" : "no",
           (unsigned long long)o.loghash, o.loghash == lh ? "identical" : "differs", o.detail.c_str());
    return rep ? 1 : 0;
}

int main(int argc, char **argv)
{
    g_variant = SIM_VARIANT;
    int per = personality(0xffffffff);
    if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        setenv("SIM_REEXEC", "1", 1);
        if (personality((unsigned long)per | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    make_status();
    seams_init();
    if (argc >= 2 && !strcmp(argv[1], "selftest")) {
        std::string why;
        bool ok = refmodel_selftest(&why);
        printf("selftest %s %s\n", ok ? "ok" : "FAILED", why.c_str());
        return ok ? 0 : 2;
    }
    if (argc >= 3 && !strcmp(argv[1], "worker")) return cmd_worker(argc, argv);
    if (argc >= 3 && !strcmp(argv[1], "replay")) return cmd_replay(argv[2], argc > 3);
    if (argc >= 4 && !strcmp(argv[1], "one")) {     // one PROP seed [trace]
        const Scenario *sc = find_scenario(argv[2]);
        if (!sc) return 2;
        arm_signals();
        g_trace = argc > 4;
        one_run(sc, 0, strtoull(argv[3], 0, 10), nullptr);
        printf("ok loghash=%016llx choices=%llu blocks=%llu %s\n", (unsigned long long)g_run.loghash, (unsigned long long)g_run.nchoices, (unsigned long long)g_blocks_total, g_sample.c_str());
        return 0;
    }
    fprintf(stderr, "usage: sim worker PROP base start step count tcap tier out | replay FILE [trace] | one PROP seed [trace] | selftest\n");
    return 2;
}
