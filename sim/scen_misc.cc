// Scenarios: allocation failure, isolation of interleaved tasks, memory
// bounds, values beyond 2^31/2^32, logging, the MD4 accumulator.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "drive.h"
#include <cstdlib>
#include <algorithm>
#include <unistd.h>
#include <ucontext.h>
#include <sys/mman.h>
#define ULL(x) ((unsigned long long)(x))
static const char *MODE[] = {"stream", "pull", "file"};
static void begin_run() { quiet_logs(); g_alloc.fill = choose(65536, "fill"); }
static Bytes greedy_delta(const RefSig &rs, const Bytes &nf)
{
    Bytes d; put_be(d, M_DELTA, 4);
    GreedyResult g = ref_greedy(rs, nf);
    size_t p = 0;
    for (auto &c : g.cmds) { if (c.kind == K_LIT) { d += enc_lit_hdr(c.len); d += nf.substr(p, c.len); } else d += enc_copy(c.pos, c.len); p += c.len; }
    d.push_back(0);
    return d;
}

// ------------------------------------------------------------------ C14
void c14()
{
    begin_run();
    SigArgs a = gen_sigargs(); if (a.strong_len < 8) a.strong_len = 8;
    bool manyb = chance(1, 60, "manyblocks");      // the table of block sums is grown many times while loading
    if (manyb) a.block_len = 12 + choose(20, "bl");
    Pair P = gen_pair(a.magic, a.block_len, choose(3, "small") ? 600 : 30000, false);
    if (manyb) { P.basis.assign(a.block_len * (4000 + choose(8000, "mb")), 0); Rng r(choose(0xffffffff, "mseed")); for (auto &c : P.basis) c = (char)r.next(); P.nf = P.basis.substr(P.basis.size() / 2, 40000) + "tail" + P.basis.substr(P.basis.size() - 20000); }
    RefSig rs = ref_sig_make(a.magic, a.block_len, a.strong_len, P.basis);
    Bytes sg = ref_sig_encode(rs), dl = greedy_delta(rs, P.nf);
    int op = manyb ? 1 + (int)choose(2, "op") : (int)choose(6, "op");       // sig load build delta patch rdiff
    Mode m = gen_mode();
    u64 k = choose(3, "kk") ? 1 + choose(5, "k") : 1 + choose(24, "k");
    bool forever = chance(1, 2, "forever");
    static const char *OP[] = {"signature", "loadsig", "rs_build_hash_table", "delta", "patch", "rdiff"};
    if (op == 5) {
        fs_put("basis", P.basis); fs_put("new", P.nf); fs_put("sig", sg); fs_put("delta", dl);
        int st = (int)choose(3, "stage");
        ProcSpec ps;
        if (st == 0) ps.argv = {"rdiff", magic_is_md4(a.magic) ? "-Hmd4" : "-Hblake2", magic_is_rk(a.magic) ? "-Rrabinkarp" : "-Rrollsum", "-b" + std::to_string(a.block_len), "-S" + std::to_string(a.strong_len), "signature", "basis", "out"};
        else if (st == 1) ps.argv = {"rdiff", "delta", "sig", "new", "out"};
        else ps.argv = {"rdiff", "patch", "basis", "delta", "out"};
        if (choose(2, "stats")) ps.argv.insert(ps.argv.begin() + 1, "-s");
        if (chance(1, 4, "verbose")) ps.argv.insert(ps.argv.begin() + 1, "-v");
        g_alloc.fail_at = g_alloc.count + k; g_alloc.fail_len = forever ? 1u << 30 : 1;
        u64 f0 = g_alloc.fired;
        ProcResult r = run_rdiff(ps);
        bool fired = g_alloc.fired != f0;
        g_alloc.fail_at = 0;
        InodeP of = fs_get("out"); Bytes got = of ? of->data : Bytes();
        if (!fired && (r.aborted || r.status)) fail("failed-without-fault", "rdiff %s failed without an allocation failure", ps.argv.back().c_str());
        if (r.aborted && r.err.empty()) fail("silent-abort", "rdiff aborted on an allocation failure without a message");
        if (!r.aborted && r.status == 0) {
            bool ok = st == 0 ? got == sg : st == 2 ? got == P.nf : false;
            if (st == 1) { Bytes w; ok = ref_delta_parse(got).result == RefDelta::DONE && ref_patch(got, P.basis, &w) == RS_DONE && w == P.nf; }
            if (!ok) fail("alloc-fault-result", "rdiff stage %d exited with status 0 after an allocation failure but its output is wrong", st);
        }
        if (fired) note_nontrivial();
        sample("rdiff stage %d allocation #%llu%s fails: aborted=%d status=%d", st, ULL(k), forever ? "+" : "", r.aborted, r.status);
        return;
    }
    rs_signature_t *s = nullptr;
    if (op == 3) s = load_ok(sg);
    if (op == 2) { OpRes l = do_load(sg, &s, STREAM); if (l.r) fail("load-failed", "loadsig returned %s", rsname(l.r)); }
    g_log_minlevel = 99;
    size_t live0 = g_alloc.live_count;
    g_alloc.fail_at = g_alloc.count + k; g_alloc.fail_len = forever ? 1u << 30 : 1;
    u64 f0 = g_alloc.fired;
    bool aborted = false; OpRes o{}; o.r = -1;
    g_abort_throw = true;
    try {
        switch (op) {
        case 0: o = do_sig(P.basis, a, m); break;
        case 1: o = do_load(sg, &s, m); break;
        case 2: o.r = build_table(s); break;
        case 3: o = do_delta(s, P.nf, m); break;
        case 4: { Basis b; b.mem = &P.basis; gen_basis_behaviour(b); o = do_patch(b, dl, m); break; }
        }
    } catch (SimAbort &) { aborted = true; }
    g_abort_throw = false;
    g_alloc.fail_at = 0;
    bool fired = g_alloc.fired != f0;
    if (aborted) {
        if (!fired) fail("abort", "%s aborted without an allocation failure", OP[op]);
        if (g_log_minlevel > RS_LOG_CRIT) fail("silent-abort", "%s aborted on an allocation failure without a critical log message", OP[op]);
        cnt("outcome.fatal_abort");
    } else if (o.r == RS_MEM_ERROR) {
        if (!fired) fail("failed-without-fault", "%s returned RS_MEM_ERROR without an allocation failure", OP[op]);
        cnt("outcome.mem_error");
        if (op == 2) {
            if (g_alloc.live_count != live0) fail("leak", "a failed rs_build_hash_table left %zu allocations:%s", g_alloc.live_count - live0, alloc_live_desc().c_str());
            // memory is back: the same signature can be indexed and used
            if (int r = build_table(s)) fail("retry-failed", "rs_build_hash_table returned %s when retried", rsname(r));
            OpRes d = do_delta(s, P.nf, gen_mode()); Bytes w;
            if (d.r || ref_patch(d.out, P.basis, &w) || w != P.nf) fail("retry-failed", "delta after a retried rs_build_hash_table is wrong");
            if (!rs.blocks.empty() && delta_facts(d.out).lit_bytes > ref_greedy(rs, P.nf).lit) fail("retry-failed", "blocks of the signature are not found any more after rs_build_hash_table failed and was retried");
        }
    } else if (o.r != RS_DONE) fail("alloc-fault-code", "%s returned %s after an allocation failure", OP[op], rsname(o.r));
    else {
        cnt("outcome.completed");
        bool ok = true;
        switch (op) {
        case 0: ok = o.out == sg; break;
        case 1: case 2: {
            if (op == 1 && build_table(s)) fail("build-failed", "rs_build_hash_table failed");
            OpRes d = do_delta(s, P.nf, STREAM); Bytes w; ok = !d.r && !ref_patch(d.out, P.basis, &w) && w == P.nf;
            if (ok && !rs.blocks.empty() && delta_facts(d.out).lit_bytes > ref_greedy(rs, P.nf).lit) ok = false;
            break;
        }
        case 3: { Bytes w; ok = ref_delta_parse(o.out).result == RefDelta::DONE && !ref_patch(o.out, P.basis, &w) && w == P.nf; break; }
        case 4: ok = o.out == P.nf; break;
        }
        if (!ok) fail("alloc-fault-result", "%s returned RS_DONE after an allocation failure but its result is wrong", OP[op]);
    }
    if (!aborted && s) { free_sig(s); if (op == 2 && g_alloc.live_count != 0 && false) fail("leak", "leak"); }
    if (fired) note_nontrivial();
    sample("%s (%s) allocation #%llu%s fails: fired=%d aborted=%d result=%s", OP[op], MODE[m], ULL(k), forever ? " and all later" : "", fired, aborted, aborted ? "-" : rsname(o.r));
}

// ------------------------------------------------------------------ C17
struct Task { ucontext_t uc; char *stack = nullptr; std::function<void()> fn; bool done = false; const char *api = nullptr; bool started = false; };
static std::vector<Task *> g_tasks;
static Task *g_cur;
static ucontext_t g_sched_uc;
static u64 g_switches, g_inlib;
static int g_gran;
static u64 next_slice()
{
    if (g_switches > 4000) return 200000;
    static const u64 w[] = {0, 3, 30, 300, 3000};
    return 1 + choose(g_gran == 0 ? 20000 : g_gran == 5 ? w[1 + choose(4, "gran")] : w[g_gran], "slice");
}
static void yield_now()
{
    g_switches++;
    if (g_cur->api || g_api) g_inlib++;
    g_cur->api = g_api;
    Task *t = g_cur;
    swapcontext(&t->uc, &g_sched_uc);
    g_api = t->api;
    g_preempt_countdown = next_slice();
}
static void task_entry() { g_cur->fn(); g_cur->done = true; g_preempt_countdown = 0; g_api = nullptr; swapcontext(&g_cur->uc, &g_sched_uc); abort(); }
static void run_tasks(std::vector<std::function<void()>> fns)
{
    static std::vector<char *> pool;
    g_tasks.clear();
    for (size_t i = 0; i < fns.size(); i++) {
        Task *t = new Task; t->fn = fns[i];
        if (pool.size() <= i) pool.push_back((char *)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        t->stack = pool[i];
        getcontext(&t->uc);
        t->uc.uc_stack.ss_sp = t->stack; t->uc.uc_stack.ss_size = 1 << 20; t->uc.uc_link = nullptr;
        makecontext(&t->uc, task_entry, 0);
        g_tasks.push_back(t);
    }
    g_switches = g_inlib = 0;
    g_preempt_fn = yield_now;
    for (;;) {
        std::vector<Task *> live;
        for (auto t : g_tasks) if (!t->done) live.push_back(t);
        if (live.empty()) break;
        g_cur = live[choose(live.size(), "task")];
        ev_sched((u64)(std::find(g_tasks.begin(), g_tasks.end(), g_cur) - g_tasks.begin()));
        if (!g_cur->started) { g_cur->started = true; g_preempt_countdown = next_slice(); g_api = nullptr; }
        swapcontext(&g_sched_uc, &g_cur->uc);
        g_api = nullptr;
    }
    g_preempt_fn = nullptr; g_preempt_countdown = 0;
    for (auto t : g_tasks) delete t;
    g_tasks.clear();
}
static std::map<Task *, std::string> g_c17_want; static u64 g_c17_lines;
extern "C" void c17_sink(rs_loglevel, char const *msg)
{
    auto it = g_c17_want.find(g_cur);
    if (it == g_c17_want.end()) return;
    g_c17_lines++;
    if (!msg || !strstr(msg, it->second.c_str())) fail("isolation", "a message logged by one task has the text of another: '%.120s' where '%s' was logged", msg ? msg : "", it->second.c_str());
}
void c17()
{
    begin_run();
    g_c17_want.clear(); g_c17_lines = 0;
    bool logs = chance(1, 3, "logs");
    if (logs) { rs_trace_to(c17_sink); rs_trace_set_level(RS_LOG_INFO); } else
    rs_trace_set_level(RS_LOG_ERR);
    g_gran = (int)choose(6, "granularity");
    size_t nt = 2 + choose(3, "ntasks");
    struct W { SigArgs a; Pair P; RefSig rs; Bytes sg, dl; Mode m; int kind; };
    std::vector<W> ws(nt);
    SigArgs sa = gen_sigargs(); if (sa.strong_len < 8) sa.strong_len = 8;
    Pair SP = gen_pair(sa.magic, sa.block_len, 5000, true);
    if (SP.basis.empty()) SP.basis = "shared basis";
    RefSig srs = ref_sig_make(sa.magic, sa.block_len, sa.strong_len, SP.basis);
    tame(SP.nf, srs, 30000000);
    bool share = choose(2, "share");
    rs_signature_t *shared = share ? load_ok(ref_sig_encode(srs)) : nullptr;
    std::vector<std::function<void()>> fns;
    std::string kinds;
    for (size_t i = 0; i < nt; i++) {
        W &w = ws[i];
        w.a = gen_sigargs(); if (w.a.strong_len < 8) w.a.strong_len = 8;
        w.P = gen_pair(w.a.magic, w.a.block_len, choose(4, "small") ? 700 : 20000, true);
        w.rs = ref_sig_make(w.a.magic, w.a.block_len, w.a.strong_len, w.P.basis);
        tame(w.P.nf, w.rs, 30000000);
        w.sg = ref_sig_encode(w.rs); w.dl = greedy_delta(w.rs, w.P.nf);
        w.m = gen_mode();
        w.kind = (int)choose(share ? 6 : 5, "kind");
        static const char *KN[] = {"sig", "load+delta", "patch", "pipeline", "md4", "delta(shared)"};
        kinds += std::string(i ? "," : "") + KN[w.kind];
        fns.push_back([&w, shared, &srs, &SP, i, logs] {
            auto bad = [&](const char *what, int r) { fail("isolation", "task %zu: %s went wrong while other tasks were running (%s)", i, what, rsname(r)); };
            if (w.kind == 0 || w.kind == 3) { OpRes o = do_sig(w.P.basis, w.a, w.m); if (o.r || o.out != w.sg) bad("signature", o.r); }
            if (w.kind == 1 || w.kind == 3) {
                rs_signature_t *s; OpRes o = do_load(w.sg, &s, w.m);
                if (o.r) bad("loadsig", o.r);
                int r = build_table(s); if (r) bad("rs_build_hash_table", r);
                o = do_delta(s, w.P.nf, w.m); Bytes t;
                if (o.r) bad("delta", o.r);
                check_delta("isolation", o.out, w.rs, w.P.nf, w.rs.blocks.empty());
                if (!w.rs.blocks.empty() && delta_facts(o.out).lit_bytes != ref_greedy(w.rs, w.P.nf).lit) bad("delta matches", 0);
                DeltaFacts f = delta_facts(o.out);
                if ((u64)o.st.lit_bytes != f.lit_bytes || (u64)o.st.copy_bytes != f.copy_bytes || (u64)o.st.copy_cmds != f.copy_cmds) bad("delta statistics", 0);
                free_sig(s);
            }
            if (w.kind == 2 || w.kind == 3) { Basis b; b.mem = &w.P.basis; gen_basis_behaviour(b); OpRes o = do_patch(b, w.dl, w.m); if (o.r || o.out != w.P.nf) bad("patch", o.r); }
            if (w.kind == 4) {
                unsigned char out[16]; { Api x("rs_mdfour"); rs_mdfour(out, w.P.basis.data(), w.P.basis.size()); }
                if (Bytes((char *)out, 16) != ref_md4(w.P.basis.data(), w.P.basis.size())) bad("rs_mdfour", 0);
                if (Bytes(rs_strerror(RS_CORRUPT)).empty()) bad("rs_strerror", 0);
                OpRes o = do_sig(w.P.basis, w.a, STREAM); if (o.r || o.out != w.sg) bad("signature", o.r);
                char buf[300]; { Api x("rs_format_stats"); rs_format_stats(&o.st, buf, sizeof buf); }
                char want[160]; snprintf(want, sizeof want, "signature statistics: signature[%zu blocks, %zu bytes per block]", w.rs.blocks.size(), w.a.block_len);
                if (!strstr(buf, "signature statistics")) bad("rs_format_stats", 0);
                if (logs) for (size_t q = 0; q < 6; q++) {      // what this task logs is what its sink sees
                    rs_stats_t st = o.st; st.sig_blocks = (rs_long_t)(1000 * (i + 1) + q);
                    g_c17_want[g_cur] = "signature[" + std::to_string(st.sig_blocks) + " blocks";
                    { Api x("rs_log_stats"); rs_log_stats(&st); }
                    g_c17_want.erase(g_cur);
                }
            }
            if (w.kind == 5) {
                Bytes nf = w.P.nf + SP.nf;
                OpRes o = do_delta(shared, nf, w.m);
                if (o.r) bad("delta on a shared signature", o.r);
                check_delta("isolation", o.out, srs, nf, srs.blocks.empty());
                if (delta_facts(o.out).lit_bytes != ref_greedy(srs, nf).lit) bad("matches of a delta on a shared signature", 0);
            }
        });
    }
    run_tasks(fns);
    cnt("messages_checked", g_c17_lines);
    if (shared) free_sig(shared);
    if (g_alloc.live_count) fail("isolation", "%zu allocations left after all tasks ended:%s", g_alloc.live_count, alloc_live_desc().c_str());
    if (g_inlib >= 3) note_nontrivial();
    cnt("preemptions", g_switches); cnt("preemptions_inside_library", g_inlib);
    sample("tasks=%s shared_signature=%d switches=%llu inside_library=%llu", kinds.c_str(), share, ULL(g_switches), ULL(g_inlib));
}

// ------------------------------------------------------------------ C18
void c18()
{
    begin_run();
    SigArgs a = gen_sigargs();
    if (a.block_len > 8192) a.block_len = 1 + a.block_len % 8192;
    int op = (int)choose(6, "op");   // 0 sig 1 load 2 delta 3 slack delta 4 patch 5 hostile patch
    size_t total = (TIER_THOROUGH ? 3u << 20 : 1u << 20) + choose(2u << 20, "total");
    if (a.block_len < 64 && op <= 2) total /= 4;
    size_t inmax = 0, chunk = 1 + choose(20000, "chunk");
    Sched sc = simple_sched();
    sc.in = Pol{1, chunk}; sc.out = choose(2, "outk") ? Pol{0, 0} : Pol{1, 1 + choose(20000, "oc")};
    sc.late_eof = choose(2, "late_eof");
    Bytes big(total, 0);
    { Rng r(choose(0xffffffff, "seed")); int style = (int)choose(3, "style"); for (size_t i = 0; i + 8 <= total; i += 8) { u64 w = style == 0 ? r.next() : style == 1 ? 0 : (i / 4096) & 1 ? r.next() : 0x4142434445464748ULL; memcpy(&big[i], &w, 8); } }
    static const char *OP[] = {"signature", "loadsig", "delta", "literal-only delta", "patch", "patch of a delta with false lengths"};
    size_t base = 0, peak = 0, bound = 0; int r = 0; u64 inbytes = total;
    auto measure = [&](rs_job_t *j, const Bytes &in, bool out, Basis *b) {
        Stream s(j, OP[op], in, sc); s.no_out = !out; s.check_live = true;
        if (b) b->stream = &s;
        while (s.step()) { if (s.out.size() > (4u << 20)) s.out.clear(); }
        inmax = s.max_in; inbytes = in.size();
        peak = g_alloc.peak - base;
        { Api x("rs_job_free"); rs_job_free(j); }
        return s.result;
    };
    auto mark = [&] { base = g_alloc.live_bytes; g_alloc.peak = g_alloc.live_bytes; };
    rs_signature_t *s = nullptr;
    bool expect_done = true;
    if (op == 0) {
        mark(); rs_job_t *j; { Api x("rs_sig_begin"); j = rs_sig_begin(a.block_len, a.strong_len, (rs_magic_number)a.magic); }
        r = measure(j, big, true, nullptr);
        bound = 6 * (a.block_len + 65536 + inmax) + 65536;
    } else if (op == 1) {
        RefSig rs{a.magic, (u32)a.block_len, (u32)a.strong_len, {}};
        if (chance(1, 3, "claimbl")) rs.block_len = (u32)(choose(2, "top") ? 0x7fffffff - choose(3, "cb") : 1 + choose(0x7ffffffe, "cb"));
        Bytes sg = ref_sig_encode(rs); size_t e = 4 + a.strong_len; size_t n = choose(4, "few") ? total / 4 / e : choose(200, "nfew"); sg += big.substr(0, n * e);
        mark(); rs_job_t *j; { Api x("rs_loadsig_begin"); j = rs_loadsig_begin(&s); }
        r = measure(j, sg, false, nullptr);
        bound = 8 * sg.size() + 16 * n + 6 * inmax + 65536;
        if (r == RS_DONE) {
            if (peak > bound) fail("memory-bound", "loadsig of %zu bytes held up to %zu bytes (bound %zu)", sg.size(), peak, bound);
            mark(); if (build_table(s)) fail("build-failed", "rs_build_hash_table failed");
            peak = g_alloc.peak - base; bound = 64 * n + 65536;
        }
    } else if (op == 2 || op == 3) {
        bool match = choose(2, "match");
        RefSig rs = ref_sig_make(a.magic, a.block_len, a.strong_len, match ? big.substr(0, 200000) : "nothing in common with it ....");
        if (op == 2) s = load_ok(ref_sig_encode(rs));
        mark(); rs_job_t *j; { Api x("rs_delta_begin"); j = rs_delta_begin(s); }
        r = measure(j, big, true, nullptr);
        bound = 6 * (a.block_len + 65536 + inmax) + 65536;
    } else if (op == 4) {
        Bytes d; put_be(d, M_DELTA, 4);
        size_t p = 0; while (p < total) { size_t k = 1 + choose(chance(1, 4, "bl") ? 300000 : 3000, "k"); if (k > total - p) k = total - p; if (choose(2, "c") || d.size() > total) d += enc_copy(p, k); else { d += enc_lit_hdr(k); d += big.substr(p, k); } p += k; if (d.size() > (2u << 20)) break; }
        d.push_back(0);
        Basis b; b.mem = &big; gen_basis_behaviour(b); b.max_read = 0;
        mark(); rs_job_t *j; { Api x("rs_patch_begin"); j = rs_patch_begin(basis_cb, &b); }
        r = measure(j, d, true, &b);
        bound = 6 * (65536 + inmax) + 65536;
    } else {
        Bytes d; put_be(d, M_DELTA, 4);
        u64 claim = ((u64)1 << (16 + choose(46, "sh"))) + choose(1000, "x");
        if (choose(2, "lc")) { d += enc_lit_hdr(claim, 8); d += big.substr(0, 20000 + choose(100000, "have")); }
        else { d += enc_copy(choose(1000, "pos"), claim, 8, 8); d.push_back(0); }
        Bytes small = big.substr(0, 100000);
        Basis b; b.mem = &small;
        sc.out = Pol{0, 0};
        mark(); rs_job_t *j; { Api x("rs_patch_begin"); j = rs_patch_begin(basis_cb, &b); }
        r = measure(j, d, true, &b);
        expect_done = false;
        bound = 6 * (65536 + inmax) + 65536;
    }
    if (expect_done && r != RS_DONE) fail("job-failed", "%s returned %s", OP[op], rsname(r));
    if (peak > bound) fail("memory-bound", "%s over %llu bytes of input held up to %zu bytes of heap; bound %zu (block_len %zu, largest input lent %zu)", OP[op], ULL(inbytes), peak, bound, a.block_len, inmax);
    if (s) free_sig(s);
    if (inbytes > 8 * (chunk + 1)) note_nontrivial();
    cnt("peak_heap_max_permille", 0);
    sample("%s input=%llu chunk=%zu block=%zu peak=%zu bound=%zu", OP[op], ULL(inbytes), chunk, a.block_len, peak, bound);
}

// ------------------------------------------------------------------ C19
static void pat(u64 pos, char *p, size_t n)     // virtual file contents
{
    size_t i = 0;
    while (i < n && ((pos + i) & 7)) { p[i] = (char)(mix64((pos + i) >> 3) >> (8 * ((pos + i) & 7))); i++; }
    for (; i + 8 <= n; i += 8) { u64 w = mix64((pos + i) >> 3); memcpy(p + i, &w, 8); }
    for (; i < n; i++) p[i] = (char)(mix64((pos + i) >> 3) >> (8 * ((pos + i) & 7)));
}
static char *zeros(size_t n, bool wr = false)
{
    char *p = (char *)mmap(nullptr, n, wr ? PROT_READ | PROT_WRITE : PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) harness_error("mmap of %zu bytes failed", n);
    return p;
}
// address space of n bytes backed by the same few pages over and over
static char *aliased(size_t n, size_t unit)
{
    char *p = (char *)mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    char *m = (char *)mmap(nullptr, unit, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED || m == MAP_FAILED) harness_error("mmap of %zu bytes failed", n);
    for (size_t o = 0; o < n; o += unit)
        if (mremap(m, 0, unit, MREMAP_MAYMOVE | MREMAP_FIXED, p + o) == MAP_FAILED) harness_error("mremap failed");
    munmap(m, unit);
    return p;
}
// a hang of a call that handles gigabytes: four times what the slowest takes
static const u64 HUGE_FUEL = 12000000000ULL;
void c19()
{
    begin_run();
    u64 G = 1ULL << 32;
    g_fuel_limit = 5000000000ULL;
    int kind = (int)pick({5, 4, (u64)(TIER_THOROUGH ? 2 : 0), 1, 1, 3, 2, (u64)(TIER_THOROUGH ? 1 : 0)}, "kind");
    if (chance(1, 24, "long")) kind = 2;
    static const int forced[] = {8, 7, 7, 8, 9, 9, 7, 7, 10, 10, 12};
    int cr = corner();
    int special = (int)choose_at(13, "special", cr >= 0 && cr < 11 ? forced[cr] : 0);
    if (special >= 7) kind = special;
    else if (chance(1, 8, "wrap")) kind = 11;
    switch (kind) {
    case 0: {   // patch: copies at offsets beyond 2^31 / 2^32
        Bytes d; put_be(d, M_DELTA, 4); Bytes want;
        size_t n = 1 + choose(5, "n");
        Basis b; b.vsize = 3 * G; b.gen = pat; gen_basis_behaviour(b);
        if (chance(1, 3, "huge")) b.vsize = 1ULL << 62;
        for (size_t i = 0; i < n; i++) {
            u64 pos = choose(4, "pk") == 0 ? choose(100000, "pos") : (choose(2, "h") ? G : G / 2) - choose(3000, "below");
            if (chance(1, 3, "far")) pos += (u64)choose(0xffffffff, "far");
            if (b.vsize > 3 * G && choose(2, "vf")) pos += (u64)choose(0x3fffffff, "vfar") << 31;
            u64 len = 1 + choose(6000, "len");
            if (pos + len > b.vsize) pos = b.vsize - len;
            int w = chance(1, 3, "w") ? 8 : 0;
            d += enc_copy(pos, len, w, w);
            Bytes t(len, 0); pat(pos, &t[0], len); want += t;
        }
        d.push_back(0);
        Mode m = gen_mode();
        if (b.vsize > 3 * G && m == WHOLE) m = STREAM;
        OpRes o = do_patch(b, d, m);
        if (o.r) fail("big-offset", "patch with copies beyond 2^32 returned %s", rsname(o.r));
        if (o.out != want) fail("big-offset", "patch with copies beyond 2^32 wrote the wrong bytes");
        note_nontrivial();
        sample("patch: %zu copies from a virtual basis of %llu bytes, mode %s", n, ULL(b.vsize), MODE[m]);
        break;
    }
    case 1: {   // delta: copies whose basis offset is beyond 2^32
        SigArgs a; a.magic = choose(2, "mg") ? M_RK_BLAKE2 : choose(2, "mg2") ? M_MD4 : M_BLAKE2; a.strong_len = magic_is_md4(a.magic) ? 16 : 32;
        static const size_t bls[] = {65536, 90000, 262144, 1u << 20};
        a.block_len = bls[pick({4, 4, 2, (u64)(TIER_THOROUGH ? 1 : 0)}, "bl")];
        u64 nblk = (G + G / 8) / a.block_len + 2 + choose(50, "nb");
        RefSig rs{a.magic, (u32)a.block_len, (u32)a.strong_len, {}};
        Rng g(choose(0xffffffff, "seed"));
        rs.blocks.reserve(nblk);
        for (u64 i = 0; i < nblk; i++) { Bytes st(a.strong_len, 0); u64 x = g.next(); memcpy(&st[0], &x, 8); rs.blocks.push_back({(u32)(x >> 7), st}); }
        Bytes nf; size_t runs = 1 + choose(2, "runs"); u64 maxpos = 0;
        for (size_t k = 0; k < runs; k++) {
            u64 at = choose(3, "where") ? nblk - 1 - choose(20, "b") : (G / 2) / a.block_len + choose(3, "b");
            size_t len = 1 + choose(a.block_len > 200000 ? 2 : 4, "len");
            for (size_t q = 0; q < len && at + q < nblk; q++) {
                Bytes blk(a.block_len, 0); pat((at + q) * a.block_len, &blk[0], a.block_len);
                rs.blocks[at + q] = {ref_weak(a.magic, blk.data(), blk.size()), ref_strong(a.magic, blk.data(), blk.size(), a.strong_len)};
                nf += blk;
                if ((at + q) * a.block_len > maxpos) maxpos = (at + q) * a.block_len;
            }
            if (choose(2, "lit")) nf += gen_content(choose(3000, "litn"));
        }
        rs_signature_t *s = load_ok(ref_sig_encode(rs));
        OpRes o = do_delta(s, nf, choose(3, "mode") ? STREAM : WHOLE);
        free_sig(s);
        if (o.r) fail("big-delta", "delta returned %s", rsname(o.r));
        DeltaFacts f = check_delta("big-delta", o.out, rs, nf, false);
        if (f.copy_bytes == 0) fail("big-delta", "blocks at basis offsets up to %llu were not found", ULL(maxpos));
        Basis b; b.vsize = nblk * a.block_len; b.gen = pat;
        OpRes p = do_patch(b, o.out, choose(2, "pm") ? STREAM : WHOLE);
        if (p.r || p.out != nf) fail("big-delta", "delta and patch across basis offset %llu do not give the new file back (%s)", ULL(maxpos), rsname(p.r));
        if (maxpos >= G) note_nontrivial();
        sample("delta: %llu blocks of %zu, copies up to basis offset %llu, new file %zu", ULL(nblk), a.block_len, ULL(maxpos), nf.size());
        break;
    }
    case 2: {   // patch: one command longer than 2^32
        u64 len = G + choose(100000, "len");
        bool lit = choose(2, "lit");
        Basis b; b.vsize = 2 * G; static u64 lastpos; lastpos = 0; static u64 start; start = choose(100000, "start"); static bool okpos; okpos = true;
        static char page[1 << 16];
        b.gen = [](u64 pos, char *p, size_t n) { if (pos != start + lastpos) okpos = false; lastpos += n; (void)p; (void)page; if (n > 16) { memcpy(p, &pos, 8); } };
        Bytes d; put_be(d, M_DELTA, 4);
        if (lit) d += enc_lit_hdr(len, 8); else d += enc_copy(start, len, 8, 8);
        rs_job_t *j; { Api x("rs_patch_begin"); j = rs_patch_begin(basis_cb, &b); }
        size_t OUT = 1 << 20; char *ob = (char *)malloc(OUT); char *z = zeros(1u << 30);
        u64 got = 0, fed = 0; int r; u64 calls = 0;
        rs_buffers_t bu;
        g_fuel_limit = 20000000000ULL;
        size_t dpos = 0; Bytes tail(1, 0); bool intail = false; size_t tpos = 0;
        for (;;) {
            memset(&bu, 0, sizeof bu);
            if (dpos < d.size()) { bu.next_in = &d[dpos]; bu.avail_in = d.size() - dpos; }
            else if (lit && fed < len) { bu.next_in = z; bu.avail_in = len - fed < (1u << 30) ? (size_t)(len - fed) : (1u << 30); }
            else { intail = true; bu.next_in = &tail[tpos]; bu.avail_in = tail.size() - tpos; bu.eof_in = 1; }
            size_t av = bu.avail_in;
            bu.next_out = ob; bu.avail_out = OUT;
            { Api x("rs_job_iter"); r = rs_job_iter(j, &bu); }
            size_t used = av - bu.avail_in;
            if (dpos < d.size()) dpos += used; else if (!intail) fed += used; else tpos += used;
            got += OUT - bu.avail_out;
            if (r != RS_BLOCKED) break;
            if (++calls > 100000) fail("big-command", "patch of a %llu byte command does not end", ULL(len));
        }
        rs_stats_t bs = *rs_job_statistics(j);
        { Api x("rs_job_free"); rs_job_free(j); }
        free(ob); munmap(z, 1u << 30);
        if (!r && (lit ? bs.lit_bytes : bs.copy_bytes) != (rs_long_t)len) fail("big-command", "statistics count %lld bytes of a %s of %llu", (long long)(lit ? bs.lit_bytes : bs.copy_bytes), lit ? "literal" : "copy", ULL(len));
        if (r) fail("big-command", "patch with a %s of %llu bytes returned %s after %llu bytes", lit ? "literal" : "copy", ULL(len), rsname(r), ULL(got));
        if (got != len) fail("big-command", "patch with a %s of %llu bytes wrote %llu bytes", lit ? "literal" : "copy", ULL(len), ULL(got));
        if (!lit && (!okpos || lastpos != len)) fail("big-command", "a copy of %llu bytes did not read the basis in order", ULL(len));
        note_nontrivial();
        sample("patch: single %s command of %llu bytes in %llu calls", lit ? "literal" : "copy", ULL(len), ULL(calls));
        break;
    }
    case 3: {   // literal-only delta over one buffer of 2 GiB and more
        size_t n = (1ULL << 31) - 3 + choose(6, "edge") + (chance(1, 2, "more") ? choose(0x7fffffff, "m") : 0);
        if (chance(1, 4, "over4")) n = G + choose(100000, "m");
        char *z = zeros(n);
        rs_job_t *j; { Api x("rs_delta_begin"); j = rs_delta_begin(nullptr); }
        Bytes out; size_t pos = 0; int r = RS_BLOCKED; u64 calls = 0;
        // first phase: a small output window, so that only the head of the delta is produced
        size_t OUT = 64 + choose(4000, "o"); char *ob = (char *)malloc(OUT);
        u64 made = 0;
        for (int i = 0; i < 3 && r == RS_BLOCKED; i++) {
            rs_buffers_t bu; memset(&bu, 0, sizeof bu);
            bu.next_in = z + pos; bu.avail_in = n - pos; bu.eof_in = 1; bu.next_out = ob; bu.avail_out = OUT;
            { Api x("rs_job_iter"); r = rs_job_iter(j, &bu); }
            pos = n - bu.avail_in; out.append(ob, OUT - bu.avail_out); made += OUT - bu.avail_out; calls++;
        }
        if (r != RS_BLOCKED) fail("big-buffer", "a literal-only delta of %zu bytes in one buffer returned %s after %llu calls", n, rsname(r), ULL(calls));
        // decode what was produced: magic, LITERAL commands that stay within what was offered
        if (out.size() < 6 || get_be(out, 0, 4) != M_DELTA) fail("big-buffer", "bad delta head %s", hexs(out, 16).c_str());
        RefDelta rd = ref_delta_parse(out + Bytes());
        size_t at = 4; u64 lits = 0;
        while (at < out.size()) {
            unsigned char c = (unsigned char)out[at]; u64 l; size_t h = 1;
            if (c >= 1 && c <= 64) l = c;
            else if (c >= 0x41 && c <= 0x44) { int w = 1 << (c - 0x41); if (at + 1 + w > out.size()) break; l = get_be(out, at + 1, w); h += w; }
            else fail("big-buffer", "command byte %02x in a literal-only delta", c);
            lits += l;
            if (l == 0 || lits > n) fail("big-buffer", "a literal of %llu bytes is announced for %zu bytes of input", ULL(l), n);
            if (at + h + l > out.size()) { for (size_t q = at + h; q < out.size(); q++) if (out[q]) fail("big-buffer", "literal data differ"); break; }
            at += h + l;
        }
        (void)rd;
        { Api x("rs_job_free"); rs_job_free(j); }
        free(ob); munmap(z, n);
        note_nontrivial();
        sample("literal-only delta: one input buffer of %zu bytes, %llu bytes of delta examined", n, ULL(made));
        break;
    }
    case 4: {   // signature / loadsig / delta fed from one buffer of more than 2 GiB: only what is needed is consumed
        size_t n = (1ULL << 31) + choose(100000, "n"); if (chance(1, 4, "over4")) n = G + choose(100000, "m");
        char *z = zeros(n);
        SigArgs a = gen_sigargs(); a.block_len = 512 + choose(4000, "bl");
        bool del = choose(2, "del");
        rs_signature_t *s = nullptr; rs_job_t *j;
        RefSig rs = ref_sig_make(a.magic, a.block_len, a.strong_len, Bytes(a.block_len, 'q'));
        if (del) { s = load_ok(ref_sig_encode(rs)); Api x("rs_delta_begin"); j = rs_delta_begin(s); }
        else { Api x("rs_sig_begin"); j = rs_sig_begin(a.block_len, a.strong_len, (rs_magic_number)a.magic); }
        Bytes out; size_t pos = 0; int r = RS_BLOCKED; char ob[3000];
        for (int i = 0; i < 4 && r == RS_BLOCKED; i++) {
            rs_buffers_t bu; memset(&bu, 0, sizeof bu);
            bu.next_in = z + pos; bu.avail_in = n - pos; bu.eof_in = 1; bu.next_out = ob; bu.avail_out = sizeof ob;
            { Api x("rs_job_iter"); r = rs_job_iter(j, &bu); }
            if (bu.avail_in > n - pos) fail("big-buffer", "input cursor went backwards");
            pos = n - bu.avail_in; out.append(ob, sizeof ob - bu.avail_out);
        }
        if (r != RS_BLOCKED) fail("big-buffer", "%s over one buffer of %zu bytes returned %s", del ? "delta" : "signature", n, rsname(r));
        if (!del) {
            Bytes e; put_be(e, ref_weak(a.magic, z, a.block_len), 4); e += ref_strong(a.magic, z, a.block_len, a.strong_len);
            for (size_t at = 12; at + e.size() <= out.size(); at += e.size()) if (out.compare(at, e.size(), e)) fail("big-buffer", "wrong block sums when fed from one buffer of %zu bytes", n);
            if (out.size() < 12 + e.size()) fail("big-buffer", "no output");
        } else if (out.size() > 8) {
            if (get_be(out, 0, 4) != M_DELTA) fail("big-buffer", "bad delta head");
            unsigned char c = (unsigned char)out[4]; u64 l = 0;
            if (c >= 0x41 && c <= 0x44) l = get_be(out, 5, 1 << (c - 0x41)); else if (c >= 1 && c <= 0x40) l = c; else fail("big-buffer", "command %02x for data that matches nothing", c);
            if (l == 0 || l > n) fail("big-buffer", "literal of %llu bytes", ULL(l));
        }
        { Api x("rs_job_free"); rs_job_free(j); }
        if (s) free_sig(s);
        munmap(z, n);
        note_nontrivial();
        sample("%s: one input buffer of %zu bytes, consumed %zu", del ? "delta" : "signature", n, pos);
        break;
    }
    case 5: {   // very large block lengths in the whole-file calls
        SigArgs a = gen_sigargs();
        static const size_t bls[] = {0x1fffffff, 0x20000000, 0x20000001, 0x3fffffff, 0x40000000, 0x40000001, 0x7fffffff, 0x60000000, 0x10000000};
        a.block_len = bls[choose(9, "hbl")];
        bool del = choose(2, "del");
        Bytes data = gen_content(choose(5000, "n"));
        g_alloc.cap = 12ULL << 30;
        FILE *f = sim_open_file(fs_put("", data), "rb", 0); InodeP oi = fs_put("", ""); FILE *g = sim_open_file(oi, "wb", 0);
        int r; rs_stats_t st;
        RefSig rs = ref_sig_make(a.magic, a.block_len, a.strong_len, data);
        if (!del) { Api x("rs_sig_file"); r = rs_sig_file(f, g, a.block_len, a.strong_len, (rs_magic_number)a.magic, &st); }
        else { rs_signature_t *s = load_ok(ref_sig_encode(rs)); { Api x("rs_delta_file"); r = rs_delta_file(s, f, g, &st); } free_sig(s); }
        sim_fclose(f); sim_fclose(g);
        if (r) fail("big-block", "%s with block_len %zu returned %s", del ? "rs_delta_file" : "rs_sig_file", a.block_len, rsname(r));
        if (!del && oi->data != ref_sig_encode(rs)) fail("big-block", "wrong signature for block_len %zu", a.block_len);
        if (del) { check_delta("big-block", oi->data, rs, data, rs.blocks.empty()); }
        note_nontrivial();
        sample("%s: block_len %zu over a file of %zu bytes", del ? "rs_delta_file" : "rs_sig_file", a.block_len, data.size());
        break;
    }
    case 6: {   // signatures with huge block lengths in the header, streaming
        RefSig rs{(u32)(choose(2, "m") ? M_RK_BLAKE2 : M_MD4), 0, 0, {}};
        rs.strong_len = (u32)magic_max_strong(rs.magic);
        rs.block_len = (u32)(1u << 30) + (u32)choose(0x3fffffff, "bl");
        Bytes data = gen_content(1 + choose(3000, "n"));
        u64 idx = 1 + choose(9, "idx");
        for (u64 i = 0; i < idx; i++) rs.blocks.push_back({(u32)i * 77, Bytes(rs.strong_len, (char)i)});
        rs.blocks.push_back({ref_weak(rs.magic, data.data(), data.size()), ref_strong(rs.magic, data.data(), data.size(), rs.strong_len)});
        rs_signature_t *s = load_ok(ref_sig_encode(rs));
        OpRes o = do_delta(s, data, choose(2, "pull") ? PULL : STREAM);
        free_sig(s);
        if (o.r) fail("big-delta", "delta returned %s", rsname(o.r));
        DeltaFacts f = check_delta("big-delta", o.out, rs, data, false);
        if (f.copy_bytes != data.size()) fail("big-delta", "the short last block at basis offset %llu was not found", ULL(idx * rs.block_len));
        if (idx * rs.block_len >= G) note_nontrivial();
        sample("delta: block_len %u, short last block at basis offset %llu", rs.block_len, ULL(idx * rs.block_len));
        break;
    }
    case 11: {  // delta: blocks whose basis offsets agree in their low 16, 31 or 32 bits with the end of the match before
        static const size_t bls[] = {65536, 1 << 17, 1 << 20, 100000, 30000, 1 << 16, 1 << 18};
        RefSig rs{(u32)(choose(2, "m") ? M_RK_BLAKE2 : M_RK_MD4), (u32)bls[choose(7, "bl")], 0, {}};
        rs.strong_len = 8;
        u64 L = rs.block_len, w = choose(4, "bits") ? G / L : G / 2 / L, i = choose(w, "i"), n = i + 2 * w + 4;
        if (n > 200000) n = 200000;
        Rng r(choose(0xffffffff, "seed"));
        for (u64 k = 0; k < n; k++) { u64 x = r.next(); rs.blocks.push_back({(u32)r.next(), Bytes((char *)&x, 8)}); }
        Bytes nf; std::map<u64, Bytes> made; size_t steps = 1 + choose(4, "steps"); u64 at = i;
        for (size_t k = 0; k <= steps; k++) {
            if (at >= n) break;
            if (!made.count(at)) {
                Bytes b(L, 0); for (u64 q = 0; q + 8 <= L; q += 8) { u64 x = r.next(); memcpy(&b[q], &x, 8); }
                rs.blocks[at] = {ref_weak(rs.magic, b.data(), L), ref_strong(rs.magic, b.data(), L, 8)};
                made[at] = b;
            }
            nf += made[at];
            switch (choose(4, "step")) { case 0: at++; break; case 1: at = at + 1 + w; break; case 2: at = at + 1 > w ? at + 1 - w : at + 1; break; default: at = at + 1 + 2 * w; break; }
        }
        nf += gen_content(choose(40, "tail"));
        rs_signature_t *s = load_ok(ref_sig_encode(rs));
        OpRes o = do_delta(s, nf, choose(2, "pull") ? PULL : STREAM);
        free_sig(s);
        if (o.r) fail("big-delta", "delta returned %s", rsname(o.r));
        DeltaFacts f = check_delta("big-delta", o.out, rs, nf, false);
        if (f.lit_bytes > ref_greedy(rs, nf).lit) fail("big-delta", "%llu literal bytes, more than greedy matching", ULL(f.lit_bytes));
        if ((u64)o.st.copy_bytes != f.copy_bytes || (u64)o.st.copy_cmds != f.copy_cmds) fail("big-delta", "statistics of copies differ from the delta");
        if (f.copy_cmds > 1) note_nontrivial();
        sample("delta: %zu blocks of %llu bytes, %llu copies far apart", (size_t)n, ULL(L), ULL(f.copy_cmds));
        break;
    }
    case 10: {  // one block of nearly 2 GiB that arrives in pieces
        SigArgs a{M_MD4, (size_t)0x7fffffff - choose(3, "bl"), 16};
        u64 len = a.block_len + 1 + choose(200, "more"); bool del = choose_at(2, "del", cr == 9);
        char *z = zeros(len, true); u64 at[] = {0, 5000, 1u << 30, a.block_len - 1, len - 1};
        for (u64 x : at) z[x] = (char)(1 + choose(255, "odd"));
        RefSig rs{a.magic, (u32)a.block_len, 16, {}};
        size_t tl = len - a.block_len;
        rs.blocks.push_back({ref_weak(a.magic, z, a.block_len), ref_strong(a.magic, z, a.block_len, 16)});
        rs.blocks.push_back({ref_weak(a.magic, z + a.block_len, tl), ref_strong(a.magic, z + a.block_len, tl, 16)});
        rs_signature_t *s = nullptr; rs_job_t *j; size_t skip = 0;
        if (del) { s = load_ok(ref_sig_encode(rs)); skip = choose(3, "skip"); Api x("rs_delta_begin"); j = rs_delta_begin(s); }
        else { Api x("rs_sig_begin"); j = rs_sig_begin(a.block_len, a.strong_len, (rs_magic_number)a.magic); }
        g_fuel_limit = HUGE_FUEL; alarm(600);
        Bytes out; u64 fed = 0, N = len + skip; char ob[500], pre[3] = {'p', 'q', 'r'}; int r; u64 idle = 0;
        size_t C = 64u << 20;
        do {
            rs_buffers_t bu; memset(&bu, 0, sizeof bu);
            size_t k;
            if (fed < skip) { bu.next_in = pre + fed; k = skip - fed; } else { bu.next_in = z + (fed - skip); k = N - fed < C ? (size_t)(N - fed) : C; }
            bu.avail_in = k; bu.eof_in = fed + k == N; bu.next_out = ob; bu.avail_out = sizeof ob;
            { Api x("rs_job_iter"); r = rs_job_iter(j, &bu); }
            if (bu.avail_in > k) fail("big-block", "input cursor went backwards");
            fed += k - bu.avail_in; out.append(ob, sizeof ob - bu.avail_out);
            if (k == bu.avail_in && bu.avail_out == sizeof ob && ++idle > 10) fail("big-block", "no progress with a block of %zu bytes", a.block_len);
        } while (r == RS_BLOCKED);
        { Api x("rs_job_free"); rs_job_free(j); }
        if (s) free_sig(s);
        if (r) fail("big-block", "%s with block_len %zu returned %s", del ? "delta" : "signature", a.block_len, rsname(r));
        if (!del && out != ref_sig_encode(rs)) fail("big-block", "wrong signature for block_len %zu fed in pieces", a.block_len);
        if (del) {
            Bytes want; put_be(want, M_DELTA, 4);
            if (skip) { want += enc_lit_hdr(skip); want.append(pre, skip); }
            want += enc_copy(0, len); want.push_back(0);
            RefDelta rd = ref_delta_parse(out); u64 lit = 0, cp = 0;
            for (auto &c : rd.cmds) { if (c.kind == K_LIT) lit += c.len; if (c.kind == K_COPY) { if (c.pos != cp) fail("big-block", "copy from %llu instead of %llu", ULL(c.pos), ULL(cp)); cp += c.len; } }
            if (rd.result != RefDelta::DONE || lit != skip || cp != len) fail("big-block", "delta with block_len %zu has %llu literal and %llu copied bytes instead of %zu and %llu", a.block_len, ULL(lit), ULL(cp), skip, ULL(len));
        }
        munmap(z, len);
        note_nontrivial();
        sample("%s: block_len %zu fed in pieces", del ? "delta" : "signature", a.block_len);
        break;
    }
    case 9: {   // patch: a command of more than 4 GiB done in one call, from and to single buffers
        size_t unit = 1u << 24, n = (G + G / 16) / unit * unit;
        static char *ob; ob = aliased(n, unit);
        u64 len = G + choose(1000000, "len"), start = choose(100000, "start");
        bool lit = choose_at(2, "lit", cr == 5), own = choose(2, "own");
        static char *src; src = lit || own ? aliased(n, unit) : nullptr;
        if (src) pat(7, src, unit);
        struct Cb { u64 start, done; bool own, bad; } cb{start, 0, own, false};
        Bytes d; put_be(d, M_DELTA, 4);
        if (lit) d += enc_lit_hdr(len, 8); else d += enc_copy(start, len, 8, 8);
        rs_job_t *j; { Api x("rs_patch_begin"); j = rs_patch_begin([](void *o, rs_long_t pos, size_t *l, void **b) -> rs_result {
            Cb *c = (Cb *)o; if ((u64)pos != c->start + c->done) c->bad = true;
            c->done += *l; if (c->own) *b = src; return RS_DONE; }, &cb); }
        g_fuel_limit = HUGE_FUEL; alarm(600);
        u64 got = 0, fed = 0; int r; u64 calls = 0; Bytes tail(1, 0); size_t dpos = 0; bool end = false;
        // output space of exactly 2^32 bytes, or as much as there is
        size_t space = choose_at(2, "exactspace", cr == 4) ? (size_t)G : n;
        do {
            rs_buffers_t bu; memset(&bu, 0, sizeof bu);
            if (dpos < d.size()) { bu.next_in = &d[dpos]; bu.avail_in = d.size() - dpos; }
            else if (lit && fed < len) { bu.next_in = src; bu.avail_in = len - fed; }
            else { bu.next_in = &tail[0]; bu.avail_in = end ? 0 : 1; bu.eof_in = 1; }
            size_t av = bu.avail_in; bu.next_out = ob; bu.avail_out = space;
            { Api x("rs_job_iter"); r = rs_job_iter(j, &bu); }
            if (bu.avail_in > av || bu.avail_out > space) fail("big-command", "cursor went backwards");
            size_t used = av - bu.avail_in, put = space - bu.avail_out;
            if (dpos < d.size()) dpos += used; else if (lit && fed < len) fed += used; else end = end || used;
            got += put;
            if (++calls > 1000) fail("big-command", "patch of a %llu byte command does not end", ULL(len));
        } while (r == RS_BLOCKED);
        rs_stats_t bs = *rs_job_statistics(j);
        { Api x("rs_job_free"); rs_job_free(j); }
        if (!r && src && memcmp(ob, src, unit)) fail("big-command", "a %s of %llu bytes in one call wrote the wrong bytes", lit ? "literal" : "copy", ULL(len));
        munmap(ob, n); if (src) munmap(src, n);
        if (r) fail("big-command", "patch with a %s of %llu bytes in one call returned %s after %llu bytes", lit ? "literal" : "copy", ULL(len), rsname(r), ULL(got));
        if (got != len) fail("big-command", "patch with a %s of %llu bytes in one call wrote %llu bytes", lit ? "literal" : "copy", ULL(len), ULL(got));
        if (!lit && (cb.bad || cb.done != len)) fail("big-command", "a copy of %llu bytes asked for the wrong parts of the basis", ULL(len));
        if ((lit ? bs.lit_bytes : bs.copy_bytes) != (rs_long_t)len) fail("big-command", "statistics count %lld bytes of a %s of %llu", (long long)(lit ? bs.lit_bytes : bs.copy_bytes), lit ? "literal" : "copy", ULL(len));
        note_nontrivial();
        sample("patch: one %s of %llu bytes in %llu calls with buffers of that size", lit ? "literal" : "copy", ULL(len), ULL(calls));
        break;
    }
    case 8: {   // more blocks than the table arithmetic of a 32-bit int can hold; nearly all are equal, so memory stays sparse
        SigArgs a{(u32)(choose(2, "mg") ? M_RK_BLAKE2 : M_MD4), 64 + choose(100, "bl"), 4};
        u64 nblk = 214748365 + choose(60000000, "nblk");
        if (choose_at(2, "longsums", cr == 3)) { a.strong_len = magic_max_strong(a.magic); nblk = G / (4 + a.strong_len) + choose(2000000, "nblk2"); }   // the sums take more than 4 GiB
        size_t k = 2 + choose(8, "k");
        Bytes tail(a.block_len * k, 0); pat(choose(1000000, "at"), &tail[0], tail.size());
        Bytes eq(a.block_len, 'e');
        RefSig rs = ref_sig_make(a.magic, a.block_len, a.strong_len, tail);
        Bytes e = ref_sig_encode(ref_sig_make(a.magic, a.block_len, a.strong_len, eq)), t = ref_sig_encode(rs);
        Bytes rec = e.substr(12), big; big.reserve(rec.size() << 20);
        for (size_t i = 0; i < 1u << 20; i++) big += rec;
        rs_signature_t *s = nullptr; rs_job_t *j; { Api x("rs_loadsig_begin"); j = rs_loadsig_begin(&s); }
        g_fuel_limit = HUGE_FUEL; alarm(600);
        int r = RS_BLOCKED; u64 left = nblk; bool head = true, last = false;
        while (r == RS_BLOCKED) {
            rs_buffers_t bu; memset(&bu, 0, sizeof bu); char dummy; bu.next_out = &dummy;
            u64 m = left < 1u << 20 ? left : 1u << 20;
            if (head) { bu.next_in = &e[0]; bu.avail_in = 12; }
            else if (left) { bu.next_in = &big[0]; bu.avail_in = m * rec.size(); }
            else { bu.next_in = &t[12]; bu.avail_in = t.size() - 12; bu.eof_in = 1; last = true; }
            { Api x("rs_job_iter"); r = rs_job_iter(j, &bu); }
            if (r == RS_BLOCKED && (bu.avail_in || last)) fail("many-blocks", "loading %llu blocks stopped taking input", ULL(nblk));
            if (!head && !last) left -= m;
            head = false;
        }
        { Api x("rs_job_free"); rs_job_free(j); }
        if (r) fail("many-blocks", "loading a signature of %llu blocks returned %s", ULL(nblk + k), rsname(r));
        { Api x("rs_build_hash_table"); r = rs_build_hash_table(s); }
        if (r) fail("many-blocks", "indexing a signature of %llu blocks returned %s", ULL(nblk + k), rsname(r));
        Bytes nf = tail + eq;
        OpRes o = do_delta(s, nf, choose(2, "mode") ? STREAM : WHOLE);
        free_sig(s);
        if (o.r) fail("many-blocks", "delta against %llu blocks returned %s", ULL(nblk + k), rsname(o.r));
        Basis b; b.vsize = (nblk + k) * a.block_len; static const Bytes *tp; static u64 teq; tp = &tail; teq = nblk * a.block_len;
        b.gen = [](u64 pos, char *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = pos + i < teq ? 'e' : (*tp)[pos + i - teq]; };
        RefDelta rd = ref_delta_parse(o.out); u64 cp = 0;
        for (auto &c : rd.cmds) if (c.kind == K_COPY) cp += c.len;
        OpRes p = do_patch(b, o.out, STREAM);
        if (p.r || p.out != nf) fail("many-blocks", "delta against %llu blocks and patch do not give the new file back (%s)", ULL(nblk + k), rsname(p.r));
        if (cp != nf.size()) fail("many-blocks", "only %llu of %zu bytes were found in a signature of %llu blocks", ULL(cp), nf.size(), ULL(nblk + k));
        note_nontrivial();
        sample("signature of %llu blocks of %zu: loaded, indexed, and matched at its end", ULL(nblk + k), a.block_len);
        break;
    }
    case 12: {  // delta: a match that runs on for more than 4 GiB
        SigArgs a{M_MD4, 65536, 16};
        u64 n = 65536 + 1 + choose(30, "n"), st = choose_at(10, "start", cr == 10 ? 0 : -1), nblk = st + n + choose(3, "more"), key = choose(0xffffffff, "key");
        auto tailof = [&](u64 i, char *p) { Rng g(key * 0x9e3779b97f4a7c15ULL + i); for (int q = 0; q < 8; q++) { u64 x = q ? g.next() : i; memcpy(p + 8 * q, &x, 8); } };
        RefMd4 pre; { Bytes z(65536 - 64, 0); pre.update(z.data(), z.size()); }
        RefSig rs{a.magic, (u32)a.block_len, (u32)a.strong_len, {}};
        for (u64 i = 0; i < nblk; i++) {
            char t[64]; tailof(i, t);
            RefMd4 h = pre; h.update(t, 64);
            u32 s1 = 31u * 65536u, s2 = 31u * (65536u / 2 * 65537u);
            for (int q = 0; q < 64; q++) { s1 += (unsigned char)t[q]; s2 += (64u - q) * (unsigned char)t[q]; }
            rs.blocks.push_back({s2 << 16 | (s1 & 0xffff), h.result()});
            if (i < 3) { Bytes b(65536 - 64, 0); b.append(t, 64); if (ref_weak(a.magic, b.data(), b.size()) != rs.blocks[i].first || ref_strong(a.magic, b.data(), b.size(), 16) != rs.blocks[i].second) harness_error("block sums"); }
        }
        rs_signature_t *s = load_ok(ref_sig_encode(rs));
        rs_job_t *j; { Api x("rs_delta_begin"); j = rs_delta_begin(s); }
        Bytes lead = gen_content(choose(2, "lead") ? 1 + choose(2000, "leadn") : 0), head;
        const u64 per = 1024; Bytes z(per * 65536, 0); char ob[4096]; u64 fed = 0, len = n * 65536; int r = RS_BLOCKED; size_t lp = 0;
        g_fuel_limit = HUGE_FUEL; alarm(600);
        Bytes keep;                                     // what the job has not taken yet
        while (r == RS_BLOCKED) {
            rs_buffers_t bu; memset(&bu, 0, sizeof bu);
            u64 in_chunk = fed % z.size();
            if (lp < lead.size()) { bu.next_in = &lead[lp]; bu.avail_in = lead.size() - lp; }
            else {
                if (!in_chunk) for (u64 q = 0; q < per; q++) tailof(st + fed / 65536 + q, &z[q * 65536 + 65536 - 64]);
                bu.next_in = &z[in_chunk]; bu.avail_in = z.size() - in_chunk < len - fed ? z.size() - in_chunk : (size_t)(len - fed);
                bu.eof_in = fed + bu.avail_in == len;
            }
            size_t av = bu.avail_in;
            bu.next_out = ob; bu.avail_out = sizeof ob;
            { Api x("rs_job_iter"); r = rs_job_iter(j, &bu); }
            size_t used = av - bu.avail_in, put = sizeof ob - bu.avail_out;
            if (lp < lead.size()) lp += used; else fed += used;
            head.append(ob, put);
            if (r == RS_BLOCKED && !used && !put && bu.eof_in) fail("big-match", "delta of %llu bytes stopped", ULL(len));
        }
        rs_stats_t bs = *rs_job_statistics(j);
        { Api x("rs_job_free"); rs_job_free(j); } free_sig(s);
        if (r) fail("big-match", "delta of %llu matching bytes returned %s", ULL(len), rsname(r));
        RefDelta rd = ref_delta_parse(head); u64 at = 0, lit = 0, cps = 0;
        if (rd.result != RefDelta::DONE || rd.used != head.size()) fail("big-match", "delta of %llu matching bytes is malformed", ULL(len));
        for (auto &c : rd.cmds) {
            if (c.kind == K_LIT) { if (at || lit + c.len > lead.size() || head.compare(c.at + c.hdr, c.len, lead, lit, c.len)) fail("big-match", "literal of %llu bytes where the blocks match", ULL(c.len)); lit += c.len; }
            if (c.kind == K_COPY) { if (c.pos != st * 65536 + at) fail("big-match", "copy from basis offset %llu where %llu was expected", ULL(c.pos), ULL(st * 65536 + at)); at += c.len; cps++; }
        }
        if (at != len || lit != lead.size()) fail("big-match", "the delta describes %llu + %llu bytes of %zu + %llu", ULL(lit), ULL(at), lead.size(), ULL(len));
        if (bs.copy_bytes != (rs_long_t)len || bs.copy_cmds != (rs_long_t)cps || bs.lit_bytes != (rs_long_t)lit) fail("big-match", "statistics count %lld bytes in %lld copies, the delta has %llu in %llu", (long long)bs.copy_bytes, (long long)bs.copy_cmds, ULL(len), ULL(cps));
        note_nontrivial();
        sample("delta of %llu bytes that match %llu blocks in a row: %llu copies", ULL(len), ULL(n), ULL(cps));
        break;
    }
    default: {  // thorough: a stream longer than 2^32 through signature or delta
        u64 len = G + choose(2000000, "len"); bool del = choose_at(2, "del", cr >= 0 && cr < 8 ? cr == 2 || cr == 7 : -1);
        SigArgs a{M_MD4, 65536, 16};
        Bytes blk(a.block_len, 0);
        RefSig one = ref_sig_make(a.magic, a.block_len, a.strong_len, blk);
        rs_signature_t *s = nullptr; rs_job_t *j;
        u64 nb = (len + a.block_len - 1) / a.block_len;
        if (del) {
            RefSig rs = one; rs.blocks.clear();
            for (u64 i = 0; i < nb; i++) rs.blocks.push_back(one.blocks[0]);
            s = load_ok(ref_sig_encode(rs)); Api x("rs_delta_begin"); j = rs_delta_begin(s);
        } else { Api x("rs_sig_begin"); j = rs_sig_begin(a.block_len, a.strong_len, (rs_magic_number)a.magic); }
        bool single = choose_at(2, "single", cr == 1 || cr == 2);   // everything in one buffer
        size_t C = single ? len : 1u << 26; char *z = zeros(C, true); u64 fed = 0, made = 0; int r; size_t OUT = 1 << 20;
        std::map<u64, char> odd;                        // bytes that are in no block
        if (single) { u64 at[] = {1000, (1ULL << 31) - 5, (1ULL << 31) + 300000, G - 1, G + 20}; for (u64 x : at) { u64 q = x + choose(9, "odd"); if (q < len) odd[q] = z[q] = (char)(1 + choose(255, "oddv")); } } char *ob = (char *)malloc(OUT); Bytes head;
        g_fuel_limit = HUGE_FUEL;
        do {
            rs_buffers_t bu; memset(&bu, 0, sizeof bu);
            size_t k = len - fed < C ? (size_t)(len - fed) : C;
            bu.next_in = single ? z + fed : z; bu.avail_in = k; bu.eof_in = fed + k == len; bu.next_out = ob; bu.avail_out = OUT;
            alarm(600);
            { Api x("rs_job_iter"); r = rs_job_iter(j, &bu); }
            fed += k - bu.avail_in; made += OUT - bu.avail_out; if (head.size() < 4000000) head.append(ob, OUT - bu.avail_out);
        } while (r == RS_BLOCKED);
        if (r) fail("big-stream", "%s over %llu bytes returned %s", del ? "delta" : "signature", ULL(len), rsname(r));
        rs_stats_t bs = *rs_job_statistics(j);
        if (!del && bs.sig_blocks != (rs_long_t)nb) fail("big-stream", "statistics count %lld blocks of %llu", (long long)bs.sig_blocks, ULL(nb));
        if (del && bs.copy_bytes + bs.lit_bytes != (rs_long_t)len) fail("big-stream", "statistics count %lld + %lld bytes of %llu", (long long)bs.copy_bytes, (long long)bs.lit_bytes, ULL(len));
        if (!del && single && len % a.block_len) for (u64 q = 0; q < nb; q++) {
            auto it = odd.lower_bound(q * a.block_len); bool plain = it == odd.end() || it->first >= (q + 1) * a.block_len;
            size_t bl = q + 1 < nb ? a.block_len : len % a.block_len;
            Bytes e; put_be(e, plain && q + 1 < nb ? one.blocks[0].first : ref_weak(a.magic, z + q * a.block_len, bl), 4);
            e += plain && q + 1 < nb ? one.blocks[0].second : ref_strong(a.magic, z + q * a.block_len, bl, a.strong_len);
            if (12 + (q + 1) * 20 > head.size() || head.compare(12 + q * 20, 20, e)) fail("big-stream", "wrong sums of block %llu of a file of %llu bytes in one buffer", ULL(q), ULL(len));
        }
        if (!del && made != 12 + nb * 20) fail("big-stream", "signature of %llu bytes has %llu bytes, expected %llu", ULL(len), ULL(made), ULL(12 + nb * 20));
        if (del) {
            RefDelta rd = ref_delta_parse(head); u64 tot = 0, lit = 0;
            for (auto &c : rd.cmds) {
                if (single && c.kind == K_LIT) { if (memcmp(head.data() + c.at + c.hdr, z + tot, c.len)) fail("big-stream", "literal data at offset %llu of the new file differ", ULL(tot)); lit += c.len; }
                if (single && c.kind == K_COPY) { auto it = odd.lower_bound(tot); if (it != odd.end() && it->first < tot + c.len) fail("big-stream", "a copy covers offset %llu of the new file, which is in no block", ULL(it->first)); }
                tot += c.kind == K_END ? 0 : c.len;
            }
            u64 e = 0, need = 0;       // what greedy matching sends
            for (auto &q : odd) { if (q.first < e) continue; u64 st = e + (q.first - e) / a.block_len * a.block_len; need += q.first + 1 - st; e = q.first + 1; }
            need += (len - e) % a.block_len;
            if (lit > need) fail("big-stream", "%llu literal bytes where greedy matching needs %llu, for %zu bytes that are in no block", ULL(lit), ULL(need), odd.size());
            if (rd.result != RefDelta::DONE || tot != len) fail("big-stream", "delta of %llu bytes describes %llu bytes", ULL(len), ULL(tot));
        }
        { Api x("rs_job_free"); rs_job_free(j); } if (s) free_sig(s); free(ob); munmap(z, C);
        note_nontrivial();
        sample("%s over a stream of %llu bytes", del ? "delta" : "signature", ULL(len));
        break;
    }
    }
}

// ------------------------------------------------------------------ C21
static int g_cb_level; static u64 g_cb_over, g_cb_bad, g_cb_lines, g_cb_err; static Bytes g_cb_last; static u64 g_cb_hash;
extern "C" void c21_sink(rs_loglevel l, char const *msg)
{
    g_cb_lines++;
    if ((int)l > g_cb_level) g_cb_over++;
    if ((int)l < 0 || (int)l > 7 || !msg || !*msg || strlen(msg) > 2000) g_cb_bad++;
    if ((int)l <= RS_LOG_ERR) g_cb_err++;
    g_cb_last = msg ? msg : "";
    g_cb_hash = mix64(g_cb_hash ^ hash_bytes(g_cb_last) ^ (u64)l);
    ev_u(l, hash_bytes(g_cb_last));
}
extern "C" void c21_sink2(rs_loglevel l, char const *msg) { c21_sink(l, msg); }
void c21()
{
    g_alloc.fill = choose(65536, "fill");
    SigArgs a = gen_sigargs(); if (a.strong_len < 8) a.strong_len = 8;
    Pair P = gen_pair(a.magic, a.block_len, choose(3, "small") ? 600 : 8000, false);
    RefSig rs = ref_sig_make(a.magic, a.block_len, a.strong_len, P.basis);
    Bytes sg = ref_sig_encode(rs), dl = greedy_delta(rs, P.nf);
    int op = (int)choose(5, "op"); Mode m = gen_mode();
    bool corrupt = chance(1, 3, "corrupt");
    if (corrupt && op == 1) sg = mutate(sg, 2);
    if (corrupt && op == 3) dl = mutate(dl, 2);
    static const char *OP[] = {"signature", "loadsig", "delta", "patch", "rdiff"};
    if (op == 4) {
        // long names in messages, default sink on standard error, nothing on standard output
        std::string nm((size_t)(choose(2, "long") ? 900 + choose(3000, "len") : 1 + choose(30, "len")), 'n');
        ProcSpec ps; ps.argv = {"rdiff"};
        bool verbose = choose(2, "v"); if (verbose) ps.argv.push_back("-v");
        bool stats = choose(2, "s"); if (stats) ps.argv.push_back("-s");
        int what = (int)choose(3, "what");
        fs_put("basis", P.basis); fs_put("sig", sg); fs_put("new", P.nf);
        if (what == 0) { ps.argv.insert(ps.argv.end(), {"signature", nm, "out"}); }
        else if (what == 1) { fs_put(nm, "exists"); ps.argv.insert(ps.argv.end(), {"signature", "basis", nm}); }
        else { ps.argv.insert(ps.argv.end(), {"delta", "sig", "new"}); }
        ProcResult r = run_rdiff(ps);
        if (r.aborted) fail("log-abort", "rdiff aborted");
        if (what == 2) {
            if (r.status) fail("log-effect", "rdiff delta with -v=%d -s=%d failed: %s", verbose, stats, r.err.substr(0, 200).c_str());
            Bytes w; if (ref_delta_parse(r.out).used != r.out.size() || ref_patch(r.out, P.basis, &w) || w != P.nf) fail("log-effect", "log or statistics text got into the delta on standard output");
            if (stats && r.err.find("statistics") == Bytes::npos) fail("log-missing", "-s printed no statistics on standard error");
        } else {
            if (r.status == 0) fail("log-effect", "rdiff succeeded on a bad name");
            if (r.err.find(nm.substr(0, 20)) == Bytes::npos) fail("log-missing", "the error message does not name the file");
            if (!r.out.empty()) fail("log-stdout", "text on standard output");
        }
        if (!r.err.empty()) note_nontrivial();
        sample("rdiff name length %zu verbose=%d stats=%d status=%d stderr=%zu bytes", nm.size(), verbose, stats, r.status, r.err.size());
        return;
    }
    // sink and level
    int sinkk = (int)pick({6, 2, 2}, "sink");      // callback, none, default (standard error)
    g_cb_level = (int)choose(8, "level"); g_cb_over = g_cb_bad = g_cb_lines = g_cb_err = 0; g_cb_hash = 0;
    InodeP err = g_std_err, outi = g_std_out;
    if (sinkk == 0) { Api x("rs_trace_to"); rs_trace_to(c21_sink); }
    else if (sinkk == 1) { Api x("rs_trace_to"); rs_trace_to(nullptr); }
    bool setlevel = choose(4, "setlevel");
    int eff;
    if (setlevel) { Api x("rs_trace_set_level"); rs_trace_set_level((rs_loglevel)g_cb_level); eff = g_cb_level; }
    else { eff = -1; g_cb_level = RS_LOG_DEBUG; }
    rs_signature_t *s = nullptr; OpRes o{};
    if (op == 2) s = load_ok(sg);
    if (chance(1, 12, "nomem")) {       // the message of a fatal error obeys level and sink too
        g_alloc.fail_at = g_alloc.count + 1 + choose(4, "k"); g_alloc.fail_len = 1u << 30;
        u64 f0 = g_alloc.fired; bool aborted = false;
        g_abort_throw = true;
        try {
            switch (op) {
            case 0: do_sig(P.basis, a, m); break;
            case 1: { rs_signature_t *t = nullptr; do_load(sg, &t, m); break; }
            case 2: do_delta(s, P.nf, m); break;
            case 3: { Basis b; b.mem = &P.basis; do_patch(b, dl, m); break; }
            }
        } catch (SimAbort &) { aborted = true; }
        g_abort_throw = false; g_alloc.fail_at = 0;
        bool fired = g_alloc.fired != f0;
        if (g_cb_over) fail("log-level", "%llu messages above the level %d that was set reached the callback: '%s'", ULL(g_cb_over), g_cb_level, g_cb_last.substr(0, 100).c_str());
        if (sinkk != 2 && !err->data.empty()) fail("log-stderr", "text on standard error although the sink was replaced: %s", err->data.substr(0, 100).c_str());
        if (sinkk == 1 && g_cb_lines) fail("log-stderr", "messages although the sink was removed");
        if (sinkk == 2 && eff >= 0 && eff < RS_LOG_CRIT && !err->data.empty()) fail("log-level", "text on standard error at level %d: %s", eff, err->data.substr(0, 100).c_str());
        if (!outi->data.empty()) fail("log-stdout", "the library printed on standard output");
        if (aborted && fired && (eff < 0 || eff >= RS_LOG_CRIT)) {
            if (sinkk == 0 && !g_cb_err) fail("log-missing", "%s aborted for lack of memory and logged nothing", OP[op]);
            if (sinkk == 2 && err->data.empty()) fail("log-missing", "%s aborted for lack of memory and printed nothing", OP[op]);
        }
        if (aborted) { note_nontrivial(); cnt("outcome.fatal_abort"); }
        sample("%s without memory: level=%d sink=%d aborted=%d lines=%llu", OP[op], eff, sinkk, aborted, ULL(g_cb_lines));
        return;
    }
    u64 l0 = g_cb_lines, e0 = g_cb_err; size_t err0 = err->data.size();
    switch (op) {
    case 0: o = do_sig(P.basis, a, m); break;
    case 1: o = do_load(sg, &s, m); break;
    case 2: o = do_delta(s, P.nf, m); break;
    case 3: { Basis b; b.mem = &P.basis; gen_basis_behaviour(b); o = do_patch(b, dl, m); break; }
    }
    u64 lines = g_cb_lines - l0, errs = g_cb_err - e0; size_t errtxt = err->data.size() - err0;
    if (g_cb_over) fail("log-level", "%llu messages above the level %d that was set reached the callback: '%s'", ULL(g_cb_over), g_cb_level, g_cb_last.substr(0, 100).c_str());
    if (g_cb_bad) fail("log-text", "a message with a bad level or without text reached the callback");
    if (sinkk == 0 && !err->data.empty()) fail("log-stderr", "text on standard error although a callback is set: %s", err->data.substr(0, 100).c_str());
    if (sinkk == 1 && (!err->data.empty() || g_cb_lines)) fail("log-stderr", "messages although the sink was removed: %s", err->data.substr(0, 100).c_str());
    if (!outi->data.empty()) fail("log-stdout", "the library printed on standard output: %s", outi->data.substr(0, 100).c_str());
    // the results are what they would be without logging
    switch (op) {
    case 0: if (o.r || o.out != sg) fail("log-effect", "signature is wrong at log level %d", eff); break;
    case 1: { RefSig t; std::string why; bool ok = ref_sig_parse(sg, &t, &why) == SIG_OK; if (ok != (o.r == RS_DONE)) fail("log-effect", "loadsig returned %s at log level %d", rsname(o.r), eff); break; }
    case 2: if (o.r) fail("log-effect", "delta returned %s", rsname(o.r)); check_delta("log-effect", o.out, rs, P.nf, rs.blocks.empty()); break;
    case 3: { Bytes w; int wr = ref_patch(dl, P.basis, &w); if (wr != o.r && !(m == WHOLE && o.r == RS_IO_ERROR && wr == RS_INPUT_ENDED)) fail("log-effect", "patch returned %s, expected %s", rsname(o.r), rsname(wr)); if (!wr && o.out != w) fail("log-effect", "patch output is wrong"); break; }
    }
    if (o.r != RS_DONE && (eff < 0 || eff >= RS_LOG_ERR)) {
        if (sinkk == 0 && !errs) fail("log-missing", "%s failed with %s and no message at error level was logged (level %d)", OP[op], rsname(o.r), eff);
        if (sinkk == 2 && !errtxt) fail("log-missing", "%s failed with %s and nothing was printed on standard error", OP[op], rsname(o.r));
    }
    if (eff >= 0 && eff < RS_LOG_ERR && (lines || errtxt)) { if (errtxt) fail("log-level", "text on standard error at level %d", eff); }
    if (s && o.r == RS_DONE && chance(1, 3, "dump")) {
        { Api x("rs_sumset_dump"); rs_sumset_dump(s); }
        if (op != 2) build_table(s);
        { Api x("rs_signature_log_stats"); rs_signature_log_stats(s); }
        if (g_cb_over) fail("log-level", "messages above the level that was set reached the callback");
        if (sinkk != 2 && !err->data.empty()) fail("log-stderr", "text on standard error");
    }
    if (s) free_sig(s);
    if (lines || errtxt || (setlevel && eff < 7)) note_nontrivial();
    sample("%s mode=%s level=%d sink=%d result=%s lines=%llu stderr=%zu", OP[op], MODE[m], eff, sinkk, rsname(o.r), ULL(lines), errtxt);
}

// ------------------------------------------------------------------ C22
extern "C" size_t sim_md4_size(void);
void c22()
{
    begin_run();
    size_t sz = sim_md4_size();
    struct Acc { rs_mdfour_t *m; RefMd4 ref; Bytes data; size_t pos = 0; u64 total = 0; };
    size_t k = 1 + choose(3, "naccs");
    std::vector<Acc> v(k);
    u64 chunks = 0;
    bool big = chance(1, TIER_THOROUGH ? 150 : 300, "big");
    int cr = corner(), jumbo = (int)choose_at(4, "jumbo", cr >= 0 && cr < 3 ? cr + 1 : 0);   // 1: one update of 2 GiB, 2: of 4 GiB, 3: 4 GiB in pieces
    if (jumbo) big = true;
    for (auto &a : v) {
        a.m = (rs_mdfour_t *)malloc(sz); memset(a.m, (int)choose(256, "junk"), sz);
        size_t n = gen_len(choose(3, "small") ? 700 : 140000);
        if (choose(3, "edge") == 0) n = 64 * choose(5, "k") + 50 + choose(20, "d");
        a.data = gen_content(n);
        { Api x("rs_mdfour_begin"); rs_mdfour_begin(a.m); }
        if (chance(1, 6, "empty")) { Api x("rs_mdfour_update"); rs_mdfour_update(a.m, a.data.data(), 0); }
    }
    if (big) {     // bit count beyond 2^32 (and, in the thorough tier, byte count too)
        u64 n = (1ULL << 29) + choose(200000, "n"); if (TIER_THOROUGH && chance(1, 3, "huge")) n = (1ULL << 32) + choose(200000, "n");
        if (jumbo) n = (1ULL << (jumbo == 1 ? 31 : 32)) + choose(200000, "n");
        size_t C = jumbo == 1 || jumbo == 2 ? n : 1u << 28; char *z = zeros(C); u64 left = n;
        g_fuel_limit = HUGE_FUEL; alarm(600);
        size_t one = jumbo == 1 || jumbo == 2 || choose(2, "one") ? C : 1000003;
        while (left) { size_t q = left < one ? (size_t)left : one; { Api x("rs_mdfour_update"); rs_mdfour_update(v[0].m, z, q); } v[0].ref.update(z, q); left -= q; chunks++; }
        v[0].total += n;
        if (jumbo == 1) {      // the one-shot function as well
            unsigned char o[16]; { Api x("rs_mdfour"); rs_mdfour(o, z, C); }
            RefMd4 w = v[0].ref;
            if (Bytes((char *)o, 16) != w.result()) fail("md4", "one-shot MD4 of %zu bytes differs", C);
        }
        munmap(z, C);
    }
    bool more = true;
    while (more) {
        more = false;
        for (auto &a : v) if (a.pos < a.data.size()) more = true;
        if (!more) break;
        Acc &a = v[choose(k, "which")];
        if (a.pos >= a.data.size()) { for (auto &b : v) if (b.pos < b.data.size()) { size_t q = b.data.size() - b.pos; { Api x("rs_mdfour_update"); rs_mdfour_update(b.m, b.data.data() + b.pos, q); } b.ref.update(b.data.data() + b.pos, q); b.pos += q; b.total += q; chunks++; break; } continue; }
        size_t left = a.data.size() - a.pos, q;
        switch (pick({3, 3, 2, 1, 1}, "cut")) { case 0: q = choose(5, "q"); break; case 1: q = choose(130, "q"); break; case 2: q = 64 * choose(6, "q") + choose(3, "d"); break; case 3: q = choose(20000, "q"); break; default: q = left; }
        if (chunks > 800) q = left;
        if (q > left) q = left;
        Bytes tmp = a.data.substr(a.pos, q); char *h = (char *)malloc(q ? q : 1); memcpy(h, tmp.data(), q);
        { Api x("rs_mdfour_update"); rs_mdfour_update(a.m, h, q); }
        if (memcmp(h, tmp.data(), q)) fail("md4-input-modified", "rs_mdfour_update changed its input");
        free(h);
        a.ref.update(tmp.data(), q);
        a.pos += q; a.total += q; chunks++; ev_sched(q);
    }
    for (auto &a : v) {
        unsigned char *out = (unsigned char *)malloc(16);
        { Api x("rs_mdfour_result"); rs_mdfour_result(a.m, out); }
        Bytes got((char *)out, 16), want = a.ref.result();
        if (got != want) fail("md4", "MD4 of %llu bytes fed in pieces is %s, RFC 1320 says %s", ULL(a.total), hexs(got, 16).c_str(), hexs(want, 16).c_str());
        if (!big || &a != &v[0]) {
            { Api x("rs_mdfour"); rs_mdfour(out, a.data.data(), a.data.size()); }
            if (Bytes((char *)out, 16) != want) fail("md4", "one-shot MD4 of %zu bytes differs", a.data.size());
        }
        free(out); free(a.m);
    }
    if (g_alloc.live_count) fail("md4", "MD4 left allocations behind");
    if (chunks > 2) note_nontrivial();
    sample("%zu accumulators interleaved, %llu chunks, longest %llu bytes", k, ULL(chunks), ULL(v[0].total));
}
