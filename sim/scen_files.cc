// Scenarios over the simulated file system: whole-file calls and the rdiff
// program under I/O faults, full disks, races and kills.
#include "drive.h"
#include <cstdlib>
#include <cerrno>
#define ULL(x) ((unsigned long long)(x))

static Bytes ref_delta_bytes(const RefSig &rs, const Bytes &nf)
{
    Bytes d; put_be(d, M_DELTA, 4);
    GreedyResult g = ref_greedy(rs, nf);
    size_t p = 0;
    for (auto &c : g.cmds) { if (c.kind == K_LIT) { d += enc_lit_hdr(c.len); d += nf.substr(p, c.len); } else d += enc_copy(c.pos, c.len); p += c.len; }
    d.push_back(0);
    return d;
}

// which kinds of trouble an inode gets
enum { F_NONE = 0, F_READ = 1, F_WRITE = 2, F_SEEK = 4, F_TRUNC = 8, F_STAT = 16, F_CLOSE = 32 };
static size_t near(size_t n, const char *tag)
{   // an offset in [0,n], often near the ends or a buffer boundary
    switch (pick({3, 2, 2, 1}, tag)) {
    case 0: return choose(n + 1, "off");
    case 1: return n - choose(n < 20 ? n + 1 : 20, "off");
    case 2: return choose(n < 40 ? n + 1 : 40, "off");
    default: { static const size_t b[] = {4096, 65536, 512, 1024, 8192, 16384, 32768, 131072}; size_t v = b[choose(8, "bnd")] + choose(3, "d"); v = v ? v - 1 : 0; return v > n ? n : v; }
    }
}
static void plan_read(Inode &i)
{
    static const int es[] = {EIO, EINTR, EAGAIN, ESTALE, EOVERFLOW, ENXIO, ENOMEM, EISDIR};
    i.read_fail_at = (int64_t)near(i.data.size(), "rat");
    i.read_errno = choose(3, "rerr") ? es[choose(8, "rerrno")] : EIO;
    if (chance(1, 4, "transient")) i.read_fail_times = 1 + choose(2, "times");
}
static int seek_err()
{
    static const int es[] = {EIO, EINVAL, ESPIPE, EOVERFLOW};
    return es[choose(4, "serr")];
}
static void plan_write(Inode &i, size_t expect)
{
    static const int es[] = {ENOSPC, EIO, EDQUOT, EFBIG, EPIPE, EINTR, EAGAIN};
    i.write_errno = es[choose(7, "werr")];
    if (choose(3, "wkind")) i.capacity = (int64_t)near(expect ? expect - 1 : 0, "cap");
    else i.write_fail_at = (int64_t)choose(6, "wnth");
    if (chance(1, 4, "transient")) i.write_fail_times = 1 + choose(2, "times");
}

// ------------------------------------------------------------------ C11
void c11()
{
    quiet_logs(); g_alloc.fill = choose(65536, "fill");
    SigArgs a = gen_sigargs();
    Pair P = gen_pair(a.magic, a.block_len, gen_budget(), false);
    RefSig rs = ref_sig_make(a.magic, a.block_len, a.strong_len, P.basis);
    Bytes sg = ref_sig_encode(rs);
    int op = (int)choose(4, "op");
    set_buflens(WHOLE);
    int ibl = rs_inbuflen, obl = rs_outbuflen;
    InodeP in = fs_put("", op == 0 ? P.basis : op == 1 ? sg : op == 2 ? P.nf : ref_delta_bytes(rs, P.nf)), out = fs_put("", ""), bs = fs_put("", P.basis);
    if (op != 3 && chance(1, 6, "fifo")) in->fifo = true;
    if (chance(1, 4, "rchunk")) { in->read_chunk = 1 + choose(700, "rc"); cnt("fault.short_read"); }
    if (op == 3 && chance(1, 4, "bchunk")) { bs->read_chunk = 1 + choose(700, "rc"); cnt("fault.short_read"); }
    size_t expect = op == 0 ? sg.size() : op == 2 ? 200 + P.nf.size() : P.nf.size();
    size_t nf = pick({1, 8, 2}, "nfaults");
    bool basis_trunc = false;
    for (size_t k = 0; k < nf; k++) switch (pick({4, (u64)(op == 1 ? 0 : 4), (u64)(op == 3 ? 3 : 0), (u64)(op == 3 ? 2 : 0), (u64)(op == 3 ? 1 : 0), 1}, "fault")) {
        case 0: plan_read(*in); break;
        case 1: plan_write(*out, op == 2 ? 1 + choose(expect + 1, "e") : expect); break;
        case 2: plan_read(*bs); break;
        case 3: bs->seek_fail = true; bs->seek_errno = seek_err(); bs->seek_fail_after = choose(4, "sfa"); break;
        case 4: bs->truncate_reads_at = (int64_t)near(bs->data.size(), "tr"); basis_trunc = true; cnt("fault.file_shrank"); break;
        case 5: in->fstat_fail = true; break;
        }
    rs_signature_t *s = nullptr;
    if (op == 2) { rs_inbuflen = rs_outbuflen = 0; s = load_ok(sg); rs_inbuflen = ibl; rs_outbuflen = obl; }
    static const size_t vb[] = {0, 1, 2, 16, 100, 512, 4096, 65536};
    FILE *f = sim_open_file(in, "rb", vb[choose(8, "vb")]), *g = sim_open_file(out, "wb", vb[choose(8, "vb")]), *h = sim_open_file(bs, "rb", vb[choose(8, "vb")]);
    rs_stats_t st, *stp = choose(2, "stats") ? &st : nullptr;
    u64 im = in->mutations, bm = bs->mutations;
    int r;
    switch (op) {
    case 0: { Api x("rs_sig_file"); r = rs_sig_file(f, g, a.block_len, a.strong_len, (rs_magic_number)a.magic, stp); break; }
    case 1: { Api x("rs_loadsig_file"); r = rs_loadsig_file(f, &s, stp); break; }
    case 2: { Api x("rs_delta_file"); r = rs_delta_file(s, f, g, stp); break; }
    default: { Api x("rs_patch_file"); r = rs_patch_file(h, f, g, stp); break; }
    }
    int cf = sim_fclose(f), cg = sim_fclose(g), ch = sim_fclose(h);
    (void)cf; (void)ch;
    static const char *OP[] = {"rs_sig_file", "rs_loadsig_file", "rs_delta_file", "rs_patch_file"};
    ev("%s r=%d cg=%d", OP[op], r, cg);
    bool fired = in->f_read || out->f_write || bs->f_read || bs->f_seek;
    auto why = [&] {
        char b[300];
        snprintf(b, sizeof b, "input read errors %llu (at %lld, %s), output write errors %llu, basis read errors %llu, seek errors %llu, rs_inbuflen=%d rs_outbuflen=%d", ULL(in->f_read), (long long)in->read_fail_at,
                 in->read_fail_times > 9 ? "persistent" : "transient", ULL(out->f_write), ULL(bs->f_read), ULL(bs->f_seek), ibl, obl);
        return std::string(b);
    };
    if (in->mutations != im || bs->mutations != bm) fail("input-file-modified", "%s wrote to an input file", OP[op]);
    if (r == RS_DONE) {
        if (op != 3 && in->f_read && in->read_fail_times > 9) fail("read-error-swallowed", "%s returned RS_DONE although reading its input failed: %s", OP[op], why().c_str());
        if (op == 1) {
            if (build_table(s)) fail("build-failed", "rs_build_hash_table failed");
            if (stp && (u64)st.sig_blocks != rs.blocks.size()) fail("io-fault-result", "rs_loadsig_file returned RS_DONE with %lld of %zu blocks: %s", (long long)st.sig_blocks, rs.blocks.size(), why().c_str());
            OpRes d = do_delta(s, P.nf.substr(0, 5000), STREAM);
            DeltaFacts df = check_delta("io-fault-result", d.out, rs, P.nf.substr(0, 5000), rs.blocks.empty());
            if (!rs.blocks.empty() && df.lit_bytes > ref_greedy(rs, P.nf.substr(0, 5000)).lit) fail("io-fault-result", "rs_loadsig_file returned RS_DONE with blocks missing: %s", why().c_str());
        } else if (cg == 0) {
            if (op == 0 && out->data != sg) fail("io-fault-result", "rs_sig_file returned RS_DONE and the file closed without error, but the signature is wrong (%zu of %zu bytes): %s", out->data.size(), sg.size(), why().c_str());
            if (op == 2) check_delta("io-fault-result", out->data, rs, P.nf, rs.blocks.empty());
            if (op == 3) {
                if (basis_trunc) { Bytes w; if (ref_patch(in->data, P.basis.substr(0, (size_t)bs->truncate_reads_at), &w) != RS_DONE) fail("io-fault-result", "rs_patch_file returned RS_DONE although the basis ended early"); }
                if (out->data != P.nf && strong_enough(a.strong_len)) fail("io-fault-result", "rs_patch_file returned RS_DONE and the file closed without error, but the new file is wrong (%zu of %zu bytes): %s", out->data.size(), P.nf.size(), why().c_str());
            }
        }
    } else {
        if (!fired && !basis_trunc) fail("failed-without-fault", "%s returned %s although no fault occurred", OP[op], rsname(r));
        bool ended_ok = basis_trunc && r == RS_INPUT_ENDED;
        if (r != RS_IO_ERROR && !ended_ok) fail("io-fault-code", "%s returned %s for an I/O failure: %s", OP[op], rsname(r), why().c_str());
        // what was written is a prefix of the right output
        if (op == 0 && (out->data.size() > sg.size() || memcmp(out->data.data(), sg.data(), out->data.size()))) {
            if (out->write_fail_times > 9) fail("io-fault-output", "rs_sig_file left bytes that are not a prefix of the signature: %s", why().c_str());
        }
        if (op == 3 && strong_enough(a.strong_len) && out->write_fail_times > 9 && (out->data.size() > P.nf.size() || memcmp(out->data.data(), P.nf.data(), out->data.size())))
            fail("io-fault-output", "rs_patch_file left bytes that are not a prefix of the new file: %s", why().c_str());
    }
    if (s) free_sig(s);
    if (fired || basis_trunc) note_nontrivial();
    sample("%s result=%s close=%d: %s", OP[op], rsname(r), cg, why().c_str());
}

// ------------------------------------------------------------------ rdiff processes
struct RdiffOpts { std::vector<std::string> sig, common; u32 magic; };
static RdiffOpts gen_opts(const SigArgs &a, bool dflt_bl)
{
    RdiffOpts o; o.magic = a.magic;
    if (magic_is_md4(a.magic)) o.sig.push_back(choose(2, "lf") ? "--hash=md4" : "-Hmd4"); else if (choose(2, "eh")) o.sig.push_back("--hash=blake2");
    if (!magic_is_rk(a.magic)) o.sig.push_back(choose(2, "lf") ? "--rollsum=rollsum" : "-Rrollsum"); else if (choose(2, "er")) o.sig.push_back("--rollsum=rabinkarp");
    if (!dflt_bl) { o.sig.push_back("-b" + std::to_string(a.block_len)); o.sig.push_back("-S" + std::to_string(a.strong_len)); }
    static const int sp[] = {0, 1, 2, 5, 13, 64, 100, 1000, 4096, 65536, 100000};
    if (chance(1, 3, "I")) { int v = sp[choose(11, "Iv")]; if (v) o.common.push_back("-I" + std::to_string(v)); }
    if (chance(1, 3, "O")) { int v = sp[choose(11, "Ov")]; if (v) o.common.push_back("-O" + std::to_string(v)); }
    if (chance(1, 5, "s")) o.common.push_back(choose(2, "sl") ? "-s" : "--statistics");
    return o;
}
static const char *ACT[3] = {"signature", "delta", "patch"};
static std::string act_name(int op) { std::string s = ACT[op]; return chance(1, 4, "abbr") ? s.substr(0, 1 + choose(s.size(), "abl")) : s; }

struct Stage {           // one rdiff invocation with its files
    int op; ProcSpec ps; InodeP in1, in2, out; std::string outname; bool out_stdout, in_stdin;
};
static Stage make_stage(int op, const RdiffOpts &o, const std::string &f1, const std::string &f2, const std::string &outn, bool force, bool allow_std)
{
    Stage t; t.op = op; t.outname = outn; t.out_stdout = t.in_stdin = false;
    t.ps.argv = {"rdiff"};
    for (auto &x : o.common) t.ps.argv.push_back(x);
    if (op == 0) for (auto &x : o.sig) t.ps.argv.push_back(x);
    if (force) t.ps.argv.push_back(choose(2, "fl") ? "-f" : "--force");
    t.ps.argv.push_back(act_name(op));
    // operands: op 0: f1 out; op 1: f1(sig) f2(new) out; op 2: f1(basis) f2(delta) out
    int shape = allow_std ? (int)pick({5, 2, 1, 1}, "stdio") : 0;
    if (shape == 1 || shape == 2) t.out_stdout = true;
    if (shape == 3 || shape == 2) t.in_stdin = true;
    if (op == 0) {
        t.in1 = fs_get(f1);
        if (t.in_stdin) { t.ps.in = t.in1; if (!t.out_stdout) t.ps.argv.push_back("-"); }
        else t.ps.argv.push_back(f1);
    } else {
        t.ps.argv.push_back(f1); t.in1 = fs_get(f1); t.in2 = fs_get(f2);
        if (t.in_stdin) { t.ps.in = t.in2; if (!t.out_stdout) t.ps.argv.push_back("-"); }
        else t.ps.argv.push_back(f2);
    }
    if (!t.out_stdout) t.ps.argv.push_back(outn);
    else if (!t.in_stdin && choose(2, "dash")) t.ps.argv.push_back("-");
    return t;
}
static std::string cmdline(const ProcSpec &p) { std::string r; for (auto &s : p.argv) { if (!r.empty()) r += ' '; r += s; } return r; }
static const Bytes &stage_out(const Stage &t) { static Bytes none; if (t.out_stdout) return t.ps.out->data; InodeP i = fs_get(t.outname); return i ? i->data : none; }

// is `got` what stage t must produce?
static bool stage_correct(const Stage &t, const Bytes &got, const Bytes &basis, const Bytes &nf, const Bytes &sigb, const SigArgs *a, u32 magic, std::string *why)
{
    if (t.op == 0) {
        RefSig h;
        if (got.size() < 12) { *why = "shorter than a signature header"; return false; }
        size_t bl = get_be(got, 4, 4), sl = get_be(got, 8, 4);
        if (a) { bl = a->block_len; sl = a->strong_len; }
        if (bl == 0 || sl == 0 || sl > magic_max_strong(magic)) { *why = "bad header"; return false; }
        if (got != ref_sig_encode(ref_sig_make(magic, bl, sl, basis))) { *why = "not the signature of the basis"; return false; }
        return true;
    }
    if (t.op == 1) {
        RefSig rs; std::string w;
        if (ref_sig_parse(sigb, &rs, &w) != SIG_OK) { *why = "stage used a bad signature"; return false; }
        RefDelta d = ref_delta_parse(got);
        if (d.result != RefDelta::DONE || d.used != got.size()) { *why = "not a complete delta"; return false; }
        Bytes o; if (ref_patch(got, basis, &o) != RS_DONE || o != nf) { *why = "does not produce the new file"; return false; }
        return true;
    }
    if (got != nf) { *why = "not the new file"; return false; }
    return true;
}

// rdiff --statistics prints the statistics of what it did, and nothing without it
void c16_rdiff()
{
    g_alloc.fill = choose(65536, "fill");
    SigArgs a = gen_sigargs(); if (a.strong_len < 8) a.strong_len = 8;
    Pair P = gen_pair(a.magic, a.block_len, gen_budget(), false);
    RdiffOpts o = gen_opts(a, false);
    RefSig rs = ref_sig_make(a.magic, a.block_len, a.strong_len, P.basis);
    Bytes sg = ref_sig_encode(rs), dl = ref_delta_bytes(rs, P.nf);
    fs_put("basis", P.basis); fs_put("new", P.nf); fs_put("sig", sg); fs_put("delta", dl);
    int op = (int)choose(3, "op");
    bool want = false; for (auto &x : o.common) if (x == "-s" || x == "--statistics") want = true;
    if (!want && choose(2, "more")) { o.common.push_back(choose(2, "sl") ? "--stats" : "-s"); want = true; }
    Stage t = make_stage(op, o, op == 1 ? "sig" : "basis", op == 1 ? "new" : "delta", "result", false, true);
    t.ps.out = fs_put("", ""); t.ps.out->fifo = true; t.ps.err = fs_put("", ""); t.ps.err->fifo = true;
    if (t.in_stdin) t.ps.in->fifo = true;
    ProcResult r = run_rdiff(t.ps);
    std::string cl = cmdline(t.ps), err = r.err;
    if (r.status || r.aborted) fail("job-failed", "'%s' exited with status %d: %s", cl.c_str(), r.status, err.substr(0, 200).c_str());
    if (!want) { if (err.find("statistics") != std::string::npos) fail("stats-shown", "'%s' printed statistics that were not asked for", cl.c_str()); }
    else {
        auto shows = [&](u64 v) {
            char n[40]; snprintf(n, sizeof n, "%llu", ULL(v));
            for (size_t p = err.find(n); p != std::string::npos; p = err.find(n, p + 1)) if (!(p && (isdigit(err[p - 1]) || err[p - 1] == '.')) && !isdigit(err.c_str()[p + strlen(n)])) return;
            fail("stats-shown", "'%s' does not print the count %s: %s", cl.c_str(), n, err.substr(0, 600).c_str());
        };
        char name[40]; snprintf(name, sizeof name, "%s statistics", ACT[op]);
        if (err.find(name) == std::string::npos) fail("stats-shown", "'%s' printed no statistics: %s", cl.c_str(), err.substr(0, 300).c_str());
        if (op < 2 && !rs.blocks.empty()) { shows(rs.blocks.size()); shows(a.block_len); }
        if (op > 0) {
            DeltaFacts f = delta_facts(op == 1 ? stage_out(t) : dl);
            if (f.lit_cmds) { shows(f.lit_cmds); shows(f.lit_bytes); shows(f.lit_cmdbytes); }
            if (f.copy_cmds) { shows(f.copy_cmds); shows(f.copy_bytes); shows(f.copy_cmdbytes); }
        }
        note_nontrivial();
    }
    sample("%s: %s", cl.c_str(), err.substr(0, 200).c_str());
}

// rdiff given malformed input or a wrong command line
static void bad_command(RdiffOpts &o, const SigArgs &a, const Pair &P)
{
    RefSig rs = ref_sig_make(a.magic, a.block_len, a.strong_len, P.basis);
    Bytes sg = ref_sig_encode(rs), dl = ref_delta_bytes(rs, P.nf);
    InodeP fb = fs_put("basis", P.basis), fn = fs_put("new", P.nf);
    int kind = (int)pick({4, 4, 4}, "badkind");
    ProcSpec ps; std::string cl; ProcResult r;
    if (kind < 2) {
        int op = kind + 1;
        bool expect_ok; RefSig ps1; Bytes want; bool unsure = false;
        if (op == 1) {
            switch (choose(3, "ms")) { case 0: malform_sig(sg); break; case 1: sg = mutate(sg, 3); break; default: sg.resize(choose(sg.size() + 1, "torn")); }
            std::string w; expect_ok = ref_sig_parse(sg, &ps1, &w) == SIG_OK;
            if (expect_ok && (ps1.block_len > (1u << 20) || ps1.strong_len < 8)) unsure = true;
            cnt("fault.malformed_signature");
        } else {
            bool v; size_t keep;
            switch (choose(3, "md")) { case 0: dl = mutate(dl, 3); break; case 1: dl = gen_delta(P.basis, v); break; default: keep = choose(dl.size() + 1, "torn"); dl.resize(keep); }
            size_t bn = P.basis.size();
            int e = ref_patch(dl, [&](u64 pos, char *b, size_t n) -> size_t { if (pos >= bn) return 0; size_t k = bn - pos < n ? bn - pos : n; memcpy(b, P.basis.data() + pos, k); return k; }, 1u << 24, &want);
            expect_ok = e == RS_DONE;
            if (want.size() >= (1u << 24)) return;
            cnt("fault.malformed_delta");
        }
        fs_put("sig", sg); fs_put("delta", dl);
        Stage t = make_stage(op, o, op == 1 ? "sig" : "basis", op == 1 ? "new" : "delta", "result", choose(2, "force"), true);
        t.ps.out = fs_put("", ""); t.ps.out->fifo = true; t.ps.err = fs_put("", ""); t.ps.err->fifo = true;
        if (t.in_stdin) t.ps.in->fifo = true;
        if (chance(1, 4, "shortreads")) { t.in1->read_chunk = 1 + choose(900, "rc"); t.in2->read_chunk = 1 + choose(900, "rc"); }
        r = run_rdiff(t.ps); cl = cmdline(t.ps);
        const Bytes &got = stage_out(t);
        if (r.aborted) fail("rdiff-abort", "'%s' aborted on a malformed %s", cl.c_str(), op == 1 ? "signature" : "delta");
        if (r.status == 0 && !expect_ok) fail("malformed-accepted", "'%s' exited with status 0 although its %s is malformed (%zu bytes)", cl.c_str(), op == 1 ? "signature" : "delta", op == 1 ? sg.size() : dl.size());
        if (r.status != 0 && expect_ok && !unsure) fail("false-failure", "'%s' exited with status %d although its inputs are well-formed: %s", cl.c_str(), r.status, r.err.substr(0, 200).c_str());
        if (r.status == 0 && op == 1 && !unsure) check_delta("false-success", got, ps1, P.nf, ps1.blocks.empty());
        if (r.status == 0 && op == 2 && got != want) fail("false-success", "'%s' exited with status 0 but wrote %zu bytes that are not what the delta describes (%zu)", cl.c_str(), got.size(), want.size());
        if (!expect_ok) note_nontrivial();
    } else {
        fs_put("sig", sg); fs_put("delta", dl);
        static const std::vector<std::vector<std::string>> bad = {
            {"-Hsha1", "signature", "basis", "result"}, {"--hash=MD4", "signature", "basis", "result"}, {"--hash=", "signature", "basis", "result"}, {"--rollsum=adler", "signature", "basis", "result"}, {"-Rrabin", "signature", "basis", "result"},
            {"-S33", "signature", "basis", "result"}, {"-Hmd4", "-S17", "signature", "basis", "result"}, {"-S1000000", "signature", "basis", "result"},
            {"signature", "basis", "result", "extra"}, {"delta", "sig", "new", "result", "extra"}, {"patch", "basis", "delta", "result", "extra"},
            {"delta"}, {"patch"}, {}, {"sgnature", "basis", "result"}, {"patchy", "basis", "delta", "result"}, {"deltas", "sig", "new", "result"}, {"Signature", "basis", "result"},
            {"--nosuch", "signature", "basis", "result"}, {"-Q", "delta", "sig", "new", "result"}, {"-bxyz", "signature", "basis", "result"}, {"-I", "signature"}, {"--block-size"},
            {"--gzip", "delta", "sig", "new", "result"}, {"-z", "delta", "sig", "new", "result"}, {"--bzip2", "delta", "sig", "new", "result"}, {"-i", "delta", "sig", "new", "result"},
            {"signature", "missing", "result"}, {"delta", "missing", "new", "result"}, {"delta", "sig", "missing", "result"}, {"patch", "missing", "delta", "result"}, {"patch", "basis", "missing", "result"},
            {"delta", "basis", "new", "result"}, {"patch", "basis", "sig", "result"}, {"patch", "basis", "new", "result"}, {"delta", "delta", "new", "result"},
        };
        auto &v = bad[choose(bad.size(), "which")];
        ps.argv = {"rdiff"};
        if (choose(2, "common")) for (auto &x : o.common) ps.argv.push_back(x);
        if (chance(1, 4, "force")) ps.argv.push_back("-f");
        for (auto &x : v) ps.argv.push_back(x);
        // files that happen to look right to the reader are not wrong input
        if (v.size() == 4 && v[0] == "delta" && v[1] == "basis") { RefSig q; std::string w; if (ref_sig_parse(P.basis, &q, &w) == SIG_OK) return; }
        if (v.size() == 4 && v[0] == "patch" && v[2] == "new") { Bytes w; if (ref_patch(P.nf, P.basis, &w) == RS_DONE) return; }
        ps.out = fs_put("", ""); ps.out->fifo = true; ps.err = fs_put("", ""); ps.err->fifo = true;
        switch (choose(5, "badin")) {      // standard input may hold something rdiff could use
        case 0: break;
        case 1: ps.in = fs_put("", sg); ps.in->fifo = true; break;
        case 2: ps.in = fs_put("", dl); break;
        case 3: ps.in = fs_put("", P.nf); break;
        case 4: ps.in = fs_put("", sg); break;
        }
        r = run_rdiff(ps); cl = cmdline(ps);
        cnt("fault.bad_command_line");
        if (r.aborted) fail("rdiff-abort", "'%s' aborted", cl.c_str());
        if (r.status == 0) fail("bad-command-accepted", "'%s' exited with status 0", cl.c_str());
        note_nontrivial();
    }
    if (r.status != 0 && r.err.empty()) fail("silent-failure", "'%s' exited with status %d and printed nothing on standard error", cl.c_str(), r.status);
    if (fb->data != P.basis || fn->data != P.nf || fs_get("sig")->data != sg || fs_get("delta")->data != dl) fail("input-modified", "'%s' changed one of its input files", cl.c_str());
    sample("%s status=%d", cl.c_str(), r.status);
}

// ------------------------------------------------------------------ C12
void c12()
{
    g_alloc.fill = choose(65536, "fill");
    SigArgs a = gen_sigargs(); if (a.strong_len < 8) a.strong_len = 8;
    bool dflt = chance(1, 4, "dflt");
    Pair P = gen_pair(a.magic, dflt ? 2048 : a.block_len, gen_budget(), false);
    RdiffOpts o = gen_opts(a, dflt);
    static const u64 vb[] = {0, 1, 2, 16, 100, 512, 4096, 65536};
    g_stdio_bufsz = vb[choose(8, "vb")];
    if (chance(1, 5, "badcommand")) { bad_command(o, a, P); return; }
    fs_put("basis", P.basis); fs_put("new", P.nf);
    int bad = (int)choose(4, "stage");         // which stage gets the trouble (3: none)
    Bytes sigb, deltab;
    bool anyfault = false; std::string desc;
    std::string outs[3] = {"sig", "delta", "out"};
    for (int op = 0; op < 3; op++) {
        std::string f1 = op == 0 ? "basis" : op == 1 ? "sig" : "basis", f2 = op == 1 ? "new" : "delta";
        size_t tries = 0;
        for (;;) {
            bool trouble = bad == op && tries == 0;
            bool force = tries > 0 || chance(1, 5, "force");
            Stage t = make_stage(op, o, f1, f2, outs[op], force, tries == 0 && !(op == 0 && false));
            // inputs get fresh clean inodes each time so that faults of a failed attempt are gone (the operator fixed the disk)
            t.ps.out = fs_put("", ""); t.ps.out->fifo = true;
            t.ps.err = fs_put("", ""); t.ps.err->fifo = true;
            InodeP fin[2] = {t.in1, t.in2};
            for (auto &i : fin) if (i) { InodeP c = fs_put("", i->data); for (auto &n : g_fs.names) if (n.second == i) n.second = c; if (t.ps.in == i) { t.ps.in = c; c->fifo = true; } i = c; }
            t.in1 = fin[0]; t.in2 = fin[1];
            if (chance(1, 3, "readonly")) for (auto &i : fin) if (i) i->no_write = true;
            if (!trouble && chance(1, 4, "shortreads")) for (auto &i : fin) if (i) i->read_chunk = 1 + choose(900, "rc");
            Bytes before1 = t.in1->data, before2 = t.in2 ? t.in2->data : Bytes();
            InodeP outi; bool closefault = false, openfault = false, memfault = false; u64 kill = 0;
            bool existed = (bool)fs_get(outs[op]) && !t.out_stdout;
            if (trouble) {
                size_t expect = op == 0 ? 12 + P.basis.size() / a.block_len * (4 + a.strong_len) : op == 1 ? P.nf.size() / 2 + 10 : P.nf.size();
                switch (pick({4, 4, 2, 2, 3, 1, 1, 1}, "trouble")) {
                case 0: plan_read(*fin[0]); break;
                case 1: if (t.out_stdout) outi = t.ps.out; else { outi = fs_get(outs[op]); if (!outi) { if (!force) { /* created by rdiff: give it its plan when it appears */ } } } break;
                case 2: if (fin[1]) plan_read(*fin[1]); else plan_read(*fin[0]); break;
                case 3: closefault = true; break;
                case 4: kill = 1 + (choose(3, "kk") ? choose(4000, "kill") : choose(200000, "kill")); break;
                case 5: openfault = true; break;
                case 7: memfault = true; break;
                case 6: if (op == 2) { t.in1->seek_fail = true; t.in1->seek_errno = seek_err(); t.in1->seek_fail_after = choose(3, "sfa"); } else t.in1->fstat_fail = true; break;
                }
                if (memfault) { g_alloc.fail_at = g_alloc.count + 1 + choose(16, "memat"); g_alloc.fail_len = chance(1, 3, "memlen") ? 1000 : 1; g_alloc.fired = 0; }
                if (outi) plan_write(*outi, expect);
                bool wantw = !outi && !closefault && !kill && !openfault && !memfault && !fin[0]->seek_fail && !fin[0]->fstat_fail && fin[0]->read_fail_at < 0 && !(fin[1] && fin[1]->read_fail_at >= 0);
                if (wantw || (closefault && !t.out_stdout)) {
                    // the output file does not exist yet: its faults come with the file system
                    static Inode tmpl; tmpl = Inode(); if (wantw) plan_write(tmpl, expect);
                    static bool cl; cl = closefault;
                    std::string on = outs[op];
                    g_fs.on_create = [on](const std::string &p, Inode &i) { if (p == on) { i.capacity = tmpl.capacity; i.write_fail_at = tmpl.write_fail_at; i.write_fail_times = tmpl.write_fail_times; i.write_errno = tmpl.write_errno; i.close_fail = cl; } };
                }
                if (closefault && t.out_stdout) { closefault = false; plan_write(*t.ps.out, expect); }
                if (openfault) { static const int es[] = {EMFILE, EACCES, EIO, ENOMEM, ENOENT}; std::vector<std::string> who; if (!(t.in_stdin && op == 0)) who.push_back(f1); if (op && !t.in_stdin) who.push_back(f2); if (!t.out_stdout) who.push_back(outs[op]); if (who.empty()) openfault = false; else { auto &v = g_fs.open_errs[who[choose(who.size(), "who")]]; int e = es[choose(5, "oe")]; v.push_back(e); v.push_back(e); v.push_back(e); } }
                t.ps.kill_after_blocks = kill;
            }
            ProcResult r = run_rdiff(t.ps);
            g_fs.on_create = nullptr; g_fs.open_errs.clear();
            bool oom = memfault && g_alloc.fired; g_alloc.fail_at = 0;
            if (r.aborted && oom) { r.aborted = false; r.status = 134; }   // giving up with a message is allowed
            InodeP of = t.out_stdout ? t.ps.out : fs_get(outs[op]);
            u64 nfault = t.in1->f_read + t.in1->f_seek + (t.in2 ? t.in2->f_read + t.in2->f_seek : 0) + (of ? of->f_write + of->f_close : 0) + (openfault ? 1 : 0) + (oom ? 1 : 0) + (r.crashed ? 1 : 0);
            if (nfault) anyfault = true;
            Bytes got = of ? of->data : Bytes();
            if (trouble) { desc = cmdline(t.ps); char b[200]; snprintf(b, sizeof b, " status=%d killed=%d faults=%llu", r.status, r.crashed, ULL(nfault)); desc += b; }
            if (t.in1->data != before1 || (t.in2 && t.in2->data != before2)) fail("input-modified", "'%s' changed one of its input files", cmdline(t.ps).c_str());
            if (r.aborted) fail("rdiff-abort", "'%s' aborted", cmdline(t.ps).c_str());
            std::string why;
            if (!r.crashed && r.status == 0) {
                if (!stage_correct(t, got, P.basis, P.nf, sigb, dflt ? nullptr : &a, a.magic, &why))
                    fail("false-success", "'%s' exited with status 0 but its output (%zu bytes) is wrong: %s (faults fired: in %llu/%llu, out write %llu, close %llu)", cmdline(t.ps).c_str(), got.size(), why.c_str(), ULL(t.in1->f_read + t.in1->f_seek), ULL(t.in2 ? t.in2->f_read : 0), ULL(of ? of->f_write : 0), ULL(of ? of->f_close : 0));
                // (a file that is never closed by rdiff itself has an error at its close that rdiff cannot have seen)
                if (of && (of->f_close || of->close_fail)) fail("false-success", "'%s' exited with status 0 although closing its output failed", cmdline(t.ps).c_str());
                if (of && of->f_write && of->write_fail_times > 9) fail("false-success", "'%s' exited with status 0 although writing its output failed", cmdline(t.ps).c_str());
                (op == 0 ? sigb : deltab) = got;
                InodeP i = fs_put("", got); g_fs.names[outs[op]] = i;
                break;
            }
            if (!r.crashed && !nfault && !(existed && !force)) fail("false-failure", "'%s' exited with status %d although nothing went wrong: %s", cmdline(t.ps).c_str(), r.status, r.err.substr(0, 200).c_str());
            if (!r.crashed && r.err.empty()) fail("silent-failure", "'%s' exited with status %d and printed nothing on standard error", cmdline(t.ps).c_str(), r.status);
            // a torn delta is never accepted by a later patch
            if (op == 1 && of && !got.empty()) {
                RefDelta d = ref_delta_parse(got);
                if (d.result != RefDelta::DONE && choose(2, "usetorn")) {
                    fs_put("torn", got);
                    Stage u = make_stage(2, o, "basis", "torn", "tornout", true, false);
                    ProcResult q = run_rdiff(u.ps);
                    cnt("fault.torn_stream");
                    if (q.status == 0) fail("torn-delta-accepted", "rdiff patch accepted the %zu bytes that a failed or killed 'rdiff delta' left behind", got.size());
                }
            }
            if (!t.out_stdout) if (InodeP h = fs_get(outs[op])) {   // the trouble goes away, what was written stays
                InodeP n = fs_put("", h->data); n->no_read = h->no_read; g_fs.names[outs[op]] = n;
            }
            if (++tries > 1) fail("retry-failed", "'%s' failed again (status %d) after the fault had gone", cmdline(t.ps).c_str(), r.status);
        }
    }
    if (anyfault) note_nontrivial();
    sample("basis=%zu new=%zu %s", P.basis.size(), P.nf.size(), desc.empty() ? "no trouble" : desc.c_str());
}

// ------------------------------------------------------------------ C13
void c13()
{
    g_alloc.fill = choose(65536, "fill");
    SigArgs a = gen_sigargs(); if (a.strong_len < 8) a.strong_len = 8;
    Pair P = gen_pair(a.magic, a.block_len, choose(3, "small") ? 600 : 20000, false);
    RdiffOpts o = gen_opts(a, false);
    RefSig rs = ref_sig_make(a.magic, a.block_len, a.strong_len, P.basis);
    Bytes sg = ref_sig_encode(rs), dl = ref_delta_bytes(rs, P.nf);
    fs_put("basis", P.basis); fs_put("new", P.nf); fs_put("sig", sg); fs_put("delta", dl);
    int op = (int)choose(3, "op");
    std::string f1 = op == 0 ? "basis" : op == 1 ? "sig" : "basis", f2 = op == 1 ? "new" : "delta";
    int how = (int)pick({4, 2, 2, 3, 2, 2}, "how");   // 0 exists 1 exists unreadable 2 exists empty 3 appears before the write-open 4 does not exist 5 appears at some earlier operation
    bool force = chance(1, 4, "force");
    bool badinput = chance(1, 6, "badinput");
    Bytes old = how == 2 ? Bytes() : "precious " + gen_content(choose(5000, "oldlen"));
    std::string outn = chance(1, 5, "sameasinput") && how <= 1 ? (op == 0 ? "basis" : f2) : "target";
    bool same = outn != "target";
    if (same) { force = false; old = fs_get(outn)->data; how = 0; }
    InodeP pre;
    static std::string tn;          // the name of the output: plain, in a directory, or very long
    switch (pick({6, 1, 1, 1, 1}, "name")) {
    case 1: tn = "dir/target"; break;
    case 2: tn = "/some/where/target"; break;
    case 3: tn = "./target"; break;
    case 4: tn = ""; { size_t n = 1 + choose(20, "deep"); for (size_t i = 0; i < n; i++) tn += std::string(1 + choose(200, "comp"), (char)('a' + i)) + "/"; tn += "target"; } break;
    default: tn = "target"; break;
    }
    if (!same) outn = tn;
    if (how <= 2 && !same) { pre = fs_put(tn, old); if (how == 1) { pre->no_read = true; cnt("fault.unreadable_target"); } }
    if (same) pre = fs_get(outn);
    if (badinput && !same) { InodeP x = fs_get(f2 == "delta" && op == 2 ? "delta" : f1); x->data = mutate(x->data, 3); }
    Stage t = make_stage(op, o, f1, f2, outn, force, false);
    if (!same && chance(1, 3, "readonly")) { t.in1->no_write = true; if (t.in2) t.in2->no_write = true; cnt("fault.readonly_input"); }
    t.ps.out = fs_put("", ""); t.ps.out->fifo = true; t.ps.err = fs_put("", ""); t.ps.err->fifo = true;
    static InodeP raced; raced = nullptr;
    static u64 seen; seen = 0;
    u64 at = how == 5 ? 1 + choose(6, "raceat") : 0;
    if (how == 3 || how == 5) {
        Bytes content = old;
        bool unread = chance(1, 4, "runread");
        int hw = how;
        g_fs.pre_op = [content, at, unread, hw](const std::string &, const std::string &p, const std::string &mode) {
            if (raced) return;
            seen++;
            bool go = hw == 5 ? seen >= at : (p == tn && (mode[0] == 'w' || mode == "open"));
            if (go && !fs_get(tn)) { raced = fs_put(tn, content); raced->no_read = unread; cnt("fault.racing_creation"); ev("race: target created"); }
        };
    }
    std::map<std::string, std::pair<InodeP, Bytes>> snap;
    for (auto &n : g_fs.names) snap[n.first] = {n.second, n.second->data};
    if (chance(1, 6, "kill")) t.ps.kill_after_blocks = 1 + choose(3000, "kill");
    ProcResult r = run_rdiff(t.ps);
    g_fs.pre_op = nullptr;
    std::string cl = cmdline(t.ps);
    for (auto &n : snap) {
        if (n.first == outn && (force || !pre)) continue;
        InodeP cur = fs_get(n.first);
        if (n.first == outn) {
            if (cur != n.second.first || cur->data != n.second.second) fail("overwritten", "'%s' without --force destroyed the existing file %s (%zu bytes%s)", cl.c_str(), outn.c_str(), n.second.second.size(), how == 1 ? ", unreadable" : "");
        } else if (cur != n.second.first || cur->data != n.second.second) fail("input-modified", "'%s' changed %s", cl.c_str(), n.first.c_str());
    }
    if (raced && !force) {
        InodeP cur = fs_get(tn);
        // created before rdiff opened its output: it was there first
        bool ours = false;
        for (auto &e : g_fs.history) if (e.op == "open" && e.path == tn && e.created && e.ok) ours = true;
        if (!ours && (cur != raced || cur->data != old)) fail("overwritten", "'%s' without --force destroyed a file that was created while it was starting", cl.c_str());
    }
    bool protect = !force && (pre || (raced && how == 3));
    if (protect && !r.crashed && r.status == 0) fail("overwrite-status", "'%s' exited with status 0 although its output file existed and --force was not given", cl.c_str());
    if (!r.crashed && !protect && !badinput && !raced && r.status != 0) fail("false-failure", "'%s' exited with status %d: %s", cl.c_str(), r.status, r.err.substr(0, 200).c_str());
    if (!r.crashed && !protect && !badinput && r.status == 0) {
        std::string why; InodeP of = fs_get(outn);
        if (!of || !stage_correct(t, of->data, P.basis, P.nf, sg, &a, a.magic, &why)) fail("wrong-output", "'%s' exited with status 0 but %s is wrong (%s)", cl.c_str(), outn.c_str(), why.c_str());
    }
    if (r.aborted) fail("rdiff-abort", "'%s' aborted", cl.c_str());
    if (!r.out.empty()) fail("stray-output", "'%s' wrote %zu bytes to standard output", cl.c_str(), r.out.size());
    if (pre || raced) note_nontrivial();
    sample("%s target=%s status=%d killed=%d", cl.c_str(), how == 0 ? (same ? "is an input" : "exists") : how == 1 ? "exists, unreadable" : how == 2 ? "exists, empty" : how == 3 ? "appears at open" : how == 4 ? "absent" : "appears", r.status, r.crashed);
}
