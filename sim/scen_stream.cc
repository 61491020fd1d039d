// Scenarios over the streaming, pull and whole-file interfaces.
#include "drive.h"
#include <cstdlib>

static const char *MODE[] = {"stream", "pull", "file"};
#define ULL(x) ((unsigned long long)(x))

static void expect_done(const char *cls, const char *what, int r, Mode m)
{
    if (r != RS_DONE) fail(cls, "%s (%s) returned %s without any fault", what, MODE[m], rsname(r));
}
static void begin_run() { quiet_logs(); g_alloc.fill = choose(65536, "fill"); }

static void mem_basis(Basis &b, const Bytes &m) { b.mem = &m; }

// ------------------------------------------------------------------ C01
void c01()
{
    begin_run();
    SigArgs a = gen_sigargs();
    size_t budget = gen_budget();
    bool strong = strong_enough(a.strong_len);
    Pair P = gen_pair(a.magic, a.block_len, budget, strong);
    SigArgs req = a;
    if (chance(1, 6, "defaults")) { req = SigArgs{choose(2, "dm") ? a.magic : 0u, 0, 0}; strong = true; }
    Bytes basis = P.basis, target = P.nf;
    size_t rounds = 1 + (chance(1, 5, "history") ? choose(3, "rounds") : 0);
    u64 copies = 0, lits = 0, calls = 0;
    for (size_t k = 0; k < rounds; k++) {
        Mode m1 = gen_mode(), m2 = gen_mode(), m3 = gen_mode(), m4 = gen_mode();
        clock_noise();
        // a session: one open stream of the basis serves the signature and several patches
        FILE *fp = chance(1, 5, "session") ? in_file(basis, true) : nullptr;
        OpRes sg = do_sig(basis, req, m1, fp);
        expect_done("sig-failed", "signature", sg.r, m1);
        rs_signature_t *s;
        OpRes ld = do_load(sg.out, &s, m2);
        expect_done("load-failed", "loading the signature", ld.r, m2);
        if (int r = build_table(s)) fail("build-failed", "rs_build_hash_table returned %s", rsname(r));
        size_t nd = fp ? 2 + choose(3, "uses") : 1 + chance(1, 6, "reuse_sig"), cut = 0;
        size_t ebl = req.block_len ? req.block_len : 256;
        for (size_t q = 0; q < nd; q++) {
            Bytes want = q == 0 ? target : basis + gen_content(choose(200, "x"));
            if (fp && choose(3, "pieces")) {        // consecutive runs of blocks of the basis
                size_t nb = (basis.size() - cut) / ebl, take = nb ? (1 + choose(nb, "take")) * ebl : basis.size() - cut;
                want = basis.substr(cut, take); cut += take;
                if (choose(2, "more")) want += gen_content(choose(50, "x"));
                if (cut >= basis.size()) cut = 0;
            }
            if (fp && q) m4 = gen_mode();
            if (fp && chance(1, 3, "moved")) {      // the caller uses its stream in between
                if (choose(2, "how")) fseek(fp, (long)choose(basis.size() + 1, "to"), SEEK_SET);
                else { char b1[8]; fseek(fp, 0, SEEK_SET); if (fread(b1, 1, choose(9, "few"), fp) > 8) harness_error("fread"); }
            }
            OpRes dl = do_delta(s, want, m3);
            expect_done("delta-failed", "delta", dl.r, m3);
            Basis bs; mem_basis(bs, basis); gen_basis_behaviour(bs); bs.fp = fp;
            OpRes pt = do_patch(bs, dl.out, m4);
            expect_done("patch-failed", "patch", pt.r, m4);
            DeltaFacts f = delta_facts(dl.out);
            copies += f.copy_cmds; lits += f.lit_cmds; calls += sg.calls + ld.calls + dl.calls + pt.calls;
            if (pt.out != want) {
                if (!strong) {
                    RefSig rs; std::string why;
                    if (ref_sig_parse(sg.out, &rs, &why) != SIG_OK) fail("roundtrip", "signature malformed: %s", why.c_str());
                    check_delta("roundtrip", dl.out, rs, want, rs.blocks.empty());
                    Bytes ref; ref_patch(dl.out, basis, &ref);
                    if (ref == pt.out) { cnt("excused_short_strong_collision"); continue; }
                }
                size_t d = 0; while (d < want.size() && d < pt.out.size() && want[d] == pt.out[d]) d++;
                fail("roundtrip", "patch result (%zu bytes) differs from the new file (%zu bytes) at offset %zu; basis %zu, block_len %zu, strong_len %zu, magic %x", pt.out.size(), want.size(), d, basis.size(), req.block_len, req.strong_len, req.magic);
            }
        }
        free_sig(s);
        if (fp) sim_fclose(fp);
        basis = target;
        if (k + 1 < rounds) target = mutate(basis, 3);
    }
    if (copies && lits && calls > 8) note_nontrivial();
    sample("basis=%zu new=%zu magic=%x block=%zu strong=%zu rounds=%zu copies=%llu literals=%llu calls=%llu", P.basis.size(), P.nf.size(), req.magic, req.block_len, req.strong_len, rounds, ULL(copies), ULL(lits), ULL(calls));
}

// ------------------------------------------------------------------ C02
static void cmp_outputs(const char *what, const OpRes &x, const OpRes &y, Mode m, Mode n)
{
    if (x.r != y.r) fail("result-depends-on-schedule", "%s: %s as %s but %s as %s", what, rsname(x.r), MODE[m], rsname(y.r), MODE[n]);
    if (x.r == RS_DONE) {
        if (x.out != y.out) {
            size_t d = 0; while (d < x.out.size() && d < y.out.size() && x.out[d] == y.out[d]) d++;
            fail("output-depends-on-schedule", "%s: outputs of %zu (%s) and %zu (%s) bytes differ at offset %zu", what, x.out.size(), MODE[m], y.out.size(), MODE[n], d);
        }
    } else {
        size_t k = x.out.size() < y.out.size() ? x.out.size() : y.out.size();
        if (memcmp(x.out.data(), y.out.data(), k)) fail("output-depends-on-schedule", "%s: partial outputs before the error differ", what);
    }
}
void c02()
{
    begin_run();
    SigArgs a = gen_sigargs();
    size_t budget = gen_budget();
    Pair P = gen_pair(a.magic, a.block_len, budget, true);
    size_t reps = 2 + chance(1, 5, "three");
    int op = (int)choose(4, "op");
    u64 calls = 0;
    size_t olen = 0;
    OpRes first; Mode fm = STREAM;
    Bytes sigb, input;
    bool valid = true;
    if (op == 0) input = P.basis;
    if (op == 1 || op == 2) {
        RefSig rs = ref_sig_make(a.magic, a.block_len, a.strong_len, P.basis);
        sigb = ref_sig_encode(rs);
        if (op == 2 && chance(1, 2, "mutsig")) sigb = mutate(sigb, 3);
    }
    Bytes delta;
    if (op == 3) {
        if (choose(2, "dsrc")) { delta = gen_delta(P.basis, valid); }
        else {
            GreedyResult g = ref_greedy(ref_sig_make(a.magic, a.block_len, a.strong_len, P.basis), P.nf);
            put_be(delta, M_DELTA, 4);
            size_t p = 0;
            for (auto &c : g.cmds) { if (c.kind == K_LIT) { delta += enc_lit_hdr(c.len); delta += P.nf.substr(p, c.len); } else delta += enc_copy(c.pos, c.len); p += c.len; }
            delta.push_back(0);
        }
        if (chance(1, 3, "mutd")) delta = mutate(delta, 2);
    }
    for (size_t k = 0; k < reps; k++) {
        g_alloc.fill = choose(65536, "fill");
        Mode m = gen_mode();
        clock_noise();
        OpRes o;
        if (op == 0) o = do_sig(P.basis, a, m);
        else if (op == 1) {
            rs_signature_t *s = load_ok(sigb);
            o = do_delta(s, P.nf, m);
            free_sig(s);
        } else if (op == 2) {
            rs_signature_t *s;
            o = do_load(sigb, &s, m);
            if (o.r == RS_DONE) {
                if (build_table(s)) fail("build-failed", "rs_build_hash_table failed");
                OpRes d = do_delta(s, P.nf.substr(0, 3000), STREAM);
                if (d.r) fail("delta-failed", "delta returned %s", rsname(d.r));
                o.out = d.out;
                if (sigb.size() == 12) o.out.clear();
            }
            if (s) free_sig(s);
        } else {
            Basis b; mem_basis(b, P.basis); gen_basis_behaviour(b);
            o = do_patch(b, delta, m);
        }
        calls += o.calls; olen = o.out.size();
        if (op == 1 && P.basis.empty() && o.r == RS_DONE) {       // literal-only delta: only the meaning is fixed
            Bytes ref; int r = ref_patch(o.out, P.basis, &ref);
            if (r || ref != P.nf) fail("output-depends-on-schedule", "literal-only delta does not describe the new file");
            continue;
        }
        if (k == 0) { first = o; fm = m; }
        else cmp_outputs(op == 0 ? "signature" : op == 1 ? "delta" : op == 2 ? "loadsig" : "patch", first, o, fm, m);
    }
    if (calls > 6 && olen > 20) note_nontrivial();
    static const char *OP[] = {"signature", "delta", "loadsig", "patch"};
    sample("%s basis=%zu new=%zu block=%zu executions=%zu calls=%llu output=%zu result=%s", OP[op], P.basis.size(), P.nf.size(), a.block_len, reps, ULL(calls), olen, rsname(first.r));
}

// ------------------------------------------------------------------ C03
void c03()
{
    begin_run();
    SigArgs a = gen_sigargs();
    size_t budget = gen_budget();
    Pair P = gen_pair(a.magic, a.block_len, budget, true);
    Bytes data = choose(2, "which") ? P.nf : P.basis;
    SigArgs req = a;
    bool defbl = false;
    if (chance(1, 4, "defaults")) {
        if (choose(2, "dm")) req.magic = 0;
        if (choose(2, "db")) { req.block_len = 0; defbl = true; }
        if (choose(2, "ds")) req.strong_len = 0;
        if (choose(3, "dmin") == 0) req.strong_len = (size_t)-1;
        if (req.magic == 0 && req.strong_len > 32 && req.strong_len != (size_t)-1) req.strong_len = 0;
    }
    Mode m = gen_mode();
    bool minsl = req.strong_len == (size_t)-1, known = true;
    FILE *fp = nullptr;
    if (m == WHOLE) {        // a regular file, a pipe, or a file whose size cannot be had
        InodeP in = fs_put("", data);
        switch (choose(3, "size")) { case 0: in->fifo = true; known = false; break; case 1: in->fstat_fail = true; known = false; cnt("fault.fstat"); break; }
        static const size_t vbs[] = {0, 100, 4096, 65536};
        fp = sim_open_file(in, "rb", vbs[choose(4, "vb")]);
    } else known = false;
    OpRes o = do_sig(data, req, m, fp);
    if (fp) sim_fclose(fp);
    expect_done("sig-failed", "signature", o.r, m);
    u32 em = eff_magic(req.magic);
    size_t es = minsl ? 0 : eff_strong(em, req.strong_len), eb = req.block_len;
    if (o.out.size() < 12) fail("sig-format", "signature of %zu bytes is shorter than its header", o.out.size());
    if (defbl || minsl) {    // what is left open is what the library recommends for the size, or for no known size
        rs_magic_number rm = (rs_magic_number)req.magic; size_t rb = req.block_len, rl = req.strong_len; int rr;
        { Api x("rs_sig_args"); rr = rs_sig_args(known ? (rs_long_t)data.size() : -1, &rm, &rb, &rl); }
        if (rr) fail("sig-args", "rs_sig_args returned %s", rsname(rr));
        size_t gb = get_be(o.out, 4, 4), gl = get_be(o.out, 8, 4);
        if (gb != rb || gl != rl || (!known && minsl && rl != 12)) fail("sig-args", "%s signature of a %s of %zu bytes has block_len %zu strong_len %zu, recommended %zu and %zu", MODE[m], known ? "file" : "stream", data.size(), gb, gl, rb, rl);
        if (minsl) es = gl;
    }
    if (defbl) {
        eb = get_be(o.out, 4, 4);
        if (eb < 1 || eb > 0x7fffffff) fail("sig-format", "default block length %zu", eb);
        if (!known && eb != 2048) fail("sig-format", "default block length is %zu, documented 2048", eb);
    }
    Bytes want = ref_sig_encode(ref_sig_make(em, eb, es, data));
    if (o.out != want) {
        size_t d = 0; while (d < want.size() && d < o.out.size() && want[d] == o.out[d]) d++;
        fail("sig-format", "signature (%zu bytes) differs from the format reference (%zu bytes) at offset %zu: file %zu bytes, magic %x block_len %zu strong_len %zu", o.out.size(), want.size(), d, data.size(), em, eb, es);
    }
    if (data.size() > eb && data.size() % eb) note_nontrivial();
    sample("file=%zu magic=%x block=%zu strong=%zu mode=%s calls=%llu", data.size(), em, eb, es, MODE[m], ULL(o.calls));
}

// ------------------------------------------------------------------ C04, C05
static RefSig gen_any_sig(const SigArgs &a, const Pair &P, int &kind)
{
    RefSig s{a.magic, (u32)a.block_len, (u32)a.strong_len, {}};
    kind = (int)pick({5, 1, 2, 4, 2, 1}, "sigkind");
    const Bytes &nf = P.nf;
    switch (kind) {
    case 0: return ref_sig_make(a.magic, a.block_len, a.strong_len, P.basis);
    case 1: return ref_sig_make(a.magic, a.block_len, a.strong_len, nf);
    case 2: {
        size_t n = choose(60, "ngarb"); Rng r(choose(0xffffffff, "gseed"));
        for (size_t i = 0; i < n; i++) { Bytes st(a.strong_len, 0); for (auto &c : st) c = (char)r.next(); s.blocks.push_back({(u32)r.next(), st}); }
        return s;
    }
    case 3: {    // sums of windows of the new file, in any order, any multiplicity, some short
        size_t n = choose(chance(1, 6, "many") ? 400 : 40, "nwin"); Rng r(choose(0xffffffff, "wseed"));
        for (size_t i = 0; i < n; i++) {
            if (nf.empty()) break;
            size_t p = r.below(3) == 0 ? nf.size() - 1 - r.below(nf.size() < a.block_len + 2 ? nf.size() : a.block_len + 2) : r.below(nf.size());
            size_t w = nf.size() - p < a.block_len ? nf.size() - p : a.block_len;
            if (r.below(8) == 0 && w > 1) w -= r.below(w);
            u32 wk = ref_weak(a.magic, nf.data() + p, w);
            Bytes st = ref_strong(a.magic, nf.data() + p, w, a.strong_len);
            u64 z = r.below(12);
            if (z <= 2 && (u64)nf.size() * std::max<size_t>(a.block_len, 128) > 40000000ULL) z = 11;   // a wrong strong sum may cost one hash per byte
            if (z == 0) wk ^= 1u << r.below(32);                               // strong right, weak wrong
            if (z == 1) st[r.below(st.size())] ^= (char)(1 << r.below(8));       // weak right, strong wrong
            if (z == 2 && st.size() > 1) st[st.size() - 1] ^= (char)(1 + r.below(255));  // only the last byte wrong
            s.blocks.push_back({wk, st});
            if (r.below(6) == 0) s.blocks.push_back(s.blocks[r.below(s.blocks.size())]);
        }
        return s;
    }
    case 5: {    // many blocks that share a weak sum, the ones with the right strong sum anywhere among them
        if (nf.empty() || (u64)nf.size() * std::max<size_t>(a.block_len, 128) > 40000000ULL) return s;
        Rng r(choose(0xffffffff, "cseed"));
        u64 most = 20000000 / (nf.size() + 1) + 2;
        size_t n = choose(chance(1, 3, "hard") ? 3000 : 300, "nsame"); if (n > most) n = most;
        size_t nk = 1 + choose(3, "nweak");
        for (size_t k = 0; k < nk; k++) {
            size_t p = r.below(nf.size());
            if (nf.size() > a.block_len && p > nf.size() - a.block_len) p = nf.size() - a.block_len;
            size_t w = nf.size() - p < a.block_len ? nf.size() - p : a.block_len;
            u32 wk = ref_weak(a.magic, nf.data() + p, w);
            Bytes right = ref_strong(a.magic, nf.data() + p, w, a.strong_len);
            for (size_t i = 0; i < n / nk; i++) {
                Bytes st(a.strong_len, 0); for (auto &c : st) c = (char)r.next();
                s.blocks.push_back({wk, st});
            }
            s.blocks.push_back({wk, right});
            if (r.below(2)) s.blocks.push_back({(u32)r.next(), right});
        }
        if (r.below(2)) for (size_t i = s.blocks.size(); i > 1; i--) std::swap(s.blocks[i - 1], s.blocks[r.below(i)]);
        cnt("sig.many_same_weak");
        return s;
    }
    default: {
        s = ref_sig_make(a.magic, a.block_len, a.strong_len, P.basis);
        Rng r(choose(0xffffffff, "mseed"));
        size_t k = 1 + choose(6, "nmut");
        for (size_t i = 0; i < k && !s.blocks.empty(); i++) {
            auto &b = s.blocks[r.below(s.blocks.size())];
            switch (r.below(4)) {
            case 0: b.first ^= 1u << r.below(32); break;
            case 1: b.second[r.below(b.second.size())] ^= (char)(1 + r.below(255)); break;
            case 2: b = s.blocks[r.below(s.blocks.size())]; break;
            case 3: std::swap(b, s.blocks[r.below(s.blocks.size())]); break;
            }
        }
        return s;
    }
    }
}
// Put so many foreign blocks somewhere between the others that later ones lie 2 GiB or 4 GiB further in the basis.
static void spread(RefSig &rs)
{
    if (rs.block_len < 65536 || rs.blocks.size() < 2 || !chance(1, 2, "far")) return;
    u64 n = ((choose(3, "farby") ? 1ULL << 32 : 1ULL << 31) + rs.block_len / 2) / rs.block_len + choose(3, "farmore");
    size_t at = 1 + choose(rs.blocks.size() - 1, "farat");
    Rng r(choose(0xffffffff, "farseed"));
    std::vector<std::pair<u32, Bytes>> f(n);
    for (auto &b : f) { b.first = (u32)r.next(); b.second.assign(rs.strong_len, 0); for (auto &c : b.second) c = (char)r.next(); }
    rs.blocks.insert(rs.blocks.begin() + at, f.begin(), f.end());
    cnt("sig.blocks_beyond_2GiB");
}
static void delta_common(bool compact)
{
    begin_run();
    SigArgs a = gen_sigargs();
    size_t budget = gen_budget();
    Pair P = gen_pair(a.magic, a.block_len, budget, true);
    int kind;
    bool nosig = !compact && chance(1, 12, "nosig");
    RefSig rs = gen_any_sig(a, P, kind);
    tame(P.nf, rs);
    spread(rs);
    if (compact && rs.blocks.empty()) rs = ref_sig_make(a.magic, a.block_len, a.strong_len, "some old block");
    rs_signature_t *s = nullptr;
    if (nosig) rs.blocks.clear();
    else if (chance(1, 3, "loadmode")) {
        Mode lm = gen_mode();
        OpRes l = do_load(ref_sig_encode(rs), &s, lm);
        expect_done("load-failed", "loading a well-formed signature", l.r, lm);
        if (int r = build_table(s)) fail("build-failed", "rs_build_hash_table: %s", rsname(r));
    } else
        s = load_ok(ref_sig_encode(rs));
    Mode m = gen_mode();
    size_t uses = 1 + chance(1, 8, "second");
    OpRes o; DeltaFacts f{};
    for (size_t u = 0; u < uses; u++) {
        o = do_delta(s, P.nf, m);
        expect_done("delta-failed", "delta", o.r, m);
        if (!compact) f = check_delta("delta-wrong", o.out, rs, P.nf, rs.blocks.empty());
        else {
            f = delta_facts(o.out);
            GreedyResult g = ref_greedy(rs, P.nf);
            RefDelta rd = ref_delta_parse(o.out);
            if (rd.result != RefDelta::DONE) fail("delta-malformed", "delta is not well-formed");
            if (f.lit_bytes > g.lit) fail("missed-match", "delta sends %llu literal bytes where greedy block matching needs %llu (new file %zu, block_len %zu, %zu blocks in the signature)", ULL(f.lit_bytes), ULL(g.lit), P.nf.size(), a.block_len, rs.blocks.size());
            if (o.out.size() > g.size + g.size / 50 + 24) fail("delta-too-big", "delta of %zu bytes where the reference encoding needs %llu (copies %llu against %llu)", o.out.size(), ULL(g.size), ULL(f.copy_cmds), ULL(g.copies));
        }
    }
    if (s) free_sig(s);
    if (f.copy_cmds && f.lit_cmds) note_nontrivial();
    sample("new=%zu sig_kind=%d blocks=%zu block=%zu strong=%zu magic=%x mode=%s copies=%llu lit_bytes=%llu delta=%zu", P.nf.size(), kind, rs.blocks.size(), a.block_len, a.strong_len, a.magic, MODE[m], ULL(f.copy_cmds), ULL(f.lit_bytes), o.out.size());
}
void c04() { delta_common(false); }
void c05() { delta_common(true); }

// ------------------------------------------------------------------ C06
static Bytes any_delta(const Pair &P, const SigArgs &a, bool &valid)
{
    Bytes d;
    switch (pick({5, 3, 1}, "dkind")) {
    case 0: d = gen_delta(P.basis, valid); break;
    case 1: {
        valid = true;
        GreedyResult g = ref_greedy(ref_sig_make(a.magic, a.block_len, a.strong_len, P.basis), P.nf);
        put_be(d, M_DELTA, 4);
        size_t p = 0;
        for (auto &c : g.cmds) { if (c.kind == K_LIT) { d += enc_lit_hdr(c.len); d += P.nf.substr(p, c.len); } else d += enc_copy(c.pos, c.len); p += c.len; }
        d.push_back(0);
        break;
    }
    default: valid = false; d = gen_content(choose(40, "junk")); if (choose(2, "jm")) { Bytes h; put_be(h, M_DELTA, 4); d = h + d; } break;
    }
    return d;
}
void c06()
{
    begin_run();
    SigArgs a = gen_sigargs();
    Pair P = gen_pair(a.magic, a.block_len, gen_budget() / 2 + 1, false);
    bool valid;
    Bytes d = any_delta(P, a, valid);
    if (chance(1, 3, "mut")) { d = mutate(d, 3); valid = false; }
    if (chance(1, 4, "trail")) d += gen_content(choose(50, "trail"));
    Bytes want; int wr = ref_patch(d, P.basis, &want);
    Basis b; mem_basis(b, P.basis); gen_basis_behaviour(b);
    b.zero_len_at_end = chance(1, 4, "zeroend");
    Mode m = gen_mode();
    OpRes o = do_patch(b, d, m);
    if (o.r != wr) {
        // a file position the file layer cannot represent may also be reported as an I/O error
        bool exempt = false;
        if (m == WHOLE && wr == RS_INPUT_ENDED && o.r == RS_IO_ERROR) { RefDelta rd = ref_delta_parse(d); for (auto &c : rd.cmds) if (c.kind == K_COPY && c.pos > (1ULL << 61)) exempt = true; }
        if (!exempt) fail("patch-result", "patch returned %s where the format defines %s (delta %zu bytes: %s)", rsname(o.r), rsname(wr), d.size(), hexs(d, 40).c_str());
    }
    if (wr == RS_DONE) {
        if (o.out != want) { size_t k = 0; while (k < want.size() && k < o.out.size() && want[k] == o.out[k]) k++; fail("patch-output", "patch wrote %zu bytes, the delta defines %zu; first difference at %zu", o.out.size(), want.size(), k); }
    } else if (o.out.size() > want.size() || memcmp(o.out.data(), want.data(), o.out.size()))
        fail("patch-output", "output before the error is not a prefix of what the delta defines (%zu / %zu bytes)", o.out.size(), want.size());
    RefDelta rd = ref_delta_parse(d);
    if (wr == RS_DONE && m == STREAM && o.taken != rd.used) fail("patch-consumed", "patch took %llu of %zu input bytes; the end command ends at %zu", ULL(o.taken), d.size(), (size_t)rd.used);
    if (rd.cmds.size() > 2) note_nontrivial();
    sample("delta=%zu bytes commands=%zu basis=%zu mode=%s result=%s output=%zu", d.size(), rd.cmds.size(), P.basis.size(), MODE[m], rsname(o.r), o.out.size());
}

// ------------------------------------------------------------------ C07
void c07()
{
    begin_run();
    SigArgs a = gen_sigargs();
    Pair P = gen_pair(a.magic, a.block_len, choose(4, "small") ? 600 : 30000, false);
    if (choose(3, "what")) {
        // torn delta
        bool valid; Bytes d;
        do d = any_delta(P, a, valid); while (0);
        RefDelta rd = ref_delta_parse(d);
        if (rd.result != RefDelta::DONE) { Bytes w; put_be(w, M_DELTA, 4); w += enc_lit_hdr(5); w += "hello"; w.push_back(0); d = w; rd = ref_delta_parse(d); }
        d.resize(rd.used);
        Bytes full; ref_patch(d, P.basis, &full);
        std::vector<size_t> cuts;
        if (d.size() <= 60) for (size_t i = 0; i < d.size(); i++) cuts.push_back(i);
        else {
            for (size_t i = 0; i < 10; i++) switch (pick({3, 2, 2}, "cutkind")) {
            case 0: cuts.push_back(choose(d.size(), "cut")); break;
            case 1: { const Cmd &c = rd.cmds[choose(rd.cmds.size(), "cutcmd")]; size_t p = c.at + choose(c.hdr + 1, "cutoff"); if (p < d.size()) cuts.push_back(p); break; }
            default: cuts.push_back(d.size() - 1 - choose(d.size() < 20 ? d.size() : 20, "cutend")); break;
            }
        }
        for (size_t c : cuts) {
            Bytes t = d.substr(0, c), want;
            int wr = ref_patch(t, P.basis, &want);
            cnt("fault.torn_stream");
            Basis b; mem_basis(b, P.basis); gen_basis_behaviour(b);
            Mode m = gen_mode();
            OpRes o = do_patch(b, t, m);
            if (o.r == RS_DONE) fail("torn-delta-accepted", "patch reported success on the first %zu of %zu delta bytes", c, d.size());
            if (wr == RS_INPUT_ENDED && o.r != RS_INPUT_ENDED) fail("torn-delta-result", "patch returned %s for a delta cut at %zu of %zu", rsname(o.r), c, d.size());
            if (o.out.size() > full.size() || memcmp(o.out.data(), full.data(), o.out.size())) fail("torn-delta-output", "output before the cut is not a prefix of the new file");
        }
        // and the retry with the whole stream succeeds
        Basis b; mem_basis(b, P.basis);
        Bytes ref; int wr = ref_patch(d, P.basis, &ref);
        OpRes o = do_patch(b, d, gen_mode());
        if (o.r != wr || (wr == 0 && o.out != ref)) fail("retry-failed", "patch of the complete delta after torn attempts returned %s", rsname(o.r));
        if (rd.cmds.size() > 1 && !cuts.empty()) note_nontrivial();
        sample("torn delta: %zu bytes, %zu commands, %zu cut points", d.size(), rd.cmds.size(), cuts.size());
    } else {
        Bytes sg = ref_sig_encode(ref_sig_make(a.magic, a.block_len, a.strong_len, P.basis));
        size_t e = 4 + a.strong_len;
        std::vector<size_t> cuts;
        if (sg.size() <= 60) for (size_t i = 0; i < sg.size(); i++) cuts.push_back(i);
        else for (size_t i = 0; i < 12; i++) cuts.push_back(i < 4 ? sg.size() - 1 - choose(e + 6 < sg.size() ? e + 6 : sg.size(), "cutend") : choose(sg.size(), "cut"));
        for (size_t c : cuts) {
            bool okcut = c >= 12 && (c - 12) % e == 0;
            rs_signature_t *s;
            Mode m = gen_mode();
            cnt("fault.torn_stream");
            OpRes o = do_load(sg.substr(0, c), &s, m);
            if (!okcut && o.r == RS_DONE) fail("torn-signature-accepted", "loading succeeded on a signature cut at byte %zu of %zu (entry size %zu)", c, sg.size(), e);
            if (okcut && o.r != RS_DONE) fail("boundary-cut-rejected", "loading a signature that ends at a block boundary returned %s", rsname(o.r));
            if (!okcut && o.r != RS_INPUT_ENDED) fail("torn-signature-result", "loading a signature cut at %zu returned %s", c, rsname(o.r));
            if (s) free_sig(s);
        }
        rs_signature_t *s; OpRes o = do_load(sg, &s, gen_mode());
        if (o.r != RS_DONE) fail("retry-failed", "loading the complete signature returned %s", rsname(o.r));
        free_sig(s);
        if (sg.size() > 12 + e) note_nontrivial();
        sample("torn signature: %zu bytes, entry %zu, %zu cut points", sg.size(), e, cuts.size());
    }
}

// ------------------------------------------------------------------ C08, C09: any job, any input
// a signature with a header or an end that is at, or beyond, the limits of the format
void malform_sig(Bytes &b)
{
    size_t n = 1 + choose(2, "hdrs");
    for (size_t i = 0; i < n; i++) switch (choose(7, "hdr")) {
    case 0: { static const u32 ms[] = {0, 1, 0x72730135, 0x72730138, 0x72730145, 0x72730148, M_DELTA, 0x36017372, 0x72730156, 0x72730157, 0xf2730136, 0x72730137 ^ 0x100, 0x72730126, 0x72730127, 0xffffffff}; u32 mg = ms[choose(15, "m")]; for (int q = 0; q < 4; q++) b[q] = (char)(mg >> (24 - 8 * q)); break; }
    case 1: { static const u32 bs[] = {0, 1, 2, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x7ffffffe, 65536, 0x10000000, 0xfffff000u}; u32 v = bs[choose(10, "b")]; for (int q = 0; q < 4; q++) b[4 + q] = (char)(v >> (24 - 8 * q)); break; }
    case 2: { static const u32 ss[] = {0, 1, 2, 15, 16, 17, 31, 32, 33, 64, 0x7fffffff, 0x80000000u, 0xffffffffu, 255, 256, 0x100, 0x10000, 0x01000010}; u32 v = ss[choose(18, "s")]; for (int q = 0; q < 4; q++) b[8 + q] = (char)(v >> (24 - 8 * q)); break; }
    case 3: b.resize(choose(b.size() + 1, "cut")); if (b.size() < 12) i = 9; break;
    case 4: b += gen_content(1 + choose(40, "ext")); break;
    case 5: { u32 mg = (u32)choose(0xffffffff, "rm"); for (int q = 0; q < 4; q++) b[q] = (char)(mg >> (24 - 8 * q)); break; }
    case 6: b[choose(12, "hb")] = (char)choose(256, "hv"); break;
    }
}
struct AnyJob { rs_job_t *job = nullptr; rs_signature_t *sig = nullptr; Basis basis; Bytes input; const char *name; bool has_out; Pair P; SigArgs a; int kind; bool badargs = false; };
// blocks longer than the largest literal command, a new file of few pieces cut at block boundaries
static void wide_pair(AnyJob &J)
{
    static const size_t bl[] = {65535, 65536, 65537, 66000, 70000, 98304, 131072};
    J.a = gen_sigargs(); J.a.block_len = bl[choose(7, "wbl")]; if (J.a.strong_len < 8) J.a.strong_len = 8;
    size_t b = J.a.block_len, nb = 1 + choose(4, "wnb");
    J.P = Pair(); J.P.crafted = false;
    Rng r(choose(0xffffffff, "wseed"));
    J.P.basis.assign(nb * b, 0);
    for (auto &c : J.P.basis) c = (char)r.next();
    if (chance(1, 3, "wtail")) J.P.basis.resize(nb * b - choose(b, "wcut"));
    size_t np = 1 + choose(4, "wnp");
    for (size_t i = 0; i < np; i++) switch (pick({3, 2, 1}, "wop")) {
    case 0: { size_t k = choose(nb, "wk"); J.P.nf += J.P.basis.substr(k * b, b * (1 + choose(2, "wc"))); break; }
    case 1: J.P.nf += gen_content(1 + choose(70, "wl")); break;
    default: J.P.nf += gen_content(32760 + choose(20, "wl")); break;
    }
}
static void make_job(AnyJob &J, size_t budget, bool corrupt, bool wide = false)
{
    if (wide) wide_pair(J);
    else {
        J.a = gen_sigargs();
        J.P = gen_pair(J.a.magic, J.a.block_len, budget, true);
    }
    J.kind = wide && choose(4, "wdelta") ? 2 : (int)choose(5, "jobkind");
    switch (J.kind) {
    case 0:
        if (corrupt && chance(1, 12, "badargs")) {
            J.badargs = true; cnt("fault.bad_arguments");
            if (choose(2, "which")) J.a.strong_len = magic_max_strong(J.a.magic) + 1 + choose(100, "over"); else J.a.magic ^= 1u << choose(31, "mbit");
            for (u32 mg : {M_MD4, M_BLAKE2, M_RK_MD4, M_RK_BLAKE2}) if (mg == J.a.magic && J.a.strong_len <= magic_max_strong(mg)) J.badargs = false;
        }
        { Api x("rs_sig_begin"); J.job = rs_sig_begin(J.a.block_len, J.a.strong_len, (rs_magic_number)J.a.magic); } J.input = J.P.basis; J.name = "sig"; J.has_out = true; break;
    case 1: {
        J.input = ref_sig_encode(ref_sig_make(J.a.magic, J.a.block_len, J.a.strong_len, J.P.basis));
        if (corrupt && choose(2, "mut")) { if (choose(2, "how")) malform_sig(J.input); else J.input = mutate(J.input, 3); }
        { Api x("rs_loadsig_begin"); J.job = rs_loadsig_begin(&J.sig); }
        J.name = "loadsig"; J.has_out = false; break;
    }
    case 2: {
        int k; RefSig rs = wide ? ref_sig_make(J.a.magic, J.a.block_len, J.a.strong_len, J.P.basis) : gen_any_sig(J.a, J.P, k);
        if (!wide) tame(J.P.nf, rs);
        J.sig = load_ok(ref_sig_encode(rs));
        { Api x("rs_delta_begin"); J.job = rs_delta_begin(J.sig); }
        J.input = J.P.nf; J.name = "delta"; J.has_out = true; break;
    }
    case 3: { Api x("rs_delta_begin"); J.job = rs_delta_begin(nullptr); } J.input = J.P.nf; J.name = "slack-delta"; J.has_out = true; break;
    default: {
        bool v; J.input = any_delta(J.P, J.a, v);
        if (corrupt && chance(1, 3, "mut")) J.input = mutate(J.input, 3);
        mem_basis(J.basis, J.P.basis); gen_basis_behaviour(J.basis);
        { Api x("rs_patch_begin"); J.job = rs_patch_begin(basis_cb, &J.basis); }
        J.name = "patch"; J.has_out = true; break;
    }
    }
}
static void done_job(AnyJob &J)
{
    { Api a("rs_job_free"); rs_job_free(J.job); }
    if (J.sig) free_sig(J.sig);
}
void c08()
{
    begin_run();
    bool wide = chance(1, 10, "wide");
    AnyJob J; make_job(J, gen_budget(), true, wide);
    Sched sc = gen_sched();
    if (wide && choose(2, "whold")) { sc.in = Pol{0, 0}; sc.hold = 1 + choose(2 * J.a.block_len, "wholdn"); sc.late_eof = true; sc.resplit = false; sc.out.kind = 1; sc.out.k = 1 + choose(40, "wout"); }
    else if (chance(1, 3, "starve")) { sc.in.kind = 3; sc.out.kind = 3; sc.late_eof = true; cnt("fault.starvation"); }
    if (J.kind == 4 && chance(1, 3, "cbblock")) { J.basis.block_every = 1 + choose(4, "be"); J.basis.block_burst = 1 + choose(3, "bb"); if (J.basis.block_every == 1) J.basis.block_every = 2; }
    if (J.kind == 4) J.basis.zero_len_at_end = chance(1, 3, "zeroend");
    Stream s(J.job, J.name, J.input, sc);
    s.no_out = !J.has_out;
    J.basis.stream = &s;
    int r = s.run();
    // a completed job has no business with a well-formed input other than success
    if (J.badargs ? r == RS_DONE : r != RS_DONE && (J.kind == 0 || J.kind == 2 || J.kind == 3)) fail("job-failed", "%s job returned %s without any fault", J.name, rsname(r));
    done_job(J);
    if (s.calls > 6) note_nontrivial();
    sample("%s input=%zu calls=%llu output=%zu result=%s starved=%d copy_cb_blocked=%llu", J.name, J.input.size(), ULL(s.calls), s.out.size(), rsname(r), sc.in.kind == 3 && sc.out.kind == 3, ULL(J.basis.blocked));
}
void c09()
{
    begin_run();
    g_overlend = strcmp(g_variant, "dbg") != 0;
    AnyJob J; make_job(J, gen_budget(), true);
    if (chance(1, 4, "pull")) {
        Pull p; p.in = J.input.data(); p.n = J.input.size(); p.sc = gen_sched(); p.have_out = J.has_out;
        int r = pull_drive(J.job, p);
        sample("%s pull input=%zu result=%s", J.name, J.input.size(), rsname(r));
        if (p.incalls > 3) note_nontrivial();
    } else {
        Sched sc = gen_sched();
        if (choose(2, "ro")) sc.readonly = true;
        Stream s(J.job, J.name, J.input, sc);
        s.no_out = !J.has_out;
        J.basis.stream = &s;
        int r = s.run();
        if (s.calls > 3) note_nontrivial();
        sample("%s input=%zu calls=%llu output=%zu result=%s readonly=%d misalign=%d", J.name, J.input.size(), ULL(s.calls), s.out.size(), rsname(r), sc.readonly, sc.misalign);
    }
    done_job(J);
}

// ------------------------------------------------------------------ C10
void c10()
{
    begin_run();
    g_overlend = strcmp(g_variant, "dbg") != 0;
    SigArgs a = gen_sigargs();
    static const int codes[] = {RS_IO_ERROR, RS_MEM_ERROR, RS_INPUT_ENDED, RS_CORRUPT, RS_BAD_MAGIC, RS_PARAM_ERROR, RS_SYNTAX_ERROR, RS_UNIMPLEMENTED, RS_TEST_SKIPPED, 200, 31};
    int code = codes[choose(11, "code")];
    int what = (int)choose(5, "what");
    bool fired = false;
    if (what <= 2) {
        Pair P = gen_pair(a.magic, a.block_len, gen_budget() / 2 + 1, false);
        RefSig rs = ref_sig_make(a.magic, a.block_len, a.strong_len, P.basis);
        GreedyResult g = ref_greedy(rs, P.nf);
        Bytes d; put_be(d, M_DELTA, 4); size_t p = 0;
        for (auto &c : g.cmds) { if (c.kind == K_LIT) { d += enc_lit_hdr(c.len); d += P.nf.substr(p, c.len); } else d += enc_copy(c.pos, c.len); p += c.len; }
        d.push_back(0);
        Basis b; mem_basis(b, P.basis); gen_basis_behaviour(b);
        Bytes want; int wr = ref_patch(d, P.basis, &want);
        if (wr) harness_error("reference delta does not apply");
        rs_job_t *j; { Api x("rs_patch_begin"); j = rs_patch_begin(basis_cb, &b); }
        int r; Bytes got; u64 calls;
        if (what == 0) {            // error from the copy callback comes back verbatim, output stays a prefix
            b.err = code; b.err_at = 1 + choose(6, "errat"); b.err_len = (int)choose(5, "errlen");
            bool pull = choose(2, "pull");
            if (pull) { Pull pp; pp.in = d.data(); pp.n = d.size(); pp.sc = gen_sched(); r = pull_drive(j, pp); got = pp.out; calls = pp.incalls; }
            else { Stream s(j, "patch", d, gen_sched()); b.stream = &s; r = s.run(); got = s.out; calls = s.calls; }
            if (b.err_fired) { cnt("fault.copy_cb_error"); fired = true; if (r != code) fail("callback-error-lost", "copy callback returned %s, the job returned %s", rsname(code), rsname(r)); }
            else if (r != RS_DONE || got != want) fail("patch-failed", "patch returned %s without a fault", rsname(r));
            if (got.size() > want.size() || memcmp(got.data(), want.data(), got.size())) fail("callback-error-output", "output before the callback error is not a prefix of the new file");
        } else if (what == 1) {     // RS_BLOCKED from the copy callback suspends and resumes
            b.block_every = 1 + choose(4, "be"); b.block_burst = 1 + choose(4, "bb");
            if (b.block_every == 1) b.block_every = 2;
            bool pull = chance(1, 4, "pull");
            if (pull) { Pull pp; pp.in = d.data(); pp.n = d.size(); pp.sc = gen_sched(); r = pull_drive(j, pp); got = pp.out; calls = pp.incalls; }
            else { Stream s(j, "patch", d, gen_sched()); b.stream = &s; r = s.run(); got = s.out; calls = s.calls; }
            fired = b.blocked;
            if (r != RS_DONE) fail("blocked-callback", "patch returned %s after the copy callback blocked %llu times", rsname(r), ULL(b.blocked));
            if (got != want) fail("blocked-callback", "patch output differs after the copy callback blocked %llu times", ULL(b.blocked));
        } else {                    // a basis that ends early, reported as a zero-length success or as INPUT_ENDED
            Bytes cut = P.basis.substr(0, P.basis.empty() ? 0 : choose(P.basis.size(), "cutbasis"));
            Bytes w2; int r2 = ref_patch(d, cut, &w2);
            b.mem = &cut; b.zero_len_at_end = choose(2, "zero");
            Stream s(j, "patch", d, gen_sched()); b.stream = &s; r = s.run(); got = s.out; calls = s.calls;
            fired = r2 != 0;
            if (r2 == 0 ? r != 0 : r != RS_INPUT_ENDED) fail("short-basis", "patch returned %s on a basis that ends early (reference %s, zero-length success=%d)", rsname(r), rsname(r2), b.zero_len_at_end);
            if (r2 == 0 && got != w2) fail("short-basis", "patch output differs");
            if (got.size() > w2.size() || memcmp(got.data(), w2.data(), got.size())) fail("short-basis", "output is not a prefix of what the basis allows");
            if (fired) cnt("fault.basis_truncated");
        }
        { Api x("rs_job_free"); rs_job_free(j); }
        if (fired) note_nontrivial();
        sample("copy callback: case %d code=%s delta=%zu result=%s fired=%d calls=%llu", what, rsname(code), d.size(), rsname(r), fired, ULL(calls));
    } else {
        // pull-mode input / output callbacks
        AnyJob J; make_job(J, gen_budget() / 2 + 1, false);
        // expected full output from an undisturbed streaming execution of the same operation is not needed:
        // only the result and prefix-consistency with a second execution are checked.
        Pull p; p.in = J.input.data(); p.n = J.input.size(); p.sc = gen_sched(); p.have_out = J.has_out;
        int icode = chance(1, 4, "blocked") ? (int)RS_BLOCKED : code;
        if (what == 3 || !J.has_out) { p.in_err = icode; p.in_err_at = 1 + choose(5, "at"); }
        else { p.out_err = icode; p.out_err_at = 1 + choose(5, "at"); }
        rs_buffers_t b; memset(&b, 0x5a, sizeof b);
        int r;
        { Api x("rs_job_drive"); r = rs_job_drive(J.job, &b, pull_in, &p, p.have_out ? pull_out : nullptr, &p); }
        fired = p.in_fired || p.out_fired;
        if (fired) cnt(p.in_fired ? "fault.in_cb_error" : "fault.out_cb_error");
        if (fired && r != icode) fail("callback-error-lost", "%s callback returned %s, rs_job_drive returned %s", p.in_fired ? "input" : "output", rsname(icode), rsname(r));
        if (!fired && r != RS_DONE && J.kind != 4) fail("drive-failed", "rs_job_drive returned %s without a fault", rsname(r));
        if (fired && J.kind != 4) {
            // the job can be continued by hand from where it stopped
            if (p.in_fired && b.avail_in + 0 <= p.icopy.size() && chance(2, 3, "continue")) {
                p.pos += p.ibuf ? p.icopy.size() - b.avail_in : 0;
                if (p.obuf) p.out.append(p.obuf, p.ocap - b.avail_out);
                Bytes rest = J.input.substr(p.pos);
                Stream s(J.job, J.name, rest, gen_sched()); s.no_out = !J.has_out;
                int r2 = s.run();
                if (r2 != RS_DONE) fail("continue-failed", "job returned %s when continued after the input callback's %s", rsname(r2), rsname(icode));
                Bytes all = p.out + s.out;
                if (J.kind == 0) { if (all != ref_sig_encode(ref_sig_make(J.a.magic, J.a.block_len, J.a.strong_len, J.P.basis))) fail("continue-output", "signature differs after continuing"); }
                else if (J.kind == 2 || J.kind == 3) {
                    RefDelta rd = ref_delta_parse(all);
                    u64 tot = 0; for (auto &c : rd.cmds) tot += c.kind == K_END ? 0 : c.len;
                    if (rd.result != RefDelta::DONE || tot != J.P.nf.size()) fail("continue-output", "delta is malformed after continuing");
                }
            }
        }
        done_job(J);
        if (fired) note_nontrivial();
        sample("pull callback: %s %s returns %s at call %llu, drive=%s", J.name, p.in_err_at ? "input" : "output", rsname(icode), ULL(p.in_err_at + p.out_err_at), rsname(r));
    }
}

// ------------------------------------------------------------------ C15
void c15()
{
    begin_run();
    size_t base = g_alloc.live_count;
    int what = (int)pick({6, 2, 2}, "what");
    if (what == 0) {
        AnyJob J; make_job(J, gen_budget(), true);
        Stream s(J.job, J.name, J.input, gen_sched());
        s.no_out = !J.has_out; J.basis.stream = &s;
        u64 stop = choose(3, "stop") ? choose(40, "after") : choose(3000, "after");
        if (J.kind == 4 && chance(1, 4, "cberr")) { J.basis.err = RS_IO_ERROR; J.basis.err_at = 1 + choose(5, "at"); cnt("fault.copy_cb_error"); }
        int r = RS_BLOCKED;
        if (stop) r = s.run(stop);
        if (r == RS_BLOCKED) { cnt("fault.cancel"); note_nontrivial(); }
        done_job(J);
        if (g_alloc.live_count != base) fail("leak", "%zu allocations (%zu bytes) still held after a %s job was freed after %llu calls (result %s):%s", g_alloc.live_count - base, g_alloc.live_bytes, J.name, ULL(s.calls), rsname(r), alloc_live_desc().c_str());
        sample("%s cancelled after %llu calls, result %s, input=%zu", J.name, ULL(s.calls), rsname(r), J.input.size());
    } else if (what == 1) {
        // a signature outlives its loader and any number of (cancelled) delta jobs
        SigArgs a = gen_sigargs(); if (!strong_enough(a.strong_len)) a.strong_len = 8;
        Pair P = gen_pair(a.magic, a.block_len, gen_budget(), false);
        rs_signature_t *s;
        OpRes l = do_load(ref_sig_encode(ref_sig_make(a.magic, a.block_len, a.strong_len, P.basis)), &s, gen_mode());
        if (l.r) fail("load-failed", "loadsig returned %s", rsname(l.r));
        if (build_table(s)) fail("build-failed", "rs_build_hash_table failed");
        size_t k = 1 + choose(4, "jobs");
        for (size_t i = 0; i < k; i++) {
            rs_job_t *j; { Api x("rs_delta_begin"); j = rs_delta_begin(s); }
            Stream st(j, "delta", P.nf, gen_sched());
            u64 stop = choose(30, "after");
            if (stop) st.run(stop);
            { Api x("rs_job_free"); rs_job_free(j); }
            cnt("fault.cancel");
        }
        OpRes d = do_delta(s, P.nf, gen_mode());
        if (d.r) fail("delta-failed", "delta returned %s after cancelled delta jobs on the same signature", rsname(d.r));
        Bytes out; int r = ref_patch(d.out, P.basis, &out);
        if (r || out != P.nf) fail("signature-damaged", "delta from a signature used by cancelled jobs is wrong");
        free_sig(s);
        if (g_alloc.live_count != base) fail("leak", "%zu allocations still held after everything was freed:%s", g_alloc.live_count - base, alloc_live_desc().c_str());
        note_nontrivial();
        sample("signature of %zu blocks shared by %zu cancelled jobs and one complete delta of %zu bytes", (P.basis.size() + a.block_len - 1) / a.block_len, k, P.nf.size());
    } else {
        // whole-file calls release everything on success and on failure
        SigArgs a = gen_sigargs();
        Pair P = gen_pair(a.magic, a.block_len, gen_budget(), false);
        Bytes sg = ref_sig_encode(ref_sig_make(a.magic, a.block_len, a.strong_len, P.basis));
        set_buflens(WHOLE);
        int op = (int)choose(4, "fop"); int r = 0;
        rs_stats_t st;
        InodeP in = fs_put("", op == 0 ? P.basis : op == 1 ? sg : P.nf), out = fs_put("", ""), bs = fs_put("", P.basis);
        if (op == 3) { bool v; in->data = any_delta(P, a, v); if (choose(2, "mut")) in->data = mutate(in->data, 2); }
        if (op == 1 && choose(2, "mut")) malform_sig(in->data);
        if (op == 0 && chance(1, 6, "badargs")) { cnt("fault.bad_arguments"); if (choose(2, "which")) a.strong_len = magic_max_strong(a.magic) + 1 + choose(100, "over"); else a.magic ^= 1u << choose(31, "mbit"); }
        if (choose(2, "rfail")) in->read_fail_at = (int64_t)choose(in->data.size() + 1, "at");
        if (chance(1, 3, "wfail")) out->capacity = (int64_t)choose(300, "cap");
        rs_signature_t *s = nullptr;
        if (op == 2) s = load_ok(sg);
        size_t before = g_alloc.live_count;
        FILE *f = sim_open_file(in, "rb", 0), *g = sim_open_file(out, "wb", choose(2, "ub") ? 1 : 0), *h = sim_open_file(bs, "rb", 0);
        switch (op) {
        case 0: { Api x("rs_sig_file"); r = rs_sig_file(f, g, a.block_len, a.strong_len, (rs_magic_number)a.magic, &st); break; }
        case 1: { Api x("rs_loadsig_file"); r = rs_loadsig_file(f, &s, &st); break; }
        case 2: { Api x("rs_delta_file"); r = rs_delta_file(s, f, g, &st); break; }
        default: { Api x("rs_patch_file"); r = rs_patch_file(h, f, g, &st); break; }
        }
        if (op != 1 && g_alloc.live_count != before) fail("leak", "whole-file operation %d returned %s and left %zu allocations:%s", op, rsname(r), g_alloc.live_count - before, alloc_live_desc().c_str());
        sim_fclose(f); sim_fclose(g); sim_fclose(h);
        if (s) free_sig(s);
        if (g_alloc.live_count != base) fail("leak", "whole-file operation %d returned %s; %zu allocations held after the signature was freed:%s", op, rsname(r), g_alloc.live_count - base, alloc_live_desc().c_str());
        if (r) note_nontrivial();
        sample("whole-file op %d result %s", op, rsname(r));
    }
}

// ------------------------------------------------------------------ C16
static Bytes g_stats_msg;
extern "C" void stats_sink(rs_loglevel, char const *msg) { g_stats_msg += msg; }
static void check_format(const rs_stats_t &st)
{
    // formatting never leaves the buffer it was given
    size_t size = choose(4, "fsz") ? choose(260, "size") : 1 + choose(60, "size");
    if (size == 0) size = 1;
    char *b = (char *)malloc(size);
    memset(b, 'Z', size);
    char *r; { Api x("rs_format_stats"); r = rs_format_stats(&st, b, size); }
    if (r != b) fail("stats-format", "rs_format_stats returned a different pointer");
    if (!memchr(b, 0, size)) fail("stats-format", "rs_format_stats did not terminate the text within %zu bytes", size);
    char big[1000];
    { Api x("rs_format_stats"); rs_format_stats(&st, big, sizeof big); }
    size_t bl = strlen(big);
    if (strlen(b) != (bl < size ? bl : size - 1) || memcmp(b, big, strlen(b))) fail("stats-format", "text in a %zu byte buffer is not the full text cut to size: '%s' / '%s'", size, b, big);
    char op[64]; snprintf(op, sizeof op, "%s statistics", st.op ? st.op : "noop");
    if (bl < 900 && strncmp(big, op, strlen(op))) fail("stats-format", "statistics text does not start with the operation: '%s'", big);
    if (bl < 900) {
        auto shows = [&](long long v) {
            char t[40]; snprintf(t, sizeof t, "%lld", v);
            for (char *p = big; (p = strstr(p, t)); p++) if (!(p > big && (isdigit(p[-1]) || p[-1] == '.')) && !isdigit(p[strlen(t)])) return;
            fail("stats-format", "the text does not show the count %lld: '%s'", v, big);
        };
        if (st.lit_cmds) { shows(st.lit_cmds); shows(st.lit_bytes); shows(st.lit_cmdbytes); }
        if (st.copy_cmds) { shows(st.copy_cmds); shows(st.copy_bytes); shows(st.copy_cmdbytes); }
        if (st.sig_blocks) { shows(st.sig_blocks); if (st.block_len < 1u << 31) shows((long long)st.block_len); }
    }
    if (bl < 900 && (strstr(big, "(inf") || strstr(big, "(-inf") || strstr(big, "nan MB"))) fail("stats-format", "the text shows a number that is not finite: '%s'", big);
    free(b);
    g_stats_msg.clear();
    { Api x("rs_trace_to"); rs_trace_to(stats_sink); rs_trace_set_level(RS_LOG_INFO); }
    { Api x("rs_log_stats"); rs_log_stats(&st); }
    quiet_logs();
    if (bl < 900 && g_stats_msg.find(big) == Bytes::npos) fail("stats-format", "rs_log_stats logged '%s', the formatted text is '%s'", g_stats_msg.c_str(), big);
}
void c16_rdiff();
void c16()
{
    if (chance(1, 10, "rdiff")) { c16_rdiff(); return; }
    begin_run();
    SigArgs a = gen_sigargs();
    Pair P = gen_pair(a.magic, a.block_len, gen_budget(), false);
    int op = (int)choose(4, "op");
    Mode m = gen_mode();
    RefSig rs = ref_sig_make(a.magic, a.block_len, a.strong_len, P.basis);
    OpRes o; Bytes in;
    static std::vector<int64_t> ticks;      // every value the clock returned during the job
    ticks.clear();
    if (chance(1, 3, "clockjump")) g_clock_hook = [] { switch (pick({3, 1, 1}, "tick")) { case 0: g_clock += (int64_t)choose(100, "dt"); break; case 1: g_clock -= (int64_t)choose(5000, "dt"); cnt("fault.clock_jump_back"); break; default: g_clock += (int64_t)choose(0x7fffffff, "dt"); cnt("fault.clock_jump_forward"); break; } ticks.push_back(g_clock); };
    else g_clock_hook = [] { ticks.push_back(g_clock); };
    switch (op) {
    case 0: {
        SigArgs req = a;
        // an argument left at zero: the statistics show what was used for it
        if (m != WHOLE && chance(1, 8, "defaults")) { req.block_len = 0; a.block_len = 2048; rs = ref_sig_make(a.magic, a.block_len, a.strong_len, P.basis); }
        in = P.basis; o = do_sig(in, req, m); break;
    }
    case 1: { in = ref_sig_encode(rs); rs_signature_t *s; o = do_load(in, &s, m); if (s) free_sig(s); break; }
    case 2: { in = P.nf; auto h = g_clock_hook; g_clock_hook = nullptr; rs_signature_t *s = load_ok(ref_sig_encode(rs)); g_clock_hook = h; o = do_delta(s, in, m); free_sig(s); break; }
    default: {
        bool v; in = any_delta(P, a, v);
        RefDelta rd = ref_delta_parse(in);
        Bytes t; if (rd.result != RefDelta::DONE || ref_patch(in, P.basis, &t)) { in.clear(); put_be(in, M_DELTA, 4); in += enc_lit_hdr(3); in += "abc"; in.push_back(0); }
        Basis b; mem_basis(b, P.basis); gen_basis_behaviour(b);
        o = do_patch(b, in, m); break;
    }
    }
    g_clock_hook = nullptr;
    static const char *OP[] = {"signature", "loadsig", "delta", "patch"};
    expect_done("job-failed", OP[op], o.r, m);
    const rs_stats_t &s = o.st;
    if (!s.op || strcmp(s.op, OP[op])) fail("stats-op", "operation name '%s', expected '%s'", s.op ? s.op : "(null)", OP[op]);
    auto eq = [&](const char *n, long long got, u64 want) { if ((u64)got != want) fail("stats-wrong", "%s: statistic %s is %lld, the stream has %llu", OP[op], n, got, ULL(want)); };
    DeltaFacts f{};
    if (op == 2) f = delta_facts(o.out);
    if (op == 3) f = delta_facts(in);
    if (op >= 2) {
        eq("lit_cmds", s.lit_cmds, f.lit_cmds); eq("lit_bytes", s.lit_bytes, f.lit_bytes); eq("lit_cmdbytes", s.lit_cmdbytes, f.lit_cmdbytes);
        eq("copy_cmds", s.copy_cmds, f.copy_cmds); eq("copy_bytes", s.copy_bytes, f.copy_bytes); eq("copy_cmdbytes", s.copy_cmdbytes, f.copy_cmdbytes);
    } else {
        eq("sig_blocks", s.sig_blocks, rs.blocks.size()); eq("block_len", (long long)s.block_len, a.block_len);
        eq("lit_cmds", s.lit_cmds, 0); eq("copy_cmds", s.copy_cmds, 0);
    }
    if (m == WHOLE) { if (op != 3 || ref_delta_parse(in).used == in.size()) eq("in_bytes", s.in_bytes, in.size()); eq("out_bytes", s.out_bytes, o.out.size()); }
    if (!ticks.empty()) {
        // both times are readings of the clock made during this job, the start's not after the end's
        size_t i = 0, j = ticks.size();
        while (i < ticks.size() && ticks[i] != (int64_t)s.start) i++;
        if (i == ticks.size()) fail("stats-time", "start time %lld is not a time the clock showed during the job", (long long)s.start);
        while (j > 0 && ticks[j - 1] != (int64_t)s.end) j--;
        if (!j) fail("stats-time", "end time %lld is not a time the clock showed during the job", (long long)s.end);
        if (j - 1 < i || (ticks.size() > 1 && i == j - 1 && i != 0 && i != ticks.size() - 1)) fail("stats-time", "start time %lld was read after end time %lld", (long long)s.start, (long long)s.end);
        if (ticks.size() > 1 && j - 1 == 0) fail("stats-time", "end time %lld was taken when the job started", (long long)s.end);
    }
    check_format(s);
    if (chance(1, 3, "wild")) {      // formatting of arbitrary values
        rs_stats_t w = s;
        u64 k = choose(0xffffffff, "wseed"); Rng r(k);
        w.lit_cmds = (int)r.next(); w.lit_bytes = (rs_long_t)r.next(); w.copy_cmds = (rs_long_t)r.next(); w.copy_bytes = (rs_long_t)r.next(); w.copy_cmdbytes = (rs_long_t)r.next();
        w.sig_cmds = (rs_long_t)r.below(2); w.sig_blocks = (rs_long_t)r.next(); w.in_bytes = (rs_long_t)r.next(); w.out_bytes = (rs_long_t)r.next(); w.end = w.start + (time_t)r.below(3) - 1;
        if (r.below(4) == 0) w.op = nullptr; else if (r.below(3) == 0) w.op = "100%% of %s and %n";
        check_format(w);
    }
    if (f.lit_cmds + f.copy_cmds > 1 || rs.blocks.size() > 1) note_nontrivial();
    sample("%s mode=%s literals=%d/%lld copies=%lld/%lld blocks=%lld in=%lld out=%lld", OP[op], MODE[m], s.lit_cmds, (long long)s.lit_bytes, (long long)s.copy_cmds, (long long)s.copy_bytes, (long long)s.sig_blocks, (long long)s.in_bytes, (long long)s.out_bytes);
}

// ------------------------------------------------------------------ C20
void c20()
{
    begin_run();
    Bytes b;
    int k = (int)pick({4, 4, 1}, "kind");
    SigArgs a = gen_sigargs();
    Pair P = gen_pair(a.magic, a.block_len, choose(5, "sz") ? 600 : 20000, false);
    b = ref_sig_encode(ref_sig_make(a.magic, a.block_len, a.strong_len, P.basis));
    if (k == 1) malform_sig(b);
    else if (k == 2) b = gen_content(choose(80, "junk"));
    RefSig rs; std::string why;
    SigVerdict v = ref_sig_parse(b, &rs, &why);
    rs_signature_t *s;
    Mode m = gen_mode();
    OpRes o = do_load(b, &s, m);
    if (v == SIG_OK && o.r != RS_DONE) fail("good-signature-rejected", "a well-formed signature (%zu bytes, %zu blocks, block_len %u, strong_len %u) was rejected: %s", b.size(), rs.blocks.size(), rs.block_len, rs.strong_len, rsname(o.r));
    if (v == SIG_BAD && o.r == RS_DONE) fail("bad-signature-accepted", "a malformed signature was accepted (%s): %zu bytes %s", why.c_str(), b.size(), hexs(b, 16).c_str());
    if (v == SIG_BAD && o.r != RS_BAD_MAGIC && o.r != RS_CORRUPT && o.r != RS_INPUT_ENDED && o.r != RS_PARAM_ERROR) fail("bad-signature-result", "rejected with %s (%s)", rsname(o.r), why.c_str());
    if (v == SIG_OK) {
        if ((u64)o.st.sig_blocks != rs.blocks.size() || o.st.block_len != rs.block_len) fail("signature-misread", "loaded %lld blocks of length %zu, file has %zu of %u", (long long)o.st.sig_blocks, o.st.block_len, rs.blocks.size(), rs.block_len);
        if (int r = build_table(s)) fail("build-failed", "%s", rsname(r));
        if (rs.block_len < 100000) {
            // what was loaded is what the file says: the delta of the original data finds every block again
            OpRes d = do_delta(s, P.basis.substr(0, 4000), gen_mode());
            if (d.r) fail("delta-failed", "delta returned %s", rsname(d.r));
            check_delta("signature-misread", d.out, rs, P.basis.substr(0, 4000), rs.blocks.empty());
            DeltaFacts f = delta_facts(d.out);
            if (!rs.blocks.empty()) { GreedyResult g = ref_greedy(rs, P.basis.substr(0, 4000)); if (f.lit_bytes != g.lit) fail("signature-misread", "blocks of the loaded signature are not found: %llu literal bytes, expected %llu", ULL(f.lit_bytes), ULL(g.lit)); }
        }
    }
    if (s) free_sig(s);
    if (k) note_nontrivial();
    cnt(v == SIG_OK ? "signatures_wellformed" : "signatures_malformed");
    sample("%zu bytes %s -> %s (%s) mode=%s", b.size(), hexs(b, 12).c_str(), rsname(o.r), v == SIG_OK ? "well-formed" : why.c_str(), MODE[m]);
}
