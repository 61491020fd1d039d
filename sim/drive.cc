#include <unordered_map>
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "drive.h"
#include <sys/mman.h>
#include <cstdlib>

const char *rsname(int r)
{
    switch (r) {
    case 0: return "DONE"; case 1: return "BLOCKED"; case 2: return "RUNNING"; case 100: return "IO_ERROR";
    case 101: return "SYNTAX_ERROR"; case 102: return "MEM_ERROR"; case 103: return "INPUT_ENDED"; case 104: return "BAD_MAGIC";
    case 105: return "UNIMPLEMENTED"; case 106: return "CORRUPT"; case 107: return "INTERNAL_ERROR"; case 108: return "PARAM_ERROR";
    }
    static char b[4][24]; static int k; k = (k + 1) & 3;
    snprintf(b[k], 24, "code %d", r);
    return b[k];
}

// ------------------------------------------------------------------ workload
static void fill_rand(char *p, size_t n, u64 seed)
{
    Rng r(seed);
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { u64 w = r.next(); memcpy(p + i, &w, 8); }
    u64 w = r.next();
    for (; i < n; i++) { p[i] = (char)w; w >>= 8; }
}
Bytes gen_content(size_t n)
{
    Bytes b(n, 'a');
    if (!n) return b;
    switch (pick({1, 6, 2, 2, 2, 1}, "content")) {
    case 0: break;
    case 1: fill_rand(&b[0], n, choose(0xffffffff, "cseed")); break;
    case 2: memset(&b[0], choose(2, "zero") ? 0xff : 0, n); break;
    case 3: { Rng r(choose(0xffffffff, "cseed")); for (auto &c : b) c = (char)('a' + (r.next() >> 60) % 2); break; }
    case 4: { size_t per = 1 + choose(40, "period"); Bytes u(per, 0); fill_rand(&u[0], per, choose(65536, "cseed")); for (size_t i = 0; i < n; i++) b[i] = u[i % per]; break; }
    case 5: for (size_t i = 0; i < n; i++) b[i] = (char)(i * 7 + (i >> 8)); break;
    }
    return b;
}
size_t gen_len(size_t max)
{
    static const size_t sp[] = {1, 3, 4, 35, 36, 37, 63, 64, 65, 66, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025,
                                4095, 4096, 4097, 32767, 32768, 32769, 65470, 65532, 65533, 65534, 65535, 65536, 65537, 65600, 66000, 131065, 131066, 131067, 131071, 131072, 131073, 200000};
    size_t n;
    switch (pick({4, 8, 6, 3, 1}, "len")) {
    case 0: n = choose(9, "len"); break;
    case 1: n = choose(400, "len"); break;
    case 2: n = sp[choose(sizeof sp / sizeof *sp, "len")]; break;
    case 3: n = choose(12000, "len"); break;
    default: n = choose(max ? max : 1, "len"); break;
    }
    return n > max ? n % (max + 1) : n;
}
size_t gen_block_len()
{
    static const size_t sp[] = {8, 16, 32, 64, 100, 128, 256, 512, 700, 1024, 2048, 4096, 65535, 65536, 65537, 70000, 100003, 131072, 200000};
    switch (pick({4, 6, 2, 1}, "blen")) {
    case 0: return 1 + choose(8, "blen");
    case 1: return sp[choose(11, "blen")];
    case 2: return 1 + choose(3000, "blen");
    default: return sp[choose(19, "blen")];
    }
}
static const u32 MAGICS[4] = {M_RK_BLAKE2, M_MD4, M_BLAKE2, M_RK_MD4};
static size_t g_block_hint;      // block length in use, for the fuel limit of delta
// worst case of delta over n bytes: one strong sum per byte, plus probing
void need_fuel(size_t n)
{
    u64 need = 300000000ULL + (u64)n * (g_block_hint + 3000);
    if (need > 20000000000ULL) need = 20000000000ULL;
    if (g_fuel_limit && g_fuel_limit < need) g_fuel_limit = need;
}
SigArgs gen_sigargs()
{
    SigArgs a;
    a.magic = MAGICS[choose(4, "magic")];
    a.block_len = gen_block_len();
    // corner runs 4 to 6: more than 65536 blocks (see gen_pair)
    if (choose_at(2, "manyblocks", corner() >= 4 && corner() <= 6)) a.block_len = 12 + choose(20, "smallblk");
    g_block_hint = a.block_len;
    size_t mx = magic_max_strong(a.magic);
    switch (pick({3, 3, 1}, "slen")) {
    case 0: a.strong_len = mx; break;
    case 1: a.strong_len = 8 + choose(mx - 7, "slen"); break;
    default: a.strong_len = 1 + choose(mx, "slen"); break;
    }
    return a;
}
size_t gen_budget()
{
    switch (pick({10, 6, 4, 2}, "budget")) {
    case 0: return 600;
    case 1: return 6000;
    case 2: return 80000;
    default: return TIER_THOROUGH ? 600000 : 300000;
    }
}
static const struct { size_t bl; const char *suf; } RKZERO[] = {
    {8, "\x04\xca\x6b\x26\x2a\xbe\xab\x7d"}, {16, "\x1a\x59\x86\x3b\xe4\x67\xe8\xd8"}, {32, "\xd7\x2c\x03\x8c\x24\x86\x43\x64"},
    {64, "\xc7\x07\xd0\xf4\x31\xf8\xf7\x69"}, {100, "\x04\xb9\xaa\xfe\xe8\x9c\xe5\xed"}, {128, "\xee\xd1\xf8\x31\x96\x55\xca\x1a"},
    {256, "\x35\xb4\x5b\x41\x89\x65\x9c\x24"}, {512, "\x90\xfe\xdf\xbb\x37\x99\x56\x91"}, {700, "\xae\x0d\x71\xcf\x0a\x43\x1c\x07"},
    {1024, "\x40\x2a\x72\x97\xf8\x2a\x1a\x50"}, {2048, "\xfd\x22\x87\x75\x6c\xdb\x98\xa5"}};
static const char RKA[4][9] = {"\xf8\x10\xe8\x1f\xe8\x82\x30\x81", "\xbb\x75\xaa\x02\x76\x36\x5d\x53", "\x29\x86\x16\x8e\xbf\xc8\x62\x0c", "\x38\x90\x43\x5e\x23\x62\xf9\x1f"};
static const char RKB[4][9] = {"\x9f\x91\xd9\x26\x76\x02\x79\xfe", "\xe2\xf5\x6b\x23\x82\xc5\xb2\xd6", "\xf8\xd3\x35\xba\x46\x8f\x93\x0e", "\x2c\x84\xd8\x3a\x66\xd4\xe8\x0e"};

// a block of length bl whose weak sum is zero, if we know one
static bool weak_zero_block(bool rk, size_t bl, Bytes &out)
{
    if (rk) {
        for (auto &z : RKZERO) if (z.bl == bl) { out.assign(bl - 8, 0); out.append(z.suf, 8); return true; }
        return false;
    }
    if (bl < 600 || bl > 20000) return false;
    // sum(c) = -31 L, sum((L-i) c_i) = -31 L(L+1)/2 mod 65536
    out.assign(bl, 0);
    u64 want = (65536 * 64 - 31 * bl % 65536) % 65536;
    while (want < bl) want += 65536;
    if (want / bl > 200) return false;
    for (size_t i = 0; i < bl; i++) out[i] = (char)(want / bl);
    size_t extra = want % bl;
    for (size_t i = 0; i < extra; i++) out[i]++;
    for (int iter = 0; iter < 400; iter++) {
        u32 d = ref_rollsum(out.data(), bl);
        if (d == 0) return true;
        u32 s2 = d >> 16;                // need s2 -> 0: subtract s2 by moving weight right by k positions
        size_t k = s2 < bl / 2 ? s2 : bl / 2;
        size_t i = (iter * 37) % (bl - k);
        if (out[i] > 0 && (unsigned char)out[i + k] < 255) { out[i]--; out[i + k]++; }
    }
    return ref_rollsum(out.data(), bl) == 0;
}
// a different block with the same weak sum as b
static bool weak_sibling(bool rk, Bytes &b)
{
    size_t n = b.size();
    if (rk) {
        if (n < 8) return false;
        for (int k = 0; k < 4; k++) {
            size_t at = b.find(Bytes(RKA[k], 8));
            if (at != Bytes::npos) { memcpy(&b[at], RKB[k], 8); return true; }
        }
        return false;
    }
    if (n < 3) return false;
    for (size_t i = 0; i + 2 < n; i++) {
        unsigned char *c = (unsigned char *)&b[i];
        if (c[0] < 255 && c[1] > 1 && c[2] < 255) { c[0]++; c[1] -= 2; c[2]++; return true; }
    }
    return false;
}

// length of a short last block: anything, with weight on the edges
static size_t gen_tail(size_t bl)
{
    if (bl < 2) return 0;
    switch (pick({5, 2, 1, 1}, "tailk")) {
    case 0: return choose(bl, "tail");
    case 1: return 1;
    case 2: return bl > 2 ? 2 : 1;
    default: return bl - 1;
    }
}

Pair gen_pair(u32 magic, size_t bl, size_t budget, bool allow_coll)
{
    Pair P; P.crafted = false;
    bool rk = magic_is_rk(magic);
    if (bl > 60000 && budget < 4 * bl && choose(2, "roomy")) budget = 4 * bl;
    // ---- basis
    std::vector<Bytes> pool;
    if (choose_at(2, "manyblocks", corner() >= 4 && corner() <= 6 && bl >= 12 && bl < 32) && bl < 32) {
        size_t nb = 65537 + choose(5000, "nblocks");
        P.basis.assign(nb * bl + choose(bl, "tail"), 0);
        fill_rand(&P.basis[0], P.basis.size(), choose(0xffffffff, "bseed"));
        size_t n = 2 + choose(6, "nops");
        for (size_t i = 0; i < n; i++) {
            size_t k = choose(2, "high") ? 65530 + choose(nb - 65530, "cblk") : choose(nb, "cblk");
            P.nf += P.basis.substr(k * bl, (1 + choose(40, "ccnt")) * bl);
            if (choose(2, "lit")) P.nf += gen_content(choose(3 * bl, "lit"));
        }
        return P;
    }
    int bk = (int)pick({6, 2, 1}, "basis_kind");
    if (bk == 0) {
        size_t maxb = budget / bl; if (maxb > 3000) maxb = 3000;
        if (maxb == 0) maxb = 1;
        size_t nb;
        switch (pick({4, 3, 2}, "nblocks")) {
        case 0: nb = choose(5, "nblocks"); break;
        case 1: nb = choose(maxb < 40 ? maxb + 1 : 40, "nblocks"); break;
        default: nb = choose(maxb + 1, "nblocks"); break;
        }
        if (nb > maxb) nb = maxb;
        int style = (int)choose(4, "bstyle");
        Rng r(choose(0xffffffff, "bseed"));
        for (size_t i = 0; i < nb; i++) {
            Bytes b;
            u64 t = style == 0 ? 9 : r.below(10);
            if (t < 2 && !pool.empty()) b = pool[r.below(pool.size())];
            else if (t == 2) b.assign(bl, (char)(style == 1 ? 0 : r.below(3)));
            else if (t == 3 && weak_zero_block(rk, bl, b)) P.crafted = true;
            else if (t == 4 && allow_coll && !pool.empty()) {
                b = pool[r.below(pool.size())];
                if (rk && bl >= 8 && b.find(Bytes(RKA[0], 8)) == Bytes::npos) memcpy(&b[r.below(bl - 7)], RKA[r.below(4)], 8);
                if (r.below(2)) { if (weak_sibling(rk, b)) P.crafted = true; }
            } else { b.assign(bl, 0); fill_rand(&b[0], bl, r.next()); if (style == 3) for (auto &c : b) c = (char)('a' + (c & 1)); }
            pool.push_back(b);
            P.basis += b;
        }
        switch (pick({2, 2, 1}, "tail")) {
        case 0: break;
        case 1: P.basis += gen_content(gen_tail(bl)); break;
        default: if (!pool.empty()) P.basis += pool[choose(pool.size(), "tail")].substr(0, gen_tail(bl)); break;
        }
    } else if (bk == 1) {
        P.basis = gen_content(gen_len(budget));
    } else {
        size_t k = choose(4, "bmul");
        size_t n = k * bl + choose(3, "boff"); if (n) n--;
        if (n > budget + 2) n = budget;
        P.basis = gen_content(n);
    }
    // ---- new file
    switch (pick({2, 9, 1, 1}, "new_kind")) {
    case 0:
        P.nf = P.basis;
        switch (pick({3, 1, 1, 1}, "around")) {      // unchanged data with a little before or after it
        case 1: P.nf += gen_content(gen_tail(bl)); break;
        case 2: P.nf = gen_content(gen_tail(bl)) + P.nf; break;
        case 3: if (!P.nf.empty()) P.nf.resize(P.nf.size() - 1 - choose(std::min<size_t>(P.nf.size(), 3), "short")); break;
        default: break;
        }
        break;
    case 2: P.nf = gen_content(gen_len(budget)); break;
    case 3: break;
    case 1: {
        size_t nops = 1 + choose(chance(1, 5, "manyops") ? 40 : 7, "nops");
        for (size_t i = 0; i < nops && P.nf.size() < 2 * budget; i++) {
            size_t bn = P.basis.size();
            switch (pick({5, 3, 4, 2, 2, 2, 1}, "op")) {
            case 0: if (bn) { size_t k = choose((bn + bl - 1) / bl, "cblk"); size_t c = 1 + choose(chance(1, 4, "longcopy") ? 200 : 4, "ccnt"); P.nf += P.basis.substr(k * bl, c * bl); } break;
            case 1: if (bn) { size_t s = choose(bn, "cpos"); P.nf += P.basis.substr(s, 1 + choose(3 * bl + 10 < 0xfffffff ? 3 * bl + 10 : 1000, "clen")); } break;
            case 2: P.nf += gen_content(gen_len(budget)); break;
            case 3: P.nf += gen_content(choose(bl < 3000 ? bl + 2 : 3000, "lit")); break;
            case 4: if (bn) { size_t k = (bn - 1) / bl * bl; P.nf += P.basis.substr(k); } break;        // the last, possibly short, block
            case 5: if (bn) { size_t s = choose((bn + bl - 1) / bl, "eblk") * bl; Bytes e = P.basis.substr(s, bl * 2); if (!e.empty()) { size_t at = choose(e.size(), "eat"); e[at] = (char)(e[at] ^ (1 + choose(255, "ex"))); } P.nf += e; } break;
            case 6: if (bn && allow_coll) { size_t s = choose((bn + bl - 1) / bl, "wblk") * bl; Bytes e = P.basis.substr(s, bl); if (weak_sibling(rk, e)) P.crafted = true; P.nf += e; } break;
            }
        }
        // sometimes end in a truncated copy of the basis tail
        if (chance(1, 4, "cuttail") && !P.nf.empty()) P.nf.resize(P.nf.size() - choose(P.nf.size() < 2 * bl ? P.nf.size() : 2 * bl, "cut"));
        break;
    }
    }
    if (P.nf.size() > 3 * budget) P.nf.resize(3 * budget);
    if (P.crafted) {            // crafted weak sums can cost one strong sum per byte
        size_t most = std::max<size_t>(100000000 / std::max<size_t>(bl, 128), bl + 200);
        if (P.nf.size() > most) P.nf.resize(most);
    }
    if ((u64)P.nf.size() * bl > 500000000ULL && P.nf.size() > bl) tame(P.nf, ref_sig_make(magic, bl, 8, P.basis), 500000000ULL);
    return P;
}

// Data in which many positions have the weak sum of some block but not its strong sum costs a strong sum per byte:
// keep such runs short.
void tame(Bytes &nf, const RefSig &rs, u64 limit)
{
    u64 bl = rs.block_len;
    if ((u64)nf.size() * bl < limit || nf.size() <= bl + 8) return;
    std::unordered_multimap<u32, const Bytes *> w; for (auto &b : rs.blocks) w.emplace(b.first, &b.second);
    size_t hit = 0, n = 40;
    for (size_t i = 0; i < n; i++) {
        size_t at = (nf.size() - bl) / n * i + i % 7;
        const char *p = nf.data() + (at < nf.size() - bl ? at : nf.size() - bl);
        auto q = w.equal_range(ref_weak(rs.magic, p, bl));
        if (q.first == q.second) continue;
        Bytes st = ref_strong(rs.magic, p, bl, rs.strong_len); bool same = false; int c = 0;
        for (auto x = q.first; x != q.second && c < 100; ++x, c++) if (*x->second == st) same = true;
        if (!same) hit++;
    }
    if (hit > 1) nf.resize(bl + bl / 16);
}

Bytes mutate(const Bytes &in, int maxops)
{
    Bytes b = in;
    size_t k = 1 + choose(maxops, "mutops");
    for (size_t i = 0; i < k; i++) {
        switch (pick({4, 3, 2, 2, 1, 1}, "mut")) {
        case 0: if (!b.empty()) b[choose(b.size(), "at")] = (char)choose(256, "byte"); break;
        case 1: if (!b.empty()) b.resize(choose(b.size(), "cut")); break;
        case 2: b.insert(choose(b.size() + 1, "at"), 1 + choose(9, "insn"), (char)choose(256, "byte")); break;
        case 3: if (!b.empty()) { size_t p = choose(b.size(), "at"); b.erase(p, 1 + choose(9, "deln")); } break;
        case 4: if (!b.empty()) { size_t p = choose(b.size(), "at"); b[p] = (char)(b[p] ^ (1 << choose(8, "bit"))); } break;
        case 5: if (b.size() > 2) { size_t p = choose(b.size(), "at"); b += b.substr(p, 1 + choose(64, "dupn")); } break;
        }
    }
    return b;
}

static u64 gen_big()
{
    switch (pick({6, 3, 2, 2, 1, 1}, "big")) {
    case 0: return choose(2000, "v");
    case 1: return choose(70000, "v");
    case 2: return ((u64)1 << choose(64, "sh")) - choose(2, "m");
    case 3: return ((u64)choose(0xffffffff, "hi") << 32) | choose(0xffffffff, "lo");
    case 4: return 0x7fffffffffffffffULL - choose(3, "m");
    default: return 0;
    }
}
Bytes gen_delta(const Bytes &basis, bool &valid)
{
    Bytes d; valid = true;
    put_be(d, M_DELTA, 4);
    size_t n = choose(9, "ncmds");
    static const int W[4] = {1, 2, 4, 8};
    for (size_t i = 0; i < n; i++) {
        switch (pick({6, 6, 1, 1}, "cmd")) {
        case 0: {
            u64 len = gen_len(chance(1, 8, "biglit") ? 140000 : 700);
            if (len == 0) len = 1;
            int w = -1;
            if (chance(1, 3, "wide")) { w = W[choose(4, "w")]; if (w < 8 && len >> (8 * w)) w = 8; }
            if (w < 0 && chance(1, 12, "zerolit")) { d += enc_lit_hdr(0, W[choose(4, "w")]); valid = false; break; }
            u64 claim = len;
            if (chance(1, 20, "hugelit")) { claim = gen_big() + len; w = 8; valid = false; }
            d += enc_lit_hdr(claim, w);
            d += gen_content((size_t)len);
            break;
        }
        case 1: {
            u64 pos = basis.empty() ? 0 : choose(basis.size(), "pos");
            u64 len = 1 + choose(basis.size() - pos ? basis.size() - pos : 1, "len");
            if (chance(1, 10, "badcopy")) { valid = false; switch (choose(4, "bad")) { case 0: len = 0; break; case 1: len = gen_big(); break; case 2: pos = gen_big(); break; case 3: pos = gen_big(); len = gen_big(); break; } }
            int pw = 0, lw = 0;
            if (chance(1, 3, "wide")) { pw = W[choose(4, "w")]; lw = W[choose(4, "w")]; }
            if (pw && pw < 8 && pos >> (8 * pw)) pw = 8;
            if (lw && lw < 8 && len >> (8 * lw)) lw = 8;
            d += enc_copy(pos, len, pw, lw);
            break;
        }
        case 2: if (chance(1, 3, "reserved")) { d.push_back((char)(0x55 + choose(0xab, "op"))); valid = false; } break;
        case 3: if (chance(1, 6, "earlyend")) d.push_back(0); break;
        }
    }
    if (chance(1, 10, "noend")) valid = false; else d.push_back(0);
    return d;
}

// ------------------------------------------------------------------- driving
void quiet_logs();
Pol gen_pol(const char *tag, bool out)
{
    Pol p; p.k = 0;
    switch (pick({3, 3, 4, 1, 2}, tag)) {
    case 0: p.kind = 0; break;
    case 1: { p.kind = 1; static const size_t sp[] = {1, 2, 3, 4, 5, 7, 8, 12, 13, 16, 17, 36, 37, 64, 65, 100, 1000, 4096, 65535, 65536, 65537, 200000}; p.k = sp[choose(22, "chunk")]; break; }
    case 2: p.kind = 2; break;
    case 3: p.kind = 1; p.k = 1 + choose(300, "chunk"); break;
    default: p.kind = 3; break;
    }
    (void)out;
    return p;
}
static size_t next_chunk(const Pol &p, bool out, u64 calls)
{
    size_t n;
    switch (p.kind) {
    case 0: n = out ? 100000 : (size_t)-1; break;
    case 1: n = p.k; break;
    case 2:
        switch (pick({3, 3, 3, 2, 1}, "step")) {
        case 0: n = choose(4, "n"); break;
        case 1: n = 1 + choose(40, "n"); break;
        case 2: n = 1 + choose(600, "n"); break;
        case 3: n = 1 + choose(9000, "n"); break;
        default: n = 1 + choose(140000, "n"); break;
        }
        break;
    default: n = choose(3, "z") ? 1 + choose(2000, "n") : 0; break;
    }
    if (calls > 1500 && n < 2048) n = 2048;          // bound the length of a run
    if (calls > 6000 && n < 200000) n = 200000;
    return n;
}
Sched simple_sched() { Sched s; s.in = Pol{0, 0}; s.out = Pol{0, 0}; s.late_eof = false; s.resplit = false; s.readonly = false; s.misalign = 0; return s; }
Sched gen_sched()
{
    Sched s;
    s.in = gen_pol("inpol", false);
    s.out = gen_pol("outpol", true);
    s.late_eof = choose(2, "late_eof");
    s.resplit = chance(1, 4, "resplit");
    s.readonly = chance(1, 8, "readonly");
    s.misalign = chance(1, 3, "misal") ? (int)choose(16, "mis") : 0;
    if (chance(1, 5, "hold")) { static const size_t h[] = {1, 2, 100, 3000, 50000, 100000}; s.hold = h[choose(6, "holdn")]; }
    return s;
}

// input buffer: heap block of exactly the right size, or a read-only mapping
struct InBuf {
    char *base, *p; size_t n, maplen; bool ro;
    InBuf(char *shared, size_t n_) : base(nullptr), p(shared), n(n_), maplen(0), ro(false) {}
    InBuf(const char *src, size_t n_, const Sched &sc) : base(nullptr), p(nullptr), n(n_), maplen(0), ro(false)
    {
        if (!n) { if (sc.misalign & 1) { p = base = (char *)malloc(1); } return; }
        if (sc.readonly && n < (1u << 20)) {
            size_t pg = 4096, len = (n + pg - 1) / pg * pg;
            base = (char *)mmap(nullptr, len + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            p = base + len - n; memcpy(p, src, n);
            mprotect(base, len, PROT_READ); mprotect(base + len, pg, PROT_NONE);
            maplen = len + pg; ro = true;
            return;
        }
        base = (char *)malloc(n + sc.misalign);
        p = base + sc.misalign;
        memcpy(p, src, n);
    }
    ~InBuf() { if (ro) munmap(base, maplen); else free(base); }
};

bool Stream::step()
{
    size_t fresh = next_chunk(sc.in, false, calls), o = no_out ? 0 : next_chunk(sc.out, true, calls);
    if (calls > 1500 && o > 8192) o = 8192;              // large fresh buffers for ever would only be slow
    size_t left = offered - pos;
    if (sc.hold && left >= sc.hold) fresh = 0;
    if (sc.resplit && !eof_told && left > 1 && calls < 4000 && chance(1, 3, "resplit_now")) {
        size_t k = 1 + choose(left < 0xffffffff ? left : 0xfffffff, "resplit");
        offered = pos + k;
        fresh = 0;
    }
    size_t room = n - offered;
    if (fresh > room) fresh = room;
    if (fresh == 0 && room && idle > 3) fresh = 1;        // the source always delivers eventually
    if (o == 0 && !no_out && idle > 3) o = 1;
    offered += fresh;
    size_t av = offered - pos;
    bool eof = eof_told;
    if (!eof && offered == n) eof = sc.hold && left >= sc.hold ? false : !(sc.late_eof && calls < 8000 && !choose(3, "eof_later"));
    if (idle > 6 && offered == n) eof = true;
    eof_told = eof;
    // many calls with much input left: the rest is copied once (to a block that still ends where the input ends)
    bool shared = calls > 1500 && eof && av > 8192;
    if (shared && !rest) { rest.reset((char *)malloc(av), free); memcpy(rest.get(), in + pos, av); rest_pos = pos; }
    InBuf ib = shared ? InBuf(rest.get() + (pos - rest_pos), av) : InBuf(in + pos, av, sc);
    char *ob = o || (sc.misalign & 2) ? (char *)malloc(o ? o : 1) : nullptr;
    if (av > max_in) max_in = av;
    rs_buffers_t b;
    b.next_in = ib.p; b.avail_in = av; b.eof_in = eof ? 1 : 0;
    b.next_out = ob; b.avail_out = o;
    copy_blocked = false;
    calls++;
    int r;
    {
        Api a(name);
        r = rs_job_iter(job, &b);
    }
    ev_u(r, b.avail_in, b.avail_out);
    ev_sched(av * 1000003 + o * 7 + (eof ? 1 : 0));
    note_state(call_hash() ^ mix64(r * 64 + (av == 0) * 32 + (b.avail_in == 0) * 16 + (o == 0) * 8 + (b.avail_out == 0) * 4 + (eof ? 1 : 0)));
    if (b.avail_in > av || b.next_in != ib.p + (av - b.avail_in))
        fail("input-cursor", "%s: offered %zu input bytes, library returned avail_in=%zu and moved next_in by %td", name, av, b.avail_in, b.next_in - ib.p);
    if (b.avail_out > o || b.next_out != ob + (o - b.avail_out))
        fail("output-cursor", "%s: lent %zu output bytes, library returned avail_out=%zu and moved next_out by %td", name, o, b.avail_out, b.next_out - ob);
    if ((b.eof_in != 0) != eof) fail("eof-flag-changed", "%s: the library changed the end-of-input flag", name);
    if (av && (!shared || calls % 64 == 0) && memcmp(ib.p, in + pos, av)) fail("input-modified", "%s: the library wrote to the input buffer", name);
    size_t used = av - b.avail_in, made = o - b.avail_out;
    if (made) out.append(ob, made);
    free(ob);
    pos += used;
    idle = used || made ? 0 : idle + 1;
    result = r;
    if (r == RS_RUNNING) fail("result-running", "%s: RS_RUNNING reached the application", name);
    if (r == RS_INTERNAL_ERROR) fail("internal-error", "%s: RS_INTERNAL_ERROR for in=%zu out=%zu eof=%d after %llu calls", name, av, o, eof, (unsigned long long)calls);
    if (r == RS_BLOCKED && check_live) {
        if (!used && !made && av && o && !copy_blocked) fail("no-progress", "%s: blocked without progress although in=%zu out=%zu", name, av, o);
        if (eof && b.avail_out && !copy_blocked)
            fail("blocked-at-eof", "%s: blocked at end of input although %zu bytes of output space were left (in left %zu)", name, b.avail_out, b.avail_in);
        if (eof && no_out) fail("blocked-at-eof", "%s: blocked at end of input", name);
        if (calls > 40000 + 4 * (n + out.size())) fail("too-many-calls", "%s: still blocked after %llu calls", name, (unsigned long long)calls);
    }
    return r == RS_BLOCKED;
}
int Stream::run(u64 maxcalls)
{
    while (step()) if (maxcalls && calls >= maxcalls) break;
    cnt("api_calls", calls);
    return result;
}

// ---- pull mode
Pull::~Pull() { free(ibuf); free(obuf); }
rs_result pull_in(rs_job_t *, rs_buffers_t *b, void *o)
{
    Pull &p = *(Pull *)o;
    if (!p.incalls++) need_fuel(p.n);
    if (b->eof_in) return RS_DONE;
    if (p.in_err_at && p.incalls >= p.in_err_at) { p.in_fired = true; ev("in_cb returns %d", p.in_err); return (rs_result)p.in_err; }
    if (p.ibuf) {
        size_t had = p.icopy.size();
        if (b->avail_in > had || b->next_in != p.cur_base + (had - b->avail_in)) fail("input-cursor", "pull: inconsistent input cursor");
        if (had && memcmp(p.cur_base, p.icopy.data(), had)) fail("input-modified", "pull: the library wrote to the input buffer");
        p.pos += had - b->avail_in;
    }
    size_t fresh = next_chunk(p.sc.in, false, p.incalls);
    size_t room = p.n - p.offered;
    if (p.sc.hold && p.offered - p.pos >= p.sc.hold) fresh = 0;
    if (fresh > room) fresh = room;
    if (fresh == 0 && room && ++p.idle > 3) { fresh = 1; p.idle = 0; }
    p.offered += fresh;
    size_t av = p.offered - p.pos;
    char *nb = (char *)malloc(av ? av : 1);
    if (av) memcpy(nb, p.in + p.pos, av);
    free(p.ibuf);
    p.ibuf = p.cur_base = nb;
    p.icopy.assign(nb, av);
    b->next_in = nb; b->avail_in = av;
    if (av > p.max_in) p.max_in = av;
    if (p.offered == p.n && (!p.sc.late_eof || fresh == 0)) b->eof_in = 1;
    ev_sched(av * 31 + b->eof_in);
    return RS_DONE;
}
rs_result pull_out(rs_job_t *, rs_buffers_t *b, void *o)
{
    Pull &p = *(Pull *)o;
    p.outcalls++;
    if (p.obuf) {
        if (b->avail_out > p.ocap || b->next_out != p.obuf + (p.ocap - b->avail_out)) fail("output-cursor", "pull: inconsistent output cursor");
        p.out.append(p.obuf, p.ocap - b->avail_out);
    }
    if (p.out_err_at && p.outcalls >= p.out_err_at) { p.out_fired = true; free(p.obuf); p.obuf = nullptr; ev("out_cb returns %d", p.out_err); return (rs_result)p.out_err; }
    size_t o2 = next_chunk(p.sc.out, true, p.outcalls);
    if (o2 == 0 && p.outcalls % 3 == 0) o2 = 1;
    free(p.obuf);
    p.obuf = (char *)malloc(o2 ? o2 : 1); p.ocap = o2;
    b->next_out = p.obuf; b->avail_out = o2;
    ev_sched(o2);
    if (p.outcalls > 60000 + 4 * (p.n + p.out.size())) fail("too-many-calls", "pull: no end after %llu output callbacks", (unsigned long long)p.outcalls);
    return RS_DONE;
}
int pull_drive(rs_job_t *job, Pull &p)
{
    need_fuel(p.n);
    rs_buffers_t b;
    memset(&b, 0x5a, sizeof b);
    Api a("rs_job_drive");
    int r = rs_job_drive(job, &b, pull_in, &p, p.have_out ? pull_out : nullptr, &p);
    ev_u(r, p.incalls, p.outcalls);
    if (r == RS_RUNNING || r == RS_BLOCKED) { if (!p.in_fired && !p.out_fired) fail("drive-result", "rs_job_drive returned %s", rsname(r)); }
    if (r == RS_INTERNAL_ERROR && !p.in_fired && !p.out_fired) fail("internal-error", "rs_job_drive returned RS_INTERNAL_ERROR");
    cnt("api_calls", p.incalls + p.outcalls);
    return r;
}

Mode gen_mode() { return (Mode)pick({5, 2, 2}, "mode"); }

// ---- basis / copy callback
Basis::~Basis() { free(own); }
extern "C" rs_result basis_cb(void *o, rs_long_t pos, size_t *len, void **buf)
{
    Basis &b = *(Basis *)o;
    b.calls++;
    if (*len == 0) fail("copy-request", "copy callback asked for zero bytes at %lld", (long long)pos);
    if (pos < 0) fail("copy-request", "copy callback asked for negative offset %lld", (long long)pos);
    if (b.stream && b.stream->copy_blocked) fail("blocked-callback", "the copy callback was called again in the call in which it had returned RS_BLOCKED");
    if (b.err_at && b.calls >= b.err_at && b.err) {
        b.err_fired = true; ev("copy_cb returns %d", b.err);
        size_t q = *len;
        switch (b.err_len) {
        case 0: *len = 0; break;
        case 1: break;                                            // untouched
        case 2: memset(*buf, 0x5e, q); break;                     // the buffer was written before the read failed
        case 3: q = q / 2 + 1; if (q > *len) q = *len; memset(*buf, 0x5e, q); *len = q; break;
        default: *buf = nullptr; *len = 0; break;
        }
        return (rs_result)b.err;
    }
    if (b.block_every) {
        if (b.burst_left == 0 && !b.rested && b.served % b.block_every == b.block_every - 1) { b.burst_left = b.block_burst; b.rested = true; }
        if (b.burst_left) {
            b.burst_left--; b.blocked++;
            if (b.stream) b.stream->copy_blocked = true;
            cnt("fault.copy_cb_blocked");
            return RS_BLOCKED;
        }
        b.served++; b.rested = false;
    }
    u64 sz = b.size();
    size_t n = *len;
    u64 have = (u64)pos < sz ? sz - (u64)pos : 0;
    if (n > have) n = (size_t)have;
    if (b.max_read && n > b.max_read) { n = b.max_read; cnt("fault.copy_cb_short_read"); }
    if (n == 0) {
        if (b.zero_len_at_end) { b.zero_fired = true; if (b.calls > 1000000) fail("hang", "copy callback called %llu times at end of basis", (unsigned long long)b.calls); *len = 0; return RS_DONE; }
        ev("copy_cb end of basis");
        return RS_INPUT_ENDED;
    }
    char *dst = (char *)*buf;
    size_t asked = *len, lend = n;
    if (b.own_buf && b.over && n == asked) {
        lend = n + b.over; if (lend > have) lend = (size_t)have;
        if (lend > asked) cnt("fault.copy_cb_lends_more_than_asked");
        n = lend;
    }
    if (b.own_buf) {
        free(b.own);
        b.own = (char *)malloc(n); b.own_n = n;
        dst = b.own;
    }
    if (b.gen) b.gen((u64)pos, dst, n);
    else memcpy(dst, b.mem->data() + pos, n);
    if (b.record) b.req.push_back({(u64)pos, n});
    *buf = dst;
    *len = n;
    return RS_DONE;
}
bool g_overlend;
void gen_basis_behaviour(Basis &b)
{
    switch (pick({4, 2, 2, 1}, "cb_read")) {
    case 0: break;
    case 1: b.max_read = 1 + choose(7, "cb_max"); break;
    case 2: b.max_read = 1 + choose(5000, "cb_max"); break;
    default: b.max_read = 1; break;
    }
    b.own_buf = chance(1, 3, "cb_own");
    if (g_overlend && b.own_buf && chance(1, 3, "cb_over")) b.over = 1 + choose(4000, "cb_more");
}

void clock_noise()
{
    switch (pick({6, 2, 1, 1}, "clock")) {
    case 0: break;
    case 1: { int64_t d = (int64_t)choose(5000, "adv"); g_clock += d; g_clock_advanced += d; break; }
    case 2: { g_clock -= (int64_t)choose(1000000, "back"); cnt("fault.clock_jump_back"); break; }
    default: { int64_t d = (int64_t)choose(0x7fffffff, "jump"); g_clock += d; g_clock_advanced += d; cnt("fault.clock_jump_forward"); break; }
    }
}

// ---- operations
void set_buflens(Mode m, size_t insize, size_t outsize)
{
    rs_inbuflen = rs_outbuflen = 0;
    if (m != WHOLE) return;
    static const int sp[] = {0, 1, 2, 3, 4, 5, 7, 12, 13, 36, 64, 65, 100, 1000, 4096, 65536, 65537, 200000};
    rs_inbuflen = sp[choose(18, "inbuflen")];
    rs_outbuflen = sp[choose(18, "outbuflen")];
    // keep the number of library iterations of one call within reach
    if (rs_inbuflen && insize / (size_t)rs_inbuflen > 30000) rs_inbuflen = (int)(insize / 20000);
    if (rs_outbuflen && outsize / (size_t)rs_outbuflen > 30000) rs_outbuflen = (int)(outsize / 20000);
}
static size_t gen_vbuf() { static const size_t v[] = {0, 1, 2, 16, 100, 512, 4096, 65536}; return v[choose(8, "stdio_buf")]; }
FILE *in_file(const Bytes &b, bool seekable)
{
    InodeP i = fs_put("", b);
    if (!seekable && chance(1, 5, "fifo")) i->fifo = true;
    switch (pick({3, 1, 1}, "rchunk")) { case 0: break; case 1: i->read_chunk = 1 + choose(9, "rc"); cnt("fault.short_read"); break; default: i->read_chunk = 1 + choose(3000, "rc"); cnt("fault.short_read"); break; }
    return sim_open_file(i, "rb", gen_vbuf());
}
static void fin(const char *w, FILE *f) { if (sim_fclose(f)) fail("close-failed", "fclose failed without a fault (%s)", w); }

static OpRes run_job(rs_job_t *job, const char *name, const Bytes &in, Mode m, bool has_out, Basis *basis)
{
    OpRes o{}; Sched sc = gen_sched();
    if (m == STREAM) {
        Stream s(job, name, in, sc);
        s.no_out = !has_out;
        if (basis) basis->stream = &s;
        o.r = s.run();
        o.taken = s.pos;
        if (basis) basis->stream = nullptr;
        o.out.swap(s.out);
        o.calls = s.calls;
    } else {
        Pull p; p.in = in.data(); p.n = in.size(); p.sc = sc; p.have_out = has_out;
        o.r = pull_drive(job, p);
        o.out.swap(p.out);
        o.calls = p.incalls + p.outcalls;
    }
    o.st = *rs_job_statistics(job);
    { Api a("rs_job_free"); rs_job_free(job); }
    return o;
}

OpRes do_sig(const Bytes &basis, const SigArgs &a, Mode m, FILE *fp)
{
    OpRes o{};
    if (m == WHOLE) {
        set_buflens(m, basis.size(), basis.size() / (a.block_len ? a.block_len : 2048) * (4 + a.strong_len));
        if (fp) rewind(fp);
        FILE *f = fp ? fp : in_file(basis); InodeP oi = fs_put("", ""); FILE *g = sim_open_file(oi, "wb", gen_vbuf());
        { Api x("rs_sig_file"); o.r = rs_sig_file(f, g, a.block_len, a.strong_len, (rs_magic_number)a.magic, &o.st); }
        if (!fp) fin("sig", f);
        fin("sig", g);
        o.out = oi->data;
    } else {
        rs_job_t *j;
        { Api x("rs_sig_begin"); j = rs_sig_begin(a.block_len, a.strong_len, (rs_magic_number)a.magic); }
        o = run_job(j, "sig", basis, m, true, nullptr);
    }
    ev("sig mode=%d r=%d len=%zu", m, o.r, o.out.size());
    return o;
}
OpRes do_load(const Bytes &sig, rs_signature_t **s, Mode m)
{
    OpRes o{};
    *s = nullptr;
    if (m == WHOLE) {
        set_buflens(m, sig.size());
        FILE *f = in_file(sig);
        { Api x("rs_loadsig_file"); o.r = rs_loadsig_file(f, s, &o.st); }
        fin("loadsig", f);
    } else {
        rs_job_t *j;
        { Api x("rs_loadsig_begin"); j = rs_loadsig_begin(s); }
        o = run_job(j, "loadsig", sig, m, false, nullptr);
    }
    ev("load mode=%d r=%d", m, o.r);
    return o;
}
int build_table(rs_signature_t *s) { Api x("rs_build_hash_table"); return rs_build_hash_table(s); }
void free_sig(rs_signature_t *s) { Api x("rs_free_sumset"); rs_free_sumset(s); }
OpRes do_delta(rs_signature_t *s, const Bytes &nf, Mode m)
{
    OpRes o{};
    need_fuel(nf.size());
    if (m == WHOLE && s) {
        set_buflens(m, nf.size(), nf.size());
        FILE *f = in_file(nf); InodeP oi = fs_put("", ""); FILE *g = sim_open_file(oi, "wb", gen_vbuf());
        { Api x("rs_delta_file"); o.r = rs_delta_file(s, f, g, &o.st); }
        fin("delta", f); fin("delta", g);
        o.out = oi->data;
    } else {
        rs_job_t *j;
        { Api x("rs_delta_begin"); j = rs_delta_begin(s); }
        o = run_job(j, "delta", nf, m == WHOLE ? STREAM : m, true, nullptr);
    }
    ev("delta mode=%d r=%d len=%zu", m, o.r, o.out.size());
    return o;
}
OpRes do_patch(Basis &b, const Bytes &delta, Mode m)
{
    OpRes o{};
    if (b.fp) switch (choose(4, "reposition")) {     // the application uses its stream in between
    case 0: case 1: break;
    case 2: rewind(b.fp); break;
    default: fseeko(b.fp, (off_t)choose(b.size() + 1, "seek"), SEEK_SET); if (choose(2, "peek")) (void)!fgetc(b.fp); break;
    }
    if (m == WHOLE && !b.block_every && !b.err && !b.zero_len_at_end) {
        set_buflens(m, delta.size(), delta.size());
        FILE *f = in_file(delta); InodeP oi = fs_put("", ""); FILE *g = sim_open_file(oi, "wb", gen_vbuf());
        InodeP bi = fs_put("", b.mem ? *b.mem : Bytes());
        if (b.gen) { bi->gen = b.gen; bi->vsize = b.vsize; }
        if (b.max_read) bi->read_chunk = b.max_read;
        FILE *h = b.fp ? b.fp : sim_open_file(bi, "rb", gen_vbuf());
        { Api x("rs_patch_file"); o.r = rs_patch_file(h, f, g, &o.st); }
        fin("patch", f); fin("patch", g); if (!b.fp) fin("patch", h);
        o.out = oi->data;
    } else {
        rs_job_t *j;
        { Api x("rs_patch_begin"); j = b.fp ? rs_patch_begin(rs_file_copy_cb, b.fp) : rs_patch_begin(basis_cb, &b); }
        o = run_job(j, "patch", delta, m == WHOLE ? STREAM : m, true, &b);
    }
    ev("patch mode=%d r=%d len=%zu", m, o.r, o.out.size());
    return o;
}
rs_signature_t *load_ok(const Bytes &sig)
{
    rs_signature_t *s = nullptr;
    rs_job_t *j;
    { Api x("rs_loadsig_begin"); j = rs_loadsig_begin(&s); }
    Stream st(j, "loadsig", sig, simple_sched());
    st.no_out = true;
    int r = st.run();
    { Api x("rs_job_free"); rs_job_free(j); }
    if (r != RS_DONE) fail("loadsig-failed", "a well-formed signature was rejected: %s", rsname(r));
    r = build_table(s);
    if (r != RS_DONE) fail("build-failed", "rs_build_hash_table: %s", rsname(r));
    return s;
}

u32 eff_magic(u32 m) { return m ? m : (u32)M_RK_BLAKE2; }
size_t eff_strong(u32 m, size_t s) { return s ? s : magic_max_strong(eff_magic(m)); }

// ---- logs
u64 g_log_lines; Bytes g_log_text; int g_log_minlevel;
extern "C" void sim_log_sink(rs_loglevel l, char const *m) { g_log_lines++; if (g_log_text.size() < 20000) g_log_text += m; if ((int)l < g_log_minlevel) g_log_minlevel = l; ev_u(l, hash_bytes(m, strlen(m))); }
void quiet_logs() { g_log_lines = 0; g_log_text.clear(); g_log_minlevel = 99; rs_trace_to(sim_log_sink); rs_trace_set_level(RS_LOG_INFO); }

// ---- delta oracle
DeltaFacts delta_facts(const Bytes &d)
{
    DeltaFacts f{};
    RefDelta r = ref_delta_parse(d);
    for (auto &c : r.cmds) {
        if (c.kind == K_LIT) { f.lit_cmds++; f.lit_bytes += c.len; f.lit_cmdbytes += c.hdr; }
        else if (c.kind == K_COPY) { f.copy_cmds++; f.copy_bytes += c.len; f.copy_cmdbytes += c.hdr; }
    }
    return f;
}
DeltaFacts check_delta(const char *cls, const Bytes &d, const RefSig &s, const Bytes &nf, bool slack)
{
    RefDelta r = ref_delta_parse(d);
    if (r.result != RefDelta::DONE) fail(cls, "the delta is not well-formed (parser says %d after %zu commands, %zu bytes: %s)", (int)r.result, r.cmds.size(), d.size(), hexs(d).c_str());
    if (r.used != d.size()) fail(cls, "the delta has %zu bytes after its END command", d.size() - r.used);
    size_t p = 0;
    for (auto &c : r.cmds) {
        if (c.kind == K_END) break;
        if (c.len > nf.size() - p) fail(cls, "commands describe more than the %zu bytes of the new file", nf.size());
        if (c.kind == K_LIT) {
            if (memcmp(d.data() + c.at + c.hdr, nf.data() + p, c.len)) fail(cls, "literal at new offset %zu (len %llu) differs from the new file", p, (unsigned long long)c.len);
        } else {
            if (slack) fail(cls, "copy command although there is no signature block to copy");
            size_t bl = s.block_len;
            if (c.pos % bl) fail(cls, "copy from basis offset %llu is not at a block boundary (block length %zu)", (unsigned long long)c.pos, bl);
            u64 idx = c.pos / bl, left = c.len; size_t q = p;
            while (left) {
                size_t w = left < bl ? (size_t)left : bl;
                if (idx >= s.blocks.size()) fail(cls, "copy reaches block %llu of a signature with %zu blocks", (unsigned long long)idx, s.blocks.size());
                if (w < bl && q + w != nf.size()) fail(cls, "copy of a partial block in the middle of the new file (offset %zu)", q);
                if (ref_weak(s.magic, nf.data() + q, w) != s.blocks[idx].first) fail(cls, "copy of block %llu at new offset %zu: weak sum differs", (unsigned long long)idx, q);
                if (ref_strong(s.magic, nf.data() + q, w, s.strong_len) != s.blocks[idx].second) fail(cls, "copy of block %llu at new offset %zu: strong sum differs", (unsigned long long)idx, q);
                idx++; left -= w; q += w;
            }
        }
        p += c.len;
    }
    if (p != nf.size()) fail(cls, "the delta describes %zu of the %zu bytes of the new file", p, nf.size());
    return delta_facts(d);
}
