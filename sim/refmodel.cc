#include "refmodel.h"
#include <unordered_map>

u32 ref_rollsum(const void *p, size_t n)
{
    const unsigned char *c = (const unsigned char *)p;
    u32 a = 0, b = 0;
    for (size_t i = 0; i < n; i++) { a = (a + c[i] + 31) & 0xffff; b = (b + a) & 0xffff; }
    return (b << 16) | a;
}
u32 ref_rabinkarp(const void *p, size_t n)
{
    const unsigned char *c = (const unsigned char *)p;
    u32 h = 1;
    for (size_t i = 0; i < n; i++) h = h * 0x08104225u + c[i];
    return h;
}

// ---- MD4, RFC 1320
static inline u32 rol(u32 x, int s) { return (x << s) | (x >> (32 - s)); }
static void md4_block(u32 s[4], const unsigned char *p)
{
    u32 X[16], a = s[0], b = s[1], c = s[2], d = s[3];
    for (int i = 0; i < 16; i++) X[i] = p[4 * i] | p[4 * i + 1] << 8 | p[4 * i + 2] << 16 | (u32)p[4 * i + 3] << 24;
    static const int s1[4] = {3, 7, 11, 19}, s2[4] = {3, 5, 9, 13}, s3[4] = {3, 9, 11, 15};
    static const int o3[16] = {0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15};
    for (int i = 0; i < 48; i++) {
        u32 f, k; int x, r;
        if (i < 16) { f = (b & c) | (~b & d); k = 0; x = i; r = s1[i & 3]; }
        else if (i < 32) { f = (b & c) | (b & d) | (c & d); k = 0x5a827999; x = ((i & 3) << 2) | ((i - 16) >> 2); r = s2[i & 3]; }
        else { f = b ^ c ^ d; k = 0x6ed9eba1; x = o3[i - 32]; r = s3[i & 3]; }
        u32 t = rol(a + f + X[x] + k, r);
        a = d; d = c; c = b; b = t;
    }
    s[0] += a; s[1] += b; s[2] += c; s[3] += d;
}
RefMd4::RefMd4() : total(0), tl(0) { s[0] = 0x67452301; s[1] = 0xefcdab89; s[2] = 0x98badcfe; s[3] = 0x10325476; }
void RefMd4::update(const void *v, size_t n)
{
    const unsigned char *p = (const unsigned char *)v;
    total += n;
    while (n) {
        if (tl == 0 && n >= 64) { md4_block(s, p); p += 64; n -= 64; continue; }
        size_t k = 64 - tl; if (k > n) k = n;
        memcpy(tail + tl, p, k); tl += k; p += k; n -= k;
        if (tl == 64) { md4_block(s, tail); tl = 0; }
    }
}
Bytes RefMd4::result()
{
    u64 bits = total * 8;
    unsigned char pad[72] = {0x80};
    size_t pl = (tl < 56 ? 56 : 120) - tl;
    update(pad, pl);
    unsigned char l[8];
    for (int i = 0; i < 8; i++) l[i] = (unsigned char)(bits >> (8 * i));
    update(l, 8);
    Bytes r(16, 0);
    for (int i = 0; i < 16; i++) r[i] = (char)(s[i / 4] >> (8 * (i % 4)));
    return r;
}
Bytes ref_md4(const void *p, size_t n) { RefMd4 m; m.update(p, n); return m.result(); }

// ---- BLAKE2b, RFC 7693, 32-byte digest, no key
static const u64 IV[8] = {0x6a09e667f3bcc908ULL, 0xbb67ae8584caa73bULL, 0x3c6ef372fe94f82bULL, 0xa54ff53a5f1d36f1ULL,
                          0x510e527fade682d1ULL, 0x9b05688c2b3e6c1fULL, 0x1f83d9abfb41bd6bULL, 0x5be0cd19137e2179ULL};
static const unsigned char SG[10][16] = {
    {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
    {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4}, {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
    {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13}, {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
    {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11}, {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
    {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5}, {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}};
static inline u64 ror(u64 x, int n) { return (x >> n) | (x << (64 - n)); }
static void b2_block(u64 h[8], const unsigned char *p, u64 t, bool last)
{
    u64 v[16], m[16];
    memcpy(m, p, 128);
    for (int i = 0; i < 8; i++) { v[i] = h[i]; v[i + 8] = IV[i]; }
    v[12] ^= t; if (last) v[14] = ~v[14];
    auto G = [&](int a, int b, int c, int d, u64 x, u64 y) {
        v[a] += v[b] + x; v[d] = ror(v[d] ^ v[a], 32); v[c] += v[d]; v[b] = ror(v[b] ^ v[c], 24);
        v[a] += v[b] + y; v[d] = ror(v[d] ^ v[a], 16); v[c] += v[d]; v[b] = ror(v[b] ^ v[c], 63);
    };
    for (int r = 0; r < 12; r++) {
        const unsigned char *s = SG[r % 10];
        G(0, 4, 8, 12, m[s[0]], m[s[1]]); G(1, 5, 9, 13, m[s[2]], m[s[3]]);
        G(2, 6, 10, 14, m[s[4]], m[s[5]]); G(3, 7, 11, 15, m[s[6]], m[s[7]]);
        G(0, 5, 10, 15, m[s[8]], m[s[9]]); G(1, 6, 11, 12, m[s[10]], m[s[11]]);
        G(2, 7, 8, 13, m[s[12]], m[s[13]]); G(3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
}
Bytes ref_blake2b256(const void *v, size_t n)
{
    const unsigned char *p = (const unsigned char *)v;
    u64 h[8], t = 0;
    for (int i = 0; i < 8; i++) h[i] = IV[i];
    h[0] ^= 0x01010000 ^ 32;
    while (n > 128) { t += 128; b2_block(h, p, t, false); p += 128; n -= 128; }
    unsigned char last[128] = {0};
    if (n) memcpy(last, p, n);
    t += n;
    b2_block(h, last, t, true);
    return Bytes((const char *)h, 32);
}

u32 ref_weak(u32 magic, const void *p, size_t n) { return magic_is_rk(magic) ? ref_rabinkarp(p, n) : ref_rollsum(p, n); }
Bytes ref_strong(u32 magic, const void *p, size_t n, size_t len)
{
    Bytes r = magic_is_md4(magic) ? ref_md4(p, n) : ref_blake2b256(p, n);
    r.resize(len);
    return r;
}
void put_be(Bytes &b, u64 v, int n) { for (int i = n - 1; i >= 0; i--) b.push_back((char)(v >> (8 * i))); }
u64 get_be(const Bytes &b, size_t at, int n) { u64 v = 0; for (int i = 0; i < n; i++) v = v << 8 | (unsigned char)b[at + i]; return v; }

Bytes ref_sig_encode(const RefSig &s)
{
    Bytes b;
    put_be(b, s.magic, 4); put_be(b, s.block_len, 4); put_be(b, s.strong_len, 4);
    for (auto &e : s.blocks) { put_be(b, e.first, 4); b += e.second; }
    return b;
}
RefSig ref_sig_make(u32 magic, size_t bl, size_t sl, const Bytes &basis)
{
    RefSig s{magic, (u32)bl, (u32)sl, {}};
    for (size_t p = 0; p < basis.size(); p += bl) {
        size_t n = basis.size() - p < bl ? basis.size() - p : bl;
        s.blocks.push_back({ref_weak(magic, basis.data() + p, n), ref_strong(magic, basis.data() + p, n, sl)});
    }
    return s;
}
SigVerdict ref_sig_parse(const Bytes &b, RefSig *o, std::string *why)
{
    auto bad = [&](const char *w) { if (why) *why = w; return SIG_BAD; };
    if (b.size() < 12) return bad("header cut short");
    RefSig s;
    s.magic = (u32)get_be(b, 0, 4); s.block_len = (u32)get_be(b, 4, 4); s.strong_len = (u32)get_be(b, 8, 4);
    if (s.magic != M_MD4 && s.magic != M_BLAKE2 && s.magic != M_RK_MD4 && s.magic != M_RK_BLAKE2) return bad("unknown magic");
    if (s.block_len < 1 || s.block_len > 0x7fffffff) return bad("block length out of range");
    if (s.strong_len < 1 || s.strong_len > magic_max_strong(s.magic)) return bad("strong sum length out of range");
    size_t e = 4 + s.strong_len;
    if ((b.size() - 12) % e) return bad("incomplete block entry");
    for (size_t p = 12; p < b.size(); p += e) s.blocks.push_back({(u32)get_be(b, p, 4), b.substr(p + 4, s.strong_len)});
    if (o) *o = s;
    return SIG_OK;
}

static const int W[4] = {1, 2, 4, 8};
RefDelta ref_delta_parse(const Bytes &d)
{
    RefDelta r; r.used = 0;
    if (d.size() < 4) { r.result = RefDelta::INPUT_ENDED; return r; }
    if (get_be(d, 0, 4) != M_DELTA) { r.result = RefDelta::BAD_MAGIC; return r; }
    size_t p = 4;
    for (;;) {
        if (p >= d.size()) { r.result = RefDelta::INPUT_ENDED; return r; }
        unsigned op = (unsigned char)d[p];
        Cmd c{}; c.at = p;
        if (op == 0) { c.kind = K_END; c.hdr = 1; r.cmds.push_back(c); r.used = p + 1; r.result = RefDelta::DONE; return r; }
        if (op <= 0x44) {
            int w = op <= 64 ? 0 : W[op - 0x41];
            if (d.size() - p - 1 < (size_t)w) { r.result = RefDelta::INPUT_ENDED; return r; }
            u64 len = w ? get_be(d, p + 1, w) : op;
            c.kind = K_LIT; c.len = len; c.hdr = 1 + w;
            if (len == 0 || len > 0x7fffffffffffffffULL) { r.result = RefDelta::CORRUPT; return r; }
            p += 1 + w;
            if (d.size() - p < len) { r.cmds.push_back(c); r.result = RefDelta::INPUT_ENDED; return r; }
            p += len;
            r.cmds.push_back(c);
        } else if (op <= 0x54) {
            int pw = W[(op - 0x45) / 4], lw = W[(op - 0x45) % 4];
            if (d.size() - p - 1 < (size_t)(pw + lw)) { r.result = RefDelta::INPUT_ENDED; return r; }
            c.kind = K_COPY; c.pos = get_be(d, p + 1, pw); c.len = get_be(d, p + 1 + pw, lw); c.hdr = 1 + pw + lw;
            if (c.len == 0 || c.len > 0x7fffffffffffffffULL || c.pos > 0x7fffffffffffffffULL) { r.result = RefDelta::CORRUPT; return r; }
            p += c.hdr;
            r.cmds.push_back(c);
        } else { r.result = RefDelta::CORRUPT; return r; }
    }
}
int ref_patch(const Bytes &d, const std::function<size_t(u64, char *, size_t)> &basis, u64 limit, Bytes *out)
{
    RefDelta r = ref_delta_parse(d);
    if (r.result == RefDelta::BAD_MAGIC) return 104;
    for (auto &c : r.cmds) {
        if (c.kind == K_LIT) {
            size_t n = d.size() - (c.at + c.hdr) < c.len ? d.size() - (c.at + c.hdr) : (size_t)c.len;
            out->append(d, c.at + c.hdr, n);
            if (n < c.len) return 103;
        } else if (c.kind == K_COPY) {
            u64 pos = c.pos, left = c.len;
            char b[4096];
            while (left) {
                size_t n = left < sizeof b ? (size_t)left : sizeof b;
                size_t g = basis(pos, b, n);
                if (!g) return 103;
                out->append(b, g); pos += g; left -= g;
                if (out->size() > limit) return -1;
            }
        }
    }
    return r.result == RefDelta::DONE ? 0 : r.result == RefDelta::CORRUPT ? 106 : 103;
}
int ref_patch(const Bytes &d, const Bytes &basis, Bytes *out)
{
    return ref_patch(d, [&](u64 pos, char *b, size_t n) -> size_t {
        if (pos >= basis.size()) return 0;
        if (n > basis.size() - pos) n = basis.size() - pos;
        memcpy(b, basis.data() + pos, n); return n; }, ~0ULL, out);
}

static int ilen(u64 v) { return v <= 0xff ? 1 : v <= 0xffff ? 2 : v <= 0xffffffffULL ? 4 : 8; }
static int widx(int w) { return w == 1 ? 0 : w == 2 ? 1 : w == 4 ? 2 : 3; }
Bytes enc_copy(u64 pos, u64 len, int pw, int lw)
{
    if (!pw) pw = ilen(pos);
    if (!lw) lw = ilen(len);
    Bytes b; b.push_back((char)(0x45 + 4 * widx(pw) + widx(lw)));
    put_be(b, pos, pw); put_be(b, len, lw);
    return b;
}
Bytes enc_lit_hdr(u64 len, int w)
{
    Bytes b;
    if (w < 0) w = len <= 64 ? 0 : ilen(len);
    if (w == 0) { b.push_back((char)len); return b; }
    b.push_back((char)(0x41 + widx(w)));
    put_be(b, len, w);
    return b;
}

GreedyResult ref_greedy(const RefSig &s, const Bytes &nf)
{
    GreedyResult g{}; g.size = 4 + 1;
    std::unordered_multimap<u32, size_t> idx;
    idx.reserve(s.blocks.size() * 2);
    // keep only the first block for each (weak,strong) pair
    {
        std::map<std::pair<u32, Bytes>, bool> seen;
        for (size_t i = 0; i < s.blocks.size(); i++)
            if (!seen.count(s.blocks[i])) { seen[s.blocks[i]] = true; idx.emplace(s.blocks[i].first, i); }
    }
    size_t n = nf.size(), p = 0, bl = s.block_len;
    const unsigned char *c = (const unsigned char *)nf.data();
    const bool rk = magic_is_rk(s.magic);
    // rolling state for the window [p, p+w)
    bool have = false; size_t w = 0;
    u32 a = 0, b = 0, h = 1, mult = 1;
    u64 litrun = 0; bool inmatch = false; u64 mpos = 0, mlen = 0;
    auto flush_lit = [&] { while (litrun) { u64 k = litrun > 65533 ? 65533 : litrun; g.size += enc_lit_hdr(k).size() + k; g.cmds.push_back(Cmd{K_LIT, 0, k, 0, 0}); litrun -= k; } };
    auto flush_match = [&] { if (inmatch) { g.size += enc_copy(mpos, mlen).size(); g.copies++; g.cmds.push_back(Cmd{K_COPY, mpos, mlen, 0, 0}); inmatch = false; } };
    while (p < n) {
        if (!have) {
            w = n - p < bl ? n - p : bl;
            if (rk) { h = ref_rabinkarp(c + p, w); mult = 1; u32 base = 0x08104225u; size_t e = w; while (e) { if (e & 1) mult *= base; base *= base; e >>= 1; } }
            else { u32 d = ref_rollsum(c + p, w); a = d & 0xffff; b = d >> 16; }
            have = true;
        }
        u32 d = rk ? h : (((b & 0xffff) << 16) | (a & 0xffff));
        int64_t hit = -1;
        auto rg = idx.equal_range(d);
        if (rg.first != rg.second) {
            Bytes st = ref_strong(s.magic, c + p, w, s.strong_len);
            for (auto it = rg.first; it != rg.second; ++it)
                if (s.blocks[it->second].second == st && (hit < 0 || (int64_t)it->second < hit)) hit = (int64_t)it->second;
        }
        if (hit >= 0) {
            flush_lit();
            u64 pos = (u64)hit * bl;
            if (inmatch && mpos + mlen == pos) mlen += w;
            else { flush_match(); inmatch = true; mpos = pos; mlen = w; }
            p += w; have = false;
        } else {
            flush_match();
            g.lit++; litrun++;
            // roll
            unsigned char o = c[p];
            if (p + w < n) {
                unsigned char in = c[p + w];
                if (rk) h = h * 0x08104225u + in - mult * (o + 0x08104224u);
                else { a = (a + in - o) & 0xffff; b = (b + a - (u32)w * (o + 31u)) & 0xffff; }
            } else {
                if (rk) { mult *= 0x98f009adu; h -= mult * (o + 0x08104224u); }
                else { a = (a - o - 31u) & 0xffff; b = (b - (u32)w * (o + 31u)) & 0xffff; }
                w--;
            }
            p++;
            if (w == 0) have = false;
        }
    }
    flush_lit(); flush_match();
    return g;
}

// known answers and self-consistency of the reference models
static Bytes unhex(const char *h) { Bytes r; for (; h[0] && h[1]; h += 2) { unsigned v; sscanf(h, "%2x", &v); r.push_back((char)v); } return r; }
bool refmodel_selftest(std::string *why)
{
    auto bad = [&](const char *w) { *why = w; return false; };
    if (ref_md4("", 0) != unhex("31d6cfe0d16ae931b73c59d7e0c089c0")) return bad("md4 empty");
    if (ref_md4("abc", 3) != unhex("a448017aaf21d8525fc10ae87aa6729d")) return bad("md4 abc");
    const char *l = "12345678901234567890123456789012345678901234567890123456789012345678901234567890";
    if (ref_md4(l, 80) != unhex("e33b4ddc9c38f2199c3e7b164fcc0536")) return bad("md4 80");
    if (ref_blake2b256("", 0) != unhex("0e5751c026e543b2e8ab2eb06099daa1d1e5df47778f7787faab45cdf12fe3a8")) return bad("blake2b empty");
    if (ref_blake2b256("abc", 3) != unhex("bddd813c634239723171ef3fee98579b94964e3bb1cb3e427262c8c068d52319")) return bad("blake2b abc");
    // the greedy matcher against direct block-by-block sums
    Rng r(5);
    for (int it = 0; it < 60; it++) {
        size_t bl = 1 + r.below(12); u32 mg = (u32[]){M_MD4, M_BLAKE2, M_RK_MD4, M_RK_BLAKE2}[r.below(4)];
        Bytes basis, nf;
        for (size_t i = r.below(80); i; i--) basis.push_back((char)('a' + r.below(3)));
        for (size_t i = r.below(120); i; i--) nf.push_back((char)('a' + r.below(3)));
        RefSig s = ref_sig_make(mg, bl, 8, basis);
        GreedyResult g = ref_greedy(s, nf);
        size_t p = 0; u64 lit = 0;
        while (p < nf.size()) {
            size_t w = nf.size() - p < bl ? nf.size() - p : bl; bool hit = false;
            u32 wk = ref_weak(mg, nf.data() + p, w); Bytes st = ref_strong(mg, nf.data() + p, w, 8);
            for (auto &b : s.blocks) if (b.first == wk && b.second == st) hit = true;
            if (hit) p += w; else { p++; lit++; }
        }
        if (lit != g.lit) return bad("greedy matcher");
        if (ref_sig_encode(s) != [&] { RefSig t; std::string y; ref_sig_parse(ref_sig_encode(s), &t, &y); return ref_sig_encode(t); }()) return bad("signature codec");
    }
    return true;
}
