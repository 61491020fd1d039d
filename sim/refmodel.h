// Reference models, written from doc/formats.md, RFC 1320, RFC 7693 and the
// published definitions of the two rolling checksums; they share no code with
// the library.
#pragma once
#include "core.h"

enum { M_MD4 = 0x72730136, M_BLAKE2 = 0x72730137, M_RK_MD4 = 0x72730146, M_RK_BLAKE2 = 0x72730147, M_DELTA = 0x72730236 };

u32 ref_rollsum(const void *p, size_t n);
u32 ref_rabinkarp(const void *p, size_t n);
Bytes ref_md4(const void *p, size_t n);
Bytes ref_blake2b256(const void *p, size_t n);
struct RefMd4 {            // incremental, for streams too long to hold
    u32 s[4]; u64 total; unsigned char tail[64]; size_t tl;
    RefMd4(); void update(const void *p, size_t n); Bytes result();
};
static inline bool magic_is_rk(u32 m) { return (m & 0xf0) == 0x40; }
static inline bool magic_is_md4(u32 m) { return (m & 0x0f) == 0x06; }
static inline size_t magic_max_strong(u32 m) { return magic_is_md4(m) ? 16 : 32; }
u32 ref_weak(u32 magic, const void *p, size_t n);
Bytes ref_strong(u32 magic, const void *p, size_t n, size_t len);

void put_be(Bytes &b, u64 v, int n);
u64 get_be(const Bytes &b, size_t at, int n);

struct RefSig { u32 magic; u32 block_len; u32 strong_len; std::vector<std::pair<u32, Bytes>> blocks; };
Bytes ref_sig_encode(const RefSig &s);
RefSig ref_sig_make(u32 magic, size_t block_len, size_t strong_len, const Bytes &basis);
// classification of an arbitrary byte string as a signature
enum SigVerdict { SIG_OK, SIG_BAD };
SigVerdict ref_sig_parse(const Bytes &b, RefSig *out, std::string *why);

enum CmdKind { K_LIT, K_COPY, K_END };
struct Cmd { CmdKind kind; u64 pos, len; size_t at, hdr; };   // at: offset of command byte; hdr: bytes of command+params
struct RefDelta {
    enum R { DONE, INPUT_ENDED, BAD_MAGIC, CORRUPT } result;
    std::vector<Cmd> cmds;
    size_t used;            // bytes of the delta consumed up to and including END
};
RefDelta ref_delta_parse(const Bytes &d);
// Interpreter: out gets everything the commands determine; result as the
// documented error class (RS_* code).
int ref_patch(const Bytes &delta, const std::function<size_t(u64 pos, char *buf, size_t n)> &basis, u64 out_limit, Bytes *out);
int ref_patch(const Bytes &delta, const Bytes &basis, Bytes *out);

// Greedy block matcher: what rsync's algorithm sends
struct GreedyResult { u64 lit, size; u64 copies; std::vector<Cmd> cmds; };
GreedyResult ref_greedy(const RefSig &s, const Bytes &nf);
Bytes enc_copy(u64 pos, u64 len, int pw = 0, int lw = 0);
Bytes enc_lit_hdr(u64 len, int w = -1);
