// Workload generators and the simulated application that drives the library.
#pragma once
#include "core.h"
#include "seams.h"
#include "refmodel.h"
extern "C" {
#include "librsync.h"
}

// ---- workload ----
struct SigArgs { u32 magic; size_t block_len, strong_len; };  // as passed (0 = default)
Bytes gen_content(size_t n);
size_t gen_len(size_t max);
size_t gen_block_len();
SigArgs gen_sigargs();                        // explicit, valid arguments
struct Pair { Bytes basis, nf; bool crafted; };
Pair gen_pair(u32 magic, size_t bl, size_t budget, bool allow_collisions);
void tame(Bytes &nf, const RefSig &rs, u64 limit = 1000000000ULL);
Bytes mutate(const Bytes &in, int maxops);    // random corruption
Bytes gen_delta(const Bytes &basis, bool &valid);        // structured delta bytes, sometimes malformed
size_t gen_budget();
void malform_sig(Bytes &b);                     // a signature with one specific defect

// ---- driving ----
struct Pol { int kind; size_t k; };
Pol gen_pol(const char *tag, bool out);
struct Sched {
    Pol in, out;
    bool late_eof;       // announce end of input only in a later call
    bool resplit;        // leftover input may be offered in smaller pieces
    bool readonly;       // input on read-only pages ending at a guard page
    int misalign;
    size_t hold = 0;     // no new input while at least this much of the old is left
};
Sched gen_sched();
Sched simple_sched();

struct Stream {          // one streaming job being fed
    rs_job_t *job;
    const char *in; size_t n;
    Sched sc;
    size_t pos = 0;      // consumed by the library
    size_t offered = 0;  // made available so far
    bool eof_told = false;
    bool no_out = false; // loadsig: no output side
    Bytes out;
    u64 calls = 0, idle = 0, max_in = 0;
    int result = RS_BLOCKED;
    bool copy_blocked = false;   // set by the copy callback when it refused
    bool check_live = true;
    const char *name;
    std::shared_ptr<char> rest; size_t rest_pos = 0;
    Stream(rs_job_t *j, const char *nm, const Bytes &b, const Sched &s) : job(j), in(b.data()), n(b.size()), sc(s), name(nm) { need_fuel(n); }
    bool step();         // one rs_job_iter; false when finished
    int run(u64 maxcalls = 0);
};

enum Mode { STREAM = 0, PULL = 1, WHOLE = 2 };
Mode gen_mode();
struct OpRes { int r; Bytes out; rs_stats_t st; u64 calls; u64 taken; };   // taken: input consumed (STREAM)

struct Basis {           // random-access source for the copy callback
    const Bytes *mem = nullptr;
    u64 vsize = 0;
    std::function<void(u64, char *, size_t)> gen;
    // behaviour
    size_t max_read = 0;       // short reads (0 = full)
    bool own_buf = false;      // hand back a buffer of its own
    size_t over = 0;           // lend up to this many bytes more than asked for (own buffer, release builds)
    u64 block_every = 0;       // RS_BLOCKED on every k-th call ...
    u64 served = 0; bool rested = false;
    u64 block_burst = 1;       // ... this many times in a row
    int err = 0; u64 err_at = 0;   // return err at the err_at-th call (1-based)
    int err_len = 0;           // what that call leaves in *len and *buf
    bool zero_len_at_end = false;  // DONE with length 0 instead of INPUT_ENDED
    FILE *fp = nullptr;        // an open stream of the application, used instead (and shared by several operations)
    // observations
    u64 calls = 0, blocked = 0, burst_left = 0; bool err_fired = false; bool zero_fired = false;
    Stream *stream = nullptr;
    char *own = nullptr; size_t own_n = 0;
    std::vector<std::pair<u64, u64>> req;   // (pos,len) returned
    bool record = false;
    u64 size() const { return gen ? vsize : mem->size(); }
    ~Basis();
    const char *out_lo = nullptr, *out_hi = nullptr;  // currently lent output space, if known
};
extern "C" rs_result basis_cb(void *o, rs_long_t pos, size_t *len, void **buf);
extern bool g_overlend;       // the run may use Basis::over
void gen_basis_behaviour(Basis &b);    // legal variations

OpRes do_sig(const Bytes &basis, const SigArgs &a, Mode m, FILE *fp = nullptr);
FILE *in_file(const Bytes &b, bool seekable = false);
OpRes do_load(const Bytes &sig, rs_signature_t **s, Mode m);
OpRes do_delta(rs_signature_t *s, const Bytes &nf, Mode m);
OpRes do_patch(Basis &b, const Bytes &delta, Mode m);
rs_signature_t *load_ok(const Bytes &sig);     // load + build, simple schedule; must succeed
int build_table(rs_signature_t *s);
void free_sig(rs_signature_t *s);
void set_buflens(Mode m, size_t insize = 0, size_t outsize = 0);

// pull-mode callbacks with scripted results
struct Pull {
    Stream *s = nullptr;
    const char *in; size_t n; Sched sc;
    size_t pos = 0, offered = 0; char *ibuf = nullptr; size_t icap = 0; Bytes icopy;
    char *obuf = nullptr; size_t ocap = 0; Bytes out;
    u64 incalls = 0, outcalls = 0, max_in = 0;
    int in_err = 0; u64 in_err_at = 0; int out_err = 0; u64 out_err_at = 0;
    bool in_fired = false, out_fired = false;
    bool have_out = true;
    char *cur_base = nullptr;
    bool eof_told = false;
    u64 idle = 0;
    ~Pull();
};
rs_result pull_in(rs_job_t *, rs_buffers_t *, void *);
rs_result pull_out(rs_job_t *, rs_buffers_t *, void *);
int pull_drive(rs_job_t *job, Pull &p);

// delta oracle: every command of `d` is right for (sig, nf); fails with cls otherwise
struct DeltaFacts { u64 lit_cmds, lit_bytes, lit_cmdbytes, copy_cmds, copy_bytes, copy_cmdbytes; };
DeltaFacts check_delta(const char *cls, const Bytes &d, const RefSig &s, const Bytes &nf, bool slack);
DeltaFacts delta_facts(const Bytes &d);
// true when a failure may be a genuine collision of a short strong sum
static inline bool strong_enough(size_t strong_len) { return strong_len == 0 || strong_len >= 8; }
u32 eff_magic(u32 m);
size_t eff_strong(u32 m, size_t s);
void clock_noise();
void quiet_logs();
extern u64 g_log_lines;
extern Bytes g_log_text;
extern int g_log_minlevel;
const char *rsname(int r);
