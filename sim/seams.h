// Seams: everything the library gets from its environment (heap, clock, exit
// and abort, stdio files) is replaced, at link time and only for the library's
// objects, by the functions in seams.cc.
#pragma once
#include "core.h"
#include <memory>
#include <csetjmp>
#include <set>

void seams_reset();      // start of a run: pristine globals, heap, clock, file system
void seams_off();        // failure path: stop interfering
void globals_restore();  // library data segment back to its image at start-up
void seams_init();       // once, takes the image

// ---- heap ----
struct AllocState {
    u64 count = 0;             // allocation attempts in this run
    u64 fail_at = 0;           // fail the k-th attempt (1-based), 0 = never
    u64 fail_len = 1;          // and the following ones (1 = only that one)
    u64 fired = 0;
    u64 fill = 0xA5;           // fill seed
    size_t live_bytes = 0, live_count = 0, peak = 0;
    size_t cap = 0;            // attempts with size above cap fail (0 = no cap)
};
extern AllocState g_alloc;
std::string alloc_live_desc();
void alloc_free_all();         // what process exit does
size_t alloc_big_live();

// ---- abort / exit ----
extern jmp_buf *g_abort_jmp;   // armed: abort() jumps here with 1
extern u64 g_abort_count;
struct SimAbort {};
extern bool g_abort_throw;     // armed: abort() throws SimAbort

// ---- clock ----
extern int64_t g_clock;        // seconds
extern int64_t g_clock_advanced;
extern std::function<void()> g_clock_hook;

// ---- file system ----
struct Inode {
    Bytes data;
    u64 id = 0;
    bool fifo = false;              // not seekable, no size
    bool no_read = false, no_write = false, is_dir = false;
    u64 vsize = 0;                  // virtual contents when gen is set
    std::function<void(u64, char *, size_t)> gen;
    // fault plan
    int64_t read_fail_at = -1;      // reading the byte at this offset fails ...
    u64 read_fail_times = ~0ULL;    // ... this many times
    u64 read_chunk = 0;             // max bytes per low-level read (0 = unlimited)
    int64_t capacity = -1;          // writes past this size fail (ENOSPC)
    u64 write_fail_times = ~0ULL;
    int write_errno = 28, read_errno = 5, seek_errno = 5;
    int64_t write_fail_at = -1;     // n-th low-level write op fails (transient, times)
    bool seek_fail = false; u64 seek_fail_after = 0;
    bool fstat_fail = false;
    bool close_fail = false;
    int64_t truncate_reads_at = -1; // file is seen to end here (shrunk underneath)
    // observations
    u64 nreads = 0, nwrites = 0, nseeks = 0;
    u64 f_read = 0, f_write = 0, f_seek = 0, f_close = 0, f_stat = 0;
    u64 mutations = 0;
    u64 size() const { return gen ? vsize : data.size(); }
};
typedef std::shared_ptr<Inode> InodeP;
struct FsEvent { std::string op, path, mode; bool existed, ok, truncated, created; int err; };
struct SimFs {
    std::map<std::string, InodeP> names;
    std::vector<FsEvent> history;
    std::function<void(const std::string &op, const std::string &path, const std::string &mode)> pre_op;
    std::function<void(const std::string &path, Inode &)> on_create;
    std::map<std::string, std::vector<int>> open_errs;   // path -> errno for successive opens (0 = none)
    u64 next_id = 1;
    u64 ops = 0;
};
extern SimFs g_fs;
InodeP fs_put(const std::string &path, const Bytes &data);
InodeP fs_get(const std::string &path);
FILE *sim_open_file(InodeP ino, const char *mode, size_t bufsz);   // for the harness: a FILE* on an inode
extern "C" FILE *sim_fopen(const char *path, const char *mode);
extern "C" int sim_fclose(FILE *f);
extern u64 g_stdio_bufsz;          // default stdio buffer size for new files (0 = libc default)
size_t fs_open_count();

// ---- simulated process running the real rdiff main() ----
struct ProcResult { bool crashed; bool aborted; int status; Bytes out, err; };
struct ProcSpec {
    std::vector<std::string> argv;
    InodeP in, out, err;
    u64 kill_after_blocks = 0;
};
ProcResult run_rdiff(const ProcSpec &);
// direct stderr (fd-level) watching: library text that reached the default sink
extern "C" FILE *sim_stdin, *sim_stdout, *sim_stderr;
extern InodeP g_std_in, g_std_out, g_std_err;
