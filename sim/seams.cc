#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "seams.h"
#include <cstdlib>
#include <cerrno>
#include <unordered_map>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>

// ------------------------------------------------------------------ globals
extern "C" {
extern char __start_simdata[] __attribute__((weak));
extern char __stop_simdata[] __attribute__((weak));
extern char __start_simbss[] __attribute__((weak));
extern char __stop_simbss[] __attribute__((weak));
}
static std::vector<char> g_img1, g_img2;
void seams_init()
{
    if (__start_simdata) g_img1.assign(__start_simdata, __stop_simdata);
    if (__start_simbss) g_img2.assign(__start_simbss, __stop_simbss);
}
__attribute__((no_sanitize("address"))) static void raw_copy(char *d, const char *s, size_t n)
{
    volatile char *vd = d;
    for (size_t i = 0; i < n; i++) vd[i] = s[i];
}
void globals_restore()
{
    if (!g_img1.empty()) raw_copy(__start_simdata, g_img1.data(), g_img1.size());
    if (!g_img2.empty()) raw_copy(__start_simbss, g_img2.data(), g_img2.size());
}

// --------------------------------------------------------------------- heap
AllocState g_alloc;
static bool g_seams_on = false;
struct Blk { size_t n; bool big; u64 seq; };
static std::unordered_map<void *, Blk> g_live;
static const size_t BIG = 48u << 20;

static void fillmem(void *p, size_t n, u64 salt)
{
    u64 w = mix64(g_alloc.fill ^ salt);
    unsigned char *c = (unsigned char *)p;
    size_t i = 0;
    if (n > (1u << 20)) n = 1u << 20;
    for (; i + 8 <= n; i += 8) memcpy(c + i, &w, 8);
    for (; i < n; i++) c[i] = (unsigned char)(w >> (8 * (i & 7)));
}

static void *real_alloc(size_t n, bool &big)
{
    big = n >= BIG;
    if (!big) return malloc(n ? n : 1);
    size_t pg = 4096, len = (n + pg - 1) / pg * pg;
    char *p = (char *)mmap(nullptr, len + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == (char *)MAP_FAILED) return nullptr;
    mprotect(p + len, pg, PROT_NONE);
    return p + (len - n) / 16 * 16;
}
static void real_free(void *p, const Blk &b)
{
    if (!b.big) { free(p); return; }
    size_t pg = 4096, len = (b.n + pg - 1) / pg * pg;
    char *base = (char *)((uintptr_t)p / pg * pg);
    munmap(base, len + pg);
}

static bool alloc_should_fail(size_t n)
{
    g_alloc.count++;
    if (g_alloc.fail_at && g_alloc.count >= g_alloc.fail_at && g_alloc.count < g_alloc.fail_at + g_alloc.fail_len) {
        g_alloc.fired++; cnt("fault.alloc_fail"); ev("fault alloc_fail #%llu size %zu", (unsigned long long)g_alloc.count, n);
        return true;
    }
    if (g_alloc.cap && n > g_alloc.cap) {
        g_alloc.fired++; cnt("fault.alloc_too_big"); ev("fault alloc_too_big size %zu", n);
        return true;
    }
    return false;
}

extern "C" void *sim_malloc(size_t n)
{
    if (!g_seams_on) return malloc(n);
    if (alloc_should_fail(n)) { errno = ENOMEM; return nullptr; }
    Blk b; b.n = n; b.seq = g_alloc.count;
    void *p = real_alloc(n, b.big);
    if (!p) { errno = ENOMEM; return nullptr; }
    if (!b.big) fillmem(p, n, g_alloc.count);
    g_live[p] = b;
    g_alloc.live_bytes += n; g_alloc.live_count++;
    if (g_alloc.live_bytes > g_alloc.peak) g_alloc.peak = g_alloc.live_bytes;
    return p;
}
extern "C" void sim_free(void *p)
{
    if (!p) return;
    auto it = g_live.find(p);
    if (it == g_live.end()) { free(p); return; }
    Blk b = it->second;
    g_live.erase(it);
    g_alloc.live_bytes -= b.n; g_alloc.live_count--;
    real_free(p, b);
}
extern "C" void *sim_calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void *p = sim_malloc(n);
    if (p && n < BIG) memset(p, 0, n);
    return p;
}
extern "C" void *sim_realloc(void *p, size_t n)
{
    if (!p) return sim_malloc(n);
    auto it = g_live.find(p);
    if (it == g_live.end()) return realloc(p, n);
    void *q = sim_malloc(n);
    if (!q) return nullptr;
    size_t old = g_live[p].n;
    memcpy(q, p, old < n ? old : n);
    sim_free(p);
    return q;
}
extern "C" void *sim_reallocarray(void *p, size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    return sim_realloc(p, n);
}
extern "C" char *sim_strndup(const char *s, size_t m)
{
    size_t n = strnlen(s, m);
    char *p = (char *)sim_malloc(n + 1);
    if (p) { memcpy(p, s, n); p[n] = 0; }
    return p;
}
extern "C" char *sim_strdup(const char *s) { return sim_strndup(s, strlen(s)); }
extern "C" int sim_posix_memalign(void **out, size_t, size_t n)
{
    void *p = sim_malloc(n);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
extern "C" void *sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }

std::string alloc_live_desc()
{
    std::string r; int k = 0;
    std::map<u64, size_t> o;
    for (auto &e : g_live) o[e.second.seq] = e.second.n;
    for (auto &e : o) { if (k++ >= 8) { r += " ..."; break; } r += " #" + std::to_string(e.first) + ":" + std::to_string(e.second); }
    return r;
}
void alloc_free_all()
{
    std::vector<std::pair<void *, Blk>> v(g_live.begin(), g_live.end());
    g_live.clear();
    for (auto &e : v) real_free(e.first, e.second);
    g_alloc.live_bytes = 0; g_alloc.live_count = 0;
}

// -------------------------------------------------------------- abort, exit
jmp_buf *g_abort_jmp;
u64 g_abort_count;
bool g_abort_throw;
static jmp_buf *g_proc_jmp;
static int g_proc_status;
extern "C" [[noreturn]] void sim_abort(void)
{
    ev("abort()");
    g_abort_count++;
    if (g_abort_throw) throw SimAbort();
    if (g_abort_jmp) { api_leave(); longjmp(*g_abort_jmp, 1); }
    fail("abort", "the library called abort()");
}
extern "C" [[noreturn]] void sim_exit(int st)
{
    ev("exit(%d)", st);
    if (g_proc_jmp) { g_proc_status = st; longjmp(*g_proc_jmp, 1); }
    fail("exit", "the library called exit(%d)", st);
}
extern "C" [[noreturn]] void sim__exit(int st)
{
    ev("_exit(%d)", st);
    if (g_proc_jmp) { g_proc_status = st; longjmp(*g_proc_jmp, 4); }
    fail("exit", "the library called _exit(%d)", st);
}
extern "C" [[noreturn]] void sim_assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
    const char *b = strrchr(f, '/');
    fail("assert", "assertion '%s' failed at %s:%u %s", e, b ? b + 1 : f, l, fn);
}

// -------------------------------------------------------------------- clock
int64_t g_clock, g_clock_advanced;
std::function<void()> g_clock_hook;
extern "C" time_t sim_time(time_t *t)
{
    if (g_clock_hook) g_clock_hook();
    if (t) *t = (time_t)g_clock;
    return (time_t)g_clock;
}
extern "C" int sim_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = sim_time(nullptr); tv->tv_usec = 0; return 0; }
extern "C" int sim_clock_gettime(clockid_t, struct timespec *ts) { ts->tv_sec = sim_time(nullptr); ts->tv_nsec = 0; return 0; }

// -------------------------------------------------------------- file system
SimFs g_fs;
u64 g_stdio_bufsz;
extern "C" { FILE *sim_stdin, *sim_stdout, *sim_stderr; }
InodeP g_std_in, g_std_out, g_std_err;

struct OFile {
    InodeP ino;
    u64 pos = 0;
    bool rd = false, wr = false, app = false, dead = false;
    int fd = -1;
    FILE *fp = nullptr;
    char *vbuf = nullptr;
    std::string path;
};
static std::map<int, OFile *> g_fds;
static std::unordered_map<FILE *, OFile *> g_files;
static int g_next_fd = 1000;
static std::vector<FILE *> g_limbo;

size_t fs_open_count() { return g_fds.size(); }

static ssize_t low_read(OFile *o, char *buf, size_t n)
{
    Inode &i = *o->ino;
    if (!o->rd) { errno = EBADF; return -1; }
    i.nreads++;
    u64 sz = i.size();
    if (i.truncate_reads_at >= 0 && (u64)i.truncate_reads_at < sz) sz = (u64)i.truncate_reads_at;
    if (o->pos >= sz) n = 0;
    else if (n > sz - o->pos) n = sz - o->pos;
    if (i.read_chunk && n > i.read_chunk) n = i.read_chunk;
    if (i.read_fail_at >= 0 && i.f_read < i.read_fail_times && o->pos + n >= (u64)i.read_fail_at && o->pos <= (u64)i.read_fail_at &&
        (n > 0 || (u64)i.read_fail_at >= sz)) {
        u64 ok = (u64)i.read_fail_at - o->pos;
        if (ok == 0) {
            i.f_read++;
            cnt(i.read_errno == EIO ? "fault.read_eio" : "fault.read_other_errno"); ev("fault read errno %d %s @%llu", i.read_errno, o->path.c_str(), (unsigned long long)o->pos);
            errno = i.read_errno;
            return -1;
        }
        if (ok < n) n = ok;
    }
    if (i.gen) i.gen(o->pos, buf, n);
    else if (n) memcpy(buf, i.data.data() + o->pos, n);
    o->pos += n;
    return (ssize_t)n;
}
static ssize_t low_write(OFile *o, const char *buf, size_t n)
{
    Inode &i = *o->ino;
    if (o->dead) return (ssize_t)n;
    if (!o->wr) { errno = EBADF; return -1; }
    i.nwrites++;
    if (o->app) o->pos = i.data.size();
    size_t m = n; int err = 0;
    if (i.write_fail_at >= 0 && i.nwrites >= (u64)i.write_fail_at + 1 && i.f_write < i.write_fail_times) { m = 0; err = i.write_errno; }
    else if (i.capacity >= 0 && o->pos + n > (u64)i.capacity && i.f_write < i.write_fail_times) {
        m = (u64)i.capacity > o->pos ? (u64)i.capacity - o->pos : 0; err = i.write_errno;
    }
    if (m) {
        if (i.data.size() < o->pos + m) i.data.resize(o->pos + m);
        memcpy(&i.data[o->pos], buf, m);
        o->pos += m;
        i.mutations++;
    }
    if (err) {
        i.f_write++;
        cnt(err == ENOSPC ? "fault.write_enospc" : "fault.write_eio");
        ev("fault write errno %d %s after %zu of %zu", err, o->path.c_str(), m, n);
        errno = err;
        return m ? (ssize_t)m : -1;
    }
    return (ssize_t)n;
}
static int low_seek(OFile *o, off64_t *off, int wh)
{
    Inode &i = *o->ino;
    i.nseeks++;
    if (i.fifo) { errno = ESPIPE; return -1; }
    if (i.seek_fail && i.nseeks > i.seek_fail_after && !(wh == SEEK_CUR && *off == 0)) {
        i.f_seek++; cnt("fault.seek_eio"); ev("fault seek %s", o->path.c_str());
        errno = i.seek_errno; return -1;
    }
    int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)o->pos : (int64_t)i.size();
    int64_t p = base + *off;
    if (p < 0) { errno = EINVAL; return -1; }
    o->pos = (u64)p;
    *off = p;
    return 0;
}
static ssize_t ck_read(void *c, char *b, size_t n) { return low_read((OFile *)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n)
{
    ssize_t r = low_write((OFile *)c, b, n);
    return r < 0 ? 0 : r;
}
static int ck_seek(void *c, off64_t *o, int w) { return low_seek((OFile *)c, o, w); }
static int ck_close(void *c)
{
    OFile *o = (OFile *)c;
    int r = 0;
    if (o->ino->close_fail && o->wr && !o->dead) { o->ino->f_close++; cnt("fault.close_eio"); ev("fault close %s", o->path.c_str()); errno = EIO; r = -1; }
    g_fds.erase(o->fd);
    g_files.erase(o->fp);
    o->fp = nullptr;
    return r;      // OFile itself is reclaimed by fclose wrapper / reset
}

static FILE *attach(OFile *o, const char *mode)
{
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    char m[8]; int k = 0;
    for (const char *p = mode; *p && k < 6; p++) if (*p != 'x' && *p != 'e' && *p != 'm') m[k++] = *p;
    m[k] = 0;
    FILE *f = fopencookie(o, m, io);
    if (!f) harness_error("fopencookie failed");
    o->fp = f;
    if (g_stdio_bufsz) {
        o->vbuf = (char *)malloc(g_stdio_bufsz);
        setvbuf(f, o->vbuf, _IOFBF, g_stdio_bufsz);
    }
    g_files[f] = o;
    return f;
}
static OFile *mkofile(InodeP ino, bool rd, bool wr, bool app, const std::string &path)
{
    OFile *o = new OFile;
    o->ino = ino; o->rd = rd; o->wr = wr; o->app = app; o->path = path;
    o->fd = g_next_fd++;
    g_fds[o->fd] = o;
    return o;
}
static void reap(OFile *o) { free(o->vbuf); delete o; }

FILE *sim_open_file(InodeP ino, const char *mode, size_t bufsz)
{
    u64 sv = g_stdio_bufsz; g_stdio_bufsz = bufsz;
    bool plus = strchr(mode, '+');
    OFile *o = mkofile(ino, mode[0] == 'r' || plus, mode[0] != 'r' || plus, mode[0] == 'a', "file" + std::to_string(ino->id));
    if (mode[0] == 'w') ino->data.clear();
    FILE *f = attach(o, mode);
    g_stdio_bufsz = sv;
    return f;
}

InodeP fs_put(const std::string &path, const Bytes &data)
{
    InodeP i = std::make_shared<Inode>();
    i->data = data; i->id = g_fs.next_id++;
    if (!path.empty()) g_fs.names[path] = i;
    return i;
}
InodeP fs_get(const std::string &path) { auto it = g_fs.names.find(path); return it == g_fs.names.end() ? nullptr : it->second; }

static void hist(const std::string &op, const std::string &path, const std::string &mode, bool existed, bool ok, bool trunc, bool created, int err)
{
    g_fs.history.push_back(FsEvent{op, path, mode, existed, ok, trunc, created, err});
    ev("fs %s %s %s existed=%d ok=%d trunc=%d created=%d err=%d", op.c_str(), path.c_str(), mode.c_str(), existed, ok, trunc, created, err);
}

static OFile *open_common(const char *path, const std::string &modestr, bool rd, bool wr, bool app, bool creat, bool excl, bool trunc)
{
    std::string p(path);
    g_fs.ops++;
    if (g_fs.pre_op) g_fs.pre_op("open", p, modestr);
    auto &errs = g_fs.open_errs[p];
    InodeP ino = fs_get(p);
    bool existed = (bool)ino;
    if (!errs.empty()) {
        int e = errs.front(); errs.erase(errs.begin());
        if (e) { cnt("fault.open_err"); hist("open", p, modestr, existed, false, false, false, e); errno = e; return nullptr; }
    }
    int e = 0;
    if (!ino && !creat) e = ENOENT;
    else if (ino && creat && excl) e = EEXIST;
    else if (ino && ino->is_dir && wr) e = EISDIR;
    else if (ino && ((rd && ino->no_read) || (wr && ino->no_write))) e = EACCES;
    if (e) { hist("open", p, modestr, existed, false, false, false, e); errno = e; return nullptr; }
    bool created = false, truncated = false;
    if (!ino) { ino = fs_put(p, ""); created = true; if (g_fs.on_create) g_fs.on_create(p, *ino); }
    else if (trunc && wr && !ino->fifo) { truncated = true; ino->data.clear(); ino->mutations++; }
    hist("open", p, modestr, existed, true, truncated, created, 0);
    return mkofile(ino, rd, wr, app, p);
}

extern "C" FILE *sim_fopen(const char *path, const char *mode)
{
    bool plus = strchr(mode, '+'), x = strchr(mode, 'x');
    char c = mode[0];
    OFile *o = open_common(path, mode, c == 'r' || plus, c != 'r' || plus, c == 'a', c != 'r', x, c == 'w');
    return o ? attach(o, mode) : nullptr;
}
extern "C" FILE *sim_freopen(const char *, const char *, FILE *) { harness_error("freopen not modelled"); }
extern "C" int sim_fclose(FILE *f)
{
    auto it = g_files.find(f);
    OFile *o = it == g_files.end() ? nullptr : it->second;
    int r = fclose(f);
    int e = errno;
    if (f == sim_stdin) sim_stdin = nullptr;
    if (f == sim_stdout) sim_stdout = nullptr;
    if (f == sim_stderr) sim_stderr = nullptr;
    if (o) reap(o);
    errno = e;
    return r;
}
extern "C" int sim_fileno(FILE *f)
{
    auto it = g_files.find(f);
    return it == g_files.end() ? fileno(f) : it->second->fd;
}
static int fill_stat(Inode *i, struct stat *st)
{
    memset(st, 0, sizeof *st);
    if (i->fstat_fail) { i->f_stat++; cnt("fault.fstat_eio"); ev("fault fstat"); errno = EIO; return -1; }
    st->st_mode = i->fifo ? (S_IFIFO | 0600) : i->is_dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
    st->st_size = i->fifo ? 0 : (off_t)i->size();
    st->st_blksize = 4096;
    st->st_ino = i->id; st->st_dev = 7; st->st_nlink = 1;
    return 0;
}
extern "C" int sim_fstat(int fd, struct stat *st)
{
    auto it = g_fds.find(fd);
    if (it == g_fds.end()) { errno = EBADF; return -1; }
    return fill_stat(it->second->ino.get(), st);
}
extern "C" int sim_stat(const char *p, struct stat *st)
{
    g_fs.ops++;
    if (g_fs.pre_op) g_fs.pre_op("stat", p, "");
    InodeP i = fs_get(p);
    if (!i) { errno = ENOENT; return -1; }
    return fill_stat(i.get(), st);
}
extern "C" int sim_access(const char *p, int m)
{
    g_fs.ops++;
    if (g_fs.pre_op) g_fs.pre_op("access", p, "");
    InodeP i = fs_get(p);
    if (!i) { errno = ENOENT; return -1; }
    if (((m & R_OK) && i->no_read) || ((m & W_OK) && i->no_write)) { errno = EACCES; return -1; }
    return 0;
}
extern "C" int sim_open(const char *p, int fl, ...)
{
    int acc = fl & O_ACCMODE;
    OFile *o = open_common(p, "open", acc != O_WRONLY, acc != O_RDONLY, fl & O_APPEND, fl & O_CREAT, fl & O_EXCL, fl & O_TRUNC);
    return o ? o->fd : -1;
}
extern "C" FILE *sim_fdopen(int fd, const char *mode)
{
    auto it = g_fds.find(fd);
    if (it == g_fds.end()) { errno = EBADF; return nullptr; }
    return attach(it->second, mode);
}
extern "C" int sim_close(int fd)
{
    auto it = g_fds.find(fd);
    if (it == g_fds.end()) { errno = EBADF; return -1; }
    OFile *o = it->second;
    g_fds.erase(it);
    int r = 0;
    if (o->ino->close_fail) { o->ino->f_close++; errno = EIO; r = -1; }
    if (!o->fp) reap(o);
    return r;
}
extern "C" ssize_t sim_read(int fd, void *b, size_t n) { auto it = g_fds.find(fd); if (it == g_fds.end()) { errno = EBADF; return -1; } return low_read(it->second, (char *)b, n); }
extern "C" ssize_t sim_write(int fd, const void *b, size_t n) { auto it = g_fds.find(fd); if (it == g_fds.end()) { errno = EBADF; return -1; } return low_write(it->second, (const char *)b, n); }
extern "C" off_t sim_lseek(int fd, off_t o, int w)
{
    auto it = g_fds.find(fd); if (it == g_fds.end()) { errno = EBADF; return -1; }
    off64_t x = o; return low_seek(it->second, &x, w) ? -1 : (off_t)x;
}
extern "C" int sim_ftruncate(int fd, off_t n)
{
    auto it = g_fds.find(fd); if (it == g_fds.end()) { errno = EBADF; return -1; }
    it->second->ino->data.resize((size_t)n); it->second->ino->mutations++; return 0;
}
extern "C" int sim_fsync(int fd)
{
    auto it = g_fds.find(fd); if (it == g_fds.end()) { errno = EBADF; return -1; }
    return 0;
}
extern "C" int sim_isatty(int) { return 0; }
extern "C" int sim_unlink(const char *p)
{
    g_fs.ops++;
    if (g_fs.pre_op) g_fs.pre_op("unlink", p, "");
    bool ex = (bool)fs_get(p);
    hist("unlink", p, "", ex, ex, false, false, ex ? 0 : ENOENT);
    if (!ex) { errno = ENOENT; return -1; }
    g_fs.names.erase(p);
    return 0;
}
extern "C" int sim_rename(const char *a, const char *b)
{
    g_fs.ops++;
    if (g_fs.pre_op) g_fs.pre_op("rename", b, "");
    InodeP i = fs_get(a);
    bool ex = (bool)fs_get(b);
    hist("rename", b, a, ex, (bool)i, false, !ex, i ? 0 : ENOENT);
    if (!i) { errno = ENOENT; return -1; }
    g_fs.names.erase(a);
    g_fs.names[b] = i;
    return 0;
}
extern "C" int sim_link(const char *a, const char *b)
{
    g_fs.ops++;
    if (g_fs.pre_op) g_fs.pre_op("link", b, "");
    InodeP i = fs_get(a);
    bool ex = (bool)fs_get(b);
    hist("link", b, a, ex, i && !ex, false, i && !ex, 0);
    if (!i) { errno = ENOENT; return -1; }
    if (ex) { errno = EEXIST; return -1; }
    g_fs.names[b] = i;
    return 0;
}
extern "C" int sim_mkstemp(char *t)
{
    size_t n = strlen(t);
    snprintf(t + n - 6, 7, "%06u", (unsigned)(g_fs.ops % 1000000));
    return sim_open(t, O_RDWR | O_CREAT | O_EXCL, 0600);
}
extern "C" FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
extern "C" int sim_fstat64(int fd, struct stat *st) { return sim_fstat(fd, st); }
extern "C" int sim_stat64(const char *p, struct stat *st) { return sim_stat(p, st); }
extern "C" int sim_lstat(const char *p, struct stat *st) { return sim_stat(p, st); }
extern "C" int sim_lstat64(const char *p, struct stat *st) { return sim_stat(p, st); }
extern "C" int sim_open64(const char *p, int fl, ...) { return sim_open(p, fl, 0600); }
extern "C" int sim_remove(const char *p) { return sim_unlink(p); }
extern "C" off_t sim_lseek64(int fd, off_t o, int w) { return sim_lseek(fd, o, w); }
extern "C" int sim_chmod(const char *, mode_t) { return 0; }
extern "C" int sim_fchmod(int, mode_t) { return 0; }

// printf family on the implicit stdout
extern "C" int sim_vprintf(const char *f, va_list va) { return sim_stdout ? vfprintf(sim_stdout, f, va) : -1; }
extern "C" int sim_printf(const char *f, ...) { va_list va; va_start(va, f); int r = sim_vprintf(f, va); va_end(va); return r; }
extern "C" int sim_puts(const char *s) { if (!sim_stdout) return -1; int r = fputs(s, sim_stdout); return r < 0 ? r : fputc('\n', sim_stdout); }
extern "C" int sim_putchar(int c) { return sim_stdout ? fputc(c, sim_stdout) : -1; }
extern "C" void sim_perror(const char *s) { if (sim_stderr) fprintf(sim_stderr, "%s: %s\n", s, strerror(errno)); }
extern "C" int sim_getchar(void) { return sim_stdin ? fgetc(sim_stdin) : -1; }

static void std_streams(InodeP in, InodeP out, InodeP err, u64 outbuf)
{
    if (!in) { in = fs_put("", ""); in->fifo = true; }
    if (!out) { out = fs_put("", ""); out->fifo = true; }
    if (!err) { err = fs_put("", ""); err->fifo = true; }
    g_std_in = in; g_std_out = out; g_std_err = err;
    u64 sv = g_stdio_bufsz;
    g_stdio_bufsz = outbuf;
    sim_stdin = attach(mkofile(in, true, false, false, "<stdin>"), "r");
    sim_stdout = attach(mkofile(out, false, true, false, "<stdout>"), "w");
    g_stdio_bufsz = 0;
    sim_stderr = attach(mkofile(err, false, true, false, "<stderr>"), "w");
    setvbuf(sim_stderr, nullptr, _IONBF, 0);
    g_stdio_bufsz = sv;
}

// close every stream the simulated process left open
static void close_all(bool flush)
{
    std::vector<OFile *> v;
    for (auto &e : g_fds) v.push_back(e.second);
    for (OFile *o : v) {
        if (o->fp) {
            FILE *f = o->fp;
            if (flush) fflush(f);
            o->dead = true;
            fclose(f);
        } else
            g_fds.erase(o->fd);
        reap(o);
    }
    g_fds.clear(); g_files.clear();
    sim_stdin = sim_stdout = sim_stderr = nullptr;
}

extern "C" int rdiff_main(int argc, const char **argv);

ProcResult run_rdiff(const ProcSpec &sp)
{
    ProcResult r{};
    close_all(false);
    globals_restore();
    alloc_free_all();
    static std::vector<std::string> args;      // static: survive the longjmp
    static std::vector<const char *> av;
    args = sp.argv;
    av.clear();
    for (auto &s : args) av.push_back(s.c_str());
    av.push_back(nullptr);
    std_streams(sp.in, sp.out, sp.err, g_stdio_bufsz);
    static jmp_buf jb, ab;
    g_proc_jmp = &jb;
    g_abort_jmp = &ab;
    g_proc_status = 0;
    static bool crashed, aborted, hardexit; crashed = aborted = hardexit = false;
    if (sp.kill_after_blocks) {
        g_crash_countdown = sp.kill_after_blocks;
        g_crash_fn = [] { cnt("fault.process_kill"); ev("fault process_kill"); longjmp(*g_proc_jmp, 3); };
    }
    int j = setjmp(jb);
    if (j == 0) {
        if (setjmp(ab) == 0) {
            { u64 n = sp.in ? sp.in->size() : 0; for (auto &f : g_fs.names) n += f.second->size(); if (n < (64u << 20)) need_fuel((size_t)n); }
            api_enter("rdiff");
            int st = rdiff_main((int)av.size() - 1, av.data());
            g_proc_status = st;
        } else
            aborted = true;
    } else if (j == 3)
        crashed = true;
    else if (j == 4)
        hardexit = true;
    if (g_api) api_leave();
    g_proc_jmp = nullptr; g_abort_jmp = nullptr;
    g_crash_countdown = 0; g_crash_fn = nullptr;
    close_all(!crashed && !aborted && !hardexit);
    alloc_free_all();
    globals_restore();
    r.crashed = crashed; r.aborted = aborted; r.status = g_proc_status & 0xff;
    r.out = g_std_out->data; r.err = g_std_err->data;
    ev("rdiff exit status=%d crashed=%d aborted=%d out=%zu err=%zu", r.status, crashed, aborted, r.out.size(), r.err.size());
    // fresh default streams for the harness side
    std_streams(nullptr, nullptr, nullptr, 0);
    return r;
}

void seams_reset()
{
    g_seams_on = true;
    close_all(false);
    alloc_free_all();
    globals_restore();
    g_alloc = AllocState();
    g_abort_jmp = nullptr; g_abort_count = 0; g_abort_throw = false;
    g_proc_jmp = nullptr;
    g_clock = 1700000000; g_clock_advanced = 0; g_clock_hook = nullptr;
    g_fs = SimFs();
    g_stdio_bufsz = 0;
    g_next_fd = 1000;
    std_streams(nullptr, nullptr, nullptr, 0);
}
void seams_off() { g_alloc.fail_at = 0; g_alloc.cap = 0; }
