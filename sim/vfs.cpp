#include "vfs.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
using namespace sim;
namespace vfs {
std::map<std::string, File> files;
const char* const op_names[OPS] = {"open", "read", "write", "close", "other"};
Plan plan;
long count[OPS], total;
bool hard_failure, write_refused, exited;
int exit_status;
std::function<void(const std::string&, const char*, const std::string&)> changed;
std::function<void(const std::string&)> truncating;
struct Fd { bool used = false; std::string path; off_t pos = 0; int flags = 0; FILE* f = nullptr; size_t last = 0; };
static const int BASE = 1000, NFD = 64;
static Fd fds[NFD];
void reset() { files.clear(); plan = Plan(); memset(count, 0, sizeof count); total = 0; hard_failure = write_refused = exited = false; exit_status = 0; }
static Fd* get(int fd) { return fd >= BASE && fd < BASE + NFD && fds[fd - BASE].used ? &fds[fd - BASE] : nullptr; }
static std::string norm(const char* p) {
    std::string s = p && *p == '/' ? p : std::string("/w/") + (p ? p : ""), o;
    size_t i = 0;
    while (i < s.size()) {
        size_t j = s.find('/', i); if (j == std::string::npos) j = s.size();
        std::string c = s.substr(i, j - i); i = j + 1;
        if (c.empty() || c == ".") continue;
        if (c == "..") { size_t k = o.rfind('/'); o = k == std::string::npos ? "" : o.substr(0, k); continue; }
        o += "/" + c;
    }
    return o.empty() ? "/" : o;
}
static std::string parent(const std::string& p) { size_t k = p.rfind('/'); return k == 0 || k == std::string::npos ? "/" : p.substr(0, k); }
static int killed_here;
static void die(const char* what, const std::string& path) {
    fault(F_CRASH); desc("  t=%llu the process is killed at I/O operation %ld (%s %s)", (unsigned long long)now(), total - 1, what, path.c_str());
    exited = true; exit_status = -9;
    end_fiber_now();
}
// enters an operation; returns the errno of an injected failure
static int enter(Op op, const std::string& path) {
    sync_point();
    Harness h;
    ++R->io_ops; long k = count[op]++; long t = total++;
    killed_here = plan.kill_at >= 0 && t == plan.kill_at;
    if (killed_here && plan.kill_phase == 0) die(op_names[op], path);
    if (plan.fail_at[op] >= 0 && (k == plan.fail_at[op] || (plan.lasting[op] && k > plan.fail_at[op]))) {
        static const Fault ff[OPS] = {F_OPEN_ERR, F_READ_ERR, F_WRITE_ERR, F_CLOSE_ERR, F_BAD_ARG};
        fault(ff[op]); hard_failure = true;
        desc("  t=%llu %s #%ld of %s fails: %s", (unsigned long long)now(), op_names[op], k, path.c_str(), strerror(plan.fail_errno[op]));
        return plan.fail_errno[op];
    }
    return 0;
}
static void leave(Op op, const std::string& path) { if (killed_here) { Harness h; die(op_names[op], path); } }
static void note(const std::string& path, const char* what, const std::string& before) { if (changed) changed(path, what, before); }
static int do_open(const char* p, int flags) {
    std::string path; { Harness h; path = norm(p); }
    int e = enter(OPEN, path);
    int fd = -1;
    {
        Harness h;
        auto it = files.find(path);
        bool wr = (flags & O_ACCMODE) != O_RDONLY;
        if (!e) {
            if (!p || !*p) e = ENOENT;
            else if (it == files.end() && !(flags & O_CREAT)) e = ENOENT;
            else if (it == files.end() && (!files.count(parent(path)) || !files[parent(path)].dir)) e = ENOENT;
            else if (it != files.end() && it->second.dir && (wr || (flags & O_CREAT))) e = EISDIR;
            else if (it != files.end() && it->second.read_only && wr) e = EACCES;
            else if (it != files.end() && (flags & O_EXCL) && (flags & O_CREAT)) e = EEXIST;
        }
        if (!e) {
            for (int i = 0; i < NFD; ++i) if (!fds[i].used) { fd = i; break; }
            if (fd < 0) e = EMFILE;
        }
        if (!e) {
            if (it == files.end()) { files[path]; note(path, "created", ""); desc("  t=%llu creates %s", (unsigned long long)now(), path.c_str()); }
            else if ((flags & O_TRUNC) && wr) { if (truncating) truncating(path); std::string b; b.swap(it->second.data); desc("  t=%llu truncates %s", (unsigned long long)now(), path.c_str()); note(path, "truncated", b); }
            fds[fd] = Fd(); fds[fd].used = true; fds[fd].path = path; fds[fd].flags = flags;
        }
    }
    leave(OPEN, path);
    if (e) { errno = e; return -1; }
    return BASE + fd;
}
static ssize_t do_read(Fd* f, void* buf, size_t n, off_t* at) {
    int e = enter(READ, f->path);
    size_t k = 0;
    {
        Harness h;
        if (e) { errno = e; return -1; }
        if (plan.benign_intr && chance(1, 6)) { fault(F_EINTR); errno = EINTR; return -1; }
        auto it = files.find(f->path);
        if (it == files.end()) { errno = EIO; return -1; }
        if (it->second.dir) { errno = EISDIR; return -1; }
        if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
        const std::string& d = it->second.data; size_t p = (size_t)*at;
        k = p < d.size() ? std::min(n, d.size() - p) : 0;
        if (k > 1 && plan.benign_short && chance(2, 3)) { k = 1 + draw((uint32_t)std::min<size_t>(k - 1, 1 << draw(10))); fault(F_SHORT_READ); }
        if (k) memcpy(buf, d.data() + p, k);
        *at += (off_t)k;
    }
    leave(READ, f->path);
    return (ssize_t)k;
}
static ssize_t do_write(Fd* f, const void* buf, size_t n, off_t* at) {
    int e = enter(WRITE, f->path);
    size_t k = n; int er = 0;
    {
        Harness h;
        if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
        if (e) { er = e; k = plan.partial && n > 1 ? draw((uint32_t)n) : 0; plan.partial = false; }
        else if (plan.benign_intr && chance(1, 6)) { fault(F_EINTR); errno = EINTR; return -1; }
        else if (n > 1 && plan.benign_short && chance(1, 2)) { k = 1 + draw((uint32_t)n - 1); fault(F_SHORT_WRITE); }
        if (killed_here && plan.kill_phase == 1 && k > 0) k = draw((uint32_t)k + 1);
        std::string& d = files[f->path].data;
        if (plan.disk >= 0 && k > 0) {
            if ((long)k > plan.disk) { if (plan.disk == 0) { er = ENOSPC; hard_failure = true; desc("  t=%llu the disk is full", (unsigned long long)now()); fault(F_ENOSPC); } else fault(F_SHORT_WRITE); k = (size_t)plan.disk; }
            plan.disk -= (long)k;
        }
        if (k) {
            std::string b = d;
            size_t p = f->flags & O_APPEND ? d.size() : (size_t)*at;
            if (d.size() < p + k) d.resize(p + k, '\0');
            memcpy(&d[p], buf, k); *at = (off_t)(p + k); f->last = k;
            note(f->path, "written", b);
        }
    }
    leave(WRITE, f->path);
    if (er && k == 0) { write_refused = true; errno = er; return -1; }
    return (ssize_t)k;
}
static int do_close(Fd* f) {
    std::string path; { Harness h; path = f->path; }
    bool wr = (f->flags & O_ACCMODE) != O_RDONLY;
    int e = enter(CLOSE, path);
    {
        Harness h;
        if (e && wr && plan.lose_on_close && f->last) {
            auto it = files.find(path);
            if (it != files.end() && it->second.data.size() >= f->last) { std::string b = it->second.data; it->second.data.resize(b.size() - f->last); desc("  its last %zu bytes are lost", f->last); note(path, "written", b); }
        }
        *f = Fd();
    }
    leave(CLOSE, path);
    if (e) { errno = e; return -1; }
    return 0;
}
static off_t do_seek(Fd* f, off_t o, int w) {
    Harness h;
    off_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? f->pos : (off_t)files[f->path].data.size();
    if (b + o < 0) { errno = EINVAL; return -1; }
    return f->pos = b + o;
}
static void fill(const std::string& path, struct stat* st) {
    memset(st, 0, sizeof *st); auto& f = files[path];
    st->st_mode = f.dir ? S_IFDIR | 0755 : S_IFREG | (f.read_only ? 0444 : 0644); st->st_size = (off_t)f.data.size(); st->st_nlink = 1; st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512;
}
static int do_remove(const char* p) {
    std::string path; { Harness h; path = norm(p); }
    int e = enter(OTHER, path);
    {
        Harness h;
        if (!e && !files.count(path)) e = ENOENT;
        if (!e) { std::string b = files[path].data; files.erase(path); desc("  t=%llu removes %s", (unsigned long long)now(), path.c_str()); note(path, "removed", b); }
    }
    leave(OTHER, path);
    if (e) { errno = e; return -1; }
    return 0;
}
static int do_rename(const char* a, const char* b) {
    std::string pa, pb; { Harness h; pa = norm(a); pb = norm(b); }
    int e = enter(OTHER, pa);
    {
        Harness h;
        if (!e && !files.count(pa)) e = ENOENT;
        if (!e && (!files.count(parent(pb)) || (files.count(pb) && files[pb].dir))) e = EISDIR;
        if (!e) {
            File f = files[pa]; std::string old = files.count(pb) ? files[pb].data : "";
            files.erase(pa); files[pb] = f; desc("  t=%llu renames %s to %s", (unsigned long long)now(), pa.c_str(), pb.c_str());
            note(pa, "removed", f.data); note(pb, "replaced", old);
        }
    }
    leave(OTHER, pa);
    if (e) { errno = e; return -1; }
    return 0;
}
static int do_truncate(const std::string& path, off_t n) {
    int e = enter(OTHER, path);
    {
        Harness h;
        if (!e && !files.count(path)) e = ENOENT;
        if (!e) { if (truncating) truncating(path); std::string b = files[path].data; files[path].data.resize((size_t)n, '\0'); note(path, "truncated", b); }
    }
    leave(OTHER, path);
    if (e) { errno = e; return -1; }
    return 0;
}
// FILE streams on top of descriptors
static ssize_t ck_read(void* c, char* b, size_t n) { Fd* f = get((int)(long)c); return f ? do_read(f, b, n, &f->pos) : -1; }
static ssize_t ck_write(void* c, const char* b, size_t n) { Fd* f = get((int)(long)c); ssize_t k = f ? do_write(f, b, n, &f->pos) : 0; return k < 0 ? 0 : k; }
static int ck_seek(void* c, off64_t* o, int w) { Fd* f = get((int)(long)c); if (!f) return -1; off_t r = do_seek(f, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) { Fd* f = get((int)(long)c); return f ? do_close(f) : -1; }
static FILE* file_of(int fd, const char* mode) {
    Harness h;
    cookie_io_functions_t io{ck_read, ck_write, ck_seek, ck_close};
    FILE* f = fopencookie((void*)(long)fd, mode, io);
    get(fd)->f = f; return f;
}
static int mode_flags(const char* m) {
    int fl = 0; bool plus = strchr(m, '+');
    if (*m == 'r') fl = plus ? O_RDWR : O_RDONLY;
    else if (*m == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    if (strchr(m, 'x')) fl |= O_EXCL;
    return fl;
}
}
using namespace vfs;
#define X __attribute__((visibility("default"), used))
#define SIMULATED (in_sut())
static long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0) { return syscall(n, a, b, c, d); }
extern "C" {
X FILE* fopen64(const char* p, const char* m) {
    if (!SIMULATED) { int fd = (int)raw(SYS_openat, AT_FDCWD, (long)p, mode_flags(m) | O_CLOEXEC, 0666); return fd < 0 ? nullptr : fdopen(fd, m); }
    int fd = do_open(p, mode_flags(m)); return fd < 0 ? nullptr : file_of(fd, m);
}
#undef fopen
X FILE* fopen(const char* p, const char* m) { return fopen64(p, m); }
X int fileno(FILE* f) noexcept {
    if (f) for (int i = 0; i < NFD; ++i) if (fds[i].used && fds[i].f == f) return BASE + i;
    return f->_fileno;
}
#define VA_MODE int mode = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); } (void)mode;
X int open(const char* p, int fl, ...) { VA_MODE if (SIMULATED) return do_open(p, fl); return (int)raw(SYS_openat, AT_FDCWD, (long)p, fl, mode); }
X int open64(const char* p, int fl, ...) { VA_MODE if (SIMULATED) return do_open(p, fl); return (int)raw(SYS_openat, AT_FDCWD, (long)p, fl | O_LARGEFILE, mode); }
X int openat(int d, const char* p, int fl, ...) { VA_MODE if (SIMULATED) return do_open(p, fl); return (int)raw(SYS_openat, d, (long)p, fl, mode); }
X int openat64(int d, const char* p, int fl, ...) { VA_MODE if (SIMULATED) return do_open(p, fl); return (int)raw(SYS_openat, d, (long)p, fl, mode); }
X int creat(const char* p, mode_t m) { if (SIMULATED) return do_open(p, O_CREAT | O_WRONLY | O_TRUNC); return (int)raw(SYS_creat, (long)p, m); }
X int close(int fd) { if (Fd* f = get(fd)) return do_close(f); return (int)raw(SYS_close, fd); }
X ssize_t read(int fd, void* b, size_t n) { if (Fd* f = get(fd)) return do_read(f, b, n, &f->pos); return raw(SYS_read, fd, (long)b, (long)n); }
X ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
X ssize_t pread(int fd, void* b, size_t n, off_t o) { if (Fd* f = get(fd)) return do_read(f, b, n, &o); return raw(SYS_pread64, fd, (long)b, (long)n, o); }
X ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
X ssize_t write(int fd, const void* b, size_t n) { if (Fd* f = get(fd)) return do_write(f, b, n, &f->pos); return raw(SYS_write, fd, (long)b, (long)n); }
X ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { if (Fd* f = get(fd)) return do_write(f, b, n, &o); return raw(SYS_pwrite64, fd, (long)b, (long)n, o); }
X ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
X ssize_t writev(int fd, const struct iovec* v, int c) {
    Fd* f = get(fd);
    if (!f) return raw(SYS_writev, fd, (long)v, c);
    std::string s; { Harness h; for (int i = 0; i < c; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len); }
    return do_write(f, s.data(), s.size(), &f->pos);
}
X ssize_t readv(int fd, const struct iovec* v, int c) { Fd* f = get(fd); if (!f) return raw(SYS_readv, fd, (long)v, c); return c ? do_read(f, v[0].iov_base, v[0].iov_len, &f->pos) : 0; }
X ssize_t sendfile(int o, int i, off_t* off, size_t n) { if (get(o) || get(i)) { errno = EINVAL; return -1; } return raw(SYS_sendfile, o, i, (long)off, (long)n); }
X off_t lseek(int fd, off_t o, int w) noexcept { if (Fd* f = get(fd)) return do_seek(f, o, w); return raw(SYS_lseek, fd, o, w); }
X off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
X int fstat(int fd, struct stat* st) noexcept { if (Fd* f = get(fd)) { Harness h; fill(f->path, st); return 0; } return (int)raw(SYS_fstat, fd, (long)st); }
X int fstat64(int fd, struct stat64* st) noexcept { return fstat(fd, (struct stat*)st); }
static int stat_path(const char* p, struct stat* st) { Harness h; std::string q = norm(p); if (!files.count(q)) { errno = ENOENT; return -1; } fill(q, st); return 0; }
X int stat(const char* p, struct stat* st) noexcept { if (SIMULATED) return stat_path(p, st); return (int)raw(SYS_newfstatat, AT_FDCWD, (long)p, (long)st, 0); }
X int stat64(const char* p, struct stat64* st) noexcept { return stat(p, (struct stat*)st); }
X int lstat(const char* p, struct stat* st) noexcept { if (SIMULATED) return stat_path(p, st); return (int)raw(SYS_newfstatat, AT_FDCWD, (long)p, (long)st, AT_SYMLINK_NOFOLLOW); }
X int access(const char* p, int m) noexcept { if (SIMULATED) { struct stat st; int x = stat_path(p, &st); if (!x && (m & W_OK) && (st.st_mode & 0222) == 0) { errno = EACCES; return -1; } return x; } return (int)raw(SYS_access, (long)p, m); }
X int unlink(const char* p) noexcept { if (SIMULATED) return do_remove(p); return (int)raw(SYS_unlink, (long)p); }
X int unlinkat(int d, const char* p, int f) noexcept { if (SIMULATED) return do_remove(p); return (int)raw(SYS_unlinkat, d, (long)p, f); }
X int remove(const char* p) noexcept { if (SIMULATED) return do_remove(p); int r = (int)raw(SYS_unlink, (long)p); return r && errno == EISDIR ? (int)raw(SYS_rmdir, (long)p) : r; }
X int rename(const char* a, const char* b) noexcept { if (SIMULATED) return do_rename(a, b); return (int)raw(SYS_rename, (long)a, (long)b); }
X int renameat(int, const char* a, int, const char* b) noexcept { if (SIMULATED) return do_rename(a, b); return (int)raw(SYS_rename, (long)a, (long)b); }
X int truncate(const char* p, off_t n) noexcept { if (SIMULATED) { std::string q; { Harness h; q = norm(p); } return do_truncate(q, n); } return (int)raw(SYS_truncate, (long)p, n); }
X int truncate64(const char* p, off64_t n) noexcept { return truncate(p, n); }
X int ftruncate(int fd, off_t n) noexcept { if (Fd* f = get(fd)) { std::string q; { Harness h; q = f->path; } return do_truncate(q, n); } return (int)raw(SYS_ftruncate, fd, n); }
X int ftruncate64(int fd, off64_t n) noexcept { return ftruncate(fd, n); }
X int fsync(int fd) { if (get(fd)) return 0; return (int)raw(SYS_fsync, fd); }
X int fdatasync(int fd) { if (get(fd)) return 0; return (int)raw(SYS_fdatasync, fd); }
X int mkdir(const char* p, mode_t m) noexcept { if (SIMULATED) { Harness h; std::string q = norm(p); if (files.count(q)) { errno = EEXIST; return -1; } files[q].dir = true; return 0; } return (int)raw(SYS_mkdir, (long)p, m); }
X int link(const char* a, const char* b) noexcept { if (SIMULATED) { errno = EPERM; return -1; } return (int)raw(SYS_link, (long)a, (long)b); }
X int symlink(const char* a, const char* b) noexcept { if (SIMULATED) { errno = EPERM; return -1; } return (int)raw(SYS_symlink, (long)a, (long)b); }
X int chmod(const char* p, mode_t m) noexcept { if (SIMULATED) return 0; return (int)raw(SYS_chmod, (long)p, m); }
X int fchmod(int fd, mode_t m) noexcept { if (get(fd)) return 0; return (int)raw(SYS_fchmod, fd, m); }
X int ioctl(int fd, unsigned long r, ...) noexcept {
    va_list a; va_start(a, r); long arg = va_arg(a, long); va_end(a);
    if (Fd* f = get(fd)) { if (r == FIONREAD) { Harness h; *(int*)arg = (int)std::max<off_t>(0, (off_t)files[f->path].data.size() - f->pos); return 0; } errno = ENOTTY; return -1; }
    return (int)raw(SYS_ioctl, fd, (long)r, arg);
}
X int poll(struct pollfd* p, nfds_t n, int t) { for (nfds_t i = 0; i < n; ++i) if (get(p[i].fd)) { p[i].revents = p[i].events; return 1; } return (int)raw(SYS_poll, (long)p, (long)n, t); }
X int fcntl(int fd, int c, ...) { va_list a; va_start(a, c); long arg = va_arg(a, long); va_end(a); if (get(fd)) return c == F_GETFL ? get(fd)->flags : 0; return (int)raw(SYS_fcntl, fd, c, arg); }
X int fcntl64(int fd, int c, ...) { va_list a; va_start(a, c); long arg = va_arg(a, long); va_end(a); return fcntl(fd, c, arg); }
static void leave_process(int c) { Harness h; exited = true; exit_status = c; desc("  t=%llu the program calls exit(%d)", (unsigned long long)now(), c); end_fiber_now(); }
X void _exit(int c) { if (SIMULATED) leave_process(c); raw(SYS_exit_group, c); __builtin_unreachable(); }
X void _Exit(int c) { _exit(c); }
void __real_exit(int) __attribute__((noreturn));
X void __wrap_exit(int c) { if (SIMULATED) leave_process(c); __real_exit(c); }
X void quick_exit(int c) noexcept { _exit(c); }
}
