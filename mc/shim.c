/* File system steps of a process under control: numbered kill points with torn writes, or one step at a time.
 *
 * mode 0: off.  mode 1: changing steps below the watched directory are numbered; the process is killed at step K,
 * before it (torn 0), after 1 byte (1), half (2), all but one byte (3) or all (4) of it; or (5) from step K on the disk
 * is full: nothing can be written any more.  mode 2: every step (also
 * looking and reading) is announced on a pipe and waits for a permission.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 65536
#define MAXLOG 65536

static int mode;
static char prefix[PATH_MAX];
static size_t prefix_len;
static char fence[PATH_MAX];
static size_t fence_len;
static long kill_at, torn_how, counter;
static int req_fd = -1, grant_fd = -1;
static unsigned char watched[MAXFD];
static char log_kind[MAXLOG];
static long log_size[MAXLOG];

#define REAL(ret, name, args) \
    static ret (*real)args; \
    if (!real) real = dlsym(RTLD_NEXT, name)

void mc_watch(const char *path) {
    strncpy(prefix, path, sizeof(prefix) - 1);
    prefix_len = strlen(prefix);
}
void mc_fence(const char *path) {
    strncpy(fence, path, sizeof(fence) - 1);
    fence_len = strlen(fence);
}
void mc_mode(int value) { mode = value; counter = 0; }
void mc_arm(long step, long torn) { kill_at = step; torn_how = torn; counter = 0; }
void mc_pipes(int req, int grant) { req_fd = req; grant_fd = grant; }
long mc_count(void) { return counter; }
int mc_kind(long num) { return num < MAXLOG ? log_kind[num] : 0; }
long mc_size(long num) { return num < MAXLOG ? log_size[num] : 0; }

static void die(void) {
    syscall(SYS_kill, (long)getpid(), (long)SIGKILL);
    for (;;) syscall(SYS_pause);
}

static int absolute(int dirfd, const char *path, char *out) {
    char base[PATH_MAX], joined[2 * PATH_MAX];
    if (!path) return 0;
    if (path[0] == '/') {
        snprintf(joined, sizeof(joined), "%s", path);
    } else {
        if (dirfd == AT_FDCWD) {
            if (!getcwd(base, sizeof(base))) return 0;
        } else {
            char link[64];
            snprintf(link, sizeof(link), "/proc/self/fd/%d", dirfd);
            long num = syscall(SYS_readlink, link, base, sizeof(base) - 1);
            if (num <= 0) return 0;
            base[num] = 0;
        }
        snprintf(joined, sizeof(joined), "%s/%s", base, path);
    }
    /* normalise */
    char *dst = out;
    const char *src = joined;
    *dst = 0;
    while (*src) {
        while (*src == '/') src++;
        const char *end = src;
        while (*end && *end != '/') end++;
        size_t len = end - src;
        if (len == 0) break;
        if (len == 1 && src[0] == '.') {
        } else if (len == 2 && src[0] == '.' && src[1] == '.') {
            while (dst > out && *--dst != '/') {}
            *dst = 0;
        } else {
            if ((size_t)(dst - out) + len + 2 > PATH_MAX) return 0;
            *dst++ = '/';
            memcpy(dst, src, len);
            dst += len;
            *dst = 0;
        }
        src = end;
    }
    return 1;
}

static int inside(const char *path) {
    return prefix_len && strncmp(path, prefix, prefix_len) == 0 && (path[prefix_len] == '/' || path[prefix_len] == 0);
}

/* below the fence is another file system */
static int beyond(int dirfd, const char *path) {
    char out[PATH_MAX];
    return absolute(dirfd, path, out) && strncmp(out, fence, fence_len) == 0 && (out[fence_len] == '/' || out[fence_len] == 0);
}
static int across(int od, const char *old, int nd, const char *new) {
    return fence_len && beyond(od, old) != beyond(nd, new);
}

static int look(int dirfd, const char *path, char *out) {
    return mode && absolute(dirfd, path, out) && inside(out);
}

static long inode(int fd) {
    struct stat st;
    if (fd < 0 || syscall(SYS_fstat, fd, &st) != 0) return 0;
    return (long)st.st_ino;
}

static long inode_at(const char *path) {
    struct stat st;
    if (!path || syscall(SYS_newfstatat, AT_FDCWD, path, &st, 0) != 0) return 0;
    return (long)st.st_ino;
}

static int gate(char kind, const char *one, const char *two, long ino, long size, int changing) {
    if (mode == 1) {
        if (!changing) return 0;
        if (counter < MAXLOG) { log_kind[counter] = kind; log_size[counter] = size; }
        counter++;
        if (kill_at && torn_how == 5) return counter >= kill_at && strchr("WM", kind) ? 5 : 0;
        if (kill_at && counter == kill_at) {
            if (torn_how == 0) die();
            return (int)torn_how;
        }
        return 0;
    }
    if (mode == 2 && req_fd >= 0) {
        char line[3 * PATH_MAX];
        int len = snprintf(line, sizeof(line), "%c\t%s\t%s\t%ld\t%ld\t%d\n", kind, one ? one : "", two ? two : "", ino, size, changing);
        counter++;
        long done = 0;
        while (done < len) {
            long num = syscall(SYS_write, req_fd, line + done, len - done);
            if (num <= 0) die();
            done += num;
        }
        char answer = 0;
        long num;
        do { num = syscall(SYS_read, grant_fd, &answer, 1); } while (num < 0 && errno == EINTR);
        if (num != 1 || answer == 'k') die();
        if (answer >= '1' && answer <= '4') return answer - '0';
    }
    return 0;
}

#define AFTER(how) do { if (how) die(); } while (0)
#define FULL(how) do { if (how == 5) { errno = ENOSPC; return -1; } } while (0)

static void mark(int fd, int on) { if (fd >= 0 && fd < MAXFD) watched[fd] = (unsigned char)on; }
static int marked(int fd) { return mode && fd >= 0 && fd < MAXFD && watched[fd]; }

/* ------------------------------------------------------------------------------------------------ opening */
static int do_open(int dirfd, const char *path, int flags, mode_t perm) {
    char full[PATH_MAX];
    if (!look(dirfd, path, full) || (flags & O_PATH)) return (int)syscall(SYS_openat, dirfd, path, flags, perm);
    long ino = inode_at(full);
    int changing = (flags & O_TRUNC) || ((flags & O_CREAT) && !ino) || ((flags & O_TMPFILE) == O_TMPFILE);
    int how = gate((flags & O_DIRECTORY) ? 'D' : changing ? 'C' : 'O', full, 0, ino, 0, changing);
    FULL(how);
    int fd = (int)syscall(SYS_openat, dirfd, path, flags, perm);
    int err = errno;
    AFTER(how);
    if (fd >= 0 && !(flags & O_DIRECTORY)) mark(fd, 1);
    errno = err;
    return fd;
}

#define PERM(flags, last) \
    mode_t perm = 0; \
    if ((flags & O_CREAT) || (flags & O_TMPFILE) == O_TMPFILE) { va_list ap; va_start(ap, last); perm = va_arg(ap, int); va_end(ap); }

int open(const char *path, int flags, ...) { PERM(flags, flags) return do_open(AT_FDCWD, path, flags, perm); }
int open64(const char *path, int flags, ...) { PERM(flags, flags) return do_open(AT_FDCWD, path, flags | O_LARGEFILE, perm); }
int openat(int dirfd, const char *path, int flags, ...) { PERM(flags, flags) return do_open(dirfd, path, flags, perm); }
int openat64(int dirfd, const char *path, int flags, ...) { PERM(flags, flags) return do_open(dirfd, path, flags | O_LARGEFILE, perm); }
int creat(const char *path, mode_t perm) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, perm); }
int creat64(const char *path, mode_t perm) { return creat(path, perm); }

int close(int fd) {
    mark(fd, 0);
    return (int)syscall(SYS_close, fd);
}
int dup(int fd) { int res = (int)syscall(SYS_dup, fd); if (res >= 0) mark(res, marked(fd)); return res; }
int dup2(int fd, int to) { int on = marked(fd); int res = (int)syscall(SYS_dup2, fd, to); if (res >= 0) mark(res, on); return res; }
int dup3(int fd, int to, int flags) { int on = marked(fd); int res = (int)syscall(SYS_dup3, fd, to, flags); if (res >= 0) mark(res, on); return res; }

/* ------------------------------------------------------------------------------------------------ writing */
static long part(int how, long size) {
    switch (how) {
    case 1: return size > 1 ? 1 : 0;
    case 2: return size / 2;
    case 3: return size > 0 ? size - 1 : 0;
    default: return size;
    }
}

ssize_t write(int fd, const void *buf, size_t size) {
    if (!marked(fd) || size == 0) return syscall(SYS_write, fd, buf, size);
    int how = gate('W', 0, 0, inode(fd), (long)size, 1);
    FULL(how);
    if (how) { syscall(SYS_write, fd, buf, (size_t)part(how, (long)size)); die(); }
    return syscall(SYS_write, fd, buf, size);
}
ssize_t pwrite64(int fd, const void *buf, size_t size, off64_t at) {
    if (!marked(fd) || size == 0) return syscall(SYS_pwrite64, fd, buf, size, at);
    int how = gate('W', 0, 0, inode(fd), (long)size, 1);
    FULL(how);
    if (how) { syscall(SYS_pwrite64, fd, buf, (size_t)part(how, (long)size), at); die(); }
    return syscall(SYS_pwrite64, fd, buf, size, at);
}
ssize_t pwrite(int fd, const void *buf, size_t size, off_t at) { return pwrite64(fd, buf, size, at); }
ssize_t writev(int fd, const struct iovec *vec, int num) {
    if (!marked(fd)) return syscall(SYS_writev, fd, vec, num);
    ssize_t total = 0;
    for (int i = 0; i < num; i++) {
        ssize_t res = write(fd, vec[i].iov_base, vec[i].iov_len);
        if (res < 0) return total ? total : res;
        total += res;
        if ((size_t)res < vec[i].iov_len) break;
    }
    return total;
}
ssize_t sendfile64(int out, int in, off64_t *at, size_t size) {
    if (!marked(out)) return syscall(SYS_sendfile, out, in, at, size);
    int how = gate('W', 0, 0, inode(out), (long)size, 1);
    FULL(how);
    if (how) { syscall(SYS_sendfile, out, in, at, (size_t)part(how, (long)size)); die(); }
    return syscall(SYS_sendfile, out, in, at, size);
}
ssize_t sendfile(int out, int in, off_t *at, size_t size) { return sendfile64(out, in, at, size); }
ssize_t copy_file_range(int in, off64_t *iat, int out, off64_t *oat, size_t size, unsigned flags) {
    if (!marked(out)) return syscall(SYS_copy_file_range, in, iat, out, oat, size, flags);
    int how = gate('W', 0, 0, inode(out), (long)size, 1);
    FULL(how);
    if (how) { syscall(SYS_copy_file_range, in, iat, out, oat, (size_t)part(how, (long)size), flags); die(); }
    return syscall(SYS_copy_file_range, in, iat, out, oat, size, flags);
}
int ftruncate64(int fd, off64_t size) {
    if (!marked(fd)) return (int)syscall(SYS_ftruncate, fd, size);
    int how = gate('T', 0, 0, inode(fd), 0, 1);
    FULL(how);
    int res = (int)syscall(SYS_ftruncate, fd, size);
    AFTER(how);
    return res;
}
int ftruncate(int fd, off_t size) { return ftruncate64(fd, size); }
int truncate64(const char *path, off64_t size) {
    char full[PATH_MAX];
    int how = look(AT_FDCWD, path, full) ? gate('T', full, 0, inode_at(full), 0, 1) : 0;
    FULL(how);
    int res = (int)syscall(SYS_truncate, path, size);
    AFTER(how);
    return res;
}
int truncate(const char *path, off_t size) { return truncate64(path, size); }
int posix_fallocate64(int fd, off64_t at, off64_t len) {
    int how = marked(fd) ? gate('T', 0, 0, inode(fd), 0, 1) : 0;
    if (how == 5) return ENOSPC;
    int res = syscall(SYS_fallocate, fd, 0, at, len) ? errno : 0;
    AFTER(how);
    return res;
}
int posix_fallocate(int fd, off_t at, off_t len) { return posix_fallocate64(fd, at, len); }

/* ------------------------------------------------------------------------------------------------ names */
static int do_rename(int od, const char *old, int nd, const char *new, unsigned flags) {
    char one[PATH_MAX], two[PATH_MAX];
    if (across(od, old, nd, new)) { errno = EXDEV; return -1; }
    int in1 = look(od, old, one), in2 = look(nd, new, two), how = 0;
    if (in1 || in2) how = gate('R', in1 ? one : "", in2 ? two : "", inode_at(in1 ? one : old), 0, 1);
    int res = (int)syscall(SYS_renameat2, od, old, nd, new, flags);
    int err = errno;
    AFTER(how);
    errno = err;
    return res;
}
int rename(const char *old, const char *new) { return do_rename(AT_FDCWD, old, AT_FDCWD, new, 0); }
int renameat(int od, const char *old, int nd, const char *new) { return do_rename(od, old, nd, new, 0); }
int renameat2(int od, const char *old, int nd, const char *new, unsigned flags) { return do_rename(od, old, nd, new, flags); }

static int do_link(int od, const char *old, int nd, const char *new, int flags) {
    char one[PATH_MAX], two[PATH_MAX];
    if (across(od, old, nd, new)) { errno = EXDEV; return -1; }
    int in1 = look(od, old, one), in2 = look(nd, new, two), how = 0;
    if (in2) how = gate('N', in1 ? one : "", two, inode_at(old), 0, 1);
    FULL(how);
    int res = (int)syscall(SYS_linkat, od, old, nd, new, flags);
    int err = errno;
    AFTER(how);
    errno = err;
    return res;
}
int link(const char *old, const char *new) { return do_link(AT_FDCWD, old, AT_FDCWD, new, 0); }
int linkat(int od, const char *old, int nd, const char *new, int flags) { return do_link(od, old, nd, new, flags); }
static int do_symlink(const char *target, int nd, const char *new) {
    char two[PATH_MAX];
    int how = look(nd, new, two) ? gate('N', "", two, 0, 0, 1) : 0;
    FULL(how);
    int res = (int)syscall(SYS_symlinkat, target, nd, new);
    int err = errno;
    AFTER(how);
    errno = err;
    return res;
}
int symlink(const char *target, const char *new) { return do_symlink(target, AT_FDCWD, new); }
int symlinkat(const char *target, int nd, const char *new) { return do_symlink(target, nd, new); }

static int do_unlink(int dirfd, const char *path, int flags) {
    char full[PATH_MAX];
    int how = look(dirfd, path, full) ? gate('U', full, 0, inode_at(full), 0, 1) : 0;
    int res = (int)syscall(SYS_unlinkat, dirfd, path, flags);
    int err = errno;
    AFTER(how);
    errno = err;
    return res;
}
int unlink(const char *path) { return do_unlink(AT_FDCWD, path, 0); }
int unlinkat(int dirfd, const char *path, int flags) { return do_unlink(dirfd, path, flags); }
int rmdir(const char *path) { return do_unlink(AT_FDCWD, path, AT_REMOVEDIR); }
int remove(const char *path) {
    int res = do_unlink(AT_FDCWD, path, 0);
    return res != 0 && (errno == EISDIR || errno == EPERM) ? rmdir(path) : res;
}
int mkdirat(int dirfd, const char *path, mode_t perm) {
    char full[PATH_MAX];
    int how = look(dirfd, path, full) ? gate('M', full, 0, 0, 0, 1) : 0;
    FULL(how);
    int res = (int)syscall(SYS_mkdirat, dirfd, path, perm);
    int err = errno;
    AFTER(how);
    errno = err;
    return res;
}
int mkdir(const char *path, mode_t perm) { return mkdirat(AT_FDCWD, path, perm); }

/* ------------------------------------------------------------------------------------------------ looking, reading */
static void peek(int dirfd, const char *path) {
    char full[PATH_MAX];
    if (mode == 2 && look(dirfd, path, full)) gate('S', full, 0, inode_at(full), 0, 0);
}
static void peek_fd(int fd) {
    if (mode == 2 && marked(fd)) gate('F', 0, 0, inode(fd), 0, 0);
}

int fstatat(int dirfd, const char *path, struct stat *st, int flags) {
    if ((flags & AT_EMPTY_PATH) && !path[0]) peek_fd(dirfd); else peek(dirfd, path);
    return (int)syscall(SYS_newfstatat, dirfd, path, st, flags);
}
int fstatat64(int dirfd, const char *path, struct stat64 *st, int flags) { return fstatat(dirfd, path, (struct stat *)st, flags); }
int stat(const char *path, struct stat *st) { return fstatat(AT_FDCWD, path, st, 0); }
int stat64(const char *path, struct stat64 *st) { return fstatat(AT_FDCWD, path, (struct stat *)st, 0); }
int lstat(const char *path, struct stat *st) { return fstatat(AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *path, struct stat64 *st) { return fstatat(AT_FDCWD, path, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
int fstat(int fd, struct stat *st) { peek_fd(fd); return (int)syscall(SYS_fstat, fd, st); }
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
int statx(int dirfd, const char *restrict path, int flags, unsigned mask, struct statx *restrict st) {
    peek(dirfd, path);
    return (int)syscall(SYS_statx, dirfd, path, flags, mask, st);
}
int access(const char *path, int how) { peek(AT_FDCWD, path); return (int)syscall(SYS_access, path, how); }
int faccessat(int dirfd, const char *path, int how, int flags) {
    peek(dirfd, path);
    REAL(int, "faccessat", (int, const char *, int, int));
    return real(dirfd, path, how, flags);
}
DIR *opendir(const char *path) {
    char full[PATH_MAX];
    if (mode == 2 && look(AT_FDCWD, path, full)) gate('D', full, 0, 0, 0, 0);
    REAL(DIR *, "opendir", (const char *));
    return real(path);
}
ssize_t read(int fd, void *buf, size_t size) {
    if (mode == 2 && marked(fd)) gate('r', 0, 0, inode(fd), (long)size, 0);
    return syscall(SYS_read, fd, buf, size);
}
ssize_t pread64(int fd, void *buf, size_t size, off64_t at) {
    if (mode == 2 && marked(fd)) gate('r', 0, 0, inode(fd), (long)size, 0);
    return syscall(SYS_pread64, fd, buf, size, at);
}
ssize_t pread(int fd, void *buf, size_t size, off_t at) { return pread64(fd, buf, size, at); }
off64_t lseek64(int fd, off64_t at, int whence) {
    if (whence == SEEK_END) peek_fd(fd);
    return syscall(SYS_lseek, fd, at, whence);
}
off_t lseek(int fd, off_t at, int whence) { return lseek64(fd, at, whence); }

/* ------------------------------------------------------------------------------------------------ locks */
static int lock_file(int fd, int what) {
    /* waiting for a lock: ask again until it is free, so that the controller never stalls */
    int tries = 0;
    for (;;) {
        gate(tries++ ? 'B' : 'L', 0, 0, inode(fd), 0, 1);
        int res = (int)syscall(SYS_flock, fd, what | LOCK_NB);
        if (res == 0 || errno != EWOULDBLOCK) return res;
    }
}
int flock(int fd, int what) {
    if (mode != 2 || !marked(fd)) return (int)syscall(SYS_flock, fd, what);
    if (what & (LOCK_NB | LOCK_UN)) {
        gate('L', 0, 0, inode(fd), 0, 1);
        return (int)syscall(SYS_flock, fd, what);
    }
    return lock_file(fd, what);
}

static int do_fcntl(int fd, int cmd, long arg) {
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) {
        int res = (int)syscall(SYS_fcntl, fd, cmd, arg);
        if (res >= 0) mark(res, marked(fd));
        return res;
    }
    if (mode == 2 && marked(fd) && (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW)) {
        int try = cmd == F_SETLKW ? F_SETLK : cmd == F_OFD_SETLKW ? F_OFD_SETLK : cmd;
        int tries = 0;
        for (;;) {
            gate(tries++ ? 'B' : 'L', 0, 0, inode(fd), 0, 1);
            int res = (int)syscall(SYS_fcntl, fd, try, arg);
            if (res == 0 || try == cmd || (errno != EAGAIN && errno != EACCES)) return res;
        }
    }
    return (int)syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, arg); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, arg); }
