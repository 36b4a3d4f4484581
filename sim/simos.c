/*
 * simos: a system-call simulator preloaded into the real `toon` binary.
 *
 * The process image is started once and then acts as a fork server: every simulated execution is a fork
 * of it that runs the program's own main() with its own arguments and environment. Inside such an
 * execution every file, standard stream, clock, random source and (for fault injection) memory
 * allocation is simulated here; nothing the program does reaches the real file system.
 *
 * One execution is a pure function of the parameters in the shared block: initial files, chunk policies,
 * fault plan, seeds. Everything that happens is logged into the shared block.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <spawn.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;

#define MAXF 12
#define FCAP (16u << 20)
#define ARGCAP 65536
#define MAXPLAN 64
#define LOGCAP 200000
#define ARENA (16u << 20)
#define SPLITS 64

#define CTL_FD 198
#define ST_FD 199
#define SHM_FD 197

/* file slots: 0 stdin, 1 stdout, 2 stderr, 3.. named files */
struct vfile {
    char name[104];
    u32 exists;
    u32 readonly; /* a write open fails with EACCES */
    u64 len;
};

struct plan {
    u32 cls, nth, action, persist;
    i64 arg;
};

struct ev {
    u8 op, slot, fault, cls;
    int32_t err;
    i64 ret;
    u64 a, b;   /* op specific: offset, requested length / flags */
    u64 arena;  /* where the bytes written are kept */
    u64 now;
};

struct shm {
    /* parameters */
    u32 argc, envc;
    u32 nplan, max_ops;
    u32 read_mode, read_n;   /* 0 full, 1 fixed n, 2 random 1..n, 3 split offsets */
    u32 write_mode, write_n;
    u32 eintr_in, eintr_out; /* per 256 */
    u32 nsplit, std_kind; /* two bits for each of 0, 1, 2: 0 pipe, 1 terminal, 2 regular file */
    u64 split[SPLITS];
    u64 seed;       /* chunking, EINTR, latency */
    u64 rand_seed;  /* what getrandom hands out */
    i64 clock0;     /* simulated wall clock at start, ns */
    u64 capacity;   /* free bytes for destination data; ~0 unlimited */
    u32 cap_errno, pid;
    u32 lat_max, env_seed; /* env_seed: variables that are not set are made up from it, 0 for none */
    u32 stdin_skip;       /* bytes of a regular standard input that were read before the program began */
    u32 host_seed;        /* processors, user, host name, heap addresses */
    struct plan plan[MAXPLAN];
    /* results */
    u32 nev, livelock, escape, log_overflow;
    u32 fired[MAXPLAN];
    u32 cls_count[16];
    u32 eintr_fired, short_reads, short_writes, nospc_fired;
    u32 nmalloc, crashed, clock_reads, rand_reads;
    u64 now, arena_used;
    u32 done, env_asked;
    char env_names[512];
    char missed[1024]; /* paths that were looked for and not there, each with a letter for how */
    char escape_what[128];
    struct vfile f[MAXF];
    char args[ARGCAP];
    struct ev ev[LOGCAP];
    u8 arena[ARENA];
    u8 data[MAXF][FCAP];
};

enum { C_OPEN_IN, C_READ_IN, C_STAT, C_LSEEK, C_OPEN_OUT, C_WRITE_OUT, C_CLOSE, C_WRITE_ERR, C_ANY, C_MALLOC, C_META };
enum { A_ERR = 1, A_SHORT, A_ZERO, A_CRASH_BEFORE, A_CRASH_AFTER, A_CRASH_PARTIAL, A_STATLIE };
enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_STAT, OP_LSEEK, OP_TRUNC, OP_RENAME, OP_UNLINK, OP_SYNC, OP_OTHER, OP_EXIT, OP_FDOP, OP_ATTR };

static struct shm *S;
static int active;
static u64 prng, rprng;
static u32 ops, eintr_run;

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
#define R(n, ...) R_(n, __VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define R_(n, a, b, c, d, e, f, ...) raw(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static long rr(long r) {
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}
static u64 next(u64 *s) {
    u64 z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static void die(int code) {
    S->crashed = code == 137;
    S->done = 1;
    R(SYS_exit_group, code);
    for (;;) {
    }
}
static void escape(const char *what) {
    S->escape++;
    if (!S->escape_what[0]) strncpy(S->escape_what, what, sizeof S->escape_what - 1);
}
static void tick(void) {
    S->now += 1 + (S->lat_max ? next(&prng) % S->lat_max : 0);
}
static struct ev *logev(int op, int slot, int cls) {
    static struct ev dummy;
    tick();
    if (S->nev >= LOGCAP) {
        S->log_overflow = 1;
        return &dummy;
    }
    struct ev *e = &S->ev[S->nev++];
    memset(e, 0, sizeof *e);
    e->op = (u8)op;
    e->slot = (u8)slot;
    e->cls = (u8)cls;
    e->now = S->now;
    return e;
}

/* the fault planned for this operation, if any */
static struct plan *fault(int cls, struct ev *e) {
    if (cls != C_MALLOC && ++ops > S->max_ops) {
        S->livelock = 1;
        die(99);
    }
    u32 n = S->cls_count[cls]++;
    u32 g = 0;
    if (cls != C_MALLOC) g = S->cls_count[C_ANY]++;
    for (u32 i = 0; i < S->nplan; i++) {
        struct plan *p = &S->plan[i];
        u32 k = (p->cls == C_ANY && cls != C_MALLOC) ? g : n;
        if (p->cls != (u32)cls && !(p->cls == C_ANY && cls != C_MALLOC)) continue;
        if (k == p->nth || (p->persist && k > p->nth)) {
            S->fired[i]++;
            if (e) e->fault = (u8)p->action;
            if (p->action == A_CRASH_BEFORE) die(137);
            return p;
        }
    }
    return NULL;
}

/* ---- descriptors ------------------------------------------------------------------------------- */
#define VBASE 1000
#define MAXFD 64
struct ofd { int used, slot, flags, refs; u64 pos; };
static struct ofd ofds[MAXFD];
static int fdmap[MAXFD]; /* VBASE + i -> ofd index + 1 */
static int stdmap[3];    /* 0..2 -> ofd index + 1 */

static int kind_of(int slot) { return slot < 3 ? (int)(S->std_kind >> (2 * slot) & 3) : 2; }
static struct ofd *get(int fd) {
    if (!active) return NULL;
    int k = 0;
    if (fd >= 0 && fd < 3) k = stdmap[fd];
    else if (fd >= VBASE && fd < VBASE + MAXFD) k = fdmap[fd - VBASE];
    else return NULL;
    return k ? &ofds[k - 1] : NULL;
}
static int is_virtual_fd(int fd) { return active && ((fd >= 0 && fd < 3) || (fd >= VBASE && fd < VBASE + MAXFD)); }
static int new_ofd(int slot, int flags) {
    for (int i = 0; i < MAXFD; i++)
        if (!ofds[i].used) {
            ofds[i] = (struct ofd){1, slot, flags, 1, 0};
            return i;
        }
    return -1;
}
static int new_fd(int o) {
    for (int i = 0; i < MAXFD; i++)
        if (!fdmap[i]) {
            fdmap[i] = o + 1;
            return VBASE + i;
        }
    return -1;
}

/* ---- paths ------------------------------------------------------------------------------------- */
static int starts(const char *s, const char *p) { return strncmp(s, p, strlen(p)) == 0; }
static int is_virtual_path(const char *p) {
    if (!active || !p) return 0;
    /* a file of the system that does not exist may exist elsewhere */
    if (starts(p, "/etc/")) return R(SYS_faccessat, AT_FDCWD, p, 0) != 0;
    return !(starts(p, "/proc/") || starts(p, "/sys/") || starts(p, "/usr/") || starts(p, "/lib") || starts(p, "/dev/"));
}
static const char *norm(const char *p) {
    while (p[0] == '.' && p[1] == '/') p += 2;
    if (starts(p, "/sim/")) p += 5;
    return p;
}
static int find(const char *p) {
    p = norm(p);
    for (int i = 3; i < MAXF; i++)
        if (S->f[i].name[0] && strcmp(S->f[i].name, p) == 0) return i;
    return -1;
}
static int slot_for(const char *p) {
    int i = find(p);
    if (i >= 0) return i;
    p = norm(p);
    if (strlen(p) >= sizeof S->f[0].name) return -1;
    for (i = 3; i < MAXF; i++)
        if (!S->f[i].name[0]) {
            strcpy(S->f[i].name, p);
            S->f[i].exists = 0;
            S->f[i].len = 0;
            return i;
        }
    return -1;
}

/* A file that is looked for and does not exist. */
static void miss(char how, const char *p) {
    p = norm(p);
    size_t n = strlen(p), l = strnlen(S->missed, sizeof S->missed - 1);
    if (l + n + 3 >= sizeof S->missed) return;
    char *m = S->missed + l;
    m[0] = how;
    memcpy(m + 1, p, n);
    m[n + 1] = '\n';
    m[n + 2] = 0;
}

/* ---- open / close ------------------------------------------------------------------------------ */
static int do_open(const char *path, int flags) {
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_TRUNC | O_CREAT));
    int slot = find(path);
    struct ev *e = logev(OP_OPEN, slot < 0 ? 255 : slot, wr ? C_OPEN_OUT : C_OPEN_IN);
    e->a = (u64)flags;
    struct plan *p = fault(wr ? C_OPEN_OUT : C_OPEN_IN, e);
    if (p && p->action == A_ERR) {
        e->ret = -1;
        errno = e->err = (int)p->arg;
        return -1;
    }
    if (!p && wr == 0 && S->eintr_in && eintr_run < 3 && next(&prng) % 256 < S->eintr_in) {
        eintr_run++;
        S->eintr_fired++;
        e->ret = -1;
        errno = e->err = EINTR;
        return -1;
    }
    eintr_run = 0;
    int err = 0;
    if (slot < 0 || !S->f[slot].exists) {
        if (!(flags & O_CREAT)) {
            err = ENOENT;
            miss('o', path);
        }
        else if ((slot = slot_for(path)) < 0) err = ENFILE;
    } else if ((flags & O_CREAT) && (flags & O_EXCL)) err = EEXIST;
    if (!err && wr && S->f[slot].readonly) err = EACCES;
    if (err) {
        e->ret = -1;
        errno = e->err = err;
        return -1;
    }
    e->slot = (u8)slot;
    if (!S->f[slot].exists) {
        S->f[slot].exists = 1;
        S->f[slot].len = 0;
        e->b |= 1; /* created */
    }
    if ((flags & O_TRUNC) && wr) {
        S->f[slot].len = 0;
        e->b |= 2; /* truncated */
    }
    int o = new_ofd(slot, flags);
    int fd = o < 0 ? -1 : new_fd(o);
    if (fd < 0) {
        errno = EMFILE;
        return -1;
    }
    e->ret = fd;
    if (p && p->action == A_CRASH_AFTER) die(137);
    return fd;
}

static long real_open(const char *path, int flags, int mode) {
    if (active && (flags & O_ACCMODE) != O_RDONLY && strcmp(path, "/dev/null") != 0) {
        escape(path);
        errno = EACCES;
        return -1;
    }
    return rr(R(SYS_openat, AT_FDCWD, path, flags, mode));
}
#define OPENBODY                                   \
    int mode = 0;                                  \
    if (flags & (O_CREAT | O_TMPFILE)) {           \
        va_list ap;                                \
        va_start(ap, flags);                       \
        mode = va_arg(ap, int);                    \
        va_end(ap);                                \
    }                                              \
    if (is_virtual_path(path)) return do_open(path, flags); \
    return (int)real_open(path, flags, mode);
int open(const char *path, int flags, ...) { OPENBODY }
int open64(const char *path, int flags, ...) { OPENBODY }
int openat(int d, const char *path, int flags, ...) { (void)d; OPENBODY }
int openat64(int d, const char *path, int flags, ...) { (void)d; OPENBODY }
int creat(const char *path, mode_t m) { return open(path, O_WRONLY | O_CREAT | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return open(path, O_WRONLY | O_CREAT | O_TRUNC, m); }

int close(int fd) {
    if (!is_virtual_fd(fd)) return (int)rr(R(SYS_close, fd));
    struct ofd *o = get(fd);
    struct ev *e = logev(OP_CLOSE, o ? o->slot : 255, C_CLOSE);
    struct plan *p = fault(C_CLOSE, e);
    if (!o) {
        errno = EBADF;
        return -1;
    }
    if (--o->refs == 0) o->used = 0;
    if (fd < 3) stdmap[fd] = 0;
    else fdmap[fd - VBASE] = 0;
    if (p && p->action == A_CRASH_AFTER) die(137);
    if (p && p->action == A_ERR) {
        e->ret = -1;
        errno = e->err = (int)p->arg;
        return -1;
    }
    return 0;
}

/* ---- read -------------------------------------------------------------------------------------- */
static ssize_t do_read(int fd, struct ofd *o, void *buf, size_t n, u64 *pos) {
    struct ev *e = logev(OP_READ, o ? o->slot : 255, C_READ_IN);
    e->b = n;
    struct plan *p = fault(C_READ_IN, e);
    if (!o || o->slot == 1 || o->slot == 2 || (o->flags & O_ACCMODE) == O_WRONLY) {
        e->ret = -1;
        errno = e->err = EBADF;
        return -1;
    }
    (void)fd;
    e->a = *pos;
    if (p && p->action == A_ERR) {
        e->ret = -1;
        errno = e->err = (int)p->arg;
        if (p->arg == EINTR) S->eintr_fired++;
        return -1;
    }
    if (!p && S->eintr_in && eintr_run < 3 && next(&prng) % 256 < S->eintr_in) {
        eintr_run++;
        S->eintr_fired++;
        e->ret = -1;
        errno = e->err = EINTR;
        return -1;
    }
    eintr_run = 0;
    u64 len = S->f[o->slot].len;
    u64 avail = *pos < len ? len - *pos : 0;
    u64 k = n < avail ? n : avail;
    u64 want = k;
    if (k > 0) {
        if (p && p->action == A_SHORT) {
            u64 m = (u64)p->arg;
            if (m < 1) m = 1;
            if (k > m) k = m;
        } else if (S->read_mode == 1) {
            if (k > S->read_n) k = S->read_n;
        } else if (S->read_mode == 2) {
            u64 m = 1 + next(&prng) % S->read_n;
            if (k > m) k = m;
        } else if (S->read_mode == 3) {
            for (u32 i = 0; i < S->nsplit; i++)
                if (S->split[i] > *pos && S->split[i] < *pos + k) k = S->split[i] - *pos;
        }
        if (k < want) S->short_reads++;
    }
    memcpy(buf, S->data[o->slot] + *pos, k);
    *pos += k;
    e->ret = (i64)k;
    if (p && p->action == A_CRASH_AFTER) die(137);
    return (ssize_t)k;
}
ssize_t read(int fd, void *buf, size_t n) {
    if (!is_virtual_fd(fd)) return rr(R(SYS_read, fd, buf, n));
    struct ofd *o = get(fd);
    u64 dummy = 0;
    return do_read(fd, o, buf, n, o ? &o->pos : &dummy);
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) {
    if (!is_virtual_fd(fd)) return rr(R(SYS_pread64, fd, buf, n, off));
    u64 p = (u64)off;
    return do_read(fd, get(fd), buf, n, &p);
}
ssize_t pread64(int fd, void *buf, size_t n, off_t off) { return pread(fd, buf, n, off); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!is_virtual_fd(fd)) return rr(R(SYS_readv, fd, v, c));
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return read(fd, NULL, 0);
}

/* ---- write ------------------------------------------------------------------------------------- */
static void put(int slot, u64 pos, const u8 *b, u64 k) {
    struct vfile *f = &S->f[slot];
    if (pos > f->len) memset(S->data[slot] + f->len, 0, pos - f->len);
    memcpy(S->data[slot] + pos, b, k);
    if (pos + k > f->len) f->len = pos + k;
}
static ssize_t do_writev(struct ofd *o, const struct iovec *v, int c, u64 *posp) {
    u64 n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    int cls = o && o->slot == 2 ? C_WRITE_ERR : C_WRITE_OUT;
    struct ev *e = logev(OP_WRITE, o ? o->slot : 255, cls);
    e->b = n;
    struct plan *p = fault(cls, e);
    if (!o || o->slot == 0 || (o->slot > 2 && (o->flags & O_ACCMODE) == O_RDONLY)) {
        e->ret = -1;
        errno = e->err = EBADF;
        return -1;
    }
    if (p && p->action == A_ERR) {
        e->ret = -1;
        errno = e->err = (int)p->arg;
        if (p->arg == EINTR) S->eintr_fired++;
        return -1;
    }
    if (p && p->action == A_ZERO) {
        e->ret = 0;
        return 0;
    }
    u64 k = n;
    if (cls == C_WRITE_OUT) {
        if (!p && S->eintr_out && eintr_run < 3 && next(&prng) % 256 < S->eintr_out) {
            eintr_run++;
            S->eintr_fired++;
            e->ret = -1;
            errno = e->err = EINTR;
            return -1;
        }
        eintr_run = 0;
        if (k > 1) {
            if (p && (p->action == A_SHORT || p->action == A_CRASH_PARTIAL)) {
                u64 m = (u64)p->arg;
                if (m < 1 && p->action == A_SHORT) m = 1;
                if (k > m) k = m;
            } else if (S->write_mode == 1) {
                if (k > S->write_n) k = S->write_n;
            } else if (S->write_mode == 2) {
                u64 m = 1 + next(&prng) % S->write_n;
                if (k > m) k = m;
            }
        }
        if (S->capacity != ~0ull) {
            if (k > S->capacity) k = S->capacity;
            if (k == 0 && n > 0) {
                S->nospc_fired++;
                e->ret = -1;
                e->fault = 100;
                errno = e->err = (int)S->cap_errno;
                return -1;
            }
            S->capacity -= k;
        }
        if (k < n) S->short_writes++;
    }
    u64 pos = *posp;
    if (o->slot > 2 && (o->flags & O_APPEND)) pos = S->f[o->slot].len;
    if (o->slot <= 2) pos = S->f[o->slot].len;
    if (pos + k > FCAP) {
        e->ret = -1;
        errno = e->err = EFBIG;
        return -1;
    }
    e->a = pos;
    e->arena = S->arena_used;
    u64 left = k, at = pos;
    for (int i = 0; i < c && left; i++) {
        u64 m = v[i].iov_len < left ? v[i].iov_len : left;
        put(o->slot, at, v[i].iov_base, m);
        if (S->arena_used + m <= ARENA) {
            memcpy(S->arena + S->arena_used, v[i].iov_base, m);
            S->arena_used += m;
        } else
            S->log_overflow = 1;
        at += m;
        left -= m;
    }
    *posp = pos + k;
    e->ret = (i64)k;
    if (p && (p->action == A_CRASH_AFTER || p->action == A_CRASH_PARTIAL)) die(137);
    return (ssize_t)k;
}
ssize_t write(int fd, const void *buf, size_t n) {
    if (!is_virtual_fd(fd)) return rr(R(SYS_write, fd, buf, n));
    struct ofd *o = get(fd);
    struct iovec v = {(void *)buf, n};
    u64 dummy = 0;
    return do_writev(o, &v, 1, o ? &o->pos : &dummy);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) {
    if (!is_virtual_fd(fd)) return rr(R(SYS_pwrite64, fd, buf, n, off));
    struct iovec v = {(void *)buf, n};
    u64 p = (u64)off;
    return do_writev(get(fd), &v, 1, &p);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off) { return pwrite(fd, buf, n, off); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!is_virtual_fd(fd)) return rr(R(SYS_writev, fd, v, c));
    struct ofd *o = get(fd);
    u64 dummy = 0;
    return do_writev(o, v, c, o ? &o->pos : &dummy);
}

/* ---- metadata ---------------------------------------------------------------------------------- */
static int stat_common(int slot, u64 *size) {
    struct ev *e = logev(OP_STAT, slot < 0 ? 255 : slot, C_STAT);
    struct plan *p = fault(C_STAT, e);
    if (p && p->action == A_ERR) {
        e->ret = -1;
        errno = e->err = (int)p->arg;
        return -1;
    }
    if (slot < 0 || (slot > 2 && !S->f[slot].exists)) {
        e->ret = -1;
        errno = e->err = ENOENT;
        return -1;
    }
    *size = kind_of(slot) == 2 ? S->f[slot].len : 0;
    if (p && p->action == A_STATLIE) *size = (u64)p->arg;
    e->a = *size;
    return 0;
}
static u32 mode_of(int slot) { return kind_of(slot) == 2 ? (S_IFREG | 0644) : kind_of(slot) == 1 ? (S_IFCHR | 0620) : (S_IFIFO | 0600); }
static int look(const char *p) {
    int s = find(p);
    if (s < 0 || !S->f[s].exists) miss('s', p);
    return s;
}
static int fill_stat(int slot, struct stat *st) {
    u64 size = 0;
    if (stat_common(slot, &size)) return -1;
    memset(st, 0, sizeof *st);
    st->st_mode = mode_of(slot);
    st->st_size = (off_t)size;
    st->st_nlink = 1;
    st->st_blksize = 4096;
    st->st_ino = 100 + (ino_t)slot;
    return 0;
}
int fstat(int fd, struct stat *st) {
    if (!is_virtual_fd(fd)) return (int)rr(R(SYS_fstat, fd, st));
    struct ofd *o = get(fd);
    if (!o) {
        errno = EBADF;
        return -1;
    }
    return fill_stat(o->slot, st);
}
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
int stat(const char *p, struct stat *st) {
    if (!is_virtual_path(p)) return (int)rr(R(SYS_newfstatat, AT_FDCWD, p, st, 0));
    return fill_stat(look(p), st);
}
int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
int lstat(const char *p, struct stat *st) { return stat(p, st); }
int lstat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
int fstatat(int d, const char *p, struct stat *st, int fl) {
    if ((fl & AT_EMPTY_PATH) && !*p) return fstat(d, st);
    if (!is_virtual_path(p)) return (int)rr(R(SYS_newfstatat, d, p, st, fl));
    return fill_stat(look(p), st);
}
int fstatat64(int d, const char *p, struct stat64 *st, int fl) { return fstatat(d, p, (struct stat *)st, fl); }
static int do_statx(int d, const char *p, int fl, unsigned mask, struct statx *x) {
    int slot;
    if ((fl & AT_EMPTY_PATH) && (!p || !*p)) {
        if (!is_virtual_fd(d)) return (int)rr(R(SYS_statx, d, p, fl, mask, x));
        struct ofd *o = get(d);
        if (!o) {
            errno = EBADF;
            return -1;
        }
        slot = o->slot;
    } else {
        if (!p || !is_virtual_path(p)) return (int)rr(R(SYS_statx, d, p, fl, mask, x));
        slot = look(p);
    }
    u64 size = 0;
    if (stat_common(slot, &size)) return -1;
    memset(x, 0, sizeof *x);
    x->stx_mask = STATX_BASIC_STATS;
    x->stx_mode = (uint16_t)mode_of(slot);
    x->stx_size = size;
    x->stx_nlink = 1;
    x->stx_blksize = 4096;
    x->stx_ino = 100 + (u64)slot;
    return 0;
}
int statx(int d, const char *p, int fl, unsigned mask, struct statx *x) { return do_statx(d, p, fl, mask, x); }

off_t lseek(int fd, off_t off, int wh) {
    if (!is_virtual_fd(fd)) return rr(R(SYS_lseek, fd, off, wh));
    struct ofd *o = get(fd);
    struct ev *e = logev(OP_LSEEK, o ? o->slot : 255, C_LSEEK);
    struct plan *p = fault(C_LSEEK, e);
    int err = 0;
    if (p && p->action == A_ERR) err = (int)p->arg;
    else if (!o) err = EBADF;
    else if (kind_of(o->slot) != 2) err = ESPIPE;
    i64 np = 0;
    if (!err) {
        np = off + (wh == SEEK_CUR ? (i64)o->pos : wh == SEEK_END ? (i64)S->f[o->slot].len : 0);
        if (np < 0) err = EINVAL;
    }
    if (err) {
        e->ret = -1;
        errno = e->err = err;
        return -1;
    }
    o->pos = (u64)np;
    e->ret = np;
    return np;
}
off_t lseek64(int fd, off_t off, int wh) { return lseek(fd, off, wh); }

static int meta(int op, int slot, u64 a) {
    struct ev *e = logev(op, slot < 0 ? 255 : slot, C_META);
    e->a = a;
    struct plan *p = fault(C_META, e);
    if (p && p->action == A_ERR) {
        e->ret = -1;
        errno = e->err = (int)p->arg;
        return -1;
    }
    return 0;
}
static int set_len(int slot, u64 n) {
    if (n > FCAP) {
        errno = EFBIG;
        return -1;
    }
    if (n > S->f[slot].len) memset(S->data[slot] + S->f[slot].len, 0, n - S->f[slot].len);
    S->f[slot].len = n;
    return 0;
}
int ftruncate(int fd, off_t n) {
    if (!is_virtual_fd(fd)) return (int)rr(R(SYS_ftruncate, fd, n));
    struct ofd *o = get(fd);
    if (!o || o->slot <= 2) {
        errno = EINVAL;
        return -1;
    }
    if (meta(OP_TRUNC, o->slot, (u64)n)) return -1;
    return set_len(o->slot, (u64)n);
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int truncate(const char *p, off_t n) {
    if (!is_virtual_path(p)) {
        escape(p);
        errno = EACCES;
        return -1;
    }
    int s = find(p);
    if (meta(OP_TRUNC, s, (u64)n)) return -1;
    if (s < 0 || !S->f[s].exists) {
        errno = ENOENT;
        return -1;
    }
    return set_len(s, (u64)n);
}
int truncate64(const char *p, off_t n) { return truncate(p, n); }
int rename(const char *a, const char *b) {
    if (!is_virtual_path(a) || !is_virtual_path(b)) {
        escape(a);
        errno = EACCES;
        return -1;
    }
    int s = find(a);
    if (s < 0 || !S->f[s].exists) {
        errno = ENOENT;
        return -1;
    }
    int d = slot_for(b);
    if (d < 0) {
        errno = ENOSPC;
        return -1;
    }
    if (meta(OP_RENAME, s, (u64)d)) return -1;
    if (s == d) return 0;
    memcpy(S->data[d], S->data[s], S->f[s].len);
    S->f[d].len = S->f[s].len;
    S->f[d].exists = 1;
    S->f[s].exists = 0;
    S->f[s].len = 0;
    for (int i = 0; i < MAXFD; i++)
        if (ofds[i].used && ofds[i].slot == s) ofds[i].slot = d;
    return 0;
}
int renameat(int x, const char *a, int y, const char *b) { (void)x, (void)y; return rename(a, b); }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { (void)x, (void)y, (void)f; return rename(a, b); }
int unlink(const char *p) {
    if (!is_virtual_path(p)) {
        escape(p);
        errno = EACCES;
        return -1;
    }
    int s = find(p);
    if (meta(OP_UNLINK, s, 0)) return -1;
    if (s < 0 || !S->f[s].exists) {
        errno = ENOENT;
        return -1;
    }
    S->f[s].exists = 0;
    S->f[s].len = 0;
    return 0;
}
int unlinkat(int d, const char *p, int f) { (void)d, (void)f; return unlink(p); }
int remove(const char *p) { return unlink(p); }
int fsync(int fd) {
    if (!is_virtual_fd(fd)) return (int)rr(R(SYS_fsync, fd));
    struct ofd *o = get(fd);
    return meta(OP_SYNC, o ? o->slot : 255, 0);
}
int fdatasync(int fd) { return fsync(fd); }
int syncfs(int fd) { return fsync(fd); }
#define DENY_PATH(decl, path) \
    decl {                    \
        if (active) {         \
            logev(OP_OTHER, 255, C_META); \
            escape(path);     \
        }                     \
        errno = EPERM;        \
        return -1;            \
    }
DENY_PATH(int mkdir(const char *p, mode_t m), ((void)m, p))
DENY_PATH(int mkdirat(int d, const char *p, mode_t m), ((void)d, (void)m, p))
DENY_PATH(int rmdir(const char *p), p)
DENY_PATH(int link(const char *a, const char *b), ((void)a, b))
DENY_PATH(int linkat(int x, const char *a, int y, const char *b, int f), ((void)x, (void)a, (void)y, (void)f, b))
DENY_PATH(int symlink(const char *a, const char *b), ((void)a, b))
DENY_PATH(int symlinkat(const char *a, int d, const char *b), ((void)a, (void)d, b))
DENY_PATH(int execve(const char *p, char *const a[], char *const e[]), ((void)a, (void)e, p))
DENY_PATH(int execvp(const char *p, char *const a[]), ((void)a, p))
DENY_PATH(int socket(int a, int b, int c), ((void)a, (void)b, (void)c, "socket"))
DENY_PATH(int connect(int a, const void *b, unsigned c), ((void)a, (void)b, (void)c, "connect"))
/* starting a program */
static int no_child(const char *what) {
    if (active) {
        logev(OP_OTHER, 255, C_META);
        escape(what);
    }
    return EPERM;
}
int posix_spawn(pid_t *p, const char *f, const posix_spawn_file_actions_t *x, const posix_spawnattr_t *y, char *const a[], char *const e[]) {
    (void)p, (void)x, (void)y, (void)a, (void)e;
    return no_child(f);
}
int posix_spawnp(pid_t *p, const char *f, const posix_spawn_file_actions_t *x, const posix_spawnattr_t *y, char *const a[], char *const e[]) {
    (void)p, (void)x, (void)y, (void)a, (void)e;
    return no_child(f);
}
DENY_PATH(int execv(const char *p, char *const a[]), ((void)a, p))
DENY_PATH(int execvpe(const char *p, char *const a[], char *const e[]), ((void)a, (void)e, p))
DENY_PATH(pid_t fork(void), "fork")
DENY_PATH(pid_t vfork(void), "vfork")
DENY_PATH(int system(const char *c), c)
static int attr_path(const char *p) {
    if (!active) {
        errno = EPERM;
        return -1;
    }
    if (!is_virtual_path(p)) {
        escape(p);
        errno = EACCES;
        return -1;
    }
    int s = find(p);
    if (meta(OP_ATTR, s, 0)) return -1;
    if (s < 0 || !S->f[s].exists) {
        errno = ENOENT;
        return -1;
    }
    return 0;
}
static int attr_fd(int fd) {
    struct ofd *o = get(fd);
    if (!o) {
        errno = EBADF;
        return -1;
    }
    return meta(OP_ATTR, o->slot, 0);
}
int chmod(const char *p, mode_t m) { (void)m; return attr_path(p); }
int fchmod(int fd, mode_t m) { (void)m; return attr_fd(fd); }
int fchmodat(int d, const char *p, mode_t m, int f) { (void)d, (void)m, (void)f; return attr_path(p); }
int futimens(int fd, const struct timespec t[2]) { (void)t; return attr_fd(fd); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { (void)t, (void)f; return p ? attr_path(p) : attr_fd(d); }
int access(const char *p, int m) {
    if (!is_virtual_path(p)) return (int)rr(R(SYS_access, p, m));
    int s = look(p);
    if (s < 0 || !S->f[s].exists) {
        errno = ENOENT;
        return -1;
    }
    if ((m & W_OK) && S->f[s].readonly) {
        errno = EACCES;
        return -1;
    }
    return 0;
}
int faccessat(int d, const char *p, int m, int f) { (void)d, (void)f; return access(p, m); }
ssize_t readlink(const char *p, char *b, size_t n) {
    if (!is_virtual_path(p)) return rr(R(SYS_readlink, p, b, n));
    errno = find(p) < 0 ? ENOENT : EINVAL;
    return -1;
}
char *realpath(const char *p, char *out) {
    if (!is_virtual_path(p)) {
        errno = EACCES;
        return NULL;
    }
    int s = find(p);
    if (s < 0 || !S->f[s].exists) {
        errno = ENOENT;
        return NULL;
    }
    if (!out) out = malloc(4096);
    strcpy(out, "/sim/");
    strcat(out, S->f[s].name);
    return out;
}
char *getcwd(char *b, size_t n) {
    if (!active) {
        long r = R(SYS_getcwd, b, n);
        return r < 0 ? NULL : b;
    }
    if (!b) b = malloc(n ? n : 16), n = n ? n : 16;
    if (n < 5) {
        errno = ERANGE;
        return NULL;
    }
    strcpy(b, "/sim");
    return b;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    if (!is_virtual_fd(fd)) return (int)rr(R(SYS_fcntl, fd, cmd, arg));
    struct ofd *o = get(fd);
    if (!o) {
        errno = EBADF;
        return -1;
    }
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) {
        int n = new_fd((int)(o - ofds));
        if (n >= 0) o->refs++;
        return n;
    }
    if (cmd == F_GETFL) return o->slot == 0 ? O_RDONLY : o->slot <= 2 ? O_WRONLY : o->flags;
    return 0;
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    return fcntl(fd, cmd, arg);
}
int dup(int fd) { return fcntl(fd, F_DUPFD, 0); }
int isatty(int fd) {
    struct ofd *o = get(fd);
    if (o && kind_of(o->slot) == 1) return 1;
    errno = is_virtual_fd(fd) && !o ? EBADF : ENOTTY;
    return 0;
}
int ioctl(int fd, unsigned long req, ...) {
    va_list ap;
    va_start(ap, req);
    long arg = va_arg(ap, long);
    va_end(ap);
    if (!is_virtual_fd(fd)) return (int)rr(R(SYS_ioctl, fd, req, arg));
    if (isatty(fd) && req == TIOCGWINSZ) {
        *(struct winsize *)arg = (struct winsize){24, 80, 0, 0};
        return 0;
    }
    errno = ENOTTY;
    return -1;
}
int flock(int fd, int op) {
    (void)fd, (void)op;
    return 0;
}
int poll(struct pollfd *p, nfds_t n, int t) {
    if (!active) return (int)rr(R(SYS_poll, p, n, t));
    for (nfds_t i = 0; i < n; i++) p[i].revents = 0;
    return 0;
}
int posix_fadvise(int fd, off_t a, off_t b, int c) { (void)fd, (void)a, (void)b, (void)c; return 0; }
int posix_fadvise64(int fd, off_t a, off_t b, int c) { (void)fd, (void)a, (void)b, (void)c; return 0; }
int fallocate(int fd, int m, off_t a, off_t b) { (void)fd, (void)m, (void)a, (void)b; errno = EOPNOTSUPP; return -1; }
int fallocate64(int fd, int m, off_t a, off_t b) { return fallocate(fd, m, a, b); }
ssize_t copy_file_range(int a, off_t *x, int b, off_t *y, size_t n, unsigned f) { (void)a, (void)x, (void)b, (void)y, (void)n, (void)f; errno = ENOSYS; return -1; }
ssize_t sendfile(int a, int b, off_t *x, size_t n) { (void)a, (void)b, (void)x, (void)n; errno = ENOSYS; return -1; }
ssize_t sendfile64(int a, int b, off_t *x, size_t n) { return sendfile(a, b, x, n); }
ssize_t splice(int a, off_t *x, int b, off_t *y, size_t n, unsigned f) { (void)a, (void)x, (void)b, (void)y, (void)n, (void)f; errno = EINVAL; return -1; }
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off_t off) {
    if (fd >= 0 && is_virtual_fd(fd)) {
        errno = ENODEV;
        return MAP_FAILED;
    }
    long r = R(SYS_mmap, a, n, pr, fl, fd, off);
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return MAP_FAILED;
    }
    return (void *)r;
}

/* ---- time, randomness, identity ----------------------------------------------------------------- */
int clock_gettime(clockid_t c, struct timespec *t) {
    if (!active) return (int)rr(R(SYS_clock_gettime, c, t));
    S->clock_reads++;
    tick();
    i64 ns = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? S->clock0 : S->clock0 / 1000) + (i64)S->now;
    t->tv_sec = ns / 1000000000;
    t->tv_nsec = ns % 1000000000;
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    (void)tz;
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *p) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    (void)b;
    if (!active) return (int)rr(R(SYS_nanosleep, a, b));
    S->now += (u64)a->tv_sec * 1000000000ull + (u64)a->tv_nsec;
    if (++ops > S->max_ops) {
        S->livelock = 1;
        die(99);
    }
    return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
    (void)c, (void)f;
    return nanosleep(a, b);
}
int usleep(useconds_t u) {
    struct timespec t = {u / 1000000, (long)(u % 1000000) * 1000};
    return nanosleep(&t, NULL);
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (!active) return rr(R(SYS_getrandom, b, n, f));
    S->rand_reads++;
    for (size_t i = 0; i < n; i++) ((u8 *)b)[i] = (u8)next(&rprng);
    return (ssize_t)n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
static u64 host(u64 k) {
    u64 s = S->host_seed * 0x9e3779b97f4a7c15ull + k;
    return next(&s);
}
/* 0 in host_seed: one processor, root, "sim" */
static u32 cpus(void) { return S->host_seed ? 1 + host(1) % 64 : 1; }
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *set) {
    if (!active) return (int)rr(R(SYS_sched_getaffinity, p, n, set));
    memset(set, 0, n);
    for (u32 i = 0; i < cpus() && i < n * 8; i++) ((u8 *)set)[i / 8] |= (u8)(1u << (i % 8));
    return 0;
}
uid_t getuid(void) { return active ? (S->host_seed ? (uid_t)(host(2) % 3 * 1000) : 0) : (uid_t)R(SYS_getuid, 0); }
uid_t geteuid(void) { return active ? getuid() : (uid_t)R(SYS_geteuid, 0); }
pid_t getppid(void) { return active ? (S->host_seed ? (pid_t)(1 + host(3) % 30000) : 1) : (pid_t)R(SYS_getppid, 0); }
int gethostname(char *b, size_t n) {
    if (n < 8) {
        errno = ENAMETOOLONG;
        return -1;
    }
    memcpy(b, "sim\0\0\0\0", 8);
    if (S && S->host_seed) b[3] = (char)('a' + host(4) % 26);
    return 0;
}
pid_t gettid(void) { return active ? (pid_t)S->pid : (pid_t)R(SYS_gettid, 0); }
pid_t getpid(void) { return active ? (pid_t)S->pid : (pid_t)R(SYS_getpid, 0); }
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (active) switch (n) {
        case SYS_gettid: case SYS_getpid: return (long)S->pid;
        case SYS_getrandom: return getrandom((void *)a, (size_t)b, (unsigned)c);
        case SYS_statx: return do_statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
        case SYS_read: return read((int)a, (void *)b, (size_t)c);
        case SYS_write: return write((int)a, (void *)b, (size_t)c);
        case SYS_copy_file_range: errno = ENOSYS; return -1;
        case SYS_renameat2: return rename((const char *)b, (const char *)d);
        }
    return rr(raw(n, a, b, c, d, e, f));
}

/* ---- memory -------------------------------------------------------------------------------------- */
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
static int no_mem(void) {
    if (!active) return 0;
    S->nmalloc++;
    if (S->nplan == 0) return 0;
    struct plan *p = fault(C_MALLOC, NULL);
    return p && p->action == A_ERR;
}
void *malloc(size_t n) {
    if (no_mem()) {
        errno = ENOMEM;
        return NULL;
    }
    return __libc_malloc(n);
}
void *calloc(size_t a, size_t b) {
    if (no_mem()) {
        errno = ENOMEM;
        return NULL;
    }
    return __libc_calloc(a, b);
}
void *realloc(void *p, size_t n) {
    if (no_mem()) {
        errno = ENOMEM;
        return NULL;
    }
    return __libc_realloc(p, n);
}
void free(void *p) { __libc_free(p); }
int posix_memalign(void **out, size_t al, size_t n) {
    if (no_mem()) return ENOMEM;
    void *p = __libc_memalign(al, n);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void *aligned_alloc(size_t al, size_t n) { return no_mem() ? NULL : __libc_memalign(al, n); }

/* ---- the environment -------------------------------------------------------------------------------- */
extern char **environ;
/* how the Rust runtime itself reports a panic, and terminal colours */
static const char *const env_known[] = {"RUST_BACKTRACE", "RUST_LIB_BACKTRACE", "RUST_MIN_STACK", "NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "TERM", "COLORTERM", "SIMOS", 0};
char *getenv(const char *name) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    if (!active) return NULL;
    S->env_asked++;
    size_t l = strnlen(S->env_names, sizeof S->env_names - 1);
    if (l + n + 2 < sizeof S->env_names) {
        memcpy(S->env_names + l, name, n);
        S->env_names[l + n] = ' ';
        S->env_names[l + n + 1] = 0;
    }
    if (!S->env_seed) return NULL;
    for (const char *const *k = env_known; *k; k++)
        if (!strcmp(*k, name)) return NULL;
    static char *const vals[] = {"1", "0", "true", "|", "7", "/sim/x", "de_DE.UTF-8", "", "tab", "4", "safe", "no", "verbose", "31", ",", "utf-8"};
    u64 h = S->env_seed * 0x9e3779b97f4a7c15ull;
    for (size_t i = 0; i < n; i++) h = (h ^ (u8)name[i]) * 0x100000001b3ull;
    h ^= h >> 29;
    h *= 0xbf58476d1ce4e5b9ull;
    h ^= h >> 32;
    return h & 1 ? vals[(h >> 8) % (sizeof vals / sizeof *vals)] : NULL;
}
char *secure_getenv(const char *name) { return getenv(name); }

/* ---- start-up -------------------------------------------------------------------------------------- */
static int (*real_main)(int, char **, char **);

static int child_main(void) {
    static char *argv[512], *envp[512];
    struct rlimit cpu = {10, 12}, as = {4ull << 30, 4ull << 30}, core = {0, 0};
    R(SYS_prlimit64, 0, RLIMIT_CPU, &cpu, 0);
    R(SYS_prlimit64, 0, RLIMIT_AS, &as, 0);
    R(SYS_prlimit64, 0, RLIMIT_CORE, &core, 0);
    char *p = S->args;
    u32 i;
    for (i = 0; i < S->argc && i < 500; i++) argv[i] = p, p += strlen(p) + 1;
    u32 argc = i;
    for (i = 0; i < S->envc && i < 500; i++) envp[i] = p, p += strlen(p) + 1;
    environ = envp;
    prng = S->seed;
    rprng = S->rand_seed;
    for (int k = 0; k < 3; k++) stdmap[k] = new_ofd(k, k ? O_WRONLY : O_RDONLY) + 1;
    ofds[stdmap[0] - 1].pos = S->stdin_skip;
    /* every later allocation lies elsewhere */
    if (S->host_seed) __libc_malloc(16 + host(5) % 4096 * 16);
    active = 1;
    int r = real_main((int)argc, argv, envp);
    exit(r);
}
__attribute__((destructor)) static void at_end(void) {
    if (active && S) S->done = 1;
}
static int server(int argc, char **argv, char **envp) {
    (void)argc, (void)argv, (void)envp;
    S = (struct shm *)R(SYS_mmap, 0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED, SHM_FD, 0);
    if ((long)S < 0 && (long)S > -4096) R(SYS_exit_group, 97);
    for (;;) {
        u8 c;
        if (R(SYS_read, CTL_FD, &c, 1) != 1) R(SYS_exit_group, 0);
        pid_t pid = ((pid_t (*)(void))dlsym(RTLD_NEXT, "fork"))();
        if (pid == 0) {
            R(SYS_close, CTL_FD);
            R(SYS_close, ST_FD);
            R(SYS_close, SHM_FD);
            return child_main();
        }
        int msg[2] = {pid, 0};
        R(SYS_write, ST_FD, msg, 4);
        if (pid > 0) {
            while (R(SYS_wait4, pid, &msg[1], 0, 0) == -EINTR) {
            }
        } else
            msg[1] = 98 << 8;
        R(SYS_write, ST_FD, &msg[1], 4);
    }
}
typedef int (*start_t)(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *);
int __libc_start_main(int (*m)(int, char **, char **), int argc, char **argv, void (*init)(void), void (*fini)(void), void (*rtld)(void), void *end) {
    start_t real = (start_t)dlsym(RTLD_NEXT, "__libc_start_main");
    real_main = m;
    return real(getenv("SIMOS") ? server : m, argc, argv, init, fini, rtld, end);
}
/* layout check for the Rust side */
size_t simos_layout(int i) {
    switch (i) {
    case 0: return sizeof(struct shm);
    case 1: return offsetof(struct shm, nev);
    case 2: return offsetof(struct shm, f);
    case 3: return offsetof(struct shm, ev);
    case 4: return offsetof(struct shm, data);
    }
    return 0;
}
