// Simulated kernel, preloaded into an unmodified svdtools process (see DESIGN.md).
//
// The process that loads this object becomes a fork server: its constructor never returns in
// the parent. For each request it builds a fresh world (file system, clock, scheduler state)
// in a shared arena, forks one child per simulated process, and reports the outcome. In the
// children every libc entry point through which svdtools meets the outside is replaced by a
// function on that world. Exactly one simulated thread runs at any time; who runs next, what
// every operation returns, and what time it is, are functions of the request alone.
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <signal.h>
#include <pthread.h>
#include <dlfcn.h>
#include <link.h>
#include <limits.h>
#include <time.h>
#include <sched.h>
#include <poll.h>
#include <dirent.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <linux/futex.h>
#include <linux/stat.h>
#include <asm/stat.h>

// Not including <fcntl.h>/<sys/stat.h>/<unistd.h>: their prototypes clash with the aliases below.
#define O_ACCMODE 3
#define O_WRONLY 1
#define O_RDWR 2
#define O_CREAT 0100
#define O_EXCL 0200
#define O_TRUNC 01000
#define O_APPEND 02000
#define O_DIRECTORY 0200000
#define O_NOFOLLOW 0400000
#define O_PATH 010000000
#define O_TMPFILE_BIT 020000000
#define AT_FDCWD -100
#define AT_SYMLINK_NOFOLLOW 0x100
#define AT_REMOVEDIR 0x200
#define AT_SYMLINK_FOLLOW 0x400
#define AT_EMPTY_PATH 0x1000
#define S_IFMT_ 0170000
#define DT_DIR_ 4
#define DT_REG_ 8
#define DT_LNK_ 10

typedef uint8_t u8; typedef uint32_t u32; typedef int32_t s32; typedef uint64_t u64; typedef int64_t s64;

#define ARENA_ADDR ((void *)0x600000000000ull)
#define ARENA_SIZE (3ull << 30)
#define MAXTASK 96
#define MAXPROC 8
#define MAXFD 20000
#define MAXOFD 24000
#define MAXINODE 8192
#define MAXFAULT 512
#define LOGCAP (64u << 20)
#define EXPORT __attribute__((visibility("default")))

enum { T_DIR = 1, T_FILE = 2, T_LINK = 3, T_NULL = 4, T_FULL = 5, T_STDIN = 6, T_OUT = 7, T_ERR = 8 };
enum { RUNNABLE = 1, BLOCKED = 2, DONE = 3 };
enum { OP_OPEN, OP_READ, OP_WRITE, OP_CLOSE, OP_LSEEK, OP_STAT, OP_MKDIR, OP_UNLINK, OP_RENAME, OP_LINK,
       OP_SYMLINK, OP_READLINK, OP_REALPATH, OP_CHMOD, OP_TRUNC, OP_FSYNC, OP_UTIME, OP_READDIR, OP_COPY,
       OP_ACCESS, OP_CHDIR, OP_GETCWD, OP_DUP, OP_FLOCK, OP_RMDIR, OP_OTHER, OP_OUT, OP_ERRW, OP_STDIN };
enum { F_ERR = 1, F_SHORT, F_KILL_BEFORE, F_KILL_AFTER, F_KILL_MID, F_DELAY, F_CLOCK, F_REPLACE, F_REMOVE,
       F_TOUCH, F_DISKFULL };
enum { V_OK = 0, V_DEADLOCK = 1, V_STEPCAP = 2, V_HANG = 3, V_HARNESS = 4, V_ALLOCCAP = 5 };
enum { K_IO = 0, K_YIELD = 1, K_BLOCK = 2, K_ALLOC = 3, K_SYNC = 4 };
enum { FL_SHARED = 1, FL_SAME_PID = 2 }; // cfg.flags: every access to shared memory is a scheduling point

typedef struct Inode Inode;
typedef struct Dent { struct Dent *next; Inode *ino; u32 namelen; char name[]; } Dent;
struct Inode {
    u8 type, dirty, meta_dirty, created; u32 mode; u32 nlink; u32 pad;
    u64 size, cap; u8 *data; s64 mtime, ctime; u64 ino;
    Dent *first, *last; Inode *parent; const char *dname, *lpath; // lpath: where the image had it
};
typedef struct { Inode *ino; u64 pos; int flags; int refs; int type; int proc; const char *path; } Ofd;
typedef struct { int state, proc, id, join; u32 go; u32 bitset; void *faddr; s64 deadline; int timedout; u64 seq; int prio; } Task;
typedef struct { u8 *p; u64 len, cap; } Buf;
typedef struct {
    int alive, pid, status, started; Inode *cwd; int nfd; Buf out, err; char **argv; int argc; char **env;
} Proc;
typedef struct { // wire format, keep in step with driver/src/sim.rs
    u32 kind, opmask; u64 from, to; s64 arg, arg2; u32 prob, maxfire; u32 path, data; u32 proc1, pad;
} Fault;
typedef struct {
    u64 ncpu, hash_seed, wall0, mono0, tick, jitter, gran, sched_mode, sched_seed, sched_p, fault_seed, step_cap,
        alloc_cap, readdir_mode, ino_seed, pid_base, alloc_ns, alloc_fail_from, alloc_fail_to, thread_fail_from,
        thread_fail_to, spurious_p, flags, time_seed, code_cap, heap_seed;
} Cfg;
typedef struct { u64 decision; u32 task; u32 pad; } Switch;
typedef struct { u64 op; u32 fault; u32 task; s64 arg; } Fired;
typedef struct { u32 idx; u8 task, proc, op, faulted; s64 ret; s32 err; u32 plen; u64 pos; u32 p2len; u32 flags; s64 now; u64 allocs; } LogRec; // 56 bytes

typedef struct {
    Cfg cfg;
    u8 *bump, *bump_end;
    u64 now; s64 wall_off;
    u64 ioop, decision, allocs, steps, syncops, creates, threads_failed, alloc_failed, spurious, preempt, attr_failed, code, shared;
    u64 rng_hash, rng_sched, rng_fault, rng_time, rng_ino, rng_dir;
    int ntask, nproc, cur, verdict;
    u64 seq;
    s64 disk_free;
    Task task[MAXTASK]; Proc proc[MAXPROC];
    int nofd, ninode;
    Inode *root;
    int nfault; Fault fault[MAXFAULT]; u32 fcount[MAXFAULT];
    u32 nblob; struct { u8 *p; u64 len; } blob[256];
    u64 ntrace, trace_i; Switch *trace;
    u64 nallocpt, allocpt_i; u64 *allocpt;
    u64 ncodept, codept_i; u64 *codept;
    u64 nsw, capsw; Switch *sw;
    u64 nfired, capfired; Fired *fired;
    u8 *log; u64 loglen; u64 nlog, logdrop;
    u64 syshash; // running hash of the scheduling/ops history
    int starve;
    char msg[512];
    // not cleared: only the first nofd, nfd, ninode entries count
    Ofd ofd[MAXOFD]; short fd[MAXPROC][MAXFD]; Inode inode[MAXINODE];
} World;

static World *W;
static int g_active;                       // this process is a simulated child
static int g_proc;
static __thread int t_task __attribute__((tls_model("initial-exec"))) = -1;

// ---------------------------------------------------------------- raw system calls
static inline long rsys6(long n, long a, long b, long c, long d, long e, long f) {
    long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
#define rsys(n, a, b, c) rsys6(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)
static long fix(long r) { if (r < 0 && r > -4096) { errno = -r; return -1; } return r; }

static void die_self(int sig) { rsys(SYS_kill, rsys(SYS_getpid, 0, 0, 0), sig, 0); for (;;) rsys(SYS_pause, 0, 0, 0); }
static void set_verdict(int v, const char *m) {
    if (!W->verdict) { W->verdict = v; strncpy(W->msg, m, sizeof W->msg - 1); }
}
static void harness(const char *m) { set_verdict(V_HARNESS, m); die_self(SIGKILL); }
static void note(const char *m) { if (!W->msg[0]) strncpy(W->msg, m, sizeof W->msg - 1); }

static u64 rnd(u64 *s) { u64 z = (*s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static void mix(u64 v) { W->syshash = (W->syshash ^ v) * 0x100000001B3ull; W->syshash ^= W->syshash >> 29; }

static void *balloc(u64 n) {
    n = (n + 15) & ~15ull;
    if (n > (u64)(W->bump_end - W->bump)) {
        if (!g_active) { static const char m[] = "sim: arena exhausted\n"; rsys(SYS_write, 2, m, sizeof m - 1); rsys(SYS_exit_group, 96, 0, 0); }
        set_verdict(V_STEPCAP, "runaway output"); die_self(SIGKILL);
    }
    void *p = W->bump; W->bump += n; return p;
}
static void buf_put(Buf *b, const void *p, u64 n) {
    if (b->len + n > b->cap) {
        u64 c = b->cap ? b->cap * 2 : 4096; while (c < b->len + n) c *= 2;
        u8 *q = balloc(c); memcpy(q, b->p, b->len); b->p = q; b->cap = c;
    }
    memcpy(b->p + b->len, p, n); b->len += n;
}

// ---------------------------------------------------------------- scheduler
static void fwake(u32 *a) { rsys6(SYS_futex, (long)a, FUTEX_WAKE, 1, 0, 0, 0); }
static void await_baton(Task *t) {
    while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) rsys6(SYS_futex, (long)&t->go, FUTEX_WAIT, 0, 0, 0, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELEASE);
}
static void hand_to(Task *n) {
    W->cur = n->id;
    __atomic_store_n(&n->go, 1, __ATOMIC_RELEASE);
    fwake(&n->go);
}
static s64 wallclock(void) { return (s64)W->now + W->wall_off; }
static void tick(u64 base) {
    u64 d = base;
    if (W->cfg.jitter) d += rnd(&W->rng_time) % (W->cfg.jitter + 1);
    W->now += d;
}
static void wake_timers(void) {
    for (int i = 0; i < W->ntask; i++) {
        Task *t = &W->task[i];
        if (t->state == BLOCKED && t->deadline >= 0 && (u64)t->deadline <= W->now) { t->state = RUNNABLE; t->timedout = 1; t->faddr = 0; }
    }
}
// Who runs next. self may be NULL (starting up or a process died) or not runnable.
static Task *choose(Task *self, int kind) {
    Task *run[MAXTASK]; int n = 0;
    wake_timers();
    for (;;) {
        for (int i = 0; i < W->ntask; i++) if (W->task[i].state == RUNNABLE) run[n++] = &W->task[i];
        if (n) break;
        s64 best = -1;
        for (int i = 0; i < W->ntask; i++) if (W->task[i].state == BLOCKED && W->task[i].deadline >= 0 && (best < 0 || W->task[i].deadline < best)) best = W->task[i].deadline;
        if (best < 0) return NULL;
        if ((u64)best > W->now) W->now = best;
        wake_timers();
    }
    int self_ok = self && self->state == RUNNABLE;
    Task *def;
    if (self_ok && kind != K_YIELD) def = self;
    else {
        int sid = self ? self->id : -1; def = run[0];
        for (int i = 0; i < n; i++) if (run[i]->id > sid) { def = run[i]; break; }
    }
    if (n == 1) return run[0];
    u64 d = ++W->decision;
    Task *pick = def;
    if (W->cfg.sched_mode == 0) {
        while (W->trace_i < W->ntrace && W->trace[W->trace_i].decision < d) W->trace_i++;
        if (W->trace_i < W->ntrace && W->trace[W->trace_i].decision == d) {
            u32 t = W->trace[W->trace_i].task;
            if (t < (u32)W->ntask && W->task[t].state == RUNNABLE) pick = &W->task[t];
        }
    } else if (W->cfg.sched_mode == 1) { // uniform switches with probability p
        int sw = !self_ok || kind == K_YIELD || kind == K_ALLOC || (rnd(&W->rng_sched) & 0xffff) < W->cfg.sched_p;
        if (sw) {
            Task *c[MAXTASK]; int m = 0;
            for (int i = 0; i < n; i++) if (run[i] != self || (kind == K_IO)) c[m++] = run[i];
            if (m) pick = c[rnd(&W->rng_sched) % m];
        }
    } else if (W->cfg.sched_mode == 2) { // priorities with random change points
        if (self_ok && (kind == K_YIELD || kind == K_ALLOC || (rnd(&W->rng_sched) & 0xffff) < W->cfg.sched_p)) {
            int lo = 0; for (int i = 0; i < W->ntask; i++) if (W->task[i].prio < lo) lo = W->task[i].prio;
            self->prio = lo - 1;
        }
        pick = run[0];
        for (int i = 1; i < n; i++) if (run[i]->prio > pick->prio) pick = run[i];
    } else if (W->cfg.sched_mode == 3) { // starve one task as long as anybody else can run; others random
        if (W->starve < 0 || (rnd(&W->rng_sched) & 0xffff) < 600) W->starve = rnd(&W->rng_sched) % W->ntask;
        Task *c[MAXTASK]; int m = 0;
        for (int i = 0; i < n; i++) if (run[i]->id != W->starve) c[m++] = run[i];
        if (m) {
            int keep = self_ok && kind != K_YIELD && kind != K_ALLOC && self->id != W->starve && (rnd(&W->rng_sched) & 0xffff) >= W->cfg.sched_p;
            pick = keep ? self : c[rnd(&W->rng_sched) % m];
        }
    }
    if (pick != def) {
        if (W->nsw < W->capsw) { W->sw[W->nsw].decision = d; W->sw[W->nsw].task = pick->id; }
        W->nsw++;
    }
    if (pick != self) { if (self_ok && kind != K_YIELD) W->preempt++; mix(d * 131 + pick->id); }
    return pick;
}
static void over_cap(void) { set_verdict(V_STEPCAP, "step cap"); die_self(SIGKILL); }
static void sched_point(int kind) {
    Task *self = &W->task[t_task];
    if (++W->steps > W->cfg.step_cap) over_cap();
    Task *n = choose(self, kind);
    if (n == self) return;
    hand_to(n);
    await_baton(self);
}
static void block_self(void) { // state already set
    Task *self = &W->task[t_task];
    if (++W->steps > W->cfg.step_cap) over_cap();
    Task *n = choose(self, K_BLOCK);
    if (!n) { set_verdict(V_DEADLOCK, "all threads blocked"); die_self(SIGKILL); }
    if (n == self) return;
    hand_to(n);
    await_baton(self);
}
#define SIM (g_active && t_task >= 0)

static long do_futex(u32 *ua, int op, u32 val, const struct timespec *ts, u32 val3) {
    Task *self = &W->task[t_task];
    int cmd = op & 127;
    W->syncops++;
    W->now += 20;
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        sched_point(K_SYNC);
        if (__atomic_load_n(ua, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
        if (W->cfg.spurious_p && (rnd(&W->rng_fault) & 0xffff) < W->cfg.spurious_p) { W->spurious++; return 0; }
        s64 dl = -1;
        if (ts) {
            s64 v = ts->tv_sec * 1000000000ll + ts->tv_nsec;
            if (cmd == FUTEX_WAIT) dl = W->now + v;
            else dl = (op & FUTEX_CLOCK_REALTIME) ? v - W->wall_off : v;
            if (dl < 0) dl = 0;
        }
        self->faddr = ua; self->bitset = cmd == FUTEX_WAIT ? ~0u : val3; self->deadline = dl; self->timedout = 0;
        self->seq = ++W->seq; self->state = BLOCKED;
        block_self();
        self->deadline = -1; self->faddr = 0;
        return self->timedout ? -ETIMEDOUT : 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        u32 bs = cmd == FUTEX_WAKE ? ~0u : val3; long n = 0;
        while ((u32)n < val) {
            Task *b = NULL;
            for (int i = 0; i < W->ntask; i++) {
                Task *t = &W->task[i];
                if (t->state == BLOCKED && t->proc == self->proc && t->faddr == ua && (t->bitset & bs) && (!b || t->seq < b->seq)) b = t;
            }
            if (!b) break;
            b->state = RUNNABLE; b->faddr = 0; b->deadline = -1; n++;
        }
        sched_point(K_SYNC);
        return n;
    }
    return -ENOSYS;
}

static void sim_sleep(s64 dl) {
    Task *self = &W->task[t_task];
    self->faddr = 0; self->deadline = dl; self->timedout = 0; self->state = BLOCKED;
    block_self(); self->deadline = -1;
}

// ---------------------------------------------------------------- file system
static Inode *new_inode(int type, u32 mode) {
    if (W->ninode >= MAXINODE) { if (!g_active) return &W->inode[MAXINODE - 1]; set_verdict(V_STEPCAP, "runaway file creation"); die_self(SIGKILL); }
    Inode *i = &W->inode[W->ninode++]; memset(i, 0, sizeof *i);
    i->type = type; i->mode = mode; i->nlink = type == T_DIR ? 2 : 1;
    i->ino = 1000 + W->ninode * 7 + (W->cfg.ino_seed ? (rnd(&W->rng_ino) % 1000000) * 100000 : 0);
    s64 g = W->cfg.gran ? W->cfg.gran : 1; s64 t = wallclock(); i->mtime = i->ctime = t - ((t % g) + g) % g;
    i->created = 1;
    return i;
}
static void touch(Inode *i) { s64 g = W->cfg.gran ? W->cfg.gran : 1; s64 t = wallclock(); i->mtime = i->ctime = t - ((t % g) + g) % g; }
static Dent *lookup(Inode *d, const char *n, u32 l) {
    for (Dent *e = d->first; e; e = e->next) if (e->namelen == l && !memcmp(e->name, n, l)) return e;
    return NULL;
}
static void add_dent(Inode *d, const char *n, u32 l, Inode *i) {
    Dent *e = balloc(sizeof *e + l + 1); e->next = 0; e->ino = i; e->namelen = l; memcpy(e->name, n, l); e->name[l] = 0;
    if (d->last) d->last->next = e; else d->first = e;
    d->last = e;
    if (i->type == T_DIR) { i->parent = d; i->dname = e->name; d->nlink++; }
    touch(d); d->meta_dirty |= 1;
}
static void del_dent(Inode *d, Dent *x) {
    Dent *p = 0;
    for (Dent *e = d->first; e; p = e, e = e->next) if (e == x) {
        if (p) p->next = e->next; else d->first = e->next;
        if (d->last == e) d->last = p;
        break;
    }
    if (x->ino->type == T_DIR) d->nlink--;
    touch(d); d->meta_dirty |= 1;
}
static int may(Inode *i, u32 bit) { return (i->mode & bit) != 0; }
static void dirpath(Inode *d, char *out) {
    const char *st[256]; int n = 0;
    for (Inode *p = d; p && p != W->root && n < 256; p = p->parent) st[n++] = p->dname;
    if (!n) { strcpy(out, "/"); return; }
    char *o = out; for (int i = n - 1; i >= 0; i--) { *o++ = '/'; size_t l = strlen(st[i]); if (o + l > out + 4000) break; memcpy(o, st[i], l); o += l; }
    *o = 0;
}
typedef struct { Inode *ino, *parent; Dent *dent; int trailing; char name[256]; char path[4608]; } Res;
static int resolve(Inode *base, const char *path, int follow, Res *r) {
    char buf[8200]; int links = 0;
    memset(r, 0, offsetof(Res, path)); r->path[0] = 0;
    if (!path) return EFAULT;
    size_t L = strlen(path); if (!L) return ENOENT; if (L > 4095) return ENAMETOOLONG;
    memcpy(buf, path, L + 1);
    char *p = buf; Inode *cur = base;
    if (*p == '/') cur = W->root;
    for (;;) {
        while (*p == '/') p++;
        if (!*p) { r->ino = cur; r->parent = cur->parent ? cur->parent : W->root; r->name[0] = 0; break; }
        char *e = p; while (*e && *e != '/') e++;
        u32 l = e - p; char *rest = e; while (*rest == '/') rest++;
        int last = !*rest, trail = last && *e == '/';
        if (l > 255) return ENAMETOOLONG;
        if (cur->type != T_DIR) return ENOTDIR;
        if (!may(cur, 0100)) return EACCES;
        if (l == 1 && p[0] == '.') { if (last) { r->ino = cur; r->parent = cur->parent ? cur->parent : W->root; strcpy(r->name, "."); break; } p = e; continue; }
        if (l == 2 && p[0] == '.' && p[1] == '.') { if (cur->parent) cur = cur->parent; if (last) { r->ino = cur; r->parent = cur->parent ? cur->parent : W->root; strcpy(r->name, ".."); break; } p = e; continue; }
        Dent *d = lookup(cur, p, l);
        if (!d) {
            if (!last) return ENOENT;
            r->parent = cur; memcpy(r->name, p, l); r->name[l] = 0; r->trailing = trail;
            dirpath(cur, r->path); size_t k = strlen(r->path); if (k && r->path[k - 1] != '/') r->path[k++] = '/';
            memcpy(r->path + k, p, l); r->path[k + l] = 0;
            return 0;
        }
        Inode *i = d->ino;
        if (i->type == T_LINK && (!last || follow || trail)) {
            if (++links > 40) return ELOOP;
            char nb[8200]; size_t tl = i->size, rl = strlen(e);
            if (tl + rl + 2 > 8000) return ENAMETOOLONG;
            memcpy(nb, i->data, tl); memcpy(nb + tl, e, rl + 1);
            memcpy(buf, nb, tl + rl + 1); p = buf;
            if (*p == '/') cur = W->root;
            continue;
        }
        if (last) {
            if (trail && i->type != T_DIR) return ENOTDIR;
            r->ino = i; r->parent = cur; r->dent = d; memcpy(r->name, p, l); r->name[l] = 0;
            if (i->type != T_DIR) {
                dirpath(cur, r->path); size_t k = strlen(r->path); if (k && r->path[k - 1] != '/') r->path[k++] = '/';
                memcpy(r->path + k, p, l); r->path[k + l] = 0; return 0;
            }
            break;
        }
        cur = i; p = e;
    }
    if (r->ino && r->ino->type == T_DIR) dirpath(r->ino, r->path);
    return 0;
}
static void grow(Inode *i, u64 n) {
    if (n > i->cap) { u64 c = i->cap ? i->cap : 1024; while (c < n) c *= 2; u8 *q = balloc(c); if (i->size) memcpy(q, i->data, i->size); i->data = q; i->cap = c; }
}
static void set_size(Inode *i, u64 n) {
    if (n > i->size) { grow(i, n); memset(i->data + i->size, 0, n - i->size); }
    i->size = n; i->dirty = 1; touch(i);
}
static Proc *P(void) { return &W->proc[g_proc]; }
#define FD (W->fd[g_proc])
static Ofd *OF(int fd) { return fd < 0 || fd >= P()->nfd || FD[fd] < 0 ? NULL : &W->ofd[FD[fd]]; }
static Inode *base_of(int dirfd, int *err) {
    if (dirfd == AT_FDCWD) return P()->cwd;
    Ofd *o = OF(dirfd);
    if (!o) { *err = EBADF; return NULL; }
    if (!o->ino || o->ino->type != T_DIR) { *err = ENOTDIR; return NULL; }
    return o->ino;
}
static int at(int dirfd, const char *path, int follow, Res *r) {
    int e = 0; Inode *b = (path && path[0] == '/') ? W->root : base_of(dirfd, &e);
    if (!b) { memset(r, 0, offsetof(Res, path)); r->path[0] = 0; return e; }
    return resolve(b, path, follow, r);
}
static int new_ofd(Inode *i, int type, int flags, const char *path) {
    for (int k = 0; k < MAXOFD; k++) if (k >= W->nofd || !W->ofd[k].refs) {
        if (k >= W->nofd) W->nofd = k + 1;
        Ofd *o = &W->ofd[k]; o->ino = i; o->type = type; o->flags = flags; o->pos = 0; o->refs = 1; o->proc = g_proc;
        size_t l = strlen(path); char *q = balloc(l + 1); memcpy(q, path, l + 1); o->path = q;
        return k;
    }
    return -1;
}
static int put_fd(int ofd, int min) {
    for (int f = min; f < MAXFD; f++) {
        while (f >= P()->nfd) FD[P()->nfd++] = -1;
        if (FD[f] < 0) { FD[f] = ofd; return f; }
    }
    return -1;
}

// ---------------------------------------------------------------- operations, faults, log
typedef struct { int op; u32 idx; int err; s64 limit; int kill, faulted; char path2[512]; } Op;
static int subst_path(const char *s, const char *t) { return strstr(s, t) != NULL; }
static void fire(int k, s64 arg) {
    W->fcount[k]++;
    if (W->nfired < W->capfired) { Fired *f = &W->fired[W->nfired]; f->op = W->ioop; f->fault = k; f->task = t_task; f->arg = arg; }
    W->nfired++;
    mix(W->ioop * 977 + k);
}
static void blobstr(u32 b, char *out, size_t cap) { u64 l = W->blob[b].len; if (l >= cap) l = cap - 1; memcpy(out, W->blob[b].p, l); out[l] = 0; }
static void world_replace(const char *path, const u8 *data, u64 len) {
    Res r; if (resolve(W->root, path, 1, &r)) return; if (!r.parent || (r.ino && r.ino->type == T_DIR)) return;
    Inode *n = new_inode(T_FILE, r.ino ? r.ino->mode : 0644); n->created = 0;
    n->data = balloc(len + 1); memcpy(n->data, data, len); n->size = n->cap = len; n->dirty = 2;
    if (r.dent) r.dent->ino = n; else add_dent(r.parent, r.name, strlen(r.name), n);
}
static void world_remove(const char *path) { Res r; if (resolve(W->root, path, 0, &r) || !r.dent) return; del_dent(r.parent, r.dent); }

static Op op_begin(int op, const char *path, u64 len) {
    Op o; o.op = op; o.err = 0; o.limit = -1; o.kill = 0; o.faulted = 0; o.path2[0] = 0;
    sched_point(K_IO);
    o.idx = ++W->ioop;
    tick(W->cfg.tick);
    for (int k = 0; k < W->nfault; k++) {
        Fault *f = &W->fault[k];
        if (W->ioop < f->from || W->ioop > f->to) continue;
        if (f->opmask && !(f->opmask & (1u << op))) continue;
        if (f->maxfire && W->fcount[k] >= f->maxfire) continue;
        if (f->proc1 && f->proc1 != (u32)g_proc + 1) continue;
        if (f->path && f->kind < F_REPLACE) { char b[1024]; blobstr(f->path - 1, b, sizeof b); if (!subst_path(path, b)) continue; }
        if (f->kind == F_SHORT && (s64)len <= 1) continue;
        if (f->prob < 65536 && (rnd(&W->rng_fault) & 0xffff) >= f->prob) continue;
        s64 arg = f->arg;
        switch (f->kind) {
        case F_ERR: if (o.err) continue; o.err = f->arg; break;
        case F_SHORT: arg = f->arg > 0 ? f->arg : 1 + (s64)(rnd(&W->rng_fault) % (len - 1)); if (arg >= (s64)len) arg = len - 1; o.limit = arg; break;
        case F_KILL_BEFORE: fire(k, arg); die_self(SIGKILL); break;
        case F_KILL_AFTER: o.kill = 1; break;
        case F_KILL_MID: o.kill = 1; o.limit = f->arg < 0 ? (s64)(len / 2) : (f->arg < (s64)len ? f->arg : (s64)len); break;
        case F_DELAY: W->now += f->arg; break;
        case F_CLOCK: W->wall_off += f->arg; break;
        case F_REPLACE: { char b[4096]; blobstr(f->path - 1, b, sizeof b); world_replace(b, W->blob[f->data - 1].p, W->blob[f->data - 1].len); break; }
        case F_REMOVE: { char b[4096]; blobstr(f->path - 1, b, sizeof b); world_remove(b); break; }
        case F_TOUCH: { char b[4096]; blobstr(f->path - 1, b, sizeof b); Res r; if (!resolve(W->root, b, 1, &r) && r.ino) touch(r.ino); break; }
        case F_DISKFULL: W->disk_free = f->arg; break;
        }
        fire(k, arg); o.faulted = f->kind;
    }
    return o;
}
static long op_end(Op *o, const char *path, u64 pos, long ret, int err, int flags) {
    LogRec l; memset(&l, 0, sizeof l); l.idx = o->idx; l.task = t_task; l.proc = g_proc; l.op = o->op; l.faulted = o->faulted; l.ret = ret; l.err = err; l.pos = pos; l.flags = flags;
    l.plen = strlen(path); l.p2len = strlen(o->path2); l.now = W->now; l.allocs = W->allocs;
    if (W->loglen + sizeof l + l.plen + l.p2len > LOGCAP) W->logdrop++;
    else {
        memcpy(W->log + W->loglen, &l, sizeof l); W->loglen += sizeof l;
        memcpy(W->log + W->loglen, path, l.plen); W->loglen += l.plen;
        memcpy(W->log + W->loglen, o->path2, l.p2len); W->loglen += l.p2len;
        W->nlog++;
    }
    mix((u64)o->op * 7919 + (u64)ret * 31 + err + (u64)t_task * 65537);
    if (o->kill) die_self(SIGKILL);
    if (err) { errno = err; return -1; }
    return ret;
}

static int do_open(int dirfd, const char *path, int flags, u32 mode) {
    Res r; Op o = op_begin(OP_OPEN, path, 0); int e = o.err, fd = -1;
    if (e) { at(dirfd, path, !(flags & O_NOFOLLOW), &r); goto out; }
    e = at(dirfd, path, !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL)), &r);
    if (e) goto out;
    if ((flags & O_TMPFILE_BIT) && (flags & O_DIRECTORY)) { if ((flags & (O_TMPFILE_BIT | O_DIRECTORY)) == (O_TMPFILE_BIT | O_DIRECTORY)) { e = EOPNOTSUPP; goto out; } }
    int acc = flags & O_ACCMODE, created = 0;
    if (!r.ino) {
        if (!(flags & O_CREAT)) { e = ENOENT; goto out; }
        if (r.trailing) { e = EISDIR; goto out; }
        if (!may(r.parent, 0200)) { e = EACCES; goto out; }
        Inode *n = new_inode(T_FILE, mode & 0777 & ~022u); n->dirty = 1;
        add_dent(r.parent, r.name, strlen(r.name), n); r.ino = n; created = 1;
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { e = EEXIST; goto out; }
        if (r.ino->type == T_LINK) { e = ELOOP; goto out; }
        if (r.ino->type == T_DIR && (acc || (flags & O_CREAT))) { e = EISDIR; goto out; }
        if ((flags & O_DIRECTORY) && r.ino->type != T_DIR) { e = ENOTDIR; goto out; }
        if (!(flags & O_PATH)) {
            if (acc != O_WRONLY && !may(r.ino, 0400)) { e = EACCES; goto out; }
            if (acc && !may(r.ino, 0200)) { e = EACCES; goto out; }
        }
    }
    if (r.ino->type == T_FILE && !created && (flags & O_TRUNC) && acc) { if (r.ino->size && W->disk_free >= 0) W->disk_free += r.ino->size; set_size(r.ino, 0); }
    { int k = new_ofd(r.ino, r.ino->type, flags, r.path); if (k < 0) e = ENFILE; else { fd = put_fd(k, 0); if (fd < 0) { W->ofd[k].refs = 0; e = EMFILE; } } }
    flags |= created ? 0x40000000 : 0;
out:
    return op_end(&o, r.path[0] ? r.path : path, 0, fd, e, flags);
}
static int do_close(int fd) {
    Ofd *f = OF(fd); if (!f) { errno = EBADF; return -1; }
    Op o = op_begin(OP_CLOSE, f->path, 0);
    FD[fd] = -1; const char *p = f->path; f->refs--;
    return op_end(&o, p, 0, 0, o.err, 0);
}
static int dup_fd(int fd, int min) { Ofd *f = OF(fd); if (!f) return -EBADF; int n = put_fd(FD[fd], min); if (n < 0) return -EMFILE; f->refs++; return n; }
static long do_readv(int fd, const struct iovec *v, int nv, s64 off) {
    Ofd *f = OF(fd); if (!f) { errno = EBADF; return -1; }
    u64 len = 0; for (int i = 0; i < nv; i++) len += v[i].iov_len;
    Op o = op_begin(f->type == T_STDIN ? OP_STDIN : OP_READ, f->path, len); int e = o.err; long n = -1; u64 pos = off >= 0 ? (u64)off : f->pos, pos0 = pos;
    if (e) goto out;
    if (f->type == T_STDIN || f->type == T_NULL) { n = 0; goto out; }
    if (f->type == T_FULL) { for (int i = 0; i < nv; i++) memset(v[i].iov_base, 0, v[i].iov_len); n = len; goto out; }
    if (f->type == T_DIR) { e = EISDIR; goto out; }
    if ((f->flags & O_ACCMODE) == O_WRONLY || (f->flags & O_PATH) || f->type == T_OUT || f->type == T_ERR) { e = EBADF; goto out; }
    if (o.limit >= 0 && (u64)o.limit < len) len = o.limit;
    n = 0;
    for (int i = 0; i < nv && len; i++) {
        u64 a = f->ino->size > pos ? f->ino->size - pos : 0, w = v[i].iov_len; if (w > len) w = len; if (w > a) w = a;
        if (!w && v[i].iov_len) break;
        memcpy(v[i].iov_base, f->ino->data + pos, w); pos += w; n += w; len -= w;
    }
    if (off < 0) f->pos = pos;
out:
    return op_end(&o, f->path, pos0, n, e, 0);
}
static u64 disk_take(Inode *i, u64 pos, u64 len, int *e) {
    if (W->disk_free < 0) return len;
    u64 end = pos + len; u64 need = end > i->size ? end - i->size : 0;
    if ((s64)need > W->disk_free) { u64 cut = need - W->disk_free; if (cut >= len) { *e = ENOSPC; return 0; } len -= cut; need = W->disk_free; }
    W->disk_free -= need; return len;
}
static long do_writev(int fd, const struct iovec *v, int nv, s64 off) {
    Ofd *f = OF(fd); if (!f) { errno = EBADF; return -1; }
    u64 len = 0; for (int i = 0; i < nv; i++) len += v[i].iov_len;
    Op o = op_begin(f->type == T_OUT ? OP_OUT : f->type == T_ERR ? OP_ERRW : OP_WRITE, f->path, len); int e = o.err; long n = -1; u64 pos0 = 0;
    if (e) goto out;
    if (f->type == T_NULL) { n = len; goto out; }
    if (f->type == T_FULL) { e = ENOSPC; goto out; }
    if (f->type == T_DIR || f->type == T_STDIN) { e = EBADF; goto out; }
    if (o.limit >= 0 && (u64)o.limit < len) len = o.limit;
    n = 0;
    if (f->type == T_OUT || f->type == T_ERR) {
        Buf *b = f->type == T_OUT ? &P()->out : &P()->err; pos0 = b->len;
        for (int i = 0; i < nv && len; i++) { u64 w = v[i].iov_len < len ? v[i].iov_len : len; buf_put(b, v[i].iov_base, w); n += w; len -= w; }
        goto out;
    }
    if (!(f->flags & O_ACCMODE) || (f->flags & O_PATH)) { n = -1; e = EBADF; goto out; }
    u64 pos = off >= 0 ? (u64)off : (f->flags & O_APPEND) ? f->ino->size : f->pos; pos0 = pos;
    if (len) { len = disk_take(f->ino, pos, len, &e); if (e) { n = -1; goto out; } }
    for (int i = 0; i < nv && len; i++) {
        u64 w = v[i].iov_len < len ? v[i].iov_len : len;
        u64 end = pos + w; if (pos > f->ino->size) set_size(f->ino, pos);
        grow(f->ino, end); memcpy(f->ino->data + pos, v[i].iov_base, w); if (end > f->ino->size) f->ino->size = end;
        pos += w; n += w; len -= w;
    }
    if (n) { f->ino->dirty = 1; touch(f->ino); }
    if (off < 0) f->pos = pos;
out:
    return op_end(&o, f->path, pos0, n, e, 0);
}
static long do_copy(int in, s64 *offin, int out, s64 *offout, u64 len, int sf) {
    Ofd *a = OF(in), *b = OF(out); if (!a || !b) { errno = EBADF; return -1; }
    Op o = op_begin(OP_COPY, b->path, len); int e = o.err; long n = -1;
    strncpy(o.path2, a->path, sizeof o.path2 - 1);
    if (e) goto end;
    if (a->type != T_FILE || (b->type != T_FILE && !(sf && (b->type == T_OUT || b->type == T_ERR)))) { e = EINVAL; goto end; }
    if ((a->flags & O_ACCMODE) == O_WRONLY || (b->type == T_FILE && !(b->flags & O_ACCMODE))) { e = EBADF; goto end; }
    if (!sf && (b->flags & O_APPEND)) { e = EBADF; goto end; }
    u64 pa = offin ? (u64)*offin : a->pos, pb = offout ? (u64)*offout : b->pos;
    u64 av = a->ino->size > pa ? a->ino->size - pa : 0; if (len > av) len = av;
    if (o.limit >= 0 && (u64)o.limit < len) len = o.limit;
    if (b->type == T_FILE && len) { len = disk_take(b->ino, pb, len, &e); if (e) goto end; }
    if (b->type == T_OUT || b->type == T_ERR) buf_put(b->type == T_OUT ? &P()->out : &P()->err, a->ino->data + pa, len);
    else if (len) {
        if (pb > b->ino->size) set_size(b->ino, pb);
        grow(b->ino, pb + len); memmove(b->ino->data + pb, a->ino->data + pa, len); if (pb + len > b->ino->size) b->ino->size = pb + len;
        b->ino->dirty = 1; touch(b->ino);
        if (offout) *offout = pb + len; else b->pos = pb + len;
    }
    if (offin) *offin = pa + len; else a->pos = pa + len;
    n = len;
end:
    return op_end(&o, b->path, 0, n, e, 0);
}
static void fill_stat(Inode *i, int type, struct stat *st) {
    memset(st, 0, sizeof *st);
    st->st_dev = 42; st->st_blksize = 4096; st->st_nlink = 1; st->st_uid = 1000; st->st_gid = 1000;
    if (!i) { st->st_mode = 0010600; st->st_ino = 3; return; }
    u32 t = type == T_DIR ? 0040000 : type == T_LINK ? 0120000 : type == T_FILE ? 0100000 : 0020000;
    st->st_mode = t | i->mode; st->st_ino = i->ino; st->st_nlink = i->nlink; st->st_size = i->size; st->st_blocks = (i->size + 511) / 512;
    s64 q = i->mtime / 1000000000, m = i->mtime % 1000000000; if (m < 0) { m += 1000000000; q--; }
    st->st_mtime = q; st->st_mtime_nsec = m; st->st_atime = q; st->st_atime_nsec = m;
    st->st_ctime = q; st->st_ctime_nsec = m;
}
static int get_stat(int dirfd, const char *path, int flags, struct stat *st) {
    char pb[4608]; Inode *i = NULL; int type = 0, e; const char *lp; Op o;
    if (path && !path[0] && (flags & AT_EMPTY_PATH)) {
        Ofd *f = OF(dirfd); if (!f && dirfd != AT_FDCWD) { errno = EBADF; return -1; }
        lp = f ? f->path : "."; o = op_begin(OP_STAT, lp, 0); e = o.err; i = f ? f->ino : P()->cwd; type = f ? f->type : T_DIR;
    } else {
        o = op_begin(OP_STAT, path ? path : "", 0); Res r;
        e = at(dirfd, path, !(flags & AT_SYMLINK_NOFOLLOW), &r); if (o.err) e = o.err;
        strncpy(pb, r.path[0] ? r.path : (path ? path : ""), sizeof pb - 1); pb[sizeof pb - 1] = 0; lp = pb;
        if (!e && !r.ino) e = ENOENT;
        if (!e) { i = r.ino; type = i->type; }
    }
    if (!e) fill_stat(i, type, st);
    return op_end(&o, lp, 0, 0, e, 0);
}
static int do_mkdir(int dirfd, const char *path, u32 mode) {
    Op o = op_begin(OP_MKDIR, path, 0); Res r; int e = at(dirfd, path, 0, &r); if (o.err) e = o.err;
    if (!e && r.ino) e = EEXIST;
    if (!e && !may(r.parent, 0200)) e = EACCES;
    if (!e) add_dent(r.parent, r.name, strlen(r.name), new_inode(T_DIR, mode & 0777 & ~022u));
    return op_end(&o, r.path[0] ? r.path : path, 0, 0, e, 0);
}
static int do_unlink(int dirfd, const char *path, int rmdir_) {
    Op o = op_begin(rmdir_ ? OP_RMDIR : OP_UNLINK, path, 0); Res r; int e = at(dirfd, path, 0, &r); if (o.err) e = o.err;
    if (!e && !r.ino) e = ENOENT;
    if (!e && rmdir_ && r.ino->type != T_DIR) e = ENOTDIR;
    if (!e && !rmdir_ && r.ino->type == T_DIR) e = EISDIR;
    if (!e && rmdir_ && r.ino->first) e = ENOTEMPTY;
    if (!e && !r.dent) e = EBUSY;
    if (!e && !may(r.parent, 0200)) e = EACCES;
    if (!e) { if (W->disk_free >= 0 && r.ino->type == T_FILE && r.ino->nlink == 1) W->disk_free += r.ino->size; r.ino->nlink--; del_dent(r.parent, r.dent); }
    return op_end(&o, r.path[0] ? r.path : path, 0, 0, e, 0);
}
static int do_rename(int d1, const char *a, int d2, const char *b, u32 flags) {
    Op o = op_begin(OP_RENAME, a, 0); Res r, s; s.path[0] = 0; s.ino = 0;
    int e = at(d1, a, 0, &r); if (!e) e = at(d2, b, 0, &s); if (o.err) e = o.err;
    if (!e && !r.ino) e = ENOENT;
    if (!e && !r.dent) e = EBUSY;
    if (!e && (!may(r.parent, 0200) || !may(s.parent, 0200))) e = EACCES;
    if (!e && s.ino && (flags & 1)) e = EEXIST;
    if (!e && (flags & ~1u)) e = EINVAL;
    if (!e && s.ino && s.ino->type == T_DIR && r.ino->type != T_DIR) e = EISDIR;
    if (!e && s.ino && s.ino->type != T_DIR && r.ino->type == T_DIR) e = ENOTDIR;
    if (!e && s.ino && s.ino->type == T_DIR && s.ino->first && s.ino != r.ino) e = ENOTEMPTY;
    if (!e && s.ino && !s.dent) e = EBUSY;
    if (!e && r.ino->type == T_DIR) for (Inode *p = s.parent; p; p = p == W->root ? NULL : p->parent) if (p == r.ino) { e = EINVAL; break; }
    if (!e && s.ino != r.ino) {
        Inode *n = r.ino;
        if (s.dent) { s.ino->nlink--; del_dent(s.parent, s.dent); }
        del_dent(r.parent, r.dent); add_dent(s.parent, s.name, strlen(s.name), n);
    }
    strncpy(o.path2, s.path[0] ? s.path : b, sizeof o.path2 - 1);
    return op_end(&o, r.path[0] ? r.path : a, 0, 0, e, 0);
}
static int do_link(int d1, const char *a, int d2, const char *b, int flags) {
    Op o = op_begin(OP_LINK, a, 0); Res r, s; s.path[0] = 0;
    int e = at(d1, a, !!(flags & AT_SYMLINK_FOLLOW), &r); if (!e) e = at(d2, b, 0, &s); if (o.err) e = o.err;
    if (!e && !r.ino) e = ENOENT;
    if (!e && s.ino) e = EEXIST;
    if (!e && r.ino->type == T_DIR) e = EPERM;
    if (!e && !may(s.parent, 0200)) e = EACCES;
    if (!e) { r.ino->nlink++; add_dent(s.parent, s.name, strlen(s.name), r.ino); }
    strncpy(o.path2, s.path[0] ? s.path : b, sizeof o.path2 - 1);
    return op_end(&o, r.path[0] ? r.path : a, 0, 0, e, 0);
}
static int do_symlink(const char *t, int d, const char *b) {
    Op o = op_begin(OP_SYMLINK, b, 0); Res s; int e = at(d, b, 0, &s); if (o.err) e = o.err;
    if (!e && s.ino) e = EEXIST;
    if (!e && !may(s.parent, 0200)) e = EACCES;
    if (!e) { Inode *i = new_inode(T_LINK, 0777); i->size = i->cap = strlen(t); i->data = balloc(i->size + 1); memcpy(i->data, t, i->size); i->dirty = 1; add_dent(s.parent, s.name, strlen(s.name), i); }
    return op_end(&o, s.path[0] ? s.path : b, 0, 0, e, 0);
}
static long do_readlink(int d, const char *p, char *buf, size_t n) {
    Op o = op_begin(OP_READLINK, p, 0); Res r; int e = at(d, p, 0, &r); long k = -1; if (o.err) e = o.err;
    if (!e && !r.ino) e = ENOENT;
    if (!e && r.ino->type != T_LINK) e = EINVAL;
    if (!e) { k = r.ino->size < n ? r.ino->size : n; memcpy(buf, r.ino->data, k); }
    return op_end(&o, r.path[0] ? r.path : p, 0, k, e, 0);
}
static int do_chmod(int fd, int dirfd, const char *p, u32 mode, int nofollow) {
    const char *lp = p; Inode *i = 0; int e = 0; Res r; Op o;
    if (fd >= 0) { Ofd *f = OF(fd); if (!f) { errno = EBADF; return -1; } lp = f->path; o = op_begin(OP_CHMOD, lp, 0); i = f->ino; e = o.err; }
    else { o = op_begin(OP_CHMOD, p, 0); e = at(dirfd, p, !nofollow, &r); if (o.err) e = o.err; i = r.ino; if (!e && !i) e = ENOENT; if (r.path[0]) lp = r.path; }
    if (!e && i) { if (i->mode != (mode & 0777)) { i->mode = mode & 0777; i->meta_dirty |= 2; } }
    return op_end(&o, lp, 0, 0, e, mode);
}
static int do_trunc(int fd, const char *p, s64 n) {
    const char *lp = p; Inode *i = 0; int e = 0; Res r; Op o;
    if (fd >= 0) { Ofd *f = OF(fd); if (!f) { errno = EBADF; return -1; } lp = f->path; o = op_begin(OP_TRUNC, lp, 0); i = f->ino; e = o.err; if (!e && !(f->flags & O_ACCMODE)) e = EINVAL; if (!e && f->type != T_FILE) e = EINVAL; }
    else { o = op_begin(OP_TRUNC, p, 0); e = at(AT_FDCWD, p, 1, &r); if (o.err) e = o.err; i = r.ino; if (!e && !i) e = ENOENT; if (r.path[0]) lp = r.path; if (!e && i->type != T_FILE) e = EISDIR; if (!e && !may(i, 0200)) e = EACCES; }
    if (!e) { u64 take = (u64)n > i->size ? n - i->size : 0; if (W->disk_free >= 0 && (s64)take > W->disk_free) e = ENOSPC; else set_size(i, n); }
    return op_end(&o, lp, 0, 0, e, 0);
}
static int do_utime(int fd, int dirfd, const char *p, const struct timespec *ts, int nofollow) {
    const char *lp = p; Inode *i = 0; int e = 0; Res r; Op o;
    if (fd >= 0) { Ofd *f = OF(fd); if (!f) { errno = EBADF; return -1; } lp = f->path; o = op_begin(OP_UTIME, lp, 0); i = f->ino; e = o.err; }
    else { o = op_begin(OP_UTIME, p, 0); e = at(dirfd, p, !nofollow, &r); if (o.err) e = o.err; i = r.ino; if (!e && !i) e = ENOENT; if (r.path[0]) lp = r.path; }
    if (!e && i) {
        if (!ts || ts[1].tv_nsec == 0x3fffffff) touch(i);
        else if (ts[1].tv_nsec != 0x3ffffffe) { s64 g = W->cfg.gran ? W->cfg.gran : 1, t = ts[1].tv_sec * 1000000000ll + ts[1].tv_nsec; i->mtime = t - ((t % g) + g) % g; }
        i->meta_dirty |= 2;
    }
    return op_end(&o, lp, 0, 0, e, 0);
}
static int do_fdop(int op, int fd) {
    Ofd *f = OF(fd); if (!f) { errno = EBADF; return -1; }
    Op o = op_begin(op, f->path, 0); return op_end(&o, f->path, 0, 0, o.err, 0);
}
static s64 do_lseek(int fd, s64 off, int wh) {
    Ofd *f = OF(fd); if (!f) { errno = EBADF; return -1; }
    Op o = op_begin(OP_LSEEK, f->path, 0); int e = o.err; s64 n = -1;
    if (!e && (f->type != T_FILE && f->type != T_NULL)) e = ESPIPE;
    if (!e) { n = off + (wh == 1 ? (s64)f->pos : wh == 2 ? (s64)f->ino->size : 0); if (n < 0 || wh > 2) { e = EINVAL; n = -1; } else f->pos = n; }
    return op_end(&o, f->path, 0, n, e, 0);
}
static int do_access(int dirfd, const char *p, int m) {
    Op o = op_begin(OP_ACCESS, p, 0); Res r; int e = at(dirfd, p, 1, &r); if (o.err) e = o.err;
    if (!e && !r.ino) e = ENOENT;
    if (!e && ((m & 4) && !may(r.ino, 0400))) e = EACCES;
    if (!e && ((m & 2) && !may(r.ino, 0200))) e = EACCES;
    if (!e && ((m & 1) && !may(r.ino, 0100))) e = EACCES;
    return op_end(&o, r.path[0] ? r.path : p, 0, 0, e, 0);
}

// ---------------------------------------------------------------- libc symbols
static void *real(const char *n) { void *p = dlsym(RTLD_NEXT, n); if (!p) rsys(SYS_exit_group, 99, 0, 0); return p; }

EXPORT int open64(const char *p, int fl, ...) { va_list v; va_start(v, fl); u32 m = va_arg(v, u32); va_end(v); if (!SIM) return fix(rsys6(SYS_openat, AT_FDCWD, (long)p, fl, m, 0, 0)); return do_open(AT_FDCWD, p, fl, m); }
EXPORT int open(const char *p, int fl, ...) { va_list v; va_start(v, fl); u32 m = va_arg(v, u32); va_end(v); if (!SIM) return fix(rsys6(SYS_openat, AT_FDCWD, (long)p, fl, m, 0, 0)); return do_open(AT_FDCWD, p, fl, m); }
EXPORT int openat64(int d, const char *p, int fl, ...) { va_list v; va_start(v, fl); u32 m = va_arg(v, u32); va_end(v); if (!SIM) return fix(rsys6(SYS_openat, d, (long)p, fl, m, 0, 0)); return do_open(d, p, fl, m); }
EXPORT int openat(int d, const char *p, int fl, ...) { va_list v; va_start(v, fl); u32 m = va_arg(v, u32); va_end(v); if (!SIM) return fix(rsys6(SYS_openat, d, (long)p, fl, m, 0, 0)); return do_open(d, p, fl, m); }
EXPORT int creat64(const char *p, u32 m) { return open64(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat(const char *p, u32 m) { return open64(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int close(int fd) { if (!SIM) return fix(rsys(SYS_close, fd, 0, 0)); return do_close(fd); }
EXPORT ssize_t read(int fd, void *b, size_t n) { if (!SIM) return fix(rsys(SYS_read, fd, b, n)); struct iovec v = {b, n}; return do_readv(fd, &v, 1, -1); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, s64 o) { if (!SIM) return fix(rsys6(SYS_pread64, fd, (long)b, n, o, 0, 0)); struct iovec v = {b, n}; return do_readv(fd, &v, 1, o); }
EXPORT ssize_t pread(int fd, void *b, size_t n, s64 o) { return pread64(fd, b, n, o); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int n) { if (!SIM) return fix(rsys(SYS_readv, fd, v, n)); return do_readv(fd, v, n, -1); }
EXPORT ssize_t write(int fd, const void *b, size_t n) { if (!SIM) return fix(rsys(SYS_write, fd, b, n)); struct iovec v = {(void *)b, n}; return do_writev(fd, &v, 1, -1); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, s64 o) { if (!SIM) return fix(rsys6(SYS_pwrite64, fd, (long)b, n, o, 0, 0)); struct iovec v = {(void *)b, n}; return do_writev(fd, &v, 1, o); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, s64 o) { return pwrite64(fd, b, n, o); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int n) { if (!SIM) return fix(rsys(SYS_writev, fd, v, n)); return do_writev(fd, v, n, -1); }
EXPORT s64 lseek64(int fd, s64 o, int w) { if (!SIM) return fix(rsys(SYS_lseek, fd, o, w)); return do_lseek(fd, o, w); }
EXPORT s64 lseek(int fd, s64 o, int w) { return lseek64(fd, o, w); }
EXPORT int fstat64(int fd, struct stat *st) { if (!SIM) return fix(rsys(SYS_fstat, fd, st, 0)); return get_stat(fd, "", AT_EMPTY_PATH, st); }
EXPORT int fstat(int fd, struct stat *st) { return fstat64(fd, st); }
EXPORT int stat64(const char *p, struct stat *st) { if (!SIM) return fix(rsys(SYS_stat, p, st, 0)); return get_stat(AT_FDCWD, p, 0, st); }
EXPORT int stat(const char *p, struct stat *st) { return stat64(p, st); }
EXPORT int lstat64(const char *p, struct stat *st) { if (!SIM) return fix(rsys(SYS_lstat, p, st, 0)); return get_stat(AT_FDCWD, p, AT_SYMLINK_NOFOLLOW, st); }
EXPORT int lstat(const char *p, struct stat *st) { return lstat64(p, st); }
// what programs built against an older C library call
EXPORT int __xstat64(int v, const char *p, struct stat *st) { return stat64(p, st); }
EXPORT int __xstat(int v, const char *p, struct stat *st) { return stat64(p, st); }
EXPORT int __lxstat64(int v, const char *p, struct stat *st) { return lstat64(p, st); }
EXPORT int __lxstat(int v, const char *p, struct stat *st) { return lstat64(p, st); }
EXPORT int __fxstat64(int v, int fd, struct stat *st) { return fstat64(fd, st); }
EXPORT int __fxstat(int v, int fd, struct stat *st) { return fstat64(fd, st); }
EXPORT int fstatat64(int d, const char *p, struct stat *st, int fl) { if (!SIM) return fix(rsys6(SYS_newfstatat, d, (long)p, (long)st, fl, 0, 0)); return get_stat(d, p, fl, st); }
EXPORT int fstatat(int d, const char *p, struct stat *st, int fl) { return fstatat64(d, p, st, fl); }
EXPORT int statx(int d, const char *p, int fl, unsigned mask, struct statx *x) {
    if (!SIM) return fix(rsys6(SYS_statx, d, (long)p, fl, mask, (long)x, 0));
    if (!p || !x) { errno = EFAULT; return -1; } // std probes for statx this way
    struct stat st; int r = get_stat(d, p, fl, &st); if (r) return r;
    memset(x, 0, sizeof *x);
    x->stx_mask = 0x7ff; x->stx_blksize = 4096; x->stx_nlink = st.st_nlink; x->stx_uid = st.st_uid; x->stx_gid = st.st_gid; x->stx_mode = st.st_mode; x->stx_ino = st.st_ino;
    x->stx_size = st.st_size; x->stx_blocks = st.st_blocks; x->stx_dev_minor = 42;
    x->stx_mtime.tv_sec = st.st_mtime; x->stx_mtime.tv_nsec = st.st_mtime_nsec; x->stx_atime = x->stx_mtime; x->stx_ctime = x->stx_mtime;
    return 0;
}
EXPORT int mkdir(const char *p, u32 m) { if (!SIM) return fix(rsys(SYS_mkdir, p, m, 0)); return do_mkdir(AT_FDCWD, p, m); }
EXPORT int mkdirat(int d, const char *p, u32 m) { if (!SIM) return fix(rsys(SYS_mkdirat, d, p, m)); return do_mkdir(d, p, m); }
EXPORT int rmdir(const char *p) { if (!SIM) return fix(rsys(SYS_rmdir, p, 0, 0)); return do_unlink(AT_FDCWD, p, 1); }
EXPORT int unlink(const char *p) { if (!SIM) return fix(rsys(SYS_unlink, p, 0, 0)); return do_unlink(AT_FDCWD, p, 0); }
EXPORT int unlinkat(int d, const char *p, int f) { if (!SIM) return fix(rsys(SYS_unlinkat, d, p, f)); return do_unlink(d, p, !!(f & AT_REMOVEDIR)); }
EXPORT int remove(const char *p) { struct stat st; if (!SIM) { errno = ENOSYS; return -1; } if (get_stat(AT_FDCWD, p, AT_SYMLINK_NOFOLLOW, &st)) return -1; return do_unlink(AT_FDCWD, p, (st.st_mode & S_IFMT_) == 0040000); }
EXPORT int rename(const char *a, const char *b) { if (!SIM) return fix(rsys(SYS_rename, a, b, 0)); return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int renameat(int c, const char *a, int d, const char *b) { if (!SIM) return fix(rsys6(SYS_renameat2, c, (long)a, d, (long)b, 0, 0)); return do_rename(c, a, d, b, 0); }
EXPORT int renameat2(int c, const char *a, int d, const char *b, unsigned f) { if (!SIM) return fix(rsys6(SYS_renameat2, c, (long)a, d, (long)b, f, 0)); return do_rename(c, a, d, b, f); }
EXPORT int link(const char *a, const char *b) { if (!SIM) return fix(rsys(SYS_link, a, b, 0)); return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int linkat(int c, const char *a, int d, const char *b, int f) { if (!SIM) return fix(rsys6(SYS_linkat, c, (long)a, d, (long)b, f, 0)); return do_link(c, a, d, b, f); }
EXPORT int symlink(const char *a, const char *b) { if (!SIM) return fix(rsys(SYS_symlink, a, b, 0)); return do_symlink(a, AT_FDCWD, b); }
EXPORT int symlinkat(const char *a, int d, const char *b) { if (!SIM) return fix(rsys(SYS_symlinkat, a, d, b)); return do_symlink(a, d, b); }
EXPORT ssize_t readlink(const char *p, char *b, size_t n) { if (!SIM) return fix(rsys(SYS_readlink, p, b, n)); return do_readlink(AT_FDCWD, p, b, n); }
EXPORT ssize_t readlinkat(int d, const char *p, char *b, size_t n) { if (!SIM) return fix(rsys6(SYS_readlinkat, d, (long)p, (long)b, n, 0, 0)); return do_readlink(d, p, b, n); }
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t); extern void *__libc_realloc(void *, size_t); extern void __libc_free(void *); extern void *__libc_memalign(size_t, size_t);
EXPORT char *realpath(const char *p, char *out) {
    if (!SIM) { static char *(*f)(const char *, char *); if (!f) f = real("realpath"); return f(p, out); }
    if (!p) { errno = EINVAL; return NULL; }
    Op o = op_begin(OP_REALPATH, p, 0); Res r; int e = at(AT_FDCWD, p, 1, &r); if (o.err) e = o.err;
    if (!e && !r.ino) e = ENOENT;
    char *res = NULL;
    if (!e) { res = out ? out : __libc_malloc(4096); strcpy(res, r.path); }
    op_end(&o, r.path[0] ? r.path : p, 0, 0, e, 0);
    return res;
}
EXPORT char *getcwd(char *b, size_t n) {
    if (!SIM) { long r = rsys(SYS_getcwd, b, n, 0); if (r < 0) { errno = -r; return NULL; } return b; }
    char t[4608]; dirpath(P()->cwd, t); size_t l = strlen(t) + 1; Op o = op_begin(OP_GETCWD, t, 0);
    if (!b) b = __libc_malloc(n ? n : 4096), n = n ? n : 4096;
    int e = o.err ? o.err : l > n ? ERANGE : 0; if (!e) memcpy(b, t, l);
    return op_end(&o, t, 0, 0, e, 0) ? NULL : b;
}
EXPORT int chdir(const char *p) { if (!SIM) return fix(rsys(SYS_chdir, p, 0, 0)); Op o = op_begin(OP_CHDIR, p, 0); Res r; int e = at(AT_FDCWD, p, 1, &r); if (o.err) e = o.err; if (!e && !r.ino) e = ENOENT; if (!e && r.ino->type != T_DIR) e = ENOTDIR; if (!e) P()->cwd = r.ino; return op_end(&o, r.path, 0, 0, e, 0); }
EXPORT int fchdir(int fd) { if (!SIM) return fix(rsys(SYS_fchdir, fd, 0, 0)); int e = 0; Inode *i = base_of(fd, &e); if (!i) { errno = e; return -1; } P()->cwd = i; return 0; }
EXPORT int access(const char *p, int m) { if (!SIM) return fix(rsys(SYS_access, p, m, 0)); return do_access(AT_FDCWD, p, m); }
EXPORT int faccessat(int d, const char *p, int m, int f) { if (!SIM) return fix(rsys(SYS_faccessat, d, p, m)); return do_access(d, p, m); }
EXPORT int euidaccess(const char *p, int m) { return access(p, m); }
EXPORT int eaccess(const char *p, int m) { return access(p, m); }
EXPORT int chmod(const char *p, u32 m) { if (!SIM) return fix(rsys(SYS_chmod, p, m, 0)); return do_chmod(-1, AT_FDCWD, p, m, 0); }
EXPORT int fchmod(int fd, u32 m) { if (!SIM) return fix(rsys(SYS_fchmod, fd, m, 0)); return do_chmod(fd, 0, "", m, 0); }
EXPORT int fchmodat(int d, const char *p, u32 m, int f) { if (!SIM) return fix(rsys(SYS_fchmodat, d, p, m)); return do_chmod(-1, d, p, m, !!(f & AT_SYMLINK_NOFOLLOW)); }
EXPORT int chown(const char *p, u32 a, u32 b) { return SIM ? 0 : fix(rsys(SYS_chown, p, a, b)); }
EXPORT int lchown(const char *p, u32 a, u32 b) { return SIM ? 0 : fix(rsys(SYS_lchown, p, a, b)); }
EXPORT int fchown(int fd, u32 a, u32 b) { return SIM ? 0 : fix(rsys(SYS_fchown, fd, a, b)); }
EXPORT int fchownat(int d, const char *p, u32 a, u32 b, int f) { return SIM ? 0 : fix(rsys6(SYS_fchownat, d, (long)p, a, b, f, 0)); }
EXPORT int truncate64(const char *p, s64 n) { if (!SIM) return fix(rsys(SYS_truncate, p, n, 0)); return do_trunc(-1, p, n); }
EXPORT int truncate(const char *p, s64 n) { return truncate64(p, n); }
EXPORT int ftruncate64(int fd, s64 n) { if (!SIM) return fix(rsys(SYS_ftruncate, fd, n, 0)); return do_trunc(fd, "", n); }
EXPORT int ftruncate(int fd, s64 n) { return ftruncate64(fd, n); }
EXPORT int fallocate64(int fd, int m, s64 o, s64 n) { if (!SIM) return fix(rsys6(SYS_fallocate, fd, m, o, n, 0, 0)); errno = EOPNOTSUPP; return -1; }
EXPORT int fallocate(int fd, int m, s64 o, s64 n) { return fallocate64(fd, m, o, n); }
EXPORT int posix_fallocate64(int fd, s64 o, s64 n) { return SIM ? EOPNOTSUPP : ENOSYS; }
EXPORT int posix_fadvise64(int fd, s64 o, s64 n, int a) { return 0; }
EXPORT int posix_fadvise(int fd, s64 o, s64 n, int a) { return 0; }
EXPORT int fsync(int fd) { if (!SIM) return fix(rsys(SYS_fsync, fd, 0, 0)); return do_fdop(OP_FSYNC, fd); }
EXPORT int fdatasync(int fd) { if (!SIM) return fix(rsys(SYS_fdatasync, fd, 0, 0)); return do_fdop(OP_FSYNC, fd); }
EXPORT void sync(void) { if (!SIM) rsys(SYS_sync, 0, 0, 0); }
EXPORT int syncfs(int fd) { return SIM ? do_fdop(OP_FSYNC, fd) : fix(rsys(SYS_syncfs, fd, 0, 0)); }
EXPORT int flock(int fd, int op) { if (!SIM) return fix(rsys(SYS_flock, fd, op, 0)); return do_fdop(OP_FLOCK, fd); }
EXPORT int utimensat(int d, const char *p, const struct timespec *ts, int f) { if (!SIM) return fix(rsys6(SYS_utimensat, d, (long)p, (long)ts, f, 0, 0)); if (!p) return do_utime(d, 0, "", ts, 0); return do_utime(-1, d, p, ts, !!(f & AT_SYMLINK_NOFOLLOW)); }
EXPORT int futimens(int fd, const struct timespec *ts) { if (!SIM) return fix(rsys6(SYS_utimensat, fd, 0, (long)ts, 0, 0, 0)); return do_utime(fd, 0, "", ts, 0); }
EXPORT int utimes(const char *p, const struct timeval *tv) { if (!SIM) return fix(rsys(SYS_utimes, p, tv, 0)); struct timespec t[2]; if (tv) for (int i = 0; i < 2; i++) t[i].tv_sec = tv[i].tv_sec, t[i].tv_nsec = tv[i].tv_usec * 1000; return do_utime(-1, AT_FDCWD, p, tv ? t : NULL, 0); }

typedef struct { u64 magic; int fd; int n, i; Dent **e; Inode *d; struct dirent64 ent; } SimDir;
static SimDir *dir_from(int fd) {
    Ofd *f = OF(fd); SimDir *s = balloc(sizeof *s); s->magic = 0xD1D1; s->fd = fd; s->i = -2; s->d = f->ino; s->n = 0;
    for (Dent *e = f->ino->first; e; e = e->next) s->n++;
    s->e = balloc(s->n * sizeof(Dent *) + 16); int k = 0; for (Dent *e = f->ino->first; e; e = e->next) s->e[k++] = e;
    if (W->cfg.readdir_mode == 1) for (int a = 0, b = s->n - 1; a < b; a++, b--) { Dent *t = s->e[a]; s->e[a] = s->e[b]; s->e[b] = t; }
    if (W->cfg.readdir_mode == 2) for (int a = s->n - 1; a > 0; a--) { int b = rnd(&W->rng_dir) % (a + 1); Dent *t = s->e[a]; s->e[a] = s->e[b]; s->e[b] = t; }
    return s;
}
EXPORT DIR *opendir(const char *p) {
    if (!SIM) { static DIR *(*f)(const char *); if (!f) f = real("opendir"); return f(p); }
    int fd = do_open(AT_FDCWD, p, O_DIRECTORY, 0); if (fd < 0) return NULL; return (DIR *)dir_from(fd);
}
EXPORT DIR *fdopendir(int fd) {
    if (!SIM) { static DIR *(*f)(int); if (!f) f = real("fdopendir"); return f(fd); }
    Ofd *f = OF(fd); if (!f) { errno = EBADF; return NULL; } if (f->type != T_DIR) { errno = ENOTDIR; return NULL; } return (DIR *)dir_from(fd);
}
EXPORT struct dirent64 *readdir64(DIR *dp) {
    if (!SIM) { static struct dirent64 *(*f)(DIR *); if (!f) f = real("readdir64"); return f(dp); }
    SimDir *s = (SimDir *)dp; Ofd *f = OF(s->fd); Op o = op_begin(OP_READDIR, f ? f->path : "", 0);
    if (o.err) { op_end(&o, f ? f->path : "", 0, 0, o.err, 0); return NULL; }
    struct dirent64 *r = NULL; int keep = errno;
    if (s->i < s->n) {
        r = &s->ent; memset(r, 0, sizeof *r);
        if (s->i < 0) { strcpy(r->d_name, s->i == -2 ? "." : ".."); r->d_type = DT_DIR_; r->d_ino = s->d->ino; }
        else { Dent *e = s->e[s->i]; memcpy(r->d_name, e->name, e->namelen); r->d_ino = e->ino->ino; r->d_type = e->ino->type == T_DIR ? DT_DIR_ : e->ino->type == T_LINK ? DT_LNK_ : DT_REG_; }
        r->d_reclen = sizeof *r; s->i++; r->d_off = s->i + 3;
    }
    op_end(&o, f ? f->path : "", 0, r != NULL, 0, 0); errno = keep;
    return r;
}
EXPORT struct dirent *readdir(DIR *dp) { return (struct dirent *)readdir64(dp); }
EXPORT void rewinddir(DIR *dp) { if (SIM) ((SimDir *)dp)->i = -2; }
EXPORT int closedir(DIR *dp) { if (!SIM) { static int (*f)(DIR *); if (!f) f = real("closedir"); return f(dp); } return do_close(((SimDir *)dp)->fd); }
EXPORT int dirfd(DIR *dp) { if (!SIM) { static int (*f)(DIR *); if (!f) f = real("dirfd"); return f(dp); } return ((SimDir *)dp)->fd; }

EXPORT int dup(int fd) { if (!SIM) return fix(rsys(SYS_dup, fd, 0, 0)); return fix(dup_fd(fd, 0)); }
EXPORT int dup2(int fd, int n) { if (!SIM) return fix(rsys(SYS_dup2, fd, n, 0)); Ofd *f = OF(fd); if (!f || n < 0 || n >= MAXFD) { errno = EBADF; return -1; } if (n == fd) return n; if (OF(n)) { OF(n)->refs--; } while (n >= P()->nfd) FD[P()->nfd++] = -1; FD[n] = FD[fd]; f->refs++; return n; }
EXPORT int dup3(int fd, int n, int fl) { return dup2(fd, n); }
EXPORT int fcntl64(int fd, int cmd, ...) {
    va_list v; va_start(v, cmd); long a = va_arg(v, long); va_end(v); if (!SIM) return fix(rsys(SYS_fcntl, fd, cmd, a));
    Ofd *f = OF(fd); if (!f) { errno = EBADF; return -1; }
    switch (cmd) { case 0: case 1030: return fix(dup_fd(fd, a)); case 1: return 1; case 2: return 0; case 3: return f->flags; case 4: f->flags = (f->flags & ~O_APPEND) | (a & O_APPEND); return 0; case 5: case 6: case 7: case 36: case 37: case 38: return 0; }
    errno = EINVAL; return -1;
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list v; va_start(v, cmd); long a = va_arg(v, long); va_end(v); return fcntl64(fd, cmd, a); }
EXPORT int isatty(int fd) { if (!SIM) { errno = ENOTTY; return 0; } errno = OF(fd) ? ENOTTY : EBADF; return 0; }
EXPORT int ioctl(int fd, unsigned long rq, ...) { va_list v; va_start(v, rq); long a = va_arg(v, long); va_end(v); if (!SIM) return fix(rsys(SYS_ioctl, fd, rq, a)); errno = ENOTTY; return -1; }
EXPORT int poll(struct pollfd *f, nfds_t n, int to) { if (!SIM) return fix(rsys(SYS_poll, f, n, to)); int r = 0; for (nfds_t i = 0; i < n; i++) { f[i].revents = OF(f[i].fd) ? 0 : POLLNVAL; r += !!f[i].revents; } return r; }
EXPORT ssize_t copy_file_range(int a, s64 *oa, int b, s64 *ob, size_t n, unsigned fl) { if (!SIM) return fix(rsys6(SYS_copy_file_range, a, (long)oa, b, (long)ob, n, fl)); return do_copy(a, oa, b, ob, n, 0); }
EXPORT ssize_t sendfile64(int out, int in, s64 *o, size_t n) { if (!SIM) return fix(rsys6(SYS_sendfile, out, in, (long)o, n, 0, 0)); return do_copy(in, o, out, NULL, n, 1); }
EXPORT ssize_t sendfile(int out, int in, s64 *o, size_t n) { return sendfile64(out, in, o, n); }
EXPORT ssize_t splice(int a, s64 *oa, int b, s64 *ob, size_t n, unsigned fl) { if (!SIM) return fix(rsys6(SYS_splice, a, (long)oa, b, (long)ob, n, fl)); errno = EINVAL; return -1; }
EXPORT int statfs64(const char *p, void *b) { if (!SIM) return fix(rsys(SYS_statfs, p, b, 0)); errno = ENOSYS; return -1; }
EXPORT int fstatfs64(int fd, void *b) { if (!SIM) return fix(rsys(SYS_fstatfs, fd, b, 0)); errno = ENOSYS; return -1; }
EXPORT u32 umask(u32 m) { return SIM ? 022 : rsys(SYS_umask, m, 0, 0); }
EXPORT void *mmap64(void *a, size_t n, int pr, int fl, int fd, s64 o) { if (SIM && fd >= 0 && !(fl & MAP_ANONYMOUS)) { errno = ENODEV; return MAP_FAILED; } return (void *)fix(rsys6(SYS_mmap, (long)a, n, pr, fl, fd, o)); }
EXPORT void *mmap(void *a, size_t n, int pr, int fl, int fd, s64 o) { return mmap64(a, n, pr, fl, fd, o); }
// mknod, pipes, sockets and other programs do not exist in the simulated world
EXPORT int mknod(const char *p, u32 m, u64 d) { errno = SIM ? EPERM : ENOSYS; return -1; }
EXPORT int mkfifo(const char *p, u32 m) { errno = SIM ? EPERM : ENOSYS; return -1; }
EXPORT int pipe(int *p) { if (!SIM) return fix(rsys(SYS_pipe, p, 0, 0)); errno = EMFILE; return -1; }
EXPORT int pipe2(int *p, int f) { if (!SIM) return fix(rsys(SYS_pipe2, p, f, 0)); errno = EMFILE; return -1; }
EXPORT int socket(int a, int b, int c) { if (!SIM) return fix(rsys(SYS_socket, a, b, c)); errno = EACCES; return -1; }
EXPORT pid_t fork(void) { if (SIM) { errno = EAGAIN; return -1; } static pid_t (*f)(void); if (!f) f = real("fork"); return f(); }
EXPORT pid_t vfork(void) { errno = EAGAIN; return -1; }
EXPORT int execve(const char *p, char *const a[], char *const e[]) { if (SIM) { errno = EACCES; return -1; } return fix(rsys(SYS_execve, p, a, e)); }
EXPORT int execvp(const char *p, char *const a[]) { errno = EACCES; return -1; }
EXPORT int execv(const char *p, char *const a[]) { errno = EACCES; return -1; }
EXPORT int posix_spawn(pid_t *p, const char *q, const void *a, const void *b, char *const c[], char *const d[]) { return EAGAIN; }
EXPORT int posix_spawnp(pid_t *p, const char *q, const void *a, const void *b, char *const c[], char *const d[]) { return EAGAIN; }
EXPORT int system(const char *c) { errno = EAGAIN; return -1; }
EXPORT int kill(pid_t p, int s) { if (!SIM) return fix(rsys(SYS_kill, p, s, 0)); if (p == 0 || p == W->proc[g_proc].pid) { if (s) die_self(s); return 0; } errno = ESRCH; return -1; }

// stdio streams on simulated files (libxml2 writes through them)
typedef struct { u64 magic; int fd; } Stream;
typedef struct { ssize_t (*r)(void *, char *, size_t); ssize_t (*w)(void *, const char *, size_t); int (*s)(void *, s64 *, int); int (*c)(void *); } Cookie;
extern void *fopencookie(void *, const char *, Cookie);
static ssize_t st_read(void *c, char *b, size_t n) { struct iovec v = {b, n}; return do_readv(((Stream *)c)->fd, &v, 1, -1); }
static ssize_t st_write(void *c, const char *b, size_t n) { size_t k = 0; while (k < n) { struct iovec v = {(void *)(b + k), n - k}; ssize_t r = do_writev(((Stream *)c)->fd, &v, 1, -1); if (r <= 0) break; k += r; } return k; } // as glibc's own streams do
static int st_seek(void *c, s64 *o, int w) { s64 r = do_lseek(((Stream *)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int st_close(void *c) { return do_close(((Stream *)c)->fd); }
EXPORT void *fopen64(const char *p, const char *m) {
    if (!SIM) { static void *(*f)(const char *, const char *); if (!f) f = real("fopen64"); return f(p, m); }
    int plus = !!strchr(m, '+'), fl = *m == 'r' ? (plus ? O_RDWR : 0) : (plus ? O_RDWR : O_WRONLY) | O_CREAT | (*m == 'a' ? O_APPEND : O_TRUNC);
    if (strchr(m, 'x')) fl |= O_EXCL;
    int fd = do_open(AT_FDCWD, p, fl, 0666); if (fd < 0) return NULL;
    Stream *s = balloc(sizeof *s); s->magic = 0xF11E; s->fd = fd;
    Cookie io = {st_read, st_write, st_seek, st_close};
    return fopencookie(s, m, io);
}
EXPORT void *fopen(const char *p, const char *m) { return fopen64(p, m); }

// time
static void from_ns(s64 n, struct timespec *t) { s64 s = n / 1000000000, r = n % 1000000000; if (r < 0) { r += 1000000000; s--; } t->tv_sec = s; t->tv_nsec = r; }
EXPORT int clock_gettime(clockid_t c, struct timespec *t) {
    if (!SIM) return fix(rsys(SYS_clock_gettime, c, t, 0));
    W->now += 50; from_ns(c == CLOCK_REALTIME || c == 5 ? wallclock() : (s64)W->now, t); return 0;
}
EXPORT int clock_getres(clockid_t c, struct timespec *t) { if (t) { t->tv_sec = 0; t->tv_nsec = 1; } return 0; }
EXPORT int gettimeofday(struct timeval *tv, void *z) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (tv) { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; } return 0; }
EXPORT time_t time(time_t *o) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (o) *o = t.tv_sec; return t.tv_sec; }
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *rem) {
    if (!SIM) return -rsys6(SYS_clock_nanosleep, c, fl, (long)t, (long)rem, 0, 0);
    s64 v = t->tv_sec * 1000000000ll + t->tv_nsec; s64 dl = (fl & 1) ? (c == CLOCK_REALTIME ? v - W->wall_off : v) : (s64)W->now + v;
    sim_sleep(dl < 0 ? 0 : dl); return 0;
}
EXPORT int nanosleep(const struct timespec *t, struct timespec *rem) { if (!SIM) return fix(rsys(SYS_nanosleep, t, rem, 0)); return clock_nanosleep(CLOCK_MONOTONIC, 0, t, rem); }
EXPORT int usleep(u32 us) { struct timespec t = {us / 1000000, (us % 1000000) * 1000}; return nanosleep(&t, NULL); }
EXPORT unsigned sleep(unsigned s) { struct timespec t = {s, 0}; nanosleep(&t, NULL); return 0; }

// identity, randomness, cpus
EXPORT pid_t getpid(void) { return SIM ? P()->pid : rsys(SYS_getpid, 0, 0, 0); }
EXPORT pid_t getppid(void) { return SIM ? 1 : rsys(SYS_getppid, 0, 0, 0); }
EXPORT pid_t gettid(void) { return SIM ? (t_task < MAXPROC && W->task[t_task].id < W->nproc ? P()->pid : P()->pid + 1000 + t_task) : rsys(SYS_gettid, 0, 0, 0); }
EXPORT u32 getuid(void) { return SIM ? 1000 : rsys(SYS_getuid, 0, 0, 0); }
EXPORT u32 geteuid(void) { return SIM ? 1000 : rsys(SYS_geteuid, 0, 0, 0); }
EXPORT u32 getgid(void) { return SIM ? 1000 : rsys(SYS_getgid, 0, 0, 0); }
EXPORT u32 getegid(void) { return SIM ? 1000 : rsys(SYS_getegid, 0, 0, 0); }
static void rand_fill(void *b, size_t n) { u8 *p = b; while (n) { u64 v = rnd(&W->rng_hash); size_t k = n < 8 ? n : 8; memcpy(p, &v, k); p += k; n -= k; } }
EXPORT ssize_t getrandom(void *b, size_t n, unsigned f) { if (!SIM) return fix(rsys(SYS_getrandom, b, n, f)); rand_fill(b, n); return n; }
EXPORT int getentropy(void *b, size_t n) { if (!SIM) return fix(rsys(SYS_getrandom, b, n, 0)) < 0 ? -1 : 0; rand_fill(b, n); return 0; }
EXPORT int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) { if (!SIM) { long r = rsys(SYS_sched_getaffinity, p, n, s); if (r < 0) { errno = -r; return -1; } if ((size_t)r < n) memset((char *)s + r, 0, n - r); return 0; } memset(s, 0, n); for (u64 i = 0; i < W->cfg.ncpu && i / 8 < n; i++) ((u8 *)s)[i / 8] |= 1 << (i % 8); return 0; }
EXPORT long sysconf(int n) { static long (*f)(int); if (!f) f = real("sysconf"); if (SIM && (n == 83 || n == 84)) return W->cfg.ncpu; return f(n); }
EXPORT int sched_yield(void) { if (!SIM) return rsys(SYS_sched_yield, 0, 0, 0); W->now += 100; W->syncops++; sched_point(K_YIELD); return 0; }
EXPORT int sched_getcpu(void) { return 0; }

EXPORT long syscall(long n, ...) {
    va_list v; va_start(v, n); long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long); va_end(v);
    if (!SIM) return fix(rsys6(n, a, b, c, d, e, f));
    switch (n) {
    case SYS_futex: return fix(do_futex((u32 *)a, b, c, (const struct timespec *)d, f));
    case SYS_getrandom: return getrandom((void *)a, b, c);
    case SYS_gettid: return gettid();
    case SYS_sched_yield: return sched_yield();
    case SYS_statx: return statx(a, (const char *)b, c, d, (struct statx *)e);
    case SYS_copy_file_range: return copy_file_range(a, (s64 *)b, c, (s64 *)d, e, f);
    case SYS_membarrier: return fix(rsys(n, a, b, c));
    case SYS_renameat2: return renameat2(a, (const char *)b, c, (const char *)d, e);
    case SYS_openat: return do_open(a, (const char *)b, c, d);
    }
    note("unmodelled raw system call"); errno = ENOSYS; return -1;
}

// allocation: counted, can fail, and chosen allocations are preemption points
static int alloc_hook(size_t n) {
    u64 k = ++W->allocs; W->now += W->cfg.alloc_ns;
    if (k > W->cfg.alloc_cap) { set_verdict(V_ALLOCCAP, "allocation cap"); die_self(SIGKILL); }
    if (W->allocpt_i < W->nallocpt && W->allocpt[W->allocpt_i] <= k) { while (W->allocpt_i < W->nallocpt && W->allocpt[W->allocpt_i] <= k) W->allocpt_i++; int e = errno; sched_point(K_ALLOC); errno = e; }
    if (k >= W->cfg.alloc_fail_from && k <= W->cfg.alloc_fail_to) { W->alloc_failed++; errno = ENOMEM; return 1; }
    if (n > (1ull << 31)) { errno = ENOMEM; return 1; }
    return 0;
}
EXPORT void *malloc(size_t n) { if (SIM && alloc_hook(n)) return NULL; return __libc_malloc(n); }
EXPORT void *calloc(size_t a, size_t b) { if (SIM && alloc_hook(a * b)) return NULL; return __libc_calloc(a, b); }
EXPORT void *realloc(void *p, size_t n) { if (SIM && alloc_hook(n)) return NULL; return __libc_realloc(p, n); }
EXPORT void free(void *p) { __libc_free(p); }
EXPORT int posix_memalign(void **o, size_t al, size_t n) { if (SIM && alloc_hook(n)) return ENOMEM; void *p = __libc_memalign(al, n); if (!p) return ENOMEM; *o = p; return 0; }
EXPORT void *aligned_alloc(size_t al, size_t n) { void *p; return posix_memalign(&p, al, n) ? NULL : p; }

// svdtools' own code, compiled with a callback at every branch, load and store (rustc-wrap.sh):
// counted, and chosen ones are preemption points. What threads can share without a lock or an
// allocation in between lies in the program's static data or on the main thread's stack.
static char *static_lo, *static_hi, *relro_lo, *relro_hi, *stack_hi;
static void code_point(void) {
    u64 k = ++W->code;
    if (k > W->cfg.code_cap) { set_verdict(V_ALLOCCAP, "runaway computation"); die_self(SIGKILL); }
    if (W->codept_i < W->ncodept && W->codept[W->codept_i] <= k) { while (W->codept_i < W->ncodept && W->codept[W->codept_i] <= k) W->codept_i++; int e = errno; sched_point(K_ALLOC); errno = e; }
}
static void access_point(char *a) {
    if ((a >= static_lo && a < static_hi && !(a >= relro_lo && a < relro_hi)) || (a < stack_hi && a > stack_hi - (8 << 20) && t_task >= W->nproc)) {
        W->shared++;
        if (W->cfg.flags & FL_SHARED) { int e = errno; W->steps--; sched_point(K_SYNC); errno = e; }
    }
    code_point();
}
EXPORT void __sanitizer_cov_trace_pc_guard_init(u32 *a, u32 *b) {}
EXPORT void __sanitizer_cov_trace_pc_guard(u32 *g) { if (SIM) code_point(); }
#define ACC(n) EXPORT void __sanitizer_cov_load##n(void *a) { if (SIM) access_point(a); } EXPORT void __sanitizer_cov_store##n(void *a) { if (SIM) access_point(a); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
static int find_static(struct dl_phdr_info *i, size_t n, void *v) {
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr) *h = &i->dlpi_phdr[k]; char *a = (char *)i->dlpi_addr + h->p_vaddr;
        if (h->p_type == PT_LOAD && (h->p_flags & PF_W)) { if (!static_lo || a < static_lo) static_lo = a; if (a + h->p_memsz > static_hi) static_hi = a + h->p_memsz; }
        if (h->p_type == PT_GNU_RELRO) { relro_lo = a; relro_hi = a + h->p_memsz; }
    }
    return 1; // the program itself comes first
}

// another layout of the heap: holes of many sizes, in random order
static void shake_heap(u64 s) {
    void *p[400];
    for (int k = 0; k < 400; k++) p[k] = __libc_malloc(rnd(&s) % 6 ? 8 + rnd(&s) % 300 : rnd(&s) % 70000);
    for (int k = 399; k > 0; k--) { int j = rnd(&s) % (k + 1); void *t = p[k]; p[k] = p[j]; p[j] = t; }
    for (int k = 0; k < 250; k++) __libc_free(p[k]);
}

// threads
static pthread_key_t exit_key; static int exit_rounds[MAXTASK]; static pthread_t thr_of[MAXTASK];
static void thread_done(void *v) {
    int id = (int)(intptr_t)v - 1;
    if (++exit_rounds[id] < 4) { pthread_setspecific(exit_key, v); return; } // run after all other destructors
    Task *self = &W->task[id];
    self->state = DONE; mix(0xE0 + id);
    for (int i = 0; i < W->ntask; i++) if (W->task[i].state == BLOCKED && W->task[i].join == id) { W->task[i].state = RUNNABLE; W->task[i].join = -1; }
    Task *n = choose(self, K_BLOCK);
    t_task = -1;
    if (!n) { set_verdict(V_DEADLOCK, "all threads blocked"); die_self(SIGKILL); }
    hand_to(n);
}
typedef struct { void *(*fn)(void *); void *arg; int id; } Start;
static void *trampoline(void *v) {
    Start s = *(Start *)v;
    await_baton(&W->task[s.id]);
    t_task = s.id;
    pthread_setspecific(exit_key, (void *)(intptr_t)(s.id + 1));
    return s.fn(s.arg);
}
// reported so that a crash caused by what a caller does after this fails can be recognised
EXPORT int pthread_getattr_np(pthread_t t, pthread_attr_t *a) {
    static int (*f)(pthread_t, pthread_attr_t *); if (!f) f = real("pthread_getattr_np");
    u64 before = SIM ? W->alloc_failed : 0;
    int r = f(t, a);
    if (SIM && r && W->alloc_failed > before) W->attr_failed++;
    return r;
}
EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *at_, void *(*fn)(void *), void *arg) {
    static int (*f)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); if (!f) f = real("pthread_create");
    if (!SIM) return f(t, at_, fn, arg);
    W->creates++;
    if (W->creates >= W->cfg.thread_fail_from && W->creates <= W->cfg.thread_fail_to) { W->threads_failed++; return EAGAIN; }
    if (W->ntask >= MAXTASK) return EAGAIN;
    int id = W->ntask++; Task *n = &W->task[id]; memset(n, 0, sizeof *n);
    n->id = id; n->proc = g_proc; n->state = RUNNABLE; n->deadline = -1; n->join = -1; n->prio = rnd(&W->rng_sched) % 1000;
    Start *s = balloc(sizeof *s); s->fn = fn; s->arg = arg; s->id = id; exit_rounds[id] = 0;
    int me = t_task; t_task = -1; int r = f(t, at_, trampoline, s); t_task = me;
    if (r) { harness("real thread creation failed"); }
    thr_of[id] = *t;
    sched_point(K_SYNC);
    return 0;
}
EXPORT int pthread_join(pthread_t t, void **rv) {
    static int (*f)(pthread_t, void **); if (!f) f = real("pthread_join");
    if (!SIM) return f(t, rv);
    Task *self = &W->task[t_task]; int id = -1;
    for (int i = W->nproc; i < W->ntask; i++) if (W->task[i].proc == g_proc && thr_of[i] == t) id = i;
    if (id >= 0) while (W->task[id].state != DONE) { self->join = id; self->deadline = -1; self->faddr = 0; self->state = BLOCKED; block_self(); }
    return f(t, rv);
}

// ---------------------------------------------------------------- fork server
static int xread(int fd, void *b, u64 n) { u8 *p = b; while (n) { long r = rsys(SYS_read, fd, p, n > (1u << 30) ? (1u << 30) : n); if (r == -EINTR) continue; if (r <= 0) return -1; p += r; n -= r; } return 0; }
static int xwrite(int fd, const void *b, u64 n) { const u8 *p = b; while (n) { long r = rsys(SYS_write, fd, p, n > (1u << 30) ? (1u << 30) : n); if (r == -EINTR) continue; if (r <= 0) return -1; p += r; n -= r; } return 0; }
typedef struct { u8 *p, *e; } In;
static u64 g64(In *i) { u64 v = 0; if (i->p + 8 <= i->e) memcpy(&v, i->p, 8); i->p += 8; return v; }
static u8 *gbytes(In *i, u64 *len) { *len = g64(i); u8 *p = i->p; if (*len > (u64)(i->e - i->p)) rsys(SYS_exit_group, 98, 0, 0); i->p += *len; return p; }
static char *gstr(In *i) { u64 l; u8 *p = gbytes(i, &l); char *s = balloc(l + 1); memcpy(s, p, l); s[l] = 0; return s; }

static void build_world(In *in, u8 *arena_data, u8 *arena_end, u8 *logbuf) {
    memset(W, 0, offsetof(World, ofd));
    W->bump = arena_data; W->bump_end = arena_end; W->log = logbuf;
    memcpy(&W->cfg, in->p, sizeof(Cfg)); in->p += sizeof(Cfg);
    W->now = W->cfg.mono0; W->wall_off = (s64)W->cfg.wall0 - (s64)W->cfg.mono0;
    W->rng_hash = W->cfg.hash_seed; W->rng_sched = W->cfg.sched_seed; W->rng_fault = W->cfg.fault_seed; W->rng_time = W->cfg.time_seed; W->rng_ino = W->cfg.ino_seed; W->rng_dir = W->cfg.ino_seed ^ 0x1234;
    W->disk_free = -1; W->starve = -1; W->syshash = 0xcbf29ce484222325ull;
    W->root = new_inode(T_DIR, 0755); W->root->created = 0;
    W->capsw = 1 << 16; W->sw = balloc(W->capsw * sizeof(Switch)); W->capfired = 1 << 14; W->fired = balloc(W->capfired * sizeof(Fired));
    u64 n = g64(in);
    for (u64 i = 0; i < n; i++) {
        u64 type = g64(in), mode = g64(in); s64 mt = g64(in); char *path = gstr(in); u64 l; u8 *d = gbytes(in, &l);
        Res r; int e = resolve(W->root, path, 0, &r); if (e || r.ino || !r.parent) { set_verdict(V_HARNESS, "bad image"); strncat(W->msg, path, 200); continue; }
        Inode *x = new_inode(type, mode); x->created = 0;
        if (type == T_FILE || type == T_LINK) { x->data = balloc(l + 1); memcpy(x->data, d, l); x->size = x->cap = l; }
        add_dent(r.parent, r.name, strlen(r.name), x); x->mtime = x->ctime = mt; x->lpath = path;
    }
    for (int i = 0; i < W->ninode; i++) { Inode *x = &W->inode[i]; x->meta_dirty = 0; }
    W->nproc = g64(in);
    for (int p = 0; p < W->nproc; p++) {
        Proc *q = &W->proc[p]; q->alive = 1; q->pid = W->cfg.pid_base + (W->cfg.flags & FL_SAME_PID ? 0 : p);
        q->argc = g64(in); q->argv = balloc((q->argc + 1) * 8); for (int i = 0; i < q->argc; i++) q->argv[i] = gstr(in); q->argv[q->argc] = NULL;
        u64 ne = g64(in); q->env = balloc((ne + 1) * 8); for (u64 i = 0; i < ne; i++) q->env[i] = gstr(in); q->env[ne] = NULL;
        char *cwd = gstr(in); Res r; if (resolve(W->root, cwd, 1, &r) || !r.ino) { set_verdict(V_HARNESS, "bad cwd"); q->cwd = W->root; } else q->cwd = r.ino;
        g_proc = p; q->nfd = 3;
        FD[0] = new_ofd(NULL, T_STDIN, 0, "<stdin>"); FD[1] = new_ofd(NULL, T_OUT, 1, "<stdout>"); FD[2] = new_ofd(NULL, T_ERR, 1, "<stderr>");
        Task *t = &W->task[p]; t->id = p; t->proc = p; t->state = RUNNABLE; t->deadline = -1; t->join = -1; t->prio = rnd(&W->rng_sched) % 1000;
    }
    W->ntask = W->nproc;
    n = g64(in); for (u64 i = 0; i < n; i++) { if (i < MAXFAULT) { memcpy(&W->fault[i], in->p, sizeof(Fault)); W->nfault = i + 1; } in->p += sizeof(Fault); }
    n = g64(in); for (u64 i = 0; i < n; i++) { u64 l; u8 *d = gbytes(in, &l); u8 *q = balloc(l + 1); memcpy(q, d, l); if (i < 256) { W->blob[i].p = q; W->blob[i].len = l; W->nblob = i + 1; } }
    W->ntrace = g64(in); W->trace = balloc(W->ntrace * sizeof(Switch)); memcpy(W->trace, in->p, W->ntrace * sizeof(Switch)); in->p += W->ntrace * sizeof(Switch);
    W->nallocpt = g64(in); W->allocpt = balloc(W->nallocpt * 8); memcpy(W->allocpt, in->p, W->nallocpt * 8); in->p += W->nallocpt * 8;
    W->ncodept = g64(in); W->codept = balloc(W->ncodept * 8); memcpy(W->codept, in->p, W->ncodept * 8); in->p += W->ncodept * 8;
}
static void p64(Buf *b, u64 v) { buf_put(b, &v, 8); }
static void pbytes(Buf *b, const void *p, u64 n) { p64(b, n); buf_put(b, p, n); }
static void emit(Buf *b, Inode *d, char *path, u64 *count) {
    size_t l = strlen(path);
    for (Dent *e = d->first; e; e = e->next) {
        Inode *i = e->ino; path[l] = '/'; memcpy(path + l + 1, e->name, e->namelen + 1);
        int moved = !i->lpath || strcmp(i->lpath, path), send = (i->type == T_FILE || i->type == T_LINK) && (i->dirty || i->created || moved);
        p64(b, i->type); p64(b, i->mode); p64(b, i->mtime); p64(b, i->ino); p64(b, i->dirty | (i->meta_dirty << 8) | ((u64)i->created << 16) | ((u64)moved << 24) | ((u64)send << 32)); pbytes(b, path, strlen(path));
        p64(b, i->size);
        if (send) pbytes(b, i->data, i->size); else p64(b, 0);
        (*count)++;
        if (i->type == T_DIR) emit(b, i, path, count);
        path[l] = 0;
    }
}
static u64 progress_mark(void) { return W->steps + W->allocs * 3 + W->ioop * 7 + W->decision + W->code; }
static u64 mono_ms(void) { struct timespec t; rsys(SYS_clock_gettime, CLOCK_MONOTONIC, &t, 0); return t.tv_sec * 1000ull + t.tv_nsec / 1000000; }

static int serve(int *argc, char **argv) {
    u8 *arena = (u8 *)rsys6(SYS_mmap, (long)ARENA_ADDR, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (arena != ARENA_ADDR) rsys(SYS_exit_group, 97, 0, 0);
    W = (World *)arena;
    u8 *logbuf = arena + ((sizeof(World) + 0xfffff) & ~0xfffffull);
    u8 *data = logbuf + LOGCAP;
    pthread_key_create(&exit_key, thread_done);
    dl_iterate_phdr(find_static, NULL); extern void *__libc_stack_end; stack_hi = (char *)__libc_stack_end;
    dlsym(RTLD_NEXT, "pthread_create"); dlsym(RTLD_NEXT, "pthread_join"); dlsym(RTLD_NEXT, "sysconf");
    sigset_t chld, old; sigemptyset(&chld); sigaddset(&chld, SIGCHLD); sigprocmask(SIG_BLOCK, &chld, &old);
    pid_t (*rfork)(void) = real("fork");
    u8 *req = NULL; u64 cap = 0; u64 served = 0;
    for (;;) {
        u64 len; if (xread(198, &len, 8)) rsys(SYS_exit_group, 0, 0, 0);
        if (len > cap) { cap = len * 2; req = __libc_realloc(req, cap); }
        if (xread(198, req, len)) rsys(SYS_exit_group, 0, 0, 0);
        In in = {req, req + len};
        build_world(&in, data, arena + ARENA_SIZE - (512u << 20), logbuf); // the rest is for the report
        pid_t pids[MAXPROC]; int live = 0;
        if (!W->verdict) for (int p = 0; p < W->nproc; p++) {
            pid_t c = rfork();
            if (c == 0) {
                sigprocmask(SIG_SETMASK, &old, NULL);
                rsys(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL, 0);
                rsys(SYS_close, 198, 0, 0); rsys(SYS_close, 199, 0, 0);
                struct { u64 a, b; } rl = {16ull << 30, 16ull << 30}; rsys6(SYS_prlimit64, 0, 9 /*AS*/, (long)&rl, 0, 0, 0);
                rl.a = rl.b = 0; rsys6(SYS_prlimit64, 0, 4 /*CORE*/, (long)&rl, 0, 0, 0);
                g_proc = p; Proc *q = &W->proc[p];
                for (int i = 0; i < q->argc && i < *argc - 1; i++) argv[i] = q->argv[i];
                for (int i = q->argc; i < *argc; i++) argv[i] = NULL;
                extern char **environ; environ = q->env;
                await_baton(&W->task[p]);
                if (W->cfg.heap_seed) shake_heap(W->cfg.heap_seed + p);
                t_task = p; g_active = 1; errno = 0;
                return 0;
            }
            if (c < 0) { set_verdict(V_HARNESS, "fork failed"); break; }
            pids[p] = c; live++;
        }
        u64 wall0 = mono_ms(), lastp = 0, lastt = wall0;
        if (live) { g_proc = 0; Task *n = choose(NULL, K_BLOCK); hand_to(n); }
        while (live) {
            int st; long r = rsys6(SYS_wait4, -1, (long)&st, 1 /*WNOHANG*/, 0, 0, 0);
            if (r > 0) {
                for (int p = 0; p < W->nproc; p++) if (pids[p] == r && W->proc[p].alive) {
                    W->proc[p].alive = 0; W->proc[p].status = st; live--; mix(0xDEAD + p);
                    int mine = W->task[W->cur].proc == p;
                    for (int t = 0; t < W->ntask; t++) if (W->task[t].proc == p) W->task[t].state = DONE;
                    if (W->verdict) { for (int q = 0; q < W->nproc; q++) if (W->proc[q].alive) rsys(SYS_kill, pids[q], SIGKILL, 0); }
                    else if (live && mine) { Task *n = choose(NULL, K_BLOCK); if (n) hand_to(n); else { set_verdict(V_DEADLOCK, "all threads blocked"); for (int q = 0; q < W->nproc; q++) if (W->proc[q].alive) rsys(SYS_kill, pids[q], SIGKILL, 0); } }
                }
                continue;
            }
            struct timespec to = {0, 200000000}; rsys6(SYS_rt_sigtimedwait, (long)&chld, 0, (long)&to, 8, 0, 0);
            u64 m = progress_mark(), now = mono_ms(); if (m != lastp) { lastp = m; lastt = now; }
            if (now - lastt > 25000 || now - wall0 > 240000) { set_verdict(V_HANG, "no progress"); for (int p = 0; p < W->nproc; p++) if (W->proc[p].alive) rsys(SYS_kill, pids[p], SIGKILL, 0); lastt = now; }
        }
        // report
        W->bump_end = arena + ARENA_SIZE;
        Buf b = {0}; b.cap = 1 << 16; b.p = balloc(b.cap);
        p64(&b, W->verdict); pbytes(&b, W->msg, strlen(W->msg));
        p64(&b, W->nproc);
        for (int p = 0; p < W->nproc; p++) { p64(&b, W->proc[p].status); pbytes(&b, W->proc[p].out.p, W->proc[p].out.len); pbytes(&b, W->proc[p].err.p, W->proc[p].err.len); }
        u64 c[] = {W->ioop, W->decision, W->allocs, W->steps, W->syncops, W->creates, W->threads_failed, W->alloc_failed, W->spurious, W->preempt, W->now - W->cfg.mono0, W->syshash, W->nsw, W->nfired, W->logdrop, (u64)W->ntask, (u64)wallclock(), W->attr_failed, W->code, W->shared};
        p64(&b, sizeof c / 8); buf_put(&b, c, sizeof c);
        u64 k = W->nsw < W->capsw ? W->nsw : W->capsw; p64(&b, k); buf_put(&b, W->sw, k * sizeof(Switch));
        k = W->nfired < W->capfired ? W->nfired : W->capfired; p64(&b, k); buf_put(&b, W->fired, k * sizeof(Fired));
        p64(&b, W->nlog); pbytes(&b, W->log, W->loglen);
        u64 cnt = 0, where = b.len; p64(&b, 0); char path[5000] = ""; emit(&b, W->root, path, &cnt); memcpy(b.p + where, &cnt, 8);
        if (xwrite(199, &b.len, 8) || xwrite(199, b.p, b.len)) rsys(SYS_exit_group, 0, 0, 0);
        served++;
        // give back memory of unusually large runs
        if ((u64)(W->bump - data) > (256u << 20)) rsys(SYS_madvise, (long)(data + (64u << 20)) & ~0xfffl, (u64)(arena + ARENA_SIZE - data - (64u << 20)) & ~0xfffull, 9 /*MADV_REMOVE*/);
    }
}
__attribute__((constructor)) static void init(int argc, char **argv, char **envp) {
    if (!getenv("SVDSIM_SERVER")) return;
    serve(&argc, argv);
}
// for a program that prepares itself before it becomes the server (pyzygote.py): returns in the
// children, with the simulated command line in argv
EXPORT char **svdsim_serve(int argc, char **argv) {
    extern char **environ;
    serve(&argc, argv); return environ;
}
