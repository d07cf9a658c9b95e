// simrt: deterministic simulator for the environment of one compiled Clara program.
//
// Linked (with ld --wrap) into a program produced by the real compiler from /repo, it takes the place of everything
// the program meets that is not its own code: the heap behind calloc/free, file descriptors, the clock, argv/envp,
// errno, and (through a trampoline put in front of calls to the collector) the schedule of the garbage collector.
// Everything it decides is a function of one seed (or of an explicit list of decisions when replaying).
//
// The process is a server: it reads run specifications from fd 198 and forks one child per simulated run; the child
// calls the program's real main(). Results go to fd 199.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <stdarg.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/uio.h>

int __real_main(int, char **, char **);
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
int __real_open(const char *, int, ...);
int __real_close(int);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_pread(int, void *, size_t, off_t);
off_t __real_lseek(int, off_t, int);

// ---------------------------------------------------------------------------------------------------------------
// Decisions
enum { K_GCSKIP, K_PLACE, K_ERRNO, K_OOM, K_OPEN, K_READ, K_SEEK, K_MUT, K_CLOCK, K_PICK, K_LAST };
static const char *kname[] = { "gcskip", "place", "errno", "oom", "open", "read", "seek", "mutate", "clock", "pick" };

#define MAXDEV 60000
struct dev { uint32_t kind, idx; int64_t val; };
struct shared {
    uint64_t events, evhash, schedhash;
    uint64_t nalloc, nfree, nfail, ngc, ngcskip, nreuse, maxlive, maxlivebytes, live, livebytes;
    uint64_t fired[K_LAST], asked[K_LAST];
    int64_t simtime_us;
    uint64_t nsys;
    int bad; char badmsg[512];
    int crash; uint64_t crashaddr; char crashkind[64];
    int exited; int exitcode;
    uint32_t ndev; struct dev dev[MAXDEV];
    uint32_t nnote; int64_t note[8192];
    uint32_t nsyslog; char syslog[65536];
};
static struct shared *S;
static uint64_t seed;
static int explicit_mode, page_mode, quarantine;
static uint64_t poison;
static int rate[K_LAST];
static uint64_t cap;
static struct dev *xdev; static uint32_t nxdev, xcur[K_LAST];

static uint64_t mix(uint64_t a, uint64_t b, uint64_t c)
{
    uint64_t x = a * 0x9E3779B97F4A7C15ull + b * 0xBF58476D1CE4E5B9ull + c * 0x94D049BB133111EBull + 0x1234567;
    x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; x ^= x >> 31;
    return x;
}
static void event(uint64_t a, uint64_t b, uint64_t c)
{
    S->events++;
    S->evhash = mix(S->evhash, a * 31 + b, c);
}
// Returns -1 for "nothing unusual", else a value in [0,n)
static int64_t decide(int kind, int64_t n)
{
    uint64_t idx = S->asked[kind]++;
    int64_t v = -1;
    if (explicit_mode) {
        // questions of one kind come in increasing order, and so do the listed decisions of that kind
        uint32_t i = xcur[kind];
        while (i < nxdev && (xdev[i].kind != (uint32_t)kind || xdev[i].idx < idx)) i++;
        xcur[kind] = i;
        if (i < nxdev && xdev[i].idx == idx) v = xdev[i].val;
        if (v >= n) v = n - 1;
    } else if (rate[kind]) {
        uint64_t h = mix(seed, kind + 100, idx);
        if ((int)(h % 1000) < rate[kind]) v = (int64_t)((h >> 20) % (uint64_t)n);
    }
    if (v >= 0) {
        S->fired[kind]++;
        S->schedhash = mix(S->schedhash, kind * 1000003ull + idx, v);
        if (S->ndev < MAXDEV) { S->dev[S->ndev].kind = kind; S->dev[S->ndev].idx = idx; S->dev[S->ndev].val = v; S->ndev++; }
    }
    event(kind + 1000, idx, v);
    return v;
}

static void bad(const char *fmt, ...)
{
    if (!S->bad) {
        S->bad = 1;
        va_list ap; va_start(ap, fmt); vsnprintf(S->badmsg, sizeof S->badmsg, fmt, ap); va_end(ap);
    }
    _exit(77);
}
static void slog(const char *fmt, ...)
{
    char b[512]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n > 0 && S->nsyslog + n + 1 < sizeof S->syslog) { memcpy(S->syslog + S->nsyslog, b, n); S->nsyslog += n; }
}

// ---------------------------------------------------------------------------------------------------------------
// Heap
#define REGION (1ull << 35)
#define PG 4096ull
static char *base; static uint64_t bump;     // region
struct blk { char *p; size_t size, cap; int live; uint32_t idx; char *pg; size_t pgs; };
static struct blk *blks; static uint32_t nblk, capblk;
static uint32_t *htab; static uint32_t hcap;
static uint32_t *freel; static uint32_t nfreel, capfreel;   // indices of freed, reusable blocks (oldest first)
static int simulating;

static uint32_t hfind(char *p)
{
    uint32_t h = (uint32_t)(mix((uint64_t)p, 1, 2) & (hcap - 1));
    while (htab[h]) { if (blks[htab[h] - 1].p == p) return htab[h]; h = (h + 1) & (hcap - 1); }
    return 0;
}
static void hadd(uint32_t i)
{
    uint32_t h = (uint32_t)(mix((uint64_t)blks[i].p, 1, 2) & (hcap - 1));
    while (htab[h]) { if (blks[htab[h] - 1].p == blks[i].p) { htab[h] = i + 1; return; } h = (h + 1) & (hcap - 1); }
    htab[h] = i + 1;
}
static void heap_init(void)
{
    uint64_t want = 0x100000000000ull + (mix(seed, 7, 7) % 0x4000) * 0x10000000ull;
    base = mmap((void *)want, REGION, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (base == MAP_FAILED) { S->bad = 2; snprintf(S->badmsg, sizeof S->badmsg, "simulator: cannot reserve heap"); _exit(78); }
    bump = 0;
    if (!page_mode) {
        if (mprotect(base, 1ull << 30, PROT_READ | PROT_WRITE)) { S->bad = 2; snprintf(S->badmsg, 99, "simulator: mprotect"); _exit(78); }
    }
    capblk = 1 << 12; blks = __real_malloc(capblk * sizeof *blks);
    hcap = 1 << 14; htab = __real_calloc(hcap, sizeof *htab);
    capfreel = 1 << 12; freel = __real_malloc(capfreel * sizeof *freel);
    // simulate unrelated earlier use of the heap: objects do not start at offset 0
    bump = 4096 * (1 + mix(seed, 9, 9) % 16);
}
#define RZ 32
static void fillrz(char *a, size_t n) { for (size_t i = 0; i < n; i++) a[i] = (char)(0xC5 ^ i); }
static int okrz(char *a, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != (char)(0xC5 ^ i)) return 0; return 1; }

static void *sim_alloc(size_t size, int zero, const char *who)
{
    uint32_t idx = (uint32_t)S->nalloc++;
    S->nsys++;
    int64_t d = decide(K_OOM, 1);
    if (d >= 0 || size > (1ull << 29) || (cap && S->livebytes + size > cap)) {
        S->nfail++;
        errno = ENOMEM;
        event(2, idx, size);
        slog("alloc#%u size=%zu -> NULL\n", idx, size);
        return NULL;
    }
    size_t sz = size ? size : 1;
    uint32_t bi = ~0u;
    int64_t place = decide(K_PLACE, 1000);
    if (place >= 0 && place < 800 && nfreel && !quarantine) {
        // reuse a freed block that is large enough: newest, oldest or some other one
        uint32_t start = place < 400 ? nfreel - 1 : place < 600 ? 0 : (uint32_t)(place % nfreel);
        for (uint32_t k = 0; k < nfreel && k < 256; k++) {
            uint32_t j = place < 400 ? nfreel - 1 - k : (start + k) % nfreel;
            struct blk *b = &blks[freel[j]];
            if (page_mode ? b->pgs == ((((sz + 15) & ~15ull) + 64 + PG - 1) & ~(PG - 1)) : b->cap >= sz && b->cap <= sz * 2 + 64) {
                bi = freel[j];
                memmove(freel + j, freel + j + 1, (nfreel - j - 1) * sizeof *freel);
                nfreel--;
                S->nreuse++;
                break;
            }
        }
    }
    size_t al = (sz + 15) & ~15ull;
    if (bi != ~0u) {
        struct blk nb = blks[bi];
        nb.size = sz; nb.live = 1; nb.idx = idx;
        if (page_mode) {
            if (mprotect(nb.pg, nb.pgs, PROT_READ | PROT_WRITE)) { S->bad = 2; snprintf(S->badmsg, 99, "simulator: mprotect"); _exit(78); }
            nb.p = nb.pg + nb.pgs - al;
        }
        blks[bi] = nb;
        hadd(bi);
    } else {
        if (nblk == capblk) { capblk *= 2; blks = __real_realloc(blks, capblk * sizeof *blks); }
        if (nblk * 2 > hcap) {
            __real_free(htab); hcap *= 4; htab = __real_calloc(hcap, sizeof *htab);
            for (uint32_t i = 0; i < nblk; i++) hadd(i);
        }
        bi = nblk++;
        struct blk *b = &blks[bi];
        if (place >= 800) bump += page_mode ? PG * ((place - 800) % 8) : 16 * ((place - 800) % 64);
        if (page_mode) {
            size_t pgs = (al + 64 + PG - 1) & ~(PG - 1);
            if (bump + pgs + PG > REGION || nblk > 30000) { nblk--; // the kernel limits the number of mappings
                S->nfail++; errno = ENOMEM; return NULL; }
            bump = (bump + PG - 1) & ~(PG - 1);
            b->pg = base + bump; b->pgs = pgs;
            if (mprotect(b->pg, pgs, PROT_READ | PROT_WRITE)) { S->bad = 2; snprintf(S->badmsg, 99, "simulator: mprotect"); _exit(78); }
            bump += pgs + PG; // guard page
            b->p = b->pg + pgs - al;
            b->cap = pgs - 64;
        } else {
            if (bump + al + 2 * RZ > (1ull << 30)) { nblk--; S->nfail++; errno = ENOMEM; return NULL; }
            b->p = base + bump + RZ; b->cap = al; b->pg = 0; b->pgs = 0;
            bump += al + 2 * RZ;
        }
        b->size = sz; b->live = 1; b->idx = idx;
        hadd(bi);
    }
    struct blk *b = &blks[bi];
    if (zero) memset(b->p, 0, sz);
    else for (size_t i = 0; i < sz; i++) b->p[i] = ((char *)&poison)[i & 7];
    // red zones
    if (page_mode) { fillrz(b->p + sz, al - sz); fillrz(b->p - 32, 32); }
    else { fillrz(b->p + sz, b->cap - sz + RZ); fillrz(b->p - RZ, RZ); }
    S->live++; S->livebytes += sz;
    if (S->live > S->maxlive) S->maxlive = S->live;
    if (S->livebytes > S->maxlivebytes) S->maxlivebytes = S->livebytes;
    event(1, idx, sz);
    int64_t e = decide(K_ERRNO, 3);
    if (e >= 0) { static const int es[] = { ENOMEM, EAGAIN, EINVAL }; errno = es[e]; } // a successful call may change errno
    (void)who;
    return b->p;
}
static void check_rz(struct blk *b, const char *when)
{
    size_t al = (b->size + 15) & ~15ull;
    int ok = page_mode ? okrz(b->p + b->size, al - b->size) && okrz(b->p - 32, 32)
                       : okrz(b->p + b->size, b->cap - b->size + RZ) && okrz(b->p - RZ, RZ);
    if (!ok) bad("heap-overrun: memory next to block #%u (size %zu) was overwritten (found %s)", b->idx, b->size, when);
}
static void sim_free(void *p)
{
    if (!p) return;
    S->nsys++;
    uint32_t h = hfind(p);
    if (!h) { bad("bad-free: address that was never allocated handed back to the allocator"); }
    struct blk *b = &blks[h - 1];
    if (!b->live) { bad("double-free: block #%u (size %zu) freed twice", b->idx, b->size); }
    check_rz(b, "when it was freed");
    for (size_t i = 0; i < b->size; i++) b->p[i] = ((char *)&poison)[i & 7];
    b->live = 0;
    S->live--; S->livebytes -= b->size; S->nfree++;
    event(3, b->idx, b->size);
    if (page_mode) { madvise(b->pg, b->pgs, MADV_DONTNEED); mprotect(b->pg, b->pgs, PROT_NONE); }
    if (nfreel == capfreel) { capfreel *= 2; freel = __real_realloc(freel, capfreel * sizeof *freel); }
    freel[nfreel++] = h - 1;
    int64_t e = decide(K_ERRNO, 3);
    if (e >= 0) { static const int es[] = { ENOMEM, EAGAIN, EINVAL }; errno = es[e]; }
}
static void heap_final(void)
{
    for (uint32_t i = 0; i < nblk; i++) if (blks[i].live) check_rz(&blks[i], "at exit");
}

// The C library may use vector instructions on its stack frame: at the entry of a C function the stack must be aligned as
// the calling convention says (8 below a multiple of 16), so that the saved frame pointer lies at a multiple of 16.
#define ALIGNED(name) do { if (simulating && ((uintptr_t)__builtin_frame_address(0) & 15)) bad("misaligned-stack call of " name); } while (0)

void *__wrap_malloc(size_t n) { return simulating ? sim_alloc(n, 0, "malloc") : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b)
{
    ALIGNED("calloc");
    if (!simulating) return __real_calloc(a, b);
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { S->nalloc++; S->nfail++; errno = ENOMEM; return NULL; }
    return sim_alloc(n, 1, "calloc");
}
void *__wrap_realloc(void *p, size_t n)
{
    if (!simulating) return __real_realloc(p, n);
    if (!p) return sim_alloc(n, 0, "realloc");
    uint32_t h = hfind(p);
    if (!h || !blks[h - 1].live) bad("bad-realloc");
    size_t old = blks[h - 1].size;
    char *q = sim_alloc(n, 0, "realloc");
    if (!q) return NULL;
    memcpy(q, p, old < n ? old : n);
    sim_free(p);
    return q;
}
int __wrap_printf(const char *fmt, ...)
{
    ALIGNED("printf");
    va_list a;
    va_start(a, fmt);
    int n = vprintf(fmt, a);
    va_end(a);
    return n;
}
void __wrap_free(void *p) { ALIGNED("free"); if (simulating) sim_free(p); else __real_free(p); }

// ---------------------------------------------------------------------------------------------------------------
// Collector schedule: calls to the collector go through this (see the linker shim)
int sim_gc_decide(void)
{
    if (!simulating) return 1;
    S->ngc++;
    int64_t d = decide(K_GCSKIP, 1);
    if (d >= 0) { S->ngcskip++; return 0; }
    return 1;
}

// ---------------------------------------------------------------------------------------------------------------
// Files, clock
struct sfile { char *path; char *data; size_t len, cap; int64_t hole; /* zeroes in front of the data, not stored */ };
static struct sfile files[64]; static int nfiles;
struct sfd { int used, file; int64_t pos; };
static struct sfd fds[256];
#define FDBASE 3

static const int rare[] = { 36, 39, 40, 61, 75, 95, 104, 110, 116, 122 }; // ENAMETOOLONG .. EDQUOT
#define NERRNO (34 + 10)
static int errno_of(int64_t d) { return d < 34 ? 1 + (int)d : rare[d - 34]; }
static int vopen(const char *path, int flags)
{
    S->nsys++;
    int64_t d = decide(K_OPEN, NERRNO);
    if (d >= 0) { errno = errno_of(d); slog("open(%s) -> errno %d\n", path, errno); return -1; }
    for (int i = 0; i < nfiles; i++) {
        if (strcmp(files[i].path, path) == 0) {
            for (int k = 0; k < 256; k++) if (!fds[k].used) {
                fds[k].used = 1; fds[k].file = i; fds[k].pos = 0;
                slog("open(%s, %d) -> %d\n", path, flags, k + FDBASE);
                event(20, i, k);
                return k + FDBASE;
            }
            errno = EMFILE; slog("open(%s) -> errno %d\n", path, errno); return -1;
        }
    }
    errno = ENOENT;
    slog("open(%s) -> errno %d\n", path, errno);
    return -1;
}
int __wrap_open(const char *path, int flags, ...) { ALIGNED("open"); return vopen(path, flags); }
int __wrap_open64(const char *path, int flags, ...) { return vopen(path, flags); }
int __wrap_close(int fd)
{
    ALIGNED("close");
    if (!simulating) return __real_close(fd);
    S->nsys++;
    int k = fd - FDBASE;
    if (k < 0 || k >= 256 || !fds[k].used) { errno = EBADF; return -1; }
    fds[k].used = 0;
    return 0;
}
static void mutate(struct sfile *f)
{
    // another process truncates or extends the file between two calls
    int64_t d = decide(K_MUT, 1 << 20);
    if (d < 0) return;
    if (d & 1) { size_t n = f->len ? (size_t)(d >> 1) % (f->len + 1) : 0; slog("truncated %s %zu -> %zu\n", f->path, f->len, n); f->len = n; }
    else {
        size_t n = (size_t)(d >> 1) % 40 + 1;
        if (f->len + n > f->cap) { f->cap = f->len + n + 64; f->data = __real_realloc(f->data, f->cap); }
        slog("extended %s %zu -> %zu\n", f->path, f->len, f->len + n);
        for (size_t i = 0; i < n; i++) f->data[f->len + i] = 'g';
        f->len += n;
    }
}
static ssize_t vread(int fd, void *buf, size_t n, int64_t *ppos)
{
    S->nsys++;
    int k = fd - FDBASE;
    if (k < 0 || k >= 256 || !fds[k].used) { errno = EBADF; slog("read(%d) -> EBADF\n", fd); return -1; }
    struct sfile *f = &files[fds[k].file];
    mutate(f);
    int64_t *pos = ppos ? ppos : &fds[k].pos;
    int64_t flen = f->hole + (int64_t)f->len;
    size_t avail = *pos < flen ? (size_t)(flen - *pos) : 0;
    size_t m = n < avail ? n : avail;
    int64_t d = decide(K_READ, 1000);
    if (d >= 0) {
        if (d < 100) { errno = EINTR; slog("read(%d, %zu) -> EINTR\n", fd, n); return -1; }
        if (d < 250) { errno = errno_of(d % NERRNO); if (errno == EINTR) errno = EIO; slog("read(%d, %zu) -> errno %d\n", fd, n, errno); return -1; }
        if (m > 1) m = 1 + (size_t)(d - 250) % (m - 1); // short read: at least 1 byte, less than asked
    }
    if ((intptr_t)n < 0) { errno = EINVAL; return -1; }
    for (size_t i = 0; i < m;) {
        int64_t at = *pos + (int64_t)i; size_t c;
        if (at < f->hole) { c = (size_t)(f->hole - at) < m - i ? (size_t)(f->hole - at) : m - i; memset((char *)buf + i, 0, c); }
        else { c = m - i; memcpy((char *)buf + i, f->data + (at - f->hole), c); }
        i += c;
    }
    if (!ppos) fds[k].pos += m;
    slog("read(%d, %zu) @%ld -> %zu\n", fd, n, (long)(ppos ? *ppos : fds[k].pos - (int64_t)m), m);
    event(21, n, m);
    return (ssize_t)m;
}
ssize_t __wrap_read(int fd, void *buf, size_t n) { ALIGNED("read"); return simulating ? vread(fd, buf, n, NULL) : __real_read(fd, buf, n); }
ssize_t __wrap_pread(int fd, void *buf, size_t n, off_t off) { int64_t p = off; return vread(fd, buf, n, &p); }
ssize_t __wrap_pread64(int fd, void *buf, size_t n, off_t off) { int64_t p = off; return vread(fd, buf, n, &p); }
static off_t vlseek(int fd, off_t off, int whence)
{
    S->nsys++;
    int k = fd - FDBASE;
    if (k < 0 || k >= 256 || !fds[k].used) { errno = EBADF; slog("lseek(%d) -> EBADF\n", fd); return -1; }
    struct sfile *f = &files[fds[k].file];
    mutate(f);
    int64_t d = decide(K_SEEK, NERRNO);
    if (d >= 0) { errno = errno_of(d); slog("lseek(%d) -> errno %d\n", fd, errno); return -1; }
    int64_t np = whence == 0 ? off : whence == 1 ? fds[k].pos + off : whence == 2 ? f->hole + (int64_t)f->len + off : -1;
    if (np < 0) { errno = EINVAL; slog("lseek(%d) -> EINVAL\n", fd); return -1; }
    fds[k].pos = np;
    slog("lseek(%d, %ld, %d) -> %ld\n", fd, (long)off, whence, (long)np);
    event(22, whence, np);
    return np;
}
off_t __wrap_lseek(int fd, off_t off, int whence) { ALIGNED("lseek"); return vlseek(fd, off, whence); }
off_t __wrap_lseek64(int fd, off_t off, int whence) { return vlseek(fd, off, whence); }
int __wrap_fstat(int fd, struct stat *st)
{
    int k = fd - FDBASE;
    if (k < 0 || k >= 256 || !fds[k].used) { errno = EBADF; return -1; }
    struct sfile *f = &files[fds[k].file];
    mutate(f);
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0644; st->st_size = f->hole + (int64_t)f->len;
    return 0;
}

static int64_t clock_us;
static int64_t floormod(int64_t t) { int64_t r = t % 1000000; return r < 0 ? r + 1000000 : r; }
static int64_t floorsec(int64_t t) { return (t - floormod(t)) / 1000000; }
static int64_t tick(void)
{
    S->nsys++;
    int64_t d = decide(K_CLOCK, 1 << 24);
    int64_t adv = 1 + (int64_t)(mix(seed, 55, S->asked[K_CLOCK]) % 5000);
    if (d >= 0) {
        // clock jumps: backwards, forwards a lot, to just before/after a second boundary, or to far dates
        switch (d & 7) {
        case 0: adv = -(d >> 3); break;
        case 1: adv = (d >> 3) * 1000000ll; break;
        case 2: adv = 999999 - floormod(clock_us); break;
        case 3: adv = 1000000 - floormod(clock_us); break;
        case 4: clock_us = 2147483647ll * 1000000 + 999999; adv = d >> 20; break;
        case 5: clock_us = 4294967295ll * 1000000 + 999999; adv = d >> 20; break;
        case 6: adv = 0; break;
        default: clock_us = (d >> 4) * ((d & 8) ? 1 : -1000003); adv = 0; break; // around the epoch, also well before it
        }
    }
    clock_us += adv;
    S->simtime_us += adv > 0 ? adv : -adv;
    if (S->nnote + 2 < 8192) { S->note[S->nnote++] = -777; S->note[S->nnote++] = clock_us; }
    event(30, 0, clock_us);
    return clock_us;
}
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
    ALIGNED("gettimeofday");
    (void)tz;
    int64_t t = tick();
    tv->tv_sec = floorsec(t); tv->tv_usec = floormod(t);
    return 0;
}
int __wrap_clock_gettime(clockid_t id, struct timespec *ts)
{
    (void)id;
    int64_t t = tick();
    ts->tv_sec = floorsec(t); ts->tv_nsec = floormod(t) * 1000;
    return 0;
}
time_t __wrap_time(time_t *p) { int64_t t = tick(); if (p) *p = floorsec(t); return floorsec(t); }

// ---------------------------------------------------------------------------------------------------------------
// Calls made by the simulated program (declared as external functions in the generated Clara source, RawValues)
static int64_t *ops; static uint32_t nops, opi;
int64_t simOp(int64_t dflt) { ALIGNED("simOp"); int64_t v = opi < nops ? ops[opi++] : dflt; event(40, 0, v); return v; }
int64_t simPick(int64_t n) { ALIGNED("simPick"); int64_t d = decide(K_PICK, n > 0 ? n : 1); return d < 0 ? 0 : d; }
int64_t simLive(int64_t x) { (void)x; return (int64_t)S->live; }
int64_t simLiveBytes(int64_t x) { (void)x; return (int64_t)S->livebytes; }
int64_t simNote(int64_t v) { slog("note %ld\n", v); if (S->nnote + 1 < 8192) S->note[S->nnote++] = v; event(41, 0, v); return 0; }
int64_t simSysCount(int64_t x) { (void)x; return (int64_t)S->nsys; }

// External functions of generated programs: what they receive is folded into a sum which the program prints.
// Afterwards every register a C function may change holds rubbish.
static uint64_t xtotal;
static void xfold(uint64_t *h, char kind, const void *p, uint64_t n)
{
    const unsigned char *d = p;
    unsigned char head[3] = { (unsigned char)kind, (unsigned char)n, (unsigned char)(n >> 8) };
    for (int i = 0; i < 3; i++) *h = (*h ^ head[i]) * 1099511628211ull;
    for (uint64_t i = 0; i < n; i++) *h = (*h ^ d[i]) * 1099511628211ull;
}
static __attribute__((noinline)) uint64_t xmix(const char *k0, int raw, const int64_t *a)
{
    uint64_t h = 14695981039346656037ull;
    const char *kinds = k0;
    for (; *kinds; kinds++, a++) {
        int64_t v = *a;
        if (*kinds == 'i') { if (!raw) v >>= 1; xfold(&h, 'i', &v, 8); }
        else if (*kinds == 'b') { char b = v == 1; if (v != 0 && v != 1) bad("an external function was passed a bool that is neither 0 nor 1: %ld", v); xfold(&h, 'b', &b, 1); }
        else {
            const char *p = (const char *)v + (raw ? 0 : 8);
            uint64_t n = *(uint64_t *)(p - 8) >> 1;
            if (*kinds == 'A') {
                int64_t e[512];
                if (n > 512) bad("an external function was passed an array of %lu elements", n);
                for (uint64_t i = 0; i < n; i++) e[i] = ((int64_t *)p)[i] >> 1;
                xfold(&h, 'A', e, n * 8);
            } else {
                if (n > 65535) bad("an external function was passed a string or bytes of length %lu", n);
                if (*kinds == 's' && p[n]) bad("an external function was passed a string without its final zero");
                xfold(&h, *kinds, p, n);
            }
        }
    }
    xtotal = (xtotal + (h >> 20)) & 0xffffffff;
    event(42, 0, h);
    slog("external %s %lx\n", k0, h >> 20);
    return h;
}
static int64_t xres(uint64_t h) { return (int64_t)((h >> 30) & 0x7ff) - 1024; }
#define CLOBBER(r) do { register int64_t r_ __asm__("rax") = (r); \
    __asm__ volatile("movq $0x5a5a5a5a5a5a5a5a,%%rcx\n\tmovq %%rcx,%%rdx\n\tmovq %%rcx,%%rsi\n\tmovq %%rcx,%%rdi\n\tmovq %%rcx,%%r8\n\tmovq %%rcx,%%r9\n\t" \
        "movq %%rcx,%%r10\n\tmovq %%rcx,%%r11\n\tmovq %%rcx,%%xmm0\n\tmovq %%rcx,%%xmm7\n\tmovq %%rcx,%%xmm15" \
        : "+r"(r_) :: "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "xmm0", "xmm7", "xmm15", "cc", "memory"); \
    return r_; } while (0)
#define XARGS int64_t a, int64_t b, int64_t c, int64_t d, int64_t e, int64_t f
#define XF(g) \
    int64_t xx_##g(XARGS) { ALIGNED("xx_" #g); int64_t v[6] = { a, b, c, d, e, f }; int64_t r = xres(xmix(#g, 1, v)); CLOBBER(r); } \
    int64_t xy_##g(XARGS) { ALIGNED("xy_" #g); int64_t v[6] = { a, b, c, d, e, f }; int64_t r = xres(xmix(#g, 0, v)) * 2 + 1; CLOBBER(r); } \
    int64_t xq_##g(XARGS) { ALIGNED("xq_" #g); int64_t v[6] = { a, b, c, d, e, f }; int64_t r = (xmix(#g, 1, v) >> 33) & 1; CLOBBER(r); } \
    int64_t xw_##g(XARGS) { ALIGNED("xw_" #g); int64_t v[6] = { a, b, c, d, e, f }; xmix(#g, 1, v); CLOBBER(0x7777777777777777); } \
    int64_t xu_##g(XARGS) { ALIGNED("xu_" #g); int64_t v[6] = { a, b, c, d, e, f }; xmix(#g, 0, v); int64_t r = v[sizeof #g - 2]; CLOBBER(r); }
XF(i) XF(s) XF(ii) XF(si) XF(ib) XF(isi) XF(bsA) XF(iAsB) XF(iiiii) XF(iiiiii) XF(sisisi) XF(ABsibs) XF(sAiBsi) XF(bbbbbb) XF(ssssss)
int64_t xx_(void) { ALIGNED("xx_"); int64_t r = xres(xmix("", 1, NULL)); CLOBBER(r); }
int64_t xy_(void) { ALIGNED("xy_"); int64_t r = xres(xmix("", 0, NULL)) * 2 + 1; CLOBBER(r); }
int64_t xq_(void) { ALIGNED("xq_"); int64_t r = (xmix("", 1, NULL) >> 33) & 1; CLOBBER(r); }
int64_t xw_(void) { ALIGNED("xw_"); xmix("", 1, NULL); CLOBBER(0x7777777777777777); }
int64_t xsum(void) { ALIGNED("xsum"); int64_t r = (int64_t)xtotal; CLOBBER(r); }
int64_t xsame0(int64_t v) { ALIGNED("xsame0"); xmix("", 0, &v); CLOBBER(v); }
int64_t xsame1(int64_t a, int64_t v) { ALIGNED("xsame1"); xmix("i", 0, &a); CLOBBER(v); }
int64_t xsame2(int64_t a, int64_t s, int64_t v) { ALIGNED("xsame2"); int64_t w[2] = { a, s }; xmix("is", 0, w); CLOBBER(v); }

// ---------------------------------------------------------------------------------------------------------------
static uintptr_t stack_top;
static void on_crash(int sig, siginfo_t *si, void *uc)
{
    S->crash = sig;
    uint64_t a = (uint64_t)si->si_addr;
    uint64_t sp = (uint64_t)((ucontext_t *)uc)->uc_mcontext.gregs[15 /*REG_RSP*/];
    S->crashaddr = a;
    const char *k = "wild address";
    if (sig == SIGFPE) k = "arithmetic trap";
    else if (sig == SIGILL || sig == SIGTRAP) k = "illegal instruction";
    else if (base && (char *)a >= base && (char *)a < base + REGION) {
        k = "unallocated heap memory";
        for (uint32_t i = 0; i < nblk; i++) {
            char *lo = blks[i].pg ? blks[i].pg : blks[i].p - RZ, *hi = blks[i].pg ? blks[i].pg + blks[i].pgs : blks[i].p + blks[i].cap + RZ;
            if ((char *)a >= lo && (char *)a < hi) {
                k = blks[i].live ? "heap block bounds" : "reclaimed heap block";
            } else if (blks[i].pg && (char *)a >= hi && (char *)a < hi + PG && blks[i].live) k = "past the end of a heap block";
        }
    } else if (a < 65536) k = "null address";
    else if (a + 65536 > sp && a < stack_top) k = "stack exhausted";
    snprintf(S->crashkind, sizeof S->crashkind, "%s", k);
    _exit(76);
}
static void at_exit_final(void) { if (simulating) { S->exited = 1; heap_final(); } }

void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int code)
{
    ALIGNED("exit");
    if (simulating) { S->exited = 1; S->exitcode = code; heap_final(); }
    __real_exit(code);
}

static int hexv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static char *unhex(const char *s, size_t *len)
{
    size_t n = strlen(s) / 2; char *b = __real_malloc(n + 16); memset(b, 0, n + 16);
    for (size_t i = 0; i < n; i++) b[i] = (char)(hexv(s[2 * i]) * 16 + hexv(s[2 * i + 1]));
    if (len) *len = n;
    return b;
}

static void die(const char *m) { dprintf(2, "simrt: %s\n", m); _exit(99); }

int __wrap_main(int argc, char **argv, char **envp)
{
    (void)argc; (void)argv; (void)envp;
    FILE *ctl = fdopen(198, "r"); FILE *res = fdopen(199, "w");
    if (!ctl || !res) die("no control channel: this program was linked for simulation");
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int out = memfd_create("out", 0), err = memfd_create("err", 0);
    if (out < 0 || err < 0) die("memfd");
    char *line = NULL; size_t lcap = 0; ssize_t ln;
    static char *args[512]; static char *envs[2048];
    for (;;) {
        // ---- read one specification
        memset(S, 0, sizeof *S);
        int na = 0, ne = 0; int cpu = 10; int oldops = 0; (void)oldops;
        seed = 0; explicit_mode = 0; page_mode = 0; quarantine = 0; poison = 0xDEADBEEFDEADBEE0ull; cap = 0; clock_us = 1600000000000000ll;
        memset(rate, 0, sizeof rate); nxdev = 0; memset(xcur, 0, sizeof xcur); nops = opi = 0; nfiles = 0; memset(fds, 0, sizeof fds);
        int have = 0; long stackkb = 0;
        while ((ln = getline(&line, &lcap, ctl)) > 0) {
            if (line[ln - 1] == '\n') line[--ln] = 0;
            char *sp = strchr(line, ' '); char *v = sp ? sp + 1 : ""; if (sp) *sp = 0;
            if (!strcmp(line, "go")) { have = 1; break; }
            else if (!strcmp(line, "seed")) seed = strtoull(v, 0, 10);
            else if (!strcmp(line, "explicit")) explicit_mode = 1;
            else if (!strcmp(line, "page")) page_mode = atoi(v);
            else if (!strcmp(line, "quarantine")) quarantine = atoi(v);
            else if (!strcmp(line, "poison")) poison = strtoull(v, 0, 16);
            else if (!strcmp(line, "cap")) cap = strtoull(v, 0, 10);
            else if (!strcmp(line, "cpu")) cpu = atoi(v);
            else if (!strcmp(line, "stackkb")) stackkb = atol(v);
            else if (!strcmp(line, "clock")) clock_us = strtoll(v, 0, 10);
            else if (!strcmp(line, "rate")) { char k[32]; int r; if (sscanf(v, "%31s %d", k, &r) == 2) for (int i = 0; i < K_LAST; i++) if (!strcmp(k, kname[i])) rate[i] = r; }
            else if (!strcmp(line, "dev")) {
                char k[32]; unsigned i; long long x;
                if (sscanf(v, "%31s %u %lld", k, &i, &x) == 3) for (int j = 0; j < K_LAST; j++) if (!strcmp(k, kname[j])) {
                    xdev = __real_realloc(xdev, (nxdev + 1) * sizeof *xdev); xdev[nxdev].kind = j; xdev[nxdev].idx = i; xdev[nxdev].val = x; nxdev++;
                }
            }
            else if (!strcmp(line, "arg") && na < 500) args[na++] = unhex(v, 0);
            else if (!strcmp(line, "env") && ne < 2040) envs[ne++] = unhex(v, 0);
            else if (!strcmp(line, "file") && nfiles < 64) {
                char *sp2 = strchr(v, ' '); char *c = sp2 ? sp2 + 1 : ""; if (sp2) *sp2 = 0;
                files[nfiles].path = unhex(v, 0); files[nfiles].data = unhex(c, &files[nfiles].len); files[nfiles].cap = files[nfiles].len; files[nfiles].hole = 0; nfiles++;
            }
            else if (!strcmp(line, "hole")) { if (nfiles) files[nfiles - 1].hole = strtoll(v, 0, 10); }
            else if (!strcmp(line, "ops")) {
                char *p = v; ops = __real_realloc(ops, (strlen(v) / 2 + 2 + nops) * sizeof *ops);
                while (*p) { char *e; int64_t x = strtoll(p, &e, 10); if (e == p) break; ops[nops++] = x; p = e; while (*p == ' ') p++; }
            }
        }
        if (!have) _exit(0);
        args[na] = NULL; envs[ne] = NULL;
        if (ftruncate(out, 0) || ftruncate(err, 0)) die("ftruncate");
        fflush(NULL);
        pid_t pid = fork();
        if (pid < 0) die("fork");
        if (pid == 0) {
            __real_lseek(out, 0, SEEK_SET); __real_lseek(err, 0, SEEK_SET);
            dup2(out, 1); dup2(err, 2); dup2(__real_open("/dev/null", O_RDONLY), 0);
            struct rlimit rl = { cpu, cpu + 1 }; setrlimit(RLIMIT_CPU, &rl);
            struct rlimit rf = { 1 << 26, 1 << 26 }; setrlimit(RLIMIT_FSIZE, &rf);
            struct rlimit rc = { 0, 0 }; setrlimit(RLIMIT_CORE, &rc);
            if (stackkb) { struct rlimit rs; getrlimit(RLIMIT_STACK, &rs); rs.rlim_cur = stackkb * 1024; setrlimit(RLIMIT_STACK, &rs); }
            stack_t ss = { .ss_sp = mmap(NULL, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0), .ss_size = 65536 };
            sigaltstack(&ss, NULL);
            struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
            sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGILL, &sa, NULL);
            sigaction(SIGTRAP, &sa, NULL);
            stack_top = (uintptr_t)__builtin_frame_address(0) + 65536;
            heap_init();
            atexit(at_exit_final);
            simulating = 1;
            errno = 0;
            int rcode = __real_main(na, args, envs);
            S->exited = 1; S->exitcode = rcode;
            heap_final();
            __real_exit(rcode);
        }
        int st; struct rusage ru;
        while (wait4(pid, &st, 0, &ru) < 0) if (errno != EINTR) die("wait");
        off_t on = __real_lseek(out, 0, SEEK_END), en = __real_lseek(err, 0, SEEK_END);
        fprintf(res, "status %s %d\n", WIFEXITED(st) ? "exit" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st));
        fprintf(res, "cpu_ms %ld\n", (long)(ru.ru_utime.tv_sec * 1000 + ru.ru_utime.tv_usec / 1000 + ru.ru_stime.tv_sec * 1000 + ru.ru_stime.tv_usec / 1000));
        fprintf(res, "events %lu\nevhash %016lx\nschedhash %016lx\n", S->events, S->evhash, S->schedhash);
        fprintf(res, "nalloc %lu\nnfree %lu\nnfail %lu\nngc %lu\nngcskip %lu\nnreuse %lu\nmaxlive %lu\nmaxlivebytes %lu\nlive %lu\nlivebytes %lu\nnsys %lu\nsimtime %ld\n",
                S->nalloc, S->nfree, S->nfail, S->ngc, S->ngcskip, S->nreuse, S->maxlive, S->maxlivebytes, S->live, S->livebytes, S->nsys, S->simtime_us);
        if (S->bad) fprintf(res, "bad %d %s\n", S->bad, S->badmsg);
        if (S->crash) fprintf(res, "crash %d %s\n", S->crash, S->crashkind);
        if (S->exited) fprintf(res, "exited %d\n", S->exitcode);
        for (int i = 0; i < K_LAST; i++) if (S->asked[i]) fprintf(res, "kind %s %lu %lu\n", kname[i], S->fired[i], S->asked[i]);
        fprintf(res, "ndev %u\n", S->ndev);
        for (uint32_t i = 0; i < S->ndev; i++) fprintf(res, "d %s %u %ld\n", kname[S->dev[i].kind], S->dev[i].idx, S->dev[i].val);
        fprintf(res, "notes");
        for (uint32_t i = 0; i < S->nnote; i++) fprintf(res, " %ld", S->note[i]);
        fprintf(res, "\nsyslog %u\n", S->nsyslog);
        fwrite(S->syslog, 1, S->nsyslog, res);
        fprintf(res, "\nout %ld\n", (long)on);
        char buf[65536]; ssize_t n; off_t o = 0;
        while (o < on && (n = __real_pread(out, buf, sizeof buf, o)) > 0) { fwrite(buf, 1, n, res); o += n; }
        fprintf(res, "\nerr %ld\n", (long)en); o = 0;
        while (o < en && (n = __real_pread(err, buf, sizeof buf, o)) > 0) { fwrite(buf, 1, n, res); o += n; }
        fprintf(res, "\ndone\n");
        fflush(res);
        for (int i = 0; i < na; i++) __real_free(args[i]);
        for (int i = 0; i < ne; i++) __real_free(envs[i]);
        for (int i = 0; i < nfiles; i++) { __real_free(files[i].path); __real_free(files[i].data); }
    }
}
