#include "seam.h"
#include <cerrno>
#include <cstring>
#include <cstdlib>
#include <cstdarg>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <threads.h>
#include <exception>

Seam seam; SchedHooks *sched_hooks;
#ifdef SIM_THR       // the library's memory comes from the arena that checks accesses
void arena_reset(); void *arena_alloc(size_t n, size_t align); bool arena_free(void *p); size_t arena_size(void *p); void arena_poison(void *p, size_t n);
#define HEAP_ALLOC(n) arena_alloc(n, 16)
#define HEAP_FREE(p) do { if (!arena_free(p)) __real_free(p); } while (0)
#define HEAP_PAGES(p, n) ((p = arena_alloc(n, 4096)) == nullptr)
#else
#define HEAP_ALLOC(n) __real_malloc(n)
#define HEAP_FREE(p) __real_free(p)
#define HEAP_PAGES(p, n) posix_memalign(&p, 4096, n)
#endif
const char *fault_name[F_NFAULTS] = { "alloc-fail", "open-fail", "fdopen-fail", "stat-fail", "fstat-fail", "mmap-fail", "read-error", "read-short", "seek-fail", "mutex-init-fail" };

void Seam::enable(Fault f, u32 r) { on[f] = true; rate[f] = r; left[f] = 1 + sim.d(r * 2 - 1); }
void Seam::arm_at(Fault f, u64 nth) { on[f] = true; rate[f] = 0; left[f] = (s64) nth; }
void Seam::disable_all() { for (auto &x : on) x = false; }
bool Seam::fire(Fault f)
{
    if (!lib) return false;
    opportunities[f]++;
    if (!on[f]) return false;
    if (--left[f] > 0) return false;
    if (rate[f]) left[f] = 1 + sim.d(rate[f] * 2 - 1); else on[f] = false;
    fired++; fired_kind[f]++; sim.stat[std::string("fault.") + fault_name[f]]++; sim.h(0xfa0000 + f);
    LOG("  ! fault %s", fault_name[f]);
    return true;
}
void Seam::reset()
{
    disable_all(); lib = 0; fired = 0; memset(fired_kind, 0, sizeof fired_kind); memset(opportunities, 0, sizeof opportunities);
    live.clear(); nalloc = 0; bytes = 0; files.clear(); next_ino = 1; fds.clear(); next_fd = 1 << 20; maps.clear(); mapped = 0; nopen = nmmap = nmunmap = nread = 0;
    streams.clear(); mtx.clear(); held = 0;
#ifdef SIM_THR
    arena_reset();
#endif
}
void Seam::check_unlocked(const char *what)
{
    if (!held || std::uncaught_exceptions()) return;
    int n = held; if (sched_hooks) { n = 0; for (auto &m : mtx) if (m.second.owner == sched_hooks->self()) n++; }
    if (n) sim.fail("lock-leak", "%.200s: returned with %d lock(s) held", what, n);
}
void Seam::check_released(const char *where)
{
    if (!live.empty()) { auto &b = *live.begin(); u64 tot = 0; for (auto &x : live) tot += x.second.size; sim.fail("leak-memory", "%s: %zu allocation(s), %llu bytes not freed (first: %zu bytes, allocation #%llu)", where, live.size(), (unsigned long long) tot, b.second.size, (unsigned long long) b.second.seq); }
    if (!maps.empty()) sim.fail("leak-mapping", "%s: %zu mapping(s) left", where, maps.size());
    if (!fds.empty()) sim.fail("leak-file", "%s: %zu file(s) left open", where, fds.size());
    if (held) sim.fail("lock-leak", "%s: %d lock(s) held", where, held);
}
InodeP Seam::put(const std::string &path, const std::vector<u8> &data, u64 mtime)
{
    auto i = std::make_shared<Inode>(); i->data = data; i->mtime = mtime; i->ino = next_ino++; files[path] = i; return i;
}
void Seam::overwrite(const std::string &path, u64 off, const std::vector<u8> &d, u64 mtime)
{
    auto i = files[path]; if (off + d.size() > i->data.size()) i->data.resize(off + d.size());
    memcpy(i->data.data() + off, d.data(), d.size()); i->mtime = mtime;
    for (auto &m : maps) if (m.second.ino == i) for (u64 k = 0; k < m.second.len; k++) { u64 fo = m.second.off + k; if (fo < i->data.size()) ((u8 *) m.first)[k] = i->data[fo]; }
}

extern "C" {
void *__real_malloc(size_t); void __real_free(void *); void *__real_realloc(void *, size_t); void *__real_calloc(size_t, size_t);
int __real_open(const char *, int, ...); int __real_close(int); int __real_fstat(int, struct stat *); int __real_stat(const char *, struct stat *);
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t); FILE *__real_fopen(const char *, const char *); FILE *__real_fdopen(int, const char *); int __real_fileno(FILE *);
void __asan_poison_memory_region(void const volatile *, size_t) __attribute__((weak)); void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));

static const size_t alloc_max = 1ull << 30;
void *__wrap_malloc(size_t n)
{
    if (seam.lib && (n > alloc_max || seam.fire(F_ALLOC))) { errno = ENOMEM; return nullptr; }
    void *p = HEAP_ALLOC(n); if (!p) return p;
    seam.live[p] = { n, ++seam.nalloc }; seam.bytes += n; return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
    if (seam.lib && ((b && a > alloc_max / b) || seam.fire(F_ALLOC))) { errno = ENOMEM; return nullptr; }
    #ifdef SIM_THR
    void *p = arena_alloc(a * b, 16); if (p) memset(p, 0, a * b);
#else
    void *p = __real_calloc(a, b);
#endif
    if (!p) return p;
    seam.live[p] = { a * b, ++seam.nalloc }; return p;
}
void __wrap_free(void *p)
{
    if (p) { auto i = seam.live.find(p); if (i != seam.live.end()) { seam.bytes -= i->second.size; seam.live.erase(i); } }
    if (p) HEAP_FREE(p);        // a bad or double free is the sanitizer's, or the arena's, to report
}
void *__wrap_realloc(void *o, size_t n)
{
    if (seam.lib && (n > alloc_max || seam.fire(F_ALLOC))) { errno = ENOMEM; return nullptr; }
    seam.live.erase(o);
#ifdef SIM_THR
    void *p = arena_alloc(n, 16); if (p && o) { memcpy(p, o, std::min(n, arena_size(o))); arena_free(o); }
#else
    void *p = __real_realloc(o, n);
#endif
    if (p) seam.live[p] = { n, ++seam.nalloc };
    return p;
}
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *) __wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *) __wrap_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }

static bool simfile(const char *p) { return seam.lib && p; }      // the library sees no file but ours
int __wrap_open(const char *path, int flags, ...)
{
    if (!simfile(path)) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); return __real_open(path, flags, m); }
    seam.nopen++;
    if (seam.fire(F_OPEN)) { errno = EMFILE; return -1; }
    auto i = seam.files.find(path); if (i == seam.files.end()) { errno = ENOENT; return -1; }
    int fd = seam.next_fd++; seam.fds[fd] = { i->second, 0, false }; return fd;
}
int __wrap_close(int fd)
{
    auto i = seam.fds.find(fd); if (i == seam.fds.end()) { if (seam.lib && fd >= (1 << 20)) sim.fail("bad-close", "closing file %d that is not open", fd); return __real_close(fd); }
    seam.fds.erase(i); return 0;
}
static void fill(struct stat *st, const InodeP &i) { memset(st, 0, sizeof *st); st->st_size = i->data.size(); st->st_mtime = i->mtime; st->st_ino = i->ino; st->st_dev = 7; st->st_mode = S_IFREG | 0644; st->st_nlink = 1; st->st_blksize = 4096; }
int __wrap_fstat(int fd, struct stat *st)
{
    auto i = seam.fds.find(fd); if (i == seam.fds.end()) return __real_fstat(fd, st);
    if (seam.fire(F_FSTAT)) { errno = EIO; return -1; }
    fill(st, i->second.ino); return 0;
}
int __wrap_stat(const char *p, struct stat *st)
{
    if (!simfile(p)) return __real_stat(p, st);
    if (seam.fire(F_STAT)) { errno = EIO; return -1; }
    auto i = seam.files.find(p); if (i == seam.files.end()) { errno = ENOENT; return -1; }
    fill(st, i->second); return 0;
}
void *__wrap_mmap(void *a, size_t len, int prot, int flags, int fd, off_t off)
{
    auto i = seam.fds.find(fd); if (i == seam.fds.end()) { if (seam.lib) { errno = EBADF; return MAP_FAILED; } return __real_mmap(a, len, prot, flags, fd, off); }
    seam.nmmap++;
    if (off & 4095 || !len) { errno = EINVAL; return MAP_FAILED; }
    if (seam.fire(F_MMAP)) { errno = ENOMEM; return MAP_FAILED; }
    void *p = nullptr; if (HEAP_PAGES(p, len)) { errno = ENOMEM; return MAP_FAILED; }
    auto &d = i->second.ino->data; u64 have = (u64) off < d.size() ? std::min<u64>(len, d.size() - off) : 0;
    memset(p, 0, len); if (have) memcpy(p, d.data() + off, have);
    u64 pages = ((d.size() + 4095) & ~4095ull); u64 ok = (u64) off < pages ? std::min<u64>(len, pages - off) : 0;
    // past the end of the file: SIGBUS territory
#ifdef SIM_THR
    if (ok < len) arena_poison((u8 *) p + ok, len - ok);
#else
    if (ok < len && __asan_poison_memory_region) __asan_poison_memory_region((u8 *) p + ok, len - ok);
#endif
    seam.maps[p] = { i->second.ino, (u64) off, len }; seam.mapped += len; return p;
}
int __wrap_munmap(void *p, size_t len)
{
    auto i = seam.maps.find(p);
    if (i == seam.maps.end()) { if (seam.lib) sim.fail("bad-unmap", "unmapping memory that is not mapped"); return __real_munmap(p, len); }
    seam.nmunmap++;
    if (len != i->second.len) sim.fail("bad-unmap", "unmapping %zu bytes of a %llu byte mapping", len, (unsigned long long) i->second.len);
    if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(p, len);
    seam.mapped -= len; seam.maps.erase(i); HEAP_FREE(p); return 0;
}
struct Cookie { int fd; };
static ssize_t c_read(void *c, char *b, size_t n)
{
    auto i = seam.fds.find(((Cookie *) c)->fd); if (i == seam.fds.end()) { errno = EBADF; return -1; }
    seam.nread++;
    if (seam.fire(F_READ_ERR)) { errno = EIO; return -1; }
    if (i->second.cut) return 0;
    if (seam.fire(F_READ_EOF)) { i->second.cut = true; n = sim.d(2) ? sim.d((u32) n + 1) : 0; }      // the rest of the file is gone
    auto &d = i->second.ino->data; u64 k = i->second.pos < d.size() ? std::min<u64>(n, d.size() - i->second.pos) : 0;
    memcpy(b, d.data() + i->second.pos, k); i->second.pos += k; return k;
}
static int c_seek(void *c, off64_t *o, int wh)
{
    auto i = seam.fds.find(((Cookie *) c)->fd); if (i == seam.fds.end()) { errno = EBADF; return -1; }
    if (seam.fire(F_SEEK)) { errno = EIO; return -1; }
    i->second.cut = false; s64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (s64) i->second.pos : (s64) i->second.ino->data.size();
    if (b + *o < 0) { errno = EINVAL; return -1; }
    i->second.pos = b + *o; *o = i->second.pos; return 0;
}
static int c_close(void *c) { int fd = ((Cookie *) c)->fd; seam.fds.erase(fd); delete (Cookie *) c; return 0; }
static FILE *mkstream(int fd)
{
    cookie_io_functions_t io = { c_read, nullptr, c_seek, c_close };
    FILE *f = fopencookie(new Cookie{fd}, "rb", io);
    return f;
}
FILE *__wrap_fdopen(int fd, const char *m)
{
    auto i = seam.fds.find(fd); if (i == seam.fds.end()) return __real_fdopen(fd, m);
    if (seam.fire(F_FDOPEN)) { errno = ENOMEM; return nullptr; }
    i->second.file = true; return mkstream(fd);
}
FILE *__wrap_fopen(const char *p, const char *m)
{
    if (!simfile(p)) return __real_fopen(p, m);
    int fd = __wrap_open(p, O_RDONLY); if (fd < 0) return nullptr;
    seam.fds[fd].file = true; return mkstream(fd);
}

// Mutexes.  Never real: one process, one OS thread; the simulator decides who runs.
static int self() { return sched_hooks ? sched_hooks->self() : 0; }
int __wrap_mtx_init(mtx_t *m, int type) { (void) type; if (seam.fire(F_MTXINIT)) return thrd_error; seam.mtx[m] = Seam::Mtx(); return thrd_success; }
void __wrap_mtx_destroy(mtx_t *m)
{
    auto i = seam.mtx.find(m); if (i == seam.mtx.end()) sim.fail("mutex-misuse", "destroying a mutex that is not initialised");
    if (i->second.owner >= 0) sim.fail("mutex-misuse", "destroying a locked mutex");
    seam.mtx.erase(i);
}
int __wrap_mtx_lock(mtx_t *m)
{
    if (sched_hooks) sched_hooks->yield("lock");
    for (;;) {
        auto i = seam.mtx.find(m); if (i == seam.mtx.end()) sim.fail("mutex-misuse", "locking a mutex that is not initialised");
        if (i->second.owner < 0) { i->second.owner = self(); seam.held++; if (sched_hooks) sched_hooks->acquire(m); return thrd_success; }
        if (std::uncaught_exceptions()) return thrd_success;      // a violation is on its way; cleaning up must not hide it
        if (i->second.owner == self()) sim.fail("deadlock", "locking a mutex the caller already holds");
        if (!sched_hooks) sim.fail("deadlock", "locking a mutex left locked by an earlier call");
        sched_hooks->block(m);
    }
}
int __wrap_mtx_trylock(mtx_t *m)
{
    auto i = seam.mtx.find(m); if (i == seam.mtx.end()) sim.fail("mutex-misuse", "locking a mutex that is not initialised");
    if (i->second.owner >= 0) return thrd_busy;
    i->second.owner = self(); seam.held++; return thrd_success;
}
int __wrap_mtx_unlock(mtx_t *m)
{
    auto i = seam.mtx.find(m); if (i == seam.mtx.end()) sim.fail("mutex-misuse", "unlocking a mutex that is not initialised");
    if (std::uncaught_exceptions()) return thrd_success;
    if (i->second.owner != self()) sim.fail("mutex-misuse", "unlocking a mutex the caller does not hold");
    i->second.owner = -1; seam.held--;
    if (sched_hooks) { sched_hooks->release(m); sched_hooks->wake(m); sched_hooks->yield("unlock"); }
    return thrd_success;
}
}
