#include "vsched.h"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern "C" void* __libc_malloc(size_t); extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t); extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

namespace vs {
enum St { FREE, RUN, BLOCKED, DONE };
struct Thr {
    std::atomic<int> sem{0};
    St st = FREE; const void* key = nullptr; int64_t deadline = -1; bool timedout = false, waiting = false;
    int64_t prio = 0; uint64_t ran = 0; pthread_t pt; bool known = false;
};
static const int MAXT = 512;
static Thr th[MAXT]; static int nth = 0;
static bool on = false;
static int cur = -1;
static thread_local int me = -1;
static uint64_t rs, nsteps, maxSteps, mean, nextChange; static int64_t budget, lowPrio; static int strategy;
static int64_t vnow, vreal;       // virtual clock: monotonic nanoseconds; offset to the wall clock

static void say(const char* f, ...) {
    char b[512]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap);
    ssize_t r = write(2, b, n); (void)r;
}
char* lastWords = nullptr;
[[noreturn]] static void die(const char* why) { if (lastWords) snprintf(lastWords, 256, "%s after %llu steps", why, (unsigned long long)nsteps); say("SCHED: %s after %llu steps\n", why, (unsigned long long)nsteps); signal(SIGABRT, SIG_DFL); abort(); }
uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull; }
static uint64_t below(uint64_t n) { return n ? (rnd() >> 11) % n : 0; }
static void futexWait(std::atomic<int>* a, int v) { syscall(SYS_futex, (int*)a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futexWake(std::atomic<int>* a) { syscall(SYS_futex, (int*)a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void post(Thr& t) { t.sem.store(1); futexWake(&t.sem); }
static void await(Thr& t) { while (t.sem.exchange(0) == 0) futexWait(&t.sem, 0); }

static void newBudget() {
    if (strategy == 1) { budget = 4000; return; }
    // geometric with the run's mean
    budget = 1; if (mean > 1) { uint64_t m = 1 + below(2 * mean); budget = m; if (below(8) == 0) budget = 1 + below(4); }
}
static int64_t nextDeadline() { int64_t d = -1; for (int i = 0; i < nth; ++i) if (th[i].st == BLOCKED && th[i].deadline >= 0 && (d < 0 || th[i].deadline < d)) d = th[i].deadline; return d; }
static void expire() {
    for (int i = 0; i < nth; ++i) if (th[i].st == BLOCKED && th[i].deadline >= 0 && th[i].deadline <= vnow) { th[i].st = RUN; th[i].timedout = true; }
}
static int pick(bool notMe) {
    for (;;) {
        int c[MAXT], n = 0;
        for (int i = 0; i < nth; ++i) if (th[i].st == RUN && !(notMe && i == me)) c[n++] = i;
        // Time passes by itself once in a while, so that sleepers also run early.
        if (n && strategy != 1 && below(64) == 0) { int64_t d = nextDeadline(); if (d >= 0 && below(4) == 0) { if (d > vnow) vnow = d; expire(); } }
        if (n) {
            if (strategy == 1) { int b = c[0]; for (int k = 1; k < n; ++k) if (th[c[k]].prio > th[b].prio) b = c[k]; return b; }
            return c[below(n)];
        }
        if (notMe && me >= 0 && th[me].st == RUN) return me;
        int64_t d = nextDeadline();
        if (d < 0) { for (int i = 0; i < nth; ++i) if (th[i].st == BLOCKED) say("SCHED: thread %d waits for %p\n", i, th[i].key); die("deadlock"); }
        if (d > vnow) vnow = d;
        expire();
    }
}
static void go(int to) {               // hands over; returns when this thread runs again
    int mine = me;
    newBudget();
    if (to == mine) { cur = mine; return; }
    cur = to; post(th[to]);
    await(th[mine]);
}
static inline bool in() { return on && me >= 0; }
static void slow(bool force) {
    if (strategy == 1) {
        if (force || budget <= 0) th[me].prio = --lowPrio;
        if (nsteps >= nextChange) { th[me].prio = --lowPrio; nextChange = nsteps + 1 + below(mean * 40); }
    }
    go(pick(force));
}
static inline void point() {
    if (!in()) return;
    ++nsteps; vnow += 20;
    if (nsteps > maxSteps) die("no end in sight");
    if (--budget > 0 && !(strategy == 1 && nsteps >= nextChange)) return;
    slow(false);
}
void yield() { if (!in()) return; ++nsteps; vnow += 200; if (nsteps > maxSteps) die("no end in sight"); slow(true); }
static bool block(const void* key, int64_t deadline) {   // true: timed out
    Thr& t = th[me];
    t.st = BLOCKED; t.key = key; t.deadline = deadline; t.timedout = false;
    go(pick(false));
    return t.timedout;
}
static void wakeAll(const void* key) { for (int i = 0; i < nth; ++i) if (th[i].st == BLOCKED && th[i].key == key) th[i].st = RUN; }
static void wakeOne(const void* key) {
    int c[MAXT], n = 0; for (int i = 0; i < nth; ++i) if (th[i].st == BLOCKED && th[i].key == key) c[n++] = i;
    if (n) th[c[below(n)]].st = RUN;
}
static int add() {
    int i = 0; while (i < nth && th[i].st != FREE) ++i;
    if (i == nth) { if (nth == MAXT) die("too many threads"); ++nth; }
    Thr& t = th[i]; t.sem = 0; t.st = RUN; t.key = nullptr; t.deadline = -1; t.known = false; t.prio = 1 + below(1000000); return i;
}

// ---------------------------------------------------------------- memory
// While the scheduler is on, memory comes from an arena that is not reused, so
// that an access to memory already freed is seen.
static const uintptr_t AB = 0x600000000000ull, AS = 8ull << 30;
static uint8_t* shadow; static uintptr_t atop = AB; static bool aready = false;
static void arena() {
    if (aready) return;
    aready = true;
    if (mmap((void*)AB, AS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*)AB) die("no arena");
    shadow = (uint8_t*)mmap(0, AS / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shadow == MAP_FAILED) die("no shadow");
}
static inline bool inArena(const void* p) { return (uintptr_t)p - AB < AS; }
static void* aalloc(size_t n, size_t al, bool fill) {
    if (al < 16) al = 16;
    uintptr_t p = (atop + 32 + al - 1) & ~(uintptr_t)(al - 1);
    size_t sz = (n + 15) & ~(size_t)15; if (!sz) sz = 16;
    if (p + sz + 16 > AB + AS) die("arena used up");
    ((size_t*)p)[-2] = n; ((size_t*)p)[-1] = 0x5AFE;
    memset(shadow + ((p - AB) >> 4), 1, sz >> 4);
    atop = p + sz;
    if (fill) memset((void*)p, 0xCD, n < 512 ? n : 512);
    return (void*)p;
}
static void afree(void* p) {
    uintptr_t a = (uintptr_t)p; size_t n = ((size_t*)a)[-2], sz = (n + 15) & ~(size_t)15; if (!sz) sz = 16;
    if (((size_t*)a)[-1] != 0x5AFE) { if (on) die(((size_t*)a)[-1] == 0xDEAD ? "memory freed twice" : "bad free"); return; }
    ((size_t*)a)[-1] = 0xDEAD;
    memset(shadow + ((a - AB) >> 4), 0, sz >> 4);
    if (sz >= 65536) madvise((void*)((a + 4095) & ~4095ull), ((a + sz) & ~4095ull) - ((a + 4095) & ~4095ull), MADV_DONTNEED);
}
static inline void access(const void* p, size_t n) {
    if (!inArena(p) || !on) return;
    uintptr_t a = (uintptr_t)p - AB;
    if (!shadow[a >> 4] || !shadow[(a + n - 1) >> 4]) die("access to freed or foreign memory");
}
void touch(const void* p, unsigned n) { access(p, n); point(); }
#define ACC(p, n) do { vs::access(p, n); vs::point(); } while (0)

// ---------------------------------------------------------------- control
void begin(const Opts& o) {
    arena();
    rs = o.seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull; if (!rs) rs = 1; for (int i = 0; i < 8; ++i) rnd();
    strategy = o.strategy; maxSteps = o.maxSteps; nsteps = 0;
    static const uint64_t M[] = {1, 2, 4, 8, 16, 40, 120, 400}; static const uint64_t C[] = {6, 20, 60, 60, 200, 200, 1000, 4000};
    mean = (o.coarse ? C : M)[below(8)];
    static bool pinned = false;             // handing over is cheaper on one processor
    if (!pinned) {
        cpu_set_t a; pinned = true;
        if (sched_getaffinity(0, sizeof a, &a) == 0) { int n = CPU_COUNT(&a), k = getppid() % n; for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &a) && k-- == 0) { CPU_ZERO(&a); CPU_SET(i, &a); sched_setaffinity(0, sizeof a, &a); break; } }
    }
    lowPrio = 0; nextChange = strategy == 1 ? 1 + below(mean * 40) : UINT64_MAX;
    vnow = 1000000000000ll; vreal = 1700000000ll * 1000000000 - vnow;
    nth = 0; me = add(); cur = me; th[me].pt = pthread_self(); th[me].known = true;
    newBudget(); on = true;
}
void end() {
    // Threads that were detached may still be about to finish.
    for (int k = 0; k < 100000; ++k) { bool others = false; for (int i = 0; i < nth; ++i) if (i != me && (th[i].st == RUN || (th[i].st == BLOCKED && th[i].deadline >= 0))) others = true; if (!others) break; yield(); }
    on = false; me = -1;
}
bool active() { return in(); }
int self() { return in() ? me : -1; }
uint64_t steps() { return nsteps; }

struct Start { void* (*f)(void*); void* a; int id; };
static void finish() {
    int mine = me; me = -1;
    th[mine].st = DONE; wakeAll(&th[mine]);
    cur = -1; int to = pick(false); newBudget(); cur = to; post(th[to]);
}
static void* tramp(void* p) {
    Start s = *(Start*)p; __libc_free(p);
    await(th[s.id]);
    me = s.id;
    void* r = s.f(s.a);
    finish();
    return r;
}
template <class F> static F real(const char* n, const char* ver = nullptr) { void* p = ver ? dlvsym(RTLD_NEXT, n, ver) : nullptr; return (F)(p ? p : dlsym(RTLD_NEXT, n)); }
#define REAL(ret, name, ...) static ret (*r_##name)(__VA_ARGS__) = nullptr; if (!r_##name) r_##name = vs::real<ret (*)(__VA_ARGS__)>(#name)
static int64_t ns(const timespec* t) { return (int64_t)t->tv_sec * 1000000000 + t->tv_nsec; }
static void lock(pthread_mutex_t* m) {
    REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
    while (r_pthread_mutex_trylock(m) == EBUSY) block(m, -1);
}
static void unlock(pthread_mutex_t* m) {
    REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
    r_pthread_mutex_unlock(m); wakeAll(m);
}
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, int64_t dl) {
    // Released and waiting in one step; another thread may run before and after.
    point();
    REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
    r_pthread_mutex_unlock(m); wakeAll(m);
    bool to = block(c, dl);
    lock(m);
    return to ? ETIMEDOUT : 0;
}
}  // namespace vs
using namespace vs;

extern "C" {
int pthread_create(pthread_t* pt, const pthread_attr_t* at, void* (*f)(void*), void* a) {
    static auto r = vs::real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create", "GLIBC_2.34");
    if (!in()) return r(pt, at, f, a);
    int id = add(); Start* s = (Start*)__libc_malloc(sizeof(Start)); s->f = f; s->a = a; s->id = id;
    int rc = r(pt, at, tramp, s);
    if (rc) { th[id].st = DONE; return rc; }
    th[id].pt = *pt; th[id].known = true;
    point();
    return 0;
}
int pthread_join(pthread_t pt, void** ret) {
    static auto r = vs::real<int (*)(pthread_t, void**)>("pthread_join", "GLIBC_2.34");
    if (in()) {
        for (int i = 0; i < nth; ++i) if (i != me && th[i].known && pthread_equal(th[i].pt, pt)) { while (th[i].st != DONE) block(&th[i], -1); th[i].known = false; break; }
    }
    return r(pt, ret);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!in()) { REAL(int, pthread_mutex_lock, pthread_mutex_t*); return r_pthread_mutex_lock(m); }
    point(); lock(m); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) { REAL(int, pthread_mutex_trylock, pthread_mutex_t*); point(); return r_pthread_mutex_trylock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!in()) { REAL(int, pthread_mutex_unlock, pthread_mutex_t*); return r_pthread_mutex_unlock(m); }
    unlock(m); point(); return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!in()) { static auto r = vs::real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait", "GLIBC_2.3.2"); return r(c, m); }
    return cwait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
    if (!in()) { static auto r = vs::real<int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)>("pthread_cond_timedwait", "GLIBC_2.3.2"); return r(c, m, t); }
    return cwait(c, m, ns(t) - vreal);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) {
    if (!in()) { static auto r = vs::real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)>("pthread_cond_clockwait"); return r(c, m, k, t); }
    return cwait(c, m, k == CLOCK_REALTIME ? ns(t) - vreal : ns(t));
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!in()) { static auto r = vs::real<int (*)(pthread_cond_t*)>("pthread_cond_signal", "GLIBC_2.3.2"); return r(c); }
    wakeOne(c); point(); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!in()) { static auto r = vs::real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast", "GLIBC_2.3.2"); return r(c); }
    wakeAll(c); point(); return 0;
}
int sched_yield() { if (in()) vs::yield(); else syscall(SYS_sched_yield); return 0; }
int nanosleep(const timespec* t, timespec* rem) {
    if (!in()) { int r = syscall(SYS_clock_nanosleep, CLOCK_MONOTONIC, 0, t, rem); return r; }
    block(nullptr, vnow + ns(t)); return 0;
}
int clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec* rem) {
    if (!in()) { long r = syscall(SYS_clock_nanosleep, c, fl, t, rem); return r < 0 ? errno : 0; }
    int64_t d = fl & TIMER_ABSTIME ? (c == CLOCK_REALTIME ? ns(t) - vreal : ns(t)) : vnow + ns(t);
    if (d > vnow) block(nullptr, d); else point();
    return 0;
}
int usleep(useconds_t u) { timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
unsigned sleep(unsigned s) { timespec t{(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }
int clock_gettime(clockid_t c, timespec* t) {
    if (!in()) return syscall(SYS_clock_gettime, c, t);
    vnow += 100; int64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? vnow + vreal : vnow; t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0;
}
int gettimeofday(struct timeval* tv, void*) { timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
time_t time(time_t* p) { timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
int rand() { static uint64_t s = 1; if (in()) return (int)(rnd() >> 33); s = s * 6364136223846793005ull + 1442695040888963407ull; return (int)(s >> 33); }

// Function-local statics: their initialization may be interrupted.
int __cxa_guard_acquire(long long* g) {
    uint8_t* b = (uint8_t*)g;
    for (;;) {
        if (b[0]) return 0;
        if (!b[1]) { b[1] = 1; return 1; }
        if (in()) vs::yield(); else syscall(SYS_sched_yield);
    }
}
void __cxa_guard_release(long long* g) { ((uint8_t*)g)[0] = 1; ((uint8_t*)g)[1] = 0; }
void __cxa_guard_abort(long long* g) { ((uint8_t*)g)[1] = 0; }

// Memory.
void* malloc(size_t n) { return in() ? aalloc(n, 16, true) : __libc_malloc(n); }
void free(void* p) { if (!p) return; if (inArena(p)) afree(p); else __libc_free(p); }
void* calloc(size_t a, size_t b) {
    if (!in()) return __libc_calloc(a, b);
    if (b && a > (size_t)-1 / b) return nullptr;
    return aalloc(a * b, 16, false);      // fresh pages are zero
}
void* realloc(void* p, size_t n) {
    if (p && !inArena(p)) return __libc_realloc(p, n);
    if (!p) return malloc(n);
    if (!n) { free(p); return nullptr; }
    void* q = malloc(n); size_t o = ((size_t*)p)[-2]; memcpy(q, p, o < n ? o : n); free(p); return q;
}
void* memalign(size_t al, size_t n) { return in() ? aalloc(n, al, true) : __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** p, size_t al, size_t n) { *p = memalign(al, n); return *p ? 0 : ENOMEM; }

// ---------------------------------------------------------------- compiler callbacks
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { ACC(p, 8); }
void __tsan_vptr_read(void** p) { ACC(p, 8); }
#define RW(n) void __tsan_read##n(void* p) { ACC(p, n); } void __tsan_write##n(void* p) { ACC(p, n); } \
    void __tsan_unaligned_read##n(void* p) { ACC(p, n); } void __tsan_unaligned_write##n(void* p) { ACC(p, n); } \
    void __tsan_volatile_read##n(void* p) { ACC(p, n); } void __tsan_volatile_write##n(void* p) { ACC(p, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (n) ACC(p, n); }
void __tsan_write_range(void* p, size_t n) { if (n) ACC(p, n); }
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T* p, int) { ACC((const void*)p, sizeof(T)); return *p; } \
    void __tsan_atomic##b##_store(volatile T* p, T v, int) { ACC((const void*)p, sizeof(T)); *p = v; } \
    T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { ACC((const void*)p, sizeof(T)); T o = *p; *p = v; return o; } \
    T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { ACC((const void*)p, sizeof(T)); T o = *p; *p = (T)(o + v); return o; } \
    T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { ACC((const void*)p, sizeof(T)); T o = *p; *p = (T)(o - v); return o; } \
    T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { ACC((const void*)p, sizeof(T)); T o = *p; *p = (T)(o & v); return o; } \
    T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { ACC((const void*)p, sizeof(T)); T o = *p; *p = (T)(o | v); return o; } \
    T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { ACC((const void*)p, sizeof(T)); T o = *p; *p = (T)(o ^ v); return o; } \
    T __tsan_atomic##b##_fetch_nand(volatile T* p, T v, int) { ACC((const void*)p, sizeof(T)); T o = *p; *p = (T)~(o & v); return o; } \
    bool __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { ACC((const void*)p, sizeof(T)); if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
    bool __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int a, int c) { return __tsan_atomic##b##_compare_exchange_strong(p, e, v, a, c); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T v, int a, int c) { __tsan_atomic##b##_compare_exchange_strong(p, &e, v, a, c); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
typedef unsigned __int128 u128;
AT(128, u128)
void __tsan_atomic_thread_fence(int) { vs::point(); }
void __tsan_atomic_signal_fence(int) {}
}
