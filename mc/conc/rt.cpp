// The run-time library the compiler's ThreadSanitizer instrumentation calls.  It does two things on every
// access of a scheduled thread: (1) an access to memory the thread does not own is a scheduling point, where
// the plan may hand the baton to another thread; (2) a vector-clock detector reports two accesses to the same
// bytes, one of them a write, that no synchronisation orders.
// Plain C style: no library templates, so nothing here is instrumented or shared with instrumented code.
#include "rt.h"
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <new>

#define NOI __attribute__((no_sanitize("thread"), noinline))
extern "C" char* __cxa_demangle(const char*, char*, size_t*, int*);

struct RtPoint rt_log[RT_LOG];

//---------------------------------------------------------------- state
static const size_t kArena = 64u << 20;
struct Thread {
    pthread_t th;
    int started;
    volatile int turn;          // futex word: 1 = may run
    int done, waiting;          // waiting: blocked on a lock since the last progress
    char *stack_lo, *stack_hi;
    char *arena, *top;
    void* freelist[48];
    uint32_t clock[RT_MAXT];
};
static Thread T[RT_MAXT];
static int nthreads, current, planlen, planpos;
static struct RtSwitch plan_[RT_MAXPLAN];
static struct RtResult* res;
static void (*body)(int);
static volatile int mainturn;
static thread_local int self = -1;       // index of the scheduled thread, -1 elsewhere
static thread_local int inside = 0;      // in the run time itself

static void fwait(volatile int* w) {
    for (int i = 0; i < 200; i++) { if (__atomic_load_n(w, __ATOMIC_ACQUIRE)) { __atomic_store_n(w, 0, __ATOMIC_RELEASE); return; } __builtin_ia32_pause(); }
    while (!__atomic_load_n(w, __ATOMIC_ACQUIRE)) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
static void fwake(volatile int* w) {
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void handTo(int t) {
    int me = self;
    if (t == me) return;
    current = t;
    int ended = me < 0 || T[me].done;   // read before the others run: the next run resets it
    fwake(&T[t].turn);
    if (!ended) fwait(&T[me].turn);
}
static int enabledMask() {
    int m = 0;
    for (int i = 0; i < nthreads; i++) if (!T[i].done && !T[i].waiting) m |= 1 << i;
    return m;
}
static int lowest(int m) { for (int i = 0; i < RT_MAXT; i++) if (m >> i & 1) return i; return -1; }

// A scheduling point.  forced: the running thread cannot go on (ended or blocked).
static void point(int forced) {
    uint32_t p = res->points++;
    int en = enabledMask(), me = self, next = me;
    if (forced) { en &= ~(1 << me); next = lowest(en); }
    if (p < RT_LOG) { rt_log[p].cur = (uint8_t)(next < 0 ? 0 : next); rt_log[p].enabled = (uint8_t)en; rt_log[p].forced = (uint8_t)forced; }
    else res->overflow = 1;
    if (planpos < planlen && plan_[planpos].point == p) {
        int to = plan_[planpos].to;
        planpos++;
        if (en >> to & 1) { next = to; res->taken++; }
    }
    if (next >= 0 && next != me) handTo(next);
}
extern "C" NOI void rt_point(void) { if (self >= 0 && !inside) { inside = 1; point(0); inside = 0; } }

//---------------------------------------------------------------- vector clocks
struct Cell { uintptr_t a; uint32_t gen; uint32_t w[RT_MAXT], r[RT_MAXT]; uint8_t wm[RT_MAXT], rm[RT_MAXT]; void* wpc[RT_MAXT]; void* rpc[RT_MAXT]; };
static const uint32_t kCells = 1 << 16;
static Cell* cells;
static uint32_t gen_ = 0, used;
struct Sync { void* a; uint32_t gen; uint32_t clock[RT_MAXT]; int owner, readers; };
static const int kSyncs = 1024;
static Sync syncs[kSyncs];

static Cell* cellFor(uintptr_t a, int make) {
    uint32_t h = (uint32_t)((a * 0x9e3779b97f4a7c15ull) >> 48) & (kCells - 1);
    for (;;) {
        Cell* c = &cells[h];
        if (c->gen != gen_) {
            if (!make || used > kCells * 3 / 4) return 0;
            used++;
            __builtin_memset(c, 0, sizeof *c);
            c->gen = gen_; c->a = a;
            return c;
        }
        if (c->a == a) return c;
        h = (h + 1) & (kCells - 1);
    }
}
static Sync* syncFor(void* a) {
    uint32_t h = (uint32_t)(((uintptr_t)a * 0x9e3779b97f4a7c15ull) >> 54) & (kSyncs - 1);
    for (int i = 0; i < kSyncs; i++, h = (h + 1) & (kSyncs - 1)) {
        Sync* s = &syncs[h];
        if (s->gen != gen_) { __builtin_memset(s, 0, sizeof *s); s->gen = gen_; s->a = a; s->owner = -1; return s; }
        if (s->a == a) return s;
    }
    return &syncs[0];
}
static void acquire(Sync* s) { for (int i = 0; i < nthreads; i++) if (s->clock[i] > T[self].clock[i]) T[self].clock[i] = s->clock[i]; }
static void release(Sync* s) {
    for (int i = 0; i < nthreads; i++) if (T[self].clock[i] > s->clock[i]) s->clock[i] = T[self].clock[i];
    T[self].clock[self]++;
}
static void nameOf(void* pc, char* buf, size_t n) {
    Dl_info d;
    if (dladdr(pc, &d) && d.dli_sname) {
        int st = 0;
        char* x = __cxa_demangle(d.dli_sname, 0, 0, &st);
        snprintf(buf, n, "%s", st == 0 && x ? x : d.dli_sname);
        free(x);
    } else snprintf(buf, n, "?");
    char* paren = buf;
    while (*paren && *paren != '(') paren++;
    *paren = 0;
}
static void raceFound(int a, int aw, void* apc, int b, int bw, void* bpc) {
    if (res->race) return;
    res->race = 1;
    char x[200], y[200];
    nameOf(apc, x, sizeof x);
    nameOf(bpc, y, sizeof y);
    snprintf(res->what, sizeof res->what, "data race: thread %d %s in %.180s, thread %d %s the same memory in %.180s", a, aw ? "writes" : "reads", x, b, bw ? "writes" : "reads", y);
}
static void monitor(uintptr_t p, size_t n, int write, void* pc) {
    uintptr_t end = p + n;
    while (p < end) {
        uintptr_t g = p & ~(uintptr_t)7;
        uintptr_t stop = g + 8 < end ? g + 8 : end;
        uint8_t mask = 0;
        for (uintptr_t q = p; q < stop; q++) mask |= (uint8_t)(1u << (q - g));
        Cell* c = cellFor(g, 1);
        if (c) {
            for (int t = 0; t < nthreads; t++) {
                if (t == self) continue;
                if ((c->wm[t] & mask) && c->w[t] > T[self].clock[t]) raceFound(t, 1, c->wpc[t], self, write, pc);
                if (write && (c->rm[t] & mask) && c->r[t] > T[self].clock[t]) raceFound(t, 0, c->rpc[t], self, write, pc);
            }
            uint32_t e = T[self].clock[self];
            if (write) { if (c->w[self] != e) c->wm[self] = 0; c->w[self] = e; c->wm[self] |= mask; c->wpc[self] = pc; }
            else { if (c->r[self] != e) c->rm[self] = 0; c->r[self] = e; c->rm[self] |= mask; c->rpc[self] = pc; }
        } else res->overflow = 1;
        p = stop;
    }
}
// Constants of the program cannot be written: reading them is no event.
extern "C" char __executable_start, __data_start;
static inline void access(void* addr, size_t n, int write, void* pc) {
    if (self < 0 || inside || n == 0) return;
    char* a = (char*)addr;
    Thread& t = T[self];
    if (a >= t.stack_lo && a < t.stack_hi) return;
    if (a >= &__executable_start && a < &__data_start) return;
    inside = 1;
    res->accesses++;
    if (!(a >= t.arena && a < t.arena + kArena)) {
        res->shared++;
        res->shared_writes += write;
        point(0);
    }
    monitor((uintptr_t)a, n, write, pc);
    inside = 0;
}
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define RW(n) \
    void __tsan_read##n(void* a) { access(a, n, 0, PC); } \
    void __tsan_write##n(void* a) { access(a, n, 1, PC); } \
    void __tsan_unaligned_read##n(void* a) { access(a, n, 0, PC); } \
    void __tsan_unaligned_write##n(void* a) { access(a, n, 1, PC); } \
    void __tsan_volatile_read##n(void* a) { access(a, n, 0, PC); } \
    void __tsan_volatile_write##n(void* a) { access(a, n, 1, PC); } \
    void __tsan_unaligned_volatile_read##n(void* a) { access(a, n, 0, PC); } \
    void __tsan_unaligned_volatile_write##n(void* a) { access(a, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access(a, n, 0, PC); }
void __tsan_write_range(void* a, size_t n) { access(a, n, 1, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, 1, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, 0, PC); }

//---------------------------------------------------------------- atomics: scheduling points that synchronise
static void atomicPoint(volatile void* a) {
    if (self < 0 || inside) return;
    inside = 1;
    point(0);
    Sync* s = syncFor((void*)a);
    acquire(s);
    release(s);
    inside = 0;
}
#define ATOMIC(bits, T_) \
    T_ __tsan_atomic##bits##_load(const volatile T_* a, int) { atomicPoint((volatile void*)a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T_* a, T_ v, int) { atomicPoint(a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T_ __tsan_atomic##bits##_exchange(volatile T_* a, T_ v, int) { atomicPoint(a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T_ __tsan_atomic##bits##_fetch_add(volatile T_* a, T_ v, int) { atomicPoint(a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T_ __tsan_atomic##bits##_fetch_sub(volatile T_* a, T_ v, int) { atomicPoint(a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T_ __tsan_atomic##bits##_fetch_and(volatile T_* a, T_ v, int) { atomicPoint(a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T_ __tsan_atomic##bits##_fetch_or(volatile T_* a, T_ v, int) { atomicPoint(a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T_ __tsan_atomic##bits##_fetch_xor(volatile T_* a, T_ v, int) { atomicPoint(a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T_* a, T_* c, T_ v, int, int) { atomicPoint(a); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T_* a, T_* c, T_ v, int, int) { atomicPoint(a); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

//---------------------------------------------------------------- locks
// Take the lock at address a, exclusively or shared; other threads run while it is taken.
static int lockAt(void* a, int shared, int wait) {
    inside = 1;
    point(0);
    int got = 0;
    for (;;) {
        Sync* s = syncFor(a);
        if (s->owner < 0 && (shared || s->readers == 0)) {
            if (shared) s->readers++;
            else s->owner = self;
            acquire(s);
            got = 1;
            break;
        }
        if (!wait) break;
        T[self].waiting = 1;
        if (!enabledMask()) {
            res->deadlock = 1;
            snprintf(res->what, sizeof res->what, "deadlock: every thread waits for a lock");
            T[self].waiting = 0;
            break;
        }
        point(1);
        T[self].waiting = 0;
    }
    inside = 0;
    return got;
}
static void unlockAt(void* a) {
    inside = 1;
    Sync* s = syncFor(a);
    release(s);
    if (s->owner == self) s->owner = -1;
    else if (s->readers > 0) s->readers--;
    for (int i = 0; i < nthreads; i++) T[i].waiting = 0;
    inside = 0;
}
typedef int (*Fn1)(void*);
#define REAL(name) static Fn1 f = (Fn1)dlsym(RTLD_NEXT, name); return f(m);
#define SCHEDULED (self >= 0 && !inside)
int pthread_mutex_lock(pthread_mutex_t* m) { if (SCHEDULED) { lockAt(m, 0, 1); return 0; } REAL("pthread_mutex_lock") }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (SCHEDULED) return lockAt(m, 0, 0) ? 0 : 16; REAL("pthread_mutex_trylock") }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (SCHEDULED) { unlockAt(m); return 0; } REAL("pthread_mutex_unlock") }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (SCHEDULED) { lockAt(m, 1, 1); return 0; } REAL("pthread_rwlock_rdlock") }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (SCHEDULED) { lockAt(m, 0, 1); return 0; } REAL("pthread_rwlock_wrlock") }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (SCHEDULED) { unlockAt(m); return 0; } REAL("pthread_rwlock_unlock") }
int pthread_spin_lock(pthread_spinlock_t* m) { if (SCHEDULED) { lockAt((void*)m, 0, 1); return 0; } static Fn1 f = (Fn1)dlsym(RTLD_NEXT, "pthread_spin_lock"); return f((void*)m); }
int pthread_spin_unlock(pthread_spinlock_t* m) { if (SCHEDULED) { unlockAt((void*)m); return 0; } static Fn1 f = (Fn1)dlsym(RTLD_NEXT, "pthread_spin_unlock"); return f((void*)m); }

// Guards of function-local statics: byte 0 says initialised, byte 1 in progress.
int __cxa_guard_acquire(long long int* g) {
    volatile char* b = (volatile char*)g;
    if (!SCHEDULED) { if (b[0]) return 0; b[1] = 1; return 1; }
    lockAt(g, 0, 1);
    if (b[0]) { unlockAt(g); return 0; }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(long long int* g) {
    volatile char* b = (volatile char*)g;
    b[0] = 1; b[1] = 0;
    if (SCHEDULED) unlockAt(g);
}
void __cxa_guard_abort(long long int* g) {
    volatile char* b = (volatile char*)g;
    b[1] = 0;
    if (SCHEDULED) unlockAt(g);
}

//---------------------------------------------------------------- block operations of the C library
#define NOLOOP __attribute__((optimize("no-tree-loop-distribute-patterns")))
NOLOOP void* memcpy(void* d, const void* s, size_t n) {
    if (self >= 0 && !inside) { access((void*)s, n, 0, PC); access(d, n, 1, PC); }
    void* r = d;
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
NOLOOP void* memmove(void* d, const void* s, size_t n) {
    if (self >= 0 && !inside) { access((void*)s, n, 0, PC); access(d, n, 1, PC); }
    char* x = (char*)d;
    const char* y = (const char*)s;
    if (x < y || x >= y + n) { void* e = d; __asm__ volatile("rep movsb" : "+D"(e), "+S"(y), "+c"(n) : : "memory"); }
    else while (n--) x[n] = y[n];
    return d;
}
NOLOOP void* memset(void* d, int c, size_t n) {
    if (self >= 0 && !inside) access(d, n, 1, PC);
    void* e = d;
    __asm__ volatile("rep stosb" : "+D"(e), "+c"(n) : "a"(c) : "memory");
    return d;
}
NOLOOP int memcmp(const void* a, const void* b, size_t n) {
    if (self >= 0 && !inside) { access((void*)a, n, 0, PC); access((void*)b, n, 0, PC); }
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
}

//---------------------------------------------------------------- memory: a private arena per scheduled thread
static int owner(void* p) {
    for (int i = 0; i < RT_MAXT; i++) if (T[i].arena && (char*)p >= T[i].arena && (char*)p < T[i].arena + kArena) return i;
    return -1;
}
static void forget(uintptr_t p, size_t n) {
    for (uintptr_t g = p; g < p + n; g += 8) {
        Cell* c = cellFor(g, 0);
        if (c) { __builtin_memset(c->wm, 0, sizeof c->wm); __builtin_memset(c->rm, 0, sizeof c->rm); }
    }
}
static void* take(size_t n) {
    if (self < 0 || inside) {
        void* p = malloc(n ? n : 1);
        if (p) for (size_t i = 0; i < n && i < 4096; i++) ((volatile char*)p)[i] = (char)0xa5;
        return p;
    }
    int k = 4;   // size classes of 2^k bytes, header included
    while (((size_t)1 << k) < n + 16) k++;
    Thread& t = T[self];
    char* b;
    if (t.freelist[k]) { b = (char*)t.freelist[k]; t.freelist[k] = *(void**)(b + 16); }
    else {
        size_t sz = (size_t)1 << k;
        if (sz < 32) sz = 32;
        if (t.top + sz > t.arena + kArena) return malloc(n);
        b = t.top;
        t.top += sz;
    }
    *(uint64_t*)b = k;
    inside = 1;
    forget((uintptr_t)b, n + 16);
    inside = 0;
    for (size_t i = 0; i < n; i++) ((volatile char*)b)[16 + i] = (char)0xa5;
    return b + 16;
}
static void give(void* p) {
    if (!p) return;
    int o = owner(p);
    if (o < 0) { free(p); return; }
    char* b = (char*)p - 16;
    int k = (int)*(uint64_t*)b;
    *(void**)(b + 16) = T[o].freelist[k];
    T[o].freelist[k] = b;
}
static void* orThrow(void* p) { if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return orThrow(take(n)); }
void* operator new[](size_t n) { return orThrow(take(n)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }

//---------------------------------------------------------------- running
static void* loop(void* v) {
    int me = (int)(intptr_t)v;
    pthread_attr_t a;
    pthread_getattr_np(pthread_self(), &a);
    void* lo;
    size_t sz;
    pthread_attr_getstack(&a, &lo, &sz);
    pthread_attr_destroy(&a);
    T[me].stack_lo = (char*)lo;
    T[me].stack_hi = (char*)lo + sz;
    fwake(&mainturn);
    for (;;) {
        fwait(&T[me].turn);
        self = me;
        body(me);
        inside = 1;
        T[me].done = 1;
        for (int i = 0; i < nthreads; i++) T[i].waiting = 0;
        if (enabledMask()) point(1);
        else fwake(&mainturn);
        inside = 0;
        self = -1;
    }
    return 0;
}
extern "C" void rt_run(int n, void (*fn)(int), const struct RtSwitch* plan, int nplan, struct RtResult* out) {
    if (!cells) cells = (Cell*)mmap(0, sizeof(Cell) * kCells, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < n; i++) {
        if (T[i].started) continue;
        T[i].started = 1;
        T[i].arena = T[i].top = (char*)mmap(0, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstacksize(&a, 1 << 20);
        pthread_create(&T[i].th, &a, loop, (void*)(intptr_t)i);
        pthread_attr_destroy(&a);
        fwait(&mainturn);
    }
    gen_++;
    used = 0;
    nthreads = n;
    body = fn;
    res = out;
    __builtin_memset(out, 0, sizeof *out);
    planlen = nplan;
    planpos = 0;
    for (int i = 0; i < nplan; i++) plan_[i] = plan[i];
    for (int i = 0; i < n; i++) {
        T[i].done = T[i].waiting = 0;
        for (int j = 0; j < n; j++) T[i].clock[j] = i == j;
    }
    // point 0: who starts
    rt_log[0].cur = 0;
    rt_log[0].enabled = (uint8_t)((1 << n) - 1);
    rt_log[0].forced = 1;
    out->points = 1;
    int first = 0;
    if (planpos < planlen && plan_[0].point == 0) { first = plan_[0].to; planpos = 1; out->taken++; }
    current = first;
    fwake(&T[first].turn);
    fwait(&mainturn);
}
