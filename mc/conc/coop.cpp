// Run time for the multi-threaded benchmark program (C28).  The program itself is compiled unchanged, with
// -finstrument-functions for the functions of bench/; this object replaces pthread_create, pthread_join and
// pthread_exit by coroutines.  A scheduling point is a thread's start and end, a create, a join and every entry
// of a function of bench/.  MC_CHOICES gives the choice at each point (0: go on with the running thread if it can
// run, then the others by number); what could have been chosen is written to the file MC_TRACE.
//
// The program is also compiled with -fsanitize=thread; the compiler's hooks end here.  A word of static or heap
// memory that one thread writes and another one touches while both may run is reported after the choices in
// MC_TRACE; every access to a word listed in MC_HOT is a scheduling point as well.  Addresses are the same in every
// run: the program is linked at a fixed place and its heap is handed out from a fixed place, never twice.
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include <stdint.h>
#include <iostream>
#include <new>
#define NOHOOK __attribute__((no_instrument_function))

namespace {
struct Ctx {
    ucontext_t uc;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    bool done, joined;
    int waits;      // context it waits for, -1: none, -2: all others
};
const int kMax = 9;
Ctx ctx[kMax];      // 0: the main thread
int num = 1, cur = 0, points = 0;
char trace[1 << 16];
int tlen = 0;
const char* choices = 0;
void* blocked[kMax];   // the lock a thread waits for

struct Word { uintptr_t at; uint16_t touched, wrote; };
const int kWords = 1 << 16;
Word words[kWords];
uintptr_t hot[64];
int nhot = -1;
char* const kArena = (char*)0x100000000000;
const size_t kArenaSize = (size_t)1 << 30;
char* top = 0;
extern "C" char __data_start, _end;

NOHOOK bool isHot(uintptr_t w) {
    if (nhot < 0) {
        nhot = 0;
        const char* e = getenv("MC_HOT");
        while (e && *e && nhot < 64) {
            char* end;
            uintptr_t v = strtoull(e, &end, 16);
            if (end == e) break;
            hot[nhot++] = v;
            e = *end ? end + 1 : end;
        }
    }
    for (int i = 0; i < nhot; i++) if (hot[i] == w) return true;
    return false;
}
NOHOOK void writeTrace(FILE* o) {
    fwrite(trace, 1, tlen, o);
    for (int i = 0; i < kWords; i++)
        if (words[i].wrote && (words[i].touched & (words[i].touched - 1))) fprintf(o, "\n%lx", (unsigned long)words[i].at);
}
NOHOOK bool othersDone() { for (int i = 1; i < num; i++) if (!ctx[i].done) return false; return true; }
NOHOOK bool runnable(int i) {
    if (ctx[i].done || blocked[i]) return false;
    if (ctx[i].waits == -2) return othersDone();
    return ctx[i].waits < 0 || ctx[ctx[i].waits].done;
}
NOHOOK void finish(int code) {
    const char* f = getenv("MC_TRACE");
    if (f) {
        FILE* o = fopen(f, "w");
        if (o) { writeTrace(o); fclose(o); }
    }
    exit(code);
}
NOHOOK void point() {
    if (num == 1) return;
    int opt[kMax], n = 0;
    bool can = runnable(cur);
    if (can) opt[n++] = cur;
    for (int i = 0; i < num; i++) if (i != cur && runnable(i)) opt[n++] = i;
    if (n == 0) { fprintf(stderr, "deadlock\n"); finish(97); }
    int c = 0;
    if (n > 1) {
        if (!choices) { choices = getenv("MC_CHOICES"); if (!choices) choices = ""; }
        if (points < (int)strlen(choices)) c = choices[points] - '0';
        if (c >= n) { fprintf(stderr, "bad choice\n"); finish(98); }
        if (tlen + 2 < (int)sizeof trace) { trace[tlen++] = '0' + n; trace[tlen++] = can ? 'p' : 'f'; }
        points++;
    }
    int to = opt[c];
    if (to == cur) return;
    int from = cur;
    cur = to;
    swapcontext(&ctx[from].uc, &ctx[to].uc);
}
NOHOOK bool shared(uintptr_t a) {
    if (a >= (uintptr_t)kArena && a < (uintptr_t)kArena + kArenaSize) return true;
    if (a < (uintptr_t)&__data_start || a >= (uintptr_t)&_end) return false;
    // the streams keep their own state
    if (a >= (uintptr_t)&std::cout && a < (uintptr_t)(&std::cout + 1)) return false;
    if (a >= (uintptr_t)&std::cerr && a < (uintptr_t)(&std::cerr + 1)) return false;
    return true;
}
NOHOOK void access(const volatile void* p, size_t n, bool write) {
    if (cur == 0 || num == 1) return;   // only the threads while they run
    uintptr_t a = (uintptr_t)p;
    if (!n || !shared(a)) return;
    bool stop = false;
    for (uintptr_t w = a & ~(uintptr_t)7; w < a + n; w += 8) {
        uint64_t h = (w >> 3) * 0x9E3779B97F4A7C15ull >> 40;
        for (int i = 0; i < 64; i++) {
            Word& x = words[(h + i) % kWords];
            if (x.at && x.at != w) continue;
            x.at = w;
            x.touched |= 1 << cur;
            if (write) x.wrote |= 1 << cur;
            break;
        }
        if (isHot(w)) stop = true;
    }
    if (stop) point();
}
NOHOOK void entry() {
    Ctx& c = ctx[cur];
    point();
    c.ret = c.fn(c.arg);
    c.done = true;
    point();
    abort();
}
}  // namespace

extern "C" {
NOHOOK int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    if (num >= kMax) return 11;
    Ctx& c = ctx[num];
    c.fn = fn; c.arg = arg; c.done = c.joined = false; c.waits = -1;
    const size_t n = 512 << 10;
    getcontext(&c.uc);
    c.uc.uc_stack.ss_sp = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    c.uc.uc_stack.ss_size = n;
    c.uc.uc_link = 0;
    makecontext(&c.uc, entry, 0);
    if (num == 1) ctx[0].waits = -1;
    *t = (pthread_t)num;
    num++;
    point();
    return 0;
}
NOHOOK int pthread_join(pthread_t t, void** ret) {
    int i = (int)(unsigned long)t;
    if (i < 1 || i >= num || ctx[i].joined) { fprintf(stderr, "join of a thread that does not exist or was joined\n"); finish(96); }
    ctx[cur].waits = i;
    point();
    ctx[cur].waits = -1;
    ctx[i].joined = true;
    if (ret) *ret = ctx[i].ret;
    return 0;
}
NOHOOK void pthread_exit(void* r) {
    if (cur != 0) {
        ctx[cur].ret = r;
        ctx[cur].done = true;
        point();
        abort();
    }
    ctx[0].waits = -2;
    point();
    finish(0);
    for (;;) ;
}
static __attribute__((destructor)) NOHOOK void atEnd() {
    // main returned instead of calling pthread_exit
    const char* f = getenv("MC_TRACE");
    if (f && access(f, F_OK) != 0) {
        FILE* o = fopen(f, "w");
        if (o) { writeTrace(o); fclose(o); }
    }
}
NOHOOK void __cyg_profile_func_enter(void*, void*) { point(); }
NOHOOK void __cyg_profile_func_exit(void*, void*) {}

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define SIZED(n) \
    void __tsan_read##n(void* a) { access(a, n, false); } \
    void __tsan_write##n(void* a) { access(a, n, true); } \
    void __tsan_unaligned_read##n(void* a) { access(a, n, false); } \
    void __tsan_unaligned_write##n(void* a) { access(a, n, true); } \
    void __tsan_volatile_read##n(void* a) { access(a, n, false); } \
    void __tsan_volatile_write##n(void* a) { access(a, n, true); }
SIZED(1) SIZED(2) SIZED(4) SIZED(8) SIZED(16)
void __tsan_read_range(void* a, size_t n) { access(a, n, false); }
void __tsan_write_range(void* a, size_t n) { access(a, n, true); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access(a, 8, true); }
void __tsan_vptr_read(void** a) { access(a, 8, false); }
#define ATOMIC(bits, T_) \
    T_ __tsan_atomic##bits##_load(const volatile T_* a, int) { access(a, sizeof *a, false); return *a; } \
    void __tsan_atomic##bits##_store(volatile T_* a, T_ v, int) { access(a, sizeof *a, true); *a = v; } \
    T_ __tsan_atomic##bits##_exchange(volatile T_* a, T_ v, int) { access(a, sizeof *a, true); T_ o = *a; *a = v; return o; } \
    T_ __tsan_atomic##bits##_fetch_add(volatile T_* a, T_ v, int) { access(a, sizeof *a, true); T_ o = *a; *a = o + v; return o; } \
    T_ __tsan_atomic##bits##_fetch_sub(volatile T_* a, T_ v, int) { access(a, sizeof *a, true); T_ o = *a; *a = o - v; return o; } \
    T_ __tsan_atomic##bits##_fetch_and(volatile T_* a, T_ v, int) { access(a, sizeof *a, true); T_ o = *a; *a = o & v; return o; } \
    T_ __tsan_atomic##bits##_fetch_or(volatile T_* a, T_ v, int) { access(a, sizeof *a, true); T_ o = *a; *a = o | v; return o; } \
    T_ __tsan_atomic##bits##_fetch_xor(volatile T_* a, T_ v, int) { access(a, sizeof *a, true); T_ o = *a; *a = o ^ v; return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T_* a, T_* c, T_ v, int, int) { access(a, sizeof *a, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T_* a, T_* c, T_ v, int, int) { access(a, sizeof *a, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T_ __tsan_atomic##bits##_compare_exchange_val(volatile T_* a, T_ c, T_ v, int, int) { access(a, sizeof *a, true); T_ o = *a; if (o == c) *a = v; return o; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// locks: one table by address; a thread that has to wait is not runnable
struct Lock { void* at; int owner; int depth; };
static Lock locks[64];
static Lock* lockOf(void* a) {
    for (int i = 0; i < 64; i++) {
        if (locks[i].at == a) return &locks[i];
        if (!locks[i].at) { locks[i].at = a; locks[i].owner = -1; return &locks[i]; }
    }
    fprintf(stderr, "too many locks\n");
    finish(95);
    return 0;
}
static int take(void* a, bool wait) {
    if (num > 1) point();
    Lock* l = lockOf(a);
    while (l->owner >= 0 && l->owner != cur) {
        if (!wait) return 16;
        blocked[cur] = a;
        point();
    }
    blocked[cur] = 0;
    l->owner = cur;
    l->depth++;
    return 0;
}
static int give(void* a) {
    Lock* l = lockOf(a);
    if (l->owner == cur && --l->depth > 0) return 0;
    l->owner = -1;
    for (int i = 0; i < kMax; i++) if (blocked[i] == a) blocked[i] = 0;
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { return take(m, true); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return take(m, false); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return give(m); }
int pthread_spin_lock(pthread_spinlock_t* m) { return take((void*)m, true); }
int pthread_spin_unlock(pthread_spinlock_t* m) { return give((void*)m); }
int __cxa_guard_acquire(long long* g) {
    volatile char* b = (volatile char*)g;
    if (b[0]) return 0;
    take(g, true);
    if (b[0]) { give(g); return 0; }
    return 1;
}
void __cxa_guard_release(long long* g) { *(volatile char*)g = 1; give(g); }
void __cxa_guard_abort(long long* g) { give(g); }

#define NOLOOP __attribute__((optimize("no-tree-loop-distribute-patterns")))
NOLOOP void* memcpy(void* d, const void* s, size_t n) {
    access(s, n, false);
    access(d, n, true);
    void* r = d;
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
NOLOOP void* memmove(void* d, const void* s, size_t n) {
    access(s, n, false);
    access(d, n, true);
    char* x = (char*)d;
    const char* y = (const char*)s;
    if (x < y || x >= y + n) { void* e = d; __asm__ volatile("rep movsb" : "+D"(e), "+S"(y), "+c"(n) : : "memory"); }
    else while (n--) x[n] = y[n];
    return d;
}
NOLOOP void* memset(void* d, int c, size_t n) {
    access(d, n, true);
    void* e = d;
    __asm__ volatile("rep stosb" : "+D"(e), "+c"(n) : "a"(c) : "memory");
    return d;
}
NOLOOP int memcmp(const void* a, const void* b, size_t n) {
    access(a, n, false);
    access(b, n, false);
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
}

static void* fresh(size_t n) {
    if (!top) {
        void* p = mmap(kArena, kArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void*)kArena) { fprintf(stderr, "no memory at the fixed place\n"); finish(94); }
        top = kArena;
    }
    char* p = top;
    top += (n + 31) & ~(size_t)15;
    if (top > kArena + kArenaSize) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return fresh(n); }
void* operator new[](size_t n) { return fresh(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return fresh(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return fresh(n); }
void operator delete(void*) noexcept {}
void operator delete[](void*) noexcept {}
void operator delete(void*, size_t) noexcept {}
void operator delete[](void*, size_t) noexcept {}
