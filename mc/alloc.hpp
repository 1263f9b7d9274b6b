// Replacement of the global allocation functions: every block is filled with junk before it is handed
// out and after it is given back, live blocks and bytes are counted, and a block of one chosen size
// can be placed right before an inaccessible page.  Not used in the sanitizer builds.
#pragma once
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <new>

namespace mc {
struct AllocState {
    int64_t blocks = 0, bytes = 0;
    unsigned char junk = 0xA5;
    uint64_t guard_size = 0;      // next new[] of this size goes to a guarded page
    void* guarded = 0;
    uint64_t guarded_len = 0;
    const char* bad = 0;          // misuse seen
    // fault injection: the fail_at-th allocation from now on throws (and every later one, if sticky)
    bool armed = false, sticky = false;
    uint64_t fail_at = 0, seen = 0, fired = 0;
};
inline AllocState& allocState() {
    static AllocState s;
    return s;
}
#if !defined(MC_NO_ALLOC)
struct BlockHead { uint64_t size; uint32_t magic; uint16_t array, junk; };
const uint32_t kLive = 0x5afe5afe, kDead = 0xdeaddead;

inline void* allocBlock(size_t n, bool array) {
    AllocState& a = allocState();
    if (a.armed) {
        uint64_t i = a.seen++;
        if (i == a.fail_at || (a.sticky && i > a.fail_at)) { a.fired++; throw std::bad_alloc(); }
    }
    if (array && a.guard_size && n == a.guard_size && !a.guarded) {
        uint64_t page = 4096, len = (n + page - 1) / page * page;
        char* base = (char*)mmap(0, len + page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base != MAP_FAILED) {
            mprotect(base + len, page, PROT_NONE);
            memset(base, a.junk, len);
            a.guarded = base + len - n;
            a.guarded_len = n;
            return a.guarded;
        }
    }
    BlockHead* b = (BlockHead*)malloc(n + sizeof(BlockHead) + 8);
    if (!b) throw std::bad_alloc();
    b->size = n; b->magic = kLive; b->array = array; b->junk = a.junk;
    a.blocks++; a.bytes += n;
    memset(b + 1, a.junk, n + 8);
    return b + 1;
}
inline void freeBlock(void* p, bool array) {
    if (!p) return;
    AllocState& a = allocState();
    if (p == a.guarded) {
        uint64_t page = 4096, len = (a.guarded_len + page - 1) / page * page;
        munmap((char*)p + a.guarded_len - len, len + page);
        a.guarded = 0;
        return;
    }
    BlockHead* b = (BlockHead*)p - 1;
    if (b->magic == kDead) { a.bad = "a block was freed twice"; abort(); }
    if (b->magic != kLive) { a.bad = "freed a pointer that was not allocated"; abort(); }
    if ((bool)b->array != array) a.bad = "new[]/delete or new/delete[] mixed";
    for (int i = 0; i < 8; i++)
        if (((unsigned char*)p)[b->size + i] != (unsigned char)b->junk && !a.bad) { a.bad = "wrote past the end of a heap block"; break; }
    b->magic = kDead;
    a.blocks--; a.bytes -= b->size;
    memset(p, 0xDD, b->size);
    free(b);
}
#endif
}  // namespace mc

#if !defined(MC_NO_ALLOC)
void* operator new(size_t n) { return mc::allocBlock(n, false); }
void* operator new[](size_t n) { return mc::allocBlock(n, true); }
void operator delete(void* p) noexcept { mc::freeBlock(p, false); }
void operator delete[](void* p) noexcept { mc::freeBlock(p, true); }
void operator delete(void* p, size_t) noexcept { mc::freeBlock(p, false); }
void operator delete[](void* p, size_t) noexcept { mc::freeBlock(p, true); }
#endif
