// Whole-filter oracles that compare a filter with another filter: serialization round trips, encoding
// independence, query purity, life cycles, duplicate keys, footprint, memory safety.
#pragma once
#include "alloc.hpp"
#include "checks.hpp"

namespace mc {

inline uint64_t hstr(const Str& s) {
    uint64_t h = 1469598103934665603ull ^ (s.size() * 0x9e3779b97f4a7c15ull);
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}
inline uint64_t iterDigest(const surf::SuRF::Iter& it) {
    if (!it.isValid()) return 7;
    surf::word_t w = 0;
    int len = it.getSuffix(&w);
    unsigned bl = 0;
    Str ks = it.getKeyWithSuffix(&bl);
    uint64_t h = hstr(it.getKey()) * 31 + hstr(ks);
    h = h * 1000003 + w; h = h * 1000003 + len; h = h * 1000003 + bl;
    return (h << 8) | 3;
}

// Every answer the filter gives on the bounded query set, in a fixed order.
// sink(operation, i, j, value); i, j index queries.
template <class Sink>
void answers(surf::SuRF* f, const Strs& q, int effort, bool structure, Sink sink) {
    size_t n = q.size();
    for (size_t i = 0; i < n; i++) sink("lookupKey", i, i, (uint64_t)f->lookupKey(q[i]));
    for (size_t i = 0; i < n; i++)
        for (int inc = 0; inc < 2; inc++) {
            surf::SuRF::Iter it = f->moveToKeyGreaterThan(q[i], inc);
            sink(inc ? "moveToKeyGreaterThan inclusive" : "moveToKeyGreaterThan exclusive", i, i, iterDigest(it));
            if (it.isValid()) {
                sink("getFpFlag", i, i, it.getFpFlag());
                sink("compare", i, i, (uint64_t)(int64_t)it.compare(q[i]));
                sink("compare", i, n - 1 - i, (uint64_t)(int64_t)it.compare(q[n - 1 - i]));
                bool r = it++;
                sink("++", i, i, iterDigest(it) * 2 + r);
            }
            surf::SuRF::Iter jt = f->moveToKeyLessThan(q[i], inc);
            sink(inc ? "moveToKeyLessThan inclusive" : "moveToKeyLessThan exclusive", i, i, iterDigest(jt));
            if (jt.isValid()) {
                sink("getFpFlag", i, i, jt.getFpFlag());
                bool r = jt--;
                sink("--", i, i, iterDigest(jt) * 2 + r);
            }
        }
    forPairs(n, effort, [&](size_t i, size_t j) {
        for (int m = 0; m < 4; m++) sink("lookupRange", i, j, f->lookupRange(q[i], m & 1, q[j], m & 2));
        sink("approxCount", i, j, f->approxCount(q[i], q[j]));
    });
    size_t steps = 0;
    surf::SuRF::Iter a = f->moveToFirst(), first = a;
    do { sink("forward scan", steps, steps, iterDigest(a)); steps++; } while (a++ && steps < 200000);
    steps = 0;
    surf::SuRF::Iter b = f->moveToLast(), last = b;
    do { sink("backward scan", steps, steps, iterDigest(b)); steps++; } while (b-- && steps < 200000);
    sink("approxCount(first,last)", 0, 0, f->approxCount(&first, &last));
    sink("getHeight", 0, 0, f->getHeight());
    if (structure) {
        sink("getSparseStartLevel", 0, 0, f->getSparseStartLevel());
        sink("getMemoryUsage", 0, 0, f->getMemoryUsage());
        sink("serializedSize", 0, 0, f->serializedSize());
    }
}
typedef std::vector<uint64_t> Answers;
inline Answers collect(surf::SuRF* f, const Strs& q, int effort, bool structure) {
    Answers v;
    answers(f, q, effort, structure, [&](const char*, size_t, size_t, uint64_t x) { v.push_back(x); });
    return v;
}
inline void expectSame(Ctx& c, const Answers& want, surf::SuRF* f, int effort, bool structure, const Str& who) {
    size_t at = 0;
    answers(f, c.q, effort, structure, [&](const char* op, size_t i, size_t j, uint64_t x) {
        if (at >= want.size() || want[at] != x)
            c.fail(who + fmt(": %s(%s, %s) answers differently", op, i < c.q.size() ? show(c.q[i]).c_str() : "", j < c.q.size() ? show(c.q[j]).c_str() : ""));
        at++;
    });
    if (at != want.size()) c.fail(who + ": gives fewer answers");
    c.env.count(C_OPS, at);
}

inline Strs thin(const Strs& q, size_t max) {
    if (q.size() <= max) return q;
    Strs o;
    for (size_t i = 0; i < max; i++) o.push_back(q[i * q.size() / max]);
    return o;
}

// A serialized image, held in an 8-aligned buffer.
struct Image {
    std::vector<uint64_t> words;
    uint64_t size = 0;
    void take(surf::SuRF* f) {
        size = f->serializedSize();
        char* p = f->serialize();
        words.assign(size / 8 + 1, 0x7777777777777777ull);
        memcpy(words.data(), p, size);
        delete[] p;
    }
    char* data() { return (char*)words.data(); }
    bool same(const Image& o) const { return size == o.size && memcmp(words.data(), o.words.data(), size) == 0; }
    size_t diff(const Image& o) const {
        size_t i = 0;
        while (i < size && i < o.size && ((const char*)words.data())[i] == ((const char*)o.words.data())[i]) i++;
        return i;
    }
};

//------------------------------------------------------------------ C11: serialize / deserialize
inline void checkRoundTrip(Env& env, const Scenario& sc) {
    Scenario s = sc;
    if (s.effort > 0 && s.keys.size() > 4) s.effort = 0;
    Ctx c(env, s, s.keys.size() > 100 ? 0 : 1);
    c.q = thin(c.q, 160);
    int ef = std::min(s.effort, 1);
    Filter f(env, s);
    Answers want = collect(f.s, c.q, ef, true);
    Image a, b, d;
    a.take(f.s);
    expectSame(c, want, f.s, ef, true, "the filter after serialize()");
    Filter g(surf::SuRF::deSerialize(a.data()));
    expectSame(c, want, g.s, ef, true, "the deserialized filter");
    b.take(g.s);
    if (!a.same(b)) c.fail(fmt("serializing the deserialized filter gives other bytes (%llu/%llu bytes, first difference at %zu)", (unsigned long long)a.size, (unsigned long long)b.size, a.diff(b)));
    Filter h(surf::SuRF::deSerialize(b.data()));
    g.reset();
    f.reset();
    expectSame(c, want, h.s, ef, true, "the twice deserialized filter");
    d.take(h.s);
    if (!a.same(d)) c.fail("the third generation image differs");
    env.count(C_A, a.size);
}

//------------------------------------------------------------------ C12: the image
#if !defined(MC_NO_ALLOC)
inline void checkImage(Env& env, const Scenario& sc) {
    Ctx c(env, sc, 0);
    c.q = thin(c.q, 120);
    AllocState& al = allocState();
    al.junk = 0xA5;
    Filter f(env, sc);
    uint64_t size = f->serializedSize();
    if (size == 0 || size > (1ull << 32)) c.fail(fmt("serializedSize() = %llu", (unsigned long long)size));
    Answers want = collect(f.s, c.q, 0, true);
    // the image block ends right before an inaccessible page: one byte too many faults
    al.guard_size = size;
    char* p = f->serialize();
    al.guard_size = 0;
    if (p != al.guarded) c.fail(fmt("serialize() did not allocate serializedSize() = %llu bytes", (unsigned long long)size));
    env.count(C_OPS);
    Str image(p, size);
    // an equal filter built on a heap with other junk gives the same bytes
    {
        al.junk = 0x3C;
        Filter f2(sc.keys, sc.cfg);
        Image b;
        b.take(f2.s);
        al.junk = 0xA5;
        Str i2((char*)b.data(), b.size);
        if (i2 != image) {
            size_t at = 0;
            while (at < image.size() && at < i2.size() && image[at] == i2[at]) at++;
            c.fail(fmt("two filters over the same keys serialize differently (%zu and %zu bytes, first difference at byte %zu)", image.size(), i2.size(), at));
        }
        env.count(C_OPS);
    }
    // deserialize in place: a read past the image faults
    Filter g(surf::SuRF::deSerialize(p));
    if (Str(p, size) != image) c.fail("deSerialize() changed the image");
    // the image may go away
    memset(p, 0xEE, size);
    delete[] p;
    expectSame(c, want, g.s, 0, true, "the filter after its image was overwritten and freed");
    // at another (8-aligned) address, followed and preceded by other data
    std::vector<uint64_t> buf(size / 8 + 8, 0xffffffffffffffffull);
    for (int off = 1; off <= 3; off += 2) {
        std::fill(buf.begin(), buf.end(), off == 1 ? 0xffffffffffffffffull : 0);
        memcpy((char*)(buf.data() + off), image.data(), size);
        Filter h(surf::SuRF::deSerialize((char*)(buf.data() + off)));
        std::fill(buf.begin(), buf.end(), 0x1111111111111111ull);
        expectSame(c, want, h.s, 0, true, "a filter deserialized from another place");
    }
    if (al.bad) c.fail(Str("heap misuse: ") + al.bad);
    env.count(C_A, size);
}
#endif

//------------------------------------------------------------------ C13: encodings
inline void checkEncodings(Env& env, const Scenario& sc) {
    Scenario s = sc;
    if (s.keys.size() > 4) s.effort = 0;
    Ctx c(env, s, s.keys.size() > 100 ? 0 : 1);
    c.q = thin(c.q, 160);
    int ef = std::min(s.effort, 1);
    Config base = s.cfg;
    base.dense = false;
    Filter f(s.keys, base);
    Answers want = collect(f.s, c.q, ef, false);
    std::set<unsigned> starts;
    for (uint32_t ratio : {0u, 1u, 2u, 4u, 16u, 64u, 1000000u, 1u << 31, ~0u}) {
        Config e = s.cfg;
        e.dense = true;
        e.ratio = ratio;
        Filter g(s.keys, e);
        unsigned d = g->getSparseStartLevel();
        if (d > g->getHeight()) c.fail("more dense levels than levels");
        env.hist(d >= g->getHeight() ? 32 + std::min(d, 15u) : std::min(d, 31u));
        if (!starts.insert(d).second) continue;   // this split was compared already
        expectSame(c, want, g.s, ef, false, fmt("with %u dense levels (ratio %u), compared with none", d, ratio));
    }
    env.count(C_B, starts.size());
}

//------------------------------------------------------------------ C14: queries do not change anything
struct Op { int kind; size_t i, j; };
inline uint64_t doOp(surf::SuRF* f, const Strs& q, const Op& o) {
    switch (o.kind) {
    case 0: return f->lookupKey(q[o.i]);
    case 1: return f->lookupRange(q[o.i], true, q[o.j], true);
    case 2: return f->lookupRange(q[o.i], false, q[o.j], false);
    case 3: { surf::SuRF::Iter it = f->moveToKeyGreaterThan(q[o.i], true); uint64_t d = iterDigest(it); if (it.isValid()) { d = d * 31 + it.getFpFlag(); it++; d = d * 31 + iterDigest(it); } return d; }
    case 4: { surf::SuRF::Iter it = f->moveToKeyLessThan(q[o.i], false); uint64_t d = iterDigest(it); if (it.isValid()) { d = d * 31 + it.getFpFlag(); it--; d = d * 31 + iterDigest(it); } return d; }
    case 5: return f->approxCount(q[o.i], q[o.j]);
    case 6: { surf::SuRF::Iter it = f->moveToFirst(); it++; return iterDigest(it); }
    case 7: { surf::SuRF::Iter it = f->moveToLast(); it--; return iterDigest(it); }
    case 8: { uint64_t n = f->serializedSize(); char* p = f->serialize(); uint64_t h = hstr(Str(p, n)); delete[] p; return h; }
    case 9: return f->getMemoryUsage() * 1000 + f->getHeight() * 10 + f->getSparseStartLevel();
    case 10: { surf::SuRF::Iter a = f->moveToKeyGreaterThan(q[o.i], true), b = f->moveToKeyGreaterThan(q[o.j], true); return f->approxCount(&a, &b) + 1000 * a.isValid(); }
    }
    return 0;
}
inline const char* opName(int k) {
    static const char* n[] = {"lookupKey", "lookupRange[]", "lookupRange()", "moveToKeyGreaterThan+++", "moveToKeyLessThan+--", "approxCount", "moveToFirst+++", "moveToLast+--", "serialize", "sizes", "approxCount(iterators)"};
    return n[k];
}
inline void checkPurity(Env& env, const Scenario& sc) {
    Ctx c(env, sc, 0);
    const Strs& q = c.q;
    size_t n = c.ref.n(), Q = q.size();
    // the operations: spread over members, near misses and the two ends
    auto idx = [&](const Str& s) { return (size_t)(std::lower_bound(q.begin(), q.end(), s) - q.begin()) % Q; };
    size_t mid = idx(c.ref.keys[n / 2]), lo = idx(c.ref.keys[0]), hi = idx(c.ref.keys[n - 1]);
    std::vector<Op> ops = {{0, mid, 0}, {0, (mid + 1) % Q, 0}, {1, lo, hi}, {2, mid, std::min(mid + 1, Q - 1)}, {3, mid, 0}, {3, (hi + 1) % Q, 0}, {4, mid, 0}, {4, 0, 0},
                           {5, lo, hi}, {5, mid, hi}, {6, 0, 0}, {7, 0, 0}, {8, 0, 0}, {9, 0, 0}, {10, lo, mid}};
    std::vector<uint64_t> base;
    for (auto& o : ops) {
        Filter fresh(sc.keys, sc.cfg);
        base.push_back(doOp(fresh.s, q, o));
    }
    Filter f(env, sc);
    Image before, after;
    before.take(f.s);
    size_t m = ops.size();
    auto run = [&](const std::vector<size_t>& h) {
        // an iterator held across the history keeps its place
        surf::SuRF::Iter held = f->moveToKeyGreaterThan(q[(h[0] * 7 + h.back()) % Q], true);
        uint64_t hd = iterDigest(held);
        surf::SuRF::Iter next = held;
        bool nv = held.isValid() && next++;
        uint64_t nd = iterDigest(next);
        for (size_t k = 0; k < h.size(); k++) {
            uint64_t r = doOp(f.s, q, ops[h[k]]);
            env.count(C_OPS);
            if (r != base[h[k]]) {
                Str hist;
                for (size_t z = 0; z <= k; z++) hist += Str(z ? ", " : "") + opName(ops[h[z]].kind) + "(" + show(q[ops[h[z]].i]) + "," + show(q[ops[h[z]].j]) + ")";
                c.fail("after the history [" + hist + "] the last operation answers differently than on a fresh filter");
            }
        }
        if (iterDigest(held) != hd) c.fail(fmt("an iterator held across %s changed its place", opName(ops[h[0]].kind)));
        bool r = held.isValid() && held++;
        if (r != nv || iterDigest(held) != nd) c.fail(fmt("an iterator held across %s steps differently", opName(ops[h[0]].kind)));
        env.count(C_CHECKS);
    };
    size_t depth = sc.param ? sc.param : (n <= 7 ? 3 : 2);
    std::vector<size_t> h(depth, 0);
    for (;;) {
        run(h);
        size_t k = depth;
        while (k > 0 && ++h[k - 1] == m) h[--k] = 0;
        if (k == 0) break;
    }
    // every ordered pair of a broad list of operations, back to back: a result that depends on what was
    // asked just before (a remembered miss, position or bound) shows in the second answer
    bool many = sc.effort >= 2;
    auto allPairs = [&](const std::vector<Op>& w) {
        std::vector<uint64_t> want;
        for (auto& o : w) { Filter fresh(sc.keys, sc.cfg); want.push_back(doOp(fresh.s, q, o)); }
        auto step = [&](size_t x, size_t prev) {
            if (doOp(f.s, q, w[x]) != want[x])
                c.fail(Str(opName(w[x].kind)) + "(" + show(q[w[x].i]) + "," + show(q[w[x].j]) + ") answers differently right after " + opName(w[prev].kind) + "(" + show(q[w[prev].i]) + "," + show(q[w[prev].j]) + ") than on a fresh filter");
        };
        for (size_t x = 0; x < w.size(); x++)
            for (size_t y = 0; y < w.size(); y++) { step(x, y); step(y, x); }
        env.count(C_OPS, 2 * w.size() * w.size());
        env.count(C_CHECKS, w.size() * w.size());
    };
    {
        std::vector<Op> w;
        size_t cap = many ? 72 : 20, inc = std::max<size_t>(1, (Q + cap - 1) / cap);
        for (size_t i = 0; i < Q; i += inc) {
            size_t j = std::min(i + inc, Q - 1);
            for (int k : {0, 1, 2, 3, 4, 5}) w.push_back({k, i, j});
            w.push_back({5, 0, i});
        }
        w.push_back({6, 0, 0});
        w.push_back({7, 0, 0});
        w.push_back({10, lo, hi});
        allPairs(w);
    }
    if (many) {   // point lookups: all queries against all
        std::vector<Op> w;
        for (size_t i = 0; i < Q; i++) w.push_back({0, i, i});
        allPairs(w);
    }
    after.take(f.s);
    if (!before.same(after)) c.fail("queries changed the serialized image of the filter");
    // two iterators stepped in every interleaving of `steps` steps each
    const int steps = n <= 40 ? 4 : 3;
    Strs starts = {q[0], c.ref.keys[0], c.ref.keys[n / 2], c.ref.keys[n - 1]};
    auto walk = [&](const Str& from, bool fwd) {
        std::vector<uint64_t> v;
        surf::SuRF::Iter it = fwd ? f->moveToKeyGreaterThan(from, true) : f->moveToKeyLessThan(from, true);
        v.push_back(iterDigest(it));
        for (int s = 0; s < steps; s++) { if (it.isValid()) { if (fwd) it++; else it--; } v.push_back(iterDigest(it)); }
        return v;
    };
    for (size_t a = 0; a < starts.size(); a++)
        for (size_t b = a; b < starts.size(); b++)
            for (int dir = 0; dir < 4; dir++) {
                std::vector<uint64_t> wa = walk(starts[a], dir & 1), wb = walk(starts[b], dir & 2);
                for (unsigned mask = 0; mask < (1u << (2 * steps)); mask++) {
                    if (__builtin_popcount(mask) != steps) continue;
                    surf::SuRF::Iter x = (dir & 1) ? f->moveToKeyGreaterThan(starts[a], true) : f->moveToKeyLessThan(starts[a], true);
                    surf::SuRF::Iter y = (dir & 2) ? f->moveToKeyGreaterThan(starts[b], true) : f->moveToKeyLessThan(starts[b], true);
                    int ia = 0, ib = 0;
                    for (int s = 0; s < 2 * steps; s++) {
                        bool first = mask >> s & 1;
                        surf::SuRF::Iter& it = first ? x : y;
                        bool fw = first ? (dir & 1) : (dir & 2) != 0;
                        if (it.isValid()) { if (fw) it++; else it--; }
                        uint64_t want = first ? wa[++ia] : wb[++ib];
                        if (iterDigest(it) != want) c.fail("two iterators over one filter disturb each other");
                        env.count(C_OPS);
                    }
                    env.count(C_CHECKS);
                }
            }
}

//------------------------------------------------------------------ C17: life cycles
// Histories over two slots: create, create by default constructor + create(), copy through an image,
// query, destroy.  Every filter alive answers as expected at every step; afterwards no block is left.
inline void checkLifecycle(Env& env, const Scenario& sc) {
    Ctx c(env, sc, 0);
    c.q = thin(c.q, 40);
    // the other filter: other keys, other suffixes, other encoding
    Strs k2;
    for (size_t i = 0; i < sc.keys.size(); i += 2) k2.push_back(sc.keys[i] + (i % 4 ? "z" : ""));
    k2.push_back("other");
    sortUnique(k2);
    Config c2 = sc.cfg;
    c2.dense = !sc.cfg.dense;
    c2.type = (sc.cfg.type + 2) & 3;
    c2.h = c2.type == T_HASH || c2.type == T_MIXED ? 5 : 0;
    c2.r = c2.type == T_REAL || c2.type == T_MIXED ? 11 : 0;
    Answers want[2];
    Strs q2 = c.q;
    { Filter a(env, sc); want[0] = collect(a.s, c.q, 0, true); }
    { Filter b(k2, c2); want[1] = collect(b.s, c.q, 0, true); }
    struct Slot { surf::SuRF* s; int kind; };
    auto verify = [&](const Slot& s, const Str& hist) { expectSame(c, want[s.kind], s.s, 0, true, "history [" + hist + "]"); };
    static const char* names[] = {"create0", "create1", "default+create0", "image0to1", "image1to0", "destroy0", "destroy1", "query0", "query1", "destroy0+create1"};
    const int kOps = 10;
    int depth = sc.param ? sc.param : 5;
    AllocState& al = allocState();
    std::vector<int> h;
    uint64_t histories = 0;
    // depth-first over all histories whose every step is enabled; each is run from scratch
    std::function<void(bool, bool)> dfs = [&](bool o0, bool o1) {
        if ((int)h.size() == depth) {
            histories++;
            int64_t blocks = al.blocks, bytes = al.bytes;
            al.bad = 0;
            {
                Slot s[2] = {{0, 0}, {0, 0}};
                for (size_t z = 0; z < h.size(); z++) {
                    switch (h[z]) {
                    case 0: s[0].s = new surf::SuRF(sc.keys, sc.cfg.dense, sc.cfg.ratio, stype(sc.cfg.type), sc.cfg.h, sc.cfg.r); s[0].kind = 0; break;
                    case 1: s[1].s = new surf::SuRF(k2, c2.dense, c2.ratio, stype(c2.type), c2.h, c2.r); s[1].kind = 1; break;
                    case 2: s[0].s = new surf::SuRF(); s[0].s->create(sc.keys, sc.cfg.dense, sc.cfg.ratio, stype(sc.cfg.type), sc.cfg.h, sc.cfg.r); s[0].kind = 0; break;
                    case 3: case 4: {
                        int from = h[z] == 3 ? 0 : 1;
                        char* p = s[from].s->serialize();
                        s[1 - from].s = surf::SuRF::deSerialize(p);
                        s[1 - from].kind = s[from].kind;
                        delete[] p;
                        break;
                    }
                    case 9: s[0].s->destroy(); s[0].s->create(k2, c2.dense, c2.ratio, stype(c2.type), c2.h, c2.r); s[0].kind = 1; break;
                    case 5: case 6: { int w = h[z] - 5; s[w].s->destroy(); delete s[w].s; s[w].s = 0; break; }
                    default: break;
                    }
                    env.count(C_OPS);
                    bool query = h[z] == 7 || h[z] == 8;
                    if (query || z + 1 == h.size()) {
                        Str hist;
                        for (size_t y = 0; y <= z; y++) hist += Str(y ? " " : "") + names[h[y]];
                        for (int w = 0; w < 2; w++) if (s[w].s && (!query || h[z] - 7 == w)) verify(s[w], hist);
                    }
                }
                for (int w = 0; w < 2; w++) if (s[w].s) { s[w].s->destroy(); delete s[w].s; }
            }
            if (al.blocks != blocks || al.bytes != bytes || al.bad) {
                Str hist;
                for (int op : h) hist += Str(hist.empty() ? "" : " ") + names[op];
                if (al.bad) c.fail("history [" + hist + "]: " + al.bad);
                c.fail(fmt("history [%s]: %lld blocks (%lld bytes) still allocated after every filter was destroyed", hist.c_str(), (long long)(al.blocks - blocks), (long long)(al.bytes - bytes)));
            }
            return;
        }
        for (int op = 0; op < kOps; op++) {
            bool n0 = o0, n1 = o1;
            switch (op) {
            case 0: case 2: if (o0) continue; n0 = true; break;
            case 1: if (o1) continue; n1 = true; break;
            case 3: if (!o0 || o1) continue; n1 = true; break;
            case 4: if (!o1 || o0) continue; n0 = true; break;
            case 5: if (!o0) continue; n0 = false; break;
            case 6: if (!o1) continue; n1 = false; break;
            case 7: case 9: if (!o0) continue; break;
            case 8: if (!o1) continue; break;
            }
            h.push_back(op);
            dfs(n0, n1);
            h.pop_back();
        }
    };
    h.reserve(16);
    dfs(false, false);
    env.count(C_CHECKS, histories);
    // Handover: the last operation on one filter is the first on another that lives beside it, takes its
    // place at the same address, or is created again in the same object.  Nothing remembered about the
    // first may answer for the second.
    {
        const Strs& q = c.q;
        size_t Q = q.size();
        std::vector<Op> all, w;
        for (size_t i = 0; i < Q; i++) {
            size_t j = std::min(i + 1, Q - 1);
            for (int k : {0, 1, 2, 3, 4, 5}) all.push_back({k, i, j});
            all.push_back({5, 0, i});
            all.push_back({1, i, Q - 1});
        }
        for (int k : {6, 7, 8, 9}) all.push_back({k, 0, 0});
        all.push_back({10, 0, Q - 1});
        auto make = [&](int kind) {
            return kind ? new surf::SuRF(k2, c2.dense, c2.ratio, stype(c2.type), c2.h, c2.r)
                        : new surf::SuRF(sc.keys, sc.cfg.dense, sc.cfg.ratio, stype(sc.cfg.type), sc.cfg.h, sc.cfg.r);
        };
        Filter a(make(0)), b(make(1));
        std::vector<uint64_t> fresh[2], differ[2];
        for (auto& o : all) { fresh[0].push_back(doOp(a.s, q, o)); }
        for (auto& o : all) { fresh[1].push_back(doOp(b.s, q, o)); }
        auto ask = [&](surf::SuRF* f, int kind, const Op& o, uint64_t want, const char* how) {
            env.count(C_OPS);
            if (doOp(f, q, o) != want)
                c.fail(Str(opName(o.kind)) + "(" + show(q[o.i]) + "," + show(q[o.j]) + ") on the " + (kind ? "second" : "first") + " filter answers differently " + how);
        };
        for (size_t x = 0; x < all.size(); x++) {
            for (int kind : {0, 1, 0, 1}) ask(kind ? b.s : a.s, kind, all[x], fresh[kind][x], "right after the same question to the other");
            if (fresh[0][x] == fresh[1][x]) continue;
            w.push_back(all[x]);
            for (int k : {0, 1}) differ[k].push_back(fresh[k][x]);
        }
        a.reset();
        b.reset();
        size_t cap = sc.keys.size() > 5000 ? 5 : sc.keys.size() > 100 ? 30 : 200, step = w.size() / cap + 1;
        for (size_t x = 0; x < w.size(); x += step)
            for (int kind : {0, 1}) {
                surf::SuRF* s = make(kind);
                ask(s, kind, w[x], differ[kind][x], "when new");
                Image im;
                im.take(s);
                s->destroy();
                delete s;
                s = make(1 - kind);
                ask(s, 1 - kind, w[x], differ[1 - kind][x], "in the place of the other");
                s->destroy();
                if (kind) s->create(k2, c2.dense, c2.ratio, stype(c2.type), c2.h, c2.r);
                else s->create(sc.keys, sc.cfg.dense, sc.cfg.ratio, stype(sc.cfg.type), sc.cfg.h, sc.cfg.r);
                ask(s, kind, w[x], differ[kind][x], "created again in the other's object");
                s->destroy();
                delete s;
                s = make(1 - kind);
                ask(s, 1 - kind, w[x], differ[1 - kind][x], "in the place of the other");
                s->destroy();
                delete s;
                s = surf::SuRF::deSerialize(im.data());
                ask(s, kind, w[x], differ[kind][x], "deserialized in the place of the other");
                s->destroy();
                delete s;
            }
        env.count(C_CHECKS, w.size());
    }
}

//------------------------------------------------------------------ C18: duplicate keys
inline void checkDuplicates(Env& env, const Scenario& sc) {
    Ctx c(env, sc, 0);
    c.q = thin(c.q, 60);
    Filter f(env, sc);
    Image base;
    base.take(f.s);
    Answers want = collect(f.s, c.q, 0, true);
    size_t n = sc.keys.size();
    auto with = [&](const std::vector<int>& mult, const char* what, bool full) {
        Strs k;
        for (size_t i = 0; i < n; i++) for (int m = 0; m < mult[i]; m++) k.push_back(sc.keys[i]);
        Filter g(k, sc.cfg);
        Image im;
        im.take(g.s);
        env.count(C_OPS);
        if (!base.same(im)) c.fail(fmt("repeating keys (%s) changes the filter: %zu entries instead of %zu", what, k.size(), n));
        if (full) expectSame(c, want, g.s, 0, true, fmt("the filter over the list with repeated keys (%s)", what));
    };
    if (sc.param) {   // one key many times
        for (int times : {127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 4097, 32768, 65535, 65536, 65537, sc.param})
            for (size_t i = 0; i < n; i += std::max<size_t>(1, n / 4)) {
                if (times > 1025 && n > 20 && i) break;
                std::vector<int> m(n, 1);
                m[i] = times;
                with(m, fmt("%s %d times", show(sc.keys[i]).c_str(), times).c_str(), false);
            }
    } else if (n <= 6) {
        std::vector<int> m(n, 1);
        for (;;) {   // every multiplicity in 1..3 (1..2 above four keys)
            Str w;
            for (int x : m) w += fmt("x%d ", x);
            with(m, w.c_str(), true);
            size_t k = n;
            int top = n <= 4 ? 3 : 2;
            while (k > 0 && ++m[k - 1] > top) m[--k] = 1;
            if (k == 0) break;
        }
    } else {
        std::vector<int> m(n, 2);
        with(m, "all twice", true);
        for (size_t i = 0; i < n; i += n > 64 ? n / 16 : 1) { m.assign(n, 1); m[i] = 3; with(m, fmt("%s three times", show(sc.keys[i]).c_str()).c_str(), false); }
        m.assign(n, 1); m[n - 1] = 2; with(m, "last key twice", true);
    }
}

//------------------------------------------------------------------ C20: footprint
#if !defined(MC_NO_ALLOC)
inline void checkFootprint(Env& env, const Scenario& sc) {
    Ctx c(env, sc, 0, false);
    AllocState& al = allocState();
    int64_t bytes0 = al.bytes;
    uint64_t usage, size, heap, dense_levels, height;
    {
        Filter f(env, sc);
        heap = al.bytes - bytes0;
        usage = f->getMemoryUsage();
        size = f->serializedSize();
        dense_levels = f->getSparseStartLevel();
        height = f->getHeight();
        char* p = f->serialize();
        Filter g(surf::SuRF::deSerialize(p));
        delete[] p;
        int64_t heap2 = al.bytes - bytes0 - (int64_t)heap;
        if (g->getMemoryUsage() != usage) c.fail("the deserialized filter reports another memory usage");
        if (heap2 > (int64_t)heap + 64 || heap2 + 64 < (int64_t)heap) c.fail(fmt("the deserialized filter keeps %lld heap bytes, the original %llu", (long long)heap2, (unsigned long long)heap));
        env.count(C_OPS, 4);
    }
    // What must be kept, counted per level from the reference: the trie over the kept prefixes, a key
    // that is a prefix of another ending in an extra mark.
    std::vector<uint64_t> labels(height + 2, 0), nodes(height + 2, 0);
    nodes[0] = 1;
    uint64_t edges = 0;
    for (size_t i = 0; i < c.ref.n(); i++) {
        size_t len = c.ref.plen[i] + c.ref.exact[i];
        size_t s = 0;
        if (i) s = std::min(lcp(c.ref.keys[i - 1], c.ref.keys[i]), std::min(c.ref.plen[i - 1], c.ref.plen[i]));
        if (len > height + 1) c.fail(fmt("getHeight() = %llu but a kept prefix has %zu labels", (unsigned long long)height, len));
        for (size_t l = s + 1; l <= len; l++) {
            labels[l - 1]++;
            edges++;
            if (l < len) nodes[l]++;
        }
    }
    uint64_t levels_slack = 8 * height + 1024;
    if (heap > usage + levels_slack) c.fail(fmt("getMemoryUsage() = %llu but the filter keeps %llu heap bytes", (unsigned long long)usage, (unsigned long long)heap));
    if (usage > heap + 512) c.fail(fmt("getMemoryUsage() = %llu but the filter keeps only %llu heap bytes", (unsigned long long)usage, (unsigned long long)heap));
    if (size > usage + levels_slack) c.fail(fmt("serializedSize() = %llu but getMemoryUsage() = %llu", (unsigned long long)size, (unsigned long long)usage));
    // LOUDS-Sparse: 10 bits per label plus rank and select samples; LOUDS-Dense: 513 bits per node plus
    // rank samples; the configured suffix bits per key.
    uint64_t sfx = (sc.cfg.type == T_NONE ? 0 : (uint64_t)(sc.cfg.type != T_REAL ? sc.cfg.h : 0) + (sc.cfg.type != T_HASH ? sc.cfg.r : 0)) * c.ref.n();
    double dense_bits = 0, sparse_bits = 0, all_sparse_bits = 0;
    for (size_t l = 0; l <= height; l++) {
        double sp = labels[l] * (10.0 + 32.0 / 512) + nodes[l] * 32.0 / 64;
        all_sparse_bits += sp;
        if (l < dense_levels) dense_bits += nodes[l] * 513 * 1.5;
        else sparse_bits += sp;
    }
    double limit = (dense_bits + sparse_bits + sfx) / 8 + 1024 + 8 * height;
    if (size > limit) c.fail(fmt("serializedSize() = %llu for %llu labels, %llu suffix bits, %llu dense levels: limit %.0f", (unsigned long long)size, (unsigned long long)edges, (unsigned long long)sfx, (unsigned long long)dense_levels, limit));
    // the ratio keeps the dense part in proportion (one level may overshoot, by at most the fan-out)
    if (!sc.cfg.dense) {
        env.count(C_A);
        if (dense_levels != 0) c.fail(fmt("%llu dense levels although dense encoding was declined", (unsigned long long)dense_levels));
    } else if (sc.cfg.ratio >= 1) {
        env.count(C_B);
        double prop = (all_sparse_bits + sfx) / 8 * (1 + 50.0 / sc.cfg.ratio) + 2048 + 8 * height;
        if (size > prop) c.fail(fmt("serializedSize() = %llu with ratio %u, limit %.0f", (unsigned long long)size, sc.cfg.ratio, prop));
    }
    env.count(C_C, edges);
    env.count(C_D, size);
}
#endif

//------------------------------------------------------------------ C29: height and dense levels
inline void checkShape(Env& env, const Scenario& sc) {
    Ctx c(env, sc, 0, false);
    // labels on the longest path: the kept prefix, and a mark where a key ends inside another
    size_t longest = 0;
    for (size_t i = 0; i < c.ref.n(); i++) longest = std::max<size_t>(longest, c.ref.plen[i] + c.ref.exact[i]);
    uint64_t first = 0;
    auto shape = [&](const Config& e, const char* what) {
        Filter f(sc.keys, e);
        uint64_t h = f->getHeight(), d = f->getSparseStartLevel();
        env.hist(d >= h ? 32 + std::min<uint64_t>(d, 15) : std::min<uint64_t>(d, 31));
        env.count(C_OPS, 2);
        if (h < longest || h > longest + 1) c.fail(fmt("%s: getHeight() = %llu but the longest path has %zu labels", what, (unsigned long long)h, longest));
        if (!first) first = h;
        if (h != first) c.fail(fmt("%s: getHeight() = %llu, with another encoding or suffix %llu", what, (unsigned long long)h, (unsigned long long)first));
        if (d > h) c.fail(fmt("%s: %llu dense levels of %llu", what, (unsigned long long)d, (unsigned long long)h));
        if (!e.dense && d) c.fail(fmt("%s: %llu dense levels although dense encoding was declined", what, (unsigned long long)d));
        Image a;
        a.take(f.s);
        Filter g(surf::SuRF::deSerialize(a.data()));
        if (g->getHeight() != h || g->getSparseStartLevel() != d) c.fail(fmt("%s: the deserialized filter has %llu levels, %llu dense; the original %llu and %llu", what, (unsigned long long)g->getHeight(), (unsigned long long)g->getSparseStartLevel(), (unsigned long long)h, (unsigned long long)d));
        return d;
    };
    Config e = sc.cfg;
    e.dense = false;
    shape(e, "no dense levels");
    uint64_t last = ~0ull;
    for (uint32_t ratio : {0u, 1u, 2u, 3u, 4u, 6u, 8u, 12u, 16u, 24u, 32u, 64u, 128u, 1000u, 1000000u, 1u << 24, 1u << 31, ~0u}) {
        e.dense = true;
        e.ratio = ratio;
        uint64_t d = shape(e, fmt("ratio %u", ratio).c_str());
        if (d > last) c.fail(fmt("ratio %u gives %llu dense levels, a smaller ratio %llu", ratio, (unsigned long long)d, (unsigned long long)last));
        last = d;
    }
    // the constructors that leave out the encoding use the default one
    {
        Config def = sc.cfg;
        def.dense = true;
        def.ratio = 16;
        Filter f(sc.keys, def);
        Filter g(new surf::SuRF(sc.keys, stype(sc.cfg.type), sc.cfg.h, sc.cfg.r));
        Image a, b;
        a.take(f.s);
        b.take(g.s);
        if (!a.same(b)) c.fail("the constructor without encoding parameters does not build the default encoding");
        if (sc.cfg.type == T_NONE) {
            Filter k(new surf::SuRF(sc.keys));
            Image d;
            d.take(k.s);
            if (!a.same(d)) c.fail("the constructor from keys alone does not build the default filter");
        }
        env.count(C_OPS, 2);
    }
}

//------------------------------------------------------------------ C30: iterators are values
// Two registers x and y; every sequence of operations to a depth, against a model that keeps two indices.
inline void checkIterValues(Env& env, const Scenario& sc) {
    Ctx c(env, sc, 0, false);
    Filter f(env, sc);
    // a second filter over the same keys in another encoding: registers may change sides
    Config c2 = sc.cfg;
    c2.dense = !sc.cfg.dense;
    c2.ratio = 1;
    Filter g(sc.keys, c2);
    const size_t n = c.ref.n(), kNone = n;
    const Str& mid = c.ref.keys[n / 2];
    Str beyond = c.ref.keys[n - 1];
    beyond[0] = (char)0xff;
    beyond += "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff";
    // where the seeks land is C05's matter; here their place is read once and must be reproduced
    auto place = [&](const surf::SuRF::Iter& it) { return posOf(c, it, "a seek"); };
    size_t at_mid = place(f->moveToKeyGreaterThan(mid, true)), at_end = place(f->moveToKeyGreaterThan(beyond, false)), at_before = place(f->moveToKeyLessThan(mid, false));
    struct Reg { surf::SuRF::Iter it; size_t at; };
    static const char* names[] = {"x=first", "x=last", "x=seek", "x=seek back", "x=seek past the end", "x=y", "y=x", "x++", "x--", "y++", "y--", "x.clear()", "swap(x,y)", "x=first of another filter", "x=Iter()"};
    const int kOps = 15;
    int depth = sc.param ? sc.param : 4;
    std::vector<int> h(depth, 0);
    auto hist = [&](int upto) { Str s; for (int z = 0; z <= upto; z++) s += Str(z ? "; " : "") + names[h[z]]; return s; };
    std::vector<uint64_t> suffix(n);
    {
        surf::SuRF::Iter it = f->moveToFirst();
        for (size_t i = 0; i < n; i++, it++) suffix[i] = iterDigest(it);
    }
    auto verify = [&](const Reg& r, const char* name, int z) {
        if (r.it.isValid() != (r.at != kNone)) c.fail(fmt("after [%s] %s is %s", hist(z).c_str(), name, r.it.isValid() ? "valid" : "invalid"));
        if (r.at == kNone) {
            surf::word_t w = 0;
            unsigned bl = 99;
            if (!r.it.getKey().empty() || r.it.getSuffix(&w) != 0 || !r.it.getKeyWithSuffix(&bl).empty() || bl != 0) c.fail(fmt("after [%s] the invalid %s still reports a key", hist(z).c_str(), name));
        } else if (r.it.getKey() != c.ref.prefix(r.at) || iterDigest(r.it) != suffix[r.at]) {
            c.fail(fmt("after [%s] %s reports %s instead of %s", hist(z).c_str(), name, show(r.it.getKey()).c_str(), show(c.ref.prefix(r.at)).c_str()));
        }
        env.count(C_CHECKS);
    };
    for (;;) {
        // x may be on the other filter: counts need both registers on one filter
        Reg x = {f->moveToFirst(), 0}, y = {f->moveToLast(), n - 1};
        bool xf = true, yf = true;
        for (int z = 0; z < depth; z++) {
            bool ret = true, want = true;
            auto step = [&](Reg& r, bool fwd) {
                ret = fwd ? r.it++ : r.it--;
                if (r.at == kNone) want = false;
                else if (fwd) { r.at++; want = r.at != kNone; }
                else if (r.at == 0) { r.at = kNone; want = false; }
                else r.at--;
            };
            switch (h[z]) {
            case 0: x = {f->moveToFirst(), 0}; xf = true; break;
            case 1: x = {f->moveToLast(), n - 1}; xf = true; break;
            case 2: x = {f->moveToKeyGreaterThan(mid, true), at_mid}; xf = true; break;
            case 3: x = {f->moveToKeyLessThan(mid, false), at_before}; xf = true; break;
            case 4: x = {f->moveToKeyGreaterThan(beyond, false), at_end}; xf = true; break;
            case 5: x = y; xf = yf; break;
            case 6: y = x; yf = xf; break;
            case 7: step(x, true); break;
            case 8: step(x, false); break;
            case 9: step(y, true); break;
            case 10: step(y, false); break;
            case 11: x.it.clear(); x.at = kNone; break;
            case 12: std::swap(x, y); std::swap(xf, yf); break;
            case 13: x = {g->moveToFirst(), 0}; xf = false; break;
            case 14: x = {surf::SuRF::Iter(), kNone}; break;
            }
            if (ret != want) c.fail(fmt("after [%s] the step returned %s", hist(z).c_str(), ret ? "true" : "false"));
            verify(x, "x", z);
            verify(y, "y", z);
            env.count(C_OPS);
        }
        if (xf == yf) {
            uint64_t between = x.at == kNone || y.at == kNone || y.at <= x.at ? 0 : y.at - x.at - 1;
            uint64_t got = (xf ? f : g)->approxCount(&x.it, &y.it);
            if (got != between) c.fail(fmt("after [%s] approxCount(&x, &y) = %llu instead of %llu", hist(depth - 1).c_str(), (unsigned long long)got, (unsigned long long)between));
        }
        env.count(C_C);
        int k = depth;
        while (k > 0 && ++h[k - 1] == kOps) h[--k] = 0;
        if (k == 0) break;
    }
}

//------------------------------------------------------------------ C31: out of memory
#if !defined(MC_NO_ALLOC)
// Every allocation of every operation fails once (alone, and together with all later ones).
inline void checkOutOfMemory(Env& env, const Scenario& sc) {
    Ctx c(env, sc, 0);
    c.q = thin(c.q, 60);
    const Strs& q = c.q;
    AllocState& al = allocState();
    size_t n = c.ref.n(), Q = q.size();
    Filter f(env, sc);
    Image before, after;
    before.take(f.s);
    auto idx = [&](const Str& s) { return (size_t)(std::lower_bound(q.begin(), q.end(), s) - q.begin()) % Q; };
    size_t mid = idx(c.ref.keys[n / 2]), lo = idx(c.ref.keys[0]), hi = idx(c.ref.keys[n - 1]);
    std::vector<Op> ops;
    for (size_t i : {mid, (mid + 1) % Q, (lo + Q - 1) % Q, (hi + 1) % Q, hi}) for (int k : {0, 3, 4}) ops.push_back({k, i, i});
    for (int k : {1, 2, 5, 10}) { ops.push_back({k, lo, hi}); ops.push_back({k, mid, std::min(mid + 1, Q - 1)}); ops.push_back({k, std::min(hi + 1, Q - 1), Q - 1}); }
    for (int k : {6, 7, 9, 11, 12, 13, 14}) ops.push_back({k, mid, hi});
    // an iterator that stays alive throughout, and a target to assign over
    surf::SuRF::Iter held = f->moveToKeyGreaterThan(c.ref.keys[n / 2], true);
    auto perform = [&](const Op& o) -> uint64_t {
        switch (o.kind) {
        case 11: {   // serialize
            uint64_t size = f->serializedSize();
            std::unique_ptr<char[]> p(f->serialize());
            uint64_t h = 14695981039346656037ull;
            for (uint64_t i = 0; i < size; i++) h = (h ^ (unsigned char)p[i]) * 1099511628211ull;
            return h;
        }
        case 12: { surf::SuRF::Iter x(held), y = f->moveToFirst(); y = x; y++; return iterDigest(x) * 31 + iterDigest(y); }
        case 13: { surf::SuRF::Iter it = f->moveToFirst(); uint64_t d = 0; for (int k = 0; k < 20 && it.isValid(); k++) { d = d * 31 + iterDigest(it); it++; } return d; }
        case 14: { surf::SuRF::Iter it = f->moveToLast(); uint64_t d = 0; for (int k = 0; k < 20 && it.isValid(); k++) { d = d * 31 + iterDigest(it) + it.compare(q[o.i]); it--; } return d; }
        }
        return doOp(f.s, q, o);
    };
    auto name = [&](const Op& o) {
        static const char* more[] = {"serialize", "iterator copies", "walk forward", "walk backward"};
        return Str(o.kind >= 11 ? more[o.kind - 11] : opName(o.kind)) + "(" + show(q[o.i]) + "," + show(q[o.j]) + ")";
    };
    std::vector<uint64_t> want;
    for (auto& o : ops) want.push_back(perform(o));
    uint64_t hd = iterDigest(held);
    // runs body with allocation k failing; true if a failure was injected and reported
    auto inject = [&](uint64_t k, bool sticky, const std::function<uint64_t()>& body, uint64_t* value) {
        al.seen = al.fired = 0;
        al.fail_at = k;
        al.sticky = sticky;
        int how = 0;
        al.armed = true;
        try { *value = body(); } catch (const std::bad_alloc&) { how = 1; } catch (...) { how = 2; }
        al.armed = false;
        return how;
    };
    auto verifyAll = [&](const Str& what) {
        for (size_t o = 0; o < ops.size(); o++) if (perform(ops[o]) != want[o]) c.fail("after an allocation failed in " + what + ", " + name(ops[o]) + " answers differently");
        if (iterDigest(held) != hd) c.fail("after an allocation failed in " + what + " an iterator held meanwhile changed its place");
        env.count(C_OPS, ops.size());
    };
    for (size_t o = 0; o < ops.size(); o++)
        for (int sticky = 0; sticky < 2; sticky++)
            for (uint64_t k = 0;; k++) {
                int64_t blocks = al.blocks, bytes = al.bytes;
                uint64_t v = 0;
                int how = inject(k, sticky, [&] { return perform(ops[o]); }, &v);
                blocks -= al.blocks, bytes -= al.bytes;
                Str at = fmt(" with allocation %llu failing%s", (unsigned long long)k, sticky ? " and all later ones" : "");
                if (how == 2) c.fail(name(ops[o]) + at + " threw something other than std::bad_alloc");
                if (how == 0 && v != want[o]) c.fail(name(ops[o]) + at + " answered differently instead of reporting it");
                if (blocks || bytes) c.fail(name(ops[o]) + at + fmt(" leaves %lld blocks (%lld bytes) allocated", (long long)-blocks, (long long)-bytes));
                if (al.bad) c.fail(name(ops[o]) + at + ": " + al.bad);
                env.count(C_CHECKS);
                if (!al.fired) break;
                verifyAll(name(ops[o]) + at);
                env.count(C_A);
            }
    // building and reading another filter: the failure arrives, the first filter does not notice
    Strs k2;
    for (size_t i = 0; i < n; i += 1 + n / 12) k2.push_back(sc.keys[i] + (i % 4 ? "z" : ""));
    sortUnique(k2);
    Str image((const char*)before.data(), before.size);
    std::vector<uint64_t> buf(image.size() / 8 + 1);
    for (int what = 0; what < 3; what++)
        for (int sticky = 0; sticky < 2; sticky++)
            for (uint64_t k = 0;; k++) {
                surf::SuRF* g = 0;
                uint64_t v = 0;
                memcpy((char*)buf.data(), image.data(), image.size());
                int how = inject(k, sticky, [&]() -> uint64_t {
                    if (what == 0) g = new surf::SuRF(k2, sc.cfg.dense, sc.cfg.ratio, stype(sc.cfg.type), sc.cfg.h, sc.cfg.r);
                    else if (what == 1) g = surf::SuRF::deSerialize((char*)buf.data());
                    else g = new surf::SuRF(sc.keys, stype(sc.cfg.type), sc.cfg.h, sc.cfg.r);
                    return 0;
                }, &v);
                Str text = fmt("%s with allocation %llu failing%s", what == 1 ? "deSerialize()" : "building another filter", (unsigned long long)k, sticky ? " and all later ones" : "");
                if (how == 2) c.fail(text + " threw something other than std::bad_alloc");
                env.count(C_CHECKS);
                bool fired = al.fired;
                if (how == 0) {
                    Filter h(g);
                    const Strs& keys = what == 0 ? k2 : sc.keys;
                    for (auto& s : keys) if (!h->lookupKey(s)) c.fail(text + " gave a filter that denies " + show(s));
                    if (what == 1) { Image im; im.take(h.s); if (!before.same(im)) c.fail(text + " gave another filter"); }
                }
                if (!fired) break;
                if (memcmp((char*)buf.data(), image.data(), image.size())) c.fail(text + " changed the image it read");
                if (k % 7 == 0) verifyAll(text);
                env.count(C_A);
            }
    verifyAll("the whole history");
    after.take(f.s);
    if (!before.same(after)) c.fail("the filter changed when allocations failed");
}
#endif

//------------------------------------------------------------------ C16: memory safety
// Runs everything; the build (address and undefined-behaviour sanitizers) is the oracle.
#if defined(MC_MSAN)
extern "C" void __msan_check_mem_is_initialized(const volatile void*, size_t);
#define MC_DEFINED(p, n) __msan_check_mem_is_initialized(p, n)
#else
#define MC_DEFINED(p, n) (void)0
#endif
inline void checkMemory(Env& env, const Scenario& sc) {
    Ctx c(env, sc, sc.keys.size() > 40 ? 0 : 1);
    c.q = thin(c.q, 150);
    Filter f(env, sc);
    uint64_t n = 0;
    auto use = [&](const char*, size_t, size_t, uint64_t v) { MC_DEFINED(&v, sizeof v); n++; };
    // iterators as values: default-constructed, copied, assigned over, cleared, stepped past the ends
    auto values = [&](surf::SuRF* f) {
        typedef surf::SuRF::Iter It;
        auto look = [&](It& it) {
            surf::word_t w = 0;
            unsigned bl = 0;
            bool v = it.isValid();
            use("", 0, 0, v ? it.getFpFlag() : 0);
            use("", 0, 0, hstr(it.getKey()) + hstr(it.getKeyWithSuffix(&bl)) + it.getSuffix(&w) + w + bl);
            if (v) use("", 0, 0, it.compare(sc.keys[0]));
        };
        It none, copy = none, first = f->moveToFirst(), last = f->moveToLast();
        copy = first; look(copy);
        std::swap(copy, none); look(copy); look(none);
        none = last;
        use("", 0, 0, none++ ? 1 : 0); look(none);
        use("", 0, 0, copy++ ? 1 : 0); use("", 0, 0, copy-- ? 1 : 0); look(copy);
        use("", 0, 0, f->approxCount(&first, &last));
        use("", 0, 0, f->approxCount(&none, &last));
        It again = none;
        again.clear(); look(again);
        last.clear(); look(last);
        use("", 0, 0, last-- ? 1 : 0);
        last = first; look(last);
        use("", 0, 0, last-- ? 1 : 0); look(last);
        use("", 0, 0, f->approxCount(&first, &last));
    };
    values(f.s);
    int ef = sc.keys.size() > 12 ? 0 : std::min(sc.effort, 1);
    answers(f.s, c.q, ef, true, use);
    char* p = f->serialize();
    uint64_t size = f->serializedSize();
    // exactly size bytes, so that the sanitizer sees a read beyond them
    char* copy = (char*)malloc(size);
    MC_DEFINED(p, size);
    memcpy(copy, p, size);
    delete[] p;
    Filter g(surf::SuRF::deSerialize(copy));
    free(copy);
    answers(g.s, c.q, 0, true, use);
    values(g.s);
    f.reset();
    answers(g.s, thin(c.q, 20), 0, true, use);
    env.count(C_OPS, n);
}

}  // namespace mc
