// The oracles: each function runs one scenario on the real filter and compares every answer with the
// reference model.  Only the public interface of the code under test is used.
#pragma once
#include "surf.hpp"
#include "spaces.hpp"

namespace mc {

inline surf::SuffixType stype(int t) {
    switch (t) {
    case T_HASH: return surf::kHash;
    case T_REAL: return surf::kReal;
    case T_MIXED: return surf::kMixed;
    }
    return surf::kNone;
}

// A filter built from a scenario.
struct Filter {
    surf::SuRF* s = 0;
    Filter() {}
    Filter(const Strs& keys, const Config& c) : s(new surf::SuRF(keys, c.dense, c.ratio, stype(c.type), c.h, c.r)) {}
    Filter(Env& env, const Scenario& sc) : Filter(sc.keys, sc.cfg) {
        // how many levels are densely encoded, out of how many: shows what the space reaches
        unsigned d = s->getSparseStartLevel(), h = s->getHeight();
        env.hist(d >= h ? 32 + std::min(d, 15u) : std::min(d, 31u));
    }
    explicit Filter(surf::SuRF* p) : s(p) {}
    Filter(const Filter&) = delete;
    Filter& operator=(const Filter&) = delete;
    ~Filter() { reset(); }
    void reset() {
        if (s) { s->destroy(); delete s; s = 0; }
    }
    surf::SuRF* operator->() const { return s; }
};

inline Strs queriesOf(const Scenario& sc, const Ref& ref, int richness = 1) {
    return sc.queries.empty() ? deriveQueries(ref, richness) : sc.queries;
}

struct Ctx {
    Env& env;
    const Scenario& sc;
    Ref ref;
    Strs q;
    Ctx(Env& e, const Scenario& s, int richness = 1, bool want_queries = true) : env(e), sc(s) {
        ref.init(s.keys, s.cfg);
        if (want_queries) q = queriesOf(s, ref, richness);
        env.count(C_STATES);
    }
    [[noreturn]] void fail(const Str& m) { env.fail(m + " | " + scenarioText(sc)); }
    Str at(size_t i) const { return i < ref.n() ? show(ref.keys[i]) : Str("end"); }
};

// Position of an iterator: index of the key it stands for, n() for "invalid".  Fails on garbage.
inline size_t posOf(Ctx& c, const surf::SuRF::Iter& it, const Str& what) {
    if (!it.isValid()) return c.ref.n();
    Str p = it.getKey();
    size_t i = c.ref.indexOfPrefix(p);
    if (i == c.ref.n()) c.fail(what + " stands at " + show(p) + ", which is no stored key's kept prefix");
    return i;
}

//------------------------------------------------------------------ C01 / C02: point queries
inline void checkPointFN(Env& env, const Scenario& sc) {
    Ctx c(env, sc, 0, false);
    Filter f(env, sc);
    for (auto& k : c.ref.keys) {
        env.count(C_OPS);
        if (!f->lookupKey(k)) c.fail("lookupKey(" + show(k) + ") = false for a stored key");
    }
    env.count(C_POS, c.ref.n());
}

inline void checkPointPrecision(Env& env, const Scenario& sc) {
    Ctx c(env, sc, sc.keys.size() > 300 ? 0 : 1);
    Filter f(env, sc);
    auto h = [](const Str&) { return 0; };
    uint64_t pos = 0, neg = 0, fp = 0;
    for (auto& q : c.q) {
        bool got = f->lookupKey(q);
        if (!got) { neg++; continue; }
        pos++;
        if (!c.ref.contains(q)) fp++;
        if (!c.ref.pointAllowed(q, h))
            c.fail("lookupKey(" + show(q) + ") = true although no stored key has that kept prefix and suffix bits");
    }
    env.count(C_OPS, c.q.size());
    env.count(C_POS, pos); env.count(C_NEG, neg); env.count(C_FP, fp);
}

// hash bits: over every query of the scenario that reaches a key's leaf without being the key, the
// fraction accepted must be near 2^-bits.
inline void checkHashRate(Env& env, const Scenario& sc) {
    Ctx c(env, sc, 0);
    Filter f(env, sc);
    auto h = [](const Str&) { return 0; };
    uint64_t n = 0, p = 0;
    for (auto& q : c.q) {
        if (c.ref.contains(q)) continue;
        bool reach = c.ref.pointAllowed(q, h);
        bool got = f->lookupKey(q);
        env.count(C_OPS);
        if (got && !reach) c.fail("lookupKey(" + show(q) + ") = true although no stored key has that kept prefix and suffix bits");
        if (!reach) continue;
        n++;
        p += got;
    }
    double expect = (double)n / (double)(1ull << std::min<uint32_t>(sc.cfg.h, 25));
    env.count(C_A, n);
    env.count(C_FP, p);
    if (p > 1.4 * expect + 20)
        c.fail(fmt("%llu of %llu non-member queries accepted, about %.1f expected from %u hash bits", (unsigned long long)p, (unsigned long long)n, expect, sc.cfg.h));
}

// With 16 or more hash bits, no byte of the key may be left out: of the 255 ways to change one byte, and
// of the 256 ways to add one, nearly none is accepted.
inline void checkHashBytes(Env& env, const Scenario& sc) {
    Ctx c(env, sc, 0);
    Filter f(env, sc);
    auto h = [](const Str&) { return 0; };
    for (auto& k : c.ref.keys)
        for (size_t p = 0; p <= k.size(); p++) {
            unsigned n = 0, acc = 0;
            for (unsigned d = 0; d < 256; d++) {
                Str q = k;
                if (p == k.size()) q += (char)d;
                else q[p] ^= (char)d;
                if (c.ref.contains(q) || !c.ref.pointAllowed(q, h)) continue;
                n++;
                acc += f->lookupKey(q);
            }
            env.count(C_OPS, n);
            env.count(C_FP, acc);
            if (n >= 100 && acc > 5 + n / 50) c.fail(fmt("%u of %u queries that differ from %s only at byte %zu are accepted with %u hash bits", acc, n, show(k).c_str(), p, sc.cfg.h));
        }
    // whole-key changes: two bytes or two words exchanged, zero bytes added, the key cut short, the key repeated
    for (auto& k : c.ref.keys)
        for (int group = 0; group < 5; group++) {
            Strs qs;
            size_t len = k.size();
            if (group == 0)
                for (size_t i = 0; i < len; i++) for (size_t j = i + 1; j < len; j++) { Str q = k; std::swap(q[i], q[j]); qs.push_back(q); }
            else if (group == 1)
                for (size_t i = 0; i + 4 <= len; i += 4) for (size_t j = i + 4; j + 4 <= len; j += 4) { Str q = k; std::swap_ranges(q.begin() + i, q.begin() + i + 4, q.begin() + j); qs.push_back(q); }
            else if (group == 2)
                for (size_t i = 1; i <= 64; i++) qs.push_back(k + Str(i, 0));
            else if (group == 3)
                for (size_t i = 1; i < len; i++) qs.push_back(k.substr(0, i));
            else
                for (size_t i = 1; i <= len; i++) { qs.push_back(k + k.substr(0, i)); qs.push_back(k + k.substr(len - i)); }
            sortUnique(qs);
            unsigned n = 0, acc = 0;
            for (auto& q : qs) {
                if (c.ref.contains(q) || !c.ref.pointAllowed(q, h)) continue;
                n++;
                acc += f->lookupKey(q);
            }
            env.count(C_OPS, n);
            env.count(C_FP, acc);
            if (n >= 6 && acc > 2 + n / 20) c.fail(fmt("%u of %u queries made from %s by %s are accepted with %u hash bits", acc, n, show(k).c_str(),
                group == 0 ? "exchanging two bytes" : group == 1 ? "exchanging two words" : group == 2 ? "adding zero bytes" : group == 3 ? "cutting it short" : "repeating a part", sc.cfg.h));
        }
}

//------------------------------------------------------------------ C03 / C04: range queries
inline void checkRange(Env& env, const Scenario& sc, bool fn, bool precision) {
    Ctx c(env, sc, sc.keys.size() > 100 ? 0 : 1);
    Filter f(env, sc);
    uint64_t pos = 0, neg = 0, fp = 0, ops = 0;
    forPairs(c.q.size(), sc.effort, [&](size_t i, size_t j) {
        const Str &l = c.q[i], &r = c.q[j];
        bool allowed = precision ? c.ref.rangeAllowed(l, r) : true;
        for (int m = 0; m < 4; m++) {
            bool li = m & 1, ri = m & 2;
            bool got = f->lookupRange(l, li, r, ri);
            ops++;
            if (got) pos++; else neg++;
            bool truth = c.ref.rangeTrue(l, li, r, ri);
            if (got && !truth) fp++;
            if (fn && truth && !got)
                c.fail(fmt("lookupRange(%s,%d,%s,%d) = false although a stored key lies in that range", show(l).c_str(), li, show(r).c_str(), ri));
            if (precision && got && !allowed)
                c.fail(fmt("lookupRange(%s,%d,%s,%d) = true although every stored key is distinguishable from the range", show(l).c_str(), li, show(r).c_str(), ri));
        }
    });
    env.count(C_OPS, ops); env.count(C_POS, pos); env.count(C_NEG, neg); env.count(C_FP, fp);
}
inline void checkRangeFN(Env& e, const Scenario& s) { checkRange(e, s, true, false); }
inline void checkRangePrecision(Env& e, const Scenario& s) { checkRange(e, s, false, true); }

//------------------------------------------------------------------ C05 / C06: seeks
inline void checkSeekForward(Env& env, const Scenario& sc) {
    Ctx c(env, sc, sc.keys.size() > 300 ? 0 : 1);
    Filter f(env, sc);
    size_t n = c.ref.n();
    for (auto& q : c.q) {
        for (int inc = 0; inc < 2; inc++) {
            surf::SuRF::Iter it = f->moveToKeyGreaterThan(q, inc);
            env.count(C_OPS);
            size_t got = posOf(c, it, "moveToKeyGreaterThan(" + show(q) + ")");
            // first key that is not surely below q
            size_t want = c.ref.lower(q);
            if (want > 0 && !c.ref.surelyLess(want - 1, q)) want--;
            bool exact = want < n && c.ref.exact[want] && c.ref.keys[want] == q;
            bool ok = got == want;
            if (exact && !inc) ok = got == want + 1;
            if (!ok)
                c.fail(fmt("moveToKeyGreaterThan(%s,%d) landed on %s, expected %s", show(q).c_str(), inc, c.at(got).c_str(), c.at(exact && !inc ? want + 1 : want).c_str()));
            if (got < n) {
                bool amb = c.ref.ambiguous(got, q) && !c.ref.exact[got];
                if (it.getFpFlag() != amb)
                    c.fail(fmt("moveToKeyGreaterThan(%s,%d) landed on %s with false-positive flag %d, expected %d", show(q).c_str(), inc, c.at(got).c_str(), (int)it.getFpFlag(), (int)amb));
                env.count(amb ? C_AMBIG : C_POS);
            } else env.count(C_INVALID);
        }
    }
}

inline void checkSeekBackward(Env& env, const Scenario& sc) {
    Ctx c(env, sc, sc.keys.size() > 300 ? 0 : 1);
    Filter f(env, sc);
    size_t n = c.ref.n();
    for (auto& q : c.q) {
        for (int inc = 0; inc < 2; inc++) {
            surf::SuRF::Iter it = f->moveToKeyLessThan(q, inc);
            env.count(C_OPS);
            size_t got = posOf(c, it, "moveToKeyLessThan(" + show(q) + ")");
            // last key that is not surely above q
            size_t up = c.ref.upper(q);
            size_t want = n;  // n = invalid
            if (up < n && !c.ref.surelyGreater(up, q)) want = up;
            else if (up > 0) want = up - 1;
            bool exact = want < n && c.ref.exact[want] && c.ref.keys[want] == q;
            if (exact && !inc) want = want > 0 ? want - 1 : n;
            if (got != want)
                c.fail(fmt("moveToKeyLessThan(%s,%d) landed on %s, expected %s", show(q).c_str(), inc, c.at(got).c_str(), c.at(want).c_str()));
            if (got < n) {
                bool amb = c.ref.ambiguous(got, q);
                if (it.getFpFlag() != amb)
                    c.fail(fmt("moveToKeyLessThan(%s,%d) landed on %s with false-positive flag %d, expected %d", show(q).c_str(), inc, c.at(got).c_str(), (int)it.getFpFlag(), (int)amb));
                env.count(amb ? C_AMBIG : C_POS);
            } else env.count(C_INVALID);
        }
    }
}

//------------------------------------------------------------------ C07: iteration
inline void stepCheck(Ctx& c, surf::SuRF::Iter& it, size_t& at, bool fwd, const char* from) {
    size_t n = c.ref.n();
    size_t want = at;
    if (at < n) want = fwd ? at + 1 : (at == 0 ? n : at - 1);
    bool r = fwd ? it++ : it--;
    c.env.count(C_OPS);
    size_t got = posOf(c, it, from);
    if (got != want) c.fail(fmt("%s: %s from %s went to %s, expected %s", from, fwd ? "++" : "--", c.at(at).c_str(), c.at(got).c_str(), c.at(want).c_str()));
    if (r != (want < n)) c.fail(fmt("%s: %s from %s returned %d but the iterator is %s", from, fwd ? "++" : "--", c.at(at).c_str(), (int)r, want < n ? "valid" : "invalid"));
    at = want;
}

// every +/- sequence of the given depth from this iterator
inline void allWalks(Ctx& c, const surf::SuRF::Iter& it, size_t at, int depth, const char* from) {
    if (depth == 0) return;
    for (int d = 0; d < 2; d++) {
        surf::SuRF::Iter j = it;
        size_t a = at;
        stepCheck(c, j, a, d, from);
        allWalks(c, j, a, depth - 1, from);
    }
}

inline void checkIteration(Env& env, const Scenario& sc) {
    Ctx c(env, sc, 0);
    Filter f(env, sc);
    size_t n = c.ref.n();
    int depth = n <= 4 ? 5 : n <= 32 ? 4 : n <= 400 ? 3 : 1;
    {
        surf::SuRF::Iter it = f->moveToFirst();
        size_t at = posOf(c, it, "moveToFirst");
        if (at != 0) c.fail("moveToFirst stands at " + c.at(at));
        while (at < n) {
            if (n <= 4000) allWalks(c, it, at, depth, "full forward scan");
            stepCheck(c, it, at, true, "full forward scan");
        }
        stepCheck(c, it, at, true, "past the end");
        stepCheck(c, it, at, false, "past the end");
    }
    {
        surf::SuRF::Iter it = f->moveToLast();
        size_t at = posOf(c, it, "moveToLast");
        if (at != n - 1) c.fail("moveToLast stands at " + c.at(at));
        while (at < n) {
            if (n <= 400) allWalks(c, it, at, depth - 1, "full backward scan");
            stepCheck(c, it, at, false, "full backward scan");
        }
        stepCheck(c, it, at, false, "before the beginning");
        stepCheck(c, it, at, true, "before the beginning");
    }
    if (sc.queries.empty() || sc.keys.size() <= 4000) {
        size_t step = c.q.size() > 600 ? c.q.size() / 300 : 1;
        for (size_t i = 0; i < c.q.size(); i += step) {
            surf::SuRF::Iter it = f->moveToKeyGreaterThan(c.q[i], true);
            size_t at = posOf(c, it, "seek");
            allWalks(c, it, at, depth > 2 ? depth - 1 : depth, "from a forward seek");
            surf::SuRF::Iter jt = f->moveToKeyLessThan(c.q[i], true);
            at = posOf(c, jt, "seek");
            allWalks(c, jt, at, 2, "from a backward seek");
        }
    }
    {
        surf::SuRF::Iter e;
        if (e.isValid()) c.fail("a default-constructed iterator is valid");
        surf::SuRF::Iter it = f->moveToFirst();
        it.clear();
        if (it.isValid()) c.fail("a cleared iterator is valid");
        if (it++ || it--) c.fail("a cleared iterator moves");
    }
}

//------------------------------------------------------------------ C08: what an iterator reports
inline void reportCheck(Ctx& c, const surf::SuRF::Iter& it, size_t i, const char* from) {
    const Ref& ref = c.ref;
    if (!it.isValid()) c.fail(fmt("%s: iterator invalid at key %s", from, c.at(i).c_str()));
    Str k = it.getKey();
    if (k != ref.prefix(i)) c.fail(fmt("%s: getKey() = %s at key %s, expected the kept prefix %s", from, show(k).c_str(), c.at(i).c_str(), show(ref.prefix(i)).c_str()));
    surf::word_t w = 0x5555;
    int len = it.getSuffix(&w);
    int wl = ref.hasReal() ? (int)ref.cfg.r : 0;
    if (len != wl) c.fail(fmt("%s: getSuffix at %s returned %d bits, expected %d", from, c.at(i).c_str(), len, wl));
    uint64_t want = ref.hasReal() && ref.known[i] ? ref.bits[i] : 0;
    if (w != want) c.fail(fmt("%s: getSuffix at %s stored %llx, expected %llx", from, c.at(i).c_str(), (unsigned long long)w, (unsigned long long)want));
    unsigned bl = 999;
    Str ks = it.getKeyWithSuffix(&bl);
    Str wks = ref.prefix(i);
    unsigned wbl = 0;
    if (ref.hasReal() && ref.known[i]) {
        wbl = ref.cfg.r % 8;
        for (unsigned b = 0; b < ref.cfg.r; b += 8) {
            unsigned char byte = (unsigned char)ref.keys[i][ref.plen[i] + b / 8];
            if (ref.cfg.r - b < 8) byte = byte & (unsigned char)(0xff << (8 - (ref.cfg.r - b)));
            wks += (char)byte;
        }
    }
    if (ks != wks || bl != wbl)
        c.fail(fmt("%s: getKeyWithSuffix at %s = %s/%u, expected %s/%u", from, c.at(i).c_str(), show(ks).c_str(), bl, show(wks).c_str(), wbl));
    c.env.count(C_OPS, 3);
    c.env.count(wl && ref.known[i] ? C_POS : C_NEG);
}
inline void checkIterReport(Env& env, const Scenario& sc) {
    Ctx c(env, sc, 0, false);
    Filter f(env, sc);
    size_t n = c.ref.n();
    {
        surf::SuRF::Iter it = f->moveToFirst();
        for (size_t i = 0; i < n; i++) {
            reportCheck(c, it, i, "forward scan");
            it++;
        }
        // invalid iterators report nothing
        if (it.isValid()) c.fail("iterator valid past the end");
        surf::word_t w = 1;
        unsigned bl = 7;
        if (!it.getKey().empty() || it.getSuffix(&w) != 0 || !it.getKeyWithSuffix(&bl).empty() || bl != 0) c.fail("an invalid iterator reports a key");
    }
    {
        surf::SuRF::Iter it = f->moveToLast();
        for (size_t i = n; i-- > 0;) {
            reportCheck(c, it, i, "backward scan");
            it--;
        }
    }
    size_t step = n > 2000 ? n / 500 : 1;
    for (size_t i = 0; i < n; i += step) {
        reportCheck(c, f->moveToKeyGreaterThan(c.ref.keys[i], true), i, "seek to the key");
        reportCheck(c, f->moveToKeyLessThan(c.ref.keys[i], true), i, "backward seek to the key");
    }
}

//------------------------------------------------------------------ C09: comparing an iterator with a key
inline void compareCheck(Ctx& c, const surf::SuRF::Iter& it, size_t i, const Str& q) {
    int r = it.compare(q);
    c.env.count(C_OPS);
    const Ref& ref = c.ref;
    bool amb = ref.ambiguous(i, q);
    bool maybe = r == surf::kCouldBePositive || r == 0;
    if (amb) {
        c.env.count(C_AMBIG);
        if (!maybe) c.fail(fmt("compare(%s) at key %s = %d although the kept prefix and bits agree with it", show(q).c_str(), c.at(i).c_str(), r));
        return;
    }
    bool less = ref.keys[i] < q;
    c.env.count(less ? C_NEG : C_POS);
    if (maybe) c.fail(fmt("compare(%s) at key %s says \"may be equal\" (%d) although they differ in a kept byte or bit", show(q).c_str(), c.at(i).c_str(), r));
    if (less != (r < 0)) c.fail(fmt("compare(%s) at key %s = %d, wrong direction", show(q).c_str(), c.at(i).c_str(), r));
}
inline void checkCompare(Env& env, const Scenario& sc) {
    Ctx c(env, sc, sc.keys.size() > 300 ? 0 : 1);
    Filter f(env, sc);
    size_t n = c.ref.n();
    surf::SuRF::Iter it = f->moveToFirst();
    for (size_t i = 0; i < n; i++) {
        if (posOf(c, it, "scan") != i) c.fail("scan lost its place");
        if (c.q.size() * n <= 40000) {
            for (auto& q : c.q) compareCheck(c, it, i, q);
        } else {
            // queries around the key plus a spread over all
            size_t lo = std::lower_bound(c.q.begin(), c.q.end(), c.ref.keys[i]) - c.q.begin();
            for (size_t j = lo > 30 ? lo - 30 : 0; j < c.q.size() && j < lo + 30; j++) compareCheck(c, it, i, c.q[j]);
            for (size_t j = i % 37; j < c.q.size(); j += c.q.size() / 16 + 1) compareCheck(c, it, i, c.q[j]);
        }
        it++;
    }
}

//------------------------------------------------------------------ C10: approximate counts
inline void checkCountKeys(Env& env, const Scenario& sc) {
    Ctx c(env, sc, sc.keys.size() > 100 ? 0 : 1);
    Filter f(env, sc);
    forPairs(c.q.size(), sc.effort, [&](size_t i, size_t j) {
        uint64_t got = f->approxCount(c.q[i], c.q[j]);
        uint64_t truth = c.ref.countIn(c.q[i], c.q[j]);
        env.count(C_OPS);
        if (got > truth || got + 2 < truth)
            c.fail(fmt("approxCount(%s,%s) = %llu, exact %llu", show(c.q[i]).c_str(), show(c.q[j]).c_str(), (unsigned long long)got, (unsigned long long)truth));
    });
}
inline void checkCountIters(Env& env, const Scenario& sc) {
    Ctx c(env, sc, 0);
    Filter f(env, sc);
    size_t n = c.ref.n();
    std::vector<surf::SuRF::Iter> its;
    size_t step = n > 300 ? n / 100 : 1;
    std::vector<size_t> idx;
    surf::SuRF::Iter it = f->moveToFirst();
    for (size_t i = 0; i < n; i++) {
        if (posOf(c, it, "scan") != i) c.fail("scan lost its place");
        if (i % step == 0 || i + 3 > n) { its.push_back(it); idx.push_back(i); }
        it++;
    }
    for (size_t a = 0; a < its.size(); a++)
        for (size_t b = a; b < its.size(); b++) {
            int64_t got = (int64_t)f->approxCount(&its[a], &its[b]);
            int64_t truth = b > a ? (int64_t)(idx[b] - idx[a]) - 1 : 0;
            env.count(C_OPS);
            if (got != truth)
                c.fail(fmt("approxCount between the iterators at %s and %s = %lld, keys strictly between: %lld", c.at(idx[a]).c_str(), c.at(idx[b]).c_str(), (long long)got, (long long)truth));
        }
    surf::SuRF::Iter inv = f->moveToLast();
    inv++;
    if (f->approxCount(&inv, &its[0]) != 0 || f->approxCount(&its[0], &inv) != 0) c.fail("approxCount with an invalid iterator is not 0");
}
inline void checkCount(Env& e, const Scenario& s) { checkCountKeys(e, s); checkCountIters(e, s); }

}  // namespace mc
