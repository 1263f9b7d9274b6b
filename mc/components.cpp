// Model checks of the parts of the library: C21-C24.  Each part is driven through the interface the
// project's own tests use, and compared with a few lines of obvious code.
#include <string>
#include <iostream>
#include "parts.hpp"

//------------------------------------------------------------------ C21: bit vectors
// Scenario: keys = one string of '0'/'1' per level; cfg.ratio/h = start and end level; param = block choice
static const unsigned kBlocks[] = {64, 512, 128};
static const unsigned kSamples[] = {64, 1, 3};
static void checkBits(Env& env, const Scenario& sc) {
    env.count(C_STATES);
    std::vector<std::vector<word_t> > lv;
    std::vector<position_t> nb;
    Str bits;
    unsigned start = sc.cfg.ratio, end = sc.cfg.h ? sc.cfg.h : sc.keys.size();
    for (size_t l = 0; l < sc.keys.size(); l++) {
        const Str& s = sc.keys[l];
        // the builder leaves a spare zero word behind a full last word
        std::vector<word_t> w(s.size() / 64 + 1, 0);
        for (size_t i = 0; i < s.size(); i++) if (s[i] == '1') surf::SuRFBuilder::setBit(w, i);
        lv.push_back(w);
        nb.push_back(s.size());
        if (l >= start && l < end) bits += s;
    }
    size_t n = bits.size();
    if (n == 0) return;
    std::vector<unsigned> prefix(n + 1, 0), ones;
    for (size_t i = 0; i < n; i++) { prefix[i + 1] = prefix[i] + (bits[i] == '1'); if (bits[i] == '1') ones.push_back(i); }

    auto scan = [&](const surf::Bitvector& b, const char* who) {
        FAILIF(b.numBits() != n, "%s: numBits() = %u, expected %zu", who, b.numBits(), n);
        int64_t prev = -1;
        std::vector<unsigned> nextAt(n + 1, n);
        for (size_t i = n; i-- > 0;) nextAt[i] = i + 1 < n && bits[i + 1] == '1' ? i + 1 : (i + 1 < n ? nextAt[i + 1] : n);
        for (size_t i = 0; i < n; i++) {
            FAILIF(b.readBit(i) != (bits[i] == '1'), "%s: readBit(%zu) of a %zu-bit vector = %d", who, i, n, (int)b.readBit(i));
            position_t d = b.distanceToNextSetBit(i);
            FAILIF(d != nextAt[i] - i, "%s: distanceToNextSetBit(%zu) of a %zu-bit vector = %u, expected %zu", who, i, n, d, nextAt[i] - i);
            if (prev >= 0) {
                position_t p = b.distanceToPrevSetBit(i);
                FAILIF(p != i - prev, "%s: distanceToPrevSetBit(%zu) of a %zu-bit vector = %u, expected %zu", who, i, n, p, (size_t)(i - prev));
            }
            if (bits[i] == '1') prev = i;
        }
        if (prev >= 0) FAILIF(b.distanceToPrevSetBit(n) != n - prev, "%s: distanceToPrevSetBit(%zu) at the end = %u", who, n, b.distanceToPrevSetBit(n));
        env.count(C_OPS, 3 * n + 1);
    };
    for (unsigned bs : kBlocks) {
        surf::BitvectorRank r(bs, lv, nb, start, end);
        auto test = [&](const surf::BitvectorRank& b, const char* who) {
            scan(b, who);
            for (size_t i = 0; i < n; i++) FAILIF(b.rank(i) != prefix[i + 1], "%s, block %u: rank(%zu) of a %zu-bit vector = %u, expected %u", who, bs, i, n, b.rank(i), prefix[i + 1]);
            env.count(C_OPS, n);
        };
        test(r, "rank vector");
        std::vector<uint64_t> buf(r.serializedSize() / 8 + 3, 0xfefefefefefefefeull);
        char* p = (char*)(buf.data() + 1);
        char* q = p;
        r.serialize(q);
        FAILIF(q - p != r.serializedSize(), "rank vector: serialize() wrote %d bytes, serializedSize() = %u", (int)(q - p), r.serializedSize());
        FAILIF(buf.back() != 0xfefefefefefefefeull, "rank vector: serialize() wrote past serializedSize()");
        q = p;
        surf::BitvectorRank* g = surf::BitvectorRank::deSerialize(q);
        FAILIF(q - p != r.serializedSize(), "rank vector: deSerialize() read %d bytes, serializedSize() = %u", (int)(q - p), r.serializedSize());
        r.destroy();
        test(*g, "deserialized rank vector");
        g->destroy();
        delete g;
        env.count(C_CHECKS);
    }
    for (unsigned si : kSamples) {
        if (bits[0] != '1') break;   // a select vector starts with a 1, as a LOUDS sequence does
        surf::BitvectorSelect s(si, lv, nb, start, end);
        auto test = [&](const surf::BitvectorSelect& b, const char* who) {
            scan(b, who);
            FAILIF(b.numOnes() != ones.size(), "%s: numOnes() = %u, expected %zu", who, b.numOnes(), ones.size());
            for (size_t k = 1; k <= ones.size(); k++) FAILIF(b.select(k) != ones[k - 1], "%s, samples every %u: select(%zu) of a %zu-bit vector = %u, expected %u", who, si, k, n, b.select(k), ones[k - 1]);
            env.count(C_OPS, ones.size());
        };
        test(s, "select vector");
        std::vector<uint64_t> buf(s.serializedSize() / 8 + 3, 0xfefefefefefefefeull);
        char* p = (char*)(buf.data() + 1);
        char* q = p;
        s.serialize(q);
        FAILIF(q - p != s.serializedSize(), "select vector: serialize() wrote %d bytes, serializedSize() = %u", (int)(q - p), s.serializedSize());
        FAILIF(buf.back() != 0xfefefefefefefefeull, "select vector: serialize() wrote past serializedSize()");
        q = p;
        surf::BitvectorSelect* g = surf::BitvectorSelect::deSerialize(q);
        s.destroy();
        test(*g, "deserialized select vector");
        g->destroy();
        delete g;
        env.count(C_CHECKS);
    }
}
static Scenario bitScenario(const Strs& levels, unsigned start = 0, unsigned end = 0) {
    Scenario s;
    s.keys = levels;
    s.cfg.ratio = start;
    s.cfg.h = end;
    return s;
}
static Str bin(uint64_t v, unsigned n) {
    Str s;
    for (unsigned i = 0; i < n; i++) s += (char)('0' + (v >> (n - 1 - i) & 1));
    return s;
}
static Spaces bitSpaces(bool t) {
    Spaces out;
    unsigned maxn = t ? 16 : 12;
    uint64_t tot = (1ull << (maxn + 1)) - 2;
    out.push_back(space("all", fmt("every bit string of 1..%u bits", maxn), tot, [](uint64_t i) {
        unsigned n = 1;
        while (i >= (1ull << n)) { i -= 1ull << n; n++; }
        return bitScenario({bin(i, n)});
    }));
    // every 8-bit string cut into three levels at every pair of places, every start/end
    struct Cut { unsigned a, b, s, e; };
    auto cuts = std::make_shared<std::vector<Cut> >();
    for (unsigned a = 0; a <= 8; a++)
        for (unsigned b = a; b <= 8; b++)
            for (unsigned s = 0; s < 3; s++)
                for (unsigned e = s + 1; e <= 3; e++) cuts->push_back({a, b, s, e});
    out.push_back(space("levels", "every 8-bit string x every cut into three levels x every start and end level", 256 * cuts->size(), [cuts](uint64_t i) {
        Str s = bin(i % 256, 8);
        const Cut& c = (*cuts)[i / 256];
        return bitScenario({s.substr(0, c.a), s.substr(c.a, c.b - c.a), s.substr(c.b)}, c.s, c.e);
    }));
    // every window of 10 bits at the seam of two words, between runs of zeros or ones
    out.push_back(space("seam", "every 10-bit string laid over each of the word boundaries 64, 128, 512, between runs of zeros or ones, ending 0..66 bits later", 1024 * 4 * 9, [](uint64_t i) {
        Str w = bin(i % 1024, 10);
        i /= 1024;
        char fill = i & 1 ? '1' : '0', after = i & 2 ? '1' : '0';
        i /= 4;
        const unsigned at[] = {64, 128, 512}, tail[] = {0, 49, 59};
        return bitScenario({Str(at[i % 3] - 5, fill) + w + Str(tail[i / 3], after)});
    }));
    // lengths and periodic patterns around every counter boundary
    std::vector<unsigned> lens;
    for (unsigned b : {64u, 128u, 192u, 512u, 576u, 1024u, 4096u}) for (int d = -2; d <= 2; d++) lens.push_back(b + d);
    if (t) for (unsigned l = 1; l < 1300; l += 7) lens.push_back(l);
    const std::vector<unsigned> periods = {1, 2, 3, 7, 31, 63, 64, 65, 127, 129, 500, 1000};
    out.push_back(space("periodic", fmt("%zu lengths around 64k..4096 x 12 periods x 4 phases x set/cleared", lens.size()), lens.size() * periods.size() * 8, [lens, periods](uint64_t i) {
        unsigned n = lens[i % lens.size()];
        i /= lens.size();
        unsigned p = periods[i % periods.size()];
        i /= periods.size();
        unsigned ph = (i % 4) * p / 4;
        bool inv = i / 4;
        Str s(n, '0');
        for (unsigned k = 0; k < n; k++) s[k] = ((k % p == ph) != inv) ? '1' : '0';
        return bitScenario({s});
    }));
    // one 1 (or one 0) at every place of a vector of several words
    out.push_back(space("single", "one 1, or one 0, at every place of vectors of 130, 192, 193 and 577 bits, or two 1s 1..200 bits apart", 2 * (130 + 192 + 193 + 577) + 200, [](uint64_t i) {
        const unsigned ls[] = {130, 192, 193, 577};
        if (i >= 2 * (130 + 192 + 193 + 577)) {
            i -= 2 * (130 + 192 + 193 + 577);
            Str s(330, '0');
            s[i % 70] = '1'; s[i % 70 + i + 1] = '1';
            return bitScenario({s});
        }
        bool inv = i & 1;
        i /= 2;
        unsigned k = 0;
        while (i >= ls[k]) i -= ls[k++];
        Str s(ls[k], inv ? '1' : '0');
        s[i] = inv ? '0' : '1';
        return bitScenario({s});
    }));
    // ones far apart: scans and selects that cross many words
    out.push_back(space("far", "2, 3, 66 or 130 ones with 300..40000 bits between them, over all-zero stretches, the last word full or not", 7 * 4 * 2, [](uint64_t i) {
        const unsigned gaps[] = {300, 512, 1023, 4096, 4161, 16384, 40000}, ones[] = {2, 3, 66, 130};
        unsigned g = gaps[i / 8], n = ones[i / 2 % 4];
        if (n > 3 && g > 5000) n = 8;
        Str s(g * (n - 1) + 1, '0');
        for (unsigned k = 0; k < n; k++) s[k * g] = '1';
        s += Str(i & 1 ? 700 : 63 - (s.size() + 63) % 64, '0');
        return bitScenario({s});
    }));
    // several levels with lengths around a word
    const std::vector<unsigned> ll = {0, 1, 62, 63, 64, 65, 66, 127, 128};
    out.push_back(space("joined", "three levels with every combination of 0,1,62..66,127,128 bits x 4 fillings", 729 * 4, [ll](uint64_t i) {
        Strs v;
        unsigned f = i % 4;
        i /= 4;
        for (int l = 0; l < 3; l++) {
            unsigned n = ll[i % 9];
            i /= 9;
            Str s(n, '0');
            for (unsigned k = 0; k < n; k++) s[k] = f == 0 ? '1' : f == 1 ? "10"[k & 1] : f == 2 ? (k == 0 || k + 1 == n ? '1' : '0') : ((k * k + l * 3 + k) % 7 < 3 ? '1' : '0');
            v.push_back(s);
        }
        return bitScenario(v);
    }));
    return out;
}

//------------------------------------------------------------------ C22: label search
// Scenario: keys[0] labels before, keys[1] the node's labels (ascending, maybe an end mark first), keys[2] after
static void checkLabels(Env& env, const Scenario& sc) {
    env.count(C_STATES);
    const Str &pre = sc.keys[0], &node = sc.keys[1], &post = sc.keys[2];
    std::vector<std::vector<surf::label_t> > lv(3);
    for (unsigned char c : pre) lv[0].push_back(c);
    for (unsigned char c : node) lv[1].push_back(c);
    for (unsigned char c : post) lv[2].push_back(c);
    surf::LabelVector v(lv);
    position_t base = pre.size(), len = node.size();
    size_t skip = len > 1 && (unsigned char)node[0] == surf::kTerminator ? 1 : 0;
    auto test = [&](const surf::LabelVector& v, const char* who) {
        for (position_t i = 0; i < pre.size() + len + post.size(); i++) {
            unsigned char w = i < base ? pre[i] : i < base + len ? node[i - base] : post[i - base - len];
            FAILIF(v.read(i) != w || v[i] != w, "%s: label %u reads back as %u, expected %u", who, i, v.read(i), w);
        }
        for (int t = 0; t < 256; t++) {
            size_t eq = len, gt = len;
            for (size_t i = skip; i < len; i++) {
                unsigned c = (unsigned char)node[i];
                if (c == (unsigned)t && eq == len) eq = i;
                if (c > (unsigned)t && gt == len) gt = i;
            }
            position_t p = base;
            bool r = v.search(t, p, len);
            FAILIF(r != (eq < len), "%s: search(%d) in a node of %u labels at position %u = %d", who, t, len, base, (int)r);
            if (r) FAILIF(p != base + eq, "%s: search(%d) in a node of %u labels at position %u stops at %u", who, t, len, base, p);
            p = base;
            r = v.searchGreaterThan(t, p, len);
            FAILIF(r != (gt < len), "%s: searchGreaterThan(%d) in a node of %u labels at position %u = %d", who, t, len, base, (int)r);
            if (r) FAILIF(p != base + gt, "%s: searchGreaterThan(%d) in a node of %u labels at position %u stops at %u", who, t, len, base, p);
            env.count(C_OPS, 2);
            env.count(eq < len ? C_POS : C_NEG);
            if (skip) continue;
            typedef bool (surf::LabelVector::*Fn)(const surf::label_t, position_t&, const position_t) const;
            const Fn fe[] = {&surf::LabelVector::binarySearch, &surf::LabelVector::simdSearch, &surf::LabelVector::linearSearch};
            for (int k = 0; k < 3; k++) {
                p = base;
                r = (v.*fe[k])(t, p, len);
                FAILIF(r != (eq < len) || (r && p != base + eq), "%s: search algorithm %d, label %d in a node of %u labels at position %u", who, k, t, len, base);
            }
            const Fn fg[] = {&surf::LabelVector::binarySearchGreaterThan, &surf::LabelVector::linearSearchGreaterThan};
            for (int k = 0; k < 2; k++) {
                p = base;
                r = (v.*fg[k])(t, p, len);
                FAILIF(r != (gt < len) || (r && p != base + gt), "%s: greater-than algorithm %d, label %d in a node of %u labels at position %u", who, k, t, len, base);
            }
            env.count(C_OPS, 5);
        }
    };
    test(v, "label vector");
    std::vector<uint64_t> buf(v.serializedSize() / 8 + 3, 0xfefefefefefefefeull);
    char* p = (char*)(buf.data() + 1);
    char* q = p;
    v.serialize(q);
    FAILIF(q - p != v.serializedSize(), "label vector: serialize() wrote %d bytes, serializedSize() = %u", (int)(q - p), v.serializedSize());
    q = p;
    surf::LabelVector* g = surf::LabelVector::deSerialize(q);
    v.destroy();
    test(*g, "deserialized label vector");
    g->destroy();
    delete g;
    env.count(C_CHECKS);
}
static Scenario labelScenario(const Str& pre, const Str& node, const Str& post) {
    Scenario s;
    s.keys = {pre, node, post};
    return s;
}
static Spaces labelSpaces(bool t) {
    Spaces out;
    out.push_back(space("subsets", "every non-empty subset of the 10 labels 00,01,02,60,7f,80,81,fd,fe,ff, with and without an end mark before it, 0..3 labels before", 1023 * 2 * 4, [](uint64_t i) {
        const unsigned char a[] = {0, 1, 2, 0x60, 0x7f, 0x80, 0x81, 0xfd, 0xfe, 0xff};
        unsigned m = i % 1023 + 1;
        i /= 1023;
        Str n;
        if (i & 1) n += "\xff";
        for (int b = 0; b < 10; b++) if (m >> b & 1) n += (char)a[b];
        i /= 2;
        return labelScenario(Str("\x60\xff\x01", i), n, i & 1 ? Str("\x01\x80\xff\x60\x7f\x02\x81\xfd\xfe\x00\x33\x34\x35\x36\x37\x38", 16) : Str());
    }));
    struct W { unsigned fan, start, stride, off; bool term; };
    auto ws = std::make_shared<std::vector<W> >();
    for (unsigned fan = 1; fan <= 256; fan++)
        for (unsigned stride : {1u, 2u, 5u, 15u})
            for (unsigned start : {0u, 1u, 100u, 254u}) {
                if (start + (uint64_t)(fan - 1) * stride > 255) continue;
                for (unsigned off : t ? std::vector<unsigned>{0, 1, 2, 3, 5, 7, 8, 13, 14, 15, 16, 17, 31, 63} : std::vector<unsigned>{0, 1, 7, 15}) {
                    ws->push_back({fan, start, stride, off, false});
                    ws->push_back({fan, start, stride, off, true});
                }
            }
    out.push_back(space("fanouts", fmt("%zu nodes: fan-outs 1..256 x strides x first labels x alignments, with and without an end mark", ws->size()), ws->size(), [ws](uint64_t i) {
        const W& w = (*ws)[i];
        Str n = w.term ? "\xff" : "", pre, post;
        for (unsigned k = 0; k < w.fan; k++) n += (char)(w.start + k * w.stride);
        for (unsigned k = 0; k < w.off; k++) pre += (char)(k * 37);
        // what follows must not be found: all labels that are not in the node
        for (int c = 255; c >= 0; c--) if (n.find((char)c) == Str::npos) post += (char)c;
        if (w.off % 2) post.clear();
        return labelScenario(pre, n, post);
    }));
    return out;
}

//------------------------------------------------------------------ C23: suffix store
// Scenario: keys: stored strings (suffix source), param = number of entries; cfg the suffix configuration
static uint64_t lowBits(uint64_t v, unsigned n) { return n >= 64 ? v : v & ((1ull << n) - 1); }
static void checkSuffixStore(Env& env, const Scenario& sc) {
    env.count(C_STATES);
    const Config& c = sc.cfg;
    unsigned h = c.type == T_HASH || c.type == T_MIXED ? c.h : 0, r = c.type == T_REAL || c.type == T_MIXED ? c.r : 0;
    unsigned len = h + r, n = sc.param;
    // n values in two levels, packed here, most significant bit first
    unsigned first = n / 3;
    std::vector<uint64_t> vals;
    std::vector<std::vector<word_t> > lv(2);
    std::vector<position_t> nb(2, 0);
    const level_t level = 2;
    auto valueOf = [&](unsigned i) -> uint64_t {
        const Str& k = sc.keys[i % sc.keys.size()];
        uint64_t v = 0;
        if (h) v = surf::BitvectorSuffix::constructHashSuffix(k, h);
        FAILIF(h && h < 64 && (v >> h), "constructHashSuffix(%u bits) has more than %u bits", h, h);
        if (r) {
            unsigned av = 0;
            uint64_t x = headBits(k, level, r, &av);
            if (av < r) x = 0;
            uint64_t got = surf::BitvectorSuffix::constructRealSuffix(k, level, r);
            FAILIF(got != x, "constructRealSuffix(%s, %u, %u bits) = %llx, expected %llx", show(k).c_str(), level, r, (unsigned long long)got, (unsigned long long)x);
            v = r >= 64 ? x : (v << r | x);
        }
        uint64_t got = surf::BitvectorSuffix::constructSuffix(stype(c.type), k, c.h, level, c.r);
        FAILIF(got != v, "constructSuffix(%s) = %llx, expected %llx", show(k).c_str(), (unsigned long long)got, (unsigned long long)v);
        if (i % 5 == 3) v = lowBits(~0ull, len);   // fields full of ones, next to the others
        return v;
    };
    for (unsigned i = 0; i < n; i++) vals.push_back(valueOf(i));
    for (unsigned i = 0; i < n; i++) {
        int l = i < first ? 0 : 1;
        for (unsigned b = 0; b < len; b++) {
            if (nb[l] / 64 >= lv[l].size()) lv[l].push_back(0);
            if (vals[i] >> (len - 1 - b) & 1) lv[l][nb[l] / 64] |= 1ull << (63 - nb[l] % 64);
            nb[l]++;
        }
    }
    for (int l = 0; l < 2; l++) lv[l].push_back(0);
    surf::BitvectorSuffix s(stype(c.type), h, r, lv, nb, 0, 2);
    Strs probes = sc.keys;
    for (auto& k : sc.keys) { probes.push_back(k.substr(0, k.size() / 2)); probes.push_back(k + "x"); if (k.size() > 2) { Str m = k; m[2] ^= 1; probes.push_back(m); m[2] ^= 0x81; probes.push_back(m); m = k; m[m.size() - 1] ^= 2; probes.push_back(m); } }
    sortUnique(probes);
    auto test = [&](const surf::BitvectorSuffix& s, const char* who) {
        FAILIF(s.getSuffixLen() != len || s.getHashSuffixLen() != h || s.getRealSuffixLen() != r || s.getType() != stype(c.type), "%s: wrong parameters", who);
        for (unsigned i = 0; i < n; i++) {
            uint64_t v = s.read(i);
            FAILIF(v != vals[i], "%s: suffix %u of %u (%u bits) reads back as %llx, stored %llx", who, i, n, len, (unsigned long long)v, (unsigned long long)vals[i]);
            if (r) FAILIF(s.readReal(i) != lowBits(vals[i], r), "%s: readReal(%u) = %llx, stored %llx", who, i, (unsigned long long)s.readReal(i), (unsigned long long)vals[i]);
            env.count(C_OPS, 2);
            if (i > 12 && i + 4 < n) continue;
            for (auto& p : probes) {
                bool eq = s.checkEquality(i, p, level);
                uint64_t rv = r ? lowBits(vals[i], r) : 0;
                unsigned av = 0;
                uint64_t pv = r ? headBits(p, level, r, &av) : 0;
                bool want;
                if (c.type == T_REAL) want = vals[i] == 0 || (av == r && pv == rv);
                else want = vals[i] == surf::BitvectorSuffix::constructSuffix(stype(c.type), p, c.h, level, c.r);
                FAILIF(eq != want, "%s: checkEquality(%u, %s) = %d with stored %llx", who, i, show(p).c_str(), (int)eq, (unsigned long long)vals[i]);
                int cmp = s.compare(i, p, level);
                int wc;
                if (!r) wc = surf::kCouldBePositive;
                else if (rv == 0 && r > 8) wc = surf::kCouldBePositive;
                else if (rv < pv) wc = -1;
                else if (rv > pv) wc = 1;
                else if (rv != 0 && av < r) wc = 1;
                else wc = surf::kCouldBePositive;
                FAILIF(cmp != wc, "%s: compare(%u, %s) = %d with stored %llx, expected %d", who, i, show(p).c_str(), cmp, (unsigned long long)vals[i], wc);
                env.count(C_OPS, 2);
                env.count(eq ? C_POS : C_NEG);
            }
        }
    };
    test(s, "suffix store");
    std::vector<uint64_t> buf(s.serializedSize() / 8 + 3, 0xfefefefefefefefeull);
    char* p = (char*)(buf.data() + 1);
    char* q = p;
    s.serialize(q);
    FAILIF(q - p != s.serializedSize(), "suffix store: serialize() wrote %d bytes, serializedSize() = %u", (int)(q - p), s.serializedSize());
    FAILIF(buf.back() != 0xfefefefefefefefeull, "suffix store: serialize() wrote past serializedSize()");
    q = p;
    surf::BitvectorSuffix* g = surf::BitvectorSuffix::deSerialize(q);
    s.destroy();
    test(*g, "deserialized suffix store");
    g->destroy();
    delete g;
    env.count(C_CHECKS);
}
static Spaces suffixSpaces(bool t) {
    std::vector<Sfx> all;
    for (auto& s : allSuffixes(true)) if (t || s.type != T_MIXED || (s.h * 5 + s.r) % 6 == 0 || s.h + s.r >= 63) all.push_back(s);
    std::vector<unsigned> counts = t ? seq(1, 130, 3) : std::vector<unsigned>{1, 2, 3, 9, 33, 64, 65, 129};
    auto sp = std::make_shared<std::vector<Sfx> >(all);
    return {space("store", fmt("%zu suffix types and lengths (all lengths 1..64 of each type) x %zu entry counts; entries from short, long, zero-tailed and 0xff-tailed keys", all.size(), counts.size()), all.size() * counts.size(), [sp, counts](uint64_t i) {
        Scenario s;
        const Sfx& x = (*sp)[i % sp->size()];
        s.cfg.type = x.type; s.cfg.h = x.h; s.cfg.r = x.r;
        s.param = counts[i / sp->size()];
        s.keys = {"ab", "abc", "ab\x80zzzzzzz", "abcdefghij", Str("ab\0\0\0\0\0\0\0\0", 10), Str("ab\0\0\0\0\0\0\0\x01", 10), "ab\xff\xff\xff\xff\xff\xff\xff\xff", "a", "abcd", "ab\x01", Str("ab\0", 3)};
        return s;
    })};
}

//------------------------------------------------------------------ C24: the builder
static void checkBuilder(Env& env, const Scenario& sc) {
    env.count(C_STATES);
    Ref ref;
    ref.init(sc.keys, sc.cfg);
    surf::SuRFBuilder b(sc.cfg.dense, sc.cfg.ratio, stype(sc.cfg.type), sc.cfg.h, sc.cfg.r);
    b.build(sc.keys);
    level_t H = b.getTreeHeight();
    // decode the level vectors: breadth-first, every node a run that starts where the louds bit is 1
    struct Item { Str prefix; };
    std::vector<Str> nodes{""};        // prefixes of the nodes of this level, in order
    Strs leaves;                       // kept strings; an end mark is shown as an extra trailing marker
    std::vector<std::vector<size_t> > leafKey(H);   // reference index of the leaves, per level, in order
    for (level_t l = 0; l < H; l++) {
        const auto& labels = b.getLabels()[l];
        std::vector<Str> next;
        int64_t node = -1;
        int last = -1;
        for (position_t i = 0; i < labels.size(); i++) {
            bool start = surf::SuRFBuilder::readBit(b.getLoudsBits()[l], i);
            bool child = surf::SuRFBuilder::readBit(b.getChildIndicatorBits()[l], i);
            if (start) { node++; last = -1; }
            FAILIF(node < 0, "level %u does not start with a node", l);
            FAILIF(node >= (int64_t)nodes.size(), "level %u has more nodes than its parents have children", l);
            bool more = i + 1 < labels.size() && !surf::SuRFBuilder::readBit(b.getLoudsBits()[l], i + 1);
            const Str& p = nodes[node];
            // an end mark is the first label of a node whose prefix is a stored key that others extend
            size_t k = p.empty() ? ref.n() : ref.lower(p);
            bool mark = start && labels[i] == surf::kTerminator && !child && k < ref.n() && ref.keys[k] == p && ref.exact[k];
            if (mark) {
                FAILIF(!more, "an end mark is alone in its node");
                leafKey[l].push_back(k);
                leaves.push_back(p);
            } else {
                FAILIF((int)labels[i] <= last, "labels of a node are not ascending at level %u", l);
                last = labels[i];
                Str q = p + (char)labels[i];
                if (child) next.push_back(q);
                else {
                    size_t k = ref.indexOfPrefix(q);
                    FAILIF(k == ref.n() || ref.exact[k], "the trie keeps %s, which is no key's shortest separating prefix", show(q).c_str());
                    leafKey[l].push_back(k);
                    leaves.push_back(q);
                }
            }
            env.count(C_OPS);
        }
        FAILIF(node + 1 != (int64_t)nodes.size(), "level %u has %lld nodes, its parents have %zu children", l, (long long)node + 1, nodes.size());
        FAILIF(b.getNodeCounts()[l] != nodes.size(), "getNodeCounts()[%u] = %u, the level has %zu", l, b.getNodeCounts()[l], nodes.size());
        FAILIF(b.getSuffixCounts()[l] != leafKey[l].size(), "getSuffixCounts()[%u] = %u, the level has %zu leaves", l, b.getSuffixCounts()[l], leafKey[l].size());
        nodes.swap(next);
    }
    FAILIF(!nodes.empty(), "labels of the last level have children");
    std::sort(leaves.begin(), leaves.end());
    FAILIF(leaves.size() != ref.n(), "the trie has %zu leaves for %zu distinct keys", leaves.size(), ref.n());
    for (size_t i = 0; i < ref.n(); i++) FAILIF(leaves[i] != ref.prefix(i), "leaf %zu is %s, expected %s", i, show(leaves[i]).c_str(), show(ref.prefix(i)).c_str());
    // suffix fields, level by level
    unsigned h = ref.hasHash() ? sc.cfg.h : 0, r = ref.hasReal() ? sc.cfg.r : 0, len = h + r;
    for (level_t l = 0; l < H && len; l++)
        for (size_t i = 0; i < leafKey[l].size(); i++) {
            uint64_t v = 0;
            for (unsigned x = 0; x < len; x++) v = v << 1 | (uint64_t)surf::SuRFBuilder::readBit(b.getSuffixes()[l], i * len + x);
            size_t k = leafKey[l][i];
            uint64_t want = h ? surf::BitvectorSuffix::constructHashSuffix(ref.keys[k], h) : 0;
            if (r) want = r >= 64 ? 0 : want << r;
            if (r && ref.known[k]) want |= ref.bits[k];
            FAILIF(v != want, "suffix of %s is %llx, expected %llx", show(ref.keys[k]).c_str(), (unsigned long long)v, (unsigned long long)want);
            env.count(C_OPS);
        }
    // dense levels repeat the sparse ones
    level_t D = b.getSparseStartLevel();
    FAILIF(!sc.cfg.dense && D != 0, "dense levels although they were declined");
    env.hist(D >= H ? 32 + std::min<unsigned>(D, 15) : std::min<unsigned>(D, 31));
    for (level_t l = 0; l < D; l++) {
        int64_t node = -1;
        std::vector<char> lab(256 * b.getNodeCounts()[l], 0), chi(lab.size(), 0), pre(b.getNodeCounts()[l], 0);
        const auto& labels = b.getLabels()[l];
        for (position_t i = 0; i < labels.size(); i++) {
            bool start = surf::SuRFBuilder::readBit(b.getLoudsBits()[l], i), child = surf::SuRFBuilder::readBit(b.getChildIndicatorBits()[l], i);
            bool more = i + 1 < labels.size() && !surf::SuRFBuilder::readBit(b.getLoudsBits()[l], i + 1);
            if (start) node++;
            if (start && labels[i] == surf::kTerminator && !child && more) { pre[node] = 1; continue; }
            lab[node * 256 + labels[i]] = 1;
            chi[node * 256 + labels[i]] = child;
        }
        for (size_t i = 0; i < lab.size(); i++) {
            FAILIF(surf::SuRFBuilder::readBit(b.getBitmapLabels()[l], i) != (bool)lab[i], "dense label bit %zu of level %u is wrong", i, l);
            FAILIF(surf::SuRFBuilder::readBit(b.getBitmapChildIndicatorBits()[l], i) != (bool)chi[i], "dense child bit %zu of level %u is wrong", i, l);
        }
        for (size_t i = 0; i < pre.size(); i++) FAILIF(surf::SuRFBuilder::readBit(b.getPrefixkeyIndicatorBits()[l], i) != (bool)pre[i], "dense end-mark bit %zu of level %u is wrong", i, l);
        env.count(C_OPS, lab.size());
    }
    env.count(C_POS, ref.n());
}
static Spaces builderSpaces(bool t) {
    Spaces s = filterSpaces(K_LINEAR, t, 2);
    s.push_back(product(subsets("abcd2", "abcd", 2, t ? 8 : 4, "a", 1), cross(kEncAll, kSfxFew)));
    return s;
}

int main(int argc, char** argv) {
    std::vector<Prop> p = {
        {"C21", checkBits, bitSpaces, 60},
        {"C22", checkLabels, labelSpaces, 60},
        {"C23", checkSuffixStore, suffixSpaces, 60},
        {"C24", checkBuilder, builderSpaces, 60},
    };
    return mainFor(argc, argv, p);
}
