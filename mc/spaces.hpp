// The bounded input spaces that the checks enumerate completely.  A family is an index-addressable
// set of key lists; a space is family x suffix/encoding configurations.
#pragma once
#include "engine.hpp"

namespace mc {

struct Family {
    Str name, describe;
    uint64_t count;
    std::function<Strs(uint64_t)> keys;
    std::shared_ptr<Strs> universe;  // explicit queries (sorted), or null: derived from the keys
    std::function<Strs(uint64_t)> queries;  // or explicit queries per key list
    int effort = 1;
};

typedef std::vector<Config> Configs;

inline void sortUnique(Strs& v) {
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
}

// All strings over the alphabet with minlen <= length <= maxlen, sorted.
inline Strs allStrings(const Str& alphabet, size_t minlen, size_t maxlen) {
    Strs out, cur{""};
    for (size_t l = 0; l <= maxlen; l++) {
        if (l >= minlen) out.insert(out.end(), cur.begin(), cur.end());
        Strs nxt;
        for (auto& s : cur) for (char c : alphabet) nxt.push_back(s + c);
        cur.swap(nxt);
    }
    sortUnique(out);
    return out;
}

inline uint64_t choose(uint64_t n, uint64_t k) {
    uint64_t r = 1;
    for (uint64_t i = 1; i <= k; i++) r = r * (n - k + i) / i;
    return r;
}

// Subsets of a universe of strings: all non-empty ones (maxsize 0), or those of 1..maxsize strings.
// `extra` keys (ballast, see below) are added to every subset.
inline Family subsets(const Str& name, const Str& alphabet, size_t maxlen, unsigned maxsize, const Str& query_alphabet,
                      size_t query_len, const Strs& extra = Strs(), const Strs& extra_queries = Strs()) {
    auto u = std::make_shared<Strs>(allStrings(alphabet, 1, maxlen));
    Family f;
    f.name = name;
    uint64_t n = u->size();
    f.count = 0;
    if (maxsize == 0) f.count = (1ull << n) - 1;
    else for (unsigned k = 1; k <= maxsize; k++) f.count += choose(n, k);
    f.describe = fmt("every %s of the %llu strings of 1..%zu bytes over {%s}; queries: all strings of 0..%zu bytes over {%s}",
                     maxsize ? fmt("subset of 1..%u", maxsize).c_str() : "non-empty subset", (unsigned long long)n, maxlen,
                     hex(alphabet).c_str(), query_len, hex(query_alphabet).c_str());
    if (!extra.empty()) f.describe += fmt("; plus %zu fixed long keys that move the dense/sparse boundary", extra.size());
    f.keys = [u, n, maxsize, extra](uint64_t i) {
        Strs k;
        if (maxsize == 0) {
            uint64_t m = i + 1;
            for (uint64_t b = 0; b < n; b++) if (m >> b & 1) k.push_back((*u)[b]);
        } else {
            unsigned sz = 1;
            while (i >= choose(n, sz)) { i -= choose(n, sz); sz++; }
            uint64_t from = 0;
            for (unsigned left = sz; left > 0; left--) {
                while (true) {
                    uint64_t c = choose(n - from - 1, left - 1);
                    if (i < c) break;
                    i -= c;
                    from++;
                }
                k.push_back((*u)[from++]);
            }
        }
        k.insert(k.end(), extra.begin(), extra.end());
        sortUnique(k);
        return k;
    };
    f.universe = std::make_shared<Strs>(allStrings(query_alphabet, 0, query_len));
    f.universe->insert(f.universe->end(), extra_queries.begin(), extra_queries.end());
    sortUnique(*f.universe);
    f.effort = 2;
    return f;
}

// Two keys that share a long chain: their many one-label levels weigh enough to let more of the
// levels above be densely encoded although the trie has few nodes.
inline Strs chain(char top, size_t depth) {
    Str p = Str(1, top) + Str(depth, 'x');
    return {p + "y", p + "z"};
}
inline Strs chainQueries(char top, size_t depth) {
    Str p = Str(1, top) + Str(depth, 'x');
    Strs q = {Str(1, top), Str(1, top) + "x", Str(1, top) + "w", Str(1, top) + "y", p, p + "x", p + "y", p + "z", p + "yy", p + "zz", p + "{",
              p.substr(0, p.size() / 2), p.substr(0, p.size() / 2) + "a", p.substr(0, p.size() / 2) + "z"};
    return q;
}

// Sub-tries hung below a two-byte group prefix.
inline Strs shape(int s, unsigned salt) {
    Strs v;
    switch (s) {
    case 0: v = {"q"}; break;                                     // one key: collapses to a leaf
    case 1: v = {"", "q"}; break;                                 // a key that is a prefix of another
    case 2: v = {"a", "q"}; break;
    case 3: v = {"a\xff", "a\xff\xff", "\xff"}; break;            // 0xff labels, 0xff as last byte
    case 4: v = {Str("\0", 1), Str("\0\0", 2), "\xff\xff"}; break;
    case 5: for (int i = 0; i < 16; i++) v.push_back(Str(1, (char)(3 + 16 * i))); break;
    case 6: v.push_back(""); for (int i = 0; i < 41; i++) v.push_back(Str(1, (char)(6 * i + (i > 20)))); break;
    case 7: v = {"deep/er/a", "deep/er/b", "deep/er/b/c"}; break;
    case 8: v = {"", Str("\0", 1), "\xff"}; break;
    case 9: for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) v.push_back(Str(1, (char)(100 + i)) + Str(1, (char)(100 + j + (int)(salt % 50)))); break;
    }
    return v;
}
const int kShapes = 10;

inline Str groupPrefix(unsigned g) { return Str(1, (char)(1 + g / 200)) + Str(1, (char)(20 + g % 200)); }

// n groups, group g shaped pattern[g % |pattern|]; walks every counter of the encoding across word,
// select-sample and rank-block boundaries as n grows.
inline Strs groups(unsigned n, const std::vector<int>& pattern) {
    Strs k;
    for (unsigned g = 0; g < n; g++)
        for (auto& s : shape(pattern[g % pattern.size()], g)) k.push_back(groupPrefix(g) + s);
    sortUnique(k);
    return k;
}
inline Family groupFamily(const Str& name, const std::vector<unsigned>& sizes, const std::vector<std::vector<int> >& patterns) {
    Family f;
    f.name = name;
    f.count = sizes.size() * patterns.size();
    f.describe = fmt("%zu group counts (%u..%u) x %zu periodic patterns of sub-trie shapes", sizes.size(), sizes.front(), sizes.back(), patterns.size());
    f.keys = [sizes, patterns](uint64_t i) { return groups(sizes[i % sizes.size()], patterns[i / sizes.size()]); };
    f.effort = 1;
    return f;
}
inline std::vector<unsigned> seq(unsigned a, unsigned b, unsigned step = 1) {
    std::vector<unsigned> v;
    for (unsigned i = a; i <= b; i += step) v.push_back(i);
    return v;
}
inline std::vector<std::vector<int> > patternsUpTo(int len, int shapes) {
    std::vector<std::vector<int> > out, cur{{}};
    for (int l = 1; l <= len; l++) {
        std::vector<std::vector<int> > nxt;
        for (auto& p : cur) for (int s = 0; s < shapes; s++) { auto q = p; q.push_back(s); nxt.push_back(q); }
        out.insert(out.end(), nxt.begin(), nxt.end());
        cur.swap(nxt);
    }
    return out;
}

// Keys with long tails after their kept prefix (a real suffix of any length up to 64 bits is there to be
// stored): n keys with one- to three-byte kept prefixes, tails of 7..9 bytes with high, low and zero bytes.
inline Strs tailKeys(unsigned n, int kind) {
    Strs k;
    for (unsigned i = 0; i < n; i++) {
        Str s = kind == 0 ? Str(1, (char)(i * 251 / n + 2)) : kind == 1 ? Str("k") + (char)(i * 3 % 251) : Str(1, (char)('a' + i % 3)) + (char)(i / 3 % 200) + (char)i;
        for (unsigned b = 0; b < 7 + i % 3; b++) {
            unsigned x = (i + 1) * 2654435761u >> (b * 3 % 24);
            s += (char)(i % 7 == 5 ? 0xff : i % 7 == 6 && b < 4 ? 0 : x);
        }
        k.push_back(s);
    }
    sortUnique(k);
    return k;
}
inline Family tailFamily(const Str& name, const std::vector<unsigned>& sizes) {
    Family f;
    f.name = name;
    f.count = sizes.size() * 3;
    f.describe = fmt("%zu key counts (%u..%u) x 3 shapes of keys with tails of 7..9 bytes after the kept prefix", sizes.size(), sizes.front(), sizes.back());
    f.keys = [sizes](uint64_t i) { return tailKeys(sizes[i / 3], i % 3); };
    f.effort = 0;
    return f;
}

// One node of every fan-out 1..256, labels start, start+stride, ...; at depth 1 or 2; with and without
// the node's own prefix being a key; each child optionally with a child of its own.
struct WideParam { unsigned fan, start, stride, depth; bool prefix; int kids; };
inline Strs wideKeys(const WideParam& p) {
    Strs k;
    Str pre = p.depth ? Str("mmmmmm", p.depth) : Str();
    if (p.prefix && p.depth) k.push_back(pre);
    for (unsigned i = 0; i < p.fan; i++) {
        unsigned l = p.start + i * p.stride;
        if (l > 255) break;
        Str s = pre + Str(1, (char)l);
        if (p.kids == 1 || (p.kids == 2 && i % 2)) { k.push_back(s + "p"); k.push_back(s + "q"); }
        else if (p.kids == 3 && i % 3 == 0) { k.push_back(s); k.push_back(s + "\xff"); }
        else k.push_back(s + "tail");
    }
    if (p.depth) { k.push_back(Str("mmmmmm", p.depth - 1) + "n"); k.push_back("aa"); }
    sortUnique(k);
    return k;
}
inline Family wideFamily(const Str& name, unsigned fan_step) {
    std::vector<WideParam> ps;
    for (unsigned fan = 1; fan <= 256; fan = fan < 24 || fan >= 253 ? fan + 1 : fan >= 240 ? (fan_step < 10 ? fan + 1 : 253) : std::min(fan + fan_step, 240u))
        for (unsigned stride : {1u, 3u, 15u, 16u})
            for (unsigned start : {0u, 1u, 63u, 64u, 128u, 200u, 255u}) {
                if (start + (uint64_t)(fan - 1) * stride > 255) continue;
                unsigned d = (fan + start) % 3;
                ps.push_back({fan, start, stride, d, (fan & 1) != 0, (int)((fan + stride) % 4)});
                ps.push_back({fan, start, stride, 1, (fan & 1) == 0, (int)((fan / 2) % 4)});
            }
    auto sp = std::make_shared<std::vector<WideParam> >(ps);
    Family f;
    f.name = name;
    f.count = ps.size();
    f.describe = fmt("%zu tries around one wide node: fan-outs 1..256, label strides 1/3/15/16, starts 0..255, with/without the node's prefix as a key", ps.size());
    f.keys = [sp](uint64_t i) { return wideKeys((*sp)[i]); };
    f.effort = 0;
    return f;
}

// Keys that agree on a long prefix.
inline Family deepFamily(const Str& name, const std::vector<unsigned>& depths) {
    Family f;
    f.name = name;
    f.count = depths.size() * 4;
    f.describe = fmt("%zu common-prefix lengths (%u..%u bytes) x 4 branch shapes", depths.size(), depths.front(), depths.back());
    f.keys = [depths](uint64_t i) {
        unsigned d = depths[i / 4];
        Str p;
        for (unsigned j = 0; j < d; j++) p += (char)(97 + (j * 7 + j / 5) % 26);
        Strs k;
        switch (i % 4) {
        case 0: k = {p + "a", p + "b"}; break;
        case 1: k = {p + "a", p + "ab", p + "ab\xff", p + "b"}; if (d) k.push_back(p); break;
        case 2:
            k = {p + "a", p + "b", "zz"};
            for (unsigned j = 1; j < d; j += (d > 40 ? d / 16 : 3)) k.push_back(p.substr(0, j));
            break;
        default:
            k = {p + "a", p + "b", Str("\0", 1)};
            for (unsigned j = 1; j <= d; j += (d > 40 ? d / 16 : 2)) k.push_back(p.substr(0, j - 1) + "\xff");
        }
        sortUnique(k);
        return k;
    };
    f.effort = 0;
    return f;
}

// Query and prefix key lengths that differ by the number the code uses for "could be positive", and
// by other special numbers (powers of two, multiples of 256).
inline Family lengthGapFamily(const Str& name, const std::vector<unsigned>& gaps) {
    Family f;
    f.name = name;
    f.count = gaps.size() * 6;
    f.describe = fmt("%zu length differences (%u..%u bytes) between a stored key and the query, x 6 shapes of the keys around it", gaps.size(), gaps.front(), gaps.back());
    auto shapes = [](uint64_t i, unsigned g, Strs* q) {
        Strs k;
        Str tail(g, 'a'), z(g, '\0');
        Str p = i % 2 ? Str("bcd") : Str("b");
        switch (i % 6) {
        case 0: case 1: k = {p, p + "z"}; break;
        case 2: case 3: k = {p, p + Str(1, '\0'), p + "c", p + "cc"}; break;
        case 4: k = {p, p + "z" + tail, "c"}; break;
        default: k = {p + "x", p + "y" + tail, p + "y" + tail + "q"}; break;
        }
        if (q) {
            *q = {p, p + tail, p + "z" + tail, p + z, p + Str(g, '\xff'), p + tail + "a", p + tail.substr(1), p + "c" + tail, p + "cc" + tail, p + "x" + tail, p + "y" + tail, p + "y" + tail + "r", "b" + tail, "b", "c"};
            sortUnique(*q);
        }
        sortUnique(k);
        return k;
    };
    f.keys = [gaps, shapes](uint64_t i) { return shapes(i, gaps[i / 6], 0); };
    f.queries = [gaps, shapes](uint64_t i) { Strs q; shapes(i, gaps[i / 6], &q); return q; };
    f.effort = 2;
    return f;
}

inline Str u64key(uint64_t v) {
    Str s(8, '\0');
    for (int i = 0; i < 8; i++) s[i] = (char)(v >> (56 - 8 * i));
    return s;
}
inline Family intFamily(const Str& name) {
    struct P { uint64_t start, step; unsigned n; };
    std::vector<P> ps;
    for (unsigned n : {1u, 2u, 3u, 17u, 64u, 65u, 200u, 257u})
        for (int sh = 0; sh < 64; sh += 5)
            for (uint64_t mul : {1ull, 3ull, 255ull})
                ps.push_back({(uint64_t)sh * 0x0101010101010101ull >> 8, mul << sh, n});
    Family f;
    f.name = name;
    f.count = ps.size();
    f.describe = fmt("%zu arithmetic progressions of 64-bit integers (1..257 keys, steps 2^0..2^62)", ps.size());
    auto sp = std::make_shared<std::vector<P> >(ps);
    f.keys = [sp](uint64_t i) {
        Strs k;
        const P& p = (*sp)[i];
        for (unsigned j = 0; j < p.n; j++) k.push_back(u64key(p.start + j * p.step));
        sortUnique(k);
        return k;
    };
    f.effort = 0;
    return f;
}

// Tries of several ten thousand nodes: the encoding that the default parameters pick there has more
// than one dense level, and every sampled structure has many samples.
// n groups that share nothing after the first two bytes: every middle level has exactly n nodes of one
// label, the last one n nodes of two labels (node counts around powers of two, little fan-out).
inline Family combFamily(const Str& name, const std::vector<unsigned>& ns) {
    Family f;
    f.name = name;
    f.count = ns.size() * 3;
    f.describe = fmt("combs: %zu group counts from %u to %u x chains of 1, 4 and 9 bytes, two keys per group", ns.size(), ns.front(), ns.back());
    auto v = std::make_shared<std::vector<unsigned> >(ns);
    f.keys = [v](uint64_t i) {
        Strs k;
        unsigned n = (*v)[i / 3], chain = i % 3 == 0 ? 1 : i % 3 == 1 ? 4 : 9;
        for (unsigned g = 0; g < n; g++) {
            Str p = Str(1, (char)(g / 16)) + Str(1, (char)(g % 16 * 7)) + Str(chain, (char)('k' + g % 5));
            k.push_back(p + "a");
            k.push_back(p + (g % 2 ? "bb" : "\xff"));
        }
        sortUnique(k);
        return k;
    };
    f.effort = 0;
    return f;
}

// A few hundred keys, queried for all of them and for as many absent ones of the same lengths: misses in
// every byte position, so that anything kept per key length, hash or prefix between two queries collides.
inline Family mixedFamily(const Str& name, const std::vector<unsigned>& sizes) {
    Family f;
    f.name = name;
    f.count = sizes.size() * 3;
    f.describe = "sets of {";
    for (unsigned n : sizes) f.describe += fmt("%u,", n);
    f.describe += "} keys (decimal, 8-byte binary, words of 1..6 letters); queries: each key and absent keys of the same lengths";
    auto sz = std::make_shared<std::vector<unsigned> >(sizes);
    auto make = [](uint64_t kind, unsigned n, bool absent) {
        Strs k;
        for (unsigned i = 0; i < n; i++) {
            Str s;
            if (kind == 0) s = fmt("%04ukey", i);
            else if (kind == 1) s = u64key((uint64_t)i * 0x0003000500070001ull);
            else { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull; for (unsigned l = 0; l <= i % 6; l++) { s += (char)('a' + (x >> 33) % 7); x *= 0xD1342543DE82EF95ull; } }
            if (absent) {
                size_t at = i % s.size();
                if (kind == 0 && i % 3 == 0) s[0] = 'z';
                else s[at] = (char)(s[at] + 11);
            }
            k.push_back(s);
        }
        return k;
    };
    f.keys = [=](uint64_t i) { Strs k = make(i % 3, (*sz)[i / 3], false); sortUnique(k); return k; };
    f.queries = [=](uint64_t i) {
        Strs k = make(i % 3, (*sz)[i / 3], false), a = make(i % 3, (*sz)[i / 3], true);
        k.insert(k.end(), a.begin(), a.end());
        sortUnique(k);
        return k;
    };
    f.effort = 2;
    return f;
}

// Lengths and positions that need more than 16 and more than 24 bits.
// 0: a few keys that part ways at bytes 300, 65535, 65536, 66000; 1: the same with keys inside each other;
// 2: pairs of keys with 66000 common bytes each, together more than 2^24 trie positions.
inline Family giantFamily(const Str& name, unsigned which_max, unsigned every = 1) {
    Family f;
    f.name = name;
    f.count = which_max;
    f.describe = fmt("%u of: keys parting at bytes 300, 65535, 65536 and 66000; the same with keys inside each other; 260 pairs with 66000 common bytes (more than 2^24 trie positions)", which_max);
    auto path = [](Str head, unsigned d) {
        Str p = head;
        while (p.size() < d) p += (char)(97 + (p.size() * 7 + p.size() / 5) % 26);
        return p;
    };
    auto head = [](unsigned i) { return Str(1, (char)(i / 16 * 3 + 1)) + Str(1, (char)(i % 16 * 16 + i % 5)); };
    f.keys = [path, head](uint64_t i) {
        Strs k;
        Str p = path("", 66000);
        switch (i) {
        case 0: for (unsigned d : {300u, 65535u, 65536u, 66000u}) { k.push_back(p.substr(0, d) + "\x01tail"); k.push_back(p.substr(0, d) + "~tail"); } break;
        case 1: for (unsigned d : {255u, 65534u, 65535u, 65536u, 65537u, 66000u}) k.push_back(p.substr(0, d)); k.push_back(p.substr(0, 65536) + "~"); break;
        default: for (unsigned g = 0; g < 260; g++) { Str q = path(head(g), 66000); k.push_back(q + (g % 3 ? "a" : "")); k.push_back(q + (g % 2 ? "bb" : "b\xff")); }
        }
        sortUnique(k);
        return k;
    };
    f.queries = [path, head, every](uint64_t i) {
        Strs q;
        Str p = path("", 66000);
        if (i < 2) {
            for (unsigned d : {0u, 1u, 255u, 256u, 300u, 464u, 465u, 65534u, 65535u, 65536u, 65537u, 66000u}) {
                Str s = p.substr(0, d);
                for (const char* e : {"", "\x01", "\x01tail", "\x01ta\xff", "~", "~tail", "\x02", "\x7f"}) q.push_back(s + e);
            }
            q.push_back(p + Str(70000, 'z'));
        } else {
            for (unsigned g = 0; g < 260; g += 37)
                for (const char* e : {"", "a", "aa", "b", "bb", "bc", "b\xff", "c"}) q.push_back(path(head(g), 66000) + e);
            for (unsigned g : {0u, 100u, 259u}) for (unsigned d : {1u, 464u, 65535u, 65536u}) { q.push_back(path(head(g), d)); q.push_back(path(head(g), d) + "\xff"); }
        }
        sortUnique(q);
        Strs some;
        for (size_t j = every / 2; j < q.size(); j += every) some.push_back(q[j]);
        return some;
    };
    f.effort = 0;
    return f;
}

inline Family bigFamily(const Str& name, unsigned which_max) {
    Family f;
    f.name = name;
    f.count = which_max;
    f.describe = fmt("%u large key sets (all 3-letter strings over 32 symbols; 4-letter strings over 12; two-level fan-outs 256x64; word-like keys; all strings of up to 17 letters over 2, those of 17 with a tail; up to 100000, 700000 and 4000000 integers; 2000000 scattered keys of 3..8 bytes)", which_max);
    f.keys = [](uint64_t i) {
        Strs k;
        switch (i) {
        case 0: { Str a; for (int c = 0; c < 32; c++) a += (char)(c * 8 + 1); k = allStrings(a, 3, 3); break; }
        case 1: k = allStrings("abcdefghijkl", 4, 4); break;
        case 2: for (int x = 0; x < 256; x++) for (int y = 0; y < 256; y += 4) k.push_back(Str(1, (char)x) + Str(1, (char)y) + "tail" + Str(1, (char)(x ^ y))); break;
        case 3: {
            uint64_t s = 12345;
            for (int n = 0; n < 30000; n++) {
                Str w;
                for (int l = 0; l < 12; l++) { s = s * 6364136223846793005ull + 1442695040888963407ull; unsigned r = (s >> 40) % 31; if (r >= 26 && l > 0) break; w += (char)('a' + r % 26); }
                k.push_back(w);
            }
            break;
        }
        case 5: for (uint64_t v = 0; v < 100000; v++) k.push_back(u64key(v * 37)); break;
        case 4: {   // more than 65536 keys that are prefixes of others, more than 131072 nodes and suffixes
            k = allStrings("ab", 1, 17);
            for (size_t j = 0; j < k.size(); j++) if (k[j].size() == 17) k[j] += (char)(j * 37 % 251 + 1);
            break;
        }
        case 6: { Str a; for (int c = 0; c < 48; c++) a += (char)(c * 5 + 3); k = allStrings(a, 1, 3); break; }
        case 7: for (uint64_t v = 0; v < 700000; v++) k.push_back(u64key(v * 10)); break;
        case 8: for (uint64_t v = 0; v < 4000000; v++) k.push_back(u64key(v * v)); break;
        default: for (uint64_t v = 1; v <= 2000000; v++) { Str s = u64key(v * 0x9E3779B97F4A7C15ull); k.push_back(v % 3 ? s : s.substr(0, 3 + v % 5)); } break;
        }
        sortUnique(k);
        return k;
    };
    f.effort = 0;
    return f;
}

// Pairs of different strings with the same hash. kind 0: equal under the library's own suffix hash (for
// two 8-byte strings, the last word is solved from the state after the first); kind 1: equal under
// std::hash<std::string> (murmur64A, 16-byte strings). The two share their first n bytes, differ in the next.
inline std::pair<Str, Str> hashTwins(int kind, unsigned shared, unsigned variant) {
    if (kind == 0) {
        auto word = [](const char* p) { uint32_t w; memcpy(&w, p, 4); return w; };
        auto state = [&](const Str& a) { uint32_t h = 0xbc9f1d34u ^ (8 * 0xc6a4a793u); h += word(a.data()); h *= 0xc6a4a793u; return h ^ (h >> 16); };
        Str a = "keyskeys", b = a;
        b[shared] = (char)(a[shared] + (variant & 1 ? 1 : -1));
        if (variant & 2) a[7] = (char)0xfe, a[4] = 1;
        uint32_t w = state(a) + word(a.data() + 4) - state(b);
        memcpy(&b[4], &w, 4);
        return {a, b};
    }
    const uint64_t mul = (((uint64_t)0xc6a4a793u) << 32) + 0x5bd1e995u;
    uint64_t inv = 1;
    for (int i = 0; i < 6; i++) inv *= 2 - mul * inv;
    auto word = [](const char* p) { uint64_t w; memcpy(&w, p, 8); return w; };
    auto mix = [&](uint64_t w) { w *= mul; w ^= w >> 47; return w * mul; };
    auto unmix = [&](uint64_t w) { w *= inv; w ^= w >> 47; return w * inv; };
    auto state = [&](const Str& a) { return (0xc70f6907u ^ (16 * mul) ^ mix(word(a.data()))) * mul; };
    Str a = "keyskeyskeyskeys", b = a;
    b[shared] = (char)(a[shared] + (variant & 1 ? 1 : -1));
    if (variant & 2) a[15] = (char)0xfe, a[8] = 1;
    uint64_t w = unmix(state(a) ^ mix(word(a.data() + 8)) ^ state(b));
    memcpy(&b[8], &w, 8);
    if (std::hash<std::string>()(std::string(a.data(), a.size())) != std::hash<std::string>()(std::string(b.data(), b.size()))) return hashTwins(0, shared & 3, variant);
    return {a, b};
}

inline Family twinFamily(const char* name) {
    Family f;
    f.name = name;
    f.count = (4 + 8) * 4 * 7;
    f.describe = "pairs of different strings with the same hash (library hash, 8 bytes, 0..3 shared; std::hash, 16 bytes, 0..7 shared; 4 variants), stored singly, both, and with near neighbours of either; both queried";
    auto twins = [](uint64_t i) {
        unsigned v = i % 4, s = i / 4;
        return s < 4 ? hashTwins(0, s, v) : hashTwins(1, s - 4, v);
    };
    f.keys = [twins](uint64_t i) {
        auto t = twins(i / 7);
        Str na = t.first, nb = t.second;
        na.back() = (char)(na.back() ^ 1);
        nb.back() = (char)(nb.back() ^ 1);
        Strs k;
        switch (i % 7) {
        case 0: k = {t.first}; break;
        case 1: k = {t.second}; break;
        case 2: k = {t.first, t.second}; break;
        case 3: k = {t.first, na}; break;
        case 4: k = {t.second, nb}; break;
        case 5: k = {t.first, na, t.second, nb}; break;
        default: k = {t.first + "a", t.second, t.second + "a"}; break;
        }
        sortUnique(k);
        return k;
    };
    f.queries = [twins](uint64_t i) {
        auto t = twins(i / 7);
        Strs q{t.first, t.second};
        for (const Str& x : {t.first, t.second}) {
            for (size_t l = 0; l < x.size(); l += 1 + (l > 4)) q.push_back(x.substr(0, l));
            for (int d : {-1, 1}) q.push_back(x.substr(0, x.size() - 1) + (char)(x.back() + d));
            q.push_back(x + "a");
        }
        sortUnique(q);
        return q;
    };
    f.effort = 1;
    return f;
}

inline Config cf(bool dense, uint32_t ratio, int type, uint32_t h, uint32_t r) {
    Config c; c.dense = dense; c.ratio = ratio; c.type = type; c.h = h; c.r = r;
    return c;
}
struct Sfx { int type; uint32_t h, r; };
struct Enc { bool dense; uint32_t ratio; };
inline Configs cross(const std::vector<Enc>& e, const std::vector<Sfx>& s) {
    Configs out;
    for (auto& x : e) for (auto& y : s) out.push_back(cf(x.dense, x.ratio, y.type, y.h, y.r));
    return out;
}
const std::vector<Enc> kEncAll = {{true, 16}, {true, 0}, {false, 16}};
const std::vector<Enc> kEncTwo = {{true, 16}, {false, 16}};
const std::vector<Enc> kEncDefault = {{true, 16}};
const std::vector<Enc> kEncChain = {{true, 1}};
const std::vector<Sfx> kSfxNone = {{T_NONE, 0, 0}};
const std::vector<Sfx> kSfxFew = {{T_NONE, 0, 0}, {T_HASH, 8, 0}, {T_REAL, 0, 8}, {T_MIXED, 4, 4}};
const std::vector<Sfx> kSfxMore = {{T_NONE, 0, 0}, {T_HASH, 1, 0}, {T_HASH, 7, 0}, {T_HASH, 25, 0}, {T_REAL, 0, 1}, {T_REAL, 0, 4}, {T_REAL, 0, 8}, {T_REAL, 0, 9}, {T_REAL, 0, 16}, {T_REAL, 0, 24}, {T_MIXED, 4, 4}, {T_MIXED, 3, 13}};
const std::vector<Sfx> kSfxReal = {{T_NONE, 0, 0}, {T_REAL, 0, 1}, {T_REAL, 0, 3}, {T_REAL, 0, 8}, {T_REAL, 0, 9}, {T_REAL, 0, 16}, {T_MIXED, 4, 8}, {T_MIXED, 5, 11}, {T_HASH, 8, 0}};
const std::vector<Sfx> kSfxWide = {{T_HASH, 32, 0}, {T_HASH, 57, 0}, {T_HASH, 58, 0}, {T_HASH, 63, 0}, {T_HASH, 64, 0}, {T_REAL, 0, 32}, {T_REAL, 0, 57}, {T_REAL, 0, 63}, {T_REAL, 0, 64}, {T_MIXED, 32, 32}, {T_MIXED, 1, 63}, {T_MIXED, 63, 1}, {T_MIXED, 8, 56}};
// every suffix length
inline std::vector<Sfx> allSuffixes(bool mixed_all) {
    std::vector<Sfx> v;
    for (uint32_t l = 1; l <= 64; l++) { v.push_back({T_HASH, l, 0}); v.push_back({T_REAL, 0, l}); }
    for (uint32_t h = 1; h < 64; h++)
        for (uint32_t r = 1; h + r <= 64; r++)
            if (mixed_all || h + r == 64 || h == r || (h * 7 + r) % 11 == 0) v.push_back({T_MIXED, h, r});
    return v;
}

inline Space product(const Family& f, const Configs& cfgs, int effort = -1) {
    Space s;
    s.name = f.name;
    s.count = f.count * cfgs.size();
    s.describe = f.describe + fmt("; x %zu encoding/suffix configurations", cfgs.size());
    auto fam = std::make_shared<Family>(f);
    auto cs = std::make_shared<Configs>(cfgs);
    if (effort >= 0) fam->effort = effort;
    s.get = [fam, cs](uint64_t i) {
        Scenario sc;
        sc.cfg = (*cs)[i % cs->size()];
        sc.keys = fam->keys(i / cs->size());
        sc.effort = fam->effort;
        if (fam->universe) sc.queries = *fam->universe;
        if (fam->queries) sc.queries = fam->queries(i / cs->size());
        return sc;
    };
    return s;
}

enum SpaceKind { K_LINEAR, K_PAIRS };

// The standard set of spaces for checks on a whole filter.
inline std::vector<Space> filterSpaces(SpaceKind kind, bool thorough, unsigned giants = 3) {
    std::vector<Space> all;
    bool pairs = kind == K_PAIRS;
    Configs few = cross(kEncAll, kSfxFew), many = cross(kEncAll, kSfxReal);
    const std::vector<Sfx> two = {{T_NONE, 0, 0}, {T_REAL, 0, 8}};
    struct A { const char* name; Str keys, queries; };
    const A alpha[] = {{"ab2", "ab", "`abc"},
                       {"0f2", Str("\0\xff", 2), Str("\0\1\xfe\xff", 4)},
                       {"af2", "a\xff", "ab\xfe\xff"},
                       {"0a2", Str("\0a", 2), Str("\0\1ab", 4)},
                       {"782", "\x7f\x80", "\x7e\x7f\x80\x81"}};
    for (auto& a : alpha) all.push_back(product(subsets(a.name, a.keys, 2, 0, a.queries, 3), many));
    all.push_back(product(subsets("abc2", "abc", 2, thorough ? 0 : pairs ? 4 : 6, "`abcd", 2), pairs && !thorough ? cross(kEncAll, two) : few));
    all.push_back(product(subsets("0af2", Str("\0a\xff", 3), 2, thorough ? 0 : 4, Str("\0ab\xff", 4), 2), few));
    all.push_back(product(subsets("ab3", "ab", 3, pairs && !thorough ? 5 : 0, "abc", 3), pairs && !thorough ? cross(kEncAll, two) : few));
    if (thorough) {
        all.push_back(product(subsets("ab4", "ab", 4, 4, "abc", pairs ? 4 : 5), few));
        all.push_back(product(subsets("af3", "a\xff", 3, 0, "ab\xff", 3), cross(kEncAll, kSfxReal)));
        all.push_back(product(subsets("0f3", Str("\0\xff", 2), 3, 0, Str("\0\1\xff", 3), 3), cross(kEncAll, kSfxReal)));
    }
    // small tries below a long chain: the dense/sparse boundary cuts through them
    for (unsigned d : thorough ? std::vector<unsigned>{30, 60, 90, 130, 180, 260, 400, 700} : std::vector<unsigned>{60, 130, 260})
        all.push_back(product(subsets(fmt("ab3c%u", d), "ab", 3, thorough ? 4 : pairs ? 2 : 3, "abc", 3, chain('p', d), chainQueries('p', d)),
                              cross({{true, 1}}, thorough ? kSfxMore : kSfxFew)));
    for (unsigned d : thorough ? std::vector<unsigned>{60, 130, 260} : std::vector<unsigned>{130})
        all.push_back(product(subsets(fmt("af2c%u", d), "a\xff", 2, 0, "ab\xff", 3, chain('p', d), chainQueries('p', d)), cross({{true, 1}, {true, 2}}, pairs ? two : kSfxFew)));
    // periodic patterns: counters cross word, sample and block boundaries
    std::vector<unsigned> sizes = thorough ? seq(1, 260, pairs ? 7 : 3) : pairs ? std::vector<unsigned>{67} : std::vector<unsigned>{1, 9, 17, 33, 65, 129};
    all.push_back(product(groupFamily("groups", sizes, patternsUpTo(2, kShapes)), pairs && !thorough ? cross(kEncAll, two) : few, pairs ? 0 : 1));
    if (thorough) all.push_back(product(groupFamily("groups3", pairs ? std::vector<unsigned>{30} : std::vector<unsigned>{12, 50, 99}, patternsUpTo(3, kShapes)), few, 0));
    all.push_back(product(wideFamily("wide", thorough ? 3 : pairs ? 47 : 12), pairs && !thorough ? cross(kEncAll, two) : few));
    all.push_back(product(deepFamily("deep", seq(0, thorough ? 200 : 70)), pairs && !thorough ? cross(kEncAll, two) : few));
    all.push_back(product(deepFamily("deeper", thorough ? std::vector<unsigned>{255, 256, 257, 1000, 4095, 20000, 66000} : std::vector<unsigned>{255, 256, 257, 1000, 3000}),
                          cross(kEncAll, two)));
    // queries far longer than any key, their lengths congruent to short ones modulo 256 and 65536
    {
        Strs lq;
        for (auto& b : allStrings("ab", 0, 2))
            for (char fill : {'a', '`', 'c'})
                for (size_t l : {256, 65536}) lq.push_back(b + Str(l, fill));
        Family f = subsets("longq", "ab", 2, thorough ? 0 : pairs ? 1 : 2, "`abc", 1, Strs(), lq);
        f.describe += "; every string of 0..2 bytes over {6162} extended by 256 or 65536 equal bytes";
        all.push_back(product(f, cross(kEncAll, {{T_NONE, 0, 0}, {T_REAL, 0, 8}, {T_HASH, 8, 0}})));
    }
    // different strings with equal hashes: a shortcut that takes equal hashes for equal keys
    all.push_back(product(twinFamily("twins"), cross(pairs && !thorough ? kEncTwo : kEncAll, {{T_NONE, 0, 0}, {T_HASH, 8, 0}, {T_HASH, 32, 0}, {T_REAL, 0, 8}})));
    all.push_back(product(giantFamily("giant", giants), thorough ? cross(kEncTwo, kSfxFew) : cross(kEncTwo, two)));
    all.push_back(product(lengthGapFamily("gaps", thorough ? std::vector<unsigned>{1, 127, 128, 255, 256, 257, 2016, 2017, 2018, 2019, 2020, 32767, 32768, 65535, 65536} : std::vector<unsigned>{1, 128, 255, 256, 2017, 2018, 2019}),
                          cross(kEncAll, {{T_NONE, 0, 0}, {T_HASH, 8, 0}, {T_REAL, 0, 8}, {T_REAL, 0, 16}})));
    all.push_back(product(intFamily("ints"), pairs && !thorough ? cross(kEncAll, two) : few));
    all.push_back(product(bigFamily("big", thorough ? 10 : 8), pairs && !thorough ? cross({{true, 16}, {true, 0}}, two) : cross(kEncAll, thorough ? kSfxFew : two)));
    // suffix lengths
    Family s1 = groupFamily("lens", thorough ? std::vector<unsigned>{7, 70} : std::vector<unsigned>{9}, {{2}, {7}, {9, 1}, {0, 6}});
    all.push_back(product(s1, cross(pairs ? kEncDefault : kEncAll, allSuffixes(thorough && !pairs)), 0));
    all.push_back(product(tailFamily("tails", thorough ? std::vector<unsigned>{3, 9, 20, 70, 200} : std::vector<unsigned>{9, 20}), cross(pairs && !thorough ? std::vector<Enc>{{true, 16}} : std::vector<Enc>{{true, 16}, {false, 16}}, allSuffixes(thorough && !pairs)), 0));
    all.push_back(product(subsets("lensab", "ab", 2, thorough ? 0 : 2, "abc", 3), cross(kEncAll, kSfxWide)));
    return all;
}

// Queries around the stored keys: each key, its extensions, truncations, neighbours in every byte
// position that the trie keeps, the kept prefix itself and mutations just after it.
inline Strs deriveQueries(const Ref& ref, int richness) {
    Strs q{"", Str(1, '\0'), "\xff", "\xff\xff", "\x7f", "\x80"};
    size_t n = ref.n();
    size_t step = 1;
    if (n > 4000 && richness < 2) step = n / 2000;
    std::vector<size_t> idx;
    for (size_t i = 0; i < n; i += step) idx.push_back(i);
    if (idx.back() != n - 1) idx.push_back(n - 1);
    for (size_t i : idx) {
        const Str& k = ref.keys[i];
        size_t p = ref.plen[i];
        q.push_back(k);
        q.push_back(k + Str(1, '\0'));
        q.push_back(k + "\xff");
        q.push_back(k + "a");
        q.push_back(k.substr(0, p));
        auto bump = [&](size_t at) {
            if (at >= k.size()) return;
            unsigned char c = k[at];
            Str s = k.substr(0, at);
            if (c > 0) q.push_back(s + (char)(c - 1));
            if (c < 255) q.push_back(s + (char)(c + 1));
            if (richness > 0) {
                if (c > 0) q.push_back(s + (char)(c - 1) + k.substr(at + 1));
                if (c < 255) q.push_back(s + (char)(c + 1) + k.substr(at + 1));
                q.push_back(s);
            }
        };
        bump(k.size() - 1);
        bump(p - 1);
        bump(p);
        if (richness > 0) {
            bump(p + 1);
            if (p > 1) bump(p - 2);
            bump(0);
            q.push_back(k.substr(0, p) + Str(1, '\0'));
            q.push_back(k.substr(0, p) + "\xff");
            q.push_back(k.substr(0, p) + "\x80");
            q.push_back(k.substr(0, p) + Str(9, '\0'));
            q.push_back(k.substr(0, p) + Str(9, '\xff'));
            q.push_back(k.substr(0, p) + Str(4, '\0') + "\x01");
        }
        if (k.size() > 40) {
            for (size_t at : {k.size() / 2, k.size() / 3, k.size() - 8}) bump(at);
        }
    }
    sortUnique(q);
    return q;
}

template <class F> void forPairs(size_t n, int effort, F f) {
    for (size_t i = 0; i < n; i++) {
        size_t w = effort >= 2 ? n : effort == 1 ? 14 : 4;
        for (size_t j = i; j < n && j < i + w; j++) f(i, j);
        if (effort < 2) {
            for (size_t d = 32; i + d < n; d *= 4) f(i, i + d);
            if (n - 1 >= i + w) f(i, n - 1);
        }
    }
}

}  // namespace mc
