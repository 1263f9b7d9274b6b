// Reference model of a succinct range filter, written from the documentation only:
// a sorted list of distinct keys, the shortest prefix that separates each key from its
// neighbours, and the suffix bits kept after that prefix.  No code of /repo is used here
// (the one exception is the hash function, passed in as a value by the caller).
#pragma once
#include <stdint.h>
#include <algorithm>
#include <string>
#include <vector>

namespace mc {

typedef std::string Str;
typedef std::vector<std::string> Strs;

enum { T_NONE = 0, T_HASH = 1, T_REAL = 2, T_MIXED = 3 };

struct Config {
    bool dense = true;
    uint32_t ratio = 16;
    int type = T_NONE;
    uint32_t h = 0, r = 0;
};

inline size_t lcp(const Str& a, const Str& b) {
    size_t n = std::min(a.size(), b.size()), i = 0;
    while (i < n && a[i] == b[i]) i++;
    return i;
}

// First `len` bits of s starting at byte `from`, as a number; bits past the end are 0.
// *avail = how many bits s really has there (capped at len).
inline uint64_t headBits(const Str& s, size_t from, unsigned len, unsigned* avail) {
    uint64_t v = 0;
    unsigned have = 0;
    for (unsigned b = 0; b < len; b++) {
        size_t byte = from + b / 8;
        unsigned bit = 0;
        if (byte < s.size()) {
            bit = ((unsigned char)s[byte] >> (7 - b % 8)) & 1;
            have++;
        }
        v = (v << 1) | bit;
    }
    *avail = have;
    return v;
}

struct Ref {
    Config cfg;
    Strs keys;                   // sorted, distinct
    std::vector<size_t> plen;    // bytes of the key kept by the trie
    std::vector<char> exact;     // the whole key is kept and its end is marked
    std::vector<char> known;     // suffix bits are recorded (enough bytes, and not all zero)
    std::vector<uint64_t> bits;  // the recorded bits

    void init(const Strs& sorted_keys, const Config& c) {
        cfg = c;
        keys = sorted_keys;
        keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
        size_t n = keys.size();
        plen.assign(n, 0); exact.assign(n, 0); known.assign(n, 0); bits.assign(n, 0);
        for (size_t i = 0; i < n; i++) {
            size_t l = 0;
            if (i) l = std::max(l, lcp(keys[i - 1], keys[i]));
            if (i + 1 < n) l = std::max(l, lcp(keys[i], keys[i + 1]));
            if (l < keys[i].size()) plen[i] = l + 1;
            else { plen[i] = keys[i].size(); exact[i] = 1; }
            if (hasReal()) {
                unsigned av = 0;
                size_t from = plen[i] + (exact[i] ? 1 : 0);
                uint64_t v = headBits(keys[i], from, cfg.r, &av);
                if (av == cfg.r && v != 0) { known[i] = 1; bits[i] = v; }
            }
        }
    }
    bool hasReal() const { return cfg.type == T_REAL || cfg.type == T_MIXED; }
    bool hasHash() const { return cfg.type == T_HASH || cfg.type == T_MIXED; }
    size_t n() const { return keys.size(); }
    Str prefix(size_t i) const { return keys[i].substr(0, plen[i]); }

    size_t lower(const Str& q) const { return std::lower_bound(keys.begin(), keys.end(), q) - keys.begin(); }
    size_t upper(const Str& q) const { return std::upper_bound(keys.begin(), keys.end(), q) - keys.begin(); }
    bool contains(const Str& q) const { size_t i = lower(q); return i < n() && keys[i] == q; }

    bool prefixMatch(size_t i, const Str& q) const {
        if (exact[i]) return q == keys[i];
        return q.size() >= plen[i] && q.compare(0, plen[i], keys[i], 0, plen[i]) == 0;
    }
    // Is key i, as far as the filter remembers it, not orderable against q?
    bool ambiguous(size_t i, const Str& q) const {
        if (!prefixMatch(i, q)) return false;
        if (exact[i]) return true;               // q is the key
        if (!hasReal()) return true;
        unsigned av = 0;
        uint64_t v = headBits(q, plen[i], cfg.r, &av);
        if (known[i]) return av == cfg.r && v == bits[i];
        if (cfg.r > 8) return true;              // nothing is known about the key's remaining bytes
        // at most one byte of suffix and nothing recorded: the key ends here or goes on with zero bits
        return v == 0;
    }
    bool surelyLess(size_t i, const Str& q) const { return keys[i] < q && !ambiguous(i, q); }
    bool surelyGreater(size_t i, const Str& q) const { return keys[i] > q && !ambiguous(i, q); }

    // The only key whose kept prefix can match q, or n().
    size_t candidate(const Str& q) const {
        size_t u = upper(q);
        if (u > 0 && prefixMatch(u - 1, q)) return u - 1;
        if (u < n() && prefixMatch(u, q)) return u;
        return n();
    }
    // May a point query answer "present"?  hq/hk: hash bits of q and of the candidate key.
    template <class HashFn>
    bool pointAllowed(const Str& q, HashFn hash) const {
        size_t i = candidate(q);
        if (i == n()) return false;
        if (keys[i] == q) return true;
        if (hasHash() && hash(q) != hash(keys[i])) return false;
        if (hasReal()) {
            unsigned av = 0;
            size_t from = plen[i] + (exact[i] ? 1 : 0);
            uint64_t v = headBits(q, from, cfg.r, &av);
            if (known[i]) return av == cfg.r && v == bits[i];
            if (cfg.type == T_MIXED) return av < cfg.r || v == 0;
            return true;
        }
        return true;
    }
    bool rangeTrue(const Str& l, bool li, const Str& r, bool ri) const {
        size_t a = li ? lower(l) : upper(l);
        if (a == n()) return false;
        return ri ? keys[a] <= r : keys[a] < r;
    }
    bool rangeAllowed(const Str& l, const Str& r) const {
        // a key that is not surely below l and not surely above r; only keys in [l,r] and the
        // two neighbours can qualify.
        size_t a = lower(l), b = upper(r);
        if (a < b) return true;
        if (a > 0 && !surelyLess(a - 1, l) && !surelyGreater(a - 1, r)) return true;
        if (b < n() && !surelyGreater(b, r) && !surelyLess(b, l)) return true;
        return false;
    }
    uint64_t countIn(const Str& l, const Str& r) const {
        size_t a = lower(l), b = upper(r);
        return b > a ? b - a : 0;
    }
    // index of the key whose kept prefix is p, or n()
    size_t indexOfPrefix(const Str& p) const {
        size_t i = lower(p);
        if (i < n() && plen[i] == p.size() && keys[i].compare(0, p.size(), p) == 0) return i;
        return n();
    }
};

}  // namespace mc
