// Model checks of what surrounds the filter: integer keys (C19), the benchmark's Bloom filter, filter
// interface and helpers (C25-C27) and the benchmark programs themselves (C28).
#include <string>
#include <iostream>
#include <sys/stat.h>
#include "bench.hpp"
#include "filter_factory.hpp"
#include "parts.hpp"

//------------------------------------------------------------------ C19: integer keys
static const uint64_t kByteSet[] = {0x00, 0x01, 0x7f, 0x80, 0xff};
static uint64_t valueAt(uint64_t i, int base) {
    uint64_t v = 0;
    for (int b = 0; b < 8; b++) { v = v << 8 | kByteSet[base == 5 ? i % 5 : (i % 3 == 0 ? 0 : i % 3 == 1 ? 3 : 4)]; i /= base; }
    return v;
}
static void checkInts(Env& env, const Scenario& sc) {
    env.count(C_STATES);
    uint64_t from = sc.param;
    auto one = [&](uint64_t v) {
        Str a = surf::uint64ToString(v), b = bench::uint64ToString(v);
        FAILIF(a.size() != 8 || b.size() != 8, "the encoding of %llu has %zu/%zu bytes", (unsigned long long)v, a.size(), b.size());
        FAILIF(a != u64key(v), "surf::uint64ToString(%llu) = %s, not big-endian", (unsigned long long)v, hex(a).c_str());
        FAILIF(b != u64key(v), "bench::uint64ToString(%llu) = %s, not big-endian", (unsigned long long)v, hex(b).c_str());
        FAILIF(surf::stringToUint64(a) != v, "surf::stringToUint64 does not invert %llu", (unsigned long long)v);
        FAILIF(bench::stringToUint64(b) != v, "bench::stringToUint64 does not invert %llu", (unsigned long long)v);
        env.count(C_OPS, 4);
        return a;
    };
    // 5^8 values in blocks: round trip, and order against the successor and a power-of-two neighbour
    for (uint64_t i = from; i < from + 625; i++) {
        uint64_t v = valueAt(i, 5);
        Str a = one(v);
        for (uint64_t w : {v + 1, v - 1, v ^ ((uint64_t)1 << (i % 64)), v ^ ((uint64_t)1 << (i * 7 % 64)), v + 256, ~v}) {
            Str b = one(w);
            int c = a.compare(b);
            FAILIF((v < w) != (c < 0) || (v > w) != (c > 0), "encoded order of %llu and %llu differs from their numeric order", (unsigned long long)v, (unsigned long long)w);
            env.count(C_CHECKS);
        }
    }
    // one value against all 3^8 values over {00,80,ff}
    uint64_t v = valueAt(from, 5);
    Str a = surf::uint64ToString(v);
    for (uint64_t j = 0; j < 6561; j++) {
        uint64_t w = valueAt(j, 3);
        int c = a.compare(surf::uint64ToString(w));
        FAILIF((v < w) != (c < 0) || (v > w) != (c > 0), "encoded order of %llu and %llu differs from their numeric order", (unsigned long long)v, (unsigned long long)w);
        env.count(C_OPS);
    }
}
static Spaces intSpaces(bool) {
    return {space("u64", "all 5^8 64-bit integers over the bytes {00,01,7f,80,ff}, each with its neighbours; 625 of them against all 3^8 over {00,80,ff}", 625, [](uint64_t i) {
        Scenario s;
        s.param = (int)(i * 625);
        return s;
    })};
}
//------------------------------------------------------------------ C25: Bloom filter
// Scenario: keys; cfg.h = bits per key; param: 0 strings, 1 integers
static void checkBloom(Env& env, const Scenario& sc) {
    env.count(C_STATES);
    BloomFilter f(sc.cfg.h);
    Str data;
    size_t n = sc.keys.size();
    std::vector<uint64_t> ints;
    if (sc.param == 1) {
        for (auto& k : sc.keys) ints.push_back(bench::stringToUint64(k));
        f.CreateFilter(ints, n, &data);
    } else f.CreateFilter(sc.keys, n, &data);
    size_t want = std::max<size_t>(64, n * sc.cfg.h);
    FAILIF(data.size() != (want + 7) / 8 + 1, "a filter over %zu keys with %u bits each takes %zu bytes", n, sc.cfg.h, data.size());
    for (size_t i = 0; i < n; i++) {
        bool r = sc.param == 1 ? f.KeyMayMatch(ints[i], data) : f.KeyMayMatch(sc.keys[i], data);
        FAILIF(!r, "KeyMayMatch(%s) = false for an inserted key (%s interface)", show(sc.keys[i]).c_str(), sc.param ? "integer" : "string");
        env.count(C_OPS);
    }
    // a filter appended behind other bytes is the same filter
    Str two = "0123456";
    if (sc.param == 1) f.CreateFilter(ints, n, &two);
    else f.CreateFilter(sc.keys, n, &two);
    FAILIF(two != "0123456" + data, "CreateFilter does not append the same filter");
    // false positives stay near what the bits per key promise
    uint64_t fp = 0, q = 20000;
    for (uint64_t i = 0; i < q; i++) {
        if (sc.param == 1) fp += f.KeyMayMatch(0x9e3779b97f4a7c15ull * (i + 1) | 1ull << 63, data);
        else fp += f.KeyMayMatch("absent-" + u64key(i * 7919), data);
    }
    env.count(C_OPS, q);
    env.count(C_FP, fp);
    env.count(C_NEG, q - fp);
    // every part of a key counts: changing one bit (integers) or one byte (strings) makes it another key
    if (sc.cfg.h >= 8 && n >= 60 && n <= 1000) {
        size_t places = sc.param == 1 ? 64 : 0;
        if (sc.param != 1) { places = 1000; for (auto& k : sc.keys) places = std::min(places, k.size()); }
        std::set<uint64_t> in(ints.begin(), ints.end());
        std::set<Str> ins(sc.keys.begin(), sc.keys.end());
        for (size_t p = 0; p < places; p++) {
            uint64_t m = 0, a = 0;
            for (size_t i = 0; i < n; i++) {
                if (sc.param == 1) {
                    uint64_t v = ints[i] ^ (uint64_t)1 << p;
                    if (in.count(v)) continue;
                    m++; a += f.KeyMayMatch(v, data);
                } else for (unsigned d = 1; d < 256; d += 51) {
                    Str v = sc.keys[i];
                    v[v.size() - 1 - p] ^= (char)d;
                    if (ins.count(v)) continue;
                    m++; a += f.KeyMayMatch(v, data);
                }
            }
            env.count(C_OPS, m);
            FAILIF(m >= 50 && a > 5 + 0.1 * m, "%llu of %llu absent keys that differ from an inserted one only in %s %zu match with %u bits per key", (unsigned long long)a, (unsigned long long)m, sc.param ? "bit" : "the byte counted from the end", p, sc.cfg.h);
        }
    }
    if (sc.cfg.h >= 8 && n >= 20) FAILIF(fp > 0.06 * q, "%llu of %llu absent keys match with %u bits per key", (unsigned long long)fp, (unsigned long long)q, sc.cfg.h);
}
static Spaces bloomSpaces(bool t) {
    std::vector<unsigned> bits;
    for (unsigned b = 1; b <= 50; b += t || b < 16 ? 1 : 5) bits.push_back(b);
    std::vector<unsigned> ns = {1, 2, 3, 6, 7, 8, 63, 64, 65, 200, 1000};
    if (t) { ns.push_back(5000); ns.push_back(20011); }
    Spaces s;
    for (int param = 0; param < 2; param++)
        s.push_back(space(param ? "ints" : "strings", fmt("%zu bits-per-key settings x %zu set sizes x 3 key shapes", bits.size(), ns.size()), bits.size() * ns.size() * 3, [bits, ns, param](uint64_t i) {
            Scenario s;
            s.cfg.h = bits[i % bits.size()];
            i /= bits.size();
            unsigned n = ns[i % ns.size()], kind = i / ns.size();
            for (unsigned k = 0; k < n; k++) {
                if (param || kind == 0) s.keys.push_back(u64key(kind == 0 ? k * 0x0101010101ull : kind == 1 ? (uint64_t)k << 40 : ~(uint64_t)k * 977));
                else if (kind == 1) s.keys.push_back(Str(k % 40, (char)(k * 5)) + Str(1, (char)k) + Str(1, (char)(k >> 8)));
                else s.keys.push_back("com.example@user" + fmt("%u", k));
            }
            s.param = param;
            return s;
        }));
    s.push_back(space("many", t ? "70000 and 1000000 strings and integers, 10 and 17 bits per key" : "70000 strings and integers, 10 bits per key", t ? 8 : 2, [](uint64_t i) {
        Scenario s;
        s.param = i & 1;
        s.cfg.h = i & 2 ? 17 : 10;
        for (unsigned k = 0; k < (i & 4 ? 1000000u : 70000u); k++) s.keys.push_back(u64key(k * 0xD1342543DE82EF95ull));
        return s;
    }));
    // all lengths 0..40 of the hashed string: the block and tail paths of the hash
    s.push_back(space("lengths", "sets of 64 strings, all of one length 0..80, and every key with one byte changed", 81, [](uint64_t i) {
        Scenario s;
        s.cfg.h = 10;
        for (unsigned k = 0; k < (i == 0 ? 1u : 64u); k++) { Str x(i, 'a'); for (size_t j = 0; j < i; j++) x[j] = (char)(k * 17 + j * (k + 3)); s.keys.push_back(x); }
        return s;
    }));
    return s;
}

//------------------------------------------------------------------ C26: benchmark interface
static void checkAdapters(Env& env, const Scenario& sc) {
    static const char* names[] = {"SuRF", "SuRFHash", "SuRFReal", "SuRFMixed", "Bloom", "anything else"};
    Ref ref;
    ref.init(sc.keys, Config());
    Strs q = sc.queries.empty() ? deriveQueries(ref, 0) : sc.queries;
    env.count(C_STATES);
    AllocState& al = allocState();
    {
        unsigned len = sc.cfg.h;
        bench::Filter* f = bench::FilterFactory::createFilter(names[sc.param], len, sc.keys);
        if (sc.param == 4) {
            for (auto& k : sc.keys) FAILIF(!f->lookup(k), "the Bloom filter denies the inserted key %s", show(k).c_str());
            FAILIF(f->getMemoryUsage() == 0 || f->getMemoryUsage() > 16 + sc.keys.size() * 2, "the Bloom filter over %zu keys reports %llu bytes", sc.keys.size(), (unsigned long long)f->getMemoryUsage());
            env.count(C_OPS, sc.keys.size());
        } else {
            Config c;
            c.type = sc.param == 0 ? T_NONE : sc.param == 1 ? T_HASH : sc.param == 3 ? T_MIXED : T_REAL;
            c.h = c.type == T_HASH || c.type == T_MIXED ? len : 0;
            c.r = c.type == T_REAL || c.type == T_MIXED ? len : 0;
            Filter d(sc.keys, c);
            FAILIF(f->getMemoryUsage() != d->getMemoryUsage(), "%s: getMemoryUsage() = %llu, the filter it stands for %llu", names[sc.param], (unsigned long long)f->getMemoryUsage(), (unsigned long long)d->getMemoryUsage());
            for (auto& k : q) {
                FAILIF(f->lookup(k) != d->lookupKey(k), "%s: lookup(%s) differs from the filter it stands for", names[sc.param], show(k).c_str());
                env.count(C_OPS);
            }
            forPairs(q.size(), q.size() > 60 ? 0 : 2, [&](size_t i, size_t j) {
                FAILIF(f->lookupRange(q[i], q[j]) != d->lookupRange(q[i], true, q[j], true), "%s: lookupRange(%s,%s) differs from the filter it stands for, both ends included", names[sc.param], show(q[i]).c_str(), show(q[j]).c_str());
                FAILIF(f->approxCount(q[i], q[j]) != d->approxCount(q[i], q[j]), "%s: approxCount(%s,%s) = %llu differs from the filter it stands for", names[sc.param], show(q[i]).c_str(), show(q[j]).c_str(), (unsigned long long)f->approxCount(q[i], q[j]));
                env.count(C_OPS, 2);
            });
            // and straight from the keys: present keys and non-empty ranges are never denied
            forPairs(ref.n(), 0, [&](size_t i, size_t j) { FAILIF(!f->lookupRange(ref.keys[i], ref.keys[j]), "%s: lookupRange denies [%s,%s]", names[sc.param], show(ref.keys[i]).c_str(), show(ref.keys[j]).c_str()); });
            for (auto& k : ref.keys) FAILIF(!f->lookup(k), "%s: lookup denies the stored key %s", names[sc.param], show(k).c_str());
        }
        delete f;
    }
    FAILIF(al.bad, "heap misuse: %s", al.bad);
    env.count(C_CHECKS);
}
static void checkAdapterLeak(Env& env, const Scenario& sc) {
    static const char* names[] = {"SuRF", "SuRFHash", "SuRFReal", "SuRFMixed", "Bloom", "anything else"};
    AllocState& al = allocState();
    for (int round = 0; round < 2; round++) {   // the first round may initialise statics
        int64_t blocks = al.blocks, bytes = al.bytes;
        {
            bench::Filter* f = bench::FilterFactory::createFilter(names[sc.param], sc.cfg.h, sc.keys);
            f->lookup(sc.keys[0]);
            delete f;
        }
        if (round == 1) FAILIF(al.blocks != blocks || al.bytes != bytes, "%s: %lld blocks (%lld bytes) stay allocated after the filter was deleted", names[sc.param], (long long)(al.blocks - blocks), (long long)(al.bytes - bytes));
    }
    checkAdapters(env, sc);
}
static Spaces adapterSpaces(bool t) {
    Spaces base, s;
    base.push_back(product(subsets("ab2", "ab", 2, 0, "`abc", 2), {Config()}));
    base.push_back(product(subsets("ab3", "ab", 3, t ? 0 : 4, "abc", 2), {Config()}));
    base.push_back(product(subsets("0f2", Str("\0\xff", 2), 2, 0, Str("\0\1\xff", 3), 2), {Config()}));
    base.push_back(product(groupFamily("groups", t ? seq(1, 260, 9) : std::vector<unsigned>{2, 20, 66}, patternsUpTo(1, kShapes)), {Config()}, 0));
    base.push_back(product(intFamily("ints"), {Config()}, 0));
    base.push_back(product(bigFamily("big", t ? 4 : 2), {Config()}, 0));
    s.push_back(space("lens", "4 key lists x every suffix length 1..64 (mixed: 1..32) x 4 filter types", 4 * 64 * 4, [](uint64_t i) {
        Scenario sc;
        sc.param = i % 4 == 0 ? 5 : i % 4;
        sc.cfg.h = i / 4 % 64 + 1;
        if (sc.param == 3 && sc.cfg.h > 32) sc.cfg.h -= 32;
        const char* base[] = {"ab", "\x80\xff", "k", "abc"};
        Str a = base[i / 256];
        for (char c : a) for (char d : a) for (const char* e : {"", "tail of it", "\xff\xfe\xfd\xfc\xfb\xfa\xf9\xf8\xf7"}) sc.keys.push_back(Str(1, c) + d + e);
        sc.keys.push_back(a + a + a);
        sortUnique(sc.keys);
        return sc;
    }));
    const std::vector<unsigned> lens = t ? std::vector<unsigned>{1, 4, 7, 8, 9, 16, 32} : std::vector<unsigned>{4, 8};
    for (auto& b : base) {
        auto g = b.get;
        s.push_back(space(b.name, b.describe + fmt("; x 6 filter types x %zu suffix lengths", lens.size()), b.count * 6 * lens.size(), [g, lens](uint64_t i) {
            Scenario sc = g(i / (6 * lens.size()));
            sc.param = i % 6;
            sc.cfg.h = lens[i / 6 % lens.size()];
            return sc;
        }));
    }
    return s;
}

//------------------------------------------------------------------ C27: benchmark helpers
// Scenario: param 0: string file, 1: integer file (keys = records, queries = {separator, end of file}),
//           2: selection (cfg.h percent), 3: byte changes (cfg.h position), 4: upper bounds
static void checkHelpers(Env& env, const Scenario& sc) {
    env.count(C_STATES);
    Strs out;
    if (sc.param <= 1) {
        char tmpl[] = "/tmp/mckeysXXXXXX";
        int fd = mkstemp(tmpl);
        if (fd < 0) { env.fail("cannot create a scratch file"); }
        Str text;
        for (size_t i = 0; i < sc.keys.size(); i++) text += (i ? sc.queries[0] : "") + sc.keys[i];
        text += sc.queries[1];
        ssize_t w = write(fd, text.data(), text.size());
        (void)w;
        close(fd);
        std::vector<uint64_t> ints, limited;
        bench::loadKeysFromFile(tmpl, sc.param == 1, out);
        if (sc.param == 1) {
            bench::loadKeysFromFile(tmpl, 100000, ints);
            bench::loadKeysFromFile(tmpl, sc.cfg.h, limited);
        }
        unlink(tmpl);
        FAILIF(out.size() != sc.keys.size(), "loadKeysFromFile returned %zu records of a file with %zu", out.size(), sc.keys.size());
        for (size_t i = 0; i < out.size(); i++) {
            Str want = sc.param == 1 ? u64key(strtoull(sc.keys[i].c_str(), 0, 10)) : sc.keys[i];
            FAILIF(out[i] != want, "loadKeysFromFile: record %zu is %s, expected %s", i, show(out[i]).c_str(), show(want).c_str());
        }
        if (sc.param == 1) {
            FAILIF(ints.size() != sc.keys.size(), "loadKeysFromFile (integers) returned %zu records of a file with %zu", ints.size(), sc.keys.size());
            FAILIF(limited.size() != std::min<size_t>(sc.cfg.h, sc.keys.size()), "loadKeysFromFile (at most %u) returned %zu records of a file with %zu", sc.cfg.h, limited.size(), sc.keys.size());
            for (size_t i = 0; i < ints.size(); i++) FAILIF(ints[i] != strtoull(sc.keys[i].c_str(), 0, 10) || (i < limited.size() && limited[i] != ints[i]), "loadKeysFromFile (integers): record %zu differs", i);
        }
        env.count(C_OPS, out.size() + 1);
        return;
    }
    if (sc.param == 2) {
        Strs keys = sc.keys, ins;
        std::vector<uint64_t> ik, ii;
        for (auto& k : sc.keys) ik.push_back(hashOf(k));
        std::vector<uint64_t> iall = ik;
        bench::selectKeysToInsert(sc.cfg.h, ins, keys);
        bench::selectIntKeysToInsert(sc.cfg.h, ii, ik);
        size_t want = sc.keys.size() * sc.cfg.h / 100;
        FAILIF(ins.size() != want || ii.size() != want, "%u%% of %zu keys gave %zu strings and %zu integers", sc.cfg.h, sc.keys.size(), ins.size(), ii.size());
        FAILIF(!keys.empty() || !ik.empty(), "the source list is not cleared");
        FAILIF(!std::is_sorted(ins.begin(), ins.end()) || !std::is_sorted(ii.begin(), ii.end()), "the selection is not sorted");
        Strs all = sc.keys;
        std::sort(all.begin(), all.end());
        std::sort(iall.begin(), iall.end());
        FAILIF(!std::includes(all.begin(), all.end(), ins.begin(), ins.end()), "the selection holds a key that was not offered, or one twice");
        FAILIF(!std::includes(iall.begin(), iall.end(), ii.begin(), ii.end()), "the integer selection holds a key that was not offered, or one twice");
        env.count(C_OPS, want + 1);
        return;
    }
    if (sc.param == 3) {
        Strs keys = sc.keys;
        bench::modifyKeyByte(keys, sc.cfg.h);
        FAILIF(keys.size() != sc.keys.size(), "modifyKeyByte changed the number of keys");
        for (size_t i = 0; i < keys.size(); i++) {
            Str want = sc.keys[i];
            want[want.size() > sc.cfg.h ? want.size() - 1 - sc.cfg.h : 0] = '+';
            FAILIF(keys[i] != want, "modifyKeyByte(%s, %u) = %s", show(sc.keys[i]).c_str(), sc.cfg.h, show(keys[i]).c_str());
            env.count(C_OPS);
        }
        return;
    }
    for (auto& k : sc.keys) {
        if (k.size() == 8) {
            uint64_t v = bench::stringToUint64(k);
            FAILIF(bench::getUpperBoundKey("randint", k) != u64key(v + bench::kIntRangeSize), "getUpperBoundKey(randint, %s) is not %llu further", hex(k).c_str(), (unsigned long long)bench::kIntRangeSize);
        }
        Str w = k;
        w[w.size() - 1] += (char)bench::kEmailRangeSize;
        FAILIF(bench::getUpperBoundKey("email", k) != w, "getUpperBoundKey(email, %s) is wrong", show(k).c_str());
        env.count(C_OPS, 2);
    }
}
static Spaces helperSpaces(bool t) {
    Spaces s;
    const Strs strs = {"com.a@x", "b", "+1", "12", "zz.zz@yy"};
    const Strs nums = {"0", "1", "18446744073709551615", "4294967296", "007"};
    const Strs seps = {"\n", "\n\n", " ", "\r\n"}, ends = {"", "\n", "\n\n", " "};
    unsigned depth = t ? 5 : 4;
    uint64_t per = 0, p = 1;
    for (unsigned d = 0; d <= depth; d++) { per += p; p *= 5; }
    for (int kind = 0; kind < 2; kind++)
        s.push_back(space(kind ? "intfiles" : "stringfiles", fmt("every file of 0..%u records out of 5, with 4 separators and 4 endings", depth), per * 16, [=](uint64_t i) {
            Scenario sc;
            sc.param = kind;
            sc.queries = {seps[i % 4], ends[i / 4 % 4]};
            i /= 16;
            sc.cfg.h = i % 4;
            unsigned d = 0;
            uint64_t p = 1;
            while (i >= p) { i -= p; p *= 5; d++; }
            for (unsigned k = 0; k < d; k++) { sc.keys.push_back((kind ? nums : strs)[i % 5]); i /= 5; }
            return sc;
        }));
    s.push_back(space("select", "every percentage 1..100 of 1..40 and 100, 101 keys", 100 * 42, [](uint64_t i) {
        Scenario sc;
        sc.param = 2;
        sc.cfg.h = i % 100 + 1;
        i /= 100;
        unsigned n = i < 40 ? i + 1 : 60 + i;
        for (unsigned k = 0; k < n; k++) sc.keys.push_back("key" + fmt("%u", k * 7919 % 1000));
        return sc;
    }));
    s.push_back(space("bytes", "strings of 1..9 bytes, every position 0..9", 90, [](uint64_t i) {
        Scenario sc;
        sc.param = 3;
        sc.cfg.h = i % 10;
        Str k = Str("abcdefghi").substr(0, i / 10 + 1);
        sc.keys = {k, k + "z", "q"};
        return sc;
    }));
    s.push_back(space("longbytes", "strings of 120..300 and 65530..65545 bytes, positions 0..310", 60 * 40, [](uint64_t i) {
        Scenario sc;
        sc.param = 3;
        sc.cfg.h = i % 40 * 8 - (i % 40 ? i % 3 : 0);
        i /= 40;
        Str k(i < 44 ? 120 + i * 4 + i % 4 : 65530 + i - 44, 'x');
        for (size_t j = 0; j < k.size(); j++) k[j] = (char)('a' + j % 26);
        sc.keys = {k, k + "z", "q"};
        return sc;
    }));
    s.push_back(space("bigfiles", "files of 70000 records; 1, 50, 99, 100 per cent of 1000 and 70000 keys", 10, [](uint64_t i) {
        Scenario sc;
        sc.param = i < 2 ? i : 2;
        sc.queries = {"\n", "\n"};
        const unsigned pc[] = {1, 50, 99, 100};
        sc.cfg.h = i < 2 ? 65537 : pc[(i - 2) % 4];
        for (unsigned k = 0; k < (i < 2 || i >= 6 ? 70000u : 1000u); k++) sc.keys.push_back(fmt("%llu", (unsigned long long)(k * 0x9E3779B97F4A7C15ull)));
        return sc;
    }));
    s.push_back(space("bounds", "5^4 integers and strings of 1..8 bytes", 625, [](uint64_t i) {
        Scenario sc;
        sc.param = 4;
        sc.keys = {u64key(valueAt(i * 625, 5)), u64key(valueAt(i, 5)), Str("abcdefgh").substr(0, i % 8 + 1)};
        return sc;
    }));
    return s;
}

//------------------------------------------------------------------ C28: the benchmark programs
// Scenario: keys = records of the load file, queries = records of the transaction file (text);
// cfg.type 0..4 = SuRF, SuRFHash, SuRFReal, SuRFMixed, Bloom; cfg.h = suffix length; cfg.r = byte position;
// cfg.ratio = percentage; param = program(1) | key type(2) | query type(3) | alterByte(1) | distribution(2) | threads(4),
// lowest bits first; effort = preemption bound (threads)
static const char* const kFilterNames[] = {"SuRF", "SuRFHash", "SuRFReal", "SuRFMixed", "Bloom"};
static const char* const kKeyTypes[] = {"randint", "timestamp", "email"};
static const char* const kQueryTypes[] = {"point", "range", "mix", "count-long", "count-short"};
static const char* const kDists[] = {"uniform", "zipfian", "latest"};
enum { Q_POINT, Q_RANGE, Q_MIX, Q_LONG, Q_SHORT };
static int benchParam(int mt, int kt, int qt, int alter, int dist, int threads) { return mt | kt << 1 | qt << 3 | alter << 6 | dist << 7 | threads << 9; }

struct Scratch {   // a directory with the two key files, removed with everything the program may leave in it
    Str dir;
    Strs files;
    Scratch() {
        char t[] = "/tmp/mcbenchXXXXXX";
        if (mkdtemp(t)) dir = t;
        mkdir((dir + "/workloads").c_str(), 0700);
    }
    void put(const Str& name, const Strs& lines) {
        FILE* f = fopen((dir + "/" + name).c_str(), "w");
        if (!f) return;
        for (auto& l : lines) fprintf(f, "%s\n", l.c_str());
        fclose(f);
        files.push_back(name);
    }
    ~Scratch() {
        for (auto& f : files) unlink((dir + "/" + f).c_str());
        rmdir((dir + "/workloads").c_str());
        rmdir(dir.c_str());
    }
};
static Str slurp(const Str& path) {
    Str o;
    FILE* f = fopen(path.c_str(), "r");
    if (!f) return o;
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n);
    fclose(f);
    return o;
}
// runs the program in the scratch directory; *status as from waitpid
static Str runProgram(Scratch& s, const char* exe, const Strs& args, const Str& choices, const Str& hot, Str* trace, int* status) {
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (chdir(s.dir.c_str()) != 0) _exit(99);
        int fd = open("out", O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 1);
        fd = open("err", O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2);
        if (trace) { setenv("MC_TRACE", "trace", 1); setenv("MC_CHOICES", choices.c_str(), 1); setenv("MC_HOT", hot.c_str(), 1); }
        std::vector<char*> av;
        av.push_back((char*)exe);
        for (auto& a : args) av.push_back((char*)a.c_str());
        av.push_back(0);
        alarm(20);
        execv(exe, &av[0]);
        _exit(98);
    }
    waitpid(p, status, 0);
    Str out = slurp(s.dir + "/out");
    if (WIFSIGNALED(*status) || WEXITSTATUS(*status) != 0) out += slurp(s.dir + "/err");
    if (trace) *trace = slurp(s.dir + "/trace");
    unlink((s.dir + "/trace").c_str());
    return out;
}
static bool field(const Str& out, const Str& name, double* v) {   // the number printed after a name at the start of a line
    size_t p = 0;
    while (p < out.size()) {
        size_t e = out.find('\n', p);
        if (e == Str::npos) e = out.size();
        Str line;
        for (size_t i = p; i < e; i++) {
            if (out[i] == 27) { while (i < e && out[i] != 'm') i++; continue; }   // colours
            line += out[i];
        }
        if (line.compare(0, name.size() + 3, name + " = ") == 0) { *v = atof(line.c_str() + name.size() + 3); return true; }
        p = e + 1;
    }
    return false;
}
static void checkPrograms(Env& env, const Scenario& sc) {
    int pr = sc.param & 1, kt = sc.param >> 1 & 3, qt = sc.param >> 3 & 7, alter = sc.param >> 6 & 1, dist = sc.param >> 7 & 3, threads = sc.param >> 9;
    const char* exe = getenv(pr ? "MC_WORKLOAD_MT" : "MC_WORKLOAD");
    if (!exe) env.fail("MC_WORKLOAD not set");
    bool email = kt == 2;
    env.count(C_STATES);
    Scratch scratch;
    scratch.put(fmt("workloads/load_%s", kKeyTypes[kt]), sc.keys);
    scratch.put(fmt("workloads/txn_%s_%s", kKeyTypes[kt], kDists[dist]), sc.queries);
    scratch.files.push_back("out");
    scratch.files.push_back("err");
    scratch.files.push_back("trace");
    Strs args = {kFilterNames[sc.cfg.type], fmt("%u", sc.cfg.h), alter ? "alterByte" : "mixed", fmt("%u", sc.cfg.ratio), fmt("%u", sc.cfg.r), kKeyTypes[kt], kQueryTypes[qt], kDists[dist]};
    if (pr) args.push_back(fmt("%d", threads));
    // what it has to print
    Strs keys, txn;
    auto rec = [&](const Str& t) { return email ? t : u64key(strtoull(t.c_str(), 0, 10)); };
    for (auto& k : sc.keys) keys.push_back(rec(k));
    for (auto& k : sc.queries) txn.push_back(rec(k));
    if (alter) for (auto& k : txn) k[k.size() > sc.cfg.r ? k.size() - 1 - sc.cfg.r : 0] = '+';
    auto upper = [&](const Str& k) {
        Str u = k;
        if (email) u[u.size() - 1] += (char)128;
        else u = u64key(surf::stringToUint64(k) + 92233697311ull);
        return u;
    };
    std::sort(keys.begin(), keys.end());
    bool all = sc.cfg.ratio == 100;
    int64_t pos = 0, tp = 0;
    uint64_t cnt = 0;
    if (all) {
        bench::Filter* f = bench::FilterFactory::createFilter(kFilterNames[sc.cfg.type], sc.cfg.h, keys);
        for (size_t i = 0; i < txn.size(); i++) {
            Str u = upper(txn[i]);
            bool point = qt == Q_POINT || (qt == Q_MIX && i % 2 == 0);
            if (point) {
                pos += f->lookup(txn[i]);
                tp += std::binary_search(keys.begin(), keys.end(), txn[i]);
            } else if (qt == Q_RANGE || qt == Q_MIX) {
                pos += f->lookupRange(txn[i], u);
                auto it = std::lower_bound(keys.begin(), keys.end(), txn[i]);
                tp += it != keys.end() && *it <= u;
            } else if (qt == Q_SHORT) cnt += f->approxCount(txn[i], u);
            else if (i + 1 < txn.size()) cnt += f->approxCount(std::min(txn[i], txn[i + 1]), std::max(txn[i], txn[i + 1]));
        }
        delete f;
    }
    Str hot;   // words that threads share: accesses to them are scheduling points
    auto one = [&](const Str& choices, Str* trace) {
        int st = 0;
        Str out = runProgram(scratch, exe, args, choices, hot, trace, &st);
        Str how = fmt("%s", pr ? "workload_multi_thread" : "workload");
        for (auto& a : args) how += " " + a;
        if (trace) how += " (choices " + choices + ")";
        how += " over load file [";
        for (auto& k : sc.keys) how += k + " ";
        how += "], transactions [";
        for (auto& k : sc.queries) how += k + " ";
        how += "]";
        auto bad = [&](const Str& m) { env.fail(m + " | " + how + " | printed: " + out.substr(0, 700)); };
        if (WIFSIGNALED(st)) bad(fmt("the benchmark program died: signal %d", WTERMSIG(st)));
        if (WEXITSTATUS(st) != 0) bad(fmt("the benchmark program ended with status %d", WEXITSTATUS(st)));
        double p, t, fpos, tn, rate, mem, c;
        if (!field(out, "positives", &p) || !field(out, "true positives", &t) || !field(out, "false positives", &fpos) || !field(out, "true negatives", &tn) || !field(out, "False Positive Rate", &rate) || !field(out, "Memory", &mem))
            bad("a result is not printed");
        if (!pr && !field(out, "count", &c)) bad("the count is not printed");
        if (all) {
            if (p != pos) bad(fmt("positives should be %lld", (long long)pos));
            if (t != tp) bad(fmt("true positives should be %lld", (long long)tp));
            if (!pr && c != cnt) bad(fmt("count should be %llu", (unsigned long long)cnt));
        } else if (qt == Q_POINT) {
            // each record is queried once: the true positives are the selected records, whichever these are
            if (t != (double)(keys.size() * sc.cfg.ratio / 100)) bad(fmt("%u%% of %zu keys were to be inserted", sc.cfg.ratio, keys.size()));
            if (p < t || p > (double)txn.size()) bad("positives outside what is possible");
        }
        if (fpos != p - t) bad("false positives are not positives less true positives");
        if (tn != (double)txn.size() - p) bad("true negatives are not the transactions answered no");
        double want = fpos > 0 ? fpos / (tn + fpos) : 0;
        if (rate < want * 0.99999 - 1e-9 || rate > want * 1.00001 + 1e-9) bad(fmt("the false positive rate should be %g", want));
        if (mem <= 0) bad("no memory usage");
        env.count(C_OPS, txn.size());
        env.count(C_CHECKS);
        env.count(C_POS, p); env.count(C_FP, fpos); env.count(C_NEG, tn);
    };
    if (!pr) { one("", 0); return; }
    // depth-first over all schedules with at most `effort` preemptions
    std::vector<std::pair<Str, int>> todo;   // choices, preemptions used
    todo.push_back({"", 0});
    uint64_t runs = 0;
    while (!todo.empty()) {
        auto it = todo.back();
        todo.pop_back();
        Str trace;
        one(it.first, &trace);
        env.count(C_CHECKS);
        env.count(C_A);
        if (++runs > 200000) env.fail("more than 200000 schedules");
        size_t end = trace.find('\n');
        if (end != Str::npos) {   // new shared words: start over with finer points
            bool more = false;
            Str list = trace.substr(end + 1) + "\n";
            trace.resize(end);
            for (size_t p = 0, e; (e = list.find('\n', p)) != Str::npos; p = e + 1) {
                Str w = list.substr(p, e - p);
                if (w.empty() || ("," + hot + ",").find("," + w + ",") != Str::npos || hot.size() > 400) continue;
                hot += (hot.empty() ? "" : ",") + w;
                more = true;
            }
            if (more) { todo.assign(1, {"", 0}); continue; }
        }
        Str pre = it.first;
        for (size_t i = it.first.size(); i * 2 + 1 < trace.size(); i++) {
            int n = trace[2 * i] - '0', used = it.second + (trace[2 * i + 1] == 'p');
            if (used <= sc.effort) for (int c = 1; c < n; c++) todo.push_back({pre + (char)('0' + c), used});
            pre += '0';
        }
    }
}
static Spaces programSpaces(bool t) {
    Spaces s;
    // load and transaction records; 92233697311 is the length of an integer range
    const Strs ints = {"5", "92233697316", "184467394627", "1000000000000"}, iq = {"4", "5", "92233697315", "184467394628"};
    const Strs strs = {"com.a@x", "com.a@y", "com.b@xx", "net"}, sq = {"com.a@x", "com.b", "com.b@xx", "+"};
    auto lists = [](const Strs& q, unsigned depth) {   // all lists of up to depth records
        std::vector<Strs> r = {Strs()}, last = r;
        for (unsigned d = 0; d < depth; d++) {
            std::vector<Strs> next;
            for (auto& l : last) for (auto& k : q) { Strs m = l; m.push_back(k); next.push_back(m); }
            r.insert(r.end(), next.begin(), next.end());
            last = next;
        }
        return r;
    };
    auto sub = [](const Strs& q, unsigned mask) { Strs o; for (size_t i = 0; i < q.size(); i++) if (mask >> i & 1) o.push_back(q[q.size() - 1 - i]); return o; };
    struct Args { int type, h, pct, pos, kt, qt, alter, dist; };
    std::vector<Args> args;
    for (int type = 0; type < 5; type++)
        for (int kt = 0; kt < 3; kt++)
            for (int qt = 0; qt < 5; qt++) {
                if (type == 4 && qt != Q_POINT) continue;   // the Bloom filter answers points only
                if (kt == 1 && type != 2) continue;
                args.push_back({type, 8, 100, 0, kt, qt, 0, (type + qt) % 3});
                if (t) args.push_back({type, 4, 100, 0, kt, qt, 0, (type + qt + 1) % 3});
                if (kt == 2 && type >= 2) for (int pos = 0; pos < (t ? 8 : 2); pos++) args.push_back({type, 8, 100, pos * 2, kt, qt, 1, 0});
            }
    unsigned depth = t ? 3 : 2;
    std::vector<Strs> il = lists(iq, depth), sl = lists(sq, depth);
    il.erase(il.begin()); sl.erase(sl.begin());
    std::vector<unsigned> masks = {1, 2, 5, 6, 11, 15};
    if (t) { masks.clear(); for (unsigned m = 1; m < 16; m++) masks.push_back(m); }
    s.push_back(space("single", fmt("bench/workload with %zu argument lists x %zu load files x every transaction file of 1..%u records out of 4", args.size(), masks.size(), depth), args.size() * masks.size() * il.size(), [=](uint64_t i) {
        Args a = args[i % args.size()];
        i /= args.size();
        Scenario sc;
        sc.keys = sub(a.kt == 2 ? strs : ints, masks[i % masks.size()]);
        sc.queries = (a.kt == 2 ? sl : il)[i / masks.size()];
        sc.cfg.type = a.type; sc.cfg.h = a.h; sc.cfg.ratio = a.pct; sc.cfg.r = a.pos;
        sc.param = benchParam(0, a.kt, a.qt, a.alter, a.dist, 0);
        return sc;
    }));
    s.push_back(space("share", "bench/workload and workload_multi_thread inserting 1..99% of 10, 11, 12, 113 keys and querying each once", 99 * 4 * 3 * 2, [](uint64_t i) {
        Scenario sc;
        sc.cfg.ratio = i % 99 + 1;
        i /= 99;
        unsigned n = 10 + i % 4 + (i % 4 == 3 ? 100 : 0);
        i /= 4;
        if (n * sc.cfg.ratio < 100) sc.cfg.ratio = 10 + sc.cfg.ratio;   // at least one key
        for (unsigned k = 0; k < n; k++) sc.keys.push_back(fmt("%u", k * 977 % 1009));
        sc.queries = sc.keys;
        sc.cfg.type = i % 3 == 0 ? 0 : i % 3 == 1 ? 2 : 4;
        sc.cfg.h = 16;
        sc.effort = 0;
        sc.param = benchParam(i / 3, 0, Q_POINT, 0, 0, 3);
        return sc;
    }));
    // more transactions than any small list has, long keys, large integers
    const unsigned many[] = {31, 64, 130, 300};
    s.push_back(space("long", "bench/workload and workload_multi_thread: 31, 64, 130 and 300 transactions x query types x key types x 3 alterByte positions x filter types", 4 * 5 * 2 * 4 * 3 * 2, [=](uint64_t i) {
        Scenario sc;
        unsigned n = many[i % 4];
        i /= 4;
        int qt = i % 5, email = i / 5 % 2, alter = i / 10 % 4, mt = i / 120;
        sc.cfg.type = i / 40 % 3 == 0 ? 0 : i / 40 % 3 == 1 ? 2 : 4;
        if (sc.cfg.type == 4 || (mt && qt > Q_RANGE)) qt = sc.cfg.type == 4 ? Q_POINT : qt % 2;
        auto key = [=](unsigned k) {
            if (email) return Str(k % 7 == 0 ? 140 : 1 + k % 5, (char)('a' + k % 3)) + fmt("@%u", k * 37 % 1009) + Str(k % 9 == 0 ? 130 : 0, 'z');
            return fmt("%llu", (unsigned long long)(k * 0x9E3779B97F4A7C15ull >> (k % 5 == 0 ? 30 : 0)));
        };
        for (unsigned k = 0; k < 60; k++) sc.keys.push_back(key(k * 5));
        // absent keys, stored keys, keys just below a stored one, keys that share all but the end with one
        for (unsigned k = 0; k < n; k++) {
            int how = n == 300 && alter % 2 == 0 ? 2 + (mt + email + qt) % 2 : (k * 5 + k / 64) % 4;
            if (how == 0) { sc.queries.push_back(key(k * 11 % 613)); continue; }
            Str x = sc.keys[k * 7 % 60];
            if (how > 1 && email) { if (how == 2) x[x.size() - 1]--; else x += "+"; }
            else if (how > 1) x = fmt("%llu", strtoull(x.c_str(), 0, 10) - (how == 2 ? 1 : 0) + (how == 3 ? 1 + k : 0));
            sc.queries.push_back(x);
        }
        const unsigned at[] = {0, 1, 12, 135};
        sc.cfg.h = i % 2 ? 8 : 13;
        sc.cfg.ratio = 100;
        sc.cfg.r = at[alter];
        sc.effort = 0;
        sc.param = benchParam(mt, email ? 2 : 0, qt, alter > 0, i % 3, mt ? 1 + i % 3 : 0);
        return sc;
    }));
    // thread schedules: all with at most 1 (thorough 2) preemptions between calls, every transaction count against every thread count
    struct Threads { unsigned threads, txns, bound; };
    std::vector<Threads> tt;
    for (unsigned n = 1; n <= 4; n++)
        for (unsigned x = 1; x <= (t ? 7u : 5u); x++) tt.push_back({n, x, t ? (n <= 2 ? 3u : n == 3 ? 2u : 1u) : n <= 2 ? 2u : n == 3 ? 1u : 0u});
    for (int email = 0; email < 2; email++)
        s.push_back(space(email ? "threads-email" : "threads-int", fmt("bench/workload_multi_thread with 1..4 threads x 1..%u transactions x point and range x SuRF and SuRFReal, all schedules of the threads within %s preemptions at calls", t ? 7 : 5, t ? "3 (2 threads), 2 (3), 1 (4)" : "2 (2 threads), 1 (3), 0 (4)"), tt.size() * 4, [=](uint64_t i) {
            Scenario sc;
            Threads h = tt[i / 4];
            sc.keys = sub(email ? strs : ints, 15);
            for (unsigned k = 0; k < h.txns; k++) sc.queries.push_back(email ? (k % 3 == 2 ? Str("absent") : strs[(h.txns - 1 - k) % 4]) : k % 3 == 1 ? Str("7000000000000") : ints[(h.txns - 1 - k) % 4]);
            sc.cfg.type = i & 1 ? 2 : 0;
            sc.cfg.h = 8;
            sc.cfg.ratio = 100;
            sc.effort = h.bound;
            sc.param = benchParam(1, email ? 2 : 0, i & 2 ? Q_RANGE : Q_POINT, 0, i % 3, h.threads);
            return sc;
        }));
    s.push_back(space("threads-args", "bench/workload_multi_thread with 2 threads: filter types x key types x point and range x alterByte positions", 5 * 3 * 2 * 4, [=](uint64_t i) {
        Scenario sc;
        sc.cfg.type = i % 5;
        int kt = i / 5 % 3, qt = i / 15 % 2 && sc.cfg.type != 4 ? Q_RANGE : Q_POINT, alter = i / 30;
        if (sc.cfg.type == 3) sc.cfg.type = 2;   // the program does not offer SuRFMixed
        sc.keys = sub(kt == 2 ? strs : ints, 15);
        sc.queries = kt == 2 ? Strs{"com.a@x", "com.a@z", "com.b@xy", "zzz"} : Strs{"5", "92233697315", "2000000000000", "184467394627"};
        sc.cfg.h = 4;
        sc.cfg.ratio = 100;
        sc.cfg.r = alter ? alter - 1 : 0;
        sc.effort = 0;
        sc.param = benchParam(1, kt, qt, alter > 0 && kt == 2, 1, 2);
        return sc;
    }));
    return s;
}

int main(int argc, char** argv) {
    std::vector<Prop> p = {
        {"C19", checkInts, intSpaces, 60},
        {"C25", checkBloom, bloomSpaces, 60},
        {"C26", checkAdapterLeak, adapterSpaces, 60},
        {"C27", checkHelpers, helperSpaces, 60},
        {"C28", checkPrograms, programSpaces, 120},
    };
    return mainFor(argc, argv, p);
}
