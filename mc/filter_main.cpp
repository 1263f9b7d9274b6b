// Model checks of the whole filter: properties C01-C14, C16-C18, C20, C29-C31.
#include "checks2.hpp"
#include "mainlib.hpp"
#include "msan_std.hpp"

using namespace mc;
typedef std::vector<Space> Spaces;

static const std::vector<Sfx> kSfxTwo = {{T_NONE, 0, 0}, {T_REAL, 0, 8}};

static Spaces linear(bool t) { return filterSpaces(K_LINEAR, t); }
static Spaces pairs(bool t) { return filterSpaces(K_PAIRS, t); }

// So many keys that their suffixes need more than 2^24 bits.
static Space manySuffixes(bool t) {
    Family f;
    f.name = "suffixbits";
    f.count = 1;
    f.describe = "270000 keys with tails of 9 bytes (more than 2^24 suffix bits)";
    f.keys = [](uint64_t) {
        Strs k;
        for (uint64_t v = 0; v < 270000; v++) k.push_back(u64key(v * 37).substr(4) + u64key((v + 1) * 0x9E3779B97F4A7C15ull) + "\x80");
        sortUnique(k);
        return k;
    };
    f.effort = 0;
    return product(f, cross(t ? kEncAll : kEncDefault, {{T_REAL, 0, 64}, {T_MIXED, 32, 32}, {T_HASH, 64, 0}}));
}
static Spaces reportSpaces(bool t) { Spaces s = linear(t); s.push_back(manySuffixes(t)); return s; }

// Point queries without false negatives are cheap: use more key lists.
static Spaces pointSpaces(bool t) {
    Spaces s = linear(t);
    s.push_back(manySuffixes(t));
    s.push_back(product(subsets("ab4", "ab", 4, t ? 5 : 3, "ab", 1), cross(kEncAll, kSfxFew)));
    s.push_back(product(subsets("0f3", Str("\0\xff", 2), 3, 0, "a", 1), cross(kEncAll, t ? kSfxMore : kSfxTwo)));
    s.push_back(product(subsets("abcd2", "abcd", 2, t ? 8 : 5, "a", 1), cross(kEncAll, t ? kSfxFew : kSfxTwo)));
    std::vector<unsigned> all = seq(1, 260, t ? 1 : 5);
    s.push_back(product(groupFamily("groupsall", all, patternsUpTo(1, kShapes)), cross(kEncAll, kSfxFew), 0));
    return s;
}

// Hash suffixes: keys and 65536 queries per kept prefix.  The queries are 8 bytes long: the hash in use
// mixes whole 4-byte words well, and the 1..3 bytes after the last whole word poorly (see DESIGN.md).
static Family hashFamily(bool t) {
    Family f;
    f.name = "hash";
    std::vector<unsigned> ns = {1, 2, 5, 16, 40};
    if (t) { ns.push_back(100); ns.push_back(200); }
    f.count = ns.size() * 3;
    f.describe = "sets of 1..200 keys whose kept prefixes are met by queries with every two-byte continuation (65536 per key; every 31st above 10 keys) and a fixed tail";
    f.keys = [ns](uint64_t i) {
        Strs k;
        for (unsigned j = 0; j < ns[i / 3]; j++) k.push_back(Str(1, (char)(j + 20)) + (i % 3 == 0 ? "tail" : i % 3 == 1 ? "" : "x"));
        sortUnique(k);
        return k;
    };
    f.queries = [ns](uint64_t i) {
        Strs q;
        unsigned n = ns[i / 3], step = n > 10 ? 31 : 1;
        for (unsigned j = 0; j < n; j++)
            for (unsigned v = j; v < 65536; v += step) q.push_back(Str(1, (char)(j + 20)) + Str(1, (char)(v >> 8)) + Str(1, (char)v) + "@tail");
        return q;
    };
    return f;
}
static Spaces precisionSpaces(bool t) { return linear(t); }
static Spaces hashSpaces(bool t) {
    std::vector<Sfx> s;
    for (uint32_t h : {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 20, 24, 25, 26, 32, 40, 56, 57, 58, 63, 64}) s.push_back({T_HASH, h, 0});
    for (uint32_t h : {1, 4, 7, 8, 12, 25, 32, 56}) { s.push_back({T_MIXED, h, 8}); if (h < 40) s.push_back({T_MIXED, h, 4}); }
    return {product(hashFamily(t), cross(kEncTwo, s))};
}
static void checkC02(Env& e, const Scenario& s) {
    if (s.param == 1) checkHashRate(e, s);
    else if (s.param == 2) checkHashBytes(e, s);
    else checkPointPrecision(e, s);
}
static Space withParam(Space s, int p) {
    auto g = s.get;
    s.get = [g, p](uint64_t i) { Scenario sc = g(i); sc.param = p; return sc; };
    return s;
}
static Spaces c02Spaces(bool t) {
    Spaces v = precisionSpaces(t);
    for (auto& s : hashSpaces(t)) v.push_back(withParam(s, 1));
    Family f;
    f.name = "hashbytes";
    f.count = (t ? 130 : 40) * 5;
    f.describe = "one or three keys of every length, every way to change or add one byte";
    f.keys = [](uint64_t i) {
        Strs k;
        unsigned len = i / 5 + 1, kind = i % 5;
        for (unsigned j = 0; j < (kind == 2 ? 3u : 1u); j++) {
            Str x(len, 0);
            for (unsigned b = 0; b < len; b++) x[b] = (char)(kind == 1 ? 0xff - b * 3 : 'a' + (b * 7 + j * 5) % 26);
            // zero bytes within, in front and all but one
            for (unsigned b = 0; b < len; b++) if (kind == 3 ? b % 3 == 1 : kind == 4 && b != len / 2) x[b] = 0;
            k.push_back(x);
        }
        sortUnique(k);
        return k;
    };
    v.push_back(withParam(product(f, cross(kEncTwo, {{T_HASH, 16, 0}, {T_HASH, 20, 0}, {T_HASH, 25, 0}, {T_HASH, 32, 0}, {T_HASH, 64, 0}, {T_MIXED, 16, 8}, {T_MIXED, 24, 1}}), 0), 2));
    return v;
}

// Smaller spaces for checks whose every scenario is expensive.
static Spaces medium(bool t) {
    Spaces s;
    Configs few = cross({{true, 16}, {false, 16}, {true, 0}}, kSfxFew);
    s.push_back(product(subsets("ab2", "ab", 2, 0, "`abc", 3), cross(kEncAll, t ? kSfxReal : kSfxFew)));
    s.push_back(product(subsets("0f2", Str("\0\xff", 2), 2, 0, Str("\0\1\xfe\xff", 4), 2), cross(kEncAll, t ? kSfxReal : kSfxFew)));
    s.push_back(product(subsets("abc2", "abc", 2, t ? 7 : 4, "`abcd", 2), few));
    s.push_back(product(subsets("ab3", "ab", 3, t ? 0 : 3, "abc", 3), few));
    for (unsigned d : t ? std::vector<unsigned>{60, 130, 260, 700} : std::vector<unsigned>{130, 260})
        s.push_back(product(subsets(fmt("ab3c%u", d), "ab", 3, t ? 3 : 2, "abc", 2, chain('p', d), chainQueries('p', d)), cross({{true, 1}}, kSfxFew), 1));
    s.push_back(product(groupFamily("groups", t ? seq(1, 260, 13) : std::vector<unsigned>{3, 17, 64, 65, 129}, patternsUpTo(t ? 2 : 1, kShapes)), few, 0));
    s.push_back(product(wideFamily("wide", t ? 8 : 90), cross(t ? kEncAll : kEncTwo, t ? kSfxFew : kSfxTwo), 0));
    s.push_back(product(deepFamily("deep", seq(0, t ? 150 : 70, t ? 1 : 5)), few, 0));
    s.push_back(product(deepFamily("deeper", {255, 256, 257, 1000}), cross(kEncAll, kSfxTwo), 0));
    s.push_back(product(giantFamily("giant", 3, 9), cross(kEncTwo, kSfxNone)));
    s.push_back(product(intFamily("ints"), t ? few : cross(kEncTwo, {{T_NONE, 0, 0}, {T_MIXED, 4, 4}}), 0));
    s.push_back(product(bigFamily("big", t ? 7 : 4), cross(kEncTwo, kSfxTwo), 0));
    s.push_back(product(twinFamily("twins"), cross(kEncTwo, {{T_NONE, 0, 0}, {T_HASH, 32, 0}})));
    s.push_back(product(groupFamily("lens", {9}, {{2}, {7}, {0, 6}}), cross(t ? kEncAll : kEncDefault, allSuffixes(false)), 0));
    s.push_back(product(tailFamily("tails", t ? std::vector<unsigned>{3, 9, 20, 70} : std::vector<unsigned>{20}), cross(t ? kEncTwo : kEncDefault, allSuffixes(false)), 0));
    return s;
}
// The encodings are enumerated inside the check: suffix configurations only.
static Spaces encodingSpaces(bool t) {
    Spaces s;
    Configs few = cross(kEncDefault, kSfxFew), more = cross(kEncDefault, kSfxReal);
    s.push_back(product(subsets("ab2", "ab", 2, 0, "`abc", 3), more));
    s.push_back(product(subsets("0f2", Str("\0\xff", 2), 2, 0, Str("\0\1\xfe\xff", 4), 2), more));
    s.push_back(product(subsets("abc2", "abc", 2, t ? 0 : 5, "`abcd", 2), few));
    s.push_back(product(subsets("ab3", "ab", 3, t ? 0 : 5, "abc", 3), few));
    for (unsigned d : t ? std::vector<unsigned>{30, 60, 90, 130, 180, 260, 400, 700} : std::vector<unsigned>{60, 130, 260})
        s.push_back(product(subsets(fmt("ab3c%u", d), "ab", 3, t ? 3 : 2, "abc", 2, chain('p', d), chainQueries('p', d)), few, 1));
    s.push_back(product(groupFamily("groups", t ? seq(1, 260, 7) : std::vector<unsigned>{9, 65}, patternsUpTo(2, kShapes)), few, 0));
    s.push_back(product(wideFamily("wide", t ? 5 : 80), few, 0));
    s.push_back(product(deepFamily("deep", seq(0, t ? 200 : 70, t ? 1 : 3)), few, 0));
    s.push_back(product(deepFamily("deeper", {255, 256, 257, 1000}), few, 0));
    s.push_back(product(giantFamily("giant", 2, 13), cross(kEncDefault, kSfxTwo)));
    s.push_back(product(intFamily("ints"), few, 0));
    s.push_back(product(bigFamily("big", t ? 7 : 5), cross(kEncDefault, t ? kSfxFew : kSfxTwo), 0));
    s.push_back(product(groupFamily("lens", {9}, {{2}, {7}, {0, 6}}), cross(kEncDefault, allSuffixes(false)), 0));
    s.push_back(product(tailFamily("tails", t ? std::vector<unsigned>{3, 9, 20, 70} : std::vector<unsigned>{20}), cross(kEncDefault, allSuffixes(false)), 0));
    return s;
}
static Spaces puritySpaces(bool t) {
    Spaces s;
    Configs few = cross(kEncAll, kSfxFew);
    s.push_back(product(subsets("ab2", "ab", 2, t ? 0 : 4, "`abc", 2), t ? few : cross(kEncAll, kSfxTwo)));
    s.push_back(product(subsets("ab3", "ab", 3, t ? 4 : 2, "abc", 2), few));
    s.push_back(product(subsets("0f2", Str("\0\xff", 2), 2, t ? 0 : 3, Str("\0\1\xff", 3), 2), few));
    s.push_back(product(subsets("ab3c130", "ab", 3, t ? 2 : 1, "abc", 2, chain('p', 130), chainQueries('p', 130)), cross({{true, 1}}, kSfxFew)));
    s.push_back(product(groupFamily("groups", {4, 33, 65, 130}, patternsUpTo(1, kShapes)), few, 0));
    s.push_back(product(deepFamily("deep", {0, 3, 20, 64}), few, 0));
    s.push_back(product(bigFamily("big", t ? 4 : 1), cross(kEncAll, kSfxTwo), 0));
    s.push_back(product(mixedFamily("mixed", t ? std::vector<unsigned>{40, 300, 700} : std::vector<unsigned>{40, 300}), t ? cross(kEncAll, kSfxFew) : cross(kEncTwo, kSfxTwo)));
    s.push_back(product(twinFamily("twins"), cross(t ? kEncAll : kEncTwo, {{T_NONE, 0, 0}, {T_HASH, 8, 0}}), 2));
    if (t) s.push_back(withParam(product(subsets("depth4", "ab", 2, 2, "`abc", 2), cross(kEncAll, kSfxTwo)), 4));
    return s;
}
static Spaces lifeSpaces(bool t) {
    Spaces s;
    Configs few = cross(kEncAll, kSfxFew);
    s.push_back(withParam(product(subsets("ab2", "ab", 2, t ? 0 : 2, "`abc", 1), few), t ? 6 : 5));
    s.push_back(withParam(product(groupFamily("groups", {5, 66}, patternsUpTo(1, kShapes)), t ? few : cross(kEncAll, kSfxTwo), 0), t ? 5 : 4));
    s.push_back(withParam(product(deepFamily("deep", {0, 5, 40}), few, 0), t ? 5 : 4));
    s.push_back(withParam(product(subsets("ab3c130", "ab", 3, 1, "abc", 1, chain('p', 130), chainQueries('p', 130)), cross({{true, 1}}, kSfxFew)), t ? 5 : 4));
    s.push_back(withParam(product(bigFamily("big", 1), cross(kEncTwo, kSfxTwo), 0), 3));
    s.push_back(withParam(product(subsets("lens", "ab", 2, 1, "abc", 1), cross(kEncTwo, kSfxWide)), 4));
    return s;
}
static Spaces dupSpaces(bool t) {
    Spaces s;
    Configs few = cross(kEncAll, kSfxFew);
    s.push_back(product(subsets("ab2", "ab", 2, 0, "`abc", 2), few));
    s.push_back(product(subsets("af2", "a\xff", 2, 0, "ab\xfe\xff", 2), few));
    s.push_back(product(subsets("0f2", Str("\0\xff", 2), 2, 0, Str("\0\1\xff", 3), 2), few));
    s.push_back(product(subsets("abc2", "abc", 2, t ? 0 : 4, "`abcd", 2), t ? few : cross(kEncAll, kSfxTwo)));
    s.push_back(product(subsets("ab3", "ab", 3, t ? 5 : 3, "abc", 2), t ? few : cross(kEncAll, kSfxTwo)));
    s.push_back(product(groupFamily("groups", t ? seq(1, 260, 9) : std::vector<unsigned>{2, 17, 65}, patternsUpTo(1, kShapes)), few, 0));
    s.push_back(product(wideFamily("wide", t ? 9 : 80), cross(kEncTwo, kSfxTwo), 0));
    s.push_back(product(deepFamily("deep", seq(0, 70, t ? 1 : 5)), few, 0));
    s.push_back(product(intFamily("ints"), cross(kEncTwo, {{T_NONE, 0, 0}, {T_MIXED, 4, 4}}), 0));
    s.push_back(product(tailFamily("tails", {9}), cross(kEncTwo, t ? allSuffixes(false) : kSfxWide), 0));
    s.push_back(product(twinFamily("twins"), cross(kEncTwo, kSfxTwo)));
    s.push_back(withParam(product(subsets("often", "ab", 2, t ? 3 : 2, "`abc", 1), cross(kEncTwo, kSfxTwo)), t ? 1000000 : 70000));
    s.push_back(withParam(product(groupFamily("oftengroups", {9}, patternsUpTo(1, kShapes)), cross(kEncTwo, kSfxTwo), 0), t ? 1000000 : 70000));
    return s;
}
static const std::vector<unsigned> kCombs = {1, 2, 16, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 2048, 4096};
static Spaces shapeSpaces(bool t) {
    Spaces s;
    Configs few = cross(kEncDefault, kSfxFew), two = cross(kEncDefault, kSfxTwo);
    s.push_back(product(subsets("ab2", "ab", 2, 0, "`abc", 1), few));
    s.push_back(product(subsets("0f2", Str("\0\xff", 2), 2, 0, Str("\0\1\xff", 3), 1), few));
    s.push_back(product(subsets("ab3", "ab", 3, t ? 6 : 4, "abc", 1), two));
    s.push_back(product(subsets("abc2", "abc", 2, t ? 0 : 4, "abc", 1), two));
    s.push_back(product(groupFamily("groups", seq(1, 260, t ? 3 : 32), patternsUpTo(t ? 2 : 1, kShapes)), few, 0));
    s.push_back(product(wideFamily("wide", t ? 5 : 80), two, 0));
    s.push_back(product(deepFamily("deep", seq(0, 70, t ? 1 : 4)), few, 0));
    s.push_back(product(deepFamily("deeper", {255, 256, 257, 1000}), two, 0));
    s.push_back(product(giantFamily("giant", 2), cross(kEncDefault, kSfxNone)));
    s.push_back(product(intFamily("ints"), two, 0));
    s.push_back(product(bigFamily("big", t ? 7 : 3), two, 0));
    s.push_back(product(subsets("lens", "ab", 2, 2, "abc", 1), cross(kEncDefault, kSfxWide)));
    s.push_back(product(combFamily("combs", kCombs), two, 0));
    return s;
}
static Spaces valueSpaces(bool t) {
    Spaces s;
    Configs few = cross(kEncAll, kSfxTwo);
    s.push_back(product(subsets("ab2", "ab", 2, t ? 0 : 2, "`abc", 1), few));
    s.push_back(product(subsets("af2", "a\xff", 2, t ? 0 : 2, "ab\xfe\xff", 1), few));
    s.push_back(withParam(product(subsets("ab3", "ab", 3, t ? 4 : 3, "abc", 1), few), 3));
    s.push_back(withParam(product(subsets("0f2", Str("\0\xff", 2), 2, 0, Str("\0\1\xff", 3), 1), few), 3));
    s.push_back(withParam(product(subsets("ab3c130", "ab", 3, t ? 2 : 1, "abc", 1, chain('p', 130), chainQueries('p', 130)), cross({{true, 1}}, kSfxFew)), 3));
    s.push_back(withParam(product(groupFamily("groups", {4, 33, 65, 130}, patternsUpTo(1, kShapes)), few, 0), 3));
    s.push_back(withParam(product(deepFamily("deep", {0, 3, 20, 64}), few, 0), 3));
    if (t) s.push_back(withParam(product(subsets("depth5", "ab", 2, 2, "`abc", 1), few), 5));
    return s;
}
static const std::vector<Sfx> kSfxWideAnd = [] { std::vector<Sfx> v = kSfxWide; for (auto& x : kSfxMore) v.push_back(x); return v; }();
static Spaces memorySpaces(bool t) {
    Spaces s;
    Configs few = cross(kEncAll, kSfxFew);
    s.push_back(product(subsets("ab2", "ab", 2, 0, "`abc", 2), few));
    s.push_back(product(subsets("0f2", Str("\0\xff", 2), 2, 0, Str("\0\1\xfe\xff", 4), 2), few));
    s.push_back(product(subsets("af2", "a\xff", 2, 0, "ab\xfe\xff", 2), few));
    s.push_back(product(subsets("ab3", "ab", 3, t ? 5 : 3, "abc", 2), t ? few : cross(kEncAll, kSfxTwo)));
    for (unsigned d : t ? std::vector<unsigned>{60, 130, 260, 700} : std::vector<unsigned>{130})
        s.push_back(product(subsets(fmt("ab3c%u", d), "ab", 3, t ? 3 : 1, "abc", 2, chain('p', d), chainQueries('p', d)), cross({{true, 1}}, kSfxFew), 1));
    s.push_back(product(groupFamily("groups", t ? seq(1, 140, 3) : std::vector<unsigned>{3, 33, 64, 66}, patternsUpTo(1, kShapes)), few, 0));
    s.push_back(product(wideFamily("wide", t ? 6 : 200), cross(kEncAll, t ? kSfxFew : kSfxTwo), 0));
    s.push_back(product(deepFamily("deep", seq(0, 70, t ? 1 : 7)), few, 0));
    s.push_back(product(deepFamily("deeper", {300}), cross(kEncAll, kSfxTwo), 0));
    s.push_back(product(giantFamily("giant", 2, 13), cross(kEncDefault, kSfxTwo)));
    s.push_back(product(intFamily("ints"), cross(kEncTwo, t ? kSfxFew : kSfxNone), 0));
    s.push_back(product(bigFamily("big", t ? 4 : 1), cross(kEncTwo, kSfxTwo), 0));
    s.push_back(product(tailFamily("tails", {9}), cross(kEncTwo, t ? allSuffixes(false) : kSfxWideAnd), 0));
    s.push_back(product(groupFamily("lens", {9}, {{2}, {7}}), cross(kEncTwo, t ? allSuffixes(false) : kSfxWideAnd), 0));
    return s;
}
static Spaces oomSpaces(bool t) {
    Spaces s;
    Configs few = cross(kEncAll, kSfxFew);
    s.push_back(product(subsets("ab2", "ab", 2, t ? 0 : 3, "`abc", 2), t ? few : cross(kEncAll, kSfxTwo)));
    s.push_back(product(subsets("0f2", Str("\0\xff", 2), 2, t ? 0 : 2, Str("\0\1\xff", 3), 2), t ? few : cross(kEncTwo, kSfxFew)));
    s.push_back(product(subsets("ab3", "ab", 3, t ? 3 : 1, "abc", 2), t ? few : cross(kEncTwo, kSfxTwo)));
    s.push_back(product(subsets("ab3c30", "ab", 3, t ? 2 : 1, "abc", 1, chain('p', 30), chainQueries('p', 30)), cross({{true, 1}}, kSfxFew)));
    if (t) s.push_back(product(subsets("ab3c130", "ab", 3, 1, "abc", 1, chain('p', 130), chainQueries('p', 130)), cross({{true, 1}}, kSfxFew)));
    s.push_back(product(groupFamily("groups", {4, 33, 66}, patternsUpTo(1, kShapes)), t ? few : cross(kEncTwo, kSfxTwo), 0));
    s.push_back(product(deepFamily("deep", t ? std::vector<unsigned>{0, 3, 20, 64} : std::vector<unsigned>{3, 20}), t ? few : cross(kEncTwo, kSfxFew), 0));
    s.push_back(product(wideFamily("wide", 64), cross(kEncTwo, kSfxTwo), 0));
    return s;
}
static Spaces footSpaces(bool t) {
    Spaces s = filterSpaces(K_LINEAR, t);
    s.push_back(product(groupFamily("groupsall", seq(1, 260, t ? 1 : 5), patternsUpTo(1, kShapes)), cross({{true, 16}, {false, 16}, {true, 1}, {true, 4}, {true, 64}}, kSfxFew), 0));
    s.push_back(product(combFamily("combs", kCombs), cross({{true, 16}, {false, 16}, {true, 1}, {true, 4}, {true, 64}}, kSfxFew), 0));
    return s;
}

int main(int argc, char** argv) {
    std::vector<Prop> p = {
        {"C01", checkPointFN, pointSpaces, 60},
        {"C02", checkC02, c02Spaces, 60},
        {"C03", checkRangeFN, pairs, 60},
        {"C04", checkRangePrecision, pairs, 60},
        {"C05", checkSeekForward, linear, 60},
        {"C06", checkSeekBackward, linear, 60},
        {"C07", checkIteration, linear, 60},
        {"C08", checkIterReport, reportSpaces, 60},
        {"C09", checkCompare, linear, 60},
        {"C10", checkCount, pairs, 60},
        {"C11", checkRoundTrip, medium, 60},
#if !defined(MC_NO_ALLOC)
        {"C12", checkImage, medium, 60},
        {"C20", checkFootprint, footSpaces, 60},
        {"C31", checkOutOfMemory, oomSpaces, 120},
#endif
        {"C13", checkEncodings, encodingSpaces, 60},
        {"C14", checkPurity, puritySpaces, 60},
        {"C16", checkMemory, memorySpaces, 60},
        {"C17", checkLifecycle, lifeSpaces, 120},
        {"C29", checkShape, shapeSpaces, 60},
        {"C30", checkIterValues, valueSpaces, 60},
        {"C18", checkDuplicates, dupSpaces, 60},
    };
    return mainFor(argc, argv, p);
}
