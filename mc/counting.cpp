// Model check of the functions that count and find bits in words: C32.
#include <string>
#include <iostream>
#include "parts.hpp"

// Several of these functions are alternatives of which the library uses one; a tree without some of
// them is checked for the others.
namespace mayBeAbsent {
struct Absent {};
inline Absent suxpopcount(...) { return Absent(); }
inline Absent select64_popcount_search(...) { return Absent(); }
inline Absent select64(...) { return Absent(); }
inline Absent select64_naive(...) { return Absent(); }
inline Absent select64_broadword(...) { return Absent(); }
inline Absent popcountLinear(...) { return Absent(); }
inline Absent selectLinear(...) { return Absent(); }
inline Absent select512(...) { return Absent(); }
}
using namespace surf;
using namespace mayBeAbsent;
static int64_t valueOr(int64_t other, Absent) { return other; }
template <class T> static int64_t valueOr(int64_t, T v) { return (int64_t)v; }
#define EXPECT(want, call, ...) do { int64_t w_ = (want), g_ = valueOr(w_, call); if (g_ != w_) env.fail(fmt(__VA_ARGS__) + fmt(" = %lld, expected %lld | ", (long long)g_, (long long)w_) + scenarioText(sc)); } while (0)

// Scenario: every key is a run of 64-bit words, 8 bytes each, high byte first
static uint64_t wordAt(const Str& s, size_t i) {
    uint64_t v = 0;
    for (size_t b = 0; b < 8; b++) v = v << 8 | (unsigned char)s[i * 8 + b];
    return v;
}
static Str wordStr(uint64_t v) {
    Str s;
    for (int b = 7; b >= 0; b--) s += (char)(v >> (8 * b));
    return s;
}
static void checkCounting(Env& env, const Scenario& sc) {
    env.count(C_STATES, sc.keys.size());
    for (auto& run : sc.keys) {
        size_t n = run.size() / 8;
        // the words around a run are all ones: what is counted there is noticed
        std::vector<uint64_t> buf(n + 16, ~0ull);
        uint64_t* bits = buf.data() + 8;
        std::vector<int> at, before(1, 0);     // places of the ones, ones before each place; place 0 is the highest bit
        for (size_t i = 0; i < n; i++) {
            uint64_t w = bits[i] = wordAt(run, i);
            int ones = 0, pos[64];
            for (int b = 0; b < 64; b++) {
                if (w >> (63 - b) & 1) { pos[ones++] = b; at.push_back(i * 64 + b); }
                before.push_back(at.size());
            }
            if (n > 1) continue;
            unsigned long long W = w;
            EXPECT(ones, suxpopcount(w), "suxpopcount(%llx)", W);
#ifdef popcount
            EXPECT(ones, popcount(w), "popcount(%llx)", W);
#endif
            for (int k = 1; k <= ones; k++) {
                EXPECT(pos[k - 1], select64_popcount_search(w, k), "select64_popcount_search(%llx, %d)", W, k);
                EXPECT(pos[k - 1], select64(w, k), "select64(%llx, %d)", W, k);
                EXPECT(pos[k - 1], select64_naive(w, k), "select64_naive(%llx, %d)", W, k);
                // this one counts from the lowest bit and from 0
                EXPECT(63 - pos[k - 1], select64_broadword(w, ones - k), "select64_broadword(%llx, %d)", W, ones - k);
            }
            EXPECT(-1, select64_naive(w, ones + 1), "with only %d ones, select64_naive(%llx, %d)", ones, W, ones + 1);
            env.count(C_OPS, 3 + 4 * ones);
        }
        for (size_t x = 0; x < n; x++) {
            int skip = before[x * 64], left = (int)at.size() - skip;
            for (size_t nb = 0; nb <= (n - x) * 64; nb++)
                EXPECT(before[x * 64 + nb] - skip, popcountLinear(bits, x, nb), "popcountLinear of %zu bits from word %zu of %s", nb, x, show(run).c_str());
            for (int k = 1; k <= left + 1; k++)
                EXPECT(k <= left ? at[skip + k - 1] - (int)x * 64 : -1, selectLinear(bits, n, x, k), "selectLinear(%zu words, from word %zu, %d) of %s", n, x, k, show(run).c_str());
            env.count(C_OPS, (n - x) * 64 + left + 2);
            if (x + 8 > n) continue;
            int in8 = before[(x + 8) * 64] - skip;
            for (int k = 1; k <= in8 + 1; k++)
                EXPECT(k <= in8 ? at[skip + k - 1] - (int)x * 64 : -1, select512(bits, x, k), "select512(from word %zu, %d) of %s", x, k, show(run).c_str());
            env.count(C_OPS, in8 + 1);
        }
        env.count(C_CHECKS);
    }
}
static Spaces countingSpaces(bool t) {
    Spaces out;
    auto one = [](std::function<uint64_t(uint64_t)> word, uint64_t per) {
        return [word, per](uint64_t i) {
            Scenario s;
            for (uint64_t j = 0; j < per; j++) s.keys.push_back(wordStr(word(i * per + j)));
            return s;
        };
    };
    // all values of a window, everywhere in the word, over zeros and over ones
    unsigned wb = t ? 22 : 16;
    uint64_t places = 64 - wb + 1;
    out.push_back(space("window", fmt("words: every value of %u neighbouring bits, at every place, the other bits 0 or 1", wb), places * 2 * (1ull << wb) / 256, one([wb, places](uint64_t i) {
        uint64_t v = i & ((1ull << wb) - 1), m = (1ull << wb) - 1;
        i >>= wb;
        unsigned sh = i % places;
        return i / places ? ~(m << sh) | v << sh : v << sh;
    }, 256)));
    // every byte of the word one of a few: all sums of byte counts
    out.push_back(space("bytes", "words: every choice of 8 bytes out of 00 01 80 5a fe ff", 1679616 / 216, one([](uint64_t i) {
        static const unsigned char b[] = {0x00, 0x01, 0x80, 0x5a, 0xfe, 0xff};
        uint64_t v = 0;
        for (int k = 0; k < 8; k++) { v = v << 8 | b[i % 6]; i /= 6; }
        return v;
    }, 216)));
    // runs of words
    for (unsigned n : {1u, 2u, 3u, 8u, 9u}) {
        std::vector<uint64_t> w = {0, 1, 1ull << 63, ~0ull, 0x8000000180000001ull};
        if (n >= 8) w = t ? std::vector<uint64_t>{0, 1, 1ull << 63, ~0ull} : std::vector<uint64_t>{0, 0x8000000000000001ull, ~0ull};
        uint64_t tot = 1;
        for (unsigned k = 0; k < n; k++) tot *= w.size();
        uint64_t per = w.size();
        out.push_back(space(fmt("run%u", n), fmt("runs of %u words, each of %zu values, counted and searched from every word", n, w.size()), tot / per, [n, w, per](uint64_t i) {
            Scenario s;
            for (uint64_t j = 0; j < per; j++) {
                Str r;
                uint64_t v = i * per + j;
                for (unsigned k = 0; k < n; k++) { r += wordStr(w[v % w.size()]); v /= w.size(); }
                s.keys.push_back(r);
            }
            return s;
        }));
    }
    return out;
}

int main(int argc, char** argv) {
    std::vector<Prop> p = {{"C32", checkCounting, countingSpaces, 60}};
    return mainFor(argc, argv, p);
}
