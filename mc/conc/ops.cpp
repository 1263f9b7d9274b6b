// C15: threads that query one filter (or their own filters) at the same time.
// Every schedule with at most `cfg-param` preemptions is executed on the real code, which the compiler
// instruments; rt.cpp schedules it.  Compiled with -fsanitize=thread, linked with rt.cpp instead of libtsan.
#include "../mainlib.hpp"
#include "../checks.hpp"
#include "rt.h"

using namespace mc;

// One operation of a thread: kind and two arguments.
struct Op { char kind; Str a, b; };
static Str enc(int thread, const Op& o) { return Str(1, (char)thread) + Str(1, o.kind) + Str(1, (char)o.a.size()) + o.a + o.b; }
static const char* opName(char k) {
    switch (k) {
    case 'P': case 'p': return "lookupKey"; case 'R': return "lookupRange"; case 'C': return "approxCount";
    case 'X': return "approxCount(iterators)"; case 'G': return "seek forward"; case 'L': return "seek backward";
    case 'F': return "walk from the first"; case 'B': return "walk from the last"; case 'K': return "compare";
    case 'W': return "sweep over many keys";
    case 'S': return "serialize"; case 'M': return "sizes"; case 'D': return "deSerialize and query"; case 'N': return "build and query";
    }
    return "?";
}

struct Shared2 { surf::SuRF* f; const char* image; const Config* cfg; const Strs* sweep; };
static Shared2 world;
static std::vector<std::vector<Op> > prog;   // per thread
static std::vector<std::vector<Str> > answers;

static void put(Str& o, const Str& s) { o += s; o += '|'; }
static void put(Str& o, uint64_t v) { o.append((const char*)&v, 8); o += '|'; }
static void describe(Str& o, const surf::SuRF::Iter& it) {
    put(o, it.isValid());
    put(o, it.getFpFlag());
    if (!it.isValid()) return;
    put(o, it.getKey());
    surf::word_t w = 0;
    int n = it.getSuffix(&w);
    put(o, n);
    if (n) put(o, w);
    unsigned bits = 0;
    put(o, it.getKeyWithSuffix(&bits));
    put(o, bits);
}
static Str perform(surf::SuRF* f, const Op& op) {
    Str o;
    switch (op.kind) {
    case 'P': case 'p': put(o, f->lookupKey(op.a)); break;
    case 'R': put(o, f->lookupRange(op.a, true, op.b, true)); put(o, f->lookupRange(op.a, false, op.b, false)); break;
    case 'C': put(o, f->approxCount(op.a, op.b)); break;
    case 'X': {
        surf::SuRF::Iter i = f->moveToKeyGreaterThan(op.a, true), j = f->moveToKeyGreaterThan(op.b, true);
        if (i.isValid() && j.isValid()) put(o, f->approxCount(&i, &j));
        break;
    }
    case 'G': case 'g': { surf::SuRF::Iter i = f->moveToKeyGreaterThan(op.a, true); describe(o, i); if (i.isValid()) { i++; describe(o, i); } break; }
    case 'L': case 'l': { surf::SuRF::Iter i = f->moveToKeyLessThan(op.a, true); describe(o, i); if (i.isValid()) { i--; describe(o, i); } break; }
    case 'F': { surf::SuRF::Iter i = f->moveToFirst(); for (int n = 0; n < 3 && i.isValid(); n++) { describe(o, i); i++; } break; }
    case 'B': { surf::SuRF::Iter i = f->moveToLast(); for (int n = 0; n < 3 && i.isValid(); n++) { describe(o, i); i--; } break; }
    case 'K': { surf::SuRF::Iter i = f->moveToKeyGreaterThan(op.a, true); if (i.isValid()) put(o, (uint64_t)(int64_t)i.compare(op.b)); break; }
    case 'W': {   // every listed key (or every second one, ...): lookups, seeks both ways, short ranges
        size_t from = op.a.empty() ? 0 : (unsigned char)op.a[0], step = op.b.empty() ? 1 : (unsigned char)op.b[0];
        const Strs& w = *world.sweep;
        for (size_t i = from; i < w.size(); i += step) {
            put(o, f->lookupKey(w[i]));
            put(o, f->lookupRange(w[i], true, w[i] + "\x7f", false));
            put(o, f->approxCount(w[i], w[w.size() - 1]));
            surf::SuRF::Iter g = f->moveToKeyGreaterThan(w[i], false), l = f->moveToKeyLessThan(w[i], false);
            put(o, g.isValid()); put(o, l.isValid());
            if (g.isValid()) put(o, (uint64_t)(int64_t)g.compare(w[i]));
        }
        break;
    }
    case 'S': { char* d = f->serialize(); put(o, Str(d, f->serializedSize())); delete[] d; break; }
    case 'M': put(o, f->serializedSize()); put(o, f->getMemoryUsage()); put(o, f->getHeight()); put(o, f->getSparseStartLevel()); break;
    case 'D': {
        surf::SuRF* g = surf::SuRF::deSerialize((char*)world.image);
        put(o, g->lookupKey(op.a)); put(o, g->lookupRange(op.a, true, op.b, false)); put(o, g->approxCount(op.a, op.b));
        g->destroy();
        delete g;
        break;
    }
    case 'N': {
        Strs k;
        k.push_back(op.a); k.push_back(op.a + op.b); k.push_back(op.a + op.b + "z"); k.push_back("zz" + op.a); k.push_back("zzzz");
        sortUnique(k);
        const Config& c = *world.cfg;
        surf::SuRF* g = new surf::SuRF(k, c.dense, c.ratio, stype(c.type), c.h, c.r);
        put(o, g->lookupKey(op.a)); put(o, g->lookupRange(op.a, true, op.b, false)); put(o, g->approxCount(op.a, op.a + op.b));
        for (surf::SuRF::Iter i = g->moveToFirst(); i.isValid(); i++) describe(o, i);
        g->destroy();
        delete g;
        break;
    }
    }
    return o;
}
static void threadBody(int t) {
    for (size_t i = 0; i < prog[t].size(); i++) {
        rt_point();
        Op op = prog[t][i];      // a copy in memory of its own
        Str a = perform(world.f, op);
        answers[t][i].swap(a);
    }
}

struct Explorer {
    Env& env;
    const Scenario& sc;
    int n, bound;
    uint64_t runs = 0, points = 0, accesses = 0, maxpoints = 0;
    std::vector<std::vector<Str> > want;
    std::vector<RtSwitch> plan;
    Str planText() {
        Str o;
        for (auto& p : plan) o += fmt("%sto thread %d at point %u", o.empty() ? "switch " : ", ", p.to, p.point);
        return o.empty() ? "no switch" : o;
    }
    [[noreturn]] void fail(const Str& m) { env.fail(m + " | schedule: " + planText() + " | " + scenarioText(sc)); }
    // Each run queries a filter of its own that nothing has touched before: what a query leaves behind in
    // the filter is not there already, and a schedule always runs from the same state.
    void fresh() {
        static Filter* cur = 0;
        delete cur;
        world.f = 0;
        cur = new Filter(sc.keys, sc.cfg);
        world.f = cur->s;
    }
    void firstRun() {
        RtResult r;
        for (int t = 0; t < n; t++) for (auto& a : answers[t]) a.clear();
        fresh();
        rt_run(n, threadBody, 0, 0, &r);
        runs++;
        if (r.race || r.deadlock) fail(r.what);
    }
    void explore(int preemptions, int depth) {
        RtResult r;
        fresh();
        for (int t = 0; t < n; t++) for (auto& a : answers[t]) a.clear();
        rt_run(n, threadBody, plan.data(), (int)plan.size(), &r);
        runs++;
        points += r.points;
        accesses += r.accesses;
        maxpoints = std::max<uint64_t>(maxpoints, r.points);
        if (r.race || r.deadlock) fail(r.what);
        for (int t = 0; t < n; t++)
            for (size_t i = 0; i < answers[t].size(); i++)
                if (answers[t][i] != want[t][i])
                    fail(fmt("operation %zu of thread %d (%s %s %s) answers differently than alone: %s instead of %s", i, t, opName(prog[t][i].kind), show(prog[t][i].a).c_str(), show(prog[t][i].b).c_str(), hex(answers[t][i]).substr(0, 120).c_str(), hex(want[t][i]).substr(0, 120).c_str()));
        if (r.overflow) fail("more scheduling points than the monitor can record");
        if (r.taken != plan.size()) return;   // a planned switch was impossible: same schedule as the parent
        if (depth >= RT_MAXPLAN) return;
        uint32_t from = plan.empty() ? 0 : plan.back().point + 1;
        std::vector<RtPoint> log(rt_log + from, rt_log + r.points);
        for (size_t i = 0; i < log.size(); i++) {
            int cost = log[i].forced ? 0 : 1;
            if (preemptions < cost) continue;
            for (int t = 0; t < n; t++) {
                if (t == log[i].cur || !(log[i].enabled >> t & 1)) continue;
                plan.push_back({(uint32_t)(from + i), (uint8_t)t});
                explore(preemptions - cost, depth + 1);
                plan.pop_back();
            }
        }
    }
};

// Scenario: keys, cfg; queries = encoded operations; param = preemption bound
static void checkConcurrent(Env& env, const Scenario& sc) {
    env.count(C_STATES);
    Filter f(env, sc);
    std::vector<std::vector<Op> > p;
    for (auto& q : sc.queries) {
        size_t t = (unsigned char)q[0], la = (unsigned char)q[2];
        if (p.size() <= t) p.resize(t + 1);
        p[t].push_back({q[1], q.substr(3, la), q.substr(3 + la)});
    }
    prog = p;
    char* image = f->serialize();
    uint64_t isize = f->serializedSize();
    Str before(image, isize);
    Strs sweep;   // the keys and misses next to them, in the first, a middle and the last byte
    for (auto& k : sc.keys) {
        sweep.push_back(k);
        sweep.push_back(k + "\x01");
        sweep.push_back(k.substr(0, k.size() - 1));
        for (size_t at : {(size_t)0, k.size() / 2, k.size() - 1}) for (int d : {1, 255}) { Str m = k; m[at] = (char)(m[at] + d); sweep.push_back(m); }
    }
    sortUnique(sweep);
    if (sweep.size() > 60) {
        Strs some;
        for (size_t i = 0; i < 60; i++) some.push_back(sweep[i * sweep.size() / 60]);
        sweep.swap(some);
    }
    world = {f.s, image, &sc.cfg, &sweep};
    Explorer e{env, sc, (int)p.size(), sc.param};
    auto alone = [&]() {
        std::vector<std::vector<Str> > w(p.size());
        for (size_t t = 0; t < p.size(); t++) for (auto& op : p[t]) w[t].push_back(perform(f.s, op));
        return w;
    };
    answers.assign(p.size(), std::vector<Str>());
    for (size_t t = 0; t < p.size(); t++) answers[t].resize(p[t].size());
    e.firstRun();   // before anything was asked at all
    e.want = alone();
    e.explore(e.bound, 0);
    if (alone() != e.want) env.fail("after the threads ended the same operations answer differently | " + scenarioText(sc));
    char* again = f->serialize();
    if (Str(again, isize) != before) env.fail("concurrent queries changed the serialized filter | " + scenarioText(sc));
    if (Str(image, isize) != before) env.fail("concurrent queries changed the shared image | " + scenarioText(sc));
    delete[] again;
    delete[] image;
    env.count(C_CHECKS, e.runs);
    env.count(C_OPS, e.points);
    env.count(C_POS, e.accesses);
}

struct Base { Strs keys; Strs args; Config cfg; };
static std::vector<Base> bases(bool big) {
    std::vector<Base> out;
    auto add = [&](Strs k, Strs args, const Configs& cs) { sortUnique(k); for (auto& c : cs) out.push_back({k, args, c}); };
    Configs few = cross({{true, 16}, {false, 16}}, {{T_NONE, 0, 0}, {T_MIXED, 4, 8}});
    few.push_back(cf(true, 0, T_REAL, 0, 8));
    few.push_back(cf(true, 0, T_HASH, 8, 0));
    if (!big) {
        add({"a", "ab", "abcd", "b", "bcxx", "bdxx"}, {"ab", "bcxx", "bb"}, few);
        add({Str(1, '\0'), "\xff", "\xff\xff", "m"}, {"\xff", Str(1, '\0'), "n"}, few);
        return out;
    }
    // a wide root, nodes of many labels, a deep chain, the dense/sparse boundary inside
    Strs w;
    for (int c = 0; c < 256; c += 3) w.push_back(Str(1, (char)c) + "q" + Str(1, (char)c));
    for (int c = 0; c < 40; c++) w.push_back("mm" + Str(1, (char)(c * 6)) + "t");
    Strs d;
    for (int c = 0; c < 20; c++) d.push_back(Str(c * 3 + 1, 'x') + "yz");
    add(w, {"mm\x30t", "\xc9q\xc9", "mz"}, few);
    add(d, {Str(31, 'x') + "yz", Str(4, 'x') + "yz", Str(20, 'x') + "z"}, few);
    Strs b;
    for (auto& s : allStrings("ab", 3, 3)) b.push_back(Str(130, 'p') + s);
    b.push_back("q");
    add(b, {Str(130, 'p') + "aba", "q", Str(129, 'p') + "z"}, cross({{true, 1}}, {{T_NONE, 0, 0}, {T_REAL, 0, 8}}));
    return out;
}
static std::vector<Op> opList(const Strs& args, bool more) {
    std::vector<Op> v;
    Str lo = std::min(args[0], args[1]), hi = std::max(args[0], args[1]);
    v.push_back({'P', args[0], ""});
    v.push_back({'P', args[2], ""});
    v.push_back({'R', lo, hi});
    v.push_back({'R', args[2], args[2] + "~"});
    v.push_back({'C', lo, hi});
    v.push_back({'X', lo, hi});
    v.push_back({'G', args[0], ""});
    v.push_back({'L', args[1], ""});
    v.push_back({'K', args[2], args[0]});
    v.push_back({'F', "", ""});
    v.push_back({'B', "", ""});
    v.push_back({'M', "", ""});
    if (more) {
        Str other = args[0];
        other[0] = (char)(other[0] + 5);
        v.push_back({'p', other, ""});            // no key starts like this
        v.push_back({'p', args[1] + "\x01", ""});
        v.push_back({'g', args[2] + "\xff\xff\xff\xff", ""});
        v.push_back({'l', "", ""});
        v.push_back({'S', "", ""});
        v.push_back({'D', lo, hi});
        v.push_back({'N', "k", "l"});
    }
    return v;
}
// every unordered pair of operations, one per thread
static Space pairSpace(const Str& name, const std::vector<Base>& bs, bool more, int bound, const Str& kinds = "") {
    struct Item { size_t b, i, j; };
    auto items = std::make_shared<std::vector<Item> >();
    auto base = std::make_shared<std::vector<Base> >(bs);
    for (size_t b = 0; b < bs.size(); b++) {
        std::vector<Op> ops = opList(bs[b].args, more);
        auto in = [&](size_t i) { return kinds.empty() || kinds.find(ops[i].kind) != Str::npos; };
        for (size_t i = 0; i < ops.size(); i++) for (size_t j = i; j < ops.size(); j++) if (in(i) && in(j)) items->push_back({b, i, j});
    }
    Space s;
    s.name = name;
    s.count = items->size();
    s.describe = fmt("%zu filters x every pair of %zu operations%s, one per thread, every schedule with at most %d preemptions", bs.size(), opList(bs[0].args, more).size(), kinds.empty() ? "" : (" of the kinds " + kinds).c_str(), bound);
    s.get = [=](uint64_t i) {
        const Item& it = (*items)[i];
        const Base& b = (*base)[it.b];
        std::vector<Op> ops = opList(b.args, more);
        Scenario sc;
        sc.keys = b.keys;
        sc.cfg = b.cfg;
        sc.param = bound;
        sc.queries = {enc(0, ops[it.i]), enc(1, ops[it.j])};
        return sc;
    };
    return s;
}
// three threads with one operation each, or two threads with two operations each
static Space tripleSpace(const Str& name, const std::vector<Base>& bs, const Str& kinds, bool two_by_two, int bound) {
    auto base = std::make_shared<std::vector<Base> >(bs);
    size_t k = kinds.size();
    Space s;
    s.name = name;
    s.count = bs.size() * (two_by_two ? k * k * k * k : k * k * k);
    s.describe = fmt("%zu filters x %s over the operation kinds %s, every schedule with at most %d preemptions", bs.size(), two_by_two ? "two threads with two operations each" : "three threads with one operation each", kinds.c_str(), bound);
    s.get = [=](uint64_t i) {
        const Base& b = (*base)[i % base->size()];
        i /= base->size();
        std::vector<Op> ops = opList(b.args, true);
        Scenario sc;
        sc.keys = b.keys;
        sc.cfg = b.cfg;
        sc.param = bound;
        for (int t = 0; t < (two_by_two ? 4 : 3); t++) {
            char want = kinds[i % k];
            i /= k;
            // the t-th operation of that kind, so that threads differ in their arguments
            std::vector<Op> c;
            for (auto& o : ops) if (o.kind == want) c.push_back(o);
            sc.queries.push_back(enc(two_by_two ? t / 2 : t, c[t % c.size()]));
        }
        return sc;
    };
    return s;
}
// threads that each sweep over all keys and their neighbours: two or three threads, the same keys or interleaved ones
static Space sweepSpace(const Str& name, const std::vector<Base>& bs, int bound) {
    auto base = std::make_shared<std::vector<Base> >(bs);
    Space s;
    s.name = name;
    s.count = bs.size() * 3;
    s.describe = fmt("%zu filters x {two threads sweeping the same keys, two threads the even and the odd ones, three threads every third}: lookups, ranges, counts and seeks of every key and of keys that differ in the first, middle or last byte; every schedule with at most %d preemptions", bs.size(), bound);
    s.get = [=](uint64_t i) {
        const Base& b = (*base)[i / 3];
        Scenario sc;
        sc.keys = b.keys;
        sc.cfg = b.cfg;
        sc.param = bound;
        int n = i % 3 == 2 ? 3 : 2, step = i % 3 + 1;
        for (int t = 0; t < n; t++) sc.queries.push_back(enc(t, {'W', Str(1, (char)(i % 3 ? t : 0)), Str(1, (char)step)}));
        return sc;
    };
    return s;
}
static std::vector<Space> concSpaces(bool t) {
    std::vector<Base> small = bases(false), big = bases(true), one(small.begin(), small.begin() + 2);
    std::vector<Space> s;
    s.push_back(pairSpace("pairs", small, true, t ? 2 : 1));
    std::vector<Base> pick = {big[0], big[9], big[12]};
    s.push_back(pairSpace("bigpairs", t ? big : pick, true, 1, t ? "" : "PRCLD"));
    s.push_back(pairSpace("pairs2", t ? one : std::vector<Base>(one.begin(), one.begin() + 1), false, 2, t ? "" : "PRC"));
    s.push_back(sweepSpace("sweeps", small, 0));
    s.push_back(sweepSpace("bigsweeps", big, 0));
    if (t) s.push_back(sweepSpace("sweeps1", one, 1));
    s.push_back(tripleSpace("three", t ? small : one, t ? "PRCGLX" : "RCG", false, 1));
    s.push_back(tripleSpace("twobytwo", t ? small : one, t ? "RCGL" : "RC", true, t ? 2 : 1));
    if (t) s.push_back(tripleSpace("three2", one, "PRC", false, 2));
    return s;
}

int main(int argc, char** argv) {
    return mainFor(argc, argv, {{"C15", checkConcurrent, concSpaces, 120}});
}
