// Small things shared by components.cpp and bench_main.cpp.
#pragma once
#include "alloc.hpp"
#include "checks.hpp"
#include "mainlib.hpp"

using namespace mc;
typedef std::vector<Space> Spaces;
typedef mc::Str Str;
using surf::level_t;
using surf::position_t;
using surf::word_t;

static Space space(const Str& name, const Str& describe, uint64_t n, std::function<Scenario(uint64_t)> get) {
    Space s;
    s.name = name; s.describe = describe; s.count = n; s.get = get;
    return s;
}
static uint64_t hashOf(const Str& s) { uint64_t h = 1; for (unsigned char c : s) h = h * 1000003 + c; return h; }
#define FAILIF(cond, ...) do { if (cond) env.fail(fmt(__VA_ARGS__) + " | " + scenarioText(sc)); } while (0)

