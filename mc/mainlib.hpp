// Command line, result file and replay shared by the model-checking programs.
#pragma once
#include "engine.hpp"

namespace mc {

struct Prop {
    const char* id;
    CheckFn check;
    std::function<std::vector<Space>(bool thorough)> spaces;
    double limit_s;
};

inline Str jesc(const Str& s) {
    Str o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

inline int mainFor(int argc, char** argv, std::vector<Prop> props) {
    Str prop, out, replay, replaydir = "/tmp", only;
    bool thorough = false;
    int workers = 8;
    for (int i = 1; i < argc; i++) {
        Str a = argv[i];
        auto next = [&]() -> Str { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") prop = next();
        else if (a == "--tier") thorough = next() == "thorough";
        else if (a == "--out") out = next();
        else if (a == "--replay") replay = next();
        else if (a == "--replaydir") replaydir = next();
        else if (a == "--workers") workers = atoi(next().c_str());
        else if (a == "--space") only = next();
    }
    Scenario rs;
    if (!replay.empty()) rs = readScenario(replay, &prop, 0);
    for (auto& p : props) {
        if (prop != p.id) continue;
        Engine e;
        e.check = p.check;
        e.workers = workers;
        e.limit_s = p.limit_s > 0 ? p.limit_s : 60;
        if (!replay.empty()) {
            Str msg;
            printf("replaying %s on %s\n", prop.c_str(), scenarioText(rs).c_str());
            if (e.isolated(rs, 4 * e.limit_s, &msg) == 1) { printf("FAILS: %s\n", msg.c_str()); return 1; }
            printf("passes\n");
            return 0;
        }
        e.spaces = p.spaces(thorough);
        if (!only.empty()) {
            std::vector<Space> k;
            for (auto& s : e.spaces) if (("," + only + ",").find("," + s.name + ",") != Str::npos) k.push_back(s);
            e.spaces = k;
        }
        if (e.spaces.empty()) { fprintf(stderr, "no spaces\n"); return 2; }
        double t0 = now();
        Result r = e.run();
        double dt = now() - t0;
        Str rp;
        if (r.violated) {
            rp = replaydir + "/" + prop + "-" + r.space + "-" + fmt("%llu", (unsigned long long)r.index) + ".txt";
            FILE* f = fopen(rp.c_str(), "w");
            if (f) {
                fprintf(f, "property %s\nspace %s\n", prop.c_str(), r.space.c_str());
                Str m = r.msg;
                for (auto& ch : m) if (ch == '\n') ch = ' ';
                fprintf(f, "# %s\n", m.c_str());
                writeScenario(f, r.sc);
                fclose(f);
            }
        }
        if (!out.empty()) {
            FILE* f = fopen(out.c_str(), "w");
            if (!f) { perror("out"); return 2; }
            fprintf(f, "{\"property\":%s,\"status\":%s,\"msg\":%s,\"replay\":%s,\"wall\":%.2f,\n", jesc(prop).c_str(), r.violated ? "\"violated\"" : r.error ? "\"error\"" : "\"ok\"", jesc(r.msg).c_str(), jesc(rp).c_str(), dt);
            fprintf(f, "\"scenarios\":%llu,\"distinct\":%llu,\n\"counters\":[", (unsigned long long)r.scenarios, (unsigned long long)r.distinct);
            for (int i = 0; i < C_NUM; i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)r.counters[i]);
            fprintf(f, "],\n\"hist\":[");
            for (int i = 0; i < 64; i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)r.hist[i]);
            fprintf(f, "],\n\"spaces\":[");
            for (size_t i = 0; i < e.spaces.size(); i++) fprintf(f, "%s\n {\"name\":%s,\"members\":%llu,\"describe\":%s}", i ? "," : "", jesc(e.spaces[i].name).c_str(), (unsigned long long)e.spaces[i].count, jesc(e.spaces[i].describe).c_str());
            fprintf(f, "],\n\"samples\":[");
            for (size_t i = 0; i < r.samples.size(); i++) fprintf(f, "%s\n %s", i ? "," : "", jesc(r.samples[i].substr(0, 600)).c_str());
            fprintf(f, "]}\n");
            fclose(f);
        }
        printf("%s %s: %llu scenarios (%llu distinct), %llu operations, %.1f s%s%s\n", prop.c_str(), r.violated ? "VIOLATED" : r.error ? "ERROR" : "held", (unsigned long long)r.scenarios, (unsigned long long)r.distinct, (unsigned long long)r.counters[C_OPS], dt, r.msg.empty() ? "" : " | ", r.msg.c_str());
        return r.violated ? 1 : r.error ? 2 : 0;
    }
    fprintf(stderr, "unknown property '%s'\n", prop.c_str());
    return 2;
}

}  // namespace mc
