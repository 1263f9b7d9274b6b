// Controlled scheduler and access monitor under code compiled with -fsanitize=thread.
#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { RT_MAXT = 4, RT_MAXPLAN = 8, RT_LOG = 1 << 23 };
struct RtSwitch { uint32_t point; uint8_t to; };   // at this scheduling point, run thread `to`
struct RtPoint { uint8_t cur, enabled, forced; };  // who is about to run, who could, is a switch free of charge
struct RtResult {
    uint32_t points;          // scheduling points of the execution
    uint32_t taken;           // planned switches that were reached
    int deadlock;
    int overflow;             // more points than RT_LOG
    uint64_t accesses;        // monitored accesses, private ones included
    uint64_t shared;          // accesses to memory the thread does not own
    uint64_t shared_writes;
    int race;
    char what[512];
};
extern struct RtPoint rt_log[RT_LOG];
// Runs fn(0..n-1) on n threads, one at a time, switching only at the planned points, at ends and at blocking.
void rt_run(int n, void (*fn)(int), const struct RtSwitch* plan, int nplan, struct RtResult* out);
void rt_point(void);          // an explicit scheduling point (operation boundary)
#ifdef __cplusplus
}
#endif
