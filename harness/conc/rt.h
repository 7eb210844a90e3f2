// Deterministic scheduling of real code: every thread of a program is a fiber of one OS thread, the
// code under test is compiled with -fsanitize=thread and this run time supplies the __tsan_* entry
// points, so every shared memory access, atomic operation and lock is a point where the schedule may
// switch.  Schedules are sequentially consistent interleavings chosen by a seeded strategy.
#pragma once
#include <cstdint>
#include <functional>
#include <string>

namespace rt {
struct config
{
    int strategy = 0;          // 0 random walk, 1 priorities with change points, 2 the given switches only
    unsigned denom = 4;        // random walk: switch with probability 1/denom at a point
    int depth = 2;             // priorities: number of change points
    unsigned expect = 200;     // priorities: expected number of steps
    uint64_t seed = 1;
    int first = 0;             // strategy 2: the thread to start with,
    unsigned at[2] = {0, 0};   // the steps at which to switch
    int to[2] = {0, 0};        // and the threads to switch to
    bool quarantine = true;    // detect uses of freed memory; otherwise reuse freed blocks at once,
    bool pick = false;         // the one freed last or (pick) any of them, or none
};
void reset(const config &c);
void spawn(std::function<void()> f);
const char *run();             // null, or what went wrong
unsigned steps();
int self();                    // index of the running thread, -1 outside
// operations under test: may be preempted between begin and end
uint64_t op_begin();
uint64_t op_end();
uint64_t stamp();
void release_arena();          // forget everything allocated inside operations
void track_setup();            // what operations outside threads allocate is watched as well
struct quiet { quiet(); ~quiet(); int saved; };
void on_crash(const std::string &context);   // what to print if the code crashes
}
