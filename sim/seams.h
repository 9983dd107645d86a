// Seams: every call by which the code under test (OpenCompGraph, OpenImageIO, OpenEXR, libpng, libtiff,
// the Rust standard library ...) meets the outside world goes through the functions in seams.cpp, which
// the dynamic linker prefers over the C library's because the executable exports them.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace seams {

enum Kind { K_OPEN_R, K_OPEN_W, K_READ, K_WRITE, K_CLOSE, K_STAT, K_ANY, K_N };

// What happens at the nth call of a kind, counted from the start of the current operation.
struct Fault {
    Kind kind;
    int nth;             // 1-based
    bool sticky;         // also at every later call of the kind in this operation
    std::string action;  // errno name | short | eof | torn | crash | env
    long arg;
    std::string path;    // "" = any file
    std::vector<std::string> env;  // for action env: an environment command
    bool fired = false;
};

extern bool active;                 // false: pass everything through, uncounted
extern std::vector<Fault> faults;   // armed for the current operation
extern uint64_t io_events;          // total intercepted calls on simulated files
extern uint64_t op_count[K_N];      // per kind, in this operation
extern uint64_t sim_ns;             // the simulated clock
extern int64_t sim_step;            // by which each look at it advances it
extern long sim_pages;              // simulated physical memory in pages
extern uint64_t rng_state;          // feeds getrandom
extern uint64_t clock_calls;
extern bool sys_full;               // sticky full disk until healed
extern long quota;                  // bytes still writable, -1: no limit
extern bool split_reads;            // reads return at most 7 bytes... (legal short reads)
void init();
void set_root(const std::string &root);
void op_begin();
extern void (*env_hook)(const std::vector<std::string> &);
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern char *log_base;
extern size_t log_cap;
extern size_t *log_len;
extern bool log_io;

// Deterministic threads: real threads, one runs at a time, the plan decides which.
extern bool par;
extern std::vector<int> schedule;
extern size_t sched_pos;
extern uint64_t sched_switches, sched_points;
void par_run(std::vector<void (*)(void *)> fns, std::vector<void *> args);
void sched_point(const char *what);
}
