// Simulated OpenCL 1.2 device: objects, in-order queues, work-items as fibers, visibility of writes, failures.
#pragma once
#include "rt.h"
namespace cl {
enum Op { PLATFORM, DEVICE, CONTEXT, QUEUE, PROGRAM, BUILD, KERNEL, BUFFER, ARG, LAUNCH, READ, WRITE, MAP, UNMAP, COPY, FINISH, WAIT, OPS };
extern const char* const op_names[OPS];
struct Cfg {
    bool present = true;        // there is a device
    int groups = 0;             // 0 one group, 1 every work-item its own, 2 any split
    int visibility = 0;         // 0 sequentially consistent, 1 groups see each other's writes as the model allows, 2 work-items as well, 3 drawn per launch
    bool defer = false;         // commands wait until somebody needs them
    bool sequential = true;     // work-items one after another (0) or interleaved
    bool cpu = false;           // device type
    uint64_t max_group = 256;
    uint64_t rng = 1;
    long fail_at = -1; int fail_code = 0; bool lasting = false;   // the k-th fallible call
    long exec_fail_at = -1;     // the k-th launched kernel dies while running, the queue is broken from then on
};
extern Cfg cfg;
extern long calls, launches, op_count[OPS];
extern std::vector<int> call_ops;      // kind of every fallible call so far
extern bool failed; extern int failed_op;
extern uint64_t work_items, groups_run, stale_launches;
struct Live { int mem, program, kernel, event, queue, context; };
Live live();
extern bool no_kernels;                 // the compiler of the device rejects the kernels
void heal();
void restart();                        // count calls and launches from here on
extern int capture_fd;                 // the first program built is written there instead, and the process ends
void compile_captured(const std::string& s);
int code_for(int op, uint32_t r);      // a plausible error code
}
