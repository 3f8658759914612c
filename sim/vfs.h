// In-memory file system behind the system calls of the code under test, with faults.
#pragma once
#include "rt.h"
#include <functional>
#include <map>
#include <string>
#include <vector>
namespace vfs {
struct File { std::string data; bool dir = false, read_only = false; };
extern std::map<std::string, File> files;
enum Op { OPEN, READ, WRITE, CLOSE, OTHER, OPS };
extern const char* const op_names[OPS];
struct Plan {
    bool benign_short = false, benign_intr = false;   // short and interrupted transfers
    long fail_at[OPS] = {-1, -1, -1, -1, -1};         // the k-th operation of that kind fails
    int fail_errno[OPS] = {0, 0, 0, 0, 0};
    bool lasting[OPS] = {false, false, false, false, false};
    bool partial = false;                             // the failing write leaves some bytes
    bool lose_on_close = false;                       // a failing close loses what was written last
    long disk = -1;                                   // bytes that still fit on the disk
    long kill_at = -1;                                // the process is killed at the k-th operation
    int kill_phase = 0;                               // before, in the middle of, after its effect
};
extern Plan plan;
extern long count[OPS], total;
extern bool hard_failure;                             // a fault that is not benign fired
extern std::function<void(const std::string& path, const char* what, const std::string& before)> changed;  // after every change of a file
extern std::function<void(const std::string& path)> truncating;
extern bool write_refused;                            // a write was answered with an error
extern bool exited; extern int exit_status;
void reset();
}
