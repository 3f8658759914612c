#define CL_TARGET_OPENCL_VERSION 120
#define CL_USE_DEPRECATED_OPENCL_1_1_APIS
#define CL_USE_DEPRECATED_OPENCL_1_0_APIS
#include "cl.h"
#include <CL/cl.h>
#include <CL/cl_ext.h>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
using namespace sim;
namespace cl {
const char* const op_names[OPS] = {"getting platforms", "getting devices", "creating a context", "creating a queue", "creating a program", "building the program", "creating a kernel", "creating a buffer", "setting a kernel argument", "launching a kernel", "reading a buffer", "writing a buffer", "mapping a buffer", "unmapping a buffer", "copying a buffer", "finishing", "waiting for events"};
Cfg cfg;
long calls, launches, op_count[OPS];
std::vector<int> call_ops;
bool failed, no_kernels; int failed_op;
uint64_t work_items, groups_run, stale_launches;
static bool broken;
static uint64_t rnd() { uint64_t z = (cfg.rng += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static uint32_t rnd(uint32_t n) { return (uint32_t)(rnd() % n); }
int code_for(int op, uint32_t r) {
    static const int any[] = {CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY};
    switch (op) {
    case PLATFORM: { static const int c[] = {CL_PLATFORM_NOT_FOUND_KHR, CL_OUT_OF_HOST_MEMORY}; return c[r % 2]; }
    case DEVICE: { static const int c[] = {CL_DEVICE_NOT_FOUND, CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY}; return c[r % 3]; }
    case CONTEXT: { static const int c[] = {CL_DEVICE_NOT_AVAILABLE, CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY}; return c[r % 3]; }
    case BUILD: { static const int c[] = {CL_BUILD_PROGRAM_FAILURE, CL_COMPILER_NOT_AVAILABLE, CL_OUT_OF_HOST_MEMORY, CL_OUT_OF_RESOURCES}; return c[r % 4]; }
    case BUFFER: { static const int c[] = {CL_MEM_OBJECT_ALLOCATION_FAILURE, CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY, CL_INVALID_BUFFER_SIZE}; return c[r % 4]; }
    case KERNEL: { static const int c[] = {CL_INVALID_KERNEL_NAME, CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY}; return c[r % 3]; }
    case LAUNCH: { static const int c[] = {CL_OUT_OF_RESOURCES, CL_MEM_OBJECT_ALLOCATION_FAILURE, CL_OUT_OF_HOST_MEMORY, CL_INVALID_WORK_GROUP_SIZE}; return c[r % 4]; }
    case READ: case WRITE: case COPY: { static const int c[] = {CL_OUT_OF_RESOURCES, CL_MEM_OBJECT_ALLOCATION_FAILURE, CL_OUT_OF_HOST_MEMORY}; return c[r % 3]; }
    case MAP: { static const int c[] = {CL_MAP_FAILURE, CL_OUT_OF_RESOURCES, CL_MEM_OBJECT_ALLOCATION_FAILURE}; return c[r % 3]; }
    case WAIT: { static const int c[] = {CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST, CL_OUT_OF_RESOURCES}; return c[r % 2]; }
    default: return any[r % 2];
    }
}
// one fallible call; 0 or the error it answers
static int fallible(Op op) {
    long k = calls++; ++op_count[op]; ++R->io_ops; call_ops.push_back(op);
    if (broken && op >= ARG && op != ARG) { failed = true; failed_op = op; return CL_OUT_OF_RESOURCES; }
    if (cfg.fail_at >= 0 && (k == cfg.fail_at || (cfg.lasting && k >= cfg.fail_at))) {
        int c = k == cfg.fail_at && cfg.fail_code ? cfg.fail_code : code_for(op, (uint32_t)k);
        if (!failed) { failed = true; failed_op = op; }
        fault(F_CL_ERROR); desc("  t=%llu device call #%ld (%s) fails with %d%s", (unsigned long long)now(), k, op_names[op], c, cfg.lasting ? ", as do all later ones" : "");
        return c;
    }
    return 0;
}
void restart() { calls = launches = 0; call_ops.clear(); failed = false; }
void heal() { cfg.fail_at = cfg.exec_fail_at = -1; cfg.lasting = false; cfg.present = true; broken = false; }

struct Module { std::string so, error; void* h = nullptr; bool barrier = false, locals = false; std::map<std::string, std::vector<std::string>> kernels; std::map<std::string, void*> fn; };
static std::map<std::string, std::shared_ptr<Module>>& modules() { static auto* m = new std::map<std::string, std::shared_ptr<Module>>; return *m; }
static std::shared_ptr<Module> compile(const std::string& src, const std::string& opts) {
    char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) error("getcwd");
    std::string key = opts + "\n" + cwd + "\n" + src;
    auto it = modules().find(key); if (it != modules().end()) return it->second;
    auto m = std::make_shared<Module>();
    const char* b = getenv("VERIF_BUILD"); std::string work = std::string(b ? b : "/tmp") + "/clcache";
    char t[] = "/tmp/clsrcXXXXXX"; int fd = mkstemp(t); if (fd < 0 || write(fd, src.data(), src.size()) != (ssize_t)src.size()) error("cannot write the kernel source"); close(fd);
    const char* me = getenv("VERIF_SIM"); if (!me) error("VERIF_SIM is not set");
    std::string cmd = std::string("python3 ") + me + "/clcc.py " + t + " " + work + " " + opts + " 2>&1";
    FILE* p = popen(cmd.c_str(), "r"); std::string out; char buf[1024]; size_t n; while ((n = fread(buf, 1, sizeof buf, p)) > 0) out.append(buf, n);
    int rc = pclose(p); unlink(t);
    if (rc == 3 << 8) { m->error = out; }
    else if (rc) error("the kernel compiler fails: %s", out.c_str());
    else {
        while (!out.empty() && out.back() == '\n') out.pop_back();
        m->so = out;
        FILE* f = fopen((out + ".meta").c_str(), "r"); char line[4096];
        if (!f) error("no %s.meta", out.c_str());
        while (fgets(line, sizeof line, f)) {
            std::vector<std::string> w; for (char* q = strtok(line, " \n"); q; q = strtok(nullptr, " \n")) w.push_back(q);
            if (w.empty()) continue;
            if (w[0] == "barrier" && w.size() == 2 && (w[1] == "0" || w[1] == "1")) m->barrier = w[1] == "1";
            else m->kernels[w[0]] = std::vector<std::string>(w.begin() + 1, w.end());
        }
        fclose(f);
        m->h = dlopen(out.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!m->h) { const char* e = dlerror(); m->error = std::string("the kernels do not link: ") + (e ? e : ""); }   // a function without a body, or a built-in function the simulated device lacks
        else for (auto& k : m->kernels) { m->fn[k.first] = dlsym(m->h, k.first.c_str()); if (!m->fn[k.first]) error("no kernel %s", k.first.c_str()); }
    }
    modules()[key] = m; return m;
}
int capture_fd = -1;
void compile_captured(const std::string& s) { size_t z = s.find('\0'); if (z != std::string::npos) compile(s.substr(z + 1), s.substr(0, z)); }
}
using namespace cl;

struct Obj { int refs = 1; virtual ~Obj() {} };
struct _cl_platform_id { int x; }; struct _cl_device_id { int x; };
struct _cl_context : Obj {};
struct _cl_mem : Obj { char* data = nullptr; size_t size = 0; cl_mem_flags flags = 0; char* host = nullptr; cl_context ctx; };
struct _cl_program : Obj { std::string src, opts; std::shared_ptr<Module> m; cl_build_status status = CL_BUILD_NONE; std::string log; cl_context ctx; };
struct Arg { bool set = false; std::string bytes; cl_mem mem = nullptr; size_t local = 0; };
struct _cl_kernel : Obj { cl_program prog; std::string name; std::vector<std::string> types; std::vector<Arg> args; void* fn; };
struct _cl_event : Obj { int status = CL_QUEUED; cl_command_queue q; cl_command_type type; };
struct Cmd { std::function<int()> run; cl_event ev; };
struct _cl_command_queue : Obj { cl_context ctx; std::vector<Cmd> pending; bool busy = false; };
static _cl_platform_id the_platform; static _cl_device_id the_device;
static std::vector<Obj*>& objects() { static auto* v = new std::vector<Obj*>; return *v; }
template<class T> static T* make() { T* o = new T; objects().push_back(o); return o; }
namespace cl { Live live() { Live l{}; for (Obj* o : objects()) if (o->refs > 0) { if (dynamic_cast<_cl_mem*>(o)) ++l.mem; else if (dynamic_cast<_cl_program*>(o)) ++l.program; else if (dynamic_cast<_cl_kernel*>(o)) ++l.kernel; else if (dynamic_cast<_cl_event*>(o)) ++l.event; else if (dynamic_cast<_cl_command_queue*>(o)) ++l.queue; else ++l.context; } return l; } }
// a handle the host must not use any more is undefined behaviour on a real device
template<class T> static bool valid(T* o, const char* what) {
    if (!o) return false;
    for (Obj* p : objects()) if (p == (Obj*)o) { if (o->refs <= 0) { if (!policy.crash_is_violation) skip("released object"); fail("device-object", "a released device object is used: %s", what); } return true; }
    if (!policy.crash_is_violation) skip("wild object");
    fail("device-object", "something that is no device object is used: %s", what);
}
#define CLX extern "C" __attribute__((visibility("default")))
#define API Harness api_h; 
static cl_int info(const void* v, size_t n, size_t sz, void* out, size_t* ret) {
    if (ret) *ret = n;
    if (out) { if (sz < n) return CL_INVALID_VALUE; memcpy(out, v, n); }
    return CL_SUCCESS;
}
static cl_int infos(const std::string& s, size_t sz, void* out, size_t* ret) { return info(s.c_str(), s.size() + 1, sz, out, ret); }
template<class T> static cl_int infov(T v, size_t sz, void* out, size_t* ret) { return info(&v, sizeof v, sz, out, ret); }

CLX cl_int clGetPlatformIDs(cl_uint n, cl_platform_id* p, cl_uint* num) {
    sync_point(); API; if (int e = fallible(PLATFORM)) return e;
    if (p && n) p[0] = &the_platform; if (num) *num = 1; return CL_SUCCESS;
}
CLX cl_int clGetPlatformInfo(cl_platform_id, cl_platform_info i, size_t sz, void* v, size_t* r) {
    API; switch (i) { case CL_PLATFORM_VERSION: return infos("OpenCL 1.2 simulated", sz, v, r); case CL_PLATFORM_PROFILE: return infos("FULL_PROFILE", sz, v, r); default: return infos("simulated", sz, v, r); case CL_PLATFORM_EXTENSIONS: return infos("", sz, v, r); }
}
CLX cl_int clGetDeviceIDs(cl_platform_id, cl_device_type t, cl_uint n, cl_device_id* d, cl_uint* num) {
    sync_point(); API; if (int e = fallible(DEVICE)) return e;
    bool has = cfg.present && (t & (CL_DEVICE_TYPE_DEFAULT | (cfg.cpu ? CL_DEVICE_TYPE_CPU : CL_DEVICE_TYPE_GPU)));
    if (!cfg.present) { if (!failed) { failed = true; failed_op = DEVICE; } fault(F_CL_NODEVICE); }
    if (num) *num = has; if (!has) return CL_DEVICE_NOT_FOUND;
    if (d && n) d[0] = &the_device; return CL_SUCCESS;
}
CLX cl_int clGetDeviceInfo(cl_device_id, cl_device_info i, size_t sz, void* v, size_t* r) {
    API; switch (i) {
    case CL_DEVICE_TYPE: return infov<cl_device_type>(cfg.cpu ? CL_DEVICE_TYPE_CPU : CL_DEVICE_TYPE_GPU, sz, v, r);
    case CL_DEVICE_PLATFORM: return infov<cl_platform_id>(&the_platform, sz, v, r);
    case CL_DEVICE_VERSION: return infos("OpenCL 1.2 simulated", sz, v, r);
    case CL_DEVICE_OPENCL_C_VERSION: return infos("OpenCL C 1.2", sz, v, r);
    case CL_DEVICE_PROFILE: return infos("FULL_PROFILE", sz, v, r);
    case CL_DEVICE_EXTENSIONS: return infos("cl_khr_global_int32_base_atomics", sz, v, r);
    case CL_DEVICE_NAME: case CL_DEVICE_VENDOR: case CL_DRIVER_VERSION: return infos("simulated", sz, v, r);
    case CL_DEVICE_MAX_WORK_GROUP_SIZE: return infov<size_t>(cfg.max_group, sz, v, r);
    case CL_DEVICE_MAX_WORK_ITEM_DIMENSIONS: return infov<cl_uint>(3, sz, v, r);
    case CL_DEVICE_MAX_WORK_ITEM_SIZES: { size_t m[3] = {cfg.max_group, cfg.max_group, cfg.max_group}; return info(m, sizeof m, sz, v, r); }
    case CL_DEVICE_MAX_COMPUTE_UNITS: return infov<cl_uint>(4, sz, v, r);
    case CL_DEVICE_GLOBAL_MEM_SIZE: case CL_DEVICE_MAX_MEM_ALLOC_SIZE: return infov<cl_ulong>(1ul << 30, sz, v, r);
    case CL_DEVICE_LOCAL_MEM_SIZE: return infov<cl_ulong>(32768, sz, v, r);
    case CL_DEVICE_AVAILABLE: case CL_DEVICE_COMPILER_AVAILABLE: return infov<cl_bool>(CL_TRUE, sz, v, r);
    case CL_DEVICE_ADDRESS_BITS: return infov<cl_uint>(64, sz, v, r);
    default: return infov<cl_ulong>(0, sz, v, r);
    }
}
CLX cl_int clRetainDevice(cl_device_id) { return CL_SUCCESS; }
CLX cl_int clReleaseDevice(cl_device_id) { return CL_SUCCESS; }
#define RETREL(N, T, P, W) CLX cl_int clRetain##N(T o) { API; if (!valid(o, "retaining " W)) return P; ++o->refs; return CL_SUCCESS; } \
    static void gone(T o); CLX cl_int clRelease##N(T o) { API; if (!valid(o, "releasing " W)) return P; if (--o->refs == 0) gone(o); return CL_SUCCESS; }
static void run_all(cl_command_queue q);
RETREL(Context, cl_context, CL_INVALID_CONTEXT, "a context") static void gone(cl_context) {}
RETREL(CommandQueue, cl_command_queue, CL_INVALID_COMMAND_QUEUE, "a queue") static void gone(cl_command_queue q) { q->refs = 1; run_all(q); q->refs = 0; }
RETREL(Event, cl_event, CL_INVALID_EVENT, "an event") static void gone(cl_event) {}
RETREL(Kernel, cl_kernel, CL_INVALID_KERNEL, "a kernel") static void gone(cl_kernel k) { clReleaseProgram(k->prog); }
RETREL(Program, cl_program, CL_INVALID_PROGRAM, "a program") static void gone(cl_program) {}
RETREL(MemObject, cl_mem, CL_INVALID_MEM_OBJECT, "a buffer") static void gone(cl_mem m) {
    // the memory object is deleted after the commands that use it
    for (Obj* o : objects()) if (auto q = dynamic_cast<_cl_command_queue*>(o)) if (q->refs > 0 && !q->pending.empty()) { m->refs = 1; run_all(q); m->refs = 0; }
    if (!m->host) free(m->data);
}
CLX cl_context clCreateContext(const cl_context_properties*, cl_uint, const cl_device_id*, void (*)(const char*, const void*, size_t, void*), void*, cl_int* e) {
    sync_point(); API; if (int c = fallible(CONTEXT)) { if (e) *e = c; return nullptr; }
    if (e) *e = CL_SUCCESS; return make<_cl_context>();
}
CLX cl_int clGetContextInfo(cl_context c, cl_context_info i, size_t sz, void* v, size_t* r) {
    API; if (!valid(c, "asking a context")) return CL_INVALID_CONTEXT;
    switch (i) { case CL_CONTEXT_DEVICES: return infov<cl_device_id>(&the_device, sz, v, r); case CL_CONTEXT_NUM_DEVICES: return infov<cl_uint>(1, sz, v, r); case CL_CONTEXT_REFERENCE_COUNT: return infov<cl_uint>((cl_uint)c->refs, sz, v, r); default: if (r) *r = 0; return CL_SUCCESS; }
}
CLX cl_command_queue clCreateCommandQueue(cl_context c, cl_device_id, cl_command_queue_properties, cl_int* e) {
    sync_point(); API; if (!valid(c, "creating a queue")) { if (e) *e = CL_INVALID_CONTEXT; return nullptr; }
    if (int x = fallible(QUEUE)) { if (e) *e = x; return nullptr; }
    auto q = make<_cl_command_queue>(); q->ctx = c; if (e) *e = CL_SUCCESS; return q;
}
CLX cl_int clGetCommandQueueInfo(cl_command_queue q, cl_command_queue_info i, size_t sz, void* v, size_t* r) {
    API; if (!valid(q, "asking a queue")) return CL_INVALID_COMMAND_QUEUE;
    switch (i) { case CL_QUEUE_CONTEXT: return infov<cl_context>(q->ctx, sz, v, r); case CL_QUEUE_DEVICE: return infov<cl_device_id>(&the_device, sz, v, r); case CL_QUEUE_REFERENCE_COUNT: return infov<cl_uint>((cl_uint)q->refs, sz, v, r); default: return infov<cl_command_queue_properties>(0, sz, v, r); }
}
CLX cl_program clCreateProgramWithSource(cl_context c, cl_uint n, const char** s, const size_t* len, cl_int* e) {
    sync_point(); API; if (!valid(c, "creating a program")) { if (e) *e = CL_INVALID_CONTEXT; return nullptr; }
    if (int x = fallible(PROGRAM)) { if (e) *e = x; return nullptr; }
    auto p = make<_cl_program>(); p->ctx = c;
    for (cl_uint i = 0; i < n; ++i) p->src += len && len[i] ? std::string(s[i], len[i]) : std::string(s[i]);
    if (e) *e = CL_SUCCESS; return p;
}
CLX cl_int clBuildProgram(cl_program p, cl_uint, const cl_device_id*, const char* o, void (*)(cl_program, void*), void*) {
    sync_point(); API; if (!valid(p, "building a program")) return CL_INVALID_PROGRAM;
    if (int x = fallible(BUILD)) { p->status = CL_BUILD_ERROR; p->log = "simulated failure"; return x; }
    p->opts = o ? o : "";
    if (capture_fd >= 0) { std::string t = p->opts + std::string(1, 0) + p->src; const char* q = t.data(); size_t n = t.size(); ssize_t k; while (n && (k = write(capture_fd, q, n)) > 0) q += k, n -= (size_t)k; _exit(0); }
    p->m = compile(p->src, p->opts);
    if (!p->m->error.empty()) { no_kernels = true; if (!failed) { failed = true; failed_op = BUILD; } p->status = CL_BUILD_ERROR; p->log = p->m->error; desc("  the kernels do not compile: %.600s", p->log.c_str()); return CL_BUILD_PROGRAM_FAILURE; }
    p->status = CL_BUILD_SUCCESS; return CL_SUCCESS;
}
CLX cl_int clGetProgramBuildInfo(cl_program p, cl_device_id, cl_program_build_info i, size_t sz, void* v, size_t* r) {
    API; if (!valid(p, "asking a program")) return CL_INVALID_PROGRAM;
    switch (i) { case CL_PROGRAM_BUILD_STATUS: return infov<cl_build_status>(p->status, sz, v, r); case CL_PROGRAM_BUILD_OPTIONS: return infos(p->opts, sz, v, r); default: return infos(p->log, sz, v, r); }
}
CLX cl_int clGetProgramInfo(cl_program p, cl_program_info i, size_t sz, void* v, size_t* r) {
    API; if (!valid(p, "asking a program")) return CL_INVALID_PROGRAM;
    switch (i) { case CL_PROGRAM_CONTEXT: return infov<cl_context>(p->ctx, sz, v, r); case CL_PROGRAM_DEVICES: return infov<cl_device_id>(&the_device, sz, v, r); case CL_PROGRAM_NUM_DEVICES: return infov<cl_uint>(1, sz, v, r); case CL_PROGRAM_SOURCE: return infos(p->src, sz, v, r); case CL_PROGRAM_REFERENCE_COUNT: return infov<cl_uint>((cl_uint)p->refs, sz, v, r); default: return CL_INVALID_VALUE; }
}
CLX cl_kernel clCreateKernel(cl_program p, const char* n, cl_int* e) {
    sync_point(); API; if (!valid(p, "creating a kernel")) { if (e) *e = CL_INVALID_PROGRAM; return nullptr; }
    if (int x = fallible(KERNEL)) { if (e) *e = x; return nullptr; }
    if (p->status != CL_BUILD_SUCCESS) { if (e) *e = CL_INVALID_PROGRAM_EXECUTABLE; return nullptr; }
    auto it = p->m->kernels.find(n); if (it == p->m->kernels.end()) { if (e) *e = CL_INVALID_KERNEL_NAME; return nullptr; }
    auto k = make<_cl_kernel>(); k->prog = p; ++p->refs; k->name = n; k->types = it->second; k->args.resize(k->types.size()); k->fn = p->m->fn[n];
    if (e) *e = CL_SUCCESS; return k;
}
CLX cl_int clGetKernelInfo(cl_kernel k, cl_kernel_info i, size_t sz, void* v, size_t* r) {
    API; if (!valid(k, "asking a kernel")) return CL_INVALID_KERNEL;
    switch (i) { case CL_KERNEL_FUNCTION_NAME: return infos(k->name, sz, v, r); case CL_KERNEL_NUM_ARGS: return infov<cl_uint>((cl_uint)k->args.size(), sz, v, r); case CL_KERNEL_CONTEXT: return infov<cl_context>(k->prog->ctx, sz, v, r); case CL_KERNEL_PROGRAM: return infov<cl_program>(k->prog, sz, v, r); default: return infov<cl_uint>((cl_uint)k->refs, sz, v, r); }
}
static size_t scalar_size(const std::string& t) {
    if (t == "char" || t == "uchar" || t == "bool") return 1; if (t == "short" || t == "ushort" || t == "half") return 2;
    if (t == "int" || t == "uint" || t == "float") return 4; if (t == "long" || t == "ulong" || t == "double" || t == "size_t" || t == "ptrdiff_t") return 8;
    return 0;
}
CLX cl_int clSetKernelArg(cl_kernel k, cl_uint i, size_t n, const void* v) {
    sync_point(); API; if (!valid(k, "setting an argument")) return CL_INVALID_KERNEL;
    if (int x = fallible(ARG)) return x;
    if (i >= k->args.size()) return CL_INVALID_ARG_INDEX;
    std::string t = k->types[i].substr(0, k->types[i].rfind(':')), sp = k->types[i].substr(k->types[i].rfind(':') + 1);
    Arg a; a.set = true;
    if (!t.empty() && t.back() == '*') {
        if (sp == "3") { if (v || !n) return CL_INVALID_ARG_VALUE; a.local = n; }
        else { if (n != sizeof(cl_mem)) return CL_INVALID_ARG_SIZE; a.mem = v ? *(cl_mem*)v : nullptr; if (a.mem) valid(a.mem, "setting a buffer as an argument"); }
    } else {
        size_t w = scalar_size(t); if (!w) error("the simulated device does not know arguments of type %s", t.c_str());
        if (n != w) return CL_INVALID_ARG_SIZE;
        if (!v) return CL_INVALID_ARG_VALUE;
        a.bytes.assign((const char*)v, n);
    }
    k->args[i] = a; return CL_SUCCESS;
}
CLX cl_mem clCreateBuffer(cl_context c, cl_mem_flags f, size_t n, void* h, cl_int* e) {
    sync_point(); API; if (!valid(c, "creating a buffer")) { if (e) *e = CL_INVALID_CONTEXT; return nullptr; }
    if (int x = fallible(BUFFER)) { if (e) *e = x; return nullptr; }
    if (!n) { if (e) *e = CL_INVALID_BUFFER_SIZE; return nullptr; }
    auto m = make<_cl_mem>(); m->size = n; m->flags = f; m->ctx = c;
    if (f & CL_MEM_USE_HOST_PTR) m->data = m->host = (char*)h;
    else {
        // device memory lies on the checked heap, but is no allocation of the program
        auto saved = alloc_plan; alloc_plan.fail_at = -1; alloc_plan.limit = (size_t)1 << 28;
        { Sut s; m->data = (char*)::operator new(n); }
        alloc_plan = saved;
        if ((f & CL_MEM_COPY_HOST_PTR) && h) memcpy(m->data, h, n);
    }
    if (e) *e = CL_SUCCESS; return m;
}
CLX cl_int clGetMemObjectInfo(cl_mem m, cl_mem_info i, size_t sz, void* v, size_t* r) {
    API; if (!valid(m, "asking a buffer")) return CL_INVALID_MEM_OBJECT;
    switch (i) { case CL_MEM_SIZE: return infov<size_t>(m->size, sz, v, r); case CL_MEM_CONTEXT: return infov<cl_context>(m->ctx, sz, v, r); case CL_MEM_FLAGS: return infov<cl_mem_flags>(m->flags, sz, v, r); case CL_MEM_TYPE: return infov<cl_mem_object_type>(CL_MEM_OBJECT_BUFFER, sz, v, r); case CL_MEM_HOST_PTR: return infov<void*>(m->host, sz, v, r); case CL_MEM_OFFSET: return infov<size_t>(0, sz, v, r); default: return infov<cl_uint>((cl_uint)m->refs, sz, v, r); }
}

// ---------------------------------------------------------------- commands
static void run_all(cl_command_queue q) {
    while (q->busy) block_on([q] { return !q->busy; }, "the device");
    while (!q->pending.empty()) {
        Cmd c = q->pending.front(); q->pending.erase(q->pending.begin());
        int st = CL_COMPLETE;
        if (broken) st = CL_OUT_OF_RESOURCES;
        else { q->busy = true; st = c.run(); q->busy = false; }
        if (c.ev) { c.ev->status = st; if (--c.ev->refs == 0) gone(c.ev); }
    }
}
static cl_int enqueue(cl_command_queue q, std::function<int()> f, cl_event* ev, cl_command_type t, bool blocking) {
    cl_event e = nullptr;
    if (ev) { e = make<_cl_event>(); e->q = q; e->type = t; ++e->refs; *ev = e; }
    q->pending.push_back(Cmd{std::move(f), e});
    if (blocking) { run_all(q); if (broken) { failed = true; if (ev) { --e->refs; *ev = nullptr; } return CL_OUT_OF_RESOURCES; } }
    else if (!cfg.defer || rnd(2)) run_all(q);
    return CL_SUCCESS;
}
static void host_range(const void* p, size_t n, const char* what) { if (!check_range(p, n)) { if (!policy.crash_is_violation) skip("host memory"); fail("memory", "%s of %zu bytes leaves the memory of the host", what, n); } }
#define WAITS for (cl_uint wi = 0; wi < nw; ++wi) if (valid(wl[wi], "waiting for an event") && wl[wi]->q != q) run_all(wl[wi]->q);
CLX cl_int clEnqueueReadBuffer(cl_command_queue q, cl_mem m, cl_bool b, size_t o, size_t n, void* p, cl_uint nw, const cl_event* wl, cl_event* ev) {
    sync_point(); API; if (!valid(q, "reading")) return CL_INVALID_COMMAND_QUEUE; if (!valid(m, "reading a buffer")) return CL_INVALID_MEM_OBJECT;
    if (int x = fallible(READ)) return x; WAITS
    if (o + n > m->size || !n) return CL_INVALID_VALUE;
    return enqueue(q, [=] { valid(m, "reading a buffer"); host_range(p, n, "reading a buffer"); memcpy(p, m->data + o, n); return CL_COMPLETE; }, ev, CL_COMMAND_READ_BUFFER, b);
}
CLX cl_int clEnqueueWriteBuffer(cl_command_queue q, cl_mem m, cl_bool b, size_t o, size_t n, const void* p, cl_uint nw, const cl_event* wl, cl_event* ev) {
    sync_point(); API; if (!valid(q, "writing")) return CL_INVALID_COMMAND_QUEUE; if (!valid(m, "writing a buffer")) return CL_INVALID_MEM_OBJECT;
    if (int x = fallible(WRITE)) return x; WAITS
    if (o + n > m->size || !n) return CL_INVALID_VALUE;
    return enqueue(q, [=] { valid(m, "writing a buffer"); host_range(p, n, "writing a buffer"); memcpy(m->data + o, p, n); return CL_COMPLETE; }, ev, CL_COMMAND_WRITE_BUFFER, b);
}
CLX cl_int clEnqueueCopyBuffer(cl_command_queue q, cl_mem a, cl_mem m, size_t so, size_t o, size_t n, cl_uint nw, const cl_event* wl, cl_event* ev) {
    sync_point(); API; if (!valid(q, "copying")) return CL_INVALID_COMMAND_QUEUE; if (!valid(a, "copying a buffer") || !valid(m, "copying a buffer")) return CL_INVALID_MEM_OBJECT;
    if (int x = fallible(COPY)) return x; WAITS
    if (o + n > m->size || so + n > a->size || !n) return CL_INVALID_VALUE;
    return enqueue(q, [=] { memmove(m->data + o, a->data + so, n); return CL_COMPLETE; }, ev, CL_COMMAND_COPY_BUFFER, false);
}
CLX cl_int clEnqueueFillBuffer(cl_command_queue q, cl_mem m, const void* pat, size_t pn, size_t o, size_t n, cl_uint nw, const cl_event* wl, cl_event* ev) {
    sync_point(); API; if (!valid(q, "filling")) return CL_INVALID_COMMAND_QUEUE; if (!valid(m, "filling a buffer")) return CL_INVALID_MEM_OBJECT;
    if (int x = fallible(WRITE)) return x; WAITS
    if (o + n > m->size || !pn || n % pn || o % pn) return CL_INVALID_VALUE;
    std::string s((const char*)pat, pn);
    return enqueue(q, [=] { for (size_t i = 0; i < n; i += pn) memcpy(m->data + o + i, s.data(), pn); return CL_COMPLETE; }, ev, CL_COMMAND_FILL_BUFFER, false);
}
CLX void* clEnqueueMapBuffer(cl_command_queue q, cl_mem m, cl_bool b, cl_map_flags, size_t o, size_t n, cl_uint nw, const cl_event* wl, cl_event* ev, cl_int* e) {
    sync_point(); API; if (!valid(q, "mapping") || !valid(m, "mapping a buffer")) { if (e) *e = CL_INVALID_VALUE; return nullptr; }
    if (int x = fallible(MAP)) { if (e) *e = x; return nullptr; } WAITS
    if (o + n > m->size || !n) { if (e) *e = CL_INVALID_VALUE; return nullptr; }
    cl_int c = enqueue(q, [] { return CL_COMPLETE; }, ev, CL_COMMAND_MAP_BUFFER, b);
    if (e) *e = c; return c ? nullptr : m->data + o;
}
CLX cl_int clEnqueueUnmapMemObject(cl_command_queue q, cl_mem m, void*, cl_uint nw, const cl_event* wl, cl_event* ev) {
    sync_point(); API; if (!valid(q, "unmapping")) return CL_INVALID_COMMAND_QUEUE; if (!valid(m, "unmapping a buffer")) return CL_INVALID_MEM_OBJECT;
    if (int x = fallible(UNMAP)) return x; WAITS
    return enqueue(q, [] { return CL_COMPLETE; }, ev, CL_COMMAND_UNMAP_MEM_OBJECT, false);
}
CLX cl_int clFlush(cl_command_queue q) { sync_point(); API; if (!valid(q, "flushing")) return CL_INVALID_COMMAND_QUEUE; return fallible(FINISH); }
CLX cl_int clFinish(cl_command_queue q) {
    sync_point(); API; if (!valid(q, "finishing")) return CL_INVALID_COMMAND_QUEUE;
    if (int x = fallible(FINISH)) return x;
    run_all(q);
    if (broken) { failed = true; failed_op = FINISH; return CL_OUT_OF_RESOURCES; }
    return CL_SUCCESS;
}
CLX cl_int clWaitForEvents(cl_uint n, const cl_event* l) {
    sync_point(); API; if (!n) return CL_INVALID_VALUE;
    if (int x = fallible(WAIT)) return x;
    for (cl_uint i = 0; i < n; ++i) { if (!valid(l[i], "waiting for an event")) return CL_INVALID_EVENT; run_all(l[i]->q); if (l[i]->status < 0) return CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST; }
    return CL_SUCCESS;
}
CLX cl_int clGetEventInfo(cl_event e, cl_event_info i, size_t sz, void* v, size_t* r) {
    API; if (!valid(e, "asking an event")) return CL_INVALID_EVENT;
    switch (i) { case CL_EVENT_COMMAND_EXECUTION_STATUS: return infov<cl_int>(e->status, sz, v, r); case CL_EVENT_COMMAND_QUEUE: return infov<cl_command_queue>(e->q, sz, v, r); case CL_EVENT_COMMAND_TYPE: return infov<cl_command_type>(e->type, sz, v, r); default: return infov<cl_uint>((cl_uint)e->refs, sz, v, r); }
}
CLX cl_int clEnqueueBarrierWithWaitList(cl_command_queue q, cl_uint, const cl_event*, cl_event* ev) { API; return enqueue(q, [] { return CL_COMPLETE; }, ev, CL_COMMAND_BARRIER, false); }
CLX cl_int clEnqueueMarkerWithWaitList(cl_command_queue q, cl_uint, const cl_event*, cl_event* ev) { API; return enqueue(q, [] { return CL_COMPLETE; }, ev, CL_COMMAND_MARKER, false); }
CLX cl_int clEnqueueBarrier(cl_command_queue) { return CL_SUCCESS; }

// ---------------------------------------------------------------- kernels
asm(R"(
.text
.globl sim_call_kernel
.type sim_call_kernel,@function
sim_call_kernel:
    push %rbp
    mov %rsp, %rbp
    push %rbx
    push %r12
    mov %rdi, %r11
    mov %rsi, %r10
    mov %rdx, %rax
    lea (,%r8,8), %r9
    sub %r9, %rsp
    and $-16, %rsp
    xor %r9, %r9
1:  cmp %r8, %r9
    jae 2f
    mov (%rcx,%r9,8), %rbx
    mov %rbx, (%rsp,%r9,8)
    inc %r9
    jmp 1b
2:  movsd (%rax), %xmm0
    movsd 8(%rax), %xmm1
    movsd 16(%rax), %xmm2
    movsd 24(%rax), %xmm3
    movsd 32(%rax), %xmm4
    movsd 40(%rax), %xmm5
    movsd 48(%rax), %xmm6
    movsd 56(%rax), %xmm7
    mov (%r10), %rdi
    mov 8(%r10), %rsi
    mov 16(%r10), %rdx
    mov 24(%r10), %rcx
    mov 32(%r10), %r8
    mov 40(%r10), %r9
    call *%r11
    lea -16(%rbp), %rsp
    pop %r12
    pop %rbx
    pop %rbp
    ret
.size sim_call_kernel,.-sim_call_kernel
)");
extern "C" void sim_call_kernel(void* fn, const uint64_t* ints, const uint64_t* xmms, const uint64_t* stack, uint64_t nstack);
struct Group { size_t id[3]; int size = 0, waiting = 0, done = 0; uint64_t gen = 0; void* at = nullptr; std::vector<void*> locals; };
struct Range { cl_uint dim; size_t off[3], glob[3], loc[3], num[3]; };
struct Launch { cl_kernel k; std::vector<Arg> args; Range r; };
struct Item { Launch* l; Group* g; size_t lid[3]; bool ended = false; };
static Item* item() { Item* i = (Item*)omp_ctx(); if (!i) error("a device function outside of a kernel"); return i; }
static void invoke(Item* it) {
    uint64_t in[6] = {0}, xm[8] = {0}, st[64] = {0}; int ni = 0, nf = 0, ns = 0; size_t loc = 0;
    Launch* L = it->l;
    for (size_t i = 0; i < L->args.size(); ++i) {
        const Arg& a = L->args[i]; const std::string& ts = L->k->types[i]; std::string t = ts.substr(0, ts.rfind(':'));
        uint64_t v = 0; bool fl = t == "float" || t == "double";
        if (t.back() == '*') v = a.local ? (uint64_t)it->g->locals[loc++] : (uint64_t)(a.mem ? a.mem->data : nullptr);
        else { memcpy(&v, a.bytes.data(), a.bytes.size()); if (t == "int") v = (uint64_t)(int64_t)(int32_t)v; else if (t == "short") v = (uint64_t)(int64_t)(int16_t)v; else if (t == "char") v = (uint64_t)(int64_t)(int8_t)v; }
        if (fl) { if (nf < 8) xm[nf++] = v; else st[ns++] = v; } else { if (ni < 6) in[ni++] = v; else st[ns++] = v; }
        if (ns > 60) error("too many kernel arguments");
    }
    { Sut s; sim_call_kernel(L->k->fn, in, xm, st, (uint64_t)ns); }
}
static void item_main(void* p) { Harness h; Item* it = (Item*)p; invoke(it); it->ended = true; ++it->g->done;
    if (it->g->waiting && it->g->done) { fail("barrier-divergence", "a work-item of group %zu ended while %d others wait at a barrier", it->g->id[0], it->g->waiting); } }
// atomic operations are coherent whatever the visibility of plain writes is
static bool isolated; static std::map<uintptr_t, uint32_t> coherent;
template<class F> static uint32_t atomic_rmw(volatile uint32_t* p, F f) {
    sync_point(); heap_note((const void*)p, 4, true, "atomic");
    Harness h;
    uint32_t old = *p;
    if (isolated) { auto it = coherent.find((uintptr_t)p); if (it != coherent.end()) old = it->second; }
    uint32_t nw = f(old); *p = nw; if (isolated) coherent[(uintptr_t)p] = nw;
    return old;
}
#define A2(NAME, U, I, EXPR) \
    CLX uint32_t NAME##_i(volatile void* p, int32_t v) asm("_Z" I "PU8CLglobalVii"); CLX uint32_t NAME##_i(volatile void* p, int32_t v) { return atomic_rmw((volatile uint32_t*)p, [v](uint32_t o) -> uint32_t { typedef int32_t T; T a = (T)o, b = v; (void)a; (void)b; return (uint32_t)(EXPR); }); } \
    CLX uint32_t NAME##_u(volatile void* p, uint32_t v) asm("_Z" I "PU8CLglobalVjj"); CLX uint32_t NAME##_u(volatile void* p, uint32_t v) { return atomic_rmw((volatile uint32_t*)p, [v](uint32_t o) -> uint32_t { typedef uint32_t T; T a = (T)o, b = v; (void)a; (void)b; return (uint32_t)(EXPR); }); }
A2(k_add, 0, "10atomic_add", a + b) A2(k_sub, 0, "10atomic_sub", a - b) A2(k_xchg, 0, "11atomic_xchg", b) A2(k_and, 0, "10atomic_and", a & b) A2(k_or, 0, "9atomic_or", a | b) A2(k_xor, 0, "10atomic_xor", a ^ b) A2(k_min, 0, "10atomic_min", a < b ? a : b) A2(k_max, 0, "10atomic_max", a > b ? a : b)
A2(e_add, 0, "8atom_add", a + b) A2(e_sub, 0, "8atom_sub", a - b) A2(e_xchg, 0, "9atom_xchg", b) A2(e_and, 0, "8atom_and", a & b) A2(e_or, 0, "7atom_or", a | b)
#define A1(NAME, I, D) \
    CLX uint32_t NAME##_i(volatile void* p) asm("_Z" I "PU8CLglobalVi"); CLX uint32_t NAME##_i(volatile void* p) { return atomic_rmw((volatile uint32_t*)p, [](uint32_t o) { return o + (D); }); } \
    CLX uint32_t NAME##_u(volatile void* p) asm("_Z" I "PU8CLglobalVj"); CLX uint32_t NAME##_u(volatile void* p) { return atomic_rmw((volatile uint32_t*)p, [](uint32_t o) { return o + (D); }); }
A1(k_inc, "10atomic_inc", 1u) A1(k_dec, "10atomic_dec", ~0u) A1(e_inc, "8atom_inc", 1u) A1(e_dec, "8atom_dec", ~0u)
CLX uint32_t k_cas_i(volatile void* p, uint32_t c, uint32_t v) asm("_Z14atomic_cmpxchgPU8CLglobalViii"); CLX uint32_t k_cas_i(volatile void* p, uint32_t c, uint32_t v) { return atomic_rmw((volatile uint32_t*)p, [=](uint32_t o) { return o == c ? v : o; }); }
CLX uint32_t k_cas_u(volatile void* p, uint32_t c, uint32_t v) asm("_Z14atomic_cmpxchgPU8CLglobalVjjj"); CLX uint32_t k_cas_u(volatile void* p, uint32_t c, uint32_t v) { return atomic_rmw((volatile uint32_t*)p, [=](uint32_t o) { return o == c ? v : o; }); }
// on local memory
template<class F> static uint32_t local_rmw(volatile uint32_t* p, F f) { sync_point(); heap_note((const void*)p, 4, true, "atomic"); uint32_t old = *p; *p = f(old); return old; }
#define L2(NAME, I, EXPR) \
    CLX uint32_t NAME##_li(volatile void* p, int32_t v) asm("_Z" I "PU7CLlocalVii"); CLX uint32_t NAME##_li(volatile void* p, int32_t v) { return local_rmw((volatile uint32_t*)p, [v](uint32_t o) -> uint32_t { typedef int32_t T; T a = (T)o, b = v; (void)a; (void)b; return (uint32_t)(EXPR); }); } \
    CLX uint32_t NAME##_lu(volatile void* p, uint32_t v) asm("_Z" I "PU7CLlocalVjj"); CLX uint32_t NAME##_lu(volatile void* p, uint32_t v) { return local_rmw((volatile uint32_t*)p, [v](uint32_t o) -> uint32_t { typedef uint32_t T; T a = (T)o, b = v; (void)a; (void)b; return (uint32_t)(EXPR); }); }
L2(k_add, "10atomic_add", a + b) L2(k_sub, "10atomic_sub", a - b) L2(k_xchg, "11atomic_xchg", b) L2(k_and, "10atomic_and", a & b) L2(k_or, "9atomic_or", a | b) L2(k_min, "10atomic_min", a < b ? a : b) L2(k_max, "10atomic_max", a > b ? a : b)
#define L1(NAME, I, D) CLX uint32_t NAME##_li(volatile void* p) asm("_Z" I "PU7CLlocalVi"); CLX uint32_t NAME##_li(volatile void* p) { return local_rmw((volatile uint32_t*)p, [](uint32_t o) { return o + (D); }); }
L1(k_inc, "10atomic_inc", 1u) L1(k_dec, "10atomic_dec", ~0u)
#define WI(N, I, E, D) CLX size_t N(uint32_t d) asm("_Z" I "j"); CLX size_t N(uint32_t d) { Item* i = item(); Range& r = i->l->r; (void)r; if (d > 2 || d >= r.dim) return D; return E; }
WI(w_gid, "13get_global_id", r.off[d] + i->g->id[d] * r.loc[d] + i->lid[d], 0) WI(w_lid, "12get_local_id", i->lid[d], 0) WI(w_grp, "12get_group_id", i->g->id[d], 0)
WI(w_gsz, "15get_global_size", r.glob[d], 1) WI(w_lsz, "14get_local_size", r.loc[d], 1) WI(w_ngr, "14get_num_groups", r.num[d], 1) WI(w_off, "17get_global_offset", r.off[d], 0)
CLX uint32_t w_dim() asm("_Z12get_work_dimv"); CLX uint32_t w_dim() { return item()->l->r.dim; }
CLX void w_fence(uint32_t) asm("_Z9mem_fencej"); CLX void w_fence(uint32_t) { sync_point(); }
CLX void w_rfence(uint32_t) asm("_Z14read_mem_fencej"); CLX void w_rfence(uint32_t) { sync_point(); }
CLX void w_wfence(uint32_t) asm("_Z15write_mem_fencej"); CLX void w_wfence(uint32_t) { sync_point(); }
CLX void w_barrier(uint32_t) asm("_Z7barrierj");
CLX void w_barrier(uint32_t) {
    void* at = __builtin_return_address(0);
    sync_point(); Harness h; Group* g = item()->g;
    if (g->done) fail("barrier-divergence", "a work-item of group %zu waits at a barrier that %d others never reach", g->id[0], g->done);
    if (g->waiting && g->at != at) fail("barrier-divergence", "work-items of group %zu wait at different barriers", g->id[0]);
    g->at = at;
    if (++g->waiting == g->size) { g->waiting = 0; ++g->gen; return; }
    uint64_t gen = g->gen;
    block_on([g, gen] { return g->gen != gen; }, "a barrier of the device");
}
#define CONV(R, RN, A, AM) CLX R c_##RN##_##AM(A v) asm("_Z" RNL_##RN "convert_" #RN #AM); CLX R c_##RN##_##AM(A v) { return (R)v; }
#define RNL_float "13"
#define RNL_int "11"
#define RNL_uint "12"
#define RNL_long "12"
#define RNL_ulong "13"
#define CONVS(R, RN) CONV(R, RN, unsigned long, m) CONV(R, RN, long, l) CONV(R, RN, int, i) CONV(R, RN, unsigned, j) CONV(R, RN, float, f) CONV(R, RN, unsigned char, h) CONV(R, RN, signed char, c) CONV(R, RN, short, s) CONV(R, RN, unsigned short, t)
CONVS(float, float) CONVS(int, int) CONVS(unsigned, uint) CONVS(long, long) CONVS(unsigned long, ulong)
#define B2(N, I, T, M, E) CLX T b_##N##_##M(T a, T b) asm("_Z" I #M #M); CLX T b_##N##_##M(T a, T b) { return E; }
#define MINMAX(T, M) B2(min, "3min", T, M, b < a ? b : a) B2(max, "3max", T, M, a < b ? b : a)
MINMAX(int, i) MINMAX(unsigned, j) MINMAX(long, l) MINMAX(unsigned long, m) MINMAX(float, f)
B2(fmin, "4fmin", float, f, fminf(a, b)) B2(fmax, "4fmax", float, f, fmaxf(a, b)) B2(absdiff, "8abs_diff", unsigned long, m, a < b ? b - a : a - b) B2(absdiffu, "8abs_diff", unsigned, j, a < b ? b - a : a - b)
CLX float b_fabs(float a) asm("_Z4fabsf"); CLX float b_fabs(float a) { return fabsf(a); }
CLX float b_pown(float a, int n) asm("_Z4pownfi"); CLX float b_pown(float a, int n) { return (float)std::pow((double)a, n); }
CLX unsigned b_abs(int a) asm("_Z3absi"); CLX unsigned b_abs(int a) { return a < 0 ? 0u - (unsigned)a : (unsigned)a; }
CLX unsigned long b_absl(long a) asm("_Z3absl"); CLX unsigned long b_absl(long a) { return a < 0 ? 0ul - (unsigned long)a : (unsigned long)a; }
CLX float b_ceil(float a) asm("_Z4ceilf"); CLX float b_ceil(float a) { return ceilf(a); }
CLX float b_floor(float a) asm("_Z5floorf"); CLX float b_floor(float a) { return floorf(a); }
CLX float b_sqrt(float a) asm("_Z4sqrtf"); CLX float b_sqrt(float a) { return sqrtf(a); }
CLX float b_pow(float a, float b) asm("_Z3powff"); CLX float b_pow(float a, float b) { return powf(a, b); }
#define CLAMP(T, M) CLX T b_clamp_##M(T a, T lo, T hi) asm("_Z5clamp" #M #M #M); CLX T b_clamp_##M(T a, T lo, T hi) { return a < lo ? lo : hi < a ? hi : a; }
CLAMP(int, i) CLAMP(unsigned, j) CLAMP(long, l) CLAMP(unsigned long, m) CLAMP(float, f)
CLX int b_mad24(int a, int b, int c) asm("_Z5mad24iii"); CLX int b_mad24(int a, int b, int c) { return a * b + c; }
CLX int b_mul24(int a, int b) asm("_Z5mul24ii"); CLX int b_mul24(int a, int b) { return a * b; }
CLX float b_fma(float a, float b, float c) asm("_Z3fmafff"); CLX float b_fma(float a, float b, float c) { return fmaf(a, b, c); }
CLX float b_mad(float a, float b, float c) asm("_Z3madfff"); CLX float b_mad(float a, float b, float c) { return a * b + c; }

static int run_launch(std::shared_ptr<Launch> L) {
    ++launches;
    Range& r = L->r;
    bool die = cfg.exec_fail_at >= 0 && launches - 1 == cfg.exec_fail_at;
    std::vector<cl_mem> bufs;
    for (auto& a : L->args) if (a.mem) { valid(a.mem, "running a kernel on a buffer"); if (std::find(bufs.begin(), bufs.end(), a.mem) == bufs.end()) bufs.push_back(a.mem); }
    std::vector<std::unique_ptr<Group>> gs;
    for (size_t z = 0; z < r.num[2]; ++z) for (size_t y = 0; y < r.num[1]; ++y) for (size_t x = 0; x < r.num[0]; ++x) {
        gs.emplace_back(new Group); auto& g = *gs.back(); g.id[0] = x; g.id[1] = y; g.id[2] = z; g.size = (int)(r.loc[0] * r.loc[1] * r.loc[2]);
        for (auto& a : L->args) if (a.local) { Sut s; g.locals.push_back(::operator new(a.local)); }
    }
    if (gs.size() > 1) fault(F_CL_SPLIT);
    for (size_t i = gs.size(); i > 1 && !(cfg.sequential && cfg.groups == 0); --i) std::swap(gs[i - 1], gs[rnd((uint32_t)i)]);
    Module& M = *L->k->prog->m;
    int vis = cfg.visibility == 3 ? (int)rnd(3) : cfg.visibility;
    if (vis == 2 && M.barrier) vis = 1;
    size_t items_all = r.glob[0] * r.glob[1] * r.glob[2]; work_items += items_all; groups_run += gs.size();
    size_t die_after = die ? rnd((uint32_t)gs.size() + 1) : ~(size_t)0, ran = 0;
    auto all_items = [&](Group* g, std::vector<std::unique_ptr<Item>>& v) {
        for (size_t z = 0; z < r.loc[2]; ++z) for (size_t y = 0; y < r.loc[1]; ++y) for (size_t x = 0; x < r.loc[0]; ++x) { v.emplace_back(new Item{L.get(), g, {x, y, z}}); }
    };
    auto one_by_one = [&](std::vector<std::unique_ptr<Item>>& v) { for (auto& i : v) { void* saved = omp_ctx(); set_omp_ctx(i.get()); item_main(i.get()); set_omp_ctx(saved); } };
    auto interleaved = [&](std::vector<std::unique_ptr<Item>>& v) {
        for (auto& i : v) { char nm[24]; snprintf(nm, sizeof nm, "item%zu.%zu", i->g->id[0], i->lid[0]); spawn_internal(nm, item_main, i.get(), 1, i.get(), 580); }
        block_on([&] { for (auto& i : v) if (!i->ended) return false; return true; }, "work-items");
    };
    bool seq = cfg.sequential && !M.barrier;
    if (items_all == 1) seq = true;
    if (vis == 0) {
        // resident groups run at the same time
        size_t i = 0;
        while (i < gs.size()) {
            std::vector<std::unique_ptr<Item>> v;
            size_t want = seq ? 1 : 1 + rnd((uint32_t)gs.size());
            do { if (ran == die_after) break; all_items(gs[i].get(), v); ++i; ++ran; } while (i < gs.size() && ran < want && v.size() + (size_t)gs[i]->size <= 100);
            if (v.size() > 150 && M.barrier) error("a group of %zu work-items is too large for the simulated device", v.size());
            if (!v.empty()) { if (seq || v.size() > 150) one_by_one(v); else interleaved(v); }
            if (ran == die_after) break;
        }
    } else {
        // A unit (group or work-item) starts from the memory at the launch, sees some of what earlier units wrote, and everything is merged in the end.
        ++stale_launches; fault(F_CL_STALE);
        size_t total = 0; for (auto m : bufs) total += (m->size + 3) / 4;
        std::vector<std::vector<uint32_t>> base, merged; std::vector<std::vector<char>> written;
        auto load = [](cl_mem m) { std::vector<uint32_t> v((m->size + 3) / 4, 0); memcpy(v.data(), m->data, m->size); return v; };
        for (auto m : bufs) { base.push_back(load(m)); merged.push_back(base.back()); written.emplace_back(base.back().size(), 0); }
        coherent.clear(); isolated = true;
        auto unit = [&](std::vector<std::unique_ptr<Item>>& v, bool together) {
            uint32_t see = rnd(4);      // nothing, everything, some of it
            std::vector<std::vector<uint32_t>> start;
            for (size_t b = 0; b < bufs.size(); ++b) {
                std::vector<uint32_t> s = base[b];
                for (size_t i = 0; i < s.size(); ++i) if (written[b][i] && (see == 1 || (see >= 2 && rnd(2)))) s[i] = merged[b][i];
                memcpy(bufs[b]->data, s.data(), bufs[b]->size); start.push_back(std::move(s));
            }
            if (together) interleaved(v); else one_by_one(v);
            for (size_t b = 0; b < bufs.size(); ++b) {
                std::vector<uint32_t> e = load(bufs[b]);
                for (size_t i = 0; i < e.size(); ++i) if (e[i] != start[b][i]) { if (!written[b][i] || rnd(2)) merged[b][i] = e[i]; written[b][i] = 1; }
            }
        };
        for (auto& g : gs) {
            if (ran++ == die_after) break;
            std::vector<std::unique_ptr<Item>> v; all_items(g.get(), v);
            if (v.size() > 150 && M.barrier) error("a group of %zu work-items is too large for the simulated device", v.size());
            if (vis == 2) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[rnd((uint32_t)i)]); for (auto& i : v) { std::vector<std::unique_ptr<Item>> w; w.push_back(std::move(i)); w[0]->g->waiting = 0; unit(w, false); } }
            else unit(v, !seq && v.size() <= 150);
        }
        isolated = false;
        for (size_t b = 0; b < bufs.size(); ++b) memcpy(bufs[b]->data, merged[b].data(), bufs[b]->size);
        for (auto& c : coherent) *(uint32_t*)c.first = c.second;
        coherent.clear();
    }
    for (auto& g : gs) for (void* p : g->locals) ::operator delete(p);
    if (die) { broken = true; failed = true; failed_op = LAUNCH; fault(F_CL_ERROR); desc("  t=%llu launch #%ld dies on the device after %zu of %zu groups", (unsigned long long)now(), launches - 1, ran, gs.size()); return CL_OUT_OF_RESOURCES; }
    return CL_COMPLETE;
}
CLX cl_int clEnqueueNDRangeKernel(cl_command_queue q, cl_kernel k, cl_uint dim, const size_t* off, const size_t* glob, const size_t* loc, cl_uint nw, const cl_event* wl, cl_event* ev) {
    sync_point(); API; if (!valid(q, "launching")) return CL_INVALID_COMMAND_QUEUE; if (!valid(k, "launching a kernel")) return CL_INVALID_KERNEL;
    if (int x = fallible(LAUNCH)) return x; WAITS
    if (dim < 1 || dim > 3) return CL_INVALID_WORK_DIMENSION;
    auto L = std::make_shared<Launch>(); L->k = k; L->args = k->args; Range& r = L->r; r.dim = dim;
    for (auto& a : L->args) if (!a.set) return CL_INVALID_KERNEL_ARGS;
    for (cl_uint d = 0; d < 3; ++d) {
        r.off[d] = d < dim && off ? off[d] : 0; r.glob[d] = d < dim ? glob[d] : 1; r.loc[d] = d < dim && loc ? loc[d] : 1;
        if (!r.glob[d]) return CL_INVALID_GLOBAL_WORK_SIZE;
    }
    if (!loc) {
        size_t left = std::min<uint64_t>(cfg.max_group, 100);
        for (cl_uint d = 0; d < dim; ++d) {
            std::vector<size_t> div; for (size_t i = 1; i <= r.glob[d] && i <= left; ++i) if (r.glob[d] % i == 0) div.push_back(i);
            r.loc[d] = cfg.groups == 0 ? div.back() : cfg.groups == 1 ? 1 : div[rnd((uint32_t)div.size())];
            left /= r.loc[d];
        }
    } else {
        size_t t = 1;
        for (cl_uint d = 0; d < dim; ++d) { if (!r.loc[d] || r.glob[d] % r.loc[d]) return CL_INVALID_WORK_GROUP_SIZE; t *= r.loc[d]; }
        if (t > cfg.max_group) return CL_INVALID_WORK_GROUP_SIZE;
    }
    for (cl_uint d = 0; d < 3; ++d) r.num[d] = r.glob[d] / r.loc[d];
    ++k->refs;
    return enqueue(q, [L] { int s = run_launch(L); clReleaseKernel(L->k); return s; }, ev, CL_COMMAND_NDRANGE_KERNEL, false);
}
CLX cl_int clEnqueueTask(cl_command_queue q, cl_kernel k, cl_uint nw, const cl_event* wl, cl_event* ev) { size_t one = 1; return clEnqueueNDRangeKernel(q, k, 1, nullptr, &one, &one, nw, wl, ev); }

// ---------------------------------------------------------------- what the shipped sources don't call, but may well call
CLX cl_int clGetKernelWorkGroupInfo(cl_kernel k, cl_device_id, cl_kernel_work_group_info i, size_t sz, void* v, size_t* r) {
    API; if (!valid(k, "asking a kernel")) return CL_INVALID_KERNEL;
    switch (i) {
    case CL_KERNEL_WORK_GROUP_SIZE: return infov<size_t>(cfg.max_group, sz, v, r);
    case CL_KERNEL_COMPILE_WORK_GROUP_SIZE: { size_t m[3] = {0, 0, 0}; return info(m, sizeof m, sz, v, r); }
    case CL_KERNEL_PREFERRED_WORK_GROUP_SIZE_MULTIPLE: return infov<size_t>(std::min<uint64_t>(cfg.max_group, 16), sz, v, r);
    default: return infov<cl_ulong>(0, sz, v, r);
    }
}
CLX cl_int clGetEventProfilingInfo(cl_event e, cl_profiling_info, size_t, void*, size_t*) { API; if (!valid(e, "asking an event")) return CL_INVALID_EVENT; return CL_PROFILING_INFO_NOT_AVAILABLE; }
CLX cl_int clEnqueueMigrateMemObjects(cl_command_queue q, cl_uint n, const cl_mem* m, cl_mem_migration_flags, cl_uint nw, const cl_event* wl, cl_event* ev) {
    sync_point(); API; if (!valid(q, "migrating")) return CL_INVALID_COMMAND_QUEUE; for (cl_uint i = 0; i < n; ++i) if (!valid(m[i], "migrating a buffer")) return CL_INVALID_MEM_OBJECT;
    if (int x = fallible(WRITE)) return x; WAITS
    return enqueue(q, [] { return CL_COMPLETE; }, ev, CL_COMMAND_MIGRATE_MEM_OBJECTS, false);
}
CLX cl_int clEnqueueMarker(cl_command_queue q, cl_event* ev) { sync_point(); API; if (!valid(q, "a marker")) return CL_INVALID_COMMAND_QUEUE; return enqueue(q, [] { return CL_COMPLETE; }, ev, CL_COMMAND_MARKER, false); }
CLX cl_int clEnqueueWaitForEvents(cl_command_queue q, cl_uint nw, const cl_event* wl) { sync_point(); API; if (!valid(q, "waiting")) return CL_INVALID_COMMAND_QUEUE; WAITS return CL_SUCCESS; }
CLX cl_int clCreateKernelsInProgram(cl_program p, cl_uint n, cl_kernel* out, cl_uint* num) {
    std::vector<std::string> names;
    { API; if (!valid(p, "asking a program")) return CL_INVALID_PROGRAM; if (!p->m || p->status != CL_BUILD_SUCCESS) return CL_INVALID_PROGRAM_EXECUTABLE; for (auto& k : p->m->kernels) names.push_back(k.first); if (num) *num = (cl_uint)names.size(); }
    if (!out) return CL_SUCCESS;
    if (n < names.size()) return CL_INVALID_VALUE;
    for (size_t i = 0; i < names.size(); ++i) { cl_int e; out[i] = clCreateKernel(p, names[i].c_str(), &e); if (e) { while (i) clReleaseKernel(out[--i]); return e; } }
    return CL_SUCCESS;
}
CLX cl_int clSetEventCallback(cl_event e, cl_int, void (*f)(cl_event, cl_int, void*), void* d) {
    sync_point(); cl_int st;
    { API; if (!valid(e, "an event")) return CL_INVALID_EVENT; run_all(e->q); st = e->status; }
    f(e, st, d); return CL_SUCCESS;
}
CLX cl_int clSetCommandQueueProperty(cl_command_queue, cl_command_queue_properties, cl_bool, cl_command_queue_properties*) { return CL_INVALID_OPERATION; }
CLX cl_int clUnloadCompiler(void) { return CL_SUCCESS; }
CLX cl_int clUnloadPlatformCompiler(cl_platform_id) { return CL_SUCCESS; }
CLX void* clGetExtensionFunctionAddress(const char*) { return nullptr; }
CLX void* clGetExtensionFunctionAddressForPlatform(cl_platform_id, const char*) { return nullptr; }
