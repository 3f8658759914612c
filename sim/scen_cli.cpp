// C14, C15, C16: the whole command-line program on a simulated file system.
#include "common.h"
#include "pgm_gen.h"
#include "vfs.h"
#ifdef SIM_CL
#include "cl.h"
#include <dirent.h>
#include <fstream>
#include <sstream>
#include <sys/wait.h>
#endif
#include <cerrno>
#include <cmath>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <execinfo.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace pgmgen;
int sp_main(int, char**) __asm__("sp_main");
namespace {
const char* OUT = "/w/out.pgm";
struct Case {
    Prob p; std::string left, right, old; bool has_old = false;
    std::vector<std::string> args; std::string out = OUT;
    bool valid = true;      // a disparity map is due
    bool unclear = false;   // programs may differ on this input
    const char* what = "valid";
    std::map<std::string, std::string> others;
    bool ro_left = false, ro_right = false;   // inputs nobody may write to
    bool one_file = false;  // left.pgm is both images
    bool wide = false;      // over 250 rows or columns
    bool device = false;    // the labeling is asked of the OpenCL device
};
#ifdef SIM_CL
std::map<std::string, std::string>& sources() { static auto* m = new std::map<std::string, std::string>; return *m; }   // what lies in lib/
void gen_device(bool interleave) {
    cl::cfg = cl::Cfg();
    cl::cfg.groups = (int)draw(3); cl::cfg.visibility = (int)draw(4); cl::cfg.defer = chance(1, 2); cl::cfg.sequential = !interleave || chance(1, 2); cl::cfg.cpu = chance(1, 4);
    cl::cfg.rng = 1 + draw(1u << 20);
}
bool device_rejects() { return cl::no_kernels; }
bool device_failed() { return cl::failed; }
#else
bool device_rejects() { return false; }
bool device_failed() { return false; }
#endif
std::string text_of(const Prob& p, const std::vector<long>& v, bool fancy, long m) {
    std::vector<std::string> t{"P2", std::to_string(p.w), std::to_string(p.h), std::to_string(m)};
    for (long x : v) t.push_back(std::to_string(x));
    std::string s = render(t, fancy);
    if (chance(1, 16)) s.insert(3, "#" + std::string(3000 + draw(chance(1, 12) ? 70000 : 7000), 'c') + "\n");   // more than one buffer
    return s;
}
std::string weight_text(double v) {
    char b[32]; snprintf(b, sizeof b, "%g", v); std::string s = b;
    if (s.size() > 1 && s[0] == '0' && chance(1, 4)) s.erase(0, 1);   // .5
    if (s.find('.') != std::string::npos && chance(1, 4)) s += "0";
    return s;
}
Case gen_case(int invalid_of /* 0: always valid */) {
    Case c; GenOpt o; o.phi = false; o.shapes = chance(1, 6); o.levels = 16;
    step_budget = 600000000;
#ifdef SIM_CL
    c.device = !chance(1, 12);
    o.single = true; o.shapes = false; o.max_w = 4; o.max_h = 3; o.max_D = 3; o.max_nodes = 24;   // the device computes in single precision
    if (chance(1, 6)) { o.max_w = 6; o.max_h = 5; o.max_D = 4; o.max_nodes = 50; }
#endif
    c.p = gen_problem(o);
#ifndef SIM_CL
    if (chance(1, 100)) {   // as many levels as columns, more than small numbers
        c.p.w = c.p.D = 17 + (int)draw(20); c.p.h = 1; c.p.maxv = 1 + (long)draw(3);
        c.p.L.assign(c.p.w, 0); for (auto& v : c.p.L) v = (long)draw((uint32_t)c.p.maxv + 1); c.p.R = c.p.L;
        int sh = (int)draw((uint32_t)c.p.w - 1); for (int x = 0; x + sh < c.p.w; ++x) c.p.R[x] = c.p.L[x + sh];
        for (auto& v : c.p.R) if (chance(1, 8)) v = (long)draw((uint32_t)c.p.maxv + 1);
    } else if (chance(1, 400)) {   // more rows or columns than a byte counts
        int n = 250 + (int)draw(30); bool tall = chance(1, 2); c.p.w = tall ? 2 : n; c.p.h = tall ? n : 1; c.p.D = 2; c.p.maxv = 1 + (long)draw(4);  c.wide = true;
        c.p.L.assign(c.p.w * c.p.h, 0); c.p.R = c.p.L; for (auto& v : c.p.L) v = (long)draw((uint32_t)c.p.maxv + 1); for (auto& v : c.p.R) v = (long)draw((uint32_t)c.p.maxv + 1);
    }
#endif
    static const int cl[] = {1, 1, 2, 3, 0, 5}, sm[] = {1, 1, 2, 3, 0, 7};
    c.p.clean = cl[draw(6)]; c.p.smooth = sm[draw(6)];
    if (chance(1, 4)) { static const double fr[] = {0.5, 0.25, 1.5, 2.75, 0.125, 3.5}; c.p.smooth = fr[draw(6)]; if (chance(1, 2)) c.p.clean = fr[draw(6)]; if (chance(1, 3)) std::swap(c.p.clean, c.p.smooth); }
    if (c.p.clean == 0 && c.p.smooth == 0) c.p.smooth = 1;
    bool one_file = chance(1, 40);   // the same file as left and right image
    if (one_file) c.p.R = c.p.L;
    bool fancy = chance(1, 3);
    c.left = text_of(c.p, c.p.L, fancy, c.p.maxv); c.right = text_of(c.p, c.p.R, fancy, c.p.maxv);
    std::string l = "/w/left.pgm", r = "/w/right.pgm";
    std::string dl = std::to_string(c.p.D), s = weight_text(c.p.smooth), cc = weight_text(c.p.clean), par;
    bool give_d = c.p.D != c.p.w || chance(1, 2), give_s = c.p.smooth != 1 || chance(1, 2), give_c = c.p.clean != 1 || chance(1, 2), give_p = chance(1, 3);
    static const char* pars[] = {"omp", "cpu", "OpenMP", "OMP"};
    if (give_p) par = pars[draw(4)];
    if (c.device) { static const char* dev[] = {"cl", "opencl", "OpenCL", "CL"}; give_p = true; par = dev[draw(4)]; }
    bool give_l = true, give_r = true, give_o = true;
    std::vector<std::string> extra;
    if (invalid_of && chance(1, (uint32_t)invalid_of)) {
        c.valid = false;
        int k = (int)draw(20);
        switch (k) {
        case 0: case 1: case 2: {
            bool left = chance(1, 2); const auto& v = left ? c.p.L : c.p.R;
            std::vector<std::string> t{"P2", std::to_string(c.p.w), std::to_string(c.p.h), std::to_string(c.p.maxv)}; for (long x : v) t.push_back(std::to_string(x));
            std::string txt = malform(t, fancy, c.p.w, c.p.h); (left ? c.left : c.right) = txt; c.what = "damaged image";
            break;
        }
        case 3: l = "/w/missing.pgm"; c.what = "missing image"; break;
        case 4: r = "/w"; c.what = "a directory as image"; break;
        case 5: c.left = ""; c.what = "empty image"; break;
        case 6: { Prob q = c.p; q.w += 1; q.R.assign(q.w * q.h, 0); c.right = text_of(q, q.R, fancy, q.maxv); c.what = "different widths"; break; }
        case 7: { Prob q = c.p; q.h += 1; q.L.assign(q.w * q.h, 0); c.left = text_of(q, q.L, fancy, q.maxv); c.what = "different heights"; break; }
        case 8: c.right = text_of(c.p, c.p.R, fancy, c.p.maxv + 1 + (long)draw(300)); c.what = "different maximal values"; break;
        case 9: { static const char* d[] = {"0", "1", "x", "", "99999999999999999999", "1000"}; dl = d[draw(6)]; give_d = true; c.what = "refused disparity levels"; break; }
        case 10: s = cc = "0"; give_s = give_c = true; c.what = "two zero weights"; break;
        case 11: { static const char* d[] = {"x", "", "-", "nan?", "-1", "-0.5", "nan", "inf", "-inf", "1e999"}; (chance(1, 2) ? s : cc) = d[draw(10)]; give_s = give_c = true; c.what = "a weight that is refused"; break; }
        case 12: { static const char* d[] = {"gpu", "", "ompx", "cuda", "clx"}; par = d[draw(5)]; give_p = true; c.what = "unknown parallelism"; break; }
        case 13: (chance(1, 2) ? give_l : give_r) = false; c.what = "no image given"; break;
        case 14: give_o = false; c.what = "no output given"; break;
        case 15: extra = {chance(1, 2) ? "--bogus" : "-z"}; c.what = "unknown option"; break;
        case 16: extra = {"-l", "/w/right.pgm"}; c.what = "repeated option"; break;
        case 17: { static const char* d[] = {"/w/none/out.pgm", "/w", "", "/none"}; int q = (int)draw(3); c.out = d[q]; c.what = "output that cannot be opened"; break; }
        case 18: { auto& v = chance(1, 2) ? c.p.L : c.p.R; bool left = &v == &c.p.L; auto u = v; u[draw((uint32_t)u.size())] = c.p.maxv + 1 + (long)draw(100); (left ? c.left : c.right) = text_of(c.p, u, fancy, c.p.maxv); c.what = "intensity over the maximum"; break; }
        case 19: extra = {chance(1, 2) ? "-d" : "--left-image"}; give_d = false; c.what = "option without value"; break;
        }
    }
    if (one_file && c.valid) { r = l; c.one_file = true; c.right = c.left; }
    std::string op = c.out;
    if (chance(1, 3)) {   // other spellings of the same paths; the working directory is /w
        auto spell = [](std::string& f) { if (f.compare(0, 3, "/w/") || f.size() < 4) return; std::string b = f.substr(3); switch (draw(5)) { case 0: case 1: f = b; break; case 2: f = "./" + b; break; case 3: f = "/w/../w/" + b; break; case 4: break; } };
        spell(l); spell(r); spell(op);
    }
    c.ro_left = chance(1, 4); c.ro_right = chance(1, 4);
    std::vector<std::vector<std::string>> opt;
    auto add = [&](const char* sh, const char* lo, const std::string& v) {
        int f = (int)draw(3);
        if (v.empty()) f = f == 2 ? 2 : 1;
        if (f == 0) opt.push_back({sh, v}); else if (f == 1) opt.push_back({lo, v}); else if (v.empty()) opt.push_back({lo, v}); else opt.push_back({std::string(lo) + "=" + v});
    };
    if (give_l) add("-l", "--left-image", l);
    if (give_r) add("-r", "--right-image", r);
    if (give_o) add("-o", "--output-image", op);
    if (give_d) add("-d", "--disparity-levels", dl);
    if (give_s) add("-s", "--smoothness", s);
    if (give_c) add("-c", "--cleanness", cc);
    if (give_p) add("-p", "--parallel", par);
    for (size_t i = opt.size(); i > 1; --i) { size_t j = i - 1 - draw((uint32_t)i); std::swap(opt[i - 1], opt[j]); }
    c.args.push_back("stereo-parallel");
    for (auto& x : opt) for (auto& y : x) c.args.push_back(y);
    for (auto& y : extra) c.args.push_back(y);
    if (c.valid) {
        auto tl = oracle::parse(c.left), tr = oracle::parse(c.right);
        if (tl.kind != oracle::WELL || tr.kind != oracle::WELL) error("generated texts are not well-formed");
    } else if (!strcmp(c.what, "damaged image")) {
        // damage may leave another valid text, or one on which readers differ
        auto tl = oracle::parse(c.left), tr = oracle::parse(c.right);
        if (tl.kind != oracle::BAD && tr.kind != oracle::BAD) c.unclear = true;
    }
    c.has_old = chance(1, 2);
    if (c.has_old) { static const char* od[] = {"P2\n1 1\n255\n7\n", "", "an old file\n", "P2\n2 2\n9\n"}; int k = (int)draw(5); c.old = k < 4 ? od[k] : std::string(1 + draw(3000), 'o'); }
    c.others["/w/other.txt"] = "something else\n";
    c.others["/w/out.pgm~"] = "a backup\n"; c.others["/w/out.pgm.tmp"] = "not ours\n"; c.others["/tmp/x"] = "t";
    std::string a; for (auto& x : c.args) { a += x.empty() ? "''" : x; a += " "; }
    desc("command: %s(%s)", a.c_str(), c.what);
    desc("  left.pgm: \"%s\"%s", printable(c.left).c_str(), c.ro_left ? " (read only)" : ""); desc("  right.pgm: \"%s\"%s", printable(c.right).c_str(), c.ro_right ? " (read only)" : "");
    if (c.has_old) desc("  the output file exists with %zu bytes", c.old.size());
    return c;
}
void mount(const Case& c) {
    vfs::reset();
    vfs::files["/"].dir = vfs::files["/w"].dir = vfs::files["/tmp"].dir = true;
    vfs::files["/w/left.pgm"].data = c.left; vfs::files["/w/right.pgm"].data = c.right;
    vfs::files["/w/left.pgm"].read_only = c.ro_left; vfs::files["/w/right.pgm"].read_only = c.ro_right;
    if (c.has_old) vfs::files[OUT].data = c.old;
    for (auto& o : c.others) vfs::files[o.first].data = o.second;
#ifdef SIM_CL
    vfs::files["/w/lib"].dir = true;
    for (auto& s : sources()) vfs::files["/w/lib/" + s.first].data = s.second;
#endif
}
off_t err_bytes() { struct stat st; return fstat(2, &st) ? 0 : st.st_size; }
std::string err_text(off_t from) { std::string s; char b[512]; ssize_t n = pread(2, b, sizeof b, from); if (n > 0) s.assign(b, (size_t)n); return s; }
void terminated();
void quiet_stdout() { std::set_terminate(terminated); int fd = open("/dev/null", O_WRONLY); if (fd >= 0) dup2(fd, 1); }
struct Outcome { int status = 0; bool killed = false; std::string err; };
int main_fiber;
void terminated() {
    Harness h;
    void* f[40]; int n = backtrace(f, 40); std::string where;
    for (int i = 0; i < n; ++i) { Dl_info d; if (dladdr(f[i], &d) && d.dli_sname && strncmp(d.dli_sname, "_ZN", 3) == 0 && (strstr(d.dli_sname, "what") || strstr(d.dli_sname, "opencl_error") || strstr(d.dli_sname, "sp"))) { where = d.dli_sname; } if (!where.empty()) break; }
    std::string what = "no exception";
    if (auto p = std::current_exception()) { try { std::rethrow_exception(p); } catch (const std::exception& e) { what = typeid(e).name(); } catch (...) { what = "an exception of unknown type"; } }
    if (!policy.crash_is_violation) { desc("  the program is terminated by %s", what.c_str()); vfs::exited = true; vfs::exit_status = -9; end_fiber_now(); }
    fail("terminate", "the program is terminated by %s%s%s", what.c_str(), where.empty() ? "" : " leaving ", where.c_str());
}
Outcome run_program(const Case& c, uint64_t kill_access = 0) {
    Outcome o; off_t e0 = err_bytes(); bool done = false;
    main_fiber = spawn("program", [&] {
        Sut u;
        std::vector<char*> argv; { Harness h; for (auto& a : c.args) argv.push_back(strdup(a.c_str())); argv.push_back(nullptr); }
        int st = sp_main((int)c.args.size(), argv.data());
        Harness h; o.status = st; done = true;
    });
    if (kill_access) kill_after(main_fiber, kill_access);
    join(main_fiber);
    o.killed = fiber_killed(main_fiber) || (vfs::exited && vfs::exit_status == -9);
    if (vfs::exited && !o.killed) { o.status = vfs::exit_status; done = true; }
    if (!done && !o.killed) error("the program ended without a status");
    o.err = err_text(e0);
    desc("  t=%llu %s, status %d, standard error: \"%s\"", (unsigned long long)now(), o.killed ? "killed" : "ended", o.status, printable(o.err).c_str());
    return o;
}
// the program alone on a machine without faults
struct Clean { std::string out; bool exists = false; int status = 0; bool err = false; long count[vfs::OPS] = {0}, total = 0; uint64_t allocs = 0, accesses = 0; long calls = 0, launches = 0; };
Clean clean_run(const Case& c) {
    auto v = solo([&] {
        mount(c); vfs::changed = nullptr; vfs::truncating = nullptr; alloc_plan = AllocPlan();
        Outcome o = run_program(c);
        std::vector<double> r{(double)o.status, o.err.empty() ? 0. : 1., (double)vfs::total, (double)alloc_plan.count, (double)fiber_accesses(main_fiber), vfs::files.count(c.out) && !vfs::files[c.out].dir ? 1. : 0.};
        for (int i = 0; i < vfs::OPS; ++i) r.push_back((double)vfs::count[i]);
#ifdef SIM_CL
        r.push_back((double)cl::calls); r.push_back((double)cl::launches);
#else
        r.push_back(0); r.push_back(0);
#endif
        if (vfs::files.count(c.out)) for (unsigned char ch : vfs::files[c.out].data) r.push_back(ch);
        return r;
    });
    Clean k; k.status = (int)v[0]; k.err = v[1] != 0; k.total = (long)v[2]; k.allocs = (uint64_t)v[3]; k.accesses = (uint64_t)v[4]; k.exists = v[5] != 0;
    for (int i = 0; i < vfs::OPS; ++i) k.count[i] = (long)v[6 + i];
    k.calls = (long)v[6 + vfs::OPS]; k.launches = (long)v[7 + vfs::OPS];
    for (size_t i = 8 + vfs::OPS; i < v.size(); ++i) k.out += (char)(int)v[i];
    return k;
}
bool structural(const Case& c, const std::string& s) {
    oracle::Text t = oracle::parse(s);
    return t.literal && t.w == (unsigned long)c.p.w && t.h == (unsigned long)c.p.h && t.m == (unsigned long)c.p.D && oracle::longest_line(s) <= 70;
}
void inputs_untouched(const Case& c, const char* when) {
    auto same = [&](const char* p, const std::string& want) { auto it = vfs::files.find(p); if (it == vfs::files.end()) fail("file-harmed", "%s: %s was removed", when, p); if (it->second.data != want) fail("file-harmed", "%s: %s was changed from \"%s\" to \"%s\"", when, p, printable(want).c_str(), printable(it->second.data).c_str()); };
    same("/w/left.pgm", c.left); same("/w/right.pgm", c.right);
    for (auto& o : c.others) same(o.first.c_str(), o.second);
}

void c14() {
    quiet_stdout();
    Case c = gen_case(0);
    gen_omp(); heap_reuse = chance(1, 4);
    mount(c);
    int m = (int)draw(4);
    vfs::plan.benign_short = m & 1; vfs::plan.benign_intr = m & 2;
    Ref ref(c.p); double t = ref.min_threshold();
    auto lab = ref.label(ref.gfp(ref.initial(t), t), t);
    if (lab.empty()) error("the reference finds no labeling");
    choose_sched();
#ifdef SIM_CL
    gen_device(true);
#endif
    Outcome o = run_program(c);
    if (device_rejects()) { probe(30); skip("the compiler of the device rejects the kernels"); }
    if (c.device) probe(4); if (c.wide) probe(5);
    probe(0); if (R->faults[F_SHORT_READ] + R->faults[F_SHORT_WRITE]) probe(1); if (R->faults[F_EINTR]) probe(2); if (R->faults[F_PREEMPT]) probe(3);
    if (R->faults[F_SHORT_READ] + R->faults[F_SHORT_WRITE] + R->faults[F_EINTR] + R->faults[F_PREEMPT]) set_nontrivial();
    if (o.status) fail("bad-status", "a valid run ends with status %d: %s", o.status, o.err.c_str());
    if (!o.err.empty()) fail("spurious-error", "a valid run prints an error: %s", o.err.c_str());
    if (!vfs::files.count(c.out)) fail("no-output", "a valid run leaves no output file");
    const std::string& s = vfs::files[c.out].data;
    oracle::Text x = oracle::parse(s);
    if (!structural(c, s)) fail("bad-output", "the output \"%s\" is not a complete plain PGM of %dx%d with maximal value %d", printable(s).c_str(), c.p.w, c.p.h, c.p.D);
    if (s.empty() || s.back() != '\n') fail("bad-output", "the output \"%s\" lacks its last line end", printable(s).c_str());
    for (int i = 0; i < c.p.w * c.p.h; ++i) if (x.v[i] != (unsigned long)lab[i]) {
        std::string w; for (int d : lab) w += " " + std::to_string(d);
        fail("wrong-map", "the output \"%s\" is not the disparity map of the reference:%s", printable(s).c_str(), w.c_str());
    }
    inputs_untouched(c, "a valid run");
}

int gen_faults(const Case& c, const Clean& k, bool kills) {
    static const int rd[] = {EIO, EISDIR, ESTALE, EBADF}, wr[] = {EIO, ENOSPC, EDQUOT, EFBIG}, op[] = {EACCES, ENOENT, EMFILE, EROFS, EIO, ENOSPC}, cl[] = {EIO, ENOSPC, EDQUOT};
    int n = 0; auto& P = vfs::plan;
#ifdef SIM_CL
    if (c.device && k.calls && chance(1, 2)) {
        int how = (int)draw(8);
        if (how == 0) { cl::cfg.present = false; desc("there is no OpenCL device"); }
        else if (how == 1 && k.launches) { cl::cfg.exec_fail_at = (long)draw((uint32_t)k.launches); desc("launch #%ld dies on the device", cl::cfg.exec_fail_at); }
        else { cl::cfg.fail_at = (long)draw((uint32_t)k.calls); cl::cfg.lasting = chance(1, 2); desc("device call #%ld fails%s", cl::cfg.fail_at, cl::cfg.lasting ? ", as do all later ones" : ""); }
        n |= 256;
        if (!chance(1, 6)) return n;
    }
#endif
    int rounds = chance(1, 4) ? 2 : 1;
    for (int q = 0; q < rounds; ++q) {
        switch (draw(kills ? 9 : 7)) {
        case 0: if (k.count[vfs::READ]) { P.fail_at[vfs::READ] = (long)draw((uint32_t)k.count[vfs::READ]); P.fail_errno[vfs::READ] = rd[draw(4)]; P.lasting[vfs::READ] = chance(1, 2); n |= 1; } break;
        case 1: if (k.count[vfs::WRITE]) { P.fail_at[vfs::WRITE] = (long)draw((uint32_t)k.count[vfs::WRITE]); P.fail_errno[vfs::WRITE] = wr[draw(4)]; P.lasting[vfs::WRITE] = chance(1, 2); P.partial = chance(1, 2); n |= 2; } break;
        case 2: P.disk = (long)draw((uint32_t)k.out.size() + 2); n |= 4; break;
        case 3: if (k.count[vfs::OPEN]) { P.fail_at[vfs::OPEN] = (long)draw((uint32_t)k.count[vfs::OPEN]); P.fail_errno[vfs::OPEN] = op[draw(6)]; P.lasting[vfs::OPEN] = chance(1, 2); n |= 8; } break;
        case 4: if (k.count[vfs::CLOSE]) { P.fail_at[vfs::CLOSE] = (long)(k.count[vfs::CLOSE] - 1 - (long)draw((uint32_t)k.count[vfs::CLOSE])); P.fail_errno[vfs::CLOSE] = cl[draw(3)]; P.lose_on_close = chance(1, 2); n |= 16; } break;
        case 5: case 6: alloc_plan.fail_at = (int64_t)alloc_plan.count + draw((uint32_t)k.allocs + 1); alloc_plan.forever = chance(1, 2); n |= 32; break;
        case 7: if (k.total) { P.kill_at = (long)draw((uint32_t)k.total); P.kill_phase = (int)draw(3); n |= 64; } break;
        case 8: n |= 128; break;
        }
    }
    if (chance(1, 3)) P.benign_short = true;
    if (chance(1, 4)) P.benign_intr = true;
    return n;
}

void c15() {
    quiet_stdout();
    Case c = gen_case(3);
    bool team = chance(1, 3);
    if (team) gen_omp(); else omp.threads = 1;
    heap_reuse = chance(1, 4);
    if (chance(1, 3)) alloc_plan.limit = 8 << 20;
    size_t lim = alloc_plan.limit;
#ifdef SIM_CL
    gen_device(false);
#endif
    Clean k = clean_run(c);
    mount(c); alloc_plan.limit = lim;
    if (!chance(1, 6)) gen_faults(c, k, false);
    // a fault may also be in the content of an input: it ends early
    bool cut = false;
    if (c.valid && chance(1, 10)) { std::string& d = chance(1, 2) ? c.left : c.right; size_t n = draw((uint32_t)d.size()); d.resize(n); if (c.one_file) c.left = c.right = d; cut = true; fault(F_EARLY_EOF); auto pl = vfs::plan; mount(c); vfs::plan = pl; desc("  an input ends early, after %zu bytes", n); }
    choose_sched();
    Outcome o = run_program(c);
    bool injected = vfs::hard_failure || alloc_plan.failed || cut || device_failed();
    probe(0); if (!c.valid) probe(1); if (vfs::hard_failure) probe(2); if (alloc_plan.failed) probe(3); if (cut) probe(4); if (device_failed()) probe(7); if (c.device) probe(8); if (c.wide) probe(9);
    if (injected || !c.valid) set_nontrivial();
    bool exists = vfs::files.count(c.out) && !vfs::files[c.out].dir;
    std::string s = exists ? vfs::files[c.out].data : "";
    bool complete = false;
    if (cut) { // what is left may be a text of its own
        auto a = oracle::parse(c.left), b = oracle::parse(c.right);
        if (a.kind == oracle::WELL && b.kind == oracle::WELL) complete = exists && structural(c, s);
    } else if (c.valid) complete = exists && (team || s == k.out) && structural(c, s);   // which map is right is not asked here
    else if (c.unclear) complete = exists && oracle::parse(s).literal;
    if (complete) probe(5); else probe(6);
    if (!complete && o.err.empty())
        fail("silent-loss", "the program (%s%s%s%s%s) ends with status %d and says nothing, but the output file %s \"%s\"", c.what, vfs::hard_failure ? ", I/O failure" : "", alloc_plan.failed ? ", out of memory" : "", cut ? ", input ends early" : "", device_failed() ? ", device failure" : "", o.status, exists ? "holds only" : "does not exist", printable(s).c_str());
}

void c16() {
    quiet_stdout();
    policy.crash_is_violation = policy.hang_is_violation = false; R->crash_ok = 1;   // other properties
    Case c = gen_case(4);
    omp.threads = 1;
    heap_reuse = chance(1, 4);
#ifdef SIM_CL
    gen_device(false);
#endif
    Clean k = clean_run(c);
    bool map_due = k.exists && structural(c, k.out) && !k.err;
    std::vector<unsigned long> map = oracle::parse(k.out).v;
    mount(c);
    int f = chance(1, 8) ? 0 : gen_faults(c, k, true);
    bool opened = !c.has_old;      // the old content is gone
    auto computed = [&] {
        // the finished map has to be somewhere in the memory of the program
        auto look = [&](auto zero) { std::vector<decltype(zero)> a, b; for (auto v : map) a.push_back((decltype(zero))v); for (int x = 0; x < c.p.w; ++x) for (int y = 0; y < c.p.h; ++y) b.push_back((decltype(zero))map[y * c.p.w + x]); return in_live_memory(a.data(), a.size() * sizeof(zero)) || in_live_memory(b.data(), b.size() * sizeof(zero)); };
        return look((uint64_t)0) || look((uint32_t)0) || look((uint16_t)0) || look((uint8_t)0) || look((double)0) || look((float)0) || in_live_memory(k.out.data(), k.out.size());
    };
    auto out_changed = [&](const char* what) {
        auto it = vfs::files.find(c.out);
        if (it == vfs::files.end()) { if (c.has_old) fail("old-output-lost", "the previous output file was removed (%s)", what); return; }
        const std::string& s = it->second.data;
        if (!opened && s == c.old) return;
        if (!map_due && !(s.empty() && !c.has_old)) fail("output-without-result", "there is no disparity map to write (%s), but the output file was %s", c.what, what);
        if (!map_due) return;
        if (!vfs::write_refused) if (s.size() > k.out.size() || k.out.compare(0, s.size(), s) != 0) fail("not-a-prefix", "the output file was %s and holds \"%s\", which is not the beginning of the new map \"%s\"", what, printable(s).c_str(), printable(k.out).c_str());
        if (!opened) { opened = true; probe(1); if (!computed()) fail("opened-too-early", "the previous output file was %s before the disparity map was computed", what); }
    };
    vfs::changed = [&](const std::string& path, const char* what, const std::string& before) {
        (void)before;
        if (path == c.out) out_changed(what);
        else inputs_untouched(c, "during the run");
    };
    choose_sched();
    uint64_t ka = 0;
    if (f & 128) { ka = 1 + (uint64_t)draw((uint32_t)std::min<uint64_t>(k.accesses + 1, 1u << 30)); }
    Outcome o = run_program(c, ka);
    vfs::changed = nullptr;
    if (o.killed) { probe(2); if (ka && fiber_killed(main_fiber)) fault(F_CRASH); }
    probe(0); if (!map_due) probe(3); if (vfs::hard_failure || alloc_plan.failed) probe(4); if (device_failed()) probe(5); if (c.device) probe(6); if (c.wide) probe(7);
    if (o.killed || device_failed() || vfs::hard_failure || alloc_plan.failed || !map_due) set_nontrivial();
    inputs_untouched(c, o.killed ? "after the process was killed" : "after the run");
    if (c.has_old && c.out == OUT) {
        auto it = vfs::files.find(c.out);
        if (it == vfs::files.end()) fail("old-output-lost", "the previous output file is gone");
        if (!opened && it->second.data != c.old) fail("old-output-lost", "the previous output file was changed without a result");
    }
}
Reg r14("C14", c14), r15("C15", c15), r16("C16", c16);
#ifdef SIM_CL
// read the kernel sources and compile them before the runs are forked
void warm() {
    const char* r = getenv("VERIF_REPO"); if (r && chdir(r)) { perror("chdir"); _exit(3); }
    if (DIR* d = opendir("lib")) {
        while (dirent* e = readdir(d)) {
            std::string n = e->d_name; struct stat st; if (stat(("lib/" + n).c_str(), &st) || !S_ISREG(st.st_mode)) continue;
            std::ifstream f("lib/" + n, std::ios::binary); std::stringstream s; s << f.rdbuf(); sources()[n] = s.str();
        }
        closedir(d);
    }
    int fd[2]; if (pipe(fd)) return;
    pid_t p = fork();
    if (p == 0) {
        alarm(20); close(fd[0]); cl::capture_fd = fd[1]; quiet_stdout();
        Case c; c.p.w = 2; c.p.h = 1; c.p.D = 2; c.left = c.right = "P2\n2 1\n1\n0 0\n"; c.args = {"stereo-parallel", "-l", "/w/left.pgm", "-r", "/w/right.pgm", "-o", OUT, "-p", "cl"};
        mount(c); run_program(c);
        _exit(0);
    }
    close(fd[1]); std::string s; char buf[65536]; ssize_t n; while ((n = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, (size_t)n);
    close(fd[0]); int st; waitpid(p, &st, 0);
    cl::compile_captured(s);
}
RegWarm w(warm);
#endif
}
