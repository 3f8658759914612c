#!/usr/bin/env python3
"""clcc.py SOURCE WORKDIR OPTIONS... : compile OpenCL C to a host library for the simulated device.
Run with the directory the device compiler resolves relative include paths against as cwd.
Prints the path of the library; beside it lies a .meta file: one line per kernel (name and argument types).
Exit 3: the source does not compile (message on standard output)."""
import hashlib, os, re, subprocess, sys

src, work, opts = sys.argv[1], sys.argv[2], sys.argv[3:]
os.makedirs(work, exist_ok=True)
std = [o for o in opts if o.startswith("-cl-")]
rest = [o for o in opts if not o.startswith("-cl-")]
if not any(o.startswith("-cl-std") for o in std):
    std.append("-cl-std=CL1.2")
def flags(std):
    return ["clang", "-x", "cl"] + std + rest + ["-w", "-cl-kernel-arg-info", "-target", "x86_64-unknown-linux-gnu", "-O2", "-mllvm", "-inline-threshold=100000", "-fno-vectorize", "-fno-slp-vectorize", "-g0", "-fPIC", "-ffp-contract=off"]


# what OpenCL C does not know but C++ for OpenCL does is no reason not to run the kernels
for base in (flags(std), flags([o for o in std if "-cl-std" not in o] + ["-cl-std=clc++1.0", "-D__OPENCL_C_VERSION__=120"])):
    c = subprocess.run(base + ["-fsyntax-only", src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if c.returncode == 0:
        break
else:
    print(c.stdout[-3000:])
    sys.exit(3)
p = subprocess.run(base + ["-E", "-P", src, "-o", "-"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
key = hashlib.sha256((p.stdout + repr(base) + open(__file__).read()).encode()).hexdigest()[:20]
so = os.path.join(work, key + ".so")
if not (os.path.exists(so) and os.path.exists(so + ".meta")):
    t = os.path.join(work, "%s.%d" % (key, os.getpid()))
    c = subprocess.run(base + ["-fsanitize=thread", "-S", "-emit-llvm", src, "-o", t + ".ll"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if c.returncode:
        print(c.stdout[-3000:])
        sys.exit(3)
    ll = open(t + ".ll").read()
    md = dict(re.findall(r"^!(\d+) = !\{(.*)\}$", ll, re.M))
    kernels = []
    for name, attrs in re.findall(r"^define [^\n]*spir_kernel[^\n]*@(\w+)\(([^\n]*)$", ll, re.M) or re.findall(r"^define [^\n]*@(\w+)\(([^\n]*!kernel_arg_type [^\n]*)$", ll, re.M):
        m = re.search(r"!kernel_arg_base_type !(\d+)", attrs)
        q = re.search(r"!kernel_arg_addr_space !(\d+)", attrs)
        types = re.findall(r'!"([^"]*)"', md[m.group(1)]) if m else []
        space = re.findall(r"i32 (\d+)", md[q.group(1)]) if q else []
        kernels.append((name, list(zip(types, space))))
    barrier = 1 if re.search(r"call [^\n]*@_Z(7barrier|18work_group_barrier)", ll) else 0
    with open(t + ".meta", "w") as f:
        f.write("barrier %d\n" % barrier)
        for n, a in kernels:
            f.write(n + "".join(" %s:%s" % (ty.replace(" ", "_"), sp) for ty, sp in a) + "\n")
    c = subprocess.run(["clang", "-w", "-O0", "-fPIC", "-shared", "-nostdlib", t + ".ll", "-o", t + ".so"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if c.returncode:
        print(c.stdout[-3000:])
        sys.exit(4)
    os.rename(t + ".meta", so + ".meta")
    os.rename(t + ".so", so)
    os.unlink(t + ".ll")
print(so)
