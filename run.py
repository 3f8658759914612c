#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree and runs, minimises and replays simulated executions.

  run.py check ID        decide property ID (tier from VERIF_TIER, seed from VERIF_SEED)
  run.py replay FILE     reproduce a replay file exactly
  run.py setup           build everything once
  run.py selftest [ID]   determinism of the simulator itself
"""
import concurrent.futures, hashlib, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD_DIR", os.path.join(V, ".build"))
SIM = os.path.join(V, "sim")
EVID = os.path.join(V, "evidence")
REPLAYS = os.path.join(V, "replays")
KNOWN = os.path.join(V, "known_findings.txt")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
NCPU = min(8, os.cpu_count() or 8)

from checks import CHECKS, CORE_LIB, FLAVOURS, WRAPS  # noqa: E402


# ------------------------------------------------------------------ build
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest_tree():
    """Everything of the working tree that can influence a compilation."""
    h = hashlib.sha256()
    for d in ("include", "lib"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".hpp", ".h", ".cl", ".cuh", ".inc", ".ipp")) or "." not in f:
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, REPO).encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def file_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(open(p, "rb").read())
    return h.hexdigest()


class BuildError(Exception):
    pass


def compile_one(job):
    src, out, flags, key, post = job
    stamp = out + ".key"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return None
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = sh(["g++"] + flags + ["-c", src, "-o", out])
    if r.returncode:
        return "compiling %s failed:\n%s" % (src, r.stdout[-4000:])
    for c in post:
        r = sh([a.replace("@", out) for a in c])
        if r.returncode:
            return "%s failed: %s" % (c, r.stdout)
    open(stamp, "w").write(key)
    return None


def build(flavours):
    tree = digest_tree()
    simh = file_hash(*sorted(os.path.join(SIM, f) for f in os.listdir(SIM) if f.endswith(".h")))
    jobs, links = [], []
    for fl in flavours:
        F = FLAVOURS[fl]
        d = os.path.join(BUILD, fl)
        objs = []
        libs = sorted(os.listdir(os.path.join(REPO, "lib")))
        srcs = [f for f in libs if f.endswith(".cpp") and (f not in ("main.cpp", "gpu_csp.cpp", "compile_cl.cpp") or f in F["extra_lib"])]
        for f in srcs:
            src = os.path.join(REPO, "lib", f)
            out = os.path.join(d, "sut_" + f + ".o")
            flags = F["sut_flags"] + ["-I" + os.path.join(REPO, "include")]
            post = [["objcopy", "--redefine-sym", "main=sp_main", "@"]] if f == "main.cpp" else []
            jobs.append((src, out, flags, hashlib.sha256((tree + file_hash(src) + repr(flags) + repr(post)).encode()).hexdigest(), post))
            objs.append(out)
        for f in F["harness"]:
            src = os.path.join(SIM, f)
            out = os.path.join(BUILD, F.get("hdir", "harness"), f + ".o")
            flags = F["harness_flags"] + ["-I" + os.path.join(REPO, "include"), "-I" + SIM]
            k = file_hash(src) + simh + repr(flags) + ("" if f in ("rt.cpp", "gomp.cpp") else tree)
            j = (src, out, flags, hashlib.sha256(k.encode()).hexdigest(), [])
            if j not in jobs:
                jobs.append(j)
            if f == "fastio.cpp":
                objs.insert(0, out)
            else:
                objs.append(out)
        links.append((fl, objs, ["-Wl," + ",".join("--wrap=" + w for w in WRAPS + F.get("wraps", []))] + F["link"]))
    # long compilations first
    jobs.sort(key=lambda j: -(("main" in j[0]) * 4 + ("gpu_csp" in j[0]) * 3 + ("scen" in j[0]) * 2))
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        raise BuildError("\n".join(errs))
    out = {}
    for fl, objs, link in links:
        exe = os.path.join(BUILD, fl, "sim")
        key = hashlib.sha256("".join(open(o + ".key").read() for o in objs).encode() + repr(link).encode()).hexdigest()
        if not (os.path.exists(exe) and os.path.exists(exe + ".key") and open(exe + ".key").read() == key):
            r = sh(["g++", "-no-pie", "-rdynamic", "-g"] + objs + ["-o", exe] + link)
            if r.returncode:
                raise BuildError("linking %s failed:\n%s" % (fl, r.stdout[-4000:]))
            open(exe + ".key", "w").write(key)
        out[fl] = exe
    return out


# ------------------------------------------------------------------ running
def env_for():
    e = dict(os.environ)
    e["VERIF_BUILD"] = BUILD
    e["VERIF_REPO"] = REPO
    e["VERIF_SIM"] = SIM
    for k in list(e):
        if k.startswith("OMP_") or k.startswith("GOMP_"):
            del e[k]
    return e


def batch(exe, scen, seed, start, count, wall, workers=NCPU, loghash=False, tag="b"):
    out = os.path.join(BUILD, "out-%s-%s-%d.json" % (scen, tag, os.getpid()))
    cmd = [exe, "batch", scen, str(seed), str(start), str(count), str(workers), str(wall), out] + (["log"] if loghash else [])
    r = sh(cmd, cwd=REPO, env=env_for())
    if r.returncode or not os.path.exists(out):
        raise BuildError("simulator failed (%d): %s" % (r.returncode, r.stdout[-2000:]))
    d = json.load(open(out))
    os.remove(out)
    if r.stdout.strip():
        d["stdout"] = r.stdout[-2000:]
    return d


class Server:
    def __init__(self, exe):
        self.p = subprocess.Popen([exe, "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=REPO, env=env_for())
        self.n = 0

    def run(self, scen, seed=0, sched=0, tape=None, dev=None, verbose=0, full=1):
        self.n += 1
        t = "-1" if tape is None else " ".join(map(str, [len(tape)] + list(tape)))
        d = "-1" if dev is None else " ".join([str(len(dev))] + ["%d %d" % tuple(x) for x in dev])
        self.p.stdin.write("run %s %d %d %d %d %s %s\n" % (scen, seed, sched, verbose, full, t, d))
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise BuildError("simulator died")
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


def minimise(srv, scen, v, deadline):
    """v: violation result with tape and dev. Keeps the kind of violation."""
    kind = v["kind"]
    best = v

    def size(r):
        return (len(r["tape"]), sum(r["tape"]), len(r["dev"]))

    def attempt(tape, tries):
        # the schedule recorded so far first, then the plain one, then random ones
        for k in range(tries):
            if time.time() > deadline:
                return None
            if k == 0:
                r = srv.run(scen, tape=tape, dev=[])
            elif k == 1:
                r = srv.run(scen, tape=tape, dev=best["dev"])
            else:
                r = srv.run(scen, tape=tape, sched=1000 + k)
            if r["status"] == 2 and r["kind"] == kind and not r["overflow"]:
                return r
        return None

    sequential = srv.run(scen, tape=v["tape"], dev=[])
    tries = 2 if sequential["status"] == 2 and sequential["kind"] == kind else 14
    # smaller first choices (dimensions and the like), the rest chosen anew
    t_end = time.time() + (deadline - time.time()) * 0.4
    i = 0
    while i < min(len(best["tape"]), 12) and time.time() < t_end:
        hit = False
        for y in range(0, min(best["tape"][i], 4)):
            for s in range(1, 160):
                if time.time() > t_end:
                    break
                r = srv.run(scen, tape=best["tape"][:i] + [y], seed=s, sched=s)
                if r["status"] == 2 and r["kind"] == kind and not r["overflow"] and size(r) < size(best):
                    best = r
                    hit = True
                    break
            if hit:
                break
        if not hit:
            i += 1
    sequential = srv.run(scen, tape=best["tape"], dev=[])
    tries = 2 if sequential["status"] == 2 and sequential["kind"] == kind else 14
    improved = True
    while improved and time.time() < deadline:
        improved = False
        # cut the tail, then delete blocks, then lower values
        n = len(best["tape"])
        step = max(1, n // 2)
        while step >= 1 and time.time() < deadline:
            i = 0
            while i < len(best["tape"]) and time.time() < deadline:
                t = best["tape"]
                cand = t[:i] + t[i + step:]
                zero = t[:i] + [0] * min(step, len(t) - i) + t[i + step:]
                done = False
                for c in (zero, cand):
                    if c == t:
                        continue
                    r = attempt(c, tries)
                    if r and size(r) < size(best):
                        best = r
                        improved = done = True
                        break
                if not done:
                    i += step
            step //= 2
        i = 0
        while i < len(best["tape"]) and time.time() < deadline:
            x = best["tape"][i]
            for y in (x // 2, x - 1):
                if 0 <= y < x:
                    c = list(best["tape"])
                    c[i] = y
                    r = attempt(c, tries)
                    if r and size(r) < size(best):
                        best = r
                        improved = True
                        break
            else:
                i += 1
                continue
            if best["tape"][i:i + 1] == [x]:
                i += 1
    # deviations of the schedule
    dev = list(best["dev"])
    n = 2
    while dev and time.time() < deadline + 10:
        chunk = max(1, (len(dev) + n - 1) // n)
        hit = False
        for i in range(0, len(dev), chunk):
            c = dev[:i] + dev[i + chunk:]
            r = srv.run(scen, tape=best["tape"], dev=c)
            if r["status"] == 2 and r["kind"] == kind and len(r["dev"]) <= len(c):
                best, dev, hit = r, list(r["dev"]), True
                break
            if time.time() > deadline + 10:
                break
        if not hit:
            if chunk == 1:
                break
            n = min(len(dev), n * 2)
        else:
            n = max(2, n - 1)
    return best


def replay_file(path):
    d = json.load(open(path))
    exe = build([d["flavour"]])[d["flavour"]]
    s = Server(exe)
    r = s.run(d["scenario"], tape=d["tape"], dev=d["deviations"], verbose=1)
    s.close()
    same = r["status"] == 2 and r["kind"] == d["kind"] and r["hash"] == d["hash"]
    print(r["desc"])
    print("%s: %s" % (r["kind"] or "no violation", r["msg"]))
    if r["status"] == 2 and r["kind"] == d["kind"]:
        print("VIOLATION property=%s replay=%s%s" % (d["property"], path, "" if same else " (event log differs from the recorded one)"))
        return 1
    print("the violation does not occur")
    return 0


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) kind=(\S+) match=/(.*?)/ (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(dict(kind=m.group(2), rx=re.compile(m.group(3)), what=m.group(4)))
    return out


# ------------------------------------------------------------------ check
def add(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            add(a.setdefault(k, {}), v)
        elif isinstance(v, list) and v and all(isinstance(x, int) for x in v):
            old = a.setdefault(k, [0] * len(v))
            a[k] = [x + y for x, y in zip(old, v)]
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            a[k] = max(a.get(k, 0), v) if k in ("maxsteps", "maxfib", "cov") else a.get(k, 0) + v


def check(prop):
    C = CHECKS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    total_wall = C["wall"][1 if TIER == "thorough" else 0]
    parts = C["parts"]
    ev_path = os.path.join(EVID, prop + ".json")
    try:
        exes = build(sorted({p["flavour"] for p in parts}))
    except BuildError as e:
        print("ERROR: %s" % e)
        return 2
    t_build = time.time() - t0
    agg, per_part, samples, violation, errors = {}, [], [], None, []
    known, known_hit = known_findings(prop), {}
    share = sum(p["share"] for p in parts)
    for p in parts:
        wall = total_wall * p["share"] / share
        start, end = 0, time.time() + wall
        while True:
            left = end - time.time()
            if left <= 0 and start > 0:
                break
            d = batch(exes[p["flavour"]], p["scen"], SEED, start, p.get("count", 4000000), max(left, 1), tag=p["flavour"])
            add(agg, {k: v for k, v in d.items() if k in ("runs", "ok", "skip", "err", "steps", "maxsteps", "switches", "conflicts", "allocs", "io", "maxfib", "nontrivial", "distinct", "orders", "cov", "faults", "probes")})
            per_part.append(dict(flavour=p["flavour"], scenario=p["scen"], runs=d["runs"], wall_s=d["wall"], distinct=d["distinct"], interleavings=d["orders"], probes={n: d["probes"][i] for i, n in enumerate(p.get("probes", C.get("probes", []))) if n}))
            samples += d["samples"][:2]
            if d["err"]:
                errors.append(d["errmsg"])
            if d.get("stdout"):
                errors.append(d["stdout"])
            if "violation" not in d:
                break
            v = d["violation"]
            k = next((k for k in known if k["kind"] == v["kind"] and k["rx"].search(v["msg"])), None)
            if not k:
                violation = (p, d["violation_index"], v)
                break
            known_hit[k["what"]] = known_hit.get(k["what"], 0) + 1
            start = d["violation_index"] + 1
        if violation:
            break
    code = 0
    if any(x["probes"].get("kernels_rejected") for x in per_part):
        print("WARNING: the device compiler rejects the kernels; what they compute was not explored")
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rep = None
    if violation:
        rep, code = report(prop, exes, *violation)
    # does the same seed give the same execution, whatever the number of workers?
    det = None
    if not violation:
        p = parts[0]
        n = 64
        a = batch(exes[p["flavour"]], p["scen"], SEED, 0, n, 20, workers=NCPU, loghash=True, tag="d1")
        b = batch(exes[p["flavour"]], p["scen"], SEED, 0, n, 20, workers=3, loghash=True, tag="d2")
        both = [i for i in range(n) if a["log"][i] != "0" and b["log"][i] != "0"]
        det = dict(executions_repeated=len(both), differing_event_logs=sum(a["log"][i] != b["log"][i] for i in both))
        if det["differing_event_logs"]:
            print("WARNING: %d of %d repeated executions had a different event log" % (det["differing_event_logs"], len(both)))
    runs = agg.get("runs", 0)
    wall = sum(x["wall_s"] for x in per_part) or 1e-9
    if code == 0 and runs and agg.get("err", 0) > max(2, runs // 100):
        print("ERROR: %d of %d runs failed in the harness: %s" % (agg["err"], runs, errors[:1]))
        code = 2
    if code == 0 and (not agg.get("ok") or agg.get("distinct", 0) < 20):
        print("ERROR: only %d non-trivial executions of %d: %s" % (agg.get("distinct", 0), runs, errors[:1]))
        code = 2
    evidence = {
        "property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": C.get("level", "exploration"),
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": agg.get("distinct", 0), "rule": C["rule"], "samples": [s for s in samples if s][:4],
            "simulated_runs_per_hour": int(runs / wall * 3600), "seeds_per_hour": int(runs / wall * 3600),
            "simulated_time": {"steps": agg.get("steps", 0), "unit": "memory accesses and runtime calls of the code under test; one step is one tick of the simulated clock", "longest_run": agg.get("maxsteps", 0)},
            "fault_kinds_injected": {k: {"times": v[0], "runs": v[1]} for k, v in agg.get("faults", {}).items()},
            "distinct_interleavings": agg.get("orders", 0), "interleaving_measure": "distinct hashes of the order in which simulated threads made conflicting accesses (same 8 bytes, at least one write), among the non-trivial runs",
            "context_switches": agg.get("switches", 0), "conflicting_access_handovers": agg.get("conflicts", 0), "most_threads_alive": agg.get("maxfib", 0),
            "simulated_allocations": agg.get("allocs", 0), "simulated_io_operations": agg.get("io", 0), "basic_blocks_reached": agg.get("cov", 0),
            "runs_saying_nothing": agg.get("skip", 0), "harness_errors": agg.get("err", 0), "harness_error_messages": errors[:3],
            "parts": per_part, "determinism_recheck": det, "real_code": C["real"], "stubs": C["stubs"], "build_s": round(t_build, 2),
            "known_findings_hit": known_hit,
        },
        "assumptions": C["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
    }
    json.dump(evidence, open(ev_path, "w"), indent=1)
    print("%s: %d runs (%d non-trivial distinct, %d interleavings, %d skipped, %d errors) in %.1f s, build %.1f s" % (prop, runs, agg.get("distinct", 0), agg.get("orders", 0), agg.get("skip", 0), agg.get("err", 0), wall, t_build))
    return code


def report(prop, exes, part, index, v):
    scen, fl = part["scen"], part["flavour"]
    exe = exes[fl]
    seed = int(sh([exe, "seed", str(SEED), scen, str(index)]).stdout)
    sched = seed ^ 0x5c4ed5c4ed5c4ed5
    s = Server(exe)
    again = [s.run(scen, seed=seed, sched=sched) for _ in range(2)]
    same_seed = [a["status"] == 2 and a["kind"] == v["kind"] for a in again]
    same_hash = [a["hash"] == v["hash"] for a in again]
    best = None
    base = s.run(scen, tape=v["tape"], dev=v["dev"]) if not v["overflow"] else None
    if base and base["status"] == 2 and base["kind"] == v["kind"]:
        best = minimise(s, scen, base, time.time() + (45 if TIER != "thorough" else 120))
    s.close()
    final = None
    if best is None and any(same_seed):
        best = again[same_seed.index(True)]
    if best is None:
        print("ERROR: a violation (%s: %s) did not occur again with the same seed" % (v["kind"], v["msg"]))
        return None, 2
    fresh = Server(exe)
    f1 = fresh.run(scen, tape=best["tape"], dev=best["dev"], verbose=1)
    fresh.close()
    final = f1 if f1["status"] == 2 else best
    path = os.path.join(REPLAYS, "%s-%s-%s.json" % (prop, fl, final["hash"][:12]))
    json.dump({
        "property": prop, "scenario": scen, "flavour": fl, "kind": final["kind"], "message": final["msg"], "hash": final["hash"],
        "found_with": {"VERIF_SEED": SEED, "execution": index, "seed": seed, "same_seed_reproduces": same_seed, "same_event_log": same_hash},
        "size": {"choices": [len(v["tape"]), len(final["tape"])], "schedule_deviations": [len(v["dev"]), len(final["dev"])], "steps": final["steps"]},
        "trace": final.get("desc", "").split("\n"), "faults": final.get("faults", {}), "tape": final["tape"], "deviations": final["dev"],
        "replay_command": "python3 %s replay %s" % (os.path.join(V, "run.py"), path)}, open(path, "w"), indent=1)
    f2 = Server(exe)
    r = f2.run(scen, tape=final["tape"], dev=final["dev"])
    f2.close()
    exact = r["status"] == 2 and r["kind"] == final["kind"] and r["hash"] == final["hash"]
    print("found %s: %s" % (final["kind"], final["msg"][:1500]))
    print("seed %d (execution %d), %d of %d choices and %d of %d schedule deviations left, replay %s" % (seed, index, len(final["tape"]), len(v["tape"]), len(final["dev"]), len(v["dev"]), "exact" if exact else "NOT exact"))
    if final.get("desc"):
        print("\n".join("    " + l for l in final["desc"].split("\n")[:40]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return path, 1


def selftest(ids):
    bad = 0
    for prop in ids:
        for p in CHECKS[prop]["parts"]:
            exe = build([p["flavour"]])[p["flavour"]]
            n = 400
            logs = [batch(exe, p["scen"], SEED, 0, n, 60, workers=w, loghash=True)["log"] for w in (8, 8, 3, 1)]
            m = sum(len({l[i] for l in logs} - {"0"}) > 1 for i in range(n))
            # replaying what was recorded gives the same event log
            s = Server(exe)
            r = 0
            for i in range(60):
                seed = int(sh([exe, "seed", str(SEED), p["scen"], str(i)]).stdout)
                a = s.run(p["scen"], seed=seed, sched=seed ^ 0x5c4ed5c4ed5c4ed5)
                if a["overflow"]:
                    continue
                b = s.run(p["scen"], tape=a["tape"], dev=a["dev"])
                r += a["hash"] != b["hash"]
            s.close()
            print("%s %s/%s: %d of %d executions differ between repetitions, %d of 60 replays differ" % (prop, p["flavour"], p["scen"], m, n, r))
            bad += m + r
    return 1 if bad else 0


def main():
    sys.stdout.reconfigure(line_buffering=True)
    a = sys.argv[1:]
    if a[:1] == ["check"]:
        return check(a[1])
    if a[:1] == ["replay"]:
        return replay_file(a[1])
    if a[:1] == ["setup"]:
        os.makedirs(BUILD, exist_ok=True)
        build(sorted({p["flavour"] for c in CHECKS.values() for p in c["parts"]}))
        return 0
    if a[:1] == ["selftest"]:
        return selftest(a[1:] or sorted(CHECKS))
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.path.insert(0, V)
    sys.exit(main())
