#!/usr/bin/env python3
"""Decides one property of /repo by bounded symbolic execution (CBMC) of its real sources.

usage: run.py PROPERTY [--tier quick|thorough] [--only JOB] [-v]

For every job of the property (see the VP header of harness/PROPERTY*.c) it
  1. amalgamates /repo/src as it is now (with the job's test doubles),
  2. compiles harness + sources with goto-cc,
  3. lets CBMC decide every assertion for all inputs within the job's bounds,
  4. requires the job's reachability witnesses to be reachable (no vacuous pass),
  5. replays any counterexample against the same sources natively (gcc, ASan/UBSan, real libc and
     libm) and reports it only if it reproduces.
Exit 0: held on everything decided (known findings are printed); 1: VIOLATION; 2: nothing decided.
"""
import argparse, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
from amalg import amalgamate

REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")
HDIR = os.path.join(ROOT, "harness")
DBL = os.path.join(HDIR, "doubles")
DEFAULT_DOUBLES = {
    "coco_runtime_c.c": "runtime.c",
    "suite_biobj_best_values_hyp.c": "empty_table_hyp.c",
    "suite_biobj_mixint_best_values_hyp.c": "empty_table_mixint_hyp.c",
}
BASE_FLAGS = ["--drop-unused-functions", "--object-bits", "12", "--no-malloc-may-fail",
              "--unwinding-assertions", "--slice-formula", "--max-field-sensitivity-array-size", "4200"]
CHILDREN = set()


class Job:
    def __init__(self, prop, source, entry, kv):
        self.prop, self.source, self.entry = prop, source, entry
        self.unwind = int(kv.pop("unwind", "40"))
        self.hunwind = int(kv.pop("hunwind", "0"))      # > 0: bound of the loops of the harness itself
        self.timeout = int(kv.pop("timeout", "300"))
        self.tier = kv.pop("tier", "both")
        self.checks = kv.pop("checks", "full")          # full: + memory/overflow checks; user: VP_CHECK only
        self.defs = [d for d in kv.pop("defs", "").split(",") if d]
        self.doubles = dict(d.split(":") for d in kv.pop("doubles", "").split(",") if d)
        self.redefine = dict(d.split(":") for d in kv.pop("redefine", "").split(",") if d)
        self.flags = [f for f in kv.pop("flags", "").split(",") if f]
        self.solver = kv.pop("solver", "sat")
        self.bound = kv.pop("bound", "")
        self.part = kv.pop("part", "0")
        self.name = entry + ("" if not self.defs else "[" + ",".join(self.defs) + "]")
        if kv:
            raise SystemExit("unknown keys in %s: %s" % (source, kv))


def parse_jobs(prop, tier):
    jobs = []
    for f in sorted(os.listdir(HDIR)):
        if not re.match(re.escape(prop) + r"(_\w+)?\.c$", f):
            continue
        text = open(os.path.join(HDIR, f)).read()
        for m in re.finditer(r"^//VP\s+(\w+)\s*(.*)$", text, re.M):
            kv = {}
            for t in re.findall(r'(\w+)=("[^"]*"|\S+)', m.group(2)):
                kv[t[0]] = t[1].strip('"')
            j = Job(prop, os.path.join(HDIR, f), m.group(1), kv)
            if j.tier in ("both", tier) or (tier == "thorough" and j.tier == "quick_or_thorough"):
                jobs.append(j)
    return jobs


def limits(mem_gb):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    return f


def run(cmd, timeout, cwd=None, env=None, mem_gb=12, limit_as=True):
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         preexec_fn=limits(mem_gb) if limit_as else os.setsid)
    CHILDREN.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        rc = "timeout"
    finally:
        CHILDREN.discard(p)
    return rc, out.decode(errors="replace"), err.decode(errors="replace"), time.time() - t0


def value_bits(v):
    b = v.get("binary")
    if b is None:
        return None
    b = re.sub(r"[^01]", "0", b)
    return "%x" % int(b, 2)


def trace_info(trace):
    inputs, funcs = [], set()
    for s in trace:
        if s.get("stepType") == "function-call":
            loc = s.get("function", {}).get("sourceLocation", {})
            if "/src/" in loc.get("file", "") and not loc.get("file", "").startswith(ROOT):
                funcs.add(s["function"].get("displayName"))
        elif s.get("stepType") == "assignment" and s.get("lhs") == "vp_input":
            if s.get("assignmentType") == "variable" and not s.get("hidden"):
                b = value_bits(s.get("value", {}))
                if b is not None:
                    inputs.append((s.get("sourceLocation", {}).get("line"), b))
    return inputs, funcs


class Decision:
    def __init__(self, job):
        self.job = job
        self.status = "undecided"       # holds | violated | undecided
        self.why = ""
        self.checked = 0                # assertions proved
        self.user_checks = 0
        self.witnesses = 0
        self.funcs = set()
        self.solver_s = 0.0
        self.wall_s = 0.0
        self.queries = 0
        self.steps = self.vars = self.clauses = 0
        self.failures = []              # (description, location, replay dir)
        self.unwind = job.unwind
        self.unconfirmed = []
        self.validated = 0              # reachability witnesses re-run natively without a failing check


def cbmc_cmd(job, goto, unwind, extra):
    cmd = ["cbmc", goto, "--json-ui", "--verbosity", "8", "--unwind", str(unwind)] + BASE_FLAGS + list(extra) + job.flags
    if job.checks == "user":
        cmd.append("--no-standard-checks")
        cmd.append("--unwinding-assertions")
    if job.solver == "cadical":
        cmd += ["--sat-solver", "cadical"]
    elif job.solver != "sat":
        cmd += ["--" + job.solver]
    return cmd


def parse_cbmc(out):
    try:
        d = json.loads(out)
    except Exception:
        return None
    res, msgs = None, []
    for e in d:
        if "result" in e:
            res = e["result"]
        if "messageText" in e and not e["messageText"].startswith("Unwinding"):
            msgs.append(e["messageText"])
    return res, msgs


def replay(job, scratch, inputs, tag, witness=False):
    """Runs the recorded inputs natively. Returns (reproduced, text, directory)."""
    d = os.path.join(ROOT, "evidence", "replay", "%s_%s_%s" % (job.prop, job.entry, tag))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    exe = os.path.join(d, "replay")
    src = os.path.join(d, "main.c")
    with open(src, "w") as fd:
        fd.write('#include "%s"\n#undef fopen\nint main(int c, char **v) { (void)c; vp_replay_fd = (fopen)(v[1], "r"); %s(); return 0; }\n'
                 % (job.source, job.entry))
    cmd = ["gcc", "-g", "-O0", "-w", "-DVP_REPLAY", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
           "-fno-sanitize=float-divide-by-zero", "-I", scratch, "-I", HDIR] + ["-D" + x for x in job.defs] + \
          [src, "-o", exe, "-lm"]
    with open(os.path.join(d, "inputs.txt"), "w") as fd:
        fd.write("".join(b + "\n" for _, b in inputs))
    rc, out, err, _ = run(cmd, 120, cwd=d, limit_as=False)
    if rc != 0:
        return False, "replay does not compile: " + err[-400:], d, -1
    for fill in ("165", "0", "255", "1"):        # contents of fresh memory (arbitrary for the solver)
        env = dict(os.environ, ASAN_OPTIONS="exitcode=99:detect_leaks=0:allocator_may_return_null=1:malloc_fill_byte=%s:max_malloc_fill_size=1000000" % fill,
                   UBSAN_OPTIONS="halt_on_error=1:exitcode=98:print_stacktrace=1", VP_FILL=fill)
        rc, out, err, _ = run([exe, os.path.join(d, "inputs.txt")], 20, cwd=d, env=env, limit_as=False)
        if rc != 0 or witness:
            break
    text = (out[-1500:] + err[-3000:]).strip()
    with open(os.path.join(d, "output.txt"), "w") as fd:
        fd.write("exit %s\n%s\n" % (rc, text))
    for f in ("main.c",):
        shutil.copy(job.source, d)
    ok = rc in (10, 98, 99) or (isinstance(rc, int) and rc < 0)
    return ok, "exit %s: %s" % (rc, text), d, rc


def decide(job, scratch_root, tier, deadline, verbose):
    dec = Decision(job)
    t0 = time.time()
    scratch = tempfile.mkdtemp(dir=scratch_root)
    try:
        _decide(job, dec, scratch, tier, deadline, verbose)
    except Exception as e:                                   # an error of the machinery is never an alarm
        dec.status, dec.why = "undecided", "internal: %r" % (e,)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    dec.wall_s = time.time() - t0
    if verbose or dec.status != "holds":
        print("  %-10s %-40s %6.1fs solver %6.1fs unwind %d checks %d/%d %s" % (
            dec.status, job.name, dec.wall_s, dec.solver_s, dec.unwind, dec.user_checks, dec.checked, dec.why), flush=True)
    return dec


def _decide(job, dec, scratch, tier, deadline, verbose):
    over = {k: os.path.join(DBL, v) for k, v in {**DEFAULT_DOUBLES, **job.doubles}.items()}
    amalgamate(SRC, os.path.join(scratch, "coco_amalg.c"), over, job.redefine)
    goto = os.path.join(scratch, "h.goto")
    rc, out, err, _ = run(["goto-cc", "-DVP_CBMC", "-I", scratch, "-I", HDIR] + ["-D" + x for x in job.defs] +
                          [job.source, "--function", job.entry, "-o", goto], 120)
    if rc != 0:
        dec.why = "harness does not compile against this tree: " + (out + err)[-300:].replace("\n", " ")
        return
    extra = ["--trace"]
    if job.hunwind:
        rc, out, err, _ = run(["goto-instrument", "--show-loops", goto], 60)
        ids = re.findall(r"Loop (\S+):\s+file \S*harness/", out)
        if ids:
            extra += ["--unwindset", ",".join("%s:%d" % (i, job.hunwind) for i in ids)]
    unwind = job.unwind
    for attempt in range(3):
        dec.unwind = unwind
        left = deadline - time.time()
        if left < 5:
            dec.why = "time budget exhausted"
            return
        rc, out, err, wall = run(cbmc_cmd(job, goto, unwind, extra), min(job.timeout, left))
        if rc == "timeout":
            dec.why = "solver timeout after %.0fs" % wall
            return
        parsed = parse_cbmc(out)
        if parsed is None or parsed[0] is None:
            msgs = parsed[1] if parsed else [out[-200:] + err[-200:]]
            dec.why = "cbmc gave no result: " + " | ".join(msgs[-2:])[-300:]
            return
        res, msgs = parsed
        for m in msgs:
            x = re.search(r"Runtime Solver: ([\d.e+-]+)s", m)
            if x:
                dec.solver_s += float(x.group(1))
            x = re.search(r"size of program expression: (\d+) steps", m)
            if x:
                dec.steps = int(x.group(1))
            x = re.search(r"(\d+) variables, (\d+) clauses", m)
            if x:
                dec.vars, dec.clauses = int(x.group(1)), int(x.group(2))
        dec.queries += sum(1 for m in msgs if m.startswith("SAT checker") or m.startswith("SMT2") or "instance is" in m) or 1
        failing, unwinding, reach_ok, reach_bad = [], [], 0, []
        for r in res:
            desc, st = r.get("description", ""), r["status"]
            if desc.startswith("VPREACH"):
                if st == "FAILURE":
                    reach_ok += 1
                    dec.funcs |= trace_info(r.get("trace", []))[1]
                else:
                    reach_bad.append(desc)
            elif st == "FAILURE":
                (unwinding if "unwinding assertion" in desc or "recursion unwinding" in desc else failing).append(r)
            elif st != "SUCCESS":
                dec.why = "status %s for %s" % (st, desc)
                return
        oks = [r for r in res if r["status"] == "SUCCESS" and not r.get("description", "").startswith("VPREACH")]
        dec.checked = len(oks)
        dec.user_checks = len([r for r in oks if r.get("description", "").startswith("VP:")])
        dec.witnesses = reach_ok
        if failing:
            confirm(job, dec, scratch, goto, unwind, failing, deadline)
            if dec.failures:
                dec.status = "violated"
                return
            if not unwinding:
                dec.why = "counterexample does not reproduce natively: " + "; ".join(dec.unconfirmed)[:300]
                return
        if unwinding:
            if attempt < 2:
                unwind *= 2
                continue
            confirm(job, dec, scratch, goto, unwind, unwinding[:1], deadline, hang=True)
            if dec.failures:
                dec.status = "violated"
                return
            dec.why = "loop bound %d not sufficient: %s" % (unwind, unwinding[0].get("property"))
            return
        if reach_bad or reach_ok == 0:
            dec.why = "vacuous: witness not reachable: " + "; ".join(reach_bad)
            return
        dec.status = "holds"
        if tier == "thorough" or job.validate:
            validate(job, dec, scratch, goto, unwind, [r for r in res if r.get("description", "").startswith("VPREACH")], deadline)
        return


def validate(job, dec, scratch, goto, unwind, reach, deadline):
    """Runs a reachability witness natively: model and real code must agree that no check fails."""
    left = deadline - time.time()
    if left < 60:
        return
    r = reach[0]
    cmd = [c for c in cbmc_cmd(job, goto, unwind, ["--trace", "--property", r["property"]]) if c != "--slice-formula"]
    rc, out, err, wall = run(cmd, min(job.timeout, left, 120))
    parsed = parse_cbmc(out) if rc != "timeout" else None
    got = [x for x in (parsed[0] or []) if x["property"] == r["property"] and x.get("trace")] if parsed else []
    if not got:
        return
    inputs, funcs = trace_info(got[0]["trace"])
    dec.funcs |= funcs
    ok, text, d, rc = replay(job, scratch, inputs, "witness" + hashlib.md5(job.name.encode()).hexdigest()[:8], witness=True)
    shutil.rmtree(d, ignore_errors=True)
    if rc == 0:
        dec.validated = 1
    elif ok:
        dec.status, dec.why = "undecided", "the native run of a witness disagrees with the model: " + text[:300]


def confirm(job, dec, scratch, goto, unwind, failing, deadline, hang=False):
    """Turns failing assertions into concrete inputs (unsliced trace) and replays them."""
    user = [r for r in failing if r.get("description", "").startswith("VP:")]
    for k, r in enumerate((user + [r for r in failing if r not in user])[:6]):
        left = deadline - time.time()
        if left < 10:
            dec.unconfirmed.append("no time left to replay")
            return
        cmd = [c for c in cbmc_cmd(job, goto, unwind, ["--trace", "--property", r["property"]]) if c != "--slice-formula"]
        rc, out, err, wall = run(cmd, min(job.timeout * 2, left))
        parsed = parse_cbmc(out) if rc != "timeout" else None
        got = [x for x in (parsed[0] or [])if x["property"] == r["property"] and x.get("trace")] if parsed else []
        if not got:
            dec.unconfirmed.append("%s (no trace)" % r.get("description"))
            continue
        inputs, _ = trace_info(got[0]["trace"])
        ok, text, d, *rc = replay(job, scratch, inputs, hashlib.md5((job.name + r["property"]).encode()).hexdigest()[:8])
        loc = r.get("sourceLocation", {})
        where = "%s:%s" % (os.path.basename(loc.get("file", "?")), loc.get("line", "?"))
        if ok or (hang and rc and rc[0] == "timeout"):
            m = re.search(r"VP-CHECK-FAILED (.*?) \[", text)
            what = m.group(1) if m else r.get("description", "")
            if hang and rc and rc[0] == "timeout":
                what = "does not terminate: " + what
            with open(os.path.join(d, "README"), "w") as fd:
                fd.write("property %s job %s\nassertion: %s at %s\nreplay: ./replay inputs.txt\n" % (job.prop, job.name, r.get("description"), where))
            dec.failures.append((what, where, d))
            if len(dec.failures) >= 2:
                return
        else:
            dec.unconfirmed.append("%s at %s (%s)" % (r.get("description"), where, text[:120].replace("\n", " ")))


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\w+) job=(\S+) check=\"([^\"]*)\" (.*)", line)
            if m and m.group(1) == prop:
                out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=int(os.environ.get("VP_JOBS", "8")))
    a = ap.parse_args()
    budget = 780 if a.tier == "quick" else int(os.environ.get("VP_THOROUGH_S", "7000"))
    t0 = time.time()
    deadline = t0 + budget
    jobs = parse_jobs(a.prop, a.tier)
    if a.only:
        jobs = [j for j in jobs if a.only in j.name]
    if not jobs:
        print("no jobs for", a.prop)
        return 2
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vp-%s-" % a.prop)
    try:
        jobs.sort(key=lambda j: -j.timeout)
        seen = set()
        for j in jobs:                       # quick: one native re-run of a witness per harness entry
            j.validate = (j.source, j.entry) not in seen
            seen.add((j.source, j.entry))
        with ThreadPoolExecutor(max_workers=a.j) as ex:
            decs = list(ex.map(lambda j: decide(j, scratch, a.tier, deadline, a.v), jobs))
    finally:
        for p in list(CHILDREN):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
    known = known_findings(a.prop)
    violations, seen_known = [], set()
    for d in decs:
        for what, where, rdir in d.failures:
            hit = [k for k in known if k[1] == d.job.entry and k[2] in what]
            if hit:
                seen_known.add(hit[0])
            else:
                violations.append((d.job.name, what, where, rdir))
    holds = [d for d in decs if d.status == "holds"]
    undecided = [d for d in decs if d.status == "undecided"]
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k[3]))
    funcs = set().union(*[d.funcs for d in decs]) if decs else set()
    try:
        meta = {c["property"]: c for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]}.get(a.prop, {})
    except Exception:
        meta = {}
    ev = {
        "property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": meta.get("level", "model_checking"),
        "coverage": {
            "states": sum(d.steps for d in decs),
            "transitions": sum(d.clauses for d in decs),
            "traces_validated_against_impl": sum(len(d.failures) + d.validated for d in decs),
            "samples": len(holds),
            "explanation": "Bounded symbolic execution of the real sources by CBMC; every listed job's assertions were "
                           "decided by the solver for all inputs within its bounds (states = SSA steps, transitions = CNF clauses).",
            "jobs_decided": len(holds) + len([d for d in decs if d.status == "violated"]),
            "jobs_undecided": [{"job": d.job.name, "why": d.why} for d in undecided],
            "assertions_discharged": sum(d.checked for d in holds),
            "property_assertions_discharged": sum(d.user_checks for d in holds),
            "reachability_witnesses": sum(d.witnesses for d in decs),
            "solver_queries": sum(d.queries for d in decs),
            "solver_time_s": round(sum(d.solver_s for d in decs), 2),
            "functions_encoded": sorted(f for f in funcs if f),
            "jobs": [{"job": d.job.name, "status": d.status, "unwind": d.unwind, "bound": d.job.bound,
                      "doubles": sorted({**DEFAULT_DOUBLES, **d.job.doubles}.values()), "checks": d.job.checks,
                      "wall_s": round(d.wall_s, 2), "solver_s": round(d.solver_s, 2), "assertions": d.checked,
                      "variables": d.vars, "clauses": d.clauses} for d in decs],
        },
        "assumptions": assumptions(a.prop),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    with open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w") as fd:
        json.dump(ev, fd, indent=1)
    print("%s tier=%s jobs=%d hold=%d undecided=%d assertions=%d solver=%.1fs wall=%.1fs" % (
        a.prop, a.tier, len(decs), len(holds), len(undecided), ev["coverage"]["assertions_discharged"],
        ev["coverage"]["solver_time_s"], ev["wall_s"]))
    if violations:
        for name, what, where, rdir in violations:
            print("  %s: %s (%s)" % (name, what, where))
        print("VIOLATION property=%s replay=%s" % (a.prop, violations[0][3]))
        return 1
    if not holds and not seen_known:
        print("nothing could be decided")
        return 2
    return 0


def assumptions(prop):
    out = ["memory allocation succeeds (the C runtime aborts the process otherwise)",
           "libm functions are deterministic and satisfy the range/special-value facts in harness/vp_math.h",
           "the C runtime (errors, warnings, allocation) and the hypervolume reference tables are test doubles"]
    for f in sorted(os.listdir(HDIR)):
        if re.match(re.escape(prop) + r"(_\w+)?\.c$", f):
            for m in re.finditer(r"^//ASSUMES\s+(.*)$", open(os.path.join(HDIR, f)).read(), re.M):
                out.append(m.group(1))
    return out


if __name__ == "__main__":
    sys.exit(main())
