"""Driver core: discharges the obligations of one property's units.

A unit is a C file in /verif/contracts which textually includes real source
files from /repo, states contracts / predicates over them, and has a harness
for the function under contract.  For every (unit, case):

  1. goto-cc            compiles unit + real source (current working tree)
  2. goto-instrument    --dfcc enforces (and replaces) the code contracts
  3. cbmc               discharges every generated obligation

If an obligation fails, cbmc's counterexample is read back as the sequence of
harness inputs and replayed natively (gcc, ASan+UBSan) against the real code.
"""
import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
MEM = int(os.environ.get("VERIF_MEM_GB", "7")) << 30

CHECKS = ["--no-standard-checks", "--pointer-check", "--bounds-check",
          "--div-by-zero-check"]


class Unit:
    def __init__(self, name, file, harness="harness", cases=None, enforce=(),
                 replace=(), unwind=20, unwindset=(), checks=(), defs=(),
                 bounded=None, timeout=240, solver=(), functions=(),
                 assumptions=(), loop_contracts=None, thorough=None,
                 tier=None, mallocfail=False, remove_body=(), fallback=None,
                 native=True, what="", include_posix=True, slow=False,
                 extra_instr=(), replace_calls=(),
                 trust_unconfirmed=True, object_bits=10,
                 uf=False, lite=False):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        if cases is None:
            self.cases = [{}]


def case_str(case):
    return ",".join("%s=%s" % (k, v) if v is not None else k
                    for k, v in case.items())


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.work = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        self.gen = os.path.join(self.work, "gen")
        self.lock = threading.Lock()
        self.t0 = time.time()
        self.deadline = self.t0 + float(os.environ.get(
            "VERIF_DEADLINE", "780" if tier == "quick" else "14000"))
        self.procs = set()
        self.confirmed = False
        os.makedirs(self.gen)
        self.gen_headers()

    def left(self):
        return self.deadline - time.time()

    def gen_headers(self):
        """The public headers are configured from .in templates: do the same
        substitution from the current tree (the build is not re-run)."""
        ver = {"MAJOR": "0", "MINOR": "0", "PATCH": "0"}
        try:
            cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
            for k in ver:
                m = re.search(r"PT_VERSION_%s\s+(\d+)" % k, cm)
                if m:
                    ver[k] = m.group(1)
        except OSError:
            pass
        for src, dst in (("libipt/include/intel-pt.h.in", "intel-pt.h"),
                         ("sideband/include/libipt-sb.h.in", "libipt-sb.h"),
                         ("pevent/include/pevent.h", None)):
            p = os.path.join(REPO, src)
            if dst is None or not os.path.exists(p):
                continue
            t = open(p).read()
            t = re.sub(r"\$\{PT_VERSION_(MAJOR|MINOR|PATCH|BUILD)\}",
                       lambda m: ver.get(m.group(1), "0"), t)
            t = re.sub(r"\$\{PT_VERSION_EXT\}", "", t)
            t = re.sub(r"\$\{[A-Z_]+\}", "0", t)
            open(os.path.join(self.gen, dst), "w").write(t)

    def incs(self):
        r = REPO
        return ["-I" + os.path.join(VERIF, "contracts"), "-I" + self.gen,
                "-I" + r, "-I" + r + "/libipt/internal/include",
                "-I" + r + "/libipt/internal/include/posix",
                "-I" + r + "/include", "-I" + r + "/include/posix",
                "-I" + r + "/sideband/internal/include",
                "-I" + r + "/sideband/include",
                "-I" + r + "/pevent/include"]

    def run(self, cmd, timeout, mem=MEM, cwd=None, env=None):
        """Run a command; returns (rc, stdout, stderr, seconds); rc None on
        timeout / deadline."""
        timeout = min(timeout, self.left())
        if timeout <= 0:
            return None, "", "deadline", 0.0
        t = time.time()

        def pre():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                             preexec_fn=pre, cwd=cwd or self.work, env=env)
        with self.lock:
            self.procs.add(p)
        try:
            o, e = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            o, e = p.communicate()
            rc = None
        with self.lock:
            self.procs.discard(p)
        return (rc, o.decode("utf-8", "replace"), e.decode("utf-8", "replace"),
                time.time() - t)

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def defs_of(unit, case):
    d = []
    for k in unit.defs:
        d.append("-D" + k)
    for k, v in case.items():
        d.append("-D%s" % k if v is None else "-D%s=%s" % (k, v))
    return d


def unwind_of(unit, case):
    return unit.unwind(case) if callable(unit.unwind) else unit.unwind


def symbol_list(ctx, gb):
    rc, o, e, _ = ctx.run(["goto-instrument", "--list-symbols", gb], 60)
    names = set()
    for line in o.splitlines():
        w = line.split()
        if w:
            names.add(w[0])
    return names


class Result:
    def __init__(self, unit, case):
        self.unit, self.case = unit, case
        self.status = None        # ok | failed | undecided
        self.reason = ""
        self.obligations = 0
        self.discharged = 0
        self.failed = []          # (property, description, location)
        self.unwind_failed = []
        self.time = 0.0
        self.solver_time = 0.0
        self.reach = 0
        self.confirm = None
        self.cmd = ""
        self.output = ""
        self.unwind = unwind_of(unit, case)
        self.bounded = unit.bounded
        self.backend = ""


def parse_json(o):
    try:
        return json.loads(o)
    except ValueError:
        # killed output: try to close the array
        try:
            return json.loads(o.rstrip().rstrip(",") + "]")
        except ValueError:
            return None


def build(ctx, unit, case, tag, extra=(), contracts=True):
    """goto-cc + goto-instrument.  Returns (gb, error)."""
    a = os.path.join(ctx.work, tag + ".a.gb")
    b = os.path.join(ctx.work, tag + ".b.gb")
    src = os.path.join(VERIF, "contracts", unit.file)
    cc = (["goto-cc", "-DVF_CBMC", "-DFEATURE_THREADS", "-D_GNU_SOURCE",
           "-std=c11"] + defs_of(unit, case) + list(extra) + ctx.incs() +
          ["--function", unit.harness, "-o", a, src])
    rc, o, e, _ = ctx.run(cc, 120)
    if rc != 0:
        return None, "goto-cc: " + (e or o)[-3000:]
    cur = a
    if unit.remove_body:
        c = os.path.join(ctx.work, tag + ".r.gb")
        cmd = ["goto-instrument"]
        for f in unit.remove_body:
            cmd += ["--remove-function-body", f]
        rc, o, e, _ = ctx.run(cmd + [cur, c], 120)
        if rc != 0:
            return None, "goto-instrument: " + (e + o)[-3000:]
        cur = c
    for rcall in unit.replace_calls:
        need = rcall.startswith("!")
        rcall = rcall.lstrip("!")
        c = os.path.join(ctx.work, tag + ".c.gb")
        rc, o, e, _ = ctx.run(["goto-instrument", "--replace-calls", rcall,
                               cur, c], 120)
        if rc == 0:
            shutil.copy(c, a)
            os.unlink(c)
            cur = a
        elif need:
            return None, "no function to cut at: " + rcall
    if contracts and (unit.enforce or unit.replace or unit.loop_contracts):
        cmd = ["goto-instrument", "--dfcc", unit.harness]
        for f in unit.enforce:
            cmd += ["--enforce-contract", f]
        for f in unit.replace:
            cmd += ["--replace-call-with-contract", f]
        if unit.loop_contracts:
            cmd += list(unit.loop_contracts)
        cmd += list(unit.extra_instr) + [cur, b]
        rc, o, e, _ = ctx.run(cmd, 240)
        if rc != 0:
            return None, "goto-instrument: " + (e + o)[-3000:]
        return b, None
    return cur, None


def cbmc_cmd(unit, gb, unwind, props=(), trace=False, slice_=True):
    cmd = ["cbmc", gb] + (CHECKS[:1] if unit.lite else CHECKS) + ["--json-ui", "--object-bits", str(unit.object_bits),
                                   "--drop-unused-functions"]
    if slice_:
        cmd += ["--slice-formula"]
    if unwind:
        cmd += ["--unwind", str(unwind)]
    for u in unit.unwindset:
        cmd += ["--unwindset", u]
    cmd += ["--unwinding-assertions"]
    cmd += (["--malloc-may-fail", "--malloc-fail-null"] if unit.mallocfail
            else ["--no-malloc-may-fail"])
    cmd += list(unit.checks)
    for p in props:
        cmd += ["--property", p]
    if trace:
        cmd += ["--trace"]
    cmd += list(unit.solver)
    return cmd


def wanted_properties(ctx, unit, gb):
    """All generated properties except the pointer-relation class (comparison
    of pointers past the end of an object, see COMMON_TRUST)."""
    cmd = ["cbmc", gb] + CHECKS + list(unit.checks) + [
        "--json-ui", "--show-properties", "--drop-unused-functions"]
    rc, o, e, _ = ctx.run(cmd, 120)
    js = parse_json(o) if rc is not None else None
    if js is None:
        return None
    keep, drop = [], 0
    for item in js:
        for p in item.get("properties", ()):
            if ".pointer_arithmetic." in p["name"] or \
                    p.get("description", "").startswith("pointer relation"):
                drop += 1
            else:
                keep.append(p["name"])
    return keep if drop else []


UF_PRELUDE = """(set-logic ALL)
(declare-fun ufmul0 ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))
(declare-fun ufdiv ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))
(declare-fun ufrem ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))
(define-fun ufmul ((a (_ BitVec 64)) (b (_ BitVec 64))) (_ BitVec 64)
  (ite (bvule a b) (ufmul0 a b) (ufmul0 b a)))
"""


def prove_uf(ctx, unit, case, tag, gb, res):
    """Discharge all obligations of a unit in one SMT query in which 64-bit
    multiplication (commutative), division and remainder are uninterpreted:
    a sound abstraction, since the obligations then hold for every function in
    their place.  Returns False if this does not settle it."""
    cmd = ["cbmc", gb] + CHECKS + list(unit.checks) + [
        "--json-ui", "--show-properties", "--drop-unused-functions"]
    rc, o, e, _ = ctx.run(cmd, 120)
    js = parse_json(o) if rc is not None else None
    if js is None:
        return False
    names, reach = [], []
    for item in js:
        for p in item.get("properties", ()):
            d = p.get("description", "")
            if ".pointer_arithmetic." in p["name"] or \
                    d.startswith("pointer relation"):
                continue
            (reach if d.startswith("vf-reach") else names).append(p["name"])
    smt = os.path.join(ctx.work, tag + ".smt2")
    base = [c for c in cbmc_cmd(unit, gb, res.unwind) if c != "--json-ui"]
    cmd = base + ["--smt2", "--outfile", smt, "--stop-on-fail"]
    res.cmd = " ".join(cmd).replace(ctx.work, "$WORK")
    rc, o, e, _ = ctx.run(cmd + [x for p in names for x in ("--property", p)],
                          unit.timeout)
    if rc is None or not os.path.exists(smt):
        return False
    t = open(smt).read()
    if "(check-sat)" not in t:
        return False
    t = t[:t.index("(check-sat)")] + "(check-sat)\n"
    lines = re.sub(r"\(set-logic [^)]*\)\n", "", t).split("\n")
    sub = [re.sub(r"\bbvmul\b", "ufmul", re.sub(
        r"\bbvudiv\b", "ufdiv", re.sub(r"\bbvurem\b", "ufrem", l)))
        for l in lines]
    off = UF_PRELUDE.count("\n")
    for attempt in range(40):
        open(smt, "w").write(UF_PRELUDE + "\n".join(sub))
        rc, o, e, dt = ctx.run(["z3", "-T:%d" % min(unit.timeout, 200), smt],
                               unit.timeout)
        res.solver_time += dt
        err = re.findall(r"\(error \"line (\d+)", o)
        if not err:
            break
        # another width: keep the real operator on that line
        for n in err:
            i = int(n) - 1 - off
            if 0 <= i < len(lines):
                sub[i] = lines[i]
    os.unlink(smt)
    if rc is None or o.split()[:1] != ["unsat"]:
        return False
    # the end of the harness is reachable
    cmd = cbmc_cmd(unit, gb, res.unwind)
    for p in reach:
        cmd += ["--property", p]
    rc, o, e, dt = ctx.run(cmd, unit.timeout)
    js = parse_json(o) if rc is not None else None
    for item in js or ():
        for r in item.get("result", ()):
            if r.get("description", "").startswith("vf-reach") and \
                    r["status"] == "FAILURE":
                res.reach += 1
    if not res.reach:
        res.reach = 0
        return False
    res.obligations = res.discharged = len(names)
    res.status = "ok"
    res.backend = "cbmc --smt2 | z3, mul/div/rem uninterpreted"
    return True


def loc(sl):
    if not sl:
        return ""
    return "%s:%s (%s)" % (sl.get("file", "?"), sl.get("line", "?"),
                           sl.get("function", "?"))


def prove(ctx, unit, case, idx):
    res = Result(unit, case)
    if ctx.confirmed:
        # a failing input is already known: the remaining cases are not run
        res.status, res.reason = "skipped", "after a confirmed violation"
        return res
    t = time.time()
    tag = "%s.%d" % (unit.name, idx)
    res.backend = "cbmc 6.11.0, SAT (built-in %s)" % (
        "CaDiCaL" if "cadical" in unit.solver else "MiniSat 2.2.1")
    gb, err = build(ctx, unit, case, tag)
    if err and (unit.loop_contracts or unit.enforce or unit.replace) and \
            unit.fallback:
        pass
    if err:
        res.status, res.reason = "undecided", err
        res.time = time.time() - t
        return res
    unwind = res.unwind
    keep = [] if unit.lite else wanted_properties(ctx, unit, gb)
    if keep is None:
        res.status, res.reason = "undecided", "cbmc --show-properties failed"
        return res
    if unit.uf and prove_uf(ctx, unit, case, tag, gb, res):
        res.time = time.time() - t
        os.unlink(gb)
        return res
    if unit.uf and unit.native:
        native_search(ctx, unit, case, tag, res)
        if res.confirm:
            ctx.confirmed = True
            res.time = time.time() - t
            return res
        res.reason = ""
    for attempt in range(2):
        cmd = cbmc_cmd(unit, gb, unwind)
        full = cmd + [x for p in keep for x in ("--property", p)]
        res.cmd = " ".join(cmd).replace(ctx.work, "$WORK")
        rc, o, e, dt = ctx.run(full, unit.timeout)
        res.solver_time += dt
        res.unwind = unwind
        if rc is None:
            res.status, res.reason = "undecided", "cbmc: time limit"
            break
        js = parse_json(o)
        if js is None or rc not in (0, 10):
            res.status = "undecided"
            res.reason = "cbmc rc=%s: %s" % (rc, (e + o)[-1500:])
            break
        res.failed, res.unwind_failed = [], []
        res.obligations = res.discharged = res.reach = 0
        for item in js:
            for r in item.get("result", ()):
                p, d, s = r["property"], r.get("description", ""), r["status"]
                if d.startswith("vf-reach"):
                    if s == "FAILURE":
                        res.reach += 1
                    continue
                if ".unwind." in p or d.startswith("unwinding assertion") or \
                        ".recursion" in p:
                    if s != "SUCCESS":
                        res.unwind_failed.append(
                            (p, d, loc(r.get("sourceLocation"))))
                    continue
                res.obligations += 1
                if s == "SUCCESS":
                    res.discharged += 1
                else:
                    res.failed.append((p, d, loc(r.get("sourceLocation")), s))
        if res.unwind_failed and not res.failed and attempt == 0:
            unwind = unwind * 2
            continue
        break
    res.time = time.time() - t
    if res.status is None:
        if res.failed:
            res.status = "failed"
        elif res.unwind_failed:
            res.status = "undecided"
            res.reason = "unwinding assertion: %s" % (res.unwind_failed[:3],)
        elif not res.obligations:
            res.status, res.reason = "undecided", "no obligations generated"
        elif not res.reach:
            res.status, res.reason = "undecided", "vacuous: end not reachable"
        else:
            res.status = "ok"
    if res.status == "failed":
        cex(ctx, unit, case, tag, gb, res)
        if not res.confirm and not unit.trust_unconfirmed:
            res.status = "undecided"
            res.reason = ("failed without a failing input, in a unit whose "
                          "failures are only believed when replayed: %s" %
                          (res.failed[:3],))
    elif res.status == "undecided" and unit.native:
        # not proved and not refuted: look for a failing input natively
        native_search(ctx, unit, case, tag, res)
    if res.confirm:
        ctx.confirmed = True
    for ext in (".a.gb", ".b.gb", ".r.gb"):
        p = os.path.join(ctx.work, tag + ext)
        if os.path.exists(p):
            os.unlink(p)
    return res


def native_build(ctx, unit, case, tag, san=True):
    exe = os.path.join(ctx.work, tag + ".exe")
    src = os.path.join(VERIF, "contracts", unit.file)
    cmd = (["gcc", "-g", "-O1", "-w", "-std=gnu11", "-DFEATURE_THREADS",
            "-D_GNU_SOURCE", "-DVF_NATIVE", "-fno-strict-aliasing"] +
           (["-fsanitize=address,undefined", "-fno-sanitize=shift,alignment,signed-integer-overflow,pointer-overflow",
             "-fno-sanitize-recover=all"] if san else []) +
           defs_of(unit, case) + ctx.incs() +
           ["-DVF_HARNESS=" + unit.harness, "-o", exe, src,
            os.path.join(VERIF, "contracts", "vf_native.c"), "-lpthread"])
    rc, o, e, _ = ctx.run(cmd, 120, mem=None)
    if rc != 0:
        return None, e[-2000:]
    return exe, None


def native_env():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=77:"
                           "allocator_may_return_null=1")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77:halt_on_error=1"
    return env


def native_failed(rc):
    return rc is None or rc in (1, 77) or rc < 0


def native_search(ctx, unit, case, tag, res, secs=6):
    exe, err = native_build(ctx, unit, case, tag)
    if not exe:
        res.reason += " | native build: " + err
        return
    seed = os.environ.get("VERIF_SEED", "1")
    rc, o, e, _ = ctx.run([exe, "random", seed, str(secs)], secs + 45,
                          mem=None, env=native_env())
    if rc in (1, 77) or (rc is not None and rc < 0):
        m = re.findall(r"INPUTS((?: [0-9a-f]+)*)", o)
        vals = m[-1].split() if m else []
        out = (o + "\n" + e)[-6000:]
        d = re.findall(r"OBLIGATION-FAILED (.*)", o)
        res.status = "failed"
        res.failed = [("native", d[-1] if d else "sanitizer/abort", "", "FAILURE")]
        res.confirm = {"inputs": vals, "rc": rc, "output": out,
                       "source": "native search"}


def cex(ctx, unit, case, tag, gb, res):
    """Obtain counterexamples for failed obligations and replay natively."""
    exe, err = native_build(ctx, unit, case, tag) if unit.native \
        else (None, "unit has no native replay")
    res.output += "" if exe else "native build: %s\n" % err
    # prefer our named obligations, then pointer checks
    order = sorted(res.failed, key=lambda f: (not f[1].startswith("vf:"), f[0]))
    picked, seen = [], set()
    for f in order:
        if f[1] in seen:
            continue
        seen.add(f[1])
        picked.append(f)
        if len(picked) == 3:
            break
    for f in picked:
        if ctx.confirmed:
            break
        cmd = cbmc_cmd(unit, gb, res.unwind, props=[f[0]], trace=True,
                       slice_=False)
        rc, o, e, _ = ctx.run(cmd, unit.timeout)
        if rc is None:
            continue
        js = parse_json(o)
        vals = None
        for item in js or ():
            for r in item.get("result", ()):
                if r["property"] == f[0] and r["status"] == "FAILURE":
                    vals = trace_inputs(r.get("trace", ()))
        if vals is None:
            continue
        res.output += "obligation %s [%s] at %s: counterexample inputs %s\n" % (
            f[0], f[1], f[2], " ".join(vals))
        if not exe:
            continue
        vf = os.path.join(ctx.work, tag + ".vals")
        open(vf, "w").write("\n".join(vals) + "\n")
        rc, o, e, _ = ctx.run([exe, "replay", vf], 40, mem=None,
                              env=native_env())
        res.output += "native replay rc=%s\n%s\n" % (rc, (o + "\n" + e)[-3000:])
        if native_failed(rc):
            res.confirm = {"inputs": vals, "rc": rc,
                           "output": (o + "\n" + e)[-6000:],
                           "source": "cbmc counterexample of " + f[0],
                           "obligation": f}
            return
    if exe and not ctx.confirmed:
        sub = Result(unit, case)
        native_search(ctx, unit, case, tag, sub, 12)
        if sub.confirm:
            res.confirm = sub.confirm


def trace_inputs(trace):
    vals = []
    for st in trace:
        if st.get("stepType") != "assignment":
            continue
        if st.get("lhs") != "vf_in_val" or st.get("hidden"):
            continue
        if st.get("assignmentType") not in (None, "variable"):
            continue
        v = st.get("value", {})
        if "binary" in v:
            vals.append("%x" % int(v["binary"], 2))
        else:
            d = re.match(r"-?\d+", str(v.get("data", "0")))
            vals.append("%x" % (int(d.group(0)) & (2**64 - 1) if d else 0))
    # first assignment is the static initialisation
    return vals


def run_property(prop, tier):
    import units
    spec = units.PROPS[prop]
    ctx = Ctx(prop, tier)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "replays")
    try:
        jobs = []
        for u in spec["units"]:
            if u.tier and u.tier != tier:
                continue
            for i, c in enumerate(u.cases):
                jobs.append((u, c, i))
        only = os.environ.get("VERIF_UNIT")
        if only:
            jobs = [j for j in jobs if j[0].name == only]
        oc = os.environ.get("VERIF_CASE")
        if oc:
            jobs = [j for j in jobs if oc in case_str(j[1])]
        jobs.sort(key=lambda j: not j[0].slow)
        results = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            fs = [ex.submit(prove, ctx, u, c, i) for u, c, i in jobs]
            for f in cf.as_completed(fs):
                r = f.result()
                results.append(r)
                v = os.environ.get("VERIF_VERBOSE")
                if v and (v == "2" or r.status != "ok" or r.time > 30):
                    print("%-10s %-24s %-28s obl %d/%d %.1fs (solver %.1f) unwind %s %s" % (
                        r.status, r.unit.name, case_str(r.case), r.discharged,
                        r.obligations, r.time, r.solver_time, r.unwind,
                        r.reason[-700:]), flush=True)
                if v:
                    for x in r.failed[:8]:
                        print("    FAILED", x)
        results.sort(key=lambda r: (r.unit.name, case_str(r.case)))
        return report(ctx, prop, tier, spec, results, rdir)
    finally:
        ctx.cleanup()


def level_note(prop):
    try:
        m = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        return [c["level_note"] for c in m["checks"]
                if c["property"] == prop][0]
    except (OSError, ValueError, KeyError, IndexError):
        return ""


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def report(ctx, prop, tier, spec, results, rdir):
    nviol = 0
    lines = []
    failed = [r for r in results if r.status == "failed"]
    undecided = [r for r in results if r.status == "undecided"]
    ok = [r for r in results if r.status == "ok"]
    if any(r.confirm for r in failed):
        # report the violations shown on the real code; obligations that
        # failed next to them are in the evidence file
        failed = [r for r in failed if r.confirm]
    for r in failed:
        nviol += 1
        os.makedirs(rdir, exist_ok=True)
        name = "%s-%s-%s.txt" % (prop, r.unit.name,
                                 re.sub(r"[^A-Za-z0-9]+", "_", case_str(r.case)) or "all")
        path = os.path.join(rdir, name)
        with open(path, "w") as f:
            f.write("property %s\nunit %s (contracts/%s) case [%s]\n" % (
                prop, r.unit.name, r.unit.file, case_str(r.case)))
            f.write("command %s\n\nfailed obligations:\n" % r.cmd)
            for x in r.failed:
                f.write("  %s: %s at %s [%s]\n" % x)
            if r.confirm:
                f.write("\nconfirmed against the real code (%s)\ninputs (hex, in order):\n%s\n"
                        "replay: gcc harness, exit %s\n%s\n" % (
                            r.confirm["source"], " ".join(r.confirm["inputs"]),
                            r.confirm["rc"], r.confirm["output"]))
            else:
                f.write("\nno failing input was reproduced natively\n")
            f.write("\nverifier output:\n%s\n" % r.output)
        lines.append("VIOLATION property=%s replay=%s%s" % (
            prop, path, "" if r.confirm else " no-failing-input-found"))
    kf = known_findings(prop)
    level = spec.get("level", "proof")
    obl = sum(r.obligations for r in results)
    dis = sum(r.discharged for r in results)
    funcs = {}
    for u in spec["units"]:
        for f in u.functions:
            funcs.setdefault(f, set()).add("bounded" if u.bounded else "proved")
    cov = {
        "obligations": obl, "discharged": dis,
        "checker_cmd": "bin/check %s (goto-cc | goto-instrument --dfcc | cbmc per unit); e.g. %s" % (
            prop, results[0].cmd if results else ""),
        "trusted_base": spec.get("trusted", []) + COMMON_TRUST,
        "functions_under_contract": {k: sorted(v) for k, v in sorted(funcs.items())},
        "backend": sorted(set(r.backend for r in results if r.backend)),
        "solver_seconds": round(sum(r.solver_time for r in results), 2),
        "units": [{
            "unit": r.unit.name, "case": case_str(r.case), "status": r.status,
            "obligations": r.obligations, "discharged": r.discharged,
            "enforced_contracts": list(r.unit.enforce),
            "replaced_by_contract": list(r.unit.replace),
            "backend": r.backend,
            "unwind": r.unwind, "bounded": r.bounded,
            "reachability_checks": r.reach,
            "seconds": round(r.time, 2), "solver_seconds": round(r.solver_time, 2),
            **({"reason": r.reason[-400:]} if r.reason else {}),
        } for r in results],
        "obligations_in_bounded_units": sum(r.obligations for r in results if r.bounded),
        "undecided_units": len(undecided),
        "explanation": level_note(prop),
    }
    assumptions = list(spec.get("assumptions", []))
    for u in spec["units"]:
        for a in u.assumptions:
            if a not in assumptions:
                assumptions.append(a)
        if u.bounded:
            assumptions.append("bounded unit %s: %s" % (u.name, u.bounded))
    ev = {"property": prop, "tier": tier,
          "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
          "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - ctx.t0, 2), "violations": nviol}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for i, t in kf:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, i, t))
    for r in undecided:
        print("UNDECIDED property=%s unit=%s case=[%s] %s" % (
            prop, r.unit.name, case_str(r.case),
            " ".join(r.reason.split())[:300]))
    print("%s: %d units ok, %d failed, %d undecided; obligations %d, discharged %d; %.1fs" % (
        prop, len(ok), len(failed), len(undecided), obl, dis,
        time.time() - ctx.t0))
    for l in sorted(lines, key=lambda l: l.endswith("found")):
        print(l)
    if failed:
        return 1
    if not ok:
        return 2
    return 0


COMMON_TRUST = [
    "cbmc/goto-cc/goto-instrument 6.11.0 (C semantics, dfcc instrumentation, bit-precise encoding) and its SAT solver",
    "flat address space: comparing a pointer past the end of its object with pointers into it (the `end < pos + n` idiom) is ordered by offset",
    "LP64 little-endian target, as built here",
]
