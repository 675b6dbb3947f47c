#!/usr/bin/env python3
"""Discharge the proof obligations of one property against /repo's current tree.

usage: check.py <property id> [--only NAME[,NAME]] [--tier quick|thorough] [-v]

Obligations are declared in props/<id>/*.c as comments of the form
  //@obl <entry> kind=proof|bounded unwind=N [key=value ...] [note="..."]
and per file
  //@file [link=src/a.c,src/b.c] [cflags=...] [funcs=f,g,h] [assume="..."]
"""
import json, os, re, shlex, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(VERIF, "lib")
COMPAT = "/opt/vp/compat/supamcp_linux.h"
INCS = ["include", "src", "."] + ["src/%s%s" % (d, s) for d in
        ("common", "json", "transport", "server", "client", "connection_pool", "gateway", "kmcp")
        for s in ("", "/internal")]

MEMSAFE = re.compile(r"\.(pointer_dereference|array_bounds|bounds|precondition_instance|precondition|memory-leak|deallocated|dead_object)\b")
WEAKCLS = re.compile(r"\.(overflow|undefined-shift|division-by-zero|pointer_arithmetic|pointer_primitives|conversion|enum-range|NaN|pointer)\b")


class CheckError(Exception):
    pass


class Unattached(Exception):
    """The proof artefact does not attach to the current text of the code."""


# set once a failure was replayed on the real code: the rest need not be decided
STOP = threading.Event()


def sh(cmd, timeout=None, cwd=None, env=None, stoppable=False):
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, errors="replace", text=True)
    while True:
        try:
            left = None if timeout is None else max(0.1, timeout - (time.time() - t0))
            out, err = p.communicate(timeout=min(1.0, left) if stoppable and left is not None else 1.0 if stoppable else left)
            return p.returncode, out, err, time.time() - t0
        except subprocess.TimeoutExpired:
            stop = stoppable and STOP.is_set()
            if stop or (timeout is not None and time.time() - t0 >= timeout):
                p.kill()
                p.communicate()
                return -999, "", "stopped" if stop else "timeout", time.time() - t0


def parse_meta(path):
    text = open(path, errors="replace").read()
    fmeta = {}
    obls = []
    for m in re.finditer(r"^//@(file|obl)[ \t]+(.*)$", text, re.M):
        toks = shlex.split(m.group(2))
        d = {}
        name = None
        for t in toks:
            if "=" in t:
                k, v = t.split("=", 1)
                d[k] = v
            else:
                name = t
        if m.group(1) == "file":
            fmeta.update(d)
        else:
            d["entry"] = name
            obls.append(d)
    return fmeta, obls


def cflags(compat=True):
    f = ["-D_GNU_SOURCE", "-DVH_HARNESS"]
    for i in INCS:
        p = os.path.join(REPO, i)
        if os.path.isdir(p) or i == "include":
            f += ["-I", p]
    f += ["-I", LIB] + (["-include", COMPAT] if compat else []) + ["-include", os.path.join(LIB, "vh_pre.h")]
    return f


_defs = None


def repo_definition(fn):
    """source file of /repo that defines the function fn"""
    global _defs
    if _defs is None:
        _defs = {}
        for root, _, files in os.walk(os.path.join(REPO, "src")):
            for n in sorted(files):
                if n.endswith(".c"):
                    p = os.path.join(root, n)
                    t = open(p, errors="replace").read()
                    for m in re.finditer(r"^(?!static\b)[A-Za-z_][\w\s\*]*?\b(\w+)\s*\([^;{}]*\)\s*\{", t, re.M):
                        _defs.setdefault(m.group(1), os.path.relpath(p, REPO))
    return _defs.get(fn)


def find_function(text, fn):
    """(start, end) of the body of the definition of fn, or None"""
    for m in re.finditer(r"\b%s\s*\(" % re.escape(fn), text):
        i = m.end()
        d = 1
        while i < len(text) and d:
            d += {"(": 1, ")": -1}.get(text[i], 0)
            i += 1
        j = i
        while j < len(text) and text[j] in " \t\r\n":
            j += 1
        if j < len(text) and text[j] == "{":
            k = j + 1
            d = 1
            while k < len(text) and d:
                d += {"{": 1, "}": -1}.get(text[k], 0)
                k += 1
            return j, k
    return None


def annotate(text, spec):
    """insert one loop contract between a loop header and its body"""
    span = find_function(text, spec["function"])
    if not span:
        raise Unattached("function %s not found" % spec["function"])
    a, b = span
    hits = list(re.finditer(spec["loop"], text[a:b]))
    if len(hits) <= spec.get("nth", 0):
        raise Unattached("loop %r of %s not found" % (spec["loop"], spec["function"]))
    pos = a + hits[spec.get("nth", 0)].start()
    i = text.index("(", pos) + 1
    d = 1
    while d:
        d += {"(": 1, ")": -1}.get(text[i], 0)
        i += 1
    c = ""
    if "assigns" in spec:
        c += " __CPROVER_assigns(%s)" % spec["assigns"]
    for inv in spec["invariants"]:
        c += " __CPROVER_loop_invariant(%s)" % inv
    if "decreases" in spec:
        c += " __CPROVER_decreases(%s)" % spec["decreases"]
    if "pin" not in spec:
        return text[:i] + c + text[i:]
    # tells the verifier which objects a pointer changed by the loop can refer
    # to: asserted, then reassigned the same value by name
    pin = "".join(' __CPROVER_assert(%s || %s == 0, "DETACH pointer of the loop"); %s = %s 0;' % (
        " || ".join("%s == %s" % (v, x) for x in xs), v, v, "".join("%s == %s ? %s : " % (v, x, x) for x in xs)) for v, xs in spec["pin"].items())
    m = re.compile(r"\s*\{").match(text, i)
    if not m:
        raise Unattached("loop of %s has no block" % spec["function"])
    j = m.end()
    k = j
    d = 1
    while d:
        d += {"{": 1, "}": -1}.get(text[k], 0)
        k += 1
    return text[:i] + c + text[i:j] + pin + text[j:k] + pin + text[k:]


class Unit:
    """one harness file, compiled"""

    def __init__(self, path, work, tier):
        self.path = path
        self.work = work
        self.fmeta, self.obls = parse_meta(path)
        self.tier = tier
        self.base = os.path.splitext(os.path.basename(path))[0]
        self.extra = []
        self.log = []
        self.annotated = False
        self.loop_err = None

    def sources(self):
        link = [x for x in self.fmeta.get("link", "").split(",") if x]
        out = [self.path, os.path.join(LIB, "vh_rt.c"), os.path.join(LIB, "vh_log.c"), os.path.join(LIB, "vh_libc.c")]
        for l in link + self.extra:
            out.append(os.path.join(REPO, l))
        return out

    def flags(self, src, native=False):
        pre = []
        if src == self.path or src.startswith(self.work):
            if self.annotated and not native:
                pre = ["-I", os.path.join(self.work, "annot." + self.base)]
            if self.fmeta.get("subst"):
                pre += ["-I", os.path.join(self.work, "subst." + self.base)]
        return pre + cflags(not src.startswith(LIB)) + shlex.split(self.fmeta.get("cflags", ""))

    def substitute(self, must=True):
        """copies of sources in which a named constant is given another value"""
        texts = {}
        self.partial = False
        for spec in json.load(open(os.path.join(os.path.dirname(self.path), self.fmeta["subst"]))):
            f = spec["file"]
            if f not in texts:
                try:
                    texts[f] = open(os.path.join(REPO, f), errors="replace").read()
                except OSError as e:
                    raise Unattached(str(e))
            texts[f], n = re.subn(spec["from"], spec["to"], texts[f], flags=re.M)
            self.partial = self.partial or not n
            if not n and must:
                raise Unattached("no text %r in %s" % (spec["from"], f))
        for f, t in texts.items():
            p = os.path.join(self.work, "subst." + self.base, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(t)

    def compile_goto(self):
        self.loop_err = None
        self.annotated = bool(self.fmeta.get("loops"))
        try:
            return self.compile_text()
        except Unattached as e:
            if not self.annotated:
                raise
            # the loop contracts do not fit this text: the obligations that
            # need none are still decided
            self.loop_err = str(e)
            self.annotated = False
            return self.compile_text()

    def compile_text(self):
        g = os.path.join(self.work, self.base + ".goto")
        if self.fmeta.get("subst"):
            self.substitute()
        if self.annotated:
            texts = {}
            for spec in json.load(open(os.path.join(os.path.dirname(self.path), self.fmeta["loops"]))):
                f = spec["file"]
                if f not in texts:
                    try:
                        texts[f] = open(os.path.join(REPO, f), errors="replace").read()
                    except OSError as e:
                        raise Unattached(str(e))
                texts[f] = annotate(texts[f], spec)
            for f, t in texts.items():
                p = os.path.join(self.work, "annot." + self.base, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write(t)

        def cc(job):
            i, s = job
            if not os.path.exists(s):
                raise Unattached("source file %s does not exist" % s)
            o = os.path.join(self.work, "%s.%d.gb" % (self.base, i))
            rc, out, err, _ = sh(["goto-cc", "-std=gnu11", "-c", "-o", o] + self.flags(s) + [s], timeout=200)
            if rc != 0:
                raise Unattached("goto-cc failed on %s:\n%s" % (s, (out + err)[-3000:]))
            return o

        with ThreadPoolExecutor(max_workers=8) as ex:
            objs = list(ex.map(cc, enumerate(self.sources())))
        rc, out, err, _ = sh(["goto-cc", "-o", g] + objs, timeout=200)
        if rc != 0 and self.extra:
            # the harness defines some of the functions of an additionally
            # linked file by contract: those definitions take precedence
            dup = sorted(set(re.findall(r"conflicting function declarations '(\w+)'|function body '(\w+)' defined twice", out + err)))
            dup = [a or b for a, b in dup]
            k = len(objs) - len(self.extra)
            for o in objs[k:]:
                cmd = ["goto-instrument"]
                for d in dup:
                    cmd += ["--remove-function-body", d]
                sh(cmd + [o, o], timeout=100)
            rc, out, err, _ = sh(["goto-cc", "-o", g] + objs, timeout=200)
        if rc != 0:
            raise Unattached("goto-cc link failed: %s" % (out + err)[-3000:])
        self.goto = g
        return g

    def compile_native(self, entry):
        exe = os.path.join(self.work, "%s.%s.native" % (self.base, entry))
        objs = []
        if self.fmeta.get("subst"):
            self.substitute(must=False)
        for i, s in enumerate(self.sources()):
            o = os.path.join(self.work, "%s.%s.%d.o" % (self.base, entry, i))
            cmd = ["clang", "-std=gnu11", "-g", "-O0", "-w", "-Wno-incompatible-function-pointer-types", "-fno-pie", "-DREPLAY", "-DENTRY=" + entry,
                   "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer",
                   "-ffunction-sections", "-c", "-o", o] + self.flags(s, True) + [s]
            rc, out, err, _ = sh(cmd, timeout=200)
            if rc != 0:
                return None, "native compile of %s failed: %s" % (s, err[-3000:])
            objs.append(o)
        cmd = ["clang", "-no-pie", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-Wl,--gc-sections", "-Wl,--allow-multiple-definition",
               "-Wl,--unresolved-symbols=ignore-all", "-o", exe] + objs + ["-lpthread", "-lm"]
        rc, out, err, _ = sh(cmd, timeout=200)
        if rc != 0:
            return None, "native link failed: %s" % err[-3000:]
        return exe, ""


LINE = re.compile(r"^\[(\S+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$")
HEAD = re.compile(r"^(\S+) function (\S+)$")


def cbmc_results(cmd, timeout):
    """Every property with its status.  A run that does not end with the
    verifier's own verdict (or lists fewer properties than it says) is an error."""
    rc, out, err, dt = sh(cmd, timeout=timeout, stoppable=True)
    if rc == -999:
        return None, "timeout after %ds" % timeout, dt
    res = []
    loc = {}
    for line in out.splitlines():
        m = LINE.match(line)
        if m:
            res.append({"property": m.group(1), "description": m.group(3), "status": m.group(4),
                        "sourceLocation": dict(loc, line=m.group(2) or "")})
            continue
        m = HEAD.match(line)
        if m:
            loc = {"file": m.group(1), "function": m.group(2)}
    m = re.search(r"^\*\* (\d+) of (\d+) failed", out, re.M)
    bad = [r for r in res if r["status"] != "SUCCESS"]
    if rc not in (0, 10) or not m or int(m.group(2)) != len(res) or (rc == 0) != (not bad) \
            or not re.search(r"^VERIFICATION (SUCCESSFUL|FAILED)$", out, re.M):
        return None, "no verdict rc=%s (%d properties listed): %s %s" % (rc, len(res), out[-600:], err[-600:]), dt
    return res, err, dt


class Obl:
    def __init__(self, unit, meta):
        self.u = unit
        self.m = meta
        self.entry = meta["entry"]
        self.kind = meta.get("kind", "proof")
        self.name = "%s.%s" % (unit.base, self.entry)
        self.status = "error"
        self.detail = ""
        self.n = self.ok = 0
        self.time = 0.0
        self.reach = 0
        self.failed = []
        self.inputs = None
        self.unwind = int(meta.get("unwind", "2"))

    def prepare(self):
        """per-obligation goto transformations (calls replaced by contracts)"""
        self.goto = self.u.goto
        rep = [x for x in self.m.get("replace", "").split(",") if x]
        if rep:
            g = os.path.join(self.u.work, self.name + ".inst.goto")
            cmd = ["goto-instrument"]
            for r in rep:
                cmd += ["--replace-calls", r]
            rc, out, err, _ = sh(cmd + [self.u.goto, g], timeout=100)
            if rc != 0:
                raise Unattached("replace-calls %s: %s" % (rep, (out + err)[-800:]))
            self.goto = g
        if self.m.get("loops"):
            if self.u.loop_err:
                raise Unattached("loop contracts: " + self.u.loop_err)
            # the loop invariants were inserted after the loop headers of the
            # real functions (Unit.compile_goto); use them instead of unwinding
            g2 = os.path.join(self.u.work, self.name + ".entry.goto")
            rc, out, err, _ = sh(["goto-cc", "--function", self.entry, self.goto, "-o", g2], timeout=100)
            g3 = os.path.join(self.u.work, self.name + ".loops.goto")
            rc, out, err, _ = sh(["goto-instrument", "--dfcc", self.entry,
                                  "--apply-loop-contracts", "--no-malloc-may-fail", g2, g3], timeout=200)
            if rc != 0:
                raise Unattached("loop contracts: %s" % (out + err)[-800:])
            self.goto = g3

    def cmd(self, unwind):
        c = ["prlimit", "--as=%d" % (int(self.m.get("mem", "6")) << 30), "cbmc", self.goto, "--function", self.entry, "--no-malloc-may-fail",
             "--no-pointer-primitive-check", "--drop-unused-functions", "--object-bits", self.m.get("objbits", "10"),
             "--unwind", str(unwind)]
        if self.m.get("unwindset"):
            c += ["--unwindset", self.m["unwindset"]]
        s = self.m.get("solver", "cadical")
        if s in ("cadical", "minisat2", "glucose"):
            c += ["--sat-solver", s]
        elif s in ("cvc5", "z3", "bitwuzla"):
            c += ["--" + s]
        c += shlex.split(self.m.get("args", ""))
        return c

    def run(self, budget):
        unwind = int(self.m.get("unwind", "8"))
        if self.u.tier == "thorough" and "tunwind" in self.m:
            unwind = int(self.m["tunwind"])
        cap = unwind * 4 + 8
        limit = int(self.m.get("timeout", "300"))
        t0 = time.time()
        while True:
            left = min(limit, budget - (time.time() - t0))
            if left < 5:
                self.status, self.detail = "timeout", "time limit"
                return
            res, msg, dt = cbmc_results(self.cmd(unwind), left)
            self.time += dt
            if res is None:
                self.status = "timeout" if msg.startswith("timeout") else "error"
                self.detail = msg
                return
            fails = [r for r in res if r["status"] == "FAILURE"]
            nobody = [r for r in fails if ".no-body." in r["property"]]
            unw = [r for r in fails if ".unwind." in r["property"] or ".recursion" in r["property"]]
            if nobody:
                self.status = "nobody"
                self.detail = ",".join(sorted(set(r["property"].split(".no-body.")[1] for r in nobody)))
                return
            det = [r for r in fails if r.get("description", "").startswith("DETACH ")]
            if det:
                self.status, self.detail = "unattached", det[0]["description"]
                return
            if unw:
                if unwind >= cap and not self.m.get("abstract") and any(r["status"] == "FAILURE" and (r.get("description", "").startswith("CHECK ") or MEMSAFE.search(r["property"])) for r in res):
                    break  # not exhausted, but already refuted
                if unwind >= cap:
                    self.status, self.detail = "error", "loop not exhausted at unwind %d: %s" % (unwind, unw[0]["property"])
                    return
                unwind = min(cap, unwind * 2)
                continue
            break
        self.unwind = unwind
        reach = [r for r in res if r.get("description", "").startswith("REACH ")]
        rest = [r for r in res if not r.get("description", "").startswith(("REACH ", "DETACH "))
                and ".unwind." not in r["property"] and ".recursion" not in r["property"]]
        unk = [r for r in rest + reach if r["status"] not in ("SUCCESS", "FAILURE")]
        if unk and not any(r["status"] == "FAILURE" for r in rest):
            self.status, self.detail = "error", "undecided: %s" % unk[0]["property"]
            return
        self.n = len(rest)
        self.ok = sum(1 for r in rest if r["status"] == "SUCCESS")
        self.reach = len(reach)
        self.failed = [r for r in rest if r["status"] == "FAILURE"]
        self.unwinds = len(res) - len(reach) - len(rest)
        if self.failed:
            art = [r for r in self.failed if re.search(r"\.(loop_invariant_\w+|loop_assigns|loop_decreases|assigns|loop_step_unwinding)\b", r["property"])
                   or "invariant" in r.get("description", "") and "loop" in r.get("description", "")]
            if art and self.m.get("standin"):
                # the invariant is no longer inductive: the proof artefact does
                # not fit this text; the bounded stand-in decides
                self.status, self.detail = "unattached", "%s %s" % (art[0]["property"], art[0].get("description"))
                return
            self.status = "failed"
            return
        dead = [r for r in reach if r["status"] == "SUCCESS"]
        if dead or self.n == 0 or not reach:
            self.status = "vacuous"
            self.detail = "unreachable: " + "; ".join(r["description"] for r in dead) if dead else "no obligations or no reach guard"
            return
        self.status = "ok"

    def trace(self, prop, timeout):
        c = self.cmd(self.unwind) + ["--json-ui", "--trace", "--property", prop]
        rc, out, err, dt = sh(c, timeout=timeout, stoppable=True)
        try:
            j = json.loads(out)
        except Exception:
            return None, (out + err)[-2000:]
        for x in j:
            for r in x.get("result", []) if isinstance(x, dict) else []:
                if r["property"] == prop and "trace" in r:
                    ins = []
                    for s in r["trace"]:
                        if s.get("stepType") == "input":
                            for v in s.get("values", []):
                                b = v.get("binary")
                                if b is None:
                                    d = str(v.get("data", "0")).rstrip("ul").strip()
                                    d = {"TRUE": "1", "FALSE": "0", "true": "1", "false": "0"}.get(d, d)
                                    try:
                                        val = int(float(d))
                                    except Exception:
                                        val = 0
                                else:
                                    val = int(b, 2)
                                ins.append((s["inputID"], val & ((1 << 64) - 1)))
                    loc = None
                    for s in reversed(r["trace"]):
                        if s.get("stepType") == "failure":
                            loc = s.get("sourceLocation")
                            break
                    return ins, loc
        return None, "no trace"


def replay_native(unit, entry, inputs, work):
    exe, err = unit.compile_native(entry)
    if not exe:
        return None, err
    f = os.path.join(work, "in.%s.%s.txt" % (unit.base, entry))
    with open(f, "w") as h:
        for n, v in inputs:
            h.write("%s %d\n" % (n, v))
    env = dict(os.environ)
    env["VH_INPUTS"] = f
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:print_stacktrace=1"
    rc, out, errt, _ = sh([exe], timeout=60, env=env, cwd=work)
    return rc, (out + errt)[-6000:]


def rank(r):
    """harness assertions first, then memory safety, then the rest"""
    d = r.get("description", "")
    return 0 if d.startswith("CHECK ") else 1 if MEMSAFE.search(r["property"]) else 2


def confirm(o, work, deadline):
    """run the real code on the verifier's counterexample"""
    o.fl = sorted(o.failed, key=rank)
    o.confirmed = None
    o.attempt = (o.fl[0], None, None, "not replayed: another failure was")
    # without inputs first: enumerating harnesses need none
    tries = [(o.fl[0], [])] + [(r, None) for r in o.fl[:4]]
    for r, ins in tries:
        if STOP.is_set():
            return
        loc = r.get("sourceLocation")
        if ins is None:
            ins, loc = o.trace(r["property"], max(20, min(300, deadline - time.time())))
            if ins is None:
                if o.attempt[1] is None:
                    o.attempt = (r, None, None, str(loc))
                continue
        nrc, nout = replay_native(o.u, o.entry, ins, work)
        res = (r, ins, loc, "native replay exit %s\n%s" % (nrc, nout))
        if nrc is not None and nrc not in (0, 98):
            o.confirmed = res
            STOP.set()
            return
        if not o.attempt[1]:
            o.attempt = res


def undecided(o, work):
    """the verifier gave no answer: the enumerating part of the harness needs
    no inputs, so a failure it shows on the real code decides all the same"""
    nrc, nout = replay_native(o.u, o.entry, [], work)
    o.ran = nrc == 0
    if getattr(o.u, "partial", False):
        # sizes the harness counts on are not what it expects: a failure says nothing
        return
    if nrc is None or nrc in (0, 98) or not re.search(r"VH-FAIL|ERROR: AddressSanitizer: (heap|stack|global|dynamic-stack)-buffer|use-after|double-free", nout):
        return
    r = {"property": o.entry + ".run", "description": "CHECK run of the harness on the real code", "status": "FAILURE"}
    o.status, o.failed, o.fl = "failed", [r], [r]
    o.confirmed = o.attempt = (r, [], None, "verifier: %s\nnative run exit %s\n%s" % (o.detail[:200], nrc, nout))
    STOP.set()


def main():
    args = sys.argv[1:]
    pid = args[0]
    only = None
    tier = os.environ.get("VERIF_TIER", "quick")
    verbose = "-v" in args
    for i, a in enumerate(args):
        if a == "--only":
            only = args[i + 1].split(",")
        if a == "--tier":
            tier = args[i + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    total = float(os.environ.get("VERIF_BUDGET", "820" if tier == "quick" else "7000"))
    pdir = os.path.join(VERIF, "props", pid)
    work = tempfile.mkdtemp(prefix="vh_%s_" % pid)
    rdir = os.path.join(VERIF, "evidence", "replay")
    rc = 2
    try:
        rc = run(pid, pdir, work, rdir, tier, seed, only, verbose, t0, total)
    except CheckError as e:
        print("ERROR %s: %s" % (pid, e))
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(pid, pdir, work, rdir, tier, seed, only, verbose, t0, total):
    files = sorted(os.path.join(pdir, f) for f in os.listdir(pdir) if f.endswith(".c"))
    units = [Unit(f, work, tier) for f in files]
    pool = ThreadPoolExecutor(max_workers=max(2, min(8, os.cpu_count() or 4)))

    def comp(u):
        try:
            u.compile_goto()
            u.err = None
        except Unattached as e:
            u.err = str(e)
        return u

    list(pool.map(comp, units))
    obls = []
    notattached = []
    for u in units:
        for m in u.obls:
            if m.get("tier") == "thorough" and tier != "thorough":
                continue
            if only and m["entry"] not in only:
                continue
            o = Obl(u, m)
            obls.append(o)
    if not obls:
        raise CheckError("no obligations declared")

    def one(o):
        if o.u.err:
            o.status, o.detail = "unattached", o.u.err
            if o.kind == "bounded" and not STOP.is_set():
                try:
                    undecided(o, work)
                except Exception:  # noqa
                    pass
            if verbose:
                print("  %-45s %s" % (o.name, o.u.err[:900]))
            return o
        if STOP.is_set():
            o.status, o.detail = "skipped", "a violation was found"
            return o
        try:
            o.prepare()
            o.run(total - (time.time() - t0))
            if o.status == "failed":
                confirm(o, work, t0 + total + 60)
            elif o.status in ("timeout", "error") and not STOP.is_set():
                undecided(o, work)
        except Unattached as e:
            o.status, o.detail = "unattached", str(e)
        except Exception as e:  # noqa
            o.status, o.detail = "error", repr(e)
        if verbose:
            print("  %-45s %-8s %-8s n=%d ok=%d reach=%d %.1fs %s" % (o.name, o.kind, o.status, o.n, o.ok, o.reach, o.time, o.detail[:600]))
            for r in o.failed:
                print("      FAILED %s: %s" % (r["property"], r.get("description")))
            sys.stdout.flush()
        return o

    todo = sorted(obls, key=lambda o: -float(o.m.get("cost", "1")))
    for rnd in range(8):
        list(pool.map(one, todo))
        # code moved to another file of the repository: link it and go on
        nb = [o for o in todo if o.status == "nobody"]
        if not nb:
            break
        redo = set()
        for o in nb:
            for fn in o.detail.split(","):
                src = repo_definition(fn)
                if src and src not in o.u.extra and os.path.join(REPO, src) not in o.u.sources():
                    o.u.extra.append(src)
                    redo.add(o.u)
        if not redo:
            for o in nb:
                o.status = "error"
                o.detail = "function without definition: " + o.detail
            break
        list(pool.map(comp, redo))
        todo = [o for o in obls if o.u in redo]
        for o in todo:
            o.__init__(o.u, o.m)

    # -- outcome -------------------------------------------------------------
    violations = []
    notes = []
    for o in obls:
        if o.status != "failed":
            continue
        fl, confirmed, attempt = o.fl, o.confirmed, o.attempt
        r, ins, loc, out = confirmed or attempt
        strong = any(rank(x) < 2 for x in fl)
        if not confirmed and o.m.get("abstract"):
            # stated over contracts of library functions: without a failing run
            # of the real code it says only that the contracts do not describe
            # how this text uses them; the stand-in decides
            o.status, o.detail = "unattached", "%s has no failing run on the real code" % r["property"]
            continue
        if not confirmed and not strong:
            # an overflow-class obligation that has no concrete failing run
            notes.append("%s: %s not confirmed natively" % (o.name, r["property"]))
            o.status = "weak"
            continue
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s.json" % (pid, o.name))
        json.dump({"property": pid, "obligation": o.name, "kind": o.kind, "unwind": o.unwind,
                   "harness": os.path.relpath(o.u.path, VERIF), "extra_links": o.u.extra,
                   "failed_obligations": [{"name": x["property"], "description": x.get("description"), "location": x.get("sourceLocation")} for x in fl],
                   "replayed_obligation": r["property"], "inputs": ins, "failure_location": loc if isinstance(loc, dict) else None,
                   "confirmed_on_real_code": bool(confirmed), "output": out,
                   "verifier_command": " ".join(o.cmd(o.unwind)),
                   "how_to_replay": "python3 bin/replay.py %s" % rp}, open(rp, "w"), indent=1)
        violations.append((o, r, rp, bool(confirmed)))

    if violations and any(v[3] for v in violations):
        violations = [v for v in violations if v[3]]
    bad = [o for o in obls if o.status in ("error", "timeout", "vacuous")]
    unatt = [o for o in obls if o.status == "unattached"]
    okb = [o for o in obls if o.status in ("ok", "weak")]
    # A proof artefact that does not attach to the current text (or a proof
    # that runs out of resources on it) is replaced by the bounded stand-ins it
    # names; without a passing stand-in it is an error of the check.
    okn = set(o.entry for o in okb)
    fallback, hard = [], []
    for o in unatt + bad:
        si = [x for x in o.m.get("standin", "").split(",") if x]
        if si and all(x in okn for x in si):
            fallback.append(o)
        elif o.m.get("extra") and o.kind == "bounded" and o.status == "timeout" and okb:
            # a bounded check on top of the others that found no answer in time
            notes.append("%s undecided within its time limit" % o.name)
        elif o.kind == "bounded" and getattr(o, "ran", False) and okb:
            # no answer from the verifier: the cases the harness enumerates
            # were run on the real code, and no more is claimed
            notes.append("%s %s: its enumerated cases were run, nothing was verified" % (o.name, o.status))
        else:
            hard.append(o)
    err = None
    if hard:
        err = "; ".join("%s %s: %s" % (o.name, o.status, o.detail[:250]) for o in hard)
    for o in fallback:
        notes.append("%s did not attach (%s: %s): bounded stand-in %s only" % (o.name, o.status, o.detail[:160].replace("\n", " "), o.m["standin"]))

    proofs = [o for o in obls if o.kind == "proof" and o not in fallback]
    bnd = [o for o in obls if o.kind == "bounded" and o.status not in ("unattached",)]
    ev = {
        "property": pid, "tier": tier, "seed": seed,
        "level": "proof",
        "coverage": {
            "obligations": sum(o.n for o in proofs),
            "discharged": sum(o.ok for o in proofs),
            "checker_cmd": "python3 bin/check.py %s (cbmc 6.11.0, goto-cc; harnesses props/%s/*.c include the real sources)" % (pid, pid),
            "trusted_base": ["cbmc 6.11.0 symbolic execution and C semantics (LP64, little endian)", "SAT back ends: " + ",".join(sorted(set(o.m.get("solver", "cadical") for o in obls))),
                             "goto-cc front end with /opt/vp/compat/supamcp_linux.h"] + sorted(set(x for u in units for x in u.fmeta.get("trusted", "").split(";") if x)),
            "functions_under_contract": sorted(set(f for u in units for f in u.fmeta.get("funcs", "").split(",") if f)),
            "bounded_obligations": sum(o.n for o in bnd),
            "bounded_discharged": sum(o.ok for o in bnd),
            "vacuity_guards_reached": sum(o.reach for o in obls if o.status in ("ok", "weak")),
            "solver_time_s": round(sum(o.time for o in obls), 2),
            "per_harness": [{"name": o.name, "kind": o.kind, "status": o.status, "obligations": o.n, "discharged": o.ok,
                             "unwind": getattr(o, "unwind", None), "bound": o.m.get("bound"), "backend": o.m.get("solver", "cadical"),
                             "time_s": round(o.time, 2), "note": o.m.get("note", "")} for o in obls],
            "explanation": "obligations/discharged count only harnesses that are complete (no cap on data or iterations); harnesses labelled bounded are counted separately in bounded_*",
        },
        "assumptions": sorted(set(x.strip() for u in units for x in u.fmeta.get("assume", "").split(";") if x.strip()))
        + ["every allocation of at most 2^40 bytes may succeed; larger ones fail", "logging has no effect on the verified state"] + notes,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for o, r, rp, conf in violations:
        print("obligation failed: %s [%s] %s %s" % (o.name, o.kind, r["property"], r.get("description")))
    if violations:
        best = sorted(violations, key=lambda v: not v[3])[0]
        print("VIOLATION property=%s replay=%s%s" % (pid, best[2], "" if best[3] else " no-failing-input-found"))
        return 1
    if err:
        raise CheckError(err)
    print("OK %s: %d obligations discharged, %d bounded, %.1fs" % (pid, ev["coverage"]["discharged"], ev["coverage"]["bounded_discharged"], time.time() - t0))
    for n in notes:
        print("note: " + n)
    return 0


if __name__ == "__main__":
    main()
