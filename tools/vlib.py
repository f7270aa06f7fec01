"""Shared machinery of the checks: build harness, run TLC, validate traces, write evidence."""
import json, os, random, re, shutil, subprocess, sys, threading, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
_JLOCK = threading.Lock()
NCPU = int(os.environ.get("VERIF_CPUS", "8"))


class ToolError(Exception):
    pass


def _env():
    e = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1)
                e[k.decode()] = v.decode("utf8", "replace")
    except OSError:
        pass
    e["CARGO_NET_OFFLINE"] = "true"
    return e


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.out = os.path.join(VERIF, "out", pid)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.states = self.transitions = self.traces = self.records = 0
        self.cov, self.samples, self.notes, self.distinct = {}, [], [], set()
        self.violations, self.known_hits = [], []
        self.known = load_known(pid)
        self.bins = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, salt=""):
        return random.Random(f"{self.seed}/{self.pid}/{salt}")

    # ---------------------------------------------------------------- build
    def build(self, crate):
        if crate in self.bins:
            return self.bins[crate]
        env = _env()
        env["CARGO_TARGET_DIR"] = os.path.join(VERIF, "target")
        env.pop("RUSTFLAGS", None)
        r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "harness", crate), env=env,
                           capture_output=True, text=True)
        if r.returncode:
            raise ToolError("harness build failed:\n" + r.stderr[-4000:])
        self.bins[crate] = os.path.join(VERIF, "target", "debug", "vh-" + crate)
        return self.bins[crate]

    # ---------------------------------------------------------------- TLC
    def _tlc(self, module, cfg, args=(), env=None, timeout=800, heap="3g", tag="", accel=True):
        jdir = java_overrides() if accel else SPEC
        md = os.path.join(self.out, "states-" + module + tag)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Xmx" + heap, "-XX:+UseSerialGC" if "1" in args else "-XX:+UseParallelGC", "-Xss64m",
               "-cp", jdir + ":" + JARS, "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", md, "-config", cfg] + list(args) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout,
                               errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module}")
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    def model_check(self, module, cfg=None, timeout=800, env=None):
        """Exhaustively explore a bounded model; the invariants must hold of the design itself."""
        rc, out = self._tlc(module, cfg or module + ".cfg", ["-workers", str(NCPU)], timeout=timeout, heap="8g",
                            tag=(cfg or ""), env=env)
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left", out)
        if rc != 0 or not m:
            raise ToolError(f"specification {module} does not check (rc {rc}):\n" + out[-3000:])
        gen, dist = (int(x.replace(",", "")) for x in m.groups())
        self.states += dist
        self.transitions += gen
        self.notes.append(f"{module}: {dist} states, {gen} transitions")
        return dist

    def check_accelerators(self):
        """The Java accelerators must agree with the TLA+ definitions they stand for."""
        outs = []
        for accel in (True, False):
            p = os.path.join(self.out, f"bytes-{accel}.json")
            rc, out = self._tlc("BytesEq", "BytesEq.cfg", env={"OUT": p}, accel=accel, tag=str(accel))
            if rc:
                raise ToolError("BytesEq: " + out[-2000:])
            outs.append(sorted((json.loads(x) for x in open(p)), key=lambda v: v[0]))
        if outs[0] != outs[1]:
            raise ToolError("accelerated string operators disagree with their TLA+ definitions")
        self.notes.append(f"BytesEq: {len(outs[0])} inputs, accelerated = TLA+ definition")

    def generate(self, module, cfg=None, simulate=None, depth=None, env=None, timeout=600, prefix="g"):
        """Behaviours of the specification as operation histories: the module prints
        <<"HIST", ToJson(ops)>> for each complete behaviour."""
        args = ["-workers", "1" if simulate else str(NCPU)]
        if simulate:
            args = ["-simulate", f"num={simulate}", "-depth", str(depth), "-seed", str(self.seed * 7919 + 11)] + args
        rc, out = self._tlc(module, cfg or module + ".cfg", args, env=env, timeout=timeout, heap="8g", tag="gen")
        hists = []
        for m in re.finditer(r'<<"HIST", "(.*?)">>\s*$', out, re.M):
            hists.append(json.loads(json.loads('"' + m.group(1) + '"')))
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m and not simulate:
            self.transitions += int(m.group(1).replace(",", ""))
            self.states += int(m.group(2).replace(",", ""))
        if not hists:
            raise ToolError(f"no behaviours from {module} (rc {rc}):\n" + out[-3000:])
        return [{"id": f"{prefix}{i}", "ops": h} for i, h in enumerate(hists)]

    # ---------------------------------------------------------------- harness
    def execute(self, crate, mode, hists, name="t", timeout=600, shards=None, env=None):
        """Run histories through the real code; returns trace file paths (one per shard)."""
        binp = self.build(crate)
        n = max(1, min(shards or NCPU, (len(hists) + 3) // 4))
        paths = []

        def one(k):
            part = hists[k::n]
            hp = os.path.join(self.out, f"{name}.{k}.hist")
            tp = os.path.join(self.out, f"{name}.{k}.trace")
            with open(hp, "w") as f:
                for h in part:
                    f.write(json.dumps(h) + "\n")
            ep = os.path.join(self.out, f"{name}.{k}.err")
            e = dict(os.environ)
            e.update(env or {})
            with open(ep, "wb") as ef:
                p = subprocess.Popen([binp, mode, hp, tp], stdout=subprocess.DEVNULL, stderr=ef, env=e,
                                     preexec_fn=_limits)
                try:
                    rc = p.wait(timeout=timeout)
                    why = None if rc == 0 else f"harness ended with status {rc}"
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    why = f"no answer within {timeout} s"
            if why:
                at = "?"
                with open(ep, errors="replace") as f:
                    tail = f.readlines()[-200:]
                for ln in tail:
                    if ln.startswith("@ "):
                        at = ln[2:].strip()
                m = re.match(r'"?([^" ]+)"? (\d+)', at)
                h = next((x for x in part if m and str(x["id"]) == m.group(1)), None)
                if h is None:
                    raise ToolError(f"{why} (mode {mode}, at {at}):\n" + "".join(tail[-5:]))
                return None, (h, int(m.group(2)), why, "".join(x for x in tail if not x.startswith("@ "))[-500:])
            return tp, None

        with ThreadPoolExecutor(n) as ex:
            for tp, crash in ex.map(one, range(n)):
                if crash:
                    h, i, why, tail = crash
                    # an abort or hang of the real code is itself an observation no specification allows
                    self.report(h, i, "abort", f"{why}: {tail}", None)
                else:
                    paths.append(tp)
        return paths

    def corrupt_probe(self, module, trace, prop, mutate, env=None):
        """Demonstrate the binding: a corrupted record must be rejected."""
        recs = [json.loads(x) for x in open(trace)]
        mutate(recs)
        p = trace + ".corrupt"
        with open(p, "w") as f:
            for r in recs:
                f.write(json.dumps(r) + "\n")
        mm, _ = self._tv_one(module, p, prop, env or {}, count=False)
        if not mm:
            raise ToolError(f"binding probe: {module} accepted a corrupted trace")

    # ---------------------------------------------------------------- trace validation
    def _tv_one(self, module, path, prop, env, count=True, timeout=800):
        nrec = sum(1 for _ in open(path))
        if nrec == 0:
            return [], {}
        e = {"TRACE": path, "PROP": prop or self.pid}
        e.update(env)
        rc, out = self._tlc(module, "TV.cfg", ["-workers", "1"], env=e, timeout=timeout,
                            tag=os.path.basename(path))
        mm = []
        for m in re.finditer(r'<<\s*"MISMATCH",\s*"([^"]*)",\s*(\d+),\s*"([^"]*)",\s*"(.*?)"\s*>>', out, re.S):
            mm.append((m.group(1), int(m.group(2)), m.group(3), m.group(4).replace("\\n", " ")))
        cov = re.search(r'<<\s*"COVERAGE",\s*"(.*?)"\s*>>', out, re.S)
        if rc == 75 and "The error occurred when TLC was evaluating" in out:
            # the observation lies outside the specification's domain: a disagreement at the next record
            at = int(re.findall(r"^/\\ l = (\d+)", out, re.M)[-1])
            with open(path) as f:
                rec = json.loads(f.readlines()[at - 1])
            msg = out[out.index("Error:"):][:300].replace("\n", " ")
            return mm + [(str(rec["h"]), int(rec["i"]), rec["op"] + "/domain", "not in the specification's domain: " + msg)], {}
        if rc != 0 or not cov or "Model checking completed. No error" not in out:
            raise ToolError(f"trace validation {module} failed on {path} (rc {rc}):\n" + out[-3500:])
        cv = json.loads(json.loads('"' + re.sub(r"\s*\n\s*", "", cov.group(1)) + '"'))
        return mm, cv

    def validate(self, module, paths, hists, prop=None, env=None, timeout=800):
        byid = {str(h["id"]): h for h in hists}
        paths = [p for p in paths if os.path.getsize(p) > 0]
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(lambda p: self._tv_one(module, p, prop, env or {}, timeout=timeout), paths))
        for p, (mm, cv) in zip(paths, res):
            for k, v in cv.items():
                if k != "records":
                    self.cov[k] = self.cov.get(k, 0) + v
            self.records += cv.get("records", 0)
            self.transitions += cv.get("records", 0)
            self.states += cv.get("records", 0)
            seen = set()
            with open(p) as f:
                recs = f.readlines()
            for hid, i, tag, err in mm:
                if hid not in seen:
                    seen.add(hid)
                    self.report(byid.get(hid, {"id": hid, "ops": []}), i, tag, err, module)
            ids = set()
            for ln in recs:
                m = re.search(r'"h":\s*"([^"]*)"', ln)
                if m:
                    ids.add(m.group(1))
            self.traces += len(ids)
            if len(self.samples) < 3 and recs:
                self.samples.append(json.loads(recs[min(len(recs) - 1, 2)]))
        for h in hists:
            self.distinct.add(hashlib.md5(json.dumps(h["ops"]).encode()).hexdigest())

    def conform(self, crate, mode, module, hists, prop=None, name="t", env=None, timeout=600):
        ps = self.execute(crate, mode, hists, name=name, timeout=timeout)
        self.validate(module, ps, hists, prop=prop, env=env)
        return ps

    # ---------------------------------------------------------------- verdict
    def report(self, hist, i, tag, err, module):
        sig = hist.get("known")
        if sig and sig in self.known:
            self.known_hits.append(sig)
            return
        self.violations.append({"history": hist, "at": i, "tag": tag, "why": err, "module": module})

    def require_cov(self, *tags):
        """Vacuity guard: these specification branches must have been exercised."""
        if self.violations:
            return
        missing = [t for t in tags if not self.cov.get(t)]
        if missing:
            raise ToolError("not exercised: " + ", ".join(missing))

    def finish(self, rule):
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "evaluations": self.records, "distinct_nontrivial": len(self.distinct),
                "rule": rule, "branches": self.cov,
                "samples": [_short(s) for s in self.samples] or ["none"],
                "models": self.notes,
            },
            "violations": len(self.violations), "wall_s": round(time.time() - self.t0, 2),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for sig in sorted(set(self.known_hits)):
            print(f"KNOWN-FINDING: property={self.pid} {self.known[sig]}")
        if self.violations:
            for n, v in enumerate(self.violations[:5]):
                p = os.path.join(self.out, f"replay-{n}.json")
                with open(p, "w") as f:
                    json.dump(v, f, indent=1)
                if n == 0:
                    print(f"VIOLATION property={self.pid} replay={p}")
                print(f"  history {v['history'].get('id')} op {v['at']} [{v['tag']}] {v['why'][:600]}")
            print(f"  {len(self.violations)} failing histories")
            return 1
        for fn in os.listdir(self.out):
            if not fn.startswith("replay"):
                p = os.path.join(self.out, fn)
                if os.path.isfile(p):
                    os.unlink(p)
        print(f"OK property={self.pid} states={self.states} transitions={self.transitions} traces={self.traces} "
              f"records={self.records} wall={time.time()-self.t0:.1f}s")
        return 0


def java_overrides():
    """Compile the TLC accelerators (spec/java) unless they are up to date."""
    src, dst = os.path.join(SPEC, "java"), os.path.join(VERIF, "target", "java")
    names = [f for f in os.listdir(src) if f.endswith(".java")]
    with _JLOCK:
        stale = [f for f in names if not os.path.exists(os.path.join(dst, f[:-5] + ".class"))
                 or os.path.getmtime(os.path.join(dst, f[:-5] + ".class")) < os.path.getmtime(os.path.join(src, f))]
        if stale:
            os.makedirs(dst, exist_ok=True)
            r = subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", dst] + [os.path.join(src, f) for f in names],
                               capture_output=True, text=True)
            if r.returncode:
                raise ToolError("javac failed:\n" + r.stderr[-2000:])
    return dst


def _limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _short(v, n=400):
    s = json.dumps(v)
    return v if len(s) <= n else s[:n] + "..."


def load_known(pid):
    """known_findings.txt: "finding:" lines are listed findings; "fixed:" lines suppress nothing."""
    p = os.path.join(VERIF, "known_findings.txt")
    out = {}
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", ln)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def b(s):
    """Text as UTF-8 bytes, the representation used in histories and specifications."""
    return list(s.encode("utf8"))


def main(checks):
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--replay" in sys.argv:
        pass
    try:
        ctx = Ctx(pid, tier, seed)
        rule = checks[pid](ctx)
        return ctx.finish(rule or "")
    except ToolError as e:
        print("TOOL-ERROR", e)
        return 2
