"""Shared machinery of the checks: building the harness from /repo's working
tree, running TLC, replaying, recording, validating, evidence, verdicts."""
import glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Enough(Exception):
    """A violation is in hand and the check has run long: report it."""


class ToolError(Exception):
    """The machinery failed: neither a pass nor a violation."""


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.work = os.path.join(ROOT, ".work", f"{pid}-{tier}-{os.getpid()}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.stages = []
        self.mismatches = []
        self.exhaustive = False
        self.n = 0

    # ---- building -----------------------------------------------------
    def build_all(self, hook=False):
        for b in ["pvec"] if hook else sorted(f[:-3] for f in os.listdir(os.path.join(HARNESS, "src", "bin"))):
            self.build(b, hook)

    def build(self, binname, hook=False):
        env = dict(os.environ)
        env.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
                   CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="")
        for k in ("CARGO_PROFILE_DEV_DEBUG", "RUSTFLAGS", "CARGO_BUILD_TARGET_DIR"):
            env.pop(k, None)
        tgt = os.path.join(ROOT, "target-hook" if hook else "target")
        env["CARGO_TARGET_DIR"] = tgt
        flags = "-Awarnings"
        if hook:
            flags += " --cfg rustica_verif"
        env["RUSTFLAGS"] = flags
        t = time.time()
        self.freshen(tgt)
        r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--bin", binname],
                           cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError(f"building {binname} failed:\n{r.stdout[-4000:]}")
        self.stages.append({"stage": "build", "bin": binname, "hook": hook, "s": round(time.time() - t, 1)})
        return os.path.join(tgt, "debug", binname)

    def freshen(self, tgt):
        """Cargo looks at modification times; a copy of /repo may carry any.  Compare contents."""
        h = hashlib.sha256()
        files = [os.path.join("/repo", "Cargo.toml")]
        for d, _, fs in os.walk("/repo/src"):
            files += [os.path.join(d, f) for f in fs]
        for f in sorted(files):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        stamp = os.path.join(tgt, "repo-contents")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != h.hexdigest():
            for d in glob.glob(os.path.join(tgt, "debug", ".fingerprint", "rustica-*")):
                shutil.rmtree(d, ignore_errors=True)
            os.makedirs(tgt, exist_ok=True)
            with open(stamp, "w") as fh:
                fh.write(h.hexdigest())

    def path(self, name):
        self.n += 1
        return os.path.join(self.work, f"{self.n:02d}-{name}")

    # ---- TLC ----------------------------------------------------------
    def tlc(self, module, cfg=None, consts=None, env=None, workers=8, simulate=None, depth=None,
            timeout=800, heap="6g", base_cfg=None, deque=False, count=True):
        """Runs TLC; returns (ok, output).  cfg: file name in spec/, or text."""
        meta = self.path("tlc")
        os.makedirs(meta)
        if cfg is None:
            cfg = module + ".cfg"
        text = cfg if "\n" in cfg else open(os.path.join(SPEC, cfg)).read()
        if consts:
            for k, v in consts.items():
                text, cnt = re.subn(rf"(?m)^(\s*{k}\s*=\s*).*$", lambda m: m.group(1) + str(v), text)
                if cnt != 1:
                    raise ToolError(f"constant {k} not found once in {cfg}")
        cfgp = os.path.join(meta, module + ".cfg")
        open(cfgp, "w").write(text)
        jvm = ["-XX:+UseParallelGC", f"-Djava.io.tmpdir={meta}", f"-Xmx{heap}", "-Xss64m", "-Dtlc2.TLC.stopAfter=100000"]
        if deque:
            jvm.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd = ["java", *jvm, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-config", cfgp,
               "-metadir", os.path.join(meta, "m"), "-noGenerateSpecTE", "-lncheck", "final"]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-seed", str(self.seed)]
            if depth:
                cmd += ["-depth", str(depth)]
        cmd.append(module + ".tla")
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        logp = os.path.join(meta, "log")
        with open(logp, "w") as lf:
            try:
                r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=lf, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError(f"TLC on {module} took over {timeout} s (log {logp})")
        out = open(logp).read()
        m = re.findall(r"([\d,]+) states generated(?:.*?), ([\d,]+) distinct states found", out)
        st = {"stage": "tlc", "module": module, "s": round(time.time() - t, 1), "rc": r.returncode}
        if consts:
            st["constants"] = {k: str(v) for k, v in consts.items()}
        if m:
            gen, dis = (int(x.replace(",", "")) for x in m[-1])
            st["states"], st["transitions"] = dis, gen
            if count:
                self.states += dis
                self.transitions += gen
        ms = re.findall(r"The number of states generated: ([\d,]+)", out)
        if simulate and ms and count:
            g = int(ms[-1].replace(",", ""))
            st["transitions"] = st["states"] = g
            self.states += g
            self.transitions += g
        self.stages.append(st)
        shutil.rmtree(os.path.join(meta, "m"), ignore_errors=True)
        return r.returncode, out, st

    def model(self, module, **kw):
        """A TLC run that is about the specification alone; it must succeed."""
        self.stop_early()
        rc, out, st = self.tlc(module, **kw)
        if rc != 0:
            i = max(out.find("Error:"), 0)
            raise ToolError(f"TLC on {module} ended {rc}:\n{out[i:i+900]}")
        return st

    # ---- harness ------------------------------------------------------
    def fresh(self):
        """The mismatches that are no known finding."""
        listed = [k for k in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
                  if k.get("status", "known") == "known"]
        return [m for m in self.mismatches if not any(matches(k, m) for k in listed)]

    def stop_early(self):
        if time.time() - self.t0 > 150 and self.fresh():
            raise Enough

    def harness(self, exe, args, timeout=600, ok_rc=(0,)):
        t = time.time()
        self.stop_early()
        if self.tier == "quick":
            timeout = min(timeout, 400)
        try:
            r = subprocess.run([exe, *map(str, args)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, timeout=timeout, cwd=self.work)
        except subprocess.TimeoutExpired:
            return None, "timeout", time.time() - t
        return r, r.stderr[-2000:], time.time() - t

    def _abnormal(self, name, args, r, err):
        """The code under test killed or hung the harness."""
        what = "did not finish" if r is None else f"ended with {r.returncode}"
        self.mismatches.append({"key": "abnormal", "what": f"{name} {what}", "expected": "a result",
                                "got": err, "case": {"args": [str(a) for a in args]}})

    def replay(self, exe, mode_args, cases, timeout=600, require=1):
        """spec -> code: every case TLC wrote, performed on the real code."""
        rep = self.path("report.ndjson")
        args = ["replay", *mode_args, "--cases", cases, "--report", rep]
        r, err, dt = self.harness(exe, args, timeout)
        st = {"stage": "replay", "args": " ".join(map(str, mode_args)), "s": round(dt, 1)}
        self.stages.append(st)
        if abnormal(r):
            self._abnormal("replay " + " ".join(map(str, mode_args)), args, r, err)
            return None
        if r.returncode != 0:
            raise ToolError(f"replay failed ({r.returncode}): {err}")
        summ = json.loads(r.stdout.strip().splitlines()[-1])
        st.update(summ)
        if summ["cases"] < require:
            raise ToolError(f"only {summ['cases']} cases replayed, expected {require}")
        self.traces += summ["cases"]
        for line in open(rep):
            self.mismatches.append(json.loads(line))
        if len(self.samples) < 6:
            with open(cases) as f:
                for i, line in enumerate(f):
                    if i in (1, 57):
                        try:
                            v = json.loads(line)
                            v = json.loads(v) if isinstance(v, str) else v
                            self.samples.append({"replayed": clip(v)})
                        except Exception:
                            pass
                    if i > 60:
                        break
        return summ

    def record(self, exe, args, timeout=600):
        """code -> spec: the real code's observed histories."""
        tr = self.path("trace.ndjson")
        a = ["record", *args, "--trace", tr, "--seed", self.seed]
        r, err, dt = self.harness(exe, a, timeout)
        st = {"stage": "record", "args": " ".join(map(str, args)), "s": round(dt, 1)}
        self.stages.append(st)
        if abnormal(r):
            self._abnormal("record " + " ".join(map(str, args)), a, r, err)
            return None
        if r.returncode != 0:
            raise ToolError(f"record failed ({r.returncode}): {err}")
        summ = json.loads(r.stdout.strip().splitlines()[-1])
        st.update(summ)
        if summ["traces"] == 0:
            raise ToolError("nothing recorded")
        return tr

    def validate(self, module, trace, cfg=None, consts=None, workers=8, timeout=800, heap="8g", max_bad=5, inv="Conforms"):
        """TLC decides whether each recorded history is one of the specification's.
        Histories are lines of the trace file; TLC's counterexample names line t, event l."""
        if trace is None:
            return
        lines = open(trace).read().splitlines()
        total = len(lines)
        cur = trace
        bad = 0
        idx = list(range(len(lines)))
        while True:
            rc, out, st = self.tlc(module, cfg=cfg, consts=consts, env={"VK_TRACE": cur}, workers=workers,
                                   timeout=timeout, heap=heap)
            if rc == 0:
                break
            if f"Invariant {inv} is violated" in out:
                ts = re.findall(r"(?m)^/\\ t = (\d+)", out)
                ls = re.findall(r"(?m)^/\\ l = (\d+)", out)
                if not ts:
                    raise ToolError(f"cannot read TLC's counterexample:\n{out[-3000:]}")
                t, l = int(ts[-1]), int(ls[-1])
                case = json.loads(lines[t - 1])
                ev = case["evs"][l - 2]
                self.mismatches.append({"key": ev.get("op", "event") if isinstance(ev, dict) else "event",
                                        "what": f"event {l - 1} of the recorded history is not allowed by {module}",
                                        "expected": tlc_expect(out), "got": clip(ev),
                                        "case": {"evs": case["evs"][:l - 1], "meta": case.get("meta")}})
                bad += 1
                if bad >= max_bad or len(lines) == 1:
                    break
                del lines[t - 1]
                cur = self.path("trace-rest.ndjson")
                open(cur, "w").write("\n".join(lines) + "\n")
                continue
            i = max(out.find("Error:"), 0)
            raise ToolError(f"TLC on {module} ended {rc}:\n{out[i:i+900]}")
        self.traces += total - bad
        if len(self.samples) < 6 and lines:
            self.samples.append({"validated": clip(json.loads(lines[len(lines) // 2]))})

    # ---- verdict ------------------------------------------------------
    def finish(self, level, assumptions=None):
        # stages are shared between properties: a finding listed for one is not another's violation
        listed = [k for k in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
                  if k.get("status", "known") == "known"]
        known = [k for k in listed if k["property"] == self.pid]
        hit, new = {}, []
        for m in self.mismatches:
            k = next((k for k in listed if matches(k, m)), None)
            if k:
                hit[k["what"]] = hit.get(k["what"], 0) + 1
            else:
                new.append(m)
        for k in known:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces,
                         "samples": self.samples[:6], "exhaustive": self.exhaustive, "stages": self.stages},
            "assumptions": assumptions or [],
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(new),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        if new:
            d = os.path.join(ROOT, "replays")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, f"{self.pid}.json")
            with open(p, "w") as f:
                json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "violations": new[:20]}, f, indent=1)
            for m in new[:5]:
                print(f"  {m['what']}: expected {short(m['expected'])} got {short(m['got'])} case {short(m['case'])}")
            print(f"VIOLATION property={self.pid} replay={p}")
            return 1
        print(f"OK property={self.pid} states={self.states} transitions={self.transitions} "
              f"traces={self.traces} wall={ev['wall_s']}s")
        return 0

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def abnormal(r):
    """Killed, hung, aborted, or a panic where the code under test has none."""
    return r is None or r.returncode < 0 or r.returncode == 134 or (r.returncode == 101 and "bad case" not in r.stderr)


def matches(k, m):
    """A known finding names the exact case: every listed field must be equal."""
    w = k.get("match", {})
    for f, v in w.items():
        cur = m
        for part in f.split("."):
            if isinstance(cur, dict) and part in cur:
                cur = cur[part]
            else:
                return False
        if cur != v:
            return False
    return bool(w)


def short(v, n=400):
    s = json.dumps(v)
    return s if len(s) <= n else s[:n] + "..."


def clip(v, n=1500):
    s = json.dumps(v)
    return v if len(s) <= n else s[:n] + "..."


def tlc_expect(out):
    m = re.findall(r"(?m)^/\\ want = (.*)$", out)
    return m[-1] if m else "see the specification"


def main(checks):
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    if pid not in checks:
        print(f"unknown property {pid}")
        return 2
    c = Ctx(pid, tier)
    ok = False
    try:
        rc = checks[pid](c)
        ok = True
        return rc
    except Enough:
        return c.finish("model_checking")
    except ToolError as e:
        if c.fresh():
            return c.finish("model_checking")
        print(f"TOOL-ERROR property={pid}: {e}")
        return 2
    finally:
        if not os.environ.get("VK_KEEP"):
            c.cleanup()
