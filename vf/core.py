"""Shared machinery: TLC driver, trace validation, verdicts, evidence."""
from __future__ import annotations
import json, os, pathlib, random, re, shutil, subprocess, sys, tempfile, time, traceback, hashlib

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
KNOWN = VERIF / "known-findings.txt"


class MachineryError(Exception):
    """The machinery itself (specification, harness) is broken; never a verdict."""


class TLC:
    def __init__(self, ctx):
        self.ctx = ctx

    def run(self, module, cfg, env=None, workers=4, extra=(), timeout=700, heap="6g"):
        tmp = pathlib.Path(tempfile.mkdtemp(prefix="vf_tlc_"))
        try:
            for f in SPEC.glob("*.tla"):
                shutil.copy(f, tmp / f.name)
            (tmp / "run.cfg").write_text(cfg)
            e = dict(os.environ)
            e.update(env or {})
            e.pop("JAVA_TOOL_OPTIONS", None)
            cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss32m", f"-Djava.io.tmpdir={tmp}", "-cp", JARS,
                   "tlc2.TLC", "-workers", str(workers), "-metadir", str(tmp / "md"), "-noGenerateSpecTE", "-config", "run.cfg",
                   *extra, module + ".tla"]
            try:
                p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
            except subprocess.TimeoutExpired as ex:
                raise MachineryError(f"TLC timeout on {module}") from ex
            return p.returncode, p.stdout
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def _tail(out):
    i = out.find("Error:")
    return out[i:i + 3000] if i >= 0 else out[-3000:]


def _counts(out):
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"The number of states generated: (\d+)", out)
    if m:
        return int(m[-1]), int(m[-1])
    return 0, 0


def _printed(out, tag):
    res = []
    for line in out.splitlines():
        if line.startswith('"' + tag + " "):
            s = json.loads(line)  # TLC prints strings with JSON-compatible escapes
            res.append(s[len(tag) + 1:])
    return res


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f"{prop}:{seed}")
        self.t0 = time.time()
        self.out = VERIF / "out" / prop
        shutil.rmtree(self.out, ignore_errors=True)
        self.out.mkdir(parents=True, exist_ok=True)
        self.tlc = TLC(self)
        self.states = self.transitions = 0
        self.traces_ok = 0
        self.replayed = 0
        self.observations = 0
        self.samples = []
        self.models = []
        self.distinct = set()
        self.assumptions = []
        self.violations = []
        self.known_hits = {}
        self.known = self._load_known()
        self.thorough = tier == "thorough"
        self.notes = {}

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------------ known findings
    def _load_known(self):
        res = {}
        if KNOWN.exists():
            for line in KNOWN.read_text().splitlines():
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", line)
                if m and m.group(1) == self.prop:
                    res[m.group(2)] = m.group(3)
        return res

    def report(self, key, detail, replay):
        """A discrepancy between specification and real code."""
        if key in self.known:
            self.known_hits[key] = self.known[key]
            return
        seen = sum(k == key for k, _ in self.violations)
        if not self.violations or (seen < 2 and len({p for _, p in self.violations}) < 10):
            h = hashlib.sha1((key + repr(detail)).encode()).hexdigest()[:10]
            path = self.out / f"violation-{h}.json"
            path.write_text(json.dumps(dict(property=self.prop, key=key, detail=detail, replay=replay), indent=1, default=repr))
            self.violations.append((key, path))
            print(f"  discrepancy [{key}]: {str(detail)[:700]}", flush=True)
        else:
            self.violations.append((key, self.violations[-1][1]))

    # ------------------------------------------------------------------ TLC uses
    def model_check(self, module, cfg, **kw):
        """Exhaustively check the specification itself (independent of the code)."""
        t = time.time()
        rc, out = self.tlc.run(module, cfg, **kw)
        if rc != 0 or "Error:" in out:
            raise MachineryError(f"specification {module} does not satisfy its own invariants / does not run:\n{_tail(out)}")
        g, d = _counts(out)
        self.states += d
        self.transitions += g
        self.models.append(dict(module=module, states=d, transitions=g, wall_s=round(time.time() - t, 1)))
        return out

    def generate(self, module, cfg, tag="VFGEN", **kw):
        """Behaviours generated by TLC, one JSON document per printed line."""
        out = self.model_check(module, cfg, **kw)
        return [json.loads(s) for s in _printed(out, tag)]

    def validate(self, module, traces, cfg="", env=None, key=None, workers=4, batch=4000, require_done=True):
        """Check recorded traces against the specification.

        traces: list of dict(id, cfg, events=[{..., out}]).  `key(trace, idx, expected)` names a
        discrepancy for the known-findings file."""
        bad = []
        for b in range(0, len(traces), batch):
            part = traces[b:b + batch]
            f = self.out / f"traces-{module}-{b}.json"
            f.write_text(json.dumps([dict(cfg=t["cfg"], events=t["events"]) for t in part]))
            e = dict(env or {})
            e["VF_TRACES"] = str(f)
            t0 = time.time()
            rc, out = self.tlc.run(module, "INIT TraceInit\nNEXT TraceNext\nCHECK_DEADLOCK FALSE\n" + cfg, env=e, workers=workers)
            done = {int(s) for s in _printed(out, "VFDONE")}
            fails = [json.loads(s) for s in _printed(out, "VFBAD")]
            failed = {x[0] for x in fails}
            if done | failed != set(range(1, len(part) + 1)) or "Error:" in out:
                odd = self._unexplained(module, part, cfg, env, out, b)
                if odd is not None:
                    # an observation so unlike any of the specification that its operators are not even defined on it
                    self.report("unexplained:" + odd[1][:80], dict(trace=odd[0].get("id"), error=odd[1]), odd[0])
                    bad.append((odd[0], 0, None))
                    continue
                raise MachineryError(f"trace validation with {module} gave no verdict for some traces:\n{_tail(out)}")
            g, d = _counts(out)
            self.states += d
            self.transitions += g
            self.traces_ok += len(done)
            self.models.append(dict(module=module, states=d, transitions=g, traces=len(part), wall_s=round(time.time() - t0, 1)))
            for tid, idx, exp in fails:
                t = part[tid - 1]
                k = key(t, idx - 1, exp) if key else f"{t['events'][idx-1].get('op')}"
                detail = dict(trace=t.get("id"), event=idx, got=t["events"][idx - 1], expected=exp)
                self.report(k, detail, t)
                bad.append((t, idx - 1, exp))
            if len(part) and not self.samples:
                self.samples.append(_short(part[0]))
            for t in part:
                self.distinct.add(hashlib.sha1(json.dumps([t["cfg"], t["events"]], sort_keys=True).encode()).digest()[:8])
            if not fails:
                f.unlink()
        return bad

    def _unexplained(self, module, part, cfg, env, out, b):
        """The recorded trace on which TLC stops with an evaluation error while the specification evaluates on other traces."""
        def stops(out):
            return ("Error:" in out and ("Attempted to" in out or "EvalException" in out or "Error evaluating" in out or "evaluating" in out)
                    and not any(w in out for w in ("OutOfMemory", "StackOverflow", "Semantic errors", "Parse Error", "Could not", "Deadlock")))

        def run(ts):
            f = self.out / f"traces-{module}-{b}-part.json"
            f.write_text(json.dumps([dict(cfg=t["cfg"], events=t["events"]) for t in ts]))
            _, out = self.tlc.run(module, "INIT TraceInit\nNEXT TraceNext\nCHECK_DEADLOCK FALSE\n" + cfg, env={**(env or {}), "VF_TRACES": str(f)}, workers=2)
            f.unlink()
            return out

        if not stops(out):
            return None
        while len(part) > 1:
            half = len(part) // 2
            o = run(part[:half])
            if stops(o):
                part, out = part[:half], o
            else:
                o = run(part[half:])
                if not stops(o):
                    return None
                part, out = part[half:], o
        return part[0], " ".join(_tail(out).split())

    def evaluate(self, module, inputs, workers=6, batch=20000):
        """What the specification demands for each input (TLC as oracle)."""
        res = []
        for b in range(0, len(inputs), batch):
            part = inputs[b:b + batch]
            f = self.out / f"inputs-{module}-{b}.json"
            f.write_text(json.dumps(part))
            t0 = time.time()
            # the initial states are computed by one thread; split the work over processes instead
            k = max(1, min(workers, len(part) // 50))
            chunks = [part[i::k] for i in range(k)]
            files = []
            for i, c in enumerate(chunks):
                g = self.out / f"inputs-{module}-{b}-{i}.json"
                g.write_text(json.dumps(c))
                files.append(g)
            import concurrent.futures as cf
            with cf.ThreadPoolExecutor(k) as ex:
                outs = list(ex.map(lambda g: self.tlc.run(module, "INIT OracleInit\nNEXT OracleNext\nCHECK_DEADLOCK FALSE\n",
                                                          env={"VF_INPUTS": str(g)}, workers=1, heap="2g"), files))
            exp = [None] * len(part)
            for i, (rc, out) in enumerate(outs):
                got = dict(json.loads(s) for s in _printed(out, "VFEXP"))
                if len(got) != len(chunks[i]) or "Error:" in out:
                    raise MachineryError(f"oracle {module} failed:\n{_tail(out)}")
                g_, d_ = _counts(out)
                self.states += d_
                self.transitions += g_
                for j in range(len(chunks[i])):
                    exp[i + j * k] = got[j + 1]
                files[i].unlink()
            f.unlink()
            self.models.append(dict(module=module, evaluated=len(part), wall_s=round(time.time() - t0, 1)))
            res += exp
        if inputs and len(self.samples) < 3:
            self.samples.append(_short(dict(input=inputs[-1], demanded=res[-1])))
        return res

    def compare(self, got, expected, key, replay, _obs_only=False):
        """Compare an observation of the real code with the one the specification generated."""
        self.replayed += 0 if _obs_only else 1
        self.observations += 1
        if got != expected:
            self.report(key, dict(got=got, expected=expected, replay=replay), replay)
            return False
        return True

    def crash(self, what, exc, replay):
        self.report(f"crash:{what}:{type(exc).__name__}", dict(error="".join(traceback.format_exception(exc))[-3000:]), replay)

    # ------------------------------------------------------------------ end
    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces_ok + self.replayed,
                   traces_checked_by_tlc=self.traces_ok, spec_behaviours_replayed=self.replayed, observations_compared=self.observations,
                   distinct_traces=len(self.distinct), runs=self.models, samples=self.samples[:3] or ["none"], **self.notes)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=repr))
        for k, d in sorted(self.known_hits.items()):
            print(f"KNOWN-FINDING: property={self.prop} {d}")
        if self.traces_ok + self.replayed == 0 and not self.violations:
            raise MachineryError("nothing was compared with the implementation")
        if self.violations:
            seen = set()
            for k, path in self.violations:
                if path not in seen:
                    seen.add(path)
                    print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"OK property={self.prop} states={self.states} traces={self.traces_ok} replayed={self.replayed} wall={time.time()-self.t0:.1f}s")
        return 0


def _short(t):
    s = json.dumps(t)
    return t if len(s) < 3000 else s[:3000] + "..."


def main(argv):
    import importlib, logging
    logging.disable(logging.CRITICAL)
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module("harness." + prop.lower())
        mod.run(ctx)
        return ctx.finish()
    except MachineryError as e:
        print("MACHINERY-ERROR:", e)
        if ctx.violations:
            return ctx.finish()
        return 2
    except Exception as e:
        traceback.print_exc()
        frames = traceback.extract_tb(e.__traceback__)
        if any("/repo/src/" in f.filename for f in frames):  # the library failed where the harness relies on it
            ctx.crash("harness", e, [f"{f.filename}:{f.lineno}" for f in frames][-6:])
        if ctx.violations:
            return ctx.finish()
        return 2
