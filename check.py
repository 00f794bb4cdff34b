#!/usr/bin/env python3
"""Decide one property: check.py <ID>   (environment: VERIF_TIER, VERIF_SEED)

Builds the trace harness against /repo's working tree, runs the real code, and has TLC
check the recorded traces (and the design models) against the TLA+ specification.
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed.
`check.py --setup` only builds.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
WORK = os.path.join(VERIF, ".work")
JARS = ["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"]
SAFETY = {10, 11, 12, 13, 14}          # TLC: a property of the specification is violated
UNEXPLAINED = {75, 76, 77}             # TLC: the specification has no meaning for what was recorded


class ToolError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


# ------------------------------------------------------------------ what to run
# mc:     design models (module, cfg), independent of the code
# gen:    behaviours generated from the specification (module, cfg, extra TLC arguments)
# trace:  trace specifications run on what the harness recorded
# dev:    "same": the debug build must record the same trace, else its trace is checked as well
#         "small": additionally record and check the small-field part with the debug build
# asm:    the code compiled with the crate's feature "asm" must record the same trace
PROPS = {
    "C01": dict(trace=["TracePerm"], dev="same"),
    "C02": dict(trace=["TracePerm"], mc=[("MCPoseidonOpt", None)], dev="same"),
    "C03": dict(trace=["TracePre"], mc=[("MCPoseidonOpt", None)], dev="same"),
    "C04": dict(trace=["TracePerm"], mc=[("MCGmimc", None)], dev="small"),
    "C05": dict(trace=["TracePerm"], dev="small"),
    "C06": dict(trace=["TraceInverse"], mc=[("MCBijective", None)], dev="small"),
    "C07": dict(trace=["TraceGrain", "TracePerm"], dev="same"),
    "C08": dict(trace=["TraceShape", "TracePerm"], mc=[("MCInstances", None)]),
    "C09": dict(trace=["TraceMerkle"], mc=[("MCMerkle", None)], dev="same"),
    "C10": dict(trace=["TraceMerkleHist", "TraceMerkle"], dev="same",
                gen=[("MerkleHist", "MerkleHist3", []), ("MerkleHist", "MerkleHist12", ["-simulate", "num=%d", "-depth", "16"])]),
    "C11": dict(trace=["TraceCompress"], dev="small"),
    "C12": dict(trace=["TraceGuards"], gen=[("Guards", "Guards", [])], dev="same"),
    "C13": dict(trace=["TraceHistory"], dev="always",
                gen=[("History", "History2", []), ("History", "History16", ["-simulate", "num=%d", "-depth", "20"])]),
    "C14": dict(trace=["TraceLazy"], mc=[("Lazy", "LazyDrawn"), ("Lazy", "LazyFixed")]),
    "C15": dict(trace=["TraceAlgebra"], dev="same"),
    "C16": dict(trace=["TraceHex"], dev="same"),
    "C17": dict(trace=["TraceSample"]),
    "C18": dict(trace=["TraceField"], mc=[("MCBigField", None)], dev="same", asm=True),
    "C19": dict(trace=["TraceBind"], mc=[("MCMerkle", None)], dev="same"),
    "C20": dict(trace=["TraceDiffusion"], mc=[("MCDiffusion", None), ("MCDiag", None)]),
}
THOROUGH = {
    "C10": dict(gen=[("MerkleHist", "MerkleHist4", []), ("MerkleHist", "MerkleHist12", ["-simulate", "num=%d", "-depth", "16"])]),
    "C13": dict(gen=[("History", "History3", []), ("History", "History16", ["-simulate", "num=%d", "-depth", "20"])]),
    "C18": dict(mc=[("MCBigField", "MCBigFieldDeep")]),
    "C20": dict(mc=[("MCDiffusion", "MCDiffusionLarge"), ("MCDiag", None)]),
}

# trace modules that read only some kinds of events
KINDS_READ = {"TraceGrain": {"const"}, "TraceShape": {"shape"}, "TraceMerkle": {"tree"}, "TraceMerkleHist": {"hist", "pairs", "mt"}}


# ------------------------------------------------------------------ building
def tree_hash():
    h = hashlib.sha256()
    for base in (REPO, os.path.join(HARNESS, "src")):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith((".rs", ".toml", ".lock")):
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def cargo_env(hooks, profile="release", statics=True):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="stable")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.pop("CARGO_TARGET_DIR", None)
    for k in [k for k in e if k.startswith("CARGO_PROFILE_") or k.startswith("CARGO_BUILD_")]:
        e.pop(k)
    e["RUSTFLAGS"] = " ".join((["--cfg verif_hooks"] if hooks else []) + ([] if statics else ["--cfg verif_nostatics"]))
    if profile == "asm":
        e["RUSTC_WRAPPER"] = os.path.join(HARNESS, "asmcfg.sh")
    return e


def cargo_build(profile):
    """Path of the harness binary built from /repo's working tree with `profile`."""
    target = os.path.join(HARNESS, "target", profile)
    out = []
    # a tree in which the hooks or the published constants got other names is still checked as far as possible
    for hooks, statics in ((True, True), (False, True), (True, False), (False, False)):
        tgt = target + ("" if hooks else "-nohooks") + ("" if statics else "-nostatics")
        stamp, now = os.path.join(tgt, "verif-stamp"), tree_hash()
        have = open(stamp).read() if os.path.exists(stamp) else ""
        base = ["cargo", "--offline"]
        flags = ["--target-dir", tgt, "--manifest-path", os.path.join(HARNESS, "Cargo.toml")]
        rel = ["--release"] if profile == "release" else []
        if have != now and os.path.isdir(tgt):
            # never trust modification times: rebuild both crates when the text changed
            sh(base + ["clean", "-p", "zkhash", "-p", "harness"] + rel + flags, env=cargo_env(hooks, profile, statics), cwd=HARNESS)
        r = sh(base + ["build", "--locked"] + rel + flags, env=cargo_env(hooks, profile, statics), cwd=HARNESS)
        if r.returncode == 0:
            with open(stamp, "w") as f:
                f.write(now)
            return os.path.join(tgt, "release" if profile == "release" else "debug", "harness"), hooks
        out.append(r.stdout[-3000:])
    raise ToolError("the harness does not build against /repo:\n" + "\n----\n".join(out))


def build_java():
    src = os.path.join(SPEC, "java", "verif", "BigFieldOverrides.java")
    with open(src, "rb") as f:
        key = hashlib.sha256(f.read()).hexdigest()[:16]
    dst = os.path.join(WORK, "classes-" + key)
    if not os.path.exists(os.path.join(dst, "verif", "BigFieldOverrides.class")):
        os.makedirs(dst, exist_ok=True)
        r = sh(["javac", "-cp", ":".join(JARS), "-d", dst, src])
        if r.returncode:
            raise ToolError("javac: " + r.stdout)
    return dst


# ------------------------------------------------------------------ TLC
class Tlc:
    def __init__(self, name, rc, out, secs):
        self.name, self.rc, self.out, self.secs = name, rc, out, secs
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m = re.findall(r"The number of states generated: (\d+)", out)
            self.generated = self.distinct = int(m[-1]) if m else 0
        m = re.findall(r"(\d+) distinct states generated at", out)
        self.initial = int(m[-1]) if m else 0


def tlc(classes, run, module, cfg=None, env=None, args=(), workers=8, timeout=3000, mem="10g"):
    meta = os.path.join(run, "meta-" + (cfg or module))
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ, **(env or {}))
    e.setdefault("VERIF_TIER", "quick")
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xss256m", "-Xmx" + mem, "-XX:+UseParallelGC",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:tlc2.overrides.CommunityModules:verif.BigFieldOverrides",
           "-Djava.io.tmpdir=" + meta, "-cp", ":".join([classes] + JARS), "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
           "-workers", str(workers), "-config", (cfg or module) + ".cfg", *args, module + ".tla"]
    t0 = time.time()
    try:
        r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    shutil.rmtree(meta, ignore_errors=True)
    t = Tlc(cfg or module, r.returncode, r.stdout, time.time() - t0)
    if t.rc not in ({0} | SAFETY | UNEXPLAINED) and "ostcondition" not in t.out and "POSTCONDITION" not in t.out:
        raise ToolError("TLC failed (%d) on %s:\n%s" % (t.rc, module, t.out[-3000:]))
    return t


def generate(classes, run, gens, tier, seed):
    """Behaviours of the specification as JSON lines; the file and the number of lines."""
    d = os.path.join(run, "gen")
    os.makedirs(d, exist_ok=True)
    stats = []
    for i, (module, cfg, args) in enumerate(gens):
        out = os.path.join(d, str(i))
        os.makedirs(out)
        n = 400 if tier == "thorough" else 60
        args = [a % n if "%d" in a else a for a in args]
        if "-simulate" in args:
            args += ["-seed", str(seed)]
        t = tlc(classes, run, module, cfg, {"GEN_OUT": out}, args, workers=1, mem="4g")
        if t.rc:
            raise ToolError("generator %s: %s" % (module, t.out[-2000:]))
        stats.append(t)
    lines, sets = [], None
    for i in range(len(gens)):
        for n in ("hist.ndjson", "calls.ndjson"):
            p = os.path.join(d, str(i), n)
            if os.path.exists(p):
                for l in open(p):
                    v = json.loads(l)
                    lines.append(json.dumps(json.loads(v) if isinstance(v, str) else v))
        p = os.path.join(d, str(i), "sets.ndjson")
        if os.path.exists(p):
            sets = [json.loads(l) for l in open(p)]
    lines = list(dict.fromkeys(lines))
    p = os.path.join(d, "all.ndjson")
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    return p, sets, len(lines), stats


def same(a, b):
    for n in ("ctx.ndjson", "ev.ndjson"):
        r = subprocess.run(["cmp", "-s", os.path.join(a, n), os.path.join(b, n)])
        if r.returncode:
            return False
    return True


# ------------------------------------------------------------------ one property
class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.conf = dict(PROPS[pid], **(THOROUGH.get(pid, {}) if tier == "thorough" else {}))
        self.run = os.path.join(WORK, "run-%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.run, ignore_errors=True)
        os.makedirs(self.run)
        self.violations, self.tlcs, self.meta, self.notes = [], [], [], []
        self.t0 = time.time()

    def violate(self, what, **detail):
        self.violations.append(dict(what=what, **detail))

    def judge(self, t, traced=None):
        self.tlcs.append((t, traced))
        if t.rc == 0:
            return
        named = re.findall(r"Invariant (\w+) is violated|Property (\w+) is violated|(?:Temporal properties were violated)", t.out)
        kind = ("the recorded behaviour has no meaning in the specification" if t.rc in UNEXPLAINED
                else "specification violated")
        d = dict(module=t.name, violated=sorted({x for p in named for x in p if x}), tlc_exit=t.rc, tlc_output=t.out[-12000:])
        if traced:
            e = re.findall(r"^/\\ e = (\d+)|^e = (\d+)", t.out, re.M)
            if e:
                i = int([x for x in e[-1] if x][0])
                try:
                    ev = open(os.path.join(traced, "ev.ndjson")).read().splitlines()
                    if t.name in KINDS_READ:
                        ev = [x for x in ev if json.loads(x)["k"] in KINDS_READ[t.name]]
                    d["event_number"], d["event"] = i, ev[i - 1][:20000]
                except (IndexError, OSError):
                    pass
        self.violate(kind, **d)

    def harness(self, exe, profile, extra):
        out = os.path.join(self.run, "trace-" + profile)
        cmd = [exe, self.pid.lower(), out, str(self.seed), self.tier] + extra
        with subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=self.run, start_new_session=True) as r:
            try:
                r.stdout_text = r.communicate(timeout=1800 if self.tier == "thorough" else 300)[0]
            except subprocess.TimeoutExpired:
                os.killpg(r.pid, signal.SIGKILL)
                text = r.communicate()[0]
                self.violate("a call into the crate did not return", command=cmd, output=text[-2000:])
                return None
        if r.returncode == 0 and "DONE" in r.stdout_text:
            m = json.load(open(os.path.join(out, "meta.json")))
            m["profile"] = profile
            self.meta.append(m)
            return out
        if r.returncode in (101, 42, 43, 134, 139) or r.returncode < 0:
            self.violate("the crate failed outside any call that may fail (exit %d)" % r.returncode,
                         command=cmd, output=r.stdout_text[-4000:])
            return None
        raise ToolError("harness exit %d: %s" % (r.returncode, r.stdout_text[-2000:]))

    def go(self):
        c = self.conf
        with open(os.path.join(WORK, "lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            classes = build_java()
            with cf.ThreadPoolExecutor(8) as ex:
                rel = ex.submit(cargo_build, "release")
                dev = ex.submit(cargo_build, "dev") if c.get("dev") else None
                asm = ex.submit(cargo_build, "asm") if c.get("asm") else None
                gen = ex.submit(generate, classes, self.run, c["gen"], self.tier, self.seed) if c.get("gen") else None
                mcs = [ex.submit(tlc, classes, self.run, m, cfg, None, (), 4) for m, cfg in c.get("mc", [])]
                exe, hooks = rel.result()
                devexe = dev.result()[0] if dev else None
                asmexe = None
                try:
                    asmexe = asm.result()[0] if asm else None
                except ToolError:
                    self.notes.append("the crate does not compile with its feature asm: not checked")
                extra, genstats = [], []
                if gen:
                    path, sets, n, genstats = gen.result()
                    extra = [path] + ([json.dumps(sets)] if sets else [])
                    self.notes.append("%d behaviours generated from the specification and replayed" % n)
                    self.generated = n
                for m in mcs:
                    self.judge(m.result())
        for t in genstats:
            self.tlcs.append((t, None))
        self.notes.append("hooks %s" % ("on" if hooks else "off (they do not compile with this tree)"))
        with cf.ThreadPoolExecutor(3) as ex:
            a = ex.submit(self.harness, exe, "release", extra)
            b = ex.submit(self.harness, devexe, "dev", extra + (["small"] if c["dev"] == "small" else [])) if devexe else None
            z = ex.submit(self.harness, asmexe, "asm", extra) if asmexe else None
            a, b, z = a.result(), b.result() if b else None, z.result() if z else None
        traces = [x for x in [a] if x]
        if b:
            if c["dev"] == "same" and a and same(a, b):
                self.notes.append("the debug build recorded the identical trace")
            else:
                traces.append(b)
        if z:
            if a and same(a, z):
                self.notes.append("the build with feature asm recorded the identical trace")
            else:
                traces.append(z)
        for d in traces:
            for m in c["trace"]:
                self.judge(tlc(classes, self.run, m, None, {"TRACE": d}, workers=8), d)
        return self.finish(traces)

    def finish(self, traces):
        ev = sum(m["events"] for m in self.meta)
        done = [(t, d) for t, d in self.tlcs]
        samples = [s for m in self.meta[:1] for s in m["samples"]][:3]
        cov = dict(
            states=sum(t.distinct for t, _ in done),
            transitions=sum(max(t.generated - t.initial, 0) for t, _ in done),
            traces_validated_against_impl=ev,
            samples=samples or [v["what"] for v in self.violations],
            calls_into_the_crate=sum(m["calls"] for m in self.meta),
            parameter_contexts=sum(m["contexts"] for m in self.meta),
            tlc_runs=[dict(module=t.name, on="recorded trace" if d else "design model or generator", generated=t.generated,
                           distinct=t.distinct, exit=t.rc, seconds=round(t.secs, 1)) for t, d in done],
            builds=[m["profile"] for m in self.meta],
            notes=self.notes)
        doc = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                   assumptions=ASSUMPTIONS, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(doc, f, indent=1)
        if not self.violations:
            print("OK property=%s states=%d events=%d calls=%d wall=%.1fs" %
                  (self.pid, cov["states"], ev, cov["calls_into_the_crate"], doc["wall_s"]))
            shutil.rmtree(self.run, ignore_errors=True)
            return 0
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        path = os.path.join(VERIF, "replay", "%s.json" % self.pid)
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed,
                           rerun="VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (self.seed, self.tier, self.pid),
                           violations=self.violations), f, indent=1)
        for v in self.violations[:6]:
            print("violated: %s %s %s" % (v["what"], v.get("module", ""), ",".join(v.get("violated", []))))
            if "event" in v:
                print("  event %d: %s" % (v["event_number"], v["event"][:400]))
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        shutil.rmtree(self.run, ignore_errors=True)
        return 1


ASSUMPTIONS = [
    "the modulus, degree, constants and matrices the specification needs are either its own (spec/gen, derived from the Grain generator and the papers) or the ones handed to the constructor by the harness",
    "drawn constants of GMiMC and Neptune are read through the verif_hooks views, or through Debug when the hooks do not compile",
    "TLC, its Java override for big-number arithmetic (cross-checked by MCBigField) and the field arithmetic behind ark-ff's conversions of inputs and outputs",
]


def main():
    os.makedirs(WORK, exist_ok=True)
    if sys.argv[1:] == ["--setup"]:
        try:
            build_java()
            with cf.ThreadPoolExecutor(2) as ex:
                for r in [ex.submit(cargo_build, p) for p in ("release", "dev")]:
                    print(r.result())
        except ToolError as e:
            print(e)
            return 2
        return 0
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    c = Check(pid, tier, int(os.environ.get("VERIF_SEED", "1")))
    try:
        return c.go()
    except ToolError as e:
        print("ERROR %s" % e)
        shutil.rmtree(c.run, ignore_errors=True)
        return 2


if __name__ == "__main__":
    sys.exit(main())
