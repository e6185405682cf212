"""Shared machinery: builds the exporter from /repo's working tree, runs it, runs TLC, reports.

Nothing in here decides a property: programs are run through the real code by the exporter, the
TLA+ modules in /verif/spec say what the answers must be, and TLC evaluates them.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "work")
TARGET = os.path.join(VERIF, "target")
NCPU = int(os.environ.get("VP_CPUS", "8"))
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TOOLCHAIN = "nightly-2025-08-20"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()


class ToolError(Exception):
    """The machinery could not answer (exit 2): never a statement about the property."""


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


def sysroot():
    c = sorted(glob.glob(f"/root/.rustup/toolchains/{TOOLCHAIN}*"))
    if not c:
        raise ToolError("toolchain not found")
    return c[0]


def cargo_env(target):
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_PROFILE_DEV_DEBUG="0", CARGO_INCREMENTAL="0",
             CARGO_TARGET_DIR=target, RUSTC_WRAPPER="",
             PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
    for k in ("BLESS", "ONLY", "EXIT", "RUSTFLAGS"):
        e.pop(k, None)
    return e


def run_env():
    r = sysroot()
    e = dict(os.environ)
    e.update(LD_LIBRARY_PATH=f"{r}/lib", VP_SYSROOT=r, RUSTUP_TOOLCHAIN=TOOLCHAIN, HOME="/root")
    return e


def cargo_build(cwd, args, target, what):
    p = subprocess.run(["cargo", "build", "--offline"] + args, cwd=cwd, env=cargo_env(target),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0:
        print(p.stdout[-4000:])
        raise ToolError(f"{what} does not build")


def build_harness():
    cargo_build(os.path.join(VERIF, "harness"), [], TARGET, "the exporter")
    log("exporter built")
    return os.path.join(TARGET, "debug", "vp_exporter")


def build_repo_bins(pkgs):
    """The command line tools of /repo, built into /verif/target/repo."""
    t = os.path.join(TARGET, "repo")
    args = []
    for p in pkgs:
        args += ["-p", p]
    if "flowistry_ide" in pkgs:  # compressing an answer unoptimised takes far longer than computing it
        for d in ("miniz_oxide", "flate2", "adler2", "base64"):
            args += ["--config", f'profile.dev.package.{d}.opt-level=3']
    cargo_build(REPO, args, t, "the tools of /repo")
    log("tools of /repo built")
    return os.path.join(t, "debug")


def fresh_dir(*parts):
    d = os.path.join(WORK, *parts)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    return d


# ---------------------------------------------------------------------------- export

def _export_once(exe, files, out, modes, extra, timeout, env):
    # an analysis that grows without end must not take the machine's memory with it
    limit = ["prlimit", "--data=3500000000"] if shutil.which("prlimit") else []
    cmd = limit + [exe, "--out", out, "--modes", ",".join(modes)] + extra + files
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""


def export(files, modes, out, extra=(), chunk=6, file_timeout=60, env=None):
    """Returns (docs, failures): one document per file; failures are (file, reason)."""
    exe = os.path.join(TARGET, "debug", "vp_exporter")
    extra = list(extra)
    env = dict(run_env(), **(env or {}))
    os.makedirs(out, exist_ok=True)

    def path(f):
        return os.path.join(out, os.path.splitext(os.path.basename(f))[0] + ".json")

    known = []

    def job(fs):
        if len(known) >= 4:
            return []    # enough to report; the rest of the corpus would cost the check its time
        rc, o = _export_once(exe, fs, out, modes, extra, file_timeout + 10 * len(fs), env)
        if rc == 0:
            return []
        bad = []
        for f in fs:
            if os.path.exists(path(f)) or len(known) >= 4:
                continue
            rc, o = _export_once(exe, [f], out, modes, extra, file_timeout, env)
            if rc != 0 or not os.path.exists(path(f)):
                bad.append((f, "no answer within %d s" % file_timeout if rc == "timeout"
                            else f"the analysis ended the process (status {rc}): {o[-600:]}"))
                known.append(f)
        return bad

    chunks = [files[i:i + chunk] for i in range(0, len(files), chunk)]
    failures = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for b in ex.map(job, chunks):
            failures += b
    docs = []
    for f in files:
        if os.path.exists(path(f)):
            docs.append(json.load(open(path(f))))
    log(f"exported {len(docs)} of {len(files)} files")
    return docs, failures


def functions(docs, tolerate_compile_errors=False):
    """Functions worth checking, plus the ones on which the analysis failed."""
    fns, panics, skipped, cerr = [], [], 0, 0
    for d in docs:
        if "compile_error" in d:
            if not tolerate_compile_errors:
                raise ToolError(f"{d['file']} does not compile: {d['compile_error']}")
            cerr += 1
            continue
        for f in d["fns"]:
            f["file"] = d["file"]
            if "panic" in f:
                panics.append((d["file"], f["name"], "-", f["panic"]))
            elif "skipped" in f:
                skipped += 1
            else:
                for m, v in list(f["modes"].items()):
                    if "panic" in v:
                        panics.append((d["file"], f["name"], m, v["panic"]))
                        f["modes"][m] = {"panic": 1}
                fns.append(f)
    return fns, panics, skipped, cerr


# ---------------------------------------------------------------------------- TLC

def tlc(module, env, cfg=None, heap="3g", timeout=600, args=(), workers=1, metadir=None):
    meta = metadir or os.path.join(WORK, "tlc", f"{module}-{os.getpid()}-{hash(tuple(sorted(env.items()))) & 0xffffffff:x}")
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.update(env)
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", TLA_CP, "tlc2.TLC", "-noGenerateSpecTE",
           "-workers", str(workers), "-metadir", meta, "-config", cfg or f"{module}.cfg", *args, f"{module}.tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC on {module} exceeded {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


MARK = re.compile(r'^"([A-Z]+) (.*)"$')


def marked(out):
    """Lines printed by a spec with PrintT("TAG " \\o ToJson(x))."""
    res = []
    for l in out.splitlines():
        m = MARK.match(l)
        if m:
            try:
                res.append((m.group(1), json.loads(m.group(2).replace('\\"', '"').replace("\\\\", "\\"))))
            except json.JSONDecodeError:
                raise ToolError("unreadable TLC line: " + l[:300])
    return res


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def stats(out):
    m = STATS.findall(out)
    return (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)


def shards(items, weight, n):
    bins = [[0, []] for _ in range(n)]
    for it in sorted(items, key=weight, reverse=True):
        b = min(bins, key=lambda b: b[0])
        b[0] += weight(it)
        b[1].append(it)
    return [b[1] for b in bins if b[1]]


def tlc_shards(module, parts, opts, work, heap="3g", timeout=700, extra_env=None, cfg=None):
    """Runs TLC once per part (a JSON document in VP_IN), in parallel; returns marked lines, states, transitions."""
    os.makedirs(work, exist_ok=True)
    op = os.path.join(work, "opts.json")
    json.dump(opts, open(op, "w"))

    def job(i):
        p = os.path.join(work, f"in{i}.json")
        json.dump(parts[i], open(p, "w"))
        env = {"VP_IN": p, "VP_OPTS": op}
        env.update(extra_env or {})
        rc, out = tlc(module, env, heap=heap, timeout=timeout, metadir=os.path.join(work, f"md{i}"), cfg=cfg)
        open(os.path.join(work, f"out{i}.txt"), "w").write(out)
        lines = marked(out)
        if not any(t == "SUMMARY" for t, _ in lines):
            raise ToolError(f"TLC on {module} gave no summary (status {rc}):\n" + out[-3000:])
        return lines, stats(out)

    lines, gen, dist = [], 0, 0
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for l, (g, d) in ex.map(job, range(len(parts))):
            lines += l
            gen += g
            dist += d
    log(f"TLC {module}: {len(parts)} runs, {dist} states")
    return lines, gen, dist


# ---------------------------------------------------------------------------- reporting

class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.violations = []          # (key, record)
        self.samples = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
        self.assumptions = []
        self.level = "model_checking"

    def add(self, key, record):
        self.violations.append((key, record))

    def count(self, states=0, transitions=0, traces=0, **kw):
        self.cov["states"] += states
        self.cov["transitions"] += transitions
        self.cov["traces_validated_against_impl"] += traces
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v if isinstance(v, int) else v

    def sample(self, x, cap=6):
        if len(self.samples) < cap:
            self.samples.append(x)

    def finish(self):
        known = load_known(self.prop)
        new, seen = [], set()
        for key, rec in self.violations:
            hit = next((k for k in known if key.startswith(k["key"])), None)
            if hit:
                seen.add(hit["key"])
            else:
                new.append((key, rec))
        for k in known:
            if k["key"] in seen:
                print(f"KNOWN-FINDING: property={self.prop} {k['key']} {k['what']}")
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(self.cov)
        cov["samples"] = self.samples
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 1), "violations": len(new)}
        json.dump(ev, open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w"), indent=1)
        if not new:
            log(f"{self.prop}: held on everything explored:",
                json.dumps({k: v for k, v in cov.items() if k != "samples"}))
            return 0
        rd = os.path.join(WORK, "replay")
        os.makedirs(rd, exist_ok=True)
        done = set()
        for n, (key, rec) in enumerate(new):
            if key in done:
                continue
            done.add(key)
            if len(done) > 12:
                break
            path = os.path.join(rd, f"{self.prop}-{hashlib.sha1(key.encode()).hexdigest()[:10]}.json")
            json.dump({"property": self.prop, "key": key, "detail": rec}, open(path, "w"), indent=1)
            print(f"VIOLATION property={self.prop} replay={path}")
            print("   ", key, json.dumps(rec)[:600])
        print(f"{len(new)} violations")
        return 1


def load_known(prop):
    """Entries of known-findings.jsonl that are not fixed."""
    p = os.path.join(VERIF, "known-findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d["property"] == prop:
                    out.append(d)
    return out


def rel(path):
    return os.path.relpath(path, VERIF) if path.startswith(VERIF) else path
