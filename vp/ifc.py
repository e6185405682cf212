"""C14: the real ifc-driver binary against spec/Ifc.tla."""
import glob
import json
import os
import random
import re
import shutil
import subprocess

from . import conf, core, gen

# generated programs, with some of their types declared secure or insecure
GEN = [("types", 40, 0), ("shapes", 30, 8), ("refs", 26, 8), ("calls", 8, 4), ("lists", 12, 7)]
ADT = re.compile(r"pub (?:struct|enum) (\w+)(<[^>{]*>)? ?[{;]")

SRC = re.compile(r"ERROR: insecure flow in (.*?) from data at (.*):$")
DST = re.compile(r"to data at (.*):$")


def corpus():
    return sorted(glob.glob(os.path.join(core.VERIF, "corpus_ifc", "*.rs")))


def declare(text, rng):
    """Declares some of the types of a program secure or insecure, right behind their definition."""
    out, at = [], 0
    for m in ADT.finditer(text):
        end = m.end()
        if text[end - 1] == "{":
            depth = 1
            while depth:
                depth += {"{": 1, "}": -1}.get(text[end], 0)
                end += 1
        g = m.group(2) or ""
        traits = rng.choice([["Secure"], ["Secure"], ["Insecure"], ["Insecure"], [], ["Secure", "Insecure"]])
        out.append(text[at:end] + "".join(f" impl{g} flowistry_ifc_traits::{t} for {m.group(1)}{g} {{}}" for t in traits))
        at = end
    return "".join(out) + text[at:]


def build_traits(work):
    out = os.path.join(work, "libflowistry_ifc_traits.rlib")
    r = core.sysroot()
    p = subprocess.run([f"{r}/bin/rustc", "--edition=2024", "--crate-type", "rlib", "--crate-name", "flowistry_ifc_traits",
                        "-o", out, f"{core.REPO}/crates/flowistry_ifc_traits/src/lib.rs"], env=core.run_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise core.ToolError("flowistry_ifc_traits does not build:\n" + p.stdout[-2000:])
    return out


def run_driver(exe, file, rlib, timeout=120):
    """The checker as cargo runs it on one crate."""
    env = dict(core.run_env(), CARGO_PRIMARY_PACKAGE="1", PLUGIN_ARGS="null", SYSROOT=core.sysroot())
    cmd = [exe, "rustc", file, "--crate-type", "lib", "--crate-name", "prog", "--edition=2024", "-Awarnings",
           "--extern", f"flowistry_ifc_traits={rlib}"]
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=timeout, cwd=os.path.dirname(file))
    except subprocess.TimeoutExpired:
        return {"rc": "timeout", "reports": [], "clean": False, "err": ""}
    return dict(parse(p.stderr, os.path.basename(file)), rc=p.returncode, err=p.stderr[-1500:])


ANSI = re.compile(r"\x1b\[[0-9;]*m")


def parse(text, name):
    """The reports in the checker's output: pairs of (position, source text)."""
    reports, src, cur = [], None, None
    lines = [ANSI.sub("", l) for l in text.splitlines()]

    def body(i):
        out = []
        for l in lines[i + 1:]:
            if SRC.search(l) or DST.search(l) or not l.strip() and out:
                break
            out.append(l.strip())
        return " ".join(x for x in out if x)

    for i, l in enumerate(lines):
        m = SRC.search(l)
        if m:
            src = [m.group(2) if m.group(1) == name else m.group(1) + ":" + m.group(2), body(i)]
        m = DST.search(l)
        if m and src is not None:
            reports.append([src, [m.group(1), body(i)]])
            src = None
    return {"reports": reports, "clean": "No security issues found!" in text}


def run_cargo(bindir, crate, timeout=200):
    """`cargo ifc` on a crate, as a user runs it."""
    env = core.cargo_env(os.path.join(crate, "target"))
    env.update(core.run_env(), PATH=f"{bindir}:/root/.cargo/bin:" + env["PATH"], SYSROOT=core.sysroot())
    env.pop("CARGO_TARGET_DIR")
    try:
        p = subprocess.run([os.path.join(bindir, "cargo-ifc")], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", timeout=timeout, cwd=crate)
    except subprocess.TimeoutExpired:
        return {"rc": "timeout", "reports": [], "clean": False, "err": ""}
    return dict(parse(p.stderr, "lib.rs"), rc=p.returncode, err=p.stderr[-1500:])


def make_crate(dst, src):
    os.makedirs(os.path.join(dst, "src"))
    shutil.copy(src, os.path.join(dst, "src", "lib.rs"))
    with open(os.path.join(dst, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "prog"\nversion = "0.1.0"\nedition = "2024"\n[workspace]\n[dependencies]\n'
                f'flowistry_ifc_traits = {{ path = "{core.REPO}/crates/flowistry_ifc_traits" }}\n')
    return dst


def run(rep, work, tier, files=None):
    core.build_harness()
    bindir = core.build_repo_bins(["flowistry_ifc"])
    run_files(rep, work, files or corpus(), bindir)
    if files:
        return
    for k in range(1 if tier == "quick" else 6):
        w = core.fresh_dir(os.path.relpath(work, core.WORK), f"gen{k}")
        made, total, kept = gen.programs(os.path.join(w, "src"), GEN, core.SEED + 900 + 50 * k, per_file=6)
        rng = random.Random(core.SEED + 17 * k)
        for f in made:
            text = declare(open(f).read(), rng)
            open(f, "w").write(text)
        run_files(rep, w, made, bindir)
        rep.count(generated_programs=kept, generated_rejected_by_rustc=total - kept)


def run_files(rep, work, files, bindir):
    exe = os.path.join(bindir, "ifc-driver")
    rlib = build_traits(work)
    docs, fails = core.export(files, ["default"], os.path.join(work, "export"), ["--parts", "ifc", "--max-places", "1", "--max-locs", "400"],
                              env={"VP_RUSTC_ARGS": f"--extern flowistry_ifc_traits={rlib}"}, chunk=2)
    fns, panics, skipped, _ = core.functions(docs)
    conf.failures(rep, panics, fails)
    if skipped:
        raise core.ToolError(f"{skipped} functions too large")
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(core.NCPU) as ex:
        real = dict(zip(files, ex.map(lambda f: run_driver(exe, f, rlib), files)))
    # the same programs through cargo
    crates = {}
    for f in files:
        name = os.path.splitext(os.path.basename(f))[0]
        if name in ("ifc_a", "ifc_b"):
            c = make_crate(os.path.join(work, "crates", name), f)
            crates[f] = run_cargo(bindir, c)
            shutil.rmtree(os.path.join(c, "target"), ignore_errors=True)
    runs = [(d, real[d["file"]], "driver") for d in docs] + [(d, crates[d["file"]], "cargo") for d in docs if d["file"] in crates]
    parts = []
    for d, r, how in runs:
        d = json.loads(json.dumps(d))
        if r["rc"] != 0:
            rep.add(f"{how}:{core.rel(d['file'])}", {"file": d["file"], "status": r["rc"], "stderr": r["err"]})
            continue
        part = [f for f in d["fns"] if "modes" in f]
        for f in part:
            f.update(impls=d["impls"], last=False, reports=[], clean=False)
        part[-1].update(last=True, reports=r["reports"], clean=r["clean"])
        parts.append(part)
        rep.sample({"file": core.rel(d["file"]), "run_by": how, "functions": len(part), "reports": len(r["reports"])})
    lines, gen, dist = core.tlc_shards("Ifc", parts, {"modes": ["default"], "kinds": [], "prop": "C14", "part": "ifc"},
                                       os.path.join(work, "ifc"))
    checked = flows = 0
    for tag, x in lines:
        if tag == "MISMATCH":
            rep.add(f"reports:{core.rel(x['file'])}:{x['missing']}:{x['extra']}".replace(" ", ""), x)
        elif tag == "SUMMARY":
            checked += x["checked"]
            flows += x["answers"]
    if checked != sum(len(p) for p in parts):
        raise core.ToolError("Ifc did not check every function")
    rep.count(states=dist, transitions=gen, traces=len(parts), programs=len(files), functions=checked, flows_expected=flows)
