"""C15/C16: the real `cargo flowistry` against spec/Focus.tla and spec/Cli.tla."""
import base64
import concurrent.futures as cf
import gzip
import json
import os
import random
import shutil
import subprocess

from . import conf, core, gen

FLAGS = {"default": [], "ignoremut": ["--mutability-mode", "IgnoreMut"], "conservative": ["--pointer-mode", "Conservative"],
         "recurse": ["--context-mode", "Recurse"],
         "ignoremut+conservative": ["--mutability-mode", "IgnoreMut", "--pointer-mode", "Conservative"],
         "explicit": ["--mutability-mode", "DistinguishMut", "--pointer-mode", "Precise", "--context-mode", "SigOnly"]}


GEN = [("types", 30, 0), ("refs", 24, 8), ("cfg", 20, 10), ("shapes", 24, 8), ("lists", 12, 8)]
FLAGS_GEN = [("types", 10, 0), ("refs", 8, 8), ("shapes", 6, 8)]


def make_crate(root, files):
    """files: {relative path: text}; a crate with a target directory of its own."""
    for rel, text in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
    if "Cargo.toml" not in files:
        with open(os.path.join(root, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "prog"\nversion = "0.1.0"\nedition = "2024"\n[workspace]\n')
    return root


def ask(bindir, crate, args, timeout=120):
    """One request: {rc, out: raw stdout, msg: decoded messages or None}."""
    env = core.cargo_env(os.path.join(crate, "target"))
    env.update(core.run_env(), PATH=f"{bindir}:/root/.cargo/bin:" + env["PATH"], SYSROOT=core.sysroot())
    env.pop("CARGO_TARGET_DIR")
    env.pop("RUST_LOG", None)
    try:
        p = subprocess.run([os.path.join(bindir, "cargo-flowistry"), "flowistry"] + [str(a) for a in args], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=crate)
    except subprocess.TimeoutExpired:
        return {"rc": -999, "messages": 0, "msg": None, "text": "", "err": "timeout"}
    r = {"rc": p.returncode, "messages": 0, "msg": None, "err": p.stderr.decode(errors="replace")[-800:]}
    out = p.stdout.strip()
    r["text"] = p.stdout.decode(errors="replace").strip()[:200]
    if out:
        try:
            r["msg"] = json.loads(gzip.decompress(base64.b64decode(out, validate=True)))
            r["messages"] = 1
        except Exception as e:  # not exactly one well-formed message
            r["messages"] = 99
            r["err"] = f"undecodable output: {e}: {out[:200]!r}"
    return r


def rng(r):
    return [[r["start"]["line"], r["start"]["column"]], [r["end"]["line"], r["end"]["column"]]]


def focus_answer(msg):
    return {"place_info": [{"range": rng(e["range"]), "ranges": [rng(x) for x in e["ranges"]],
                            "slice": [rng(x) for x in e["slice"]], "direct": [rng(x) for x in e["direct_influence"]]}
                           for e in msg["place_info"]],
            "containers": [rng(x) for x in msg["containers"]]}


def line_col(text, off):
    b = text.encode()[:off].decode(errors="replace")
    line = b.count("\n")
    return line, len(b) - (b.rfind("\n") + 1)


def collect_focus(rep, work, files, modes, bindir, keep=None):
    """Exports the functions and asks the tool to focus on each; returns the functions with answers."""
    export_modes = sorted({"default" if m == "explicit" else m for m in modes})
    docs, fails = core.export(files, export_modes, os.path.join(work, "export"), ["--parts", "spans", "--max-places", "1"])
    fns, panics, skipped, _ = core.functions(docs)
    conf.failures(rep, panics, fails)
    jobs = []
    for d in docs:
        text = open(d["file"]).read()
        crate = os.path.join(work, "crates", os.path.basename(d["file"])[:-3])
        todo = []
        for f in d["fns"]:
            if "spans" not in f or keep and not keep(f):
                continue
            f["text"] = d["text"]
            f["focus"] = {}
            for m in modes:
                todo.append((f, m))
        for k in range(0, len(todo), 8):
            jobs.append((f"{crate}-{k}", text, todo[k:k + 8]))

    def job(j):
        crate, text, todo = j
        make_crate(crate, {"src/lib.rs": text})
        out = []
        for f, m in todo:
            l, c = line_col(text, f["spans"]["item"][0])
            out.append((f, m, ask(bindir, crate, FLAGS[m] + ["focus", "src/lib.rs", l, c])))
        shutil.rmtree(crate, ignore_errors=True)
        return out

    jobs.sort(key=lambda j: -len(j[2]))
    asked = 0
    with cf.ThreadPoolExecutor(core.NCPU) as ex:
        for res in ex.map(job, jobs):
            for f, m, r in res:
                asked += 1
                if r["messages"] != 1 or not r["msg"] or "Ok" not in r["msg"]:
                    rep.add(f"answer:{core.rel(f['file'])}:{f['name']}:{m}", {"fn": f["name"], "mode": m, "answer": r})
                    continue
                f["focus"][m] = focus_answer(r["msg"]["Ok"])
                if m == "explicit":
                    f["modes"]["explicit"] = f["modes"]["default"]
    core.log(f"asked the tool {asked} times")
    return [f for f in fns if f.get("focus")], asked


def check_focus(rep, work, fns, modes):
    for f in fns:
        f["modes"] = {m: {"muts": f["modes"][m]["muts"]} for m in f["modes"] if m in f["focus"]}
    parts = core.shards(fns, conf.weight, core.NCPU)
    lines, gen, dist = core.tlc_shards("Focus", parts, {"modes": modes, "kinds": [], "prop": rep.prop, "part": "focus"},
                                       os.path.join(work, "focus"))
    checked = entries = 0
    for tag, x in lines:
        if tag == "MISMATCH":
            rep.add(f"{core.rel(x['file'])}:{x['fn']}:{x['mode']}:{x['kind']}", x)
        elif tag == "SUMMARY":
            checked += x["checked"]
            entries += x["answers"]
    want = sum(len(f["modes"]) for f in fns)
    if checked != want:
        raise core.ToolError(f"Focus checked {checked} of {want} answers")
    rep.count(states=dist, transitions=gen, traces=checked, entries_compared=entries)


def relayout(file, rnd):
    """Another layout of the same program: tabs, wide characters, comments, statements over several lines."""
    out = []
    for l in open(file).read().split("\n"):
        code = l.lstrip(" ")
        if code and not code.startswith("//") and rnd.random() < 0.6:
            if rnd.random() < 0.4:
                l = "\t" * ((len(l) - len(code)) // 2) + code
            if rnd.random() < 0.3 and " = " in l:
                l = l.replace(" = ", rnd.choice([" =\n      ", " = /* \u00e9\u6f22 */ ", "\n\t= "]), 1)
            if rnd.random() < 0.2:
                l = rnd.choice(["/* \u00fc */ ", "/*\U0001f980*/"]) + l
            if rnd.random() < 0.2:
                l += "  // \u2192 \U0001f980"
        out.append(l)
    open(file, "w").write("\n".join(out))


def run_focus(rep, work, tier):
    core.build_harness()
    bindir = core.build_repo_bins(["flowistry_ide"])
    modes = ["default"]
    fns, asked = collect_focus(rep, work, conf.corpus(), modes, bindir)
    check_focus(rep, work, fns, modes)
    for k in range(1 if tier == "quick" else 8):
        if rep.violations:
            break
        w = os.path.join(work, f"gen{k}")
        files, total, kept = gen.programs(os.path.join(w, "src"), GEN, core.SEED + 300 + 50 * k)
        rep.count(generated_programs=kept, generated_rejected_by_rustc=total - kept)
        rnd = random.Random(core.SEED + k)
        for f in files:
            relayout(f, rnd)
        more, asked = collect_focus(rep, w, files, modes, bindir, keep=lambda f: gen.GENERATED.match(f["name"]))
        check_focus(rep, w, more, modes)
    for f in fns[:: max(1, len(fns) // 4)]:
        rep.sample({"file": core.rel(f["file"]), "fn": f["name"], "entries": len(f["focus"]["default"]["place_info"])})


def run_flags(rep, work):
    """C11: every combination of the tool's options gives the answers of that mode, and only of that one."""
    bindir = core.build_repo_bins(["flowistry_ide"])
    modes = ["default", "explicit", "ignoremut", "conservative", "ignoremut+conservative"]
    files, total, kept = gen.programs(os.path.join(work, "src"), FLAGS_GEN, core.SEED + 700)
    fns, asked = collect_focus(rep, work, files, modes, bindir, keep=lambda f: gen.GENERATED.match(f["name"]))
    check_focus(rep, work, fns, modes)


# ---------------------------------------------------------------------------- C16

def positions(text, bodies, rnd, extra):
    """Positions of the text: around every body's edges, and some anywhere."""
    n = len(text.encode())
    raw = text.encode()
    offs = {0, n}
    for b in bodies:
        offs |= {b["lo"], b["hi"], b["lo"] - 1, b["hi"] + 1, b["lo"] + 1, b["hi"] - 1, (b["lo"] + b["hi"]) // 2}
    offs |= {rnd.randrange(n + 1) for _ in range(extra)}
    ok = [o for o in sorted(offs) if 0 <= o <= n and (o == n or raw[o] & 0xC0 != 0x80)]
    # a position after the last line break does not exist as a line of its own
    ok = [o for o in ok if not (o == n and text.endswith("\n"))]
    return [line_col(text, o) for o in ok]


def run_cli(rep, work, tier):
    import random
    import sys
    sys.path.insert(0, os.path.join(core.VERIF, "corpus_cli"))
    import crates as cc
    rnd = random.Random(core.SEED)
    core.build_harness()
    bindir = core.build_repo_bins(["flowistry_ide"])
    worlds, jobs = {}, []
    for name, (files, reqs) in cc.CRATES.items():
        root = make_crate(os.path.join(work, "crates", name), files)
        for f, target in reqs:
            if (name, target) not in worlds:
                is_bin = target.endswith("main.rs")
                out = os.path.join(work, "export", name + "-" + target.replace("/", "_"))
                extra = ["--parts", "spans", "--max-places", "1"]
                env = {}
                if is_bin:  # the library it uses
                    lib = os.path.join(work, "libprog.rlib")
                    subprocess.run([f"{core.sysroot()}/bin/rustc", "--edition=2024", "--crate-type", "rlib", "--crate-name",
                                    "prog", "-o", lib, os.path.join(root, "src/lib.rs")], env=core.run_env(), check=True,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    env = {"VP_RUSTC_ARGS": f"--extern prog={lib}", "VP_CRATE_NAME": "root"}
                docs, fails = core.export([os.path.join(root, target)], ["default"], out, extra, env=env)
                conf.failures(rep, [], fails)
                d = docs[0] if docs else {"compile_error": 1}
                if "compile_error" in d:
                    w = {"builds": False, "files": [], "bodies": []}
                else:
                    by = {f["name"]: f for f in d["fns"] if "spans" in f}
                    bodies = []
                    for b in d["bodies"]:
                        f_ = by.get(b["name"])
                        if f_ is None:
                            raise core.ToolError("no export of " + b["name"])
                        bodies.append(dict(b, body=f_["spans"]["body"], ret=f_["spans"]["ret"], subset=f_["subset"]))
                    w = {"builds": True, "files": d["files"], "bodies": bodies}
                worlds[(name, target)] = w
            w = worlds[(name, target)]
            text = files[f]
            path = os.path.realpath(os.path.join(root, f))
            mine = [b for b in w["bodies"] if b["file"] == path]
            extra = {"quick": 6, "thorough": 120}[tier]
            ps = positions(text, mine, rnd, extra) if w["builds"] else positions(text, [], rnd, 2)
            if f == "src/orphan.rs":
                ps = ps[:2]
            rs = [{"cmd": "spans", "file": path, "rel": f, "from": [0, 0], "to": [0, 0]}]
            rs += [{"cmd": "focus", "file": path, "rel": f, "from": list(p), "to": list(p)} for p in ps]
            for p in rnd.sample(ps, min(len(ps), 4)):
                q = rnd.choice(ps)
                a, b = sorted([p, q])
                rs.append({"cmd": "playground", "file": path, "rel": f, "from": list(a), "to": list(b)})
            for k in range(0, len(rs), 12):
                jobs.append((name, target, rs[k:k + 12]))

    compiler = subprocess.run([f"{core.sysroot()}/bin/rustc", "--version"], env=core.run_env(), stdout=subprocess.PIPE, text=True)
    general = {"compiler": compiler.stdout.strip().removeprefix("rustc "),
               "version": json.load(open(os.path.join(core.REPO, "ide/package.json")))["version"]}
    for name, target in list(worlds):
        worlds[name, target].update(general, all=all(w["builds"] for (n, _), w in worlds.items() if n == name))
    for name, (_, reqs) in cc.CRATES.items():
        target = reqs[0][1]
        wrong = [["focus", "src/lib.rs"], ["nonsense"], ["focus", "src/lib.rs", "0", "x"], ["--context-mode", "Nothing", "spans", "src/lib.rs"], []]
        jobs.append((name, target, [{"cmd": c, "file": "", "rel": "", "from": [0, 0], "to": [0, 0]} for c in ("preload", "rustc-version", "-V")]
                     + [{"cmd": "malformed", "file": "", "rel": "", "from": [0, 0], "to": [0, 0], "args": w} for w in wrong]))

    def job(j):
        name, target, rs = j
        # requests of one crate are asked in a copy of it, so that copies can be asked at the same time
        root = make_crate(os.path.join(work, "run", f"{name}-{abs(hash(json.dumps(rs)))}", "src0"), cc.CRATES[name][0])
        out = []
        for r in rs:
            args = {"spans": ["spans", r["rel"]], "focus": ["focus", r["rel"], *r["from"]],
                    "playground": ["playground", r["rel"], *r["from"], *r["to"]]}.get(r["cmd"], r.get("args", [r["cmd"]]))
            out.append((name, target, r, ask(bindir, root, args)))
        shutil.rmtree(root, ignore_errors=True)
        return out

    cases = []
    with cf.ThreadPoolExecutor(core.NCPU) as ex:
        for res in ex.map(job, jobs):
            for name, target, r, a in res:
                ans = {"failed": a["rc"] != 0, "messages": a["messages"], "kind": "none", "error": "", "spans": [],
                       "body": [], "ret": [], "outlives": [], "stderr": a["err"][-300:], "text": a["text"]}
                m = a["msg"]
                if m is not None:
                    if "Ok" in m:
                        ans["kind"] = "Ok"
                        v = m["Ok"]
                        if "spans" in v:
                            ans["spans"] = [rng(x) for x in v["spans"]]
                        if "containers" in v and len(v["containers"]) >= 2:
                            ans["body"], ans["ret"] = rng(v["containers"][0]), rng(v["containers"][1])
                        if "outlives" in v:
                            ans["outlives"] = v["outlives"]
                    elif "Err" in m:
                        ans["kind"] = "Err"
                        ans["error"] = m["Err"].get("type", "?")
                cases.append({"crate": name, "world": worlds[(name, target)], "req": r, "ans": ans})
    core.log(f"asked the tool {len(cases)} times")
    parts = [cases[k::core.NCPU] for k in range(core.NCPU)]
    lines, gen, dist = core.tlc_shards("Cli", [p for p in parts if p], {}, os.path.join(work, "cli"))
    checked, kinds = 0, set()
    for tag, x in lines:
        if tag == "MISMATCH":
            rq = x["req"]
            rep.add(f"{x['crate']}:{rq['cmd']}:{rq['rel']}:{rq['from']}:{rq['to']}{rq.get('args', '')}".replace(" ", ""), x)
        elif tag == "SUMMARY":
            checked += x["checked"]
            kinds |= set(x["kinds"])
    if checked != len(cases):
        raise core.ToolError("Cli did not check every answer")
    if not rep.violations and kinds != {"nothing", "error", "spans", "focus", "playground", "status", "line"}:
        raise core.ToolError(f"only answers of kind {kinds} were explored")
    rep.count(states=dist, transitions=gen, traces=checked, requests=checked, answer_kinds=len(kinds))
    for c in rnd.sample(cases, 4):
        rep.sample({"crate": c["crate"], "req": c["req"], "answer": c["ans"]["kind"] + c["ans"]["error"]})
