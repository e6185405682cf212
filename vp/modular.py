"""C03: the same callers with the bodies of their callees replaced, against spec/Modular.tla."""
import concurrent.futures as cf
import json
import os
import random
import re
import subprocess

from . import conf, core, gen

MODES = ["default", "ignoremut", "conservative"]
GEN = [("calls", 10, 5), ("refs", 40, 9), ("types", 40, 0), ("shapes", 12, 8)]


def replaceable(f, text):
    """Byte range of the body block and start of the item, if the body of f can be replaced."""
    sp = f.get("spans") or {}
    if not sp or "{closure" in f["name"] or "{const" in f["name"]:
        return None
    lo, hi = sp["body"]
    ilo = sp["item"][0]
    if ilo < 0 or lo < 0 or text[lo:lo + 1] != b"{" or text[hi - 1:hi] != b"}":
        return None
    head = text[ilo:lo].decode("utf8", "replace")
    if re.search(r"\basync\b|\bconst\s+fn\b|->\s*.*\bimpl\b", head, re.S):
        return None
    return ilo, lo, hi


def foreign(head):
    """The declaration of a free, non-generic function without its body, or None."""
    m = re.match(r"\s*(pub(?:\([^)]*\))?\s+)?fn\s+(\w+)\s*(<('\w+(\s*:\s*'\w+)?\s*,?\s*)*>)?\s*\(", head)
    if not m or re.search(r"\bself\b|\bimpl\b|\bwhere\b|\bunsafe\b", head) or "#[" in head:
        return None
    h = re.sub(r"\bmut\s+(\w+\s*:)", r"\1", head[m.start():]).strip()
    return re.sub(r"\bfn\b", "safe fn", h, count=1)


def unnamed(head):
    """The head with every simply named parameter replaced by `_`."""
    m = re.search(r"\bfn\s+\w+", head)
    if not m:
        return head
    i, angle = m.end(), 0
    while i < len(head) and (angle or head[i] != "("):
        angle += {"<": 1, ">": -(head[i - 1] != "-")}.get(head[i], 0)
        i += 1
    out, depth, start = head[:i], 0, False
    while i < len(head):
        c = head[i]
        if start and depth == 1:
            m = re.compile(r"\s*(mut\s+)?(?!self\b)\w+\s*:(?!:)").match(head, i)
            if m:
                out += " _:"
                i = m.end()
                start = False
                continue
        depth += {"(": 1, "[": 1, "{": 1, ")": -1, "]": -1, "}": -1}.get(c, 0)
        start = c in "(,"
        out += c
        i += 1
        if depth == 0:
            break
    return out + head[i:]


def rewrite(text, fns, chosen, how):
    """chosen: positions in fns of the functions to replace."""
    cuts = []
    for i in chosen:
        ilo, lo, hi = fns[i]
        if any(a <= ilo and hi <= b for j in chosen if j != i for a, _, b in [fns[j]] if (a, b) != (ilo, hi)):
            continue                     # inside another one that goes
        pad = b"\n" * text[lo:hi].count(b"\n")
        if how == "foreign":
            d = foreign(text[ilo:lo].decode("utf8", "replace"))
            nested = any(i != j and fns[j][0] <= ilo and hi <= fns[j][2] for j in range(len(fns)))
            if d is None or nested:
                continue
            cuts.append((ilo, hi, b'unsafe extern "Rust" { ' + d.encode() + b"; " + pad + b"}"))
        else:
            head = text[ilo:lo]
            if how == "panic":
                head = unnamed(head.decode("utf8", "replace")).encode()
            else:
                head = b"#[cold] #[inline(never)] #[must_use] #[deprecated] " + head
            cuts.append((ilo, hi, head + b"{ " + (b"loop {}" if how == "loop" else b"panic!()") + b" " + pad + b"}"))
    out, last = b"", 0
    for a, b, new in sorted(cuts):
        out += text[last:a] + new
        last = b
    return out + text[last:], [c[:2] for c in cuts]


def compiles(path):
    p = subprocess.run([f"{core.sysroot()}/bin/rustc", "--edition=2024", "--crate-type", "lib", "--emit=metadata", "-o",
                        path + ".rmeta", "--error-format=json", "--allow", "warnings", path], env=core.run_env(),
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=120)
    if os.path.exists(path + ".rmeta"):
        os.remove(path + ".rmeta")
    spots = set()
    for l in p.stderr.splitlines():
        try:
            d = json.loads(l)
        except json.JSONDecodeError:
            continue
        if d.get("level") == "error":
            spots |= {x["line_start"] for x in d.get("spans", []) if x.get("is_primary")}
    return p.returncode == 0, spots


def variants(doc, work, rng):
    """Writes rewritten copies of a file; returns [(path, how, names replaced)]."""
    text = open(doc["file"], "rb").read()
    ranges, names = [], []
    for f in doc["fns"]:
        r = replaceable(f, text)
        if r:
            ranges.append(r)
            names.append(f["name"])
    if not ranges:
        return []
    every = list(range(len(ranges)))
    half = [i for i in every if rng.random() < .5]
    rest = [i for i in every if i not in half]
    out = []
    stem = os.path.splitext(os.path.basename(doc["file"]))[0]
    for n, (how, chosen) in enumerate([("loop", half), ("panic", rest), ("foreign", half), ("foreign", rest)]):
        path = os.path.join(work, f"{stem}__{n}.rs")
        for _ in range(6):
            new, cuts = rewrite(text, ranges, chosen, how)
            if not cuts:
                break
            open(path, "wb").write(new)
            ok, spots = compiles(path)
            if ok:
                out.append((path, how, [names[i] for i in chosen]))
                break
            # line numbers are those of the original: keep the functions at fault as they are
            line = lambda o: text[:o].count(b"\n") + 1
            bad = [i for i in chosen if any(line(ranges[i][0]) <= s <= line(ranges[i][2]) for s in spots)]
            if not bad:
                break
            chosen = [i for i in chosen if i not in bad]
    return out


def fingerprint(f):
    return json.dumps([f["blocks"], f["locals"], f["queries"], f["targets"], f["nloc"]], sort_keys=True)


def own(f):
    """What the function is, apart from which bodies its callees have."""
    return re.sub(r'"callee": \{[^}]*\}|\["fn"[^\]]*\]', "", fingerprint(f))


def run_files(rep, work, files, seed, keep=None, chunk=6):
    os.makedirs(os.path.join(work, "src"), exist_ok=True)
    docs, fails = core.export(files, MODES, os.path.join(work, "export"), extra=["--parts", "spans"], chunk=chunk)
    conf.failures(rep, [], fails)
    rng = random.Random(seed)
    jobs = [(d, random.Random(rng.random())) for d in docs if "compile_error" not in d]
    with cf.ThreadPoolExecutor(core.NCPU) as ex:
        vs = list(ex.map(lambda a: variants(a[0], os.path.join(work, "src"), a[1]), jobs))
    paths = [p for v in vs for p, _, _ in v]
    vdocs, fails = core.export(paths, MODES, os.path.join(work, "variants"), chunk=chunk)
    conf.failures(rep, [], fails)
    vdoc = {d["file"]: d for d in vdocs}
    fns, panics, _, _ = core.functions([d for d, _ in jobs])
    conf.failures(rep, panics, [])
    at = {}
    for f in fns:
        if keep is None or keep(f):
            at[(f["file"], f["name"], f["line"])] = f
            f["variants"] = []
    pairs = different = 0
    for (d, _), v in zip(jobs, vs):
        for path, how, names in v:
            doc = vdoc.get(path)
            if doc is None or "compile_error" in doc:
                continue
            gone = set(names)
            for g in doc["fns"]:
                f = at.get((d["file"], g["name"], g.get("line")))
                if f is None or g["name"] in gone or "modes" not in g:
                    continue
                if own(f) != own(g):
                    different += 1
                    continue
                for m, r in g["modes"].items():
                    if "panic" in r and "panic" not in f["modes"][m]:
                        rep.add(f"panic:{core.rel(d['file'])}:{g['name']}:{m}", {"with": how, "panic": r["panic"]})
                ok = {m: {k: r[k] for k in ("sets", "deps", "bwd", "fwd", "both")} for m, r in g["modes"].items() if "panic" not in r}
                f["variants"].append({"with": how, "modes": ok})
                pairs += 1
    some = [f for f in at.values() if f["variants"]]
    want = sum(1 for f in some for m in MODES if "panic" not in f["modes"][m] for v in f["variants"] if m in v["modes"])
    opts = {"modes": MODES, "kinds": [], "prop": rep.prop, "part": "modular"}
    parts = core.shards(some, conf.weight, core.NCPU)
    lines, gen_, dist = core.tlc_shards("Modular", parts, opts, os.path.join(work, "tlc"))
    checked = answers = 0
    for tag, x in lines:
        if tag == "MISMATCH":
            rep.add(conf.mismatch_key(x) + ":" + x["with"], x)
        elif tag == "SUMMARY":
            checked += x["checked"]
            answers += x["answers"]
    if checked != want:
        raise core.ToolError(f"Modular compared {checked} of {want} analyses")
    rep.count(states=dist, transitions=gen_, traces=checked, answers_compared=answers, functions=len(some),
              programs_rewritten=len(paths), callers_compared=pairs, callers_not_comparable=different)
    for f in some[:: max(1, len(some) // 4)]:
        rep.sample({"file": core.rel(f["file"]), "fn": f["name"], "replaced_by": [v["with"] for v in f["variants"]]})


def run(rep, work, tier):
    core.build_harness()
    run_files(rep, os.path.join(work, "corpus"), conf.corpus(), core.SEED)
    for k in range(1 if tier == "quick" else 6):
        if rep.violations:
            break
        w = os.path.join(work, f"gen{k}")
        files, total, kept = gen.programs(os.path.join(w, "progs"), GEN, core.SEED + 90 * k)
        rep.count(generated_programs=kept, generated_rejected_by_rustc=total - kept)
        run_files(rep, w, files, core.SEED + k, keep=lambda f: gen.GENERATED.match(f["name"]), chunk=1)
