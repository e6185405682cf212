"""C12: whole-program mode against spec/Recurse.tla."""
import os

from . import conf, core, gen

MODES = ["recurse", "recurse+ignoremut", "recurse+conservative"]


def link(docs):
    """Functions grouped by file, calls linked to the functions they run; a function that reaches one that was not
    exported cannot be answered by the specification."""
    groups, panics, skipped = [], [], 0
    for d in docs:
        fns, p, s, _ = core.functions([d])
        panics += p
        skipped += s
        by_key = {f["key"]: i + 1 for i, f in enumerate(fns)}
        calls = {}
        for i, f in enumerate(fns):
            out = set()
            f["answerable"] = 1
            for b in f["blocks"]:
                t = b["term"]
                if t["k"] != "call":
                    continue
                c = t["callee"]
                c["idx"] = by_key.get(c["key"], 0) if c["key"] >= 0 else 0
                if c["key"] >= 0 and c["body"] and not c["never"]:
                    if c["idx"]:
                        out.add(c["idx"] - 1)
                    else:
                        f["answerable"] = 0
            calls[i] = out
        changed = True
        while changed:
            changed = False
            for i, f in enumerate(fns):
                if f["answerable"] and any(not fns[j]["answerable"] for j in calls[i]):
                    f["answerable"] = 0
                    changed = True
        groups.append(fns)
    return groups, panics, skipped


def renumber(groups):
    """One document of several files: positions of callees move."""
    out = []
    for fns in groups:
        base = len(out)
        for f in fns:
            for b in f["blocks"]:
                t = b["term"]
                if t["k"] == "call" and t["callee"]["idx"]:
                    t["callee"]["idx"] += base
        out += fns
    return out


def run_files(rep, work, files, chunk=6, modes=MODES):
    docs, fails = core.export(files, modes, os.path.join(work, "export"), chunk=chunk)
    groups, panics, skipped = link(docs)
    conf.failures(rep, panics, fails)
    parts = core.shards([g for g in groups if g], lambda g: sum(conf.weight(f) for f in g), core.NCPU)
    parts = [renumber(p) for p in parts]
    fns = [f for p in parts for f in p]
    want = sum(1 for f in fns for m in modes if f["answerable"] and "panic" not in f["modes"][m])
    opts = {"modes": modes, "kinds": ["deps", "bwd"], "prop": rep.prop, "part": "recurse"}
    lines, gen, dist = core.tlc_shards("Recurse", parts, opts, os.path.join(work, "tlc"))
    checked = answers = inl = 0
    for tag, x in lines:
        if tag == "MISMATCH":
            rep.add(conf.mismatch_key(x), x)
        elif tag == "SUMMARY":
            checked += x["checked"]
            answers += x["answers"]
            inl += x["inlined"]
    if checked != want:
        raise core.ToolError(f"Recurse checked {checked} of {want} analyses")
    rep.count(states=dist, transitions=gen, traces=checked, answers_compared=answers, programs=len(docs),
              functions=len(fns), functions_too_large=skipped, callees_analysed=inl,
              not_answerable=sum(1 for f in fns if not f["answerable"]))
    for f in fns[:: max(1, len(fns) // 4)]:
        rep.sample({"file": core.rel(f["file"]), "fn": f["name"], "locations": f["nloc"],
                    "calls": sum(1 for b in f["blocks"] if b["term"]["k"] == "call")})


GEN = [("calls", 14, 4), ("calls", 8, 7), ("refs", 24, 8), ("shapes", 10, 8)]


def run(rep, work, tier):
    core.build_harness()
    run_files(rep, work, conf.corpus())
    for k in range(1 if tier == "quick" else 6):
        if rep.violations:
            break
        w = os.path.join(work, f"gen{k}")
        files, total, kept = gen.programs(os.path.join(w, "src"), GEN, core.SEED + 50 * k, per_file=4)
        rep.count(generated_programs=kept, generated_rejected_by_rustc=total - kept)
        run_files(rep, w, files, chunk=1)
