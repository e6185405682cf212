"""Conformance of the real analysis with spec/Flow.tla (module Conf)."""
import glob
import os

from . import core

BASE = ["default"]
KINDS = {
    "C01": (["default", "ignoremut", "conservative"], ["deps", "slices"]),
    "C02": (["default", "ignoremut"], ["deps", "calls"]),
    "C04": (["default", "conservative"], ["deps", "places"]),
    "C05": (["default"], ["deps", "places", "calls", "slices"]),
    "C06": (["default", "ignoremut"], ["deps", "places", "calls"]),
    "C07": (["default", "ignoremut", "conservative", "ignoremut+conservative"], ["deps"]),
    "C08": (["default"], ["deps"]),
    "C09": (["default", "ignoremut"], ["places"]),
    "C10": (["default", "ignoremut"], ["slices"]),
    "C11": (["unset", "default", "ignoremut", "conservative", "ignoremut+conservative"], ["deps", "places", "calls"]),
}
ALIAS = {
    "deps": ["deps"],
    "slices": ["bwd", "fwd", "both", "gbwd", "gfwd", "gboth"],
    "places": ["aliases", "children", "conflicts", "norm", "args", "reachn", "reachm"],
    "calls": ["callmut", "callins"],
}


def corpus():
    return sorted(glob.glob(os.path.join(core.VERIF, "corpus", "*.rs")))


def weight(f):
    return f["nloc"] * (5 + len(f["queries"])) + 40


def failures(rep, panics, fails):
    for file, fn, mode, msg in panics:
        rep.add(f"panic:{core.rel(file)}:{fn}:{mode}", {"file": file, "fn": fn, "mode": mode, "panic": msg})
    for file, why in fails:
        rep.add(f"failed:{core.rel(file)}", {"file": file, "why": why})


def mismatch_key(x):
    return f"{core.rel(x['file'])}:{x['fn']}:{x['mode']}:{x['kind']}:{x['loc']}:{x['place']}".replace(" ", "")


def check(rep, fns, modes, kinds, work, timeout=700, heap="3g"):
    """Runs the Conf machine on exported functions."""
    parts = core.shards(fns, weight, core.NCPU)
    opts = {"modes": modes, "kinds": [k for g in kinds for k in ALIAS[g]], "prop": rep.prop, "part": "conf"}
    lines, gen, dist = core.tlc_shards("Conf", parts, opts, work, timeout=timeout, heap=heap)
    checked = answers = 0
    for tag, x in lines:
        if tag == "MISMATCH":
            rep.add(mismatch_key(x), x)
        elif tag == "SUMMARY":
            checked += x["checked"]
            answers += x["answers"]
    want = sum(1 for f in fns for m in modes if m in f["modes"] and "panic" not in f["modes"][m])
    if checked != want:
        raise core.ToolError(f"Conf checked {checked} of {want} analyses")
    rep.count(states=dist, transitions=gen, traces=checked, answers_compared=answers)
    return checked


# Walks of ProgGen's grammars: (grammar, walks, statements) for the quick check; the thorough one multiplies them.
GEN = {
    "C01": [("types", 60, 0), ("refs", 90, 9), ("cfg", 30, 12), ("lists", 30, 8), ("shapes", 40, 8)],
    "C02": [("types", 200, 0), ("refs", 50, 8), ("shapes", 50, 8)],
    "C04": [("types", 110, 0), ("refs", 100, 8), ("lists", 40, 8), ("shapes", 40, 8)],
    "C05": [("types", 60, 0), ("refs", 90, 9), ("cfg", 40, 12), ("lists", 40, 8), ("shapes", 60, 9)],
    "C06": [("types", 220, 0), ("shapes", 40, 8)],
    "C07": [("cfg", 90, 16), ("refs", 40, 10)],
    "C08": [("cfg", 160, 14)],
    "C09": [("types", 200, 0), ("lists", 40, 8), ("shapes", 60, 8)],
    "C10": [("cfg", 60, 10), ("refs", 60, 8), ("lists", 30, 8), ("shapes", 50, 8)],
    "C11": [("types", 50, 0), ("refs", 30, 8), ("lists", 15, 8), ("shapes", 25, 8)],
}


def run_generated(rep, prop, work, tier):
    from . import gen
    plan = GEN[prop]
    rounds = 1 if tier == "quick" else 6
    for k in range(rounds):
        w = os.path.join(work, f"gen{k}")
        files, total, kept = gen.programs(os.path.join(w, "src"), plan, core.SEED + 50 * k)
        rep.count(generated_programs=kept, generated_rejected_by_rustc=total - kept)
        run_corpus(rep, prop, w, files, chunk=1, keep=lambda f: gen.GENERATED.match(f["name"]))
        if rep.violations:
            break


def run_orders(rep, work, tier):
    """Every order in which an engine may take the waiting blocks of small functions with loops (spec/Engine.tla)."""
    from . import gen
    deep = tier != "quick"
    files, _, _ = gen.programs(os.path.join(work, "src"), [("cfg", 200 if deep else 60, 3)], core.SEED + 5)
    docs, fails = core.export(files, ["default"], os.path.join(work, "export"), chunk=1)
    fns, panics, _, _ = core.functions(docs)
    failures(rep, panics, fails)
    loops = [f for f in fns if gen.GENERATED.match(f["name"]) and
             any(x <= i for i, b in enumerate(f["blocks"]) for x in b["term"]["succ"])]
    small = sorted((f for f in loops if len(f["blocks"]) <= (9 if deep else 8)), key=lambda f: (len(f["blocks"]), f["nloc"]))
    picked = small[:24 if deep else 3]
    for f in picked:
        f["queries"] = f["queries"][:1]
    lines, g, d = core.tlc_shards("Engine", [[f] for f in picked], {"modes": ["default"], "kinds": [], "prop": "C07", "part": "order"},
                                  os.path.join(work, "tlc"))
    for i in range(len(picked)):
        out = open(os.path.join(work, "tlc", f"out{i}.txt")).read()
        if "No error has been found" not in out:
            raise core.ToolError("the order of work matters in the specification:\n" + out[-2500:])
    rep.count(states=d, transitions=g, orders_functions=len(picked), orders_states=d)


def run_corpus(rep, prop, work, files=None, chunk=6, keep=None):
    modes, kinds = KINDS[prop]
    docs, fails = core.export(files or corpus(), modes, os.path.join(work, "export"), chunk=chunk)
    fns, panics, skipped, _ = core.functions(docs)
    if keep:
        fns = [f for f in fns if keep(f)]
    failures(rep, panics, fails)
    rep.count(programs=len(docs), functions=len(fns), functions_too_large=skipped)
    for f in fns[:: max(1, len(fns) // 4)]:
        rep.sample({"file": core.rel(f["file"]), "fn": f["name"], "locations": f["nloc"],
                    "places_queried": len(f["queries"]), "modes": sorted(f["modes"])})
    check(rep, fns, modes, kinds, os.path.join(work, "conf"))
    return fns
