"""Executions made by spec/Exec.tla: what the analysis must not miss."""
import os

from . import conf, core, gen, recurse

MODES = ["default", "recurse"]

# property -> (modes, what is reported, walks of ProgGen's grammars for the quick check)
PLAN = {
    "C01": (["default"], ["influence"], [("refs", 16, 8), ("types", 12, 0), ("cfg", 10, 10), ("lists", 12, 8), ("shapes", 16, 9)]),
    "C02": (["default"], ["influence"], [("calls", 6, 5), ("types", 16, 0), ("shapes", 12, 8)]),
    "C04": (["default", "conservative"], ["alias", "influence"], [("refs", 18, 8), ("lists", 12, 8), ("shapes", 12, 8)]),
    "C06": (["default", "ignoremut"], ["influence"], [("types", 20, 0), ("shapes", 10, 8)]),
    "C08": (["default"], ["influence"], [("cfg", 30, 10)]),
    "C11": (["ignoremut", "conservative", "ignoremut+conservative"], ["alias", "influence"], [("refs", 8, 8), ("types", 8, 0), ("lists", 6, 8), ("shapes", 8, 8)]),
    "C12": (["recurse"], ["influence"], [("calls", 8, 4), ("refs", 8, 8), ("shapes", 8, 8)]),
}


def misnumbered(f):
    """See Hidden in Exec.tla."""
    vis = [[x[1] for x in t["fields"]] for t in f["types"] if t["k"] == "struct"]
    return any(0 in v and 1 in v[v.index(0):] for v in vis)


def run_files(rep, work, files, chunk=6, modes=MODES, kinds=("alias", "influence"), seeds=(1, 2), steps=250, keep=None):
    docs, fails = core.export(files, modes, os.path.join(work, "export"), chunk=chunk)
    groups, panics, skipped = recurse.link(docs)
    conf.failures(rep, panics, fails)
    for g in groups:          # callees are executed: all functions of a file stay together
        for f in g:
            f["modes"] = {m: {k: r[k] for k in ("sets", "deps", "aliases", "panic") if k in r} for m, r in f["modes"].items()}
            if keep and not keep(f):
                f["modes"] = {}
    groups = [g for g in groups if any(f["modes"] for f in g)]
    weight = lambda f: len(f["modes"]) * f["nloc"] ** 2 * (5 + len(f["queries"]))
    parts = core.shards(groups, lambda g: sum(weight(f) for f in g), core.NCPU)
    parts = [recurse.renumber(p) for p in parts]
    fns = [f for p in parts for f in p if f["modes"]]
    want = sum(1 for f in fns if f["ctx_ty"] < 0 and not misnumbered(f)
               for m in modes if m in f["modes"] and "panic" not in f["modes"][m])
    opts = {"modes": modes, "seeds": list(seeds), "steps": steps, "kinds": list(kinds), "prop": rep.prop}
    lines, gen_, dist = core.tlc_shards("Exec", parts, opts, os.path.join(work, "tlc"))
    checked = values = infl = 0
    for tag, x in lines:
        if tag == "MISMATCH":
            rep.add(conf.mismatch_key(x), x)
        elif tag == "SUMMARY":
            checked += x["checked"]
            values += x["values"]
            infl += x["influences"]
    if checked != want:
        raise core.ToolError(f"Exec executed {checked} of {want} functions")
    rep.count(states=dist, transitions=gen_, traces=checked, values_compared=values, influences_observed=infl,
              analyses_executed=checked)
    for f in fns[:: max(1, len(fns) // 3)]:
        rep.sample({"file": core.rel(f["file"]), "fn": f["name"], "locations": f["nloc"]})


def run(rep, work, tier):
    """The executions of a property; the exporter is built."""
    modes, kinds, plan = PLAN[rep.prop]
    run_files(rep, os.path.join(work, "exec"), conf.corpus(), modes=modes, kinds=kinds)
    for k in range(1 if tier == "quick" else 5):
        if rep.violations:
            break
        w = os.path.join(work, f"exec{k}")
        files, total, kept = gen.programs(os.path.join(w, "src"), plan, core.SEED + 400 + 50 * k, per_file=4)
        rep.count(generated_programs=kept, generated_rejected_by_rustc=total - kept)
        run_files(rep, w, files, chunk=1, modes=modes, kinds=kinds, seeds=(1, 2) if tier == "quick" else (1, 2, 3, 4))
