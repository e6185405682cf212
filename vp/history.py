"""C13: sessions of questions made by spec/History.tla, run in real processes and validated against it."""
import concurrent.futures as cf
import json
import os

from . import conf, core, gen

MODES = ["default", "ignoremut", "conservative", "recurse", "recurse+ignoremut", "ignoremut+conservative"]
GEN = [("refs", 24, 9), ("types", 20, 0), ("calls", 5, 4), ("cfg", 8, 10), ("shapes", 8, 8)]


def sizes(docs):
    """What there is to ask about: per file, the functions that can be analysed."""
    out = []
    for d in docs:
        fns = [{"idx": i, "nq": len(f["queries"]), "nt": len(f["targets"]), "nloc": f["nloc"]}
               for i, f in enumerate(d["fns"]) if "queries" in f and f["queries"] and f["targets"]]
        if fns:
            out.append((d["file"], fns))
    return out


def sessions(work, table, num, length, seed):
    """TLC walks, grouped by file."""
    parts = core.shards(list(enumerate(table)), lambda x: 1, core.NCPU)

    def one(i):
        part = parts[i]
        p = os.path.join(work, f"gen{i}.json")
        json.dump({"files": [t[1] for _, t in part], "modes": MODES, "length": length}, open(p, "w"))
        rc, out = core.tlc("History", {"VP_IN": p, "VP_RUN": "generate"}, heap="2g", timeout=300,
                           metadir=os.path.join(work, f"mdg{i}"),
                           args=["-simulate", f"num={num * len(part)}", "-depth", "200", "-seed", str(seed * 100 + i)])
        w = [x for t, x in core.marked(out) if t == "WALK"]
        if not w:
            raise core.ToolError("History.tla produced no session:\n" + out[-2000:])
        return [(part[x[0][1]][1][0], x[1:]) for x in w]

    by = {}
    with cf.ThreadPoolExecutor(core.NCPU) as ex:
        for ws in ex.map(one, range(len(parts))):
            for file, ops in ws:
                by.setdefault(file, []).append({"id": f"{os.path.basename(file)}#{len(by.get(file, []))}", "ops": ops})
    return by


def run_sessions(work, by, name, reverse, rep):
    """Runs all sessions of a file in one process; returns documents."""
    stem = lambda f: os.path.splitext(os.path.basename(f))[0]
    sp = os.path.join(work, f"{name}.json")
    json.dump({stem(f): (list(reversed(ss)) if reverse else ss) for f, ss in by.items()}, open(sp, "w"))
    docs, fails = core.export(sorted(by), MODES[:1], os.path.join(work, name), extra=["--schedule", sp], chunk=4,
                              file_timeout=120)
    conf.failures(rep, [], fails)
    return docs


def run_files(rep, work, files, num, length, seed, keep=None):
    os.makedirs(work, exist_ok=True)
    docs, fails = core.export(files, [], os.path.join(work, "export"))
    conf.failures(rep, [], fails)
    table = sizes(docs)
    if keep:
        table = [(f, [x for x in fns if keep(next(d for d in docs if d["file"] == f)["fns"][x["idx"]]["name"])]) for f, fns in table]
        table = [t for t in table if t[1]]
    by = sessions(work, table, num, length, seed)
    runs = [run_sessions(work, by, "one", False, rep), run_sessions(work, by, "two", True, rep)]
    # every file in a shard: its sessions in both processes, one after the other
    items, text = [], {}
    for f in sorted(by):
        ss = []
        for r, docs2 in enumerate(runs):
            for d in docs2:
                if d["file"] != f:
                    continue
                if "compile_error" in d:
                    raise core.ToolError(f"{f} does not compile")
                text.update(d["answers"])
                ss += [{"id": s["id"] + f"/{r}", "file": core.rel(f), "events": s["events"]} for s in d["sessions"]]
        items.append(ss)
        for s in ss:
            for q, a in s["events"]:
                if a == "PANIC":
                    rep.add(f"panic:{core.rel(f)}:{q}", {"file": f, "question": q, "session": s["id"]})
    parts = core.shards([i for i in items if i], lambda ss: sum(len(s["events"]) for s in ss), core.NCPU)

    def check(i):
        p = os.path.join(work, f"val{i}.json")
        json.dump({"sessions": [s for ss in parts[i] for s in ss], "files": [], "modes": [], "length": 0}, open(p, "w"))
        rc, out = core.tlc("History", {"VP_IN": p, "VP_RUN": "validate"}, heap="3g", timeout=600,
                           metadir=os.path.join(work, f"mdv{i}"))
        open(os.path.join(work, f"val{i}.txt"), "w").write(out)
        return core.marked(out), core.stats(out)

    total = sum(len(s["events"]) for ss in items for s in ss)
    asked = repeated = 0
    with cf.ThreadPoolExecutor(core.NCPU) as ex:
        for lines, (g, d) in ex.map(check, range(len(parts))):
            rep.count(states=d, transitions=g)
            for tag, x in lines:
                if tag == "MISMATCH":
                    x["before"], x["now"] = text.get(x["before"], x["before"]), text.get(x["now"], x["now"])
                    rep.add(f"{x['file']}:{x['question']}", x)
                elif tag == "SUMMARY":
                    asked += x["asked"]
                    repeated += x["repeated"]
    if asked != total:
        raise core.ToolError(f"History validated {asked} of {total} answers")
    rep.count(traces=sum(len(i) for i in items), answers=asked, questions_asked_again=repeated, files=len(table))
    core.log(f"{asked} answers, {repeated} to questions asked before")
    for ss in items[:: max(1, len(items) // 3)]:
        rep.sample({"session": ss[0]["id"], "events": ss[0]["events"][:12]})


def run(rep, work, tier):
    core.build_harness()
    n, length = (8, 60) if tier == "quick" else (60, 120)
    run_files(rep, os.path.join(work, "corpus"), conf.corpus(), n, length, core.SEED)
    for k in range(1 if tier == "quick" else 5):
        if rep.violations:
            break
        w = os.path.join(work, f"gen{k}")
        files, total, kept = gen.programs(os.path.join(w, "src"), GEN, core.SEED + 70 * k)
        rep.count(generated_programs=kept, generated_rejected_by_rustc=total - kept)
        run_files(rep, w, files, n, length, core.SEED + k, keep=lambda name: gen.GENERATED.match(name))
