"""C17, C18, C19: the editor extension, bundled from /repo/ide and run with a stand-in for the editor."""
import concurrent.futures as cf
import json
import os
import subprocess

from . import core

DIR = os.path.join(core.VERIF, "editor")


def bundle(work):
    os.makedirs(work, exist_ok=True)
    out = os.path.join(work, "extension.js")
    p = subprocess.run(["node", os.path.join(DIR, "bundle.cjs"), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    if p.returncode != 0:
        raise core.ToolError("the extension does not build:\n" + p.stdout[-2000:])
    return out


def play(ext, scenarios, work, timeout=600, script="walks.cjs"):
    """Runs schedules through the extension; returns what it showed, in order."""
    parts = [scenarios[i::core.NCPU] for i in range(core.NCPU)]

    def one(i):
        if not parts[i]:
            return []
        data = "".join(json.dumps(s) + "\n" for s in parts[i])
        open(os.path.join(work, f"in{i}.jsonl"), "w").write(data)
        try:
            p = subprocess.run(["node", "--stack-size=4000", os.path.join(DIR, script), ext], input=data, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise core.ToolError("running the extension takes too long")
        return [json.loads(l) for l in p.stdout.splitlines()]

    got = {}
    with cf.ThreadPoolExecutor(core.NCPU) as ex:
        for r in ex.map(one, range(core.NCPU)):
            for x in r:
                got[x["id"]] = x
    return got


# ---------------------------------------------------------------------------- C17: focus mode

FILES = ["/ws/a.rs", "/ws/b.rs", "/ws/notes.md"]
AT = {"p": (2, 4, 2, 8), "q": (2, 12, 2, 16), "g": (3, 2, 3, 3), "r": (6, 4, 6, 8), "h": (6, 20, 6, 24), "o": (0, 0, 0, 1)}
BODY = {1: (1, 0, 3, 30), 2: (5, 0, 7, 30)}
SLICE = {"p": "q", "q": "p", "r": "h"}
VERSIONS = list(range(1, 20))


def rng(f, r):
    return {"start": {"line": r[0], "column": r[1]}, "end": {"line": r[2], "column": r[3]}, "filename": f}


def tag(d, ver, b):
    return [200 + ver, d * 10 + b, 200 + ver, d * 10 + b + 1]


def cursor(pos):
    a = AT[pos]
    return [a[0], a[1] + 1, a[0], a[1] + 1] if pos != "o" else [a[0], a[1], a[0], a[1]]


def answers():
    ok = {}
    for d, f in enumerate(FILES[:2], 1):
        ok[f"spans {f}"] = {"Ok": {"spans": [rng(f, BODY[1]), rng(f, BODY[2])]}}
        for pos in AT:
            if pos == "o":
                continue
            b = 1 if pos in "pqg" else 2
            for at in {tuple(cursor(pos)[:2]), AT[pos][:2]}:
                ok[f"focus {f} {at[0]} {at[1]}"] = {"byVersion": {str(v): {"Ok": {
                    "place_info": [{"range": rng(f, AT[x]), "ranges": [rng(f, AT[x])], "slice": [rng(f, AT[SLICE[x]])],
                                    "direct_influence": [rng(f, tag(d, v, b))]} for x in ("pq" if b == 1 else "r")],
                    "containers": [rng(f, BODY[b])]}} for v in VERSIONS}}
    return {"ok": ok, "build": {"*": {"byVersion": {str(v): {"fail": f"error: build {v} fails"} for v in VERSIONS}}},
            "analysis": {"*": {"byVersion": {str(v): {"Err": {"type": "AnalysisError", "error": f"analysis {v} fails"}} for v in VERSIONS}}},
            "garbage": {"*": {"raw": "no answer at all\n"}},
            "notfound": {"*": {"Err": {"type": "FileNotFound"}}}}


WORLD = {"docs": [{"name": f, "lang": "rust" if f.endswith("rs") else "markdown", "lines": ["x" * 40] * 12} for f in FILES]}


def event(ev):
    k = ev[0]
    if k == "focus":
        return ["cmd", "focus"]
    if k == "why":
        return ["cmd", "last_error"]
    if k in ("mark", "unmark", "select"):
        return ["cmd", "focus_" + k]
    if k == "move":
        return ["move", cursor(ev[1])]
    if k == "edit":
        return ["edit", ev[1] - 1]
    if k == "save":
        return ["save", ev[1] - 1]
    if k == "switch":
        return ["switch", ev[1] - 1]
    return ["answer", ev[1] - 1, ev[2]]


def inside(sel, pos):
    a = AT[pos]
    return tuple(a[:2]) <= tuple(sel[:2]) and tuple(sel[2:]) <= tuple(a[2:])


def differences(want, got):
    out = []
    for d in (1, 2, 3):
        sh, e = want["shown"][d - 1], got["ed"][d - 1]
        back = sorted([list(AT[sh[2]]), tag(d, sh[0], sh[1])]) if sh else []
        keep = [list(AT[SLICE[sh[2]]])] if sh else []
        if sorted(e["back"]) != back or e["keep"] != keep or bool(e["fade"]) != bool(sh):
            out.append({"what": "highlight", "editor": d, "want": sh, "got": e})
        if not inside(e["sels"][0], want["cur"][d - 1]):
            out.append({"what": "selection", "editor": d, "want": want["cur"][d - 1], "got": e["sels"]})
    if got["bar"] != want["bar"]:
        out.append({"what": "status", "want": want["bar"], "got": got["bar"]})
    pend = [[p["kind"], FILES[p["e"] - 1]] for p in want["pending"]]
    ok = [p[:2] for p in got["pending"]] == pend
    if ok:
        for w, g in zip(want["pending"], got["pending"]):
            if w["kind"] == "focus" and not inside([int(g[2]), int(g[3])] * 2, w["at"]):
                ok = False
    if not ok:
        out.append({"what": "requests", "want": want["pending"], "got": got["pending"]})
    if got["errors"]:
        out.append({"what": "exception"})
    return out


def told(want, got, reporter):
    """Differences in what the user is told about failures."""
    out = []
    if (got["pane"] is not None) != bool(want["pane"]):
        out.append({"what": "error pane " + ("missing" if want["pane"] else "open"), "want": want["pane"], "got": got["pane"]})
    elif want["pane"]:
        v = want["pane"][0]
        if [x for x in VERSIONS + [-1] if f"build {x} fails" in got["pane"]] != ([v] if v else []):
            out.append({"what": "error pane text", "want": want["pane"], "got": got["pane"]})
    if len(got["dialogs"]) != len(want["said"]):
        out.append({"what": "dialogs", "want": want["said"], "got": got["dialogs"]})
    elif any(v and f"analysis {v} fails" not in d for v, d in zip(want["said"], got["dialogs"])):
        out.append({"what": "dialog text", "want": want["said"], "got": got["dialogs"]})
    # every other user reports what went wrong
    reports = want["said"] if reporter else []
    if len(got["opened"]) != len(reports) or any(v and f"analysis {v} fails" not in d for v, d in zip(reports, got["opened"])):
        out.append({"what": "reports", "want": reports, "got": got["opened"]})
    if got["errors"]:
        out.append({"what": "exception"})
    return out


class Walk(list):
    """A schedule: the events after the start."""

    def __init__(self, steps):
        super().__init__(steps[1:])
        self.world = dict(WORLD, preloadFails="error: build -1 fails") if steps[0]["ev"][1] == -1 else WORLD


def walks(seed, num, work, cfg="Editor.cfg"):
    rc, out = core.tlc("Editor", {}, cfg=cfg, heap="2g", timeout=400, metadir=os.path.join(work, f"md{seed}"),
                       args=["-simulate", f"num={num}", "-depth", "100", "-seed", str(seed)])
    w = [Walk(x) for t, x in core.marked(out) if t == "WALK"]
    if "is violated" in out or not w:
        raise core.ToolError("Editor.tla: " + out[-2500:])
    return w, core.stats(out)


def explore(work, cfg, module="Editor"):
    rc, out = core.tlc(module, {}, cfg=cfg, heap="12g", timeout=800, workers=core.NCPU, metadir=os.path.join(work, "mdall"))
    if "No error has been found" not in out:
        raise core.ToolError(module + ".tla: " + out[-2500:])
    return core.stats(out)


def run_focus_mode(rep, work, tier):
    run_walks(rep, work, tier, "focus-mode", lambda want, got, reporter: differences(want, got),
              "EditorQuick.cfg" if tier == "quick" else "EditorAll.cfg")


def run_reporting(rep, work, tier):
    run_walks(rep, work, tier, "reporting", told, "EditorTold.cfg", seed=37)


def run_walks(rep, work, tier, what, compare, cfg, seed=0):
    ext = bundle(os.path.join(work, "bundle"))
    quick = tier == "quick"
    num = 500 if quick else 6000
    with cf.ThreadPoolExecutor(core.NCPU) as ex:
        parts = list(ex.map(lambda k: walks(core.SEED * 100 + k + seed, num, work), range(core.NCPU)))
    all_ = [w for p, _ in parts for w in p]
    core.log(f"{len(all_)} schedules of {len(all_[0])} events")
    ans = answers()
    got = play(ext, [{"id": i, "world": dict(w.world, reports=i % 2 == 1), "answers": ans, "events": [event(x["ev"]) for x in w]} for i, w in enumerate(all_)], work)
    events = 0
    kinds = {}
    for i, w in enumerate(all_):
        g = got.get(i)
        if g is None or not g["loaded"]:
            rep.add("extension does not run", {"schedule": [x["ev"] for x in w], "errors": g and g["errors"]})
            continue
        for k, (x, y) in enumerate(zip(w, g["seen"])):
            events += 1
            kinds[x["ev"][0]] = kinds.get(x["ev"][0], 0) + 1
            bad = compare(x["see"], y, i % 2 == 1)
            if bad:
                # schedules that fail in the same way are one finding
                rep.add(f"{what}:{x['ev'][0]}:{bad[0]['what']}",
                        {"schedule": [z["ev"] for z in w[:k + 1]], "preload fails": w.world is not WORLD, "differences": bad[:3], "errors": g["errors"]})
                break
    rep.count(traces=len(all_), events_compared=events, transitions=events)
    for k, v in sorted(kinds.items()):
        rep.cov["event_" + k] = v
    g, d = explore(work, cfg)
    rep.count(states=d, transitions=g)
    rep.sample({"schedule": [x["ev"] for x in all_[0]], "shown": [x["see"]["shown"] for x in all_[0]]})


# ---------------------------------------------------------------------------- C18: faded text

FADE_LINES = ["ab", "", "c", "def"]       # 9 characters, the line breaks included
FILE = FILES[0]


def positions(lines):
    """(line, column) of every offset."""
    return [(i, c) for i, l in enumerate(lines) for c in range(len(l) + 1)]


def offset(pos, lines):
    return sum(len(l) + 1 for l in lines[:pos[0]]) + pos[1]


def pair(r, at):
    return rng(FILE, at[r[0]] + at[r[1]])


def run_fade(rep, work, tier):
    ext = bundle(os.path.join(work, "bundle"))
    cfg = "Fade.cfg"
    rc, out = core.tlc("Fade", {}, cfg=cfg, heap="3g", timeout=400, metadir=os.path.join(work, "md"),
                       args=["-seed", str(core.SEED)] if tier == "quick" else ["-seed", str(core.SEED + 7)])
    groups = [x for t, x in core.marked(out) if t == "CASES"]
    if "No error has been found" not in out:
        raise core.ToolError("Fade.tla: " + out[-2000:])
    g, d = core.stats(out)
    lines = FADE_LINES + ["x" * 8] * (3 + max(len(x["cases"]) for x in groups))
    at = positions(FADE_LINES)
    scen = []
    for n, x in enumerate(groups):
        info = [{"range": rng(FILE, (5 + k, 2, 5 + k, 4)), "ranges": [rng(FILE, (5 + k, 2, 5 + k, 4))],
                 "slice": [pair(r, at) for r in c["s"]], "direct_influence": []} for k, c in enumerate(x["cases"])]
        ans = {f"spans {FILE}": {"Ok": {"spans": [rng(FILE, (0, 0, len(lines) - 1, 8))]}},
               f"focus {FILE}": {"Ok": {"place_info": info, "containers": [pair(r, at) for r in x["containers"]]}}}
        ev = [["place", [5, 3, 5, 3]], ["cmd", "focus"], ["answer", 0, "ok"], ["answer", 0, "ok"]]
        ev += [["move", [5 + k, 3, 5 + k, 3]] for k in range(len(x["cases"]))]
        scen.append({"id": n, "world": {"docs": [{"name": FILE, "lines": lines}]}, "answers": {"ok": ans}, "events": ev})
    got = play(ext, scen, work)
    total = 0
    for n, x in enumerate(groups):
        y = got.get(n)
        if y is None or not y["loaded"] or y["errors"]:
            rep.add("extension does not run", {"containers": x["containers"], "errors": y and y["errors"]})
            continue
        for c, s in zip(x["cases"], y["seen"][4:]):
            total += 1
            e = s["ed"][0]
            fade = set()
            for r in e["fade"]:
                fade |= set(range(offset(r[:2], lines), offset(r[2:], lines)))
            keep = sorted({tuple(at[r[0]] + at[r[1]]) for r in c["s"]})
            if sorted(fade) != c["f"]:
                shape = "missing" if set(c["f"]) - fade else "extra"
                rep.add(f"fade:{shape}:{len(c['s'])} ranges", {"containers": x["containers"], "slice": c["s"], "faded": sorted(fade), "expected": c["f"]})
            elif [tuple(r) for r in e["keep"]] != keep:
                rep.add("fade:slice", {"slice": c["s"], "shown": e["keep"]})
    rep.count(states=d, transitions=g, traces=len(groups), displays_compared=total)
    rep.sample({"containers": groups[9]["containers"], "cases": groups[9]["cases"][:4]})


# ---------------------------------------------------------------------------- C19: selections

# Offsets of the model's positions in the real text: lengths of one to three digits, on one line and across lines.
SELECT_LINES = ["x" * 130, "y" * 7, "z" * 120]
SELECT_AT = [(0, 3), (0, 5), (0, 14), (0, 114), (0, 125), (1, 6), (2, 9), (2, 104)]


def sel(q, back):
    a, b = SELECT_AT[q[0]], SELECT_AT[q[1]]
    return list(b + a if back else a + b)


def srange(r):
    return rng(FILE, SELECT_AT[r[0]] + SELECT_AT[r[1]])


def families(kind, seed, num, work):
    rc, out = core.tlc("Select", {"VP_KIND": kind}, heap="2g", timeout=400, metadir=os.path.join(work, f"md-{kind}-{seed}"),
                       args=["-simulate", f"num={num}", "-depth", "60", "-seed", str(seed)])
    f = [x for t, x in core.marked(out) if t == "FAMILY"]
    if "is violated" in out or not f:
        raise core.ToolError("Select.tla: " + out[-2000:])
    return f


def scenario_places(n, x):
    lines = SELECT_LINES
    info = [{"range": srange(r), "ranges": [rng(FILE, (300, k, 300, k + 1))],
             "slice": [rng(FILE, (l, k, l, k + 1)) for l in (301, 302)],
             "direct_influence": [rng(FILE, (303, k, 303, k + 1))]} for k, r in enumerate(x["fam"])]
    ans = {f"spans {FILE}": {"Ok": {"spans": [rng(FILE, (0, 0, 2, 120))]}},
           f"focus {FILE}": {"Ok": {"place_info": info, "containers": [rng(FILE, (0, 0, 2, 120))]}}}
    ev = [["place", [0, 1, 0, 1]], ["cmd", "focus"], ["answer", 0, "ok"], ["answer", 0, "ok"]]
    for k, c in enumerate(x["log"]):
        ev.append(["move", sel(c["q"], k % 2)])
        if picked(k, c):
            ev.append(["cmd", "focus_select"])
    return {"id": n, "world": {"docs": [{"name": FILE, "lines": lines}]}, "answers": {"ok": ans}, "events": ev}


def picked(k, c):
    """Is the slice selected after the k-th query?"""
    return c["show"] and k % 4 == 1


def scenario_bodies(n, x):
    lines = SELECT_LINES
    everywhere = rng(FILE, (0, 0, 2, 120))
    ans = {"first": {f"spans {FILE}": {"Ok": {"spans": [srange(r) for r in x["fam"]]}}}}
    ev = [["place", [0, 0, 0, 0]], ["cmd", "focus"], ["answer", 0, "first"]]
    for k, c in enumerate(x["log"]):
        ev.append(["move", sel(c["q"], k % 2)])
        if c["ask"]:
            tagged = {"range": everywhere, "ranges": [rng(FILE, (300, c["show"], 300, c["show"] + 1))],
                      "slice": [everywhere], "direct_influence": []}
            ans[f"b{k}"] = {f"focus {FILE}": {"Ok": {"place_info": [tagged], "containers": [everywhere]}}}
            ev.append(["answer", 0, f"b{k}"])
    return {"id": n, "world": {"docs": [{"name": FILE, "lines": lines}]}, "answers": ans, "events": ev}


def run_select(rep, work, tier):
    ext = bundle(os.path.join(work, "bundle"))
    num = 120 if tier == "quick" else 1200
    jobs = [(k, core.SEED * 50 + i) for k in ("places", "bodies") for i in range(4)]
    with cf.ThreadPoolExecutor(core.NCPU) as ex:
        parts = list(ex.map(lambda j: (j[0], families(j[0], j[1], num, work)), jobs))
    places = [f for k, fs in parts if k == "places" for f in fs]
    bodies = [f for k, fs in parts if k == "bodies" for f in fs]
    scen = [scenario_places(n, x) for n, x in enumerate(places)]
    scen += [scenario_bodies(len(places) + n, x) for n, x in enumerate(bodies)]
    core.log(f"{len(places)} families of places, {len(bodies)} of functions")
    got = play(ext, scen, work)
    total = 0
    for n, x in enumerate(places + bodies):
        y = got.get(n)
        if y is None or not y["loaded"] or y["errors"]:
            rep.add("extension does not run", {"family": x["fam"], "errors": y and y["errors"]})
            continue
        seen = y["seen"]
        if n < len(places):
            seen = iter(seen[4:])
            for k, (c, s) in enumerate(zip(x["log"], seen)):
                e = s["ed"][0]
                marks = [("places", e["back"], 300), ("slice", e["keep"], 301), ("slice", e["keep"], 302), ("influence", e["back"], 303)]
                if picked(k, c):
                    sels = next(seen)["ed"][0]["sels"]
                    marks += [("selected", sels, 301), ("selected", sels, 302)]
                for what, ranges, line in marks:
                    total += 1
                    shown = sorted({r[1] + 1 for r in ranges if r[0] == line})
                    if shown != c["show"]:
                        rep.add(f"select:{what}:{len(shown)} for {len(c['show'])}", {"places": x["fam"], "selection": c["q"], "shown": shown, "expected": c["show"]})
        else:
            i, shown = 3, []
            for c in x["log"]:
                total += 1
                asked = len(seen[i]["pending"])
                if asked != c["ask"]:
                    rep.add(f"select:body:asked {asked}", {"functions": x["fam"], "selection": c["q"], "log": x["log"]})
                    break
                asked = [tuple(int(k) for k in q[2:4]) for q in seen[i]["pending"]]
                wrong = [SELECT_AT.index(p) for p in asked if p in SELECT_AT and SELECT_AT.index(p) not in c["at"]]
                if wrong:
                    rep.add("select:body:asked at a position of another", {"functions": x["fam"], "selection": c["q"], "asked": wrong, "allowed": c["at"]})
                    break
                i += 1 + c["ask"]
                shown = [c["show"]] if c["show"] else shown
                back = [r[1] for r in seen[i - 1]["ed"][0]["back"]]
                if back != shown:
                    rep.add("select:body", {"functions": x["fam"], "selection": c["q"], "shown": back, "expected": shown, "log": x["log"]})
                    break
    rep.count(states=sum(len(x["log"]) + len(x["fam"]) for x in places + bodies), transitions=total, traces=len(got), selections_compared=total)
    rep.sample({"places": places[0]["fam"], "log": places[0]["log"][:5]})
    rep.sample({"functions": bodies[0]["fam"], "log": bodies[0]["log"][:5]})


# ---------------------------------------------------------------------------- C20: activation

def run_setup(rep, work, tier):
    ext = bundle(os.path.join(work, "bundle"))
    rc, out = core.tlc("Setup", {}, heap="3g", timeout=400, workers=2, metadir=os.path.join(work, "md"))
    if "No error has been found" not in out:
        raise core.ToolError("Setup.tla: " + out[-2000:])
    runs = [x for t, x in core.marked(out) if t == "RUN"]
    g, d = core.stats(out)
    commands = sorted(c["command"] for c in json.load(open(os.path.join(core.REPO, "ide/package.json")))["contributes"]["commands"])
    got = play(ext, [dict(x, id=i) for i, x in enumerate(runs)], work, script="setup.cjs")
    for i, x in enumerate(runs):
        y = got.get(i)
        if y is None:
            rep.add("extension does not run", {"run": x})
            continue
        bad = []
        if y["did"] != x["ran"]:
            k = next((k for k, (a, b) in enumerate(zip(x["ran"], y["did"])) if a != b), min(len(x["ran"]), len(y["did"])))
            w, h = (x["ran"][k:k + 1] or [["nothing"]])[0][0], (y["did"][k:k + 1] or [["nothing"]])[0][0]
            bad.append(f"does {h.split(' ')[0]} instead of {w}")
        if sorted(y["told"]) != sorted(x["told"]):
            bad.append(f"tells {len(y['told'])} messages instead of {len(x['told'])}")
        missing = [c for c in commands if c not in y["commands"]]
        if x["end"] == "ready" and missing:
            bad.append("commands missing")
        if x["end"] != "ready" and y["commands"]:
            bad.append("commands although not set up")
        for p in y["problems"]:
            bad.append(p.split(" runs in")[0].split(" run in")[0] + (" runs elsewhere" if " in /" in p else ""))
        if y["errors"]:
            bad.append("exception")
        e = (y.get("opts") or {}).get("env")
        if y.get("opts") is not None:
            e = e or {}
            path = e.get("PATH", "").split(":")
            if e.get("SYSROOT") != "/vp-toolchain" or "/vp-toolchain/lib/target" not in e.get("LD_LIBRARY_PATH", "").split(":"):
                bad.append("requests lack the toolchain")
            if [q for q in ("/vp-cargo/bin" if x["home"] else "/vp-home/.cargo/bin", "/vp-first", "/vp-second") if q not in path]:
                bad.append("search path incomplete")
        for b in bad:
            rep.add("setup:" + b, {"environment": {k: x[k] for k in ("folder", "toml", "depth", "home", "root")}, "expected": x["ran"], "end": x["end"],
                                   "did": y["did"], "told": y["told"], "commands": y["commands"], "problems": y["problems"],
                                   "errors": y["errors"], "given to requests": y.get("opts")})
    rep.count(states=d, transitions=g, traces=len(runs), activations_compared=len(runs))
    rep.cov["ready"] = sum(x["end"] == "ready" for x in runs)
    rep.cov["failed"] = sum(x["end"] == "broken" for x in runs)
    rep.sample({"run": runs[0]})
