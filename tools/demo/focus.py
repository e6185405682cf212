"""Runs the built `cargo flowistry focus` on a scratch crate and answers questions about slices by source text."""
import base64, glob, gzip, json, os, subprocess, tempfile, shutil, sys

ROOT = "/repo/target/debug"
TC = glob.glob("/root/.rustup/toolchains/nightly-2025-08-20*")[0]


def run(src, args, tool="cargo-flowistry", sub="flowistry", extra_files=None):
    d = tempfile.mkdtemp(prefix="demo")
    try:
        os.makedirs(d + "/src")
        open(d + "/src/lib.rs", "w").write(src)
        for k, v in (extra_files or {}).items():
            os.makedirs(os.path.dirname(f"{d}/{k}"), exist_ok=True)
            open(f"{d}/{k}", "w").write(v)
        if "Cargo.toml" not in (extra_files or {}):
            open(d + "/Cargo.toml", "w").write('[package]\nname = "prog"\nversion = "0.1.0"\nedition = "2024"\n[workspace]\n')
        env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="nightly-2025-08-20", SYSROOT=TC,
                   LD_LIBRARY_PATH=TC + "/lib", CARGO_NET_OFFLINE="true",
                   PATH=f"{ROOT}:/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
        for k in ("RUST_LOG", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
            env.pop(k, None)
        p = subprocess.run([f"{ROOT}/{tool}", sub] + [str(a) for a in args], cwd=d, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
        return p.returncode, p.stdout.decode(errors="replace").strip(), p.stderr.decode(errors="replace")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def decode(out):
    return json.loads(gzip.decompress(base64.b64decode(out)))


def focus(src, marker, flags=()):
    """Focus on the function whose text contains `marker`; returns [(line, text, slice)], slice a set of
    source lines (0-based); the entries are the places of the function."""
    off = src.index(marker)
    line = src.count("\n", 0, off)
    col = off - (src.rfind("\n", 0, off) + 1)
    rc, out, err = run(src, list(flags) + ["focus", "src/lib.rs", line, col])
    if rc != 0 or not out:
        sys.exit(f"no answer: {rc} {err[-500:]}")
    m = decode(out)
    if "Ok" not in m:
        sys.exit(f"error: {m}")
    lines = src.split("\n")
    res = []
    for e in m["Ok"]["place_info"]:
        r = e["range"]
        s, t = r["start"], r["end"]
        text = lines[s["line"]][s["column"]:t["column"]] if s["line"] == t["line"] else ""
        covered = set()
        for x in e["slice"]:
            covered |= set(range(x["start"]["line"], x["end"]["line"] + 1))
        res.append((s["line"], text, covered, e))
    return res


def slice_of(src, marker, place, on, flags=()):
    """Lines (as text) in the slice of the place `place` mentioned on the line containing `on`."""
    lines = src.split("\n")
    n = next(i for i, l in enumerate(lines) if on in l)
    hit = [e for e in focus(src, marker, flags) if e[0] == n and e[1] == place]
    if not hit:
        sys.exit(f"no place {place!r} on line {n}: {[(e[0], e[1]) for e in focus(src, marker, flags)]}")
    return [lines[i].strip() for e in hit for i in sorted(e[2])]


def expect(src, marker, place, on, contains=(), lacks=(), flags=()):
    s = slice_of(src, marker, place, on, flags)
    for c in contains:
        if not any(c in l for l in s):
            sys.exit(f"slice of {place} on {on!r} lacks {c!r}: {s}")
    for c in lacks:
        if any(c in l for l in s):
            sys.exit(f"slice of {place} on {on!r} has {c!r}: {s}")
