"""mkseed.py: helper to write a planted bug: seed(id, prop, [(file, old, new)], demo, needs, breaks)."""
import difflib, json, pathlib
R = pathlib.Path("/repo"); S = pathlib.Path(__file__).resolve().parents[1] / "seeded"
def seed(id, prop, edits, demo, needs, breaks, libs=()):
    d = S / id; d.mkdir(parents=True, exist_ok=True)
    for lib in libs:                       # support code, copied beside the demonstration
        t = (S.parent / "qmmc" / f"{lib}.py").read_text()
        (d / f"demo_{lib}.py").write_text(
            __import__("re").sub(r"^from \. import (.*)$", lambda m: "\n".join(
                f"import demo_{x.strip()} as {x.strip()}" for x in m[1].split(",")), t, flags=8))
    files = {}
    for f, old, new in edits:
        t = files.get(f, (R / f).read_text())
        assert t.count(old) == 1, (id, f, t.count(old), old)
        files[f] = t.replace(old, new)
    out = ""
    for f, new in files.items():
        out += f"diff --git a/{f} b/{f}\n" + "".join(difflib.unified_diff(
            (R / f).read_text().splitlines(True), new.splitlines(True), f"a/{f}", f"b/{f}"))
    (d / "patch.diff").write_text(out)
    (d / "demo.py").write_text(demo.lstrip("\n"))
    (d / "demo.sh").write_text('#!/bin/bash\nexec env OMP_NUM_THREADS=4 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg '
                               'PYTHONPATH=/repo /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    (d / "demo.sh").chmod(0o755)
    (d / "meta.json").write_text(json.dumps(dict(property=prop, needs=needs, what_it_breaks=breaks), indent=1) + "\n")
