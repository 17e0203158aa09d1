"""Fills the generated parts of DESIGN.md (from design/*.md, known_findings.txt and seeded/)."""
import importlib, json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
text = (V / "design" / "DESIGN.in.md").read_text()
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
out = []
for p in props:
    f = V / "qmmc" / "checks" / f"{p['id'].lower()}.py"
    out.append(f"### {p['id']} {p['title']}\n")
    if not f.exists():
        out.append("No check built.\n"); continue
    m = importlib.import_module(f"qmmc.checks.{p['id'].lower()}")
    out.append(f"Space: {p['quantifier']['text']}.\n")
    out.append(f"Decision ({m.LEVEL}): {m.RULE}\n")
    note = V / "design" / f"{p['id']}.md"
    if note.exists():
        out.append(note.read_text().strip() + "\n")
    out.append("Groups: " + ", ".join(f"`{g.name}`" for g in m.groups()) + ".")
    a = getattr(m, "ASSUMPTIONS", [])
    out.append("Assumes: " + ("; ".join(a) if a else "nothing beyond the bounds") + ".\n")
fixes = "\n".join("* " + l for l in (V / "known_findings.txt").read_text().splitlines()
                  if l.startswith(("fixed:", "KNOWN")))
caught = json.loads((V / "design" / "caught.json").read_text())
seeds = ["| change | property | what it breaks | caught by |", "|---|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    seeds.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} (needs {m['needs']}) | {caught.get(d.name, '?')} |")
text = text.replace("@@PROPS@@", "\n".join(out)).replace("@@FIXES@@", fixes).replace("@@SEEDS@@", "\n".join(seeds))
(V / "DESIGN.md").write_text(text)
