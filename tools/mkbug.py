"""mkbug.py SPEC.json: write seeded/<id>/ from {"id","property","needs","what_it_breaks","edits":[[file,old,new]...],"demo":python source}."""
import json, subprocess, sys, tempfile, os, shutil
from pathlib import Path
V = Path(__file__).resolve().parent.parent
exec(open(sys.argv[1]).read())
for b in BUGS:
    d = V / "seeded" / b["id"]
    d.mkdir(parents=True, exist_ok=True)
    t = Path(tempfile.mkdtemp())
    out = ""
    try:
        files = {}
        for f, old, new in b["edits"]:
            src = files.get(f) or (Path("/repo") / f).read_text()
            assert src.count(old) == 1, (b["id"], f, src.count(old), old)
            files[f] = src.replace(old, new)
        for f, s in files.items():
            (t / "a" / f).parent.mkdir(parents=True, exist_ok=True)
            (t / "b" / f).parent.mkdir(parents=True, exist_ok=True)
            shutil.copy(Path("/repo") / f, t / "a" / f)
            (t / "b" / f).write_text(s)
            out += subprocess.run(["diff", "-u", f"a/{f}", f"b/{f}"], cwd=t, capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(t)
    (d / "patch.diff").write_text(out)
    if "sh" in b:
        (d / "demo.sh").write_text(b["sh"])
    else:
        (d / "demo.sh").write_text('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        (d / "demo.py").write_text(b["demo"].lstrip())
    for n, c in b.get("files", {}).items():
        (d / n).write_text(c)
    os.chmod(d / "demo.sh", 0o755)
    (d / "meta.json").write_text(json.dumps({k: b[k] for k in ("property", "needs", "what_it_breaks")}, indent=1) + "\n")
    print(b["id"], len(out.splitlines()))
