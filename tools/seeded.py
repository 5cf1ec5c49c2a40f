#!/usr/bin/env python3
"""Run the checks against the planted bugs: seeded.py [-j N] [-t TIER] [-s SEED] [ID...]; prints one line per bug
(caught or MISSED, the keys reported). With --table FILE also writes a markdown table. Not used by any check."""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = argparse.ArgumentParser(); a.add_argument("-j", type=int, default=2); a.add_argument("-t", default="quick"); a.add_argument("-s", default="1"); a.add_argument("--table"); a.add_argument("--dir", default=os.path.join(ROOT, "seeded")); a.add_argument("ids", nargs="*")
o = a.parse_args()

def one(i):
    d = os.path.join(o.dir, i); meta = json.load(open(os.path.join(d, "meta.json"))); p = meta["property"]
    w = tempfile.mkdtemp(prefix="seeded-")
    try:
        repo = os.path.join(w, "repo"); shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns("build", "_build"))
        subprocess.run(["git", "-C", repo, "apply", os.path.join(d, "patch.diff")], check=True)
        v = os.path.join(w, "verif"); shutil.copytree(ROOT, v, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__")); os.mkdir(os.path.join(v, "evidence"))
        r = subprocess.run(["python3", os.path.join(v, "check.py"), p, o.t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED=o.s, VERIF_TIER=o.t), timeout=3000)
        t = r.stdout.decode("utf-8", "replace"); keys = []
        for m in re.finditer(r"^  (.*?) \[\w+ [^\]]*\] ", t, re.M):
            if m.group(1) not in keys: keys.append(m.group(1))
        if not keys: keys = [l for l in t.splitlines() if l.strip()][-2:]
        hit = r.returncode == 1 and ("VIOLATION property=" + p) in t
        return i, p, hit, r.returncode, keys, meta
    finally:
        shutil.rmtree(w, ignore_errors=True)

ids = o.ids or sorted(os.listdir(o.dir)); rows = []
with cf.ThreadPoolExecutor(max_workers=o.j) as ex:
    for f in cf.as_completed([ex.submit(one, i) for i in ids]):
        i, p, hit, rc, keys, meta = f.result(); rows.append((p, i, hit, keys, meta))
        print("%s %s %s rc=%d %s" % (p, i, "caught" if hit else "MISSED", rc, " | ".join(keys)[:200]), flush=True)
rows.sort()
print("%d of %d caught" % (sum(r[2] for r in rows), len(rows)))
if o.table:
    with open(o.table, "w") as t:
        t.write("| property | planted bug | caught | reported as |\n|---|---|---|---|\n")
        for p, i, hit, keys, meta in rows: t.write("| %s | %s | %s | %s |\n" % (p, i, "yes" if hit else "**no**", ", ".join("`%s`" % k for k in keys[:3]).replace("|", "\\|")))
