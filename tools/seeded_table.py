#!/usr/bin/env python3
"""Runs the quick check of its property against every planted bug in seeded/ (in scratch copies of /repo and /verif) and writes
the table of DESIGN.md. Not used by any check."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = tempfile.mkdtemp(prefix="seeded")
try:
    subprocess.run("git -C /repo archive --prefix=repo/ HEAD | tar x -C %s" % T, shell=True, check=True)
    subprocess.run("git -C %s archive --prefix=verif/ HEAD | tar x -C %s" % (V, T), shell=True, check=True)
    for sub in ("mri", "CrashCatcher"):
        if os.path.isdir("/repo/" + sub) and not os.path.isdir(T + "/repo/" + sub): shutil.copytree("/repo/" + sub, T + "/repo/" + sub)
    env = dict(os.environ, VERIF_REPO=T + "/repo", VERIF_BUILD=T + "/build", VERIF_SEED="1", VERIF_TIER="quick")
    rows = []
    for i in sorted(os.listdir(V + "/seeded")):
        d = V + "/seeded/" + i
        meta = json.load(open(d + "/meta.json"))
        p = meta["property"]
        subprocess.run(["patch", "-s", "-p1", "--binary", "-i", d + "/patch.diff"], cwd=T + "/repo", check=True)
        r = subprocess.run([sys.executable, "check.py", p], cwd=T + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        subprocess.run(["patch", "-s", "-R", "-p1", "--binary", "-i", d + "/patch.diff"], cwd=T + "/repo", check=True)
        hit = r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout
        k = re.findall(r"^([a-z-]+): ", r.stdout, re.M)
        rows.append("| %s | %s | %s | %s |" % (i, meta["needs"].replace("|", "/"), p, ("caught (%s)" % k[0] if k else "caught") if hit else "MISSED (exit %d)" % r.returncode))
        print(rows[-1], flush=True)
finally:
    shutil.rmtree(T)
s = open(V + "/DESIGN.md").read()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->\n"
t = "| planted bug | needs | check | quick result |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(V + "/DESIGN.md", "w").write(s[:s.index(a) + len(a)] + t + s[s.index(b):])
