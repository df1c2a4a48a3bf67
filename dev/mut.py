#!/usr/bin/env python3
"""Development aid: apply textual mutations to a scratch copy of /repo and run one check.
usage: mut.py CHECK FILE 'OLD' 'NEW' [FILE OLD NEW ...]"""
import os, subprocess, sys
SUF = os.environ.get("MUT", "")
WT, WB = "/tmp/wt" + SUF, "/tmp/wtb" + SUF
VD = os.environ.get("MUTVERIF", "/verif")
if not os.path.isdir(WT):
    subprocess.check_call(["cp", "-a", "/repo", WT])
subprocess.run(["git", "-C", WT, "fetch", "-q", "/repo", "HEAD"], check=True)
subprocess.run(["git", "-C", WT, "reset", "-q", "--hard", "FETCH_HEAD"], check=True)
chk, rest = sys.argv[1], sys.argv[2:]
for i in range(0, len(rest), 3):
    f, o, n = rest[i:i + 3]
    p = f"{WT}/{f}"
    s = open(p).read()
    o, n = o.encode().decode("unicode_escape"), n.encode().decode("unicode_escape")
    if s.count(o) < 1:
        sys.exit(f"pattern not found in {f}: {o}")
    s = s.replace(o, n, 1)
    open(p, "w").write(s)
env = dict(os.environ, VERIF_REPO=WT, VERIF_BUILD=WB, VERIF_EVIDENCE="/tmp/wte" + SUF)
if not os.path.isdir(WB):
    os.makedirs(WB)
    subprocess.run("cp -a /verif/.build/tool-* " + WB, shell=True)
for c in chk.split(","):
    r = subprocess.run(["python3", f"{VD}/checks/{c}.py"], capture_output=True, text=True, env=env)
    print(c, "rc", r.returncode, "::", (r.stdout.replace(WT, "") + r.stderr[-600:])[:900])
subprocess.run(["git", "-C", WT, "checkout", "-q", "--", "."])
