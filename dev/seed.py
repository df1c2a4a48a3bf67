#!/usr/bin/env python3
"""Development aid: plant a bug and validate it.
usage: seed.py new ID PROPERTY NEEDS BREAKS FILE OLD NEW [FILE OLD NEW...]   (demo.sh must already be in /verif/seeded/ID)
       seed.py check ID..."""
import json, os, subprocess, sys
R, S = "/repo", "/verif/seeded"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b


def tests():
    r = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
    return json.load(open("/tmp/seed_out.json")), r


def build():
    r = sh("bash /opt/vp/build.sh")
    return r.returncode == 0, r.stdout[-1500:] + r.stderr[-1500:]


def demo(i):
    r = sh(f"timeout 300 bash {S}/{i}/demo.sh", cwd=R)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def check(i):
    if sh(f"git -C {R} status --porcelain").stdout:
        sys.exit("repo dirty")
    d = f"{S}/{i}"
    pid = json.load(open(f"{d}/meta.json"))["property"]
    d0 = demo(i)
    if d0[0] != 0:
        print(i, "demo fails on the unchanged tree:", d0[1])
        return
    r = sh(f"git -C {R} apply {d}/patch.diff")
    if r.returncode:
        print(i, "patch does not apply", r.stderr)
        return
    try:
        ok, o = build()
        if not ok:
            print(i, "BUILD FAILED", o)
            return
        t, _ = tests()
        d1 = demo(i)
        c = sh(f"timeout 900 python3 /verif/checks/{pid.lower()}.py", env=dict(os.environ, VERIF_EVIDENCE="/tmp/seed_ev"))
        fails = [k for k in json.dumps(t).split('"') if 0]
        print(f"{i}: demo base rc 0, patched rc {d1[0]}; tests {json.dumps(t)[:300]}; check {pid} rc {c.returncode}\n   demo: {d1[1][:200]!r}\n   check: {c.stdout[:300]!r} {c.stderr[-200:]!r}")
    finally:
        sh(f"git -C {R} checkout -- .")
        build()


if sys.argv[1] == "new":
    i, pid, needs, breaks = sys.argv[2:6]
    rest = sys.argv[6:]
    if sh(f"git -C {R} status --porcelain").stdout:
        sys.exit("repo dirty")
    for k in range(0, len(rest), 3):
        f, o, n = rest[k:k + 3]
        p = f"{R}/{f}"
        s = open(p).read()
        o, n = o.replace("\\n", "\n").replace("\\t", "\t"), n.replace("\\n", "\n").replace("\\t", "\t")
        if s.count(o) < 1:
            sh(f"git -C {R} checkout -- .")
            sys.exit(f"pattern not found: {o}")
        open(p, "w").write(s.replace(o, n, 1))
    open(f"{S}/{i}/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
    sh(f"git -C {R} checkout -- .")
    json.dump({"property": pid, "needs": needs, "what_it_breaks": breaks}, open(f"{S}/{i}/meta.json", "w"), indent=1)
    check(i)
else:
    for i in sys.argv[2:]:
        check(i)
