import sys, subprocess, os, json, time, shutil, importlib.util
# drv.py FILE [ids...]
spec = importlib.util.spec_from_file_location("m", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
want = sys.argv[2:]
R = os.environ.get("MBR", "/tmp/mb/r")
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if not os.path.exists(R):
    sh("cp -a /repo " + R)
for mid, prop, f, edits in m.M:
    if want and mid not in want: continue
    sh("cd %s && git checkout -q -- . && git reset -q --hard $(git -C /repo rev-parse HEAD) 2>/dev/null" % R)
    ff = f
    bad = False
    for e in edits:
        if len(e) == 3: ff, o, n = e
        else: o, n = e; 
        p = os.path.join(R, ff if len(e)==3 else f)
        s = open(p).read()
        if o not in s: print(mid, "NO MATCH", repr(o)[:80]); bad = True; break
        open(p, "w").write(s.replace(o, n, 1))
    if bad: continue
    r = sh("%s/../bin/true; /opt/venv/bin/python -c 'import sys; sys.path.insert(0,\"%s\"); import ctypeslib.clang2py'" % (R, R))
    if r.returncode: print(mid, "IMPORT FAILS", r.stderr[-300:]); continue
    for pr in prop.split(","):
        t = time.time()
        env = dict(os.environ, SIM_REPO=R, SIM_WALL="400")
        r = sh("cd /verif && ./check " + pr, env=env)
        v = [l for l in r.stdout.splitlines() if l.startswith("violation")]
        print("%-28s %s rc=%d %3ds %s" % (mid, pr, r.returncode, time.time() - t, (v[0][:170] if v else (r.stdout + r.stderr)[-200:].replace("\n", " / ") if r.returncode == 2 else "")), flush=True)
sh("cd %s && git checkout -q -- ." % R)
