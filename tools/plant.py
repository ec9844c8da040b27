#!/usr/bin/env python3
"""plant.py ID PROP FILE: reads OLD/NEW/needs/breaks from a python dict file, makes seeded/ID.
usage: plant.py spec.py   where spec.py defines PLANTS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]"""
import sys, os, subprocess, json, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = sys.argv[2:]
for p in runpy.run_path(sys.argv[1])["PLANTS"]:
    if only and p["id"] not in only: continue
    d = os.path.join(V, "seeded", p["id"]); os.makedirs(d, exist_ok=True)
    t = "/tmp/plant_wt"
    shutil.rmtree(t, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", t], check=True)
    for f, old, new in p["edits"]:
        s = open(os.path.join(t, f), encoding="utf8").read()
        assert s.count(old) == 1, (p["id"], f, s.count(old), old)
        open(os.path.join(t, f), "w", encoding="utf8").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", t, "diff"], check=True, stdout=subprocess.PIPE).stdout
    open(d + "/patch.diff", "wb").write(diff)
    shutil.copy(V + "/tools/demolib/lingen.hpp", d)
    shutil.copy(V + "/tools/demolib/demo.sh", d); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(p["demo"])
    json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    b = subprocess.run(["bash", d + "/demo.sh"], cwd=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = a.returncode == 0 and b.returncode != 0
    print(p["id"], p["prop"], "OK" if ok else "BAD", "clean", a.returncode, a.stdout[-600:] if a.returncode else "", "patched", b.returncode, b.stdout[-200:])
    shutil.rmtree(t, ignore_errors=True)
