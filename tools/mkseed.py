#!/usr/bin/env python3
"""mkseed.py: writes /verif/seeded/<id>/ from a list of textual edits.
usage: mkseed.py SPEC.py   where SPEC defines ID, PROP, NEEDS, BREAKS,
EDITS = [(file, old, new)], and DEMO (python source using ptydemo)."""
import sys, os, json, subprocess, shutil, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(here, "seeded", g["ID"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.check_call(["git", "-C", w, "init", "-q"])
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s; git -C %s add -A; git -C %s -c user.name=x -c user.email=x commit -qm x" % (w, w, w), shell=True)
    for f, old, new in g["EDITS"]:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (g["ID"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w, "diff"]).decode()
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.rmtree(w)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.copy(os.path.join(here, "tools/seedlib/ptydemo.py"), d)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    open(os.path.join(d, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom ptydemo import *\n" + g["DEMO"])
    print("wrote", d)
