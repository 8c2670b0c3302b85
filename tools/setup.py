#!/usr/bin/env python3
"""Checks that the tools are there and that every specification parses."""
import os, subprocess, sys, tempfile, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
d = tempfile.mkdtemp()
for f in os.listdir(V + "/spec"):
    if f.endswith(".tla"):
        shutil.copy(V + "/spec/" + f, d)
def one(f):
    return f, subprocess.run(["java", "-cp", CP, "tla2sany.SANY", f], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
bad = 0
with cf.ThreadPoolExecutor(6) as ex:
    for f, r in ex.map(one, sorted(x for x in os.listdir(d) if x.endswith(".tla"))):
        if r.returncode != 0 or "Semantic errors" in r.stdout or "Parse Error" in r.stdout or "Abort" in r.stdout:
            print(f, r.stdout); bad = 1
shutil.rmtree(d)
subprocess.run(["g++", "--version"], check=True, stdout=subprocess.DEVNULL)
print("setup ok" if not bad else "setup failed")
sys.exit(bad)
