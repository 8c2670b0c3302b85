#!/usr/bin/env python3
"""note.py ID "technique" "note": set the manifest note of a property and regenerate MANIFEST.json"""
import json, os, subprocess, sys
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "notes.json")
n = json.load(open(f)); n[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
json.dump(dict(sorted(n.items())), open(f, "w"), indent=1)
subprocess.check_call([sys.executable, os.path.join(os.path.dirname(f), "gen_manifest.py")])
