import json, sys, subprocess, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
p = 'tools/levels.json'; L = json.load(open(p))
L[sys.argv[1]] = {"level": sys.argv[2], "technique": "contracts discharged by a VC generator for the Python source (PyVC: polynomial normal forms + z3)" + (sys.argv[4] if len(sys.argv) > 4 else "; bounded contract checking beside it"), "note": sys.argv[3]}
json.dump(L, open(p, 'w'), indent=1)
subprocess.run(["python3", "tools/mkmanifest.py"], check=True)
