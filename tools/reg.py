"""reg.py PID "technique" "level note": registers a check and rebuilds MANIFEST."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + '/tools/techniques.json'
t = json.load(open(p))
t[sys.argv[1]] = [sys.argv[2], sys.argv[3]]
open(p, 'w').write("{\n" + ",\n".join(json.dumps(k) + ": " + json.dumps(t[k]) for k in sorted(t)) + "\n}\n")
subprocess.check_call([sys.executable, V + '/tools/mkmanifest.py'])
