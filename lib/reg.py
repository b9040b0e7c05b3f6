"""reg.py ID cmd "technique" "note": adds a check to checks.json and rewrites the manifest."""
import json, subprocess, sys
p="/verif/lib/checks.json"; d=json.load(open(p))
d[sys.argv[1]]={"cmd":sys.argv[2],"technique":sys.argv[3],"note":sys.argv[4]}
json.dump({k:d[k] for k in sorted(d)},open(p,"w"),indent=1)
subprocess.run([sys.executable,"/verif/lib/mkprops.py"],check=True)
subprocess.run([sys.executable,"/verif/lib/mkmanifest.py"],check=True)
