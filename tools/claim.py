"""claim.py ID 'note' [level]: record a claim in claims.json and rebuild the manifest."""
import sys, json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(here, 'claims.json'); d = json.load(open(p))
for i in range(1, len(sys.argv) - 1, 2):
    lv, _, note = sys.argv[i + 1].partition('|') if '|' in sys.argv[i + 1][:12] else ('proof', '', sys.argv[i + 1])
    d[sys.argv[i]] = dict(level=lv, note='All inputs and all iterations, over the reals (rounding not modelled); ' + note)
json.dump(dict(sorted(d.items())), open(p, 'w'), indent=1)
subprocess.run([sys.executable, os.path.join(here, 'mkmanifest.py')])
