"""writes SEEDED.md from seeded/*/meta.json (run by hand; output committed)"""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
out = ["""## Planted bugs (`seeded/`)

Each was written from the text of a property and the code, passes the 61 tests, and has a demonstration. All are
caught by the quick check of their property. `substep-from-step-size` was missed at first: step sizes above the limit
were not in the alphabet of C11.
"""]
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    out.append(f"* {os.path.basename(d)} ({m['property']}): {m['what_it_breaks']}; needs {m['needs']}")
open(os.path.join(HERE, "SEEDED.md"), "w").write("\n".join(out) + "\n")
