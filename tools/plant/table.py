"""Fill DESIGN.md's table of planted bugs from seeded/*/meta.json and
tools/plant/caught.json (id -> checks that report it)."""
import glob
import json
import os
import re

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, '..', '..')
caught = json.load(open(os.path.join(here, 'caught.json')))
rows = ['<!-- table -->', '', '| bug | property | needs | reported by |', '|---|---|---|---|']
for p in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    m = json.load(open(p))
    b = os.path.basename(os.path.dirname(p))
    rows.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'], ', '.join(caught.get(b, [])) or 'none'))
rows += ['', 'Repairs taken back (`revert:` in `tools/mutant.sh`) and the checks that report them:', '']
rows += ['- %s: %s' % (k[7:], ', '.join(v)) for k, v in sorted(caught.items()) if k.startswith('revert:')]
d = os.path.join(root, 'DESIGN.md')
s = open(d, encoding='utf-8').read()
s = re.sub(r'(@@TABLE@@|<!-- table -->.*?<!-- end -->)', lambda m: '\n'.join(rows) + '\n\n<!-- end -->', s, flags=re.S)
open(d, 'w', encoding='utf-8').write(s)
