"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(here + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append(f'| {os.path.basename(os.path.dirname(m))} | {d["property"]} | {d["needs"]} |')
lines = open(here + '/DESIGN.md').read().split('\n')
at = [i for i, l in enumerate(lines) if re.match(r'\| \S+ \| C\d\d \| ', l)]
assert at == list(range(at[0], at[-1] + 1)), at
lines[at[0]:at[-1] + 1] = rows
open(here + '/DESIGN.md', 'w').write('\n'.join(lines))
