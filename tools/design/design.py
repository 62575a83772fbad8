import importlib, json, os, sys
sys.path.insert(0, '/verif')
P = {}
for l in open('/verif/properties.jsonl'):
    d = json.loads(l); P[d['id']] = d
HEAD = open('/verif/tools/design/design_head.md').read()
NOTES = json.load(open('/verif/tools/design/design_notes.json'))
out = [HEAD]
out.append('## Per property\n')
out.append('Costs are wall-clock of the quick tier on 8 idle cores. "cases" are numbers of generated situations in the quick tier; thorough runs go to many times that (see CONFIG in each module), up to 25 minutes. "deciding floor" counters are the minimum number of oracle decisions of each kind: below them the check exits 2 rather than claim anything.\n')
for p in sorted(P):
    m = importlib.import_module('pkverif.checks.' + p.lower())
    q = m.CONFIG['quick']
    ev = f'/verif/evidence/{p}.json'
    n = NOTES[p]
    out.append(f'### {p} {P[p]["title"]}\n')
    out.append(f'*Oracle*: {m.ORACLE}.\n')
    out.append(f'*Workload*: {n["w"]} ({q["cases"]} cases quick; families {", ".join(dict.fromkeys(f[0].rstrip("2345") for f in m.FAMILIES))}; deciding floor {", ".join(f"{k} {v}" for k, v in q["min"].items())}.)\n')
    out.append(f'*Why tests cannot settle it*: {n["t"]}\n')
    if n.get('l'):
        out.append(f'*Bounds*: {n["l"]}\n')
    a = getattr(m, 'ASSUMPTIONS', None)
    if a:
        out.append('*Assumptions*: ' + '; '.join(a) + '.\n')
out.append(open('/verif/tools/design/design_tail.md').read())
rows = []
for d in sorted(os.listdir('/verif/seeded')):
    meta = json.load(open(f'/verif/seeded/{d}/meta.json'))
    rows.append(f'| {d} | {meta["property"]} | {meta["needs"]} |')
out.append('| change | caught by | needs |\n|---|---|---|\n' + '\n'.join(rows) + '\n')
open('/verif/DESIGN.md', 'w').write('\n'.join(out))
