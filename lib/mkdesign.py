#!/opt/venv/bin/python
"""Write DESIGN.md."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = json.load(open(f'{H}/levels.json'))
NA = json.load(open(f'{H}/lib/na.json'))
props = [json.loads(l) for l in open(f'{H}/properties.jsonl')]
K = json.load(open(f'{H}/known_findings.json'))['findings']
O = json.load(open(f'{H}/lib/oracles.json'))
try:
    old = json.load(open(f'{H}/lib/figures.json'))
except OSError:
    old = {}
fig = dict(old)
seeds = {}
for d in sorted(glob.glob(f'{H}/seeded/*/meta.json')):
    m = json.load(open(d))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m['needs']))
out = [open(f'{H}/lib/design_head.md').read()]
for p in props:
    i = p['id']
    out.append(f'### {i} {p["title"]}\n')
    if i not in L:
        out.append(f'Not applicable: {NA[i]}.\n')
        continue
    l = L[i]
    try:
        e = json.load(open(f'{H}/evidence/{i}.json'))
        c = e['coverage']
        if c['proof_complete']:
            fig[i] = [c['obligations'], c['discharged'], c['paths'], round(c['solver_s'], 1), len(c['functions_under_contract']), round(e['wall_s'])]
    except OSError:
        pass
    out.append(l['note'] + '\n')
    out += [f'* proved: {s}' for s in l['specified']]
    out.append(f'* oracle of the bounded cross-check: {O[i]}')
    out.append(f'* bounds: {l["bounds"]}')
    if l['assumptions']:
        out.append('* assumed: ' + '; '.join(l['assumptions']))
    if i in fig:
        f = fig[i]
        out.append(f'* size (quick run): {f[0]} obligations, {f[2]} paths, {f[4]} functions of /repo entered, about {f[5]} s wall')
    fx = [f'{k["commit"]} ({k["what"]})' for k in K if k['property'] == i and k['status'] == 'fixed']
    op = [k['what'] for k in K if k['property'] == i and k['status'] != 'fixed']
    if fx:
        out.append('* genuine defects found and repaired: ' + '; '.join(fx))
    if op:
        out.append('* genuine defects known and not repaired: ' + '; '.join(op))
    if i in seeds:
        out.append('* planted changes, all caught by this check with a replayed input: ' + '; '.join(f'`{s}` (needs: {n})' for s, n in seeds[i]))
    out.append('')
out.append(open(f'{H}/lib/design_tail.md').read())
json.dump(fig, open(f'{H}/lib/figures.json', 'w'), indent=1)
open(f'{H}/DESIGN.md', 'w').write('\n'.join(out))
print(len(seeds), 'properties with seeds;', [p['id'] for p in props if p['id'] in L and p['id'] not in seeds], 'without')
