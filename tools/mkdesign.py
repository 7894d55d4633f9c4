"""DESIGN.md = tools/design_head.md + catch table (tools/catches.txt) + unit tables (from the units)."""
import importlib.util, os, re, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('driver', V + '/lib/driver.py')
drv = importlib.util.module_from_spec(spec); spec.loader.exec_module(drv)
units = drv.load_units()
out = [open(V + '/tools/design_head.md').read().rstrip()]
cat = {}
if os.path.exists(V + '/tools/catches.txt'):
    for l in open(V + '/tools/catches.txt'):
        if l.strip():
            n, t = l.rstrip('\n').split(' ', 1); cat[n] = t
out.append('\n| planted bug | property | what it breaks | outcome of the quick check |\n|---|---|---|---|')
for n in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/' + n + '/meta.json'))
    out.append('| %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'], cat.get(n, 'not run yet')))
out.append('\n## 8. Units per property (generated)\n\nkind: *proof* = every obligation for all inputs; *loop* = with loop contract; *bounded* = bound named, not counted as proved; *thorough* = only in the thorough tier.\n')
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
for p in props:
    rows = {}
    for u in units.values():
        if p in u.props:
            rows.setdefault(u.base, []).append(u)
    if not rows:
        continue
    out.append('\n### %s\n\n| unit | function under contract | kind | callees by contract |\n|---|---|---|---|' % p)
    for b, us in rows.items():
        u = us[0]
        k = u.kind if u.kind == 'proof' else 'bounded: ' + (u.attrs.get('bound', '') if hasattr(u, 'attrs') else getattr(u, 'bound', '')).replace('_', ' ')
        if u.loopc or u.loops: k += ', loop contract'
        if getattr(u, 'tier', 'quick') != 'quick': k += ', thorough'
        rep = ', '.join(x[0] if isinstance(x, (tuple, list)) else x.split(':')[0] for x in u.replace) if u.replace else ''
        out.append('| %s%s | %s%s | %s | %s |' % (b, ' (%d cases)' % len(us) if len(us) > 1 else '', u.enforce or '(lemma)', (' + ' + ', '.join(u.covers)) if u.covers else '', k, rep))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
