"""Writes DESIGN.md from doc/head.md, the texts of the properties, what they assume, and doc/tail.md."""
import json, os, glob
from kvc import props
from kvc.texts import T, NA
from kvc.check import harness_list, ROOT
CAUGHT = json.load(open(ROOT + '/doc/caught.json'))
out = [open(ROOT + '/doc/head.md').read(), '## Properties\n']
for id in sorted(props.PROPS):
    P, t = props.PROPS[id], T[id]
    out.append('### %s %s' % (id, t['title']))
    out.append('*%s.* %s  Quantified over: %s.' % ('Proved for all inputs' if P['level'] == 'proof' else 'Bounded where stated', t['note'] or t['mech'], t['qtext']))
    out.append('Why tests cannot settle it: %s.' % t['why'].rstrip('.'))
    for tu in P['tus']:
        h = tu.get('harnesses') or list(harness_list(os.path.join(ROOT, 'contracts', tu['file'])))
        out.append('* `contracts/%s`: %s%s' % (tu['file'], ', '.join('`%s`' % x for x in h), ' (thorough only: %s)' % ', '.join(tu['thorough_only']) if tu.get('thorough_only') else ''))
    for m in t['mech'] if type(t['mech']) is list else []: out.append('* anchored: %s in `%s`' % m)
    for b in P.get('bounded', []): out.append('* Bounded: %s' % b)
    out.append('* Assumed: ' + '; '.join(P['assumptions']) + '.')
    out.append('')
out.append('## Not applicable')
for id in sorted(NA): out.append('* **%s %s**: %s' % (id, T[id]['title'], NA[id]))
out.append('')
rows = []
for d in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(d))
    rows.append('| %s | %s | %s |' % (i, json.load(open(d))['property'], CAUGHT.get(i, 'see the replay file')))
out.append(open(ROOT + '/doc/tail.md').read().replace('SEEDS', '\n'.join(rows)))
open(ROOT + '/DESIGN.md', 'w').write('\n'.join(out))
