"""Write kvc/baseline.json: fingerprints of the code on which the obligations were last found
to hold.  An obligation that stays undecided on that very code is a solver out of time; on other code
it is an obligation that is not discharged any more."""
import os, sys, json, tempfile, shutil
sys.path.insert(0, '/verif')
from kvc import props
from kvc.check import compile_tu, fingerprint, tukey, ROOT
from concurrent.futures import ThreadPoolExecutor
need = set()
for P in props.PROPS.values():
    for tu in P['tus']:
        need.add((os.path.join(ROOT, 'contracts', tu['file']), tuple(tu.get('flags', ()))))
        for l in tu.get('libs', ()): need.add((os.path.join('/repo', l), ()))
s = tempfile.mkdtemp()
def one(k):
    o = '%s/%s.ll' % (s, abs(hash(k)))
    e = compile_tu(k[0], k[1], o)
    if e: raise Exception(e)
    return tukey(*k), fingerprint(o)
with ThreadPoolExecutor(8) as ex: out = dict(ex.map(one, sorted(need)))
json.dump(out, open(os.path.join(ROOT, 'kvc', 'baseline.json'), 'w'), indent=1, sort_keys=True)
shutil.rmtree(s)
print(len(out))
