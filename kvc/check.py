"""Decide one property: compile the contract files together with the current
/repo sources, generate and discharge the obligations of every harness, and on
a failure look for a concrete input that fails natively."""
import sys, os, re, json, time, shutil, tempfile, subprocess, traceback, multiprocessing as mp, random, hashlib
sys.setrecursionlimit(20000)
sys.path.insert(0, '/verif')
from kvc import props

ROOT = '/verif'
CLANG = 'clang++-18'
FLAGS = ['-std=c++14', '-I/repo', '-I/verif/contracts', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-access-control', '-gline-tables-only',
         '-include', '/verif/contracts/kvpre.h', '-w', '-S', '-emit-llvm']
PASSES = 'function(sroa,early-cse,instsimplify,simplifycfg),function(loop-simplify,lcssa)'

def compile_tu(src, flags, out):
    r = subprocess.run([CLANG] + list(flags) + FLAGS + [src, '-o', out + '.raw.ll'], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    if r.returncode: return r.stderr[-3000:]
    r = subprocess.run(['opt-18', '-S', '-passes=' + PASSES, out + '.raw.ll', '-o', out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    if r.returncode: return r.stderr[-3000:]
    os.unlink(out + '.raw.ll')
    return None

def fingerprint(ll):
    """of the code the obligations are generated from (no debug information, no file names)"""
    h = hashlib.sha256()
    for l in open(ll):
        if l[0] in '!;' or l.startswith('source_filename'): continue
        h.update(re.sub(r'(, )?![\w.]+ ![0-9]+', '', l).encode())
    return h.hexdigest()[:32]

def baseline():
    p = os.path.join(ROOT, 'kvc', 'baseline.json')
    return json.load(open(p)) if os.path.exists(p) else {}

def tukey(src, flags): return ' '.join([os.path.basename(src)] + [f.rsplit('/', 1)[-1] for f in flags])

def harness_list(path):
    """names, and per harness the kv_cover labels"""
    t = open(path).read()
    parts = re.split(r'^HARNESS\((\w+)\)', t, flags=re.M)
    out = {}
    for i in range(1, len(parts), 2):
        body = parts[i + 1]
        # the body ends at the first line that is just a closing brace
        e = re.search(r'^}', body, flags=re.M)
        body = body[:e.start()] if e else body
        if re.match(r'[ \t]*\{[^\n]*\}[ \t]*$', body.split('\n', 1)[0]): body = body.split('\n', 1)[0]
        out[parts[i]] = re.findall(r'kv_cover\("([^"]*)"\)', body)
    # macros that define harnesses: HARNESS names are then listed in a comment "// harness: a b c"
    for m in re.finditer(r'^// harness: (.*)$', t, flags=re.M):
        for n in m.group(1).split(): out.setdefault(n, [])
    return out

def worker(conn, ll, liblls, name, covers, opt):
    try:
        from kvc import ir, engine, models, native
        from kvc.sym import Unsupported
        import z3
        mod = ir.Module(open(ll).read(), os.path.basename(ll))
        cache = {}
        order = []
        def libs(fn):
            for p in liblls:
                if p not in cache:
                    cache[p] = ir.Module(open(p).read(), os.path.basename(p))
                m = cache[p]
                f = m.funcs.get(fn)
                if f is not None and f.blocks is not None: return m
                al = m.aliases.get(fn)
                if al is not None: return m
            return None
        def mk(**kw):
            return engine.Engine(mod, libs, timeout=opt['timeout'], deadline=time.time() + kw.pop('budget'), **kw)
        res = {'name': name, 'fails': [], 'undecided': [], 'obl': 0, 'dis': 0, 'funcs': [], 'trusted': [], 'loops': 0, 'be': {}, 'solver_s': 0.0,
               'inputs': [], 'completed': 0, 'kinds': {}, 'vac': []}
        E = mk(budget=opt['budget'])
        t0 = time.time()
        try:
            E.run_harness('H_' + name)
        except (Unsupported, engine.Budget, engine.UnknownFn) as e:
            res['undecided'].append('%s: %s' % (type(e).__name__, e))
        except (RecursionError, z3.Z3Exception, KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError) as e:
            res['undecided'].append('engine: %s: %s %s' % (type(e).__name__, e, traceback.format_exc().strip().split('\n')[-3:]))
        seen = set()
        for f in E.failures:
            k = (f.kind, f.loc, f.fn, f.msg)
            if k in seen: continue
            seen.add(k)
            (res['undecided'] if f.kind == 'undecided' else res['fails']).append(str(f))
        for k, (a, b, c) in E.obl.items():
            res['obl'] += 1
            if a and not b and not c: res['dis'] += 1
            res['kinds'][k[0]] = res['kinds'].get(k[0], 0) + 1
        for f in E.funcs_run:
            l = next((i.dbg for b in f.blocks.values() for i in b.insts if i.dbg), None) if f.blocks else None
            if l is not None and f.mod.loc(l).startswith('/repo/'):
                res['funcs'].append((engine.demangle(f.name), f.name))
        src = {}
        res['funcs'] = sorted(set(n for n, r in res['funcs']))
        res['trusted'] = sorted(E.trusted)
        res['loops'] = len(E.loopinfo)
        res['be'] = dict(E.stats.be)
        res['solver_s'] = E.stats.t
        res['completed'] = E.completed
        if not res['undecided'] and not res['fails']:
            if E.completed == 0: res['vac'].append('no execution satisfies the precondition')
            for c in covers:
                if not E.covers.get(c): res['vac'].append('not reachable: ' + c)
            if not any(k.startswith('assert:') for k in E.covers) and not res['obl']: res['vac'].append('no postcondition evaluated')
        res['t'] = time.time() - t0
        # concrete inputs for what failed
        if res['fails'] or res['undecided']:
            for f in E.failures:
                if f.model is not None:
                    x = native.model_inputs(E, f)
                    if x: res['inputs'].append((str(f), x, 'model'))
                if len(res['inputs']) >= 3: break
            conn.send(('partial', res))
            for k, ms in opt['bmc']:
                try:
                    B = mk(budget=opt['bmc_budget'], bmc=k, maxsize=ms)
                    B.run_harness('H_' + name)
                    ok = True
                except Exception as e:
                    ok = False
                for f in B.failures:
                    if f.model is not None:
                        x = native.model_inputs(B, f)
                        if x: res['inputs'].append((str(f), x, 'bounded search, unroll %d' % k))
                        if len(res['fails']) == 0: res.setdefault('bmcfail', str(f))
                if any(f.model is not None for f in B.failures): break
                res['bmc'] = {'unroll': k, 'maxsize': ms, 'complete': ok and not B.failures, 'paths': B.completed}
        conn.send(('done', res))
    except Exception as e:
        conn.send(('done', {'name': name, 'fails': [], 'undecided': ['engine: ' + traceback.format_exc()[-800:]], 'obl': 0, 'dis': 0, 'funcs': [], 'trusted': [],
                            'loops': 0, 'be': {}, 'solver_s': 0.0, 'inputs': [], 'completed': 0, 'kinds': {}, 'vac': [], 't': 0}))

def run_all(jobs, ncpu, deadline):
    """jobs: list of (key, args, limit)"""
    pend = list(jobs)
    live = {}
    out = {}
    while pend or live:
        while pend and len(live) < ncpu:
            key, args, limit = pend.pop(0)
            a, b = mp.Pipe()
            p = mp.Process(target=worker, args=(b,) + args)
            p.start()
            b.close()
            live[key] = (p, a, time.time() + limit)
        time.sleep(0.02)
        for key in list(live):
            p, a, lim = live[key]
            done = False
            try:
                while a.poll():
                    tag, r = a.recv()
                    out[key] = r
                    if tag == 'done': done = True
            except EOFError:
                done = True
            if not done and not p.is_alive() and not a.poll(): done = True
            if not done and time.time() > min(lim, deadline):
                p.terminate()
                p.join(2)
                if p.is_alive(): p.kill()
                if key not in out: out[key] = None
                done = True
            if done:
                p.join(5)
                if p.is_alive(): p.kill()
                out.setdefault(key, None)
                del live[key]
    return out

EMPTY = {'fails': [], 'undecided': ['out of time'], 'obl': 0, 'dis': 0, 'funcs': [], 'trusted': [], 'loops': 0, 'be': {}, 'solver_s': 0.0,
         'inputs': [], 'completed': 0, 'kinds': {}, 'vac': [], 't': 0}

def known_findings():
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN property=(\S+) obligation=(\S+) :: (.*)$', l.strip())
            if m: out.append(m.groups())
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for i, a in enumerate(sys.argv):
        if a == '--tier': tier = sys.argv[i + 1]
    only = None
    for i, a in enumerate(sys.argv):
        if a == '--only': only = sys.argv[i + 1].split(',')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    quick = tier != 'thorough'
    P = props.PROPS[pid]
    T0 = time.time()
    total = 700 if quick else 3000
    deadline = T0 + total
    opt = {'timeout': 15000 if quick else 60000, 'budget': P.get('budget', 240) if quick else 1500, 'bmc': [(3, 4), (7, 9)] if quick else [(3, 4), (7, 9), (14, 20)],
           'bmc_budget': 45 if quick else 300}
    scratch = tempfile.mkdtemp(prefix='kvc_%s_' % pid)
    ncpu = int(os.environ.get('KVC_CPU', '8'))
    try:
        rc = decide(pid, P, quick, tier, seed, T0, deadline, opt, scratch, ncpu, only)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def decide(pid, P, quick, tier, seed, T0, deadline, opt, scratch, ncpu, only):
    from kvc.native import Native
    # ---- compile everything from the current tree
    procs = []
    lls = {}
    need = {}
    for tu in P['tus']:
        need[(os.path.join(ROOT, 'contracts', tu['file']), tuple(tu.get('flags', ())))] = None
        for l in tu.get('libs', ()): need[(os.path.join('/repo', l), ())] = None
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        futs = {}
        for i, k in enumerate(need):
            out = os.path.join(scratch, 'm%d.ll' % i)
            lls[k] = out
            futs[k] = ex.submit(compile_tu, k[0], k[1], out)
        errs = {k: f.result() for k, f in futs.items()}
    jobs = []
    natives = {}
    meta = {}
    notes = []
    bounded = []
    violations = []
    undecided = []
    base = baseline()
    changed = set()       # contract files whose code differs from the code that was proved when they were written
    for tu in P['tus']:
        path = os.path.join(ROOT, 'contracts', tu['file'])
        k = (path, tuple(tu.get('flags', ())))
        hl = harness_list(path)
        names = [n for n in (tu.get('harnesses') or hl) if only is None or n in only]
        tl = [n for n in names if not (quick and n in tu.get('thorough_only', ()))]
        nl = [os.path.join('/repo', l) for l in tu.get('native_libs', tu.get('libs', ()))]
        for l in [k] + [(os.path.join('/repo', l), ()) for l in tu.get('libs', ())]:
            if not errs[l] and base.get(tukey(*l)) not in (None, fingerprint(lls[l])): changed.add(tu['file'])
        natives[tu['file']] = Native(scratch, path, list(hl), nl, tu.get('flags', ()), tu.get('link', ()), tu.get('batch', 400))
        if errs[k]:
            notes.append('extraction of %s failed: %s' % (tu['file'], errs[k][-600:]))
            undecided.append(('extract:' + tu['file'], tu))
            continue
        ll = [lls[(os.path.join('/repo', l), ())] for l in tu.get('libs', ()) if not errs[(os.path.join('/repo', l), ())]]
        for l in tu.get('libs', ()):
            if errs[(os.path.join('/repo', l), ())]: notes.append('extraction of %s failed' % l)
        for n in tl:
            key = (tu['file'], n)
            meta[key] = tu
            jobs.append((key, (lls[k], ll, n, hl.get(n, []), opt), opt['budget'] + opt['bmc_budget'] * len(opt['bmc']) + 30))
    slow = P.get('slow', ())
    jobs.sort(key=lambda j: 0 if j[0][1] in slow else 1)
    if os.environ.get('KVC_T'): print('compiled %.1f' % (time.time() - T0))
    res = run_all(jobs, ncpu, deadline)
    if os.environ.get('KVC_T'): print('proved %.1f' % (time.time() - T0))
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    known = [k for k in known_findings() if k[0] == pid]
    knownhit = []
    # ---- native cross-check of every harness (bounded, not counted as proof)
    nat_jobs = []
    for key in meta:
        tu = meta[key]
        if tu.get('native') is False: continue
        if key[1] in tu.get('no_native', ()): continue
        nat_jobs.append(key)
    if nat_jobs:
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda f: natives[f].build(), sorted(set(k[0] for k in nat_jobs))))
    secs = P.get('native_secs', 0.7) if quick else 20
    def nat(key):
        r = res.get(key) or EMPTY
        s = secs
        bad = bool(r['fails'] or r['undecided'])
        if bad: s = 6 if quick else 40
        outp = os.path.join(scratch, 'nat_%s_%s.in' % (key[0].replace('.', '_'), key[1]))
        st, o = natives[key[0]].random(key[1], s, seed, outp)
        return key, st, o, outp
    natres = {}
    if nat_jobs:
        with ThreadPoolExecutor(8) as ex:
            for key, st, o, outp in ex.map(nat, nat_jobs): natres[key] = (st, o, outp)
    # ---- an undecided harness without a failing run gets a second, longer attempt
    again = [j for j in jobs if (res.get(j[0]) or EMPTY)['undecided'] and not (res.get(j[0]) or EMPTY)['fails'] and natres.get(j[0], ('',))[0] != 'fails']
    left = (560 if quick else 2600) - (time.time() - T0)
    if again and left > 60 and only is None:
        o2 = dict(opt, timeout=3 * opt['timeout'], budget=left - 30, bmc=[])
        res2 = run_all([(k, a[:4] + (o2,), left) for k, a, b in again], ncpu, time.time() + left)
        for k in res2:
            if res2[k] and (res2[k]['fails'] or not res2[k]['undecided']): res[k] = res2[k]
    tot = dict(obl=0, dis=0, loops=0, solver_s=0.0, paths=0)
    be = {}
    funcs = set()
    trusted = set()
    kinds = {}
    per = []
    for key in meta:
        r = res.get(key) or EMPTY
        tot['obl'] += r['obl']; tot['dis'] += r['dis']; tot['loops'] += r['loops']; tot['solver_s'] += r['solver_s']; tot['paths'] += r['completed']
        for k2, v in r['be'].items(): be[k2] = be.get(k2, 0) + v
        for k2, v in r['kinds'].items(): kinds[k2] = kinds.get(k2, 0) + v
        funcs.update(r['funcs']); trusted.update(r['trusted'])
        per.append({'harness': key[1], 'obligations': r['obl'], 'discharged': r['dis'], 'paths': r['completed'], 'seconds': round(r.get('t', 0), 2),
                    'failed': r['fails'][:4], 'undecided': r['undecided'][:3], 'vacuity': r['vac']})
        nst = natres.get(key)
        problem = r['fails'] or r['vac']
        bmcf = r.get('bmcfail')
        if not problem and not r['undecided'] and not (nst and nst[0] == 'fails'): continue
        label = key[1]
        # known findings are identified by harness and obligation text
        what = (r['fails'] + r['vac'] + ([bmcf] if bmcf else []) + (['native run: ' + nst[1].strip()[-200:]] if nst and nst[0] == 'fails' else []))
        found = None
        if meta[key].get('native') is not False:
            for msg, txt, how in r['inputs']:
                p = os.path.join(scratch, 'try.in')
                open(p, 'w').write(txt)
                st, o = natives[key[0]].replay(key[1], p)
                if st == 'fails':
                    found = (msg, txt, how, o)
                    break
        if not found and nst and nst[0] == 'fails':
            txt = ''
            if os.path.exists(nst[2]): txt = open(nst[2]).read()
            found = (what[0] if what else 'native run', txt, 'bounded native run', nst[1])
        if not problem and not found:
            if r['undecided'] and key[0] in changed:
                # the code is not the code that was proved, and the proof of the changed code fails
                undecided.append((key[1], r))
                problem = True
                what = ['not discharged any more: ' + w for w in r['undecided']]
        if not problem and not found:
            if r['undecided']:
                undecided.append((key[1], r))
                bounded.append('%s: undecided (%s); bounded stand-in: native random runs %s, bounded search %s' %
                               (key[1], r['undecided'][0][:300], nst[1].strip()[-80:] if nst else 'none', r.get('bmc')))
            continue
        kf = [k for k in known if k[1] == label]
        if kf and found is not None and kf[0][2]:
            pass
        rp = os.path.join(rdir, '%s_%s.txt' % (pid, label))
        with open(rp, 'w') as f:
            f.write('property %s, harness %s in contracts/%s\n' % (pid, label, key[0]))
            f.write('failed obligations:\n' + ''.join('  %s\n' % w for w in what))
            if r['undecided']: f.write('undecided:\n' + ''.join('  %s\n' % w for w in r['undecided'][:5]))
            if found:
                f.write('failing input (%s), replayed natively against the real code:\n%s\noutput of the native run:\n%s\n' % (found[2], found[1][:200000], found[3][-6000:]))
            else:
                f.write('no failing input found; verifier output:\n' + json.dumps(r, indent=1, default=str)[:20000])
        violations.append({'harness': label, 'obligations': what[:6], 'replay': rp, 'input': bool(found)})
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if found else ' no-failing-input-found'))
        for w in what[:4]: print('  obligation: %s' % w)
        sys.stdout.flush()
    # ---- extraction failures: bounded stand-in over the public interface
    apis = P.get('api')
    if any(k.startswith('extract:') for k, _ in undecided) and apis:
        path = os.path.join(ROOT, 'contracts', apis['file'])
        hl = harness_list(path)
        N = Native(scratch, path, list(hl), [os.path.join('/repo', l) for l in apis.get('libs', ())])
        for n in hl:
            outp = os.path.join(scratch, 'api_%s.in' % n)
            st, o = N.random(n, 5, seed, outp)
            bounded.append('api %s: %s %s' % (n, st, o.strip()[-100:] if o else ''))
            if st == 'fails':
                rp = os.path.join(rdir, '%s_%s.txt' % (pid, n))
                open(rp, 'w').write('property %s, public-interface run %s\n%s\n%s' % (pid, n, o, open(outp).read() if os.path.exists(outp) else ''))
                violations.append({'harness': n, 'obligations': [o[-200:]], 'replay': rp, 'input': True})
                print('VIOLATION property=%s replay=%s' % (pid, rp))
    for k, tu in undecided:
        if not k.startswith('extract:') or violations: continue
        # the contracts cannot be put on the changed code: nothing of it was proved
        rp = os.path.join(rdir, '%s_%s.txt' % (pid, k.replace(':', '_')))
        open(rp, 'w').write('property %s: the contracts of contracts/%s do not fit the current code, none of their obligations could be generated\n%s\n' % (pid, tu['file'], '\n'.join(notes)))
        violations.append({'harness': k, 'obligations': ['obligations of contracts/%s' % tu['file']], 'replay': rp, 'input': False})
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    repo_funcs = sorted(funcs)      # those defined in /repo
    wall = time.time() - T0
    lvl = P.get('level', 'proof')
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': lvl,
        'coverage': {
            'obligations': tot['obl'], 'discharged': tot['dis'],
            'checker_cmd': 'python3-vt -m kvc.check %s --tier %s' % (pid, tier),
            'trusted_base': ['kvc (LLVM-IR verification condition generator in /verif/kvc)', 'clang 18 front end and opt sroa/early-cse/instsimplify/simplifycfg/loop-simplify/lcssa',
                             'z3 5.x (bit-vector and linear-integer back ends), cvc5 1.1.2'] + sorted(trusted),
            'functions_under_contract': repo_funcs,
            'obligation_kinds': kinds, 'queries_by_backend': be, 'solver_seconds': round(tot['solver_s'], 1),
            'paths': tot['paths'], 'loop_invariants_inferred': tot['loops'], 'harnesses': per,
            'bounded_standins': bounded + P.get('bounded', []),
            'native_crosscheck': ['%s: %s' % (k[1], (v[1] or '').strip()[-60:]) for k, v in natres.items()],
            'notes': notes,
        },
        'wall_s': round(wall, 1),
        'assumptions': P.get('assumptions', []) + sorted(trusted),
        'violations': len(violations) if props.INT_VIOLATIONS else violations,
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    print('%s: %d harnesses, %d/%d obligations discharged, %d undecided harnesses, %d violations, %.1fs' %
          (pid, len(meta), tot['dis'], tot['obl'], len(undecided), len(violations), wall))
    for b in bounded: print('  bounded: ' + b)
    for n in notes: print('  note: ' + n)
    return 1 if violations else 0

if __name__ == '__main__':
    main()
