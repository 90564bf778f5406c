"""Verification-condition generator: forward symbolic execution of LLVM IR with
contracts, inductive loop invariants (Houdini over contract-supplied and
structural templates) and z3/cvc5 as back ends."""
import shutil, os, sys, time, subprocess, tempfile, re
import z3
from . import intblast
from . import ir
from .sym import *
from .mem import *

FIRST = int(os.environ.get("KVC_FIRST","25"))
Z3BIN = shutil.which('z3')
DUMP = os.environ.get("KVC_DUMP")
LAZY = int(os.environ.get("KVC_LAZY", "1000"))
TRACE = float(os.environ.get('KVC_TRACE', '0'))

class PathEnd(Exception):
    pass
class SpecAbort(Exception):
    def __init__(s, entry): s.entry = entry
class Stop(Exception):
    """first failure found in counterexample search"""
class Budget(Exception):
    pass
class UnknownFn(Unsupported):
    pass

class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'prev', 'loc', 'stk', 'ret', 'active', 'va')
    def __init__(s, fn):
        s.fn = fn; s.blk = None; s.ip = 0; s.prev = None; s.loc = {}; s.stk = []; s.ret = None; s.active = {}; s.va = None
    def copy(s):
        f = Frame(s.fn)
        f.blk = s.blk; f.ip = s.ip; f.prev = s.prev; f.loc = dict(s.loc); f.stk = list(s.stk); f.ret = s.ret
        f.active = dict(s.active); f.va = s.va
        return f

class LoopCtx:
    def __init__(s, kind, header, body):
        s.kind = kind; s.header = header; s.body = body; s.hits = []; s.count = 0; s.cands = None; s.icmps = None; s.lim = 0
    def copy(s):
        c = LoopCtx(s.kind, s.header, s.body)
        c.count = s.count
        c.hits = s.hits
        c.lim = s.lim
        return c

class Hyp:
    """forall j: fn(j)"""
    __slots__ = ('fn', 'cache', 'name')
    def __init__(s, fn, name=''):
        s.fn = fn; s.cache = {}; s.name = name
    def at(s, t):
        k = key(t)
        r = s.cache.get(k)
        if r is None:
            r = (s.fn(t), t)
            s.cache[k] = r
        return r[0]

class State:
    __slots__ = ('frames', 'mem', 'pc', 'hyps', 'model', 'inputs', 'exc', 'specs', 'unroll', 'tmpl', 'tmpl0', 'terms', 'cut', 'steps', 'opts', 'live', 'globs')
    def __init__(s):
        s.frames = []; s.mem = {}; s.pc = []; s.hyps = []; s.model = None; s.inputs = []; s.exc = None
        s.specs = []; s.unroll = 0; s.tmpl = []; s.tmpl0 = []; s.terms = []; s.cut = False; s.steps = 0; s.opts = {}
        s.live = 0; s.globs = {}
    def fork(s):
        n = State()
        n.frames = [f.copy() for f in s.frames]
        n.mem = dict(s.mem); n.pc = list(s.pc); n.hyps = list(s.hyps); n.model = s.model; n.inputs = list(s.inputs)
        n.exc = s.exc; n.specs = list(s.specs); n.unroll = s.unroll; n.tmpl = s.tmpl; n.tmpl0 = s.tmpl0
        n.terms = list(s.terms); n.cut = s.cut; n.steps = s.steps; n.opts = dict(s.opts); n.live = s.live; n.globs = dict(s.globs)
        return n
    def w(s, oid):
        """writable object state"""
        o = s.mem[oid].copy()
        s.mem[oid] = o
        return o

class External:
    """another solver (z3 4.8) that works on a query at the same time; only its `unsat` counts"""
    def __init__(s, txt, tmo):
        fd, s.path = tempfile.mkstemp(suffix='.smt2')
        os.write(fd, txt.encode()); os.close(fd)
        s.end = time.time() + tmo
        s.p = subprocess.Popen([Z3BIN, '-T:%d' % max(1, int(tmo)), s.path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        s.r = None
    def poll(s):
        if s.r is None and s.p.poll() is not None: s.r = (s.p.stdout.read() or '?').split('\n')[0].strip()
        return s.r
    def wait(s):
        while s.poll() is None and time.time() < s.end + 1: time.sleep(0.02)
        return s.r
    def stop(s):
        if s.p.poll() is None: s.p.kill()
        s.p.wait(); s.p.stdout.close()
        if os.path.exists(s.path): os.unlink(s.path)

class Failure:
    def __init__(s, kind, loc, fn, msg, model, st):
        s.kind = kind; s.loc = loc; s.fn = fn; s.msg = msg; s.model = model
        s.inputs = list(st.inputs) if st else []
        s.cut = st.cut if st else False
        s.values = None
    def __str__(s): return '%s: %s [%s in %s]' % (s.kind, s.msg, s.loc, s.fn)

class Stats:
    def __init__(s):
        s.q = 0; s.t = 0.0; s.unknown = 0; s.be = {}

_demangle_cache = {}
def demangle(n):
    r = _demangle_cache.get(n)
    if r is None:
        try:
            r = subprocess.run(['c++filt', n], stdout=subprocess.PIPE, text=True).stdout.strip()
        except Exception:
            r = n
        _demangle_cache[n] = r
    return r

class Engine:
    def __init__(s, module, libs=None, timeout=20000, verbose=False, bmc=0, maxsize=None, deadline=None):
        s.m = module
        s.mods = [module]
        s.libs = libs            # callable(name)-> Module or None
        s.objs = {}
        s.nobj = 0
        s.gobj = {}
        s.fobj = {}
        s.timeout = timeout
        s.verbose = verbose
        s.bmc = bmc              # >0: bounded counterexample search, unroll bound
        s.maxsize = maxsize
        s.failures = []
        s.obl = {}               # (kind, loc, fn, msg) -> [discharged, failed, undecided]
        s.stats = Stats()
        s.fpufs = {}
        s.itcache = {}; s.nestcache = {}; s.gencache = {}; s.symcache = {}
        s.mode = 'full'
        s.solver = z3.Solver()
        s.sstack = []
        s.typeids = {}
        s.funcs_run = set()
        s.completed = 0
        s.bounded = []
        s.loopinfo = []
        s.trusted = set()
        s.covers = {}
        s.deadline = deadline
        s.symtags = {}
        s.consts = {}
        s.maxsteps = 3000000
        s.steps = 0
        s.invcache = {}
        from . import models
        s.models = models.MODELS
        s.loop_total = {}

    # ------------------------------------------------------------ solver
    def _sync(s, pc):
        st = s.sstack
        i = 0
        n = min(len(st), len(pc))
        while i < n and st[i] is pc[i]:
            i += 1
        if len(st) > i:
            s.solver.pop(len(st) - i)
            del st[i:]
        for c in pc[i:]:
            s.solver.push()
            s.solver.add(boolz(c))
            st.append(c)

    def solve(s, pc, extra, timeout=None, final=False, feas=False):
        """-> ('sat', model) | ('unsat', None) | ('unknown', None)"""
        if s.deadline and time.time() > s.deadline:
            raise Budget('time budget exhausted')
        t0 = time.time()
        s.stats.q += 1
        ex = []
        for e in extra:
            if e is False: return ('unsat', None)
            if e is True: continue
            ex.append(e)
        s._sync(pc)
        s.solver.push()
        s.solver.set('timeout', FIRST)
        for e in ex: s.solver.add(e)
        r = s.solver.check()
        mdl = s.solver.model() if r == z3.sat else None
        be = 'z3-bv'
        tmo = timeout or s.timeout
        ext = None
        if r == z3.unknown and ex:
            # the part of the path condition that is connected to the goal may be enough
            sl = s.slice(pc, ex)
            if len(sl) < len(pc):
                s2 = z3.Solver()
                s2.set('timeout', 1000)
                for c in sl: s2.add(boolz(c))
                for e in ex: s2.add(e)
                r1 = s2.check()
                if r1 == z3.unsat: r = r1
                elif r1 == z3.sat and feas: r = r1
                elif intblast.check([boolz(c) for c in sl] + ex, min(tmo, 5000))[0] == 'unsat':
                    r = z3.unsat; be = 'z3-lia'
        if r == z3.unknown:
            r2, pins = intblast.check([boolz(c) for c in pc] + ex, min(tmo, 20000))
            if r2 == 'unsat':
                r = z3.unsat; be = 'z3-lia'
            elif r2 == 'sat':
                s.solver.push()
                s.solver.set('timeout', 3000)
                for p in pins: s.solver.add(p)
                r3 = s.solver.check()
                if r3 == z3.sat:
                    r = z3.sat; mdl = s.solver.model()
                s.solver.pop()
        s.solver.pop()
        if r == z3.unknown:
            if not feas: ext = s.external(list(pc) + ex, min(20 if not final else 40, max(3, tmo / 500)))
            s2 = z3.SolverFor('QF_UFBV')
            s2.set('timeout', min(tmo, 3000))
            for c in pc: s2.add(boolz(c))
            for e in ex: s2.add(e)
            r = s2.check()
            if r != z3.unknown:
                mdl = s2.model() if r == z3.sat else None
                be = 'z3-qfufbv'
        if r == z3.unknown and ext and ext.wait() == 'unsat':
            r = z3.unsat; be = 'z3-4.8'
        if ext: ext.stop()
        if r == z3.unknown:
            s.solver.push()
            s.solver.set('timeout', min(tmo, 4000 if final else 8000))
            for e in ex: s.solver.add(e)
            r = s.solver.check()
            mdl = s.solver.model() if r == z3.sat else None
            s.solver.pop()
        if r == z3.unknown and final and s.cvc5(list(pc) + ex, tmo / 1000) == 'unsat':
            r = z3.unsat; be = 'cvc5'
        s.stats.t += time.time() - t0
        if TRACE and time.time() - t0 > TRACE: print('    q %.1fs %s %s pc=%d ex=%d' % (time.time() - t0, be, r, len(pc), len(ex)), sys._getframe(1).f_code.co_name, sys._getframe(2).f_code.co_name, sys._getframe(3).f_code.co_name, flush=True)
        s.stats.be[be] = s.stats.be.get(be, 0) + 1
        if r == z3.sat: return ('sat', mdl)
        if r == z3.unsat: return ('unsat', None)
        s.stats.unknown += 1
        if DUMP:
            s2 = z3.Solver()
            for c in list(pc) + ex: s2.add(boolz(c))
            open('%s%d.smt2' % (DUMP, s.stats.unknown), 'w').write('(set-logic QF_UFBV)\n' + s2.to_smt2())
        return ('unknown', None)

    def symbols(s, t):
        c = s.symcache
        r = c.get(t.get_id())
        if r is None:
            out = set()
            seen = set()
            stack = [t]
            while stack:
                x = stack.pop()
                i = x.get_id()
                if i in seen: continue
                seen.add(i)
                if z3.is_app(x):
                    d = x.decl()
                    if d.kind() == z3.Z3_OP_UNINTERPRETED: out.add(d.name())
                    stack.extend(x.children())
            c[t.get_id()] = r = (t, out)
        return r[1]

    def slice(s, pc, ex):
        want = set()
        for e in ex: want |= s.symbols(boolz(e))
        rest = [(c, s.symbols(boolz(c))) for c in pc if c is not True]
        out = []
        more = True
        while more:
            more = False
            left = []
            for c, v in rest:
                if not v or v & want:
                    out.append(c)
                    if not v <= want: want |= v; more = True
                else: left.append((c, v))
            rest = left
        return out

    def external(s, asserts, tmo):
        if not Z3BIN: return None
        s2 = z3.Solver()
        for c in asserts: s2.add(boolz(c))
        return External(s2.to_smt2(), tmo)

    def cvc5(s, asserts, tmo):
        s2 = z3.Solver()
        for c in asserts: s2.add(boolz(c))
        txt = '(set-logic QF_UFBV)\n' + s2.to_smt2()
        fd, path = tempfile.mkstemp(suffix='.smt2')
        os.write(fd, txt.encode()); os.close(fd)
        try:
            r = subprocess.run(['cvc5', '--tlimit=%d' % int(tmo * 1000), path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=tmo + 5)
            return r.stdout.strip().split('\n')[0]
        except Exception:
            return 'unknown'
        finally:
            os.unlink(path)

    def feasible(s, st, c):
        """may st.pc /\\ c hold?  (True also when unknown)"""
        if c is False: return False
        if st.model is not None:
            if c is True: return True
            try:
                if z3.is_true(st.model.eval(c, model_completion=True)): return True
            except z3.Z3Exception:
                pass
        if st.hyps and s.mode != 'pure': r, m = s.solve_lazy(st.pc, [c], lambda: s.instances(st, [c]), 3000)
        else: r, m = s.solve(st.pc, [c], 5000, feas=True)
        if r == 'unsat': return False
        return True

    def assume(s, st, c):
        if c is True: return
        if c is False: raise PathEnd('assume false')
        st.pc.append(c)
        if st.model is not None:
            try:
                if not z3.is_true(st.model.eval(c, model_completion=True)): st.model = None
            except z3.Z3Exception:
                st.model = None

    # ---- instantiation of universally quantified hypotheses
    def index_terms(s, terms):
        out = {}
        c = s.itcache
        for t in terms:
            if isinstance(t, (bool, int)): continue
            r = c.get(t.get_id())
            if r is None:
                r = s.index_terms1(t)
                c[t.get_id()] = r = (t, r)       # keeps t alive, so the id stays its own
            for x in r[1]: out[x.get_id()] = x
        return list(out.values())

    def index_terms1(s, t0):
        out = {}
        seen = set()
        stack = [t0]
        while stack:
            t = stack.pop()
            i = t.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_app(t):
                d = t.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    n = t.num_args()
                    if n > 0 and d.name()[:2] in ('A!', 'F!'):
                        for k in range(n):
                            a = t.arg(k)
                            if a.size() == 64:
                                out[a.get_id()] = a
                    elif n == 0 and t.sort().kind() == z3.Z3_BV_SORT and t.size() == 64 and d.name().startswith('k?'):
                        out[t.get_id()] = t
                stack.extend(t.children())
        return list(out.values())

    def instances(s, st, goal, rounds=2, cap=80):
        if not st.hyps: return []
        out = []
        done = set()
        terms = s.index_terms(list(goal) + st.pc)
        for r in range(rounds):
            new = []
            for t in terms:
                t = norm(t)
                if key(t) in done or len(done) > cap: continue
                done.add(key(t))
                for h in st.hyps:
                    f = h.at(t)
                    if f is True: continue
                    if f is False:
                        return [BoolVal(False)]
                    out.append(f)
                    new.append(f)
            terms = s.index_terms(new)
            if not terms: break
        return out

    def solve_lazy(s, pc, ex, insts, timeout=None, final=False, keep=None):
        """quantified facts are instantiated as models violate them; keep: instances found useful so far"""
        if s.deadline and time.time() > s.deadline:
            raise Budget('time budget exhausted')
        ex = list(ex)
        if False in ex: return 'unsat', None
        keep = [] if keep is None else keep
        got = None
        t0 = time.time()
        s.stats.q += 1
        s._sync(pc)
        s.solver.push()
        r = z3.unknown
        try:
            for e in ex + keep:
                if e is not True: s.solver.add(boolz(e))
            for it in range(120):
                s.solver.set('timeout', LAZY)
                r = s.solver.check()
                if r == z3.unsat:
                    s.stats.be['z3-bv'] = s.stats.be.get('z3-bv', 0) + 1
                    return 'unsat', None
                if got is None: got = insts() if callable(insts) else insts
                if r != z3.sat: break
                m = s.solver.model()
                bad = [f for f in got if z3.is_false(m.eval(boolz(f), model_completion=True))]
                if not bad: return 'sat', m
                for f in bad[:10]: s.solver.add(boolz(f))
                keep += bad[:10]
        finally:
            s.solver.pop()
            s.stats.t += time.time() - t0
            if TRACE and time.time() - t0 > TRACE: print('    lazy %.1fs %s pc=%d keep=%d' % (time.time() - t0, r, len(pc), len(keep)), sys._getframe(1).f_code.co_name, sys._getframe(2).f_code.co_name, flush=True)
        for it in range(40):
            if len(keep) >= len(got): break
            r, m = s.solve(pc, ex + keep, min(timeout or s.timeout, 3000))
            if r == 'unsat': return r, m
            if r != 'sat': break
            bad = [f for f in got if z3.is_false(m.eval(boolz(f), model_completion=True))]
            if not bad: return r, m
            keep += bad[:20]
        return s.solve(pc, ex + got, timeout, final)

    def prove(s, st, c, timeout=None, final=False, neg_extra=()):
        """-> ('yes'|'no'|'unknown', model)"""
        if c is True: return ('yes', None)
        n = lnot(c)
        if s.general(c): return ('yes', None)
        if st.hyps:
            r, m = s.solve_lazy(st.pc, [n], lambda: s.instances(st, [n]), timeout, final)
        else:
            r, m = s.solve(st.pc, [n], timeout, final)
        if r == 'unsat': return ('yes', None)
        if s.fpufs:
            x = s.frefine(list(st.pc) + [n] + (s.instances(st, [n]) if st.hyps else []), timeout or s.timeout)
            if x is not None: r, m = x
            if r == 'unsat': return ('yes', None)
        if r == 'sat': return ('no', m)
        return ('unknown', None)

    DIVS = (z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM_I)

    def general(s, c):
        """is c valid when the quotients that are divided again are arbitrary numbers?"""
        if not z3.is_expr(c): return False
        sub = {}
        seen = set()
        stack = [c]
        while stack:
            t = stack.pop()
            i = t.get_id()
            if i in seen: continue
            seen.add(i)
            if not z3.is_app(t): continue
            if t.decl().kind() in s.DIVS and z3.is_bv_value(t.arg(1)):
                a = t.arg(0)
                if s.nested(a):
                    sub[a.get_id()] = a
                    continue
            stack.extend(t.children())
        if not sub: return False
        g = z3.substitute(c, *[(a, z3.BitVec('gen!%d' % i, a.size())) for i, a in enumerate(sub.values())])
        n = lnot(simp(g))
        if n is False: return True
        if n is True: return False
        if n.get_id() in s.gencache: return s.gencache[n.get_id()][1]
        s2 = z3.Solver()
        s2.set('timeout', 200)
        s2.add(n)
        s.stats.q += 1
        r = s2.check()
        if r == z3.unknown: r = {'unsat': z3.unsat}.get(intblast.check([n], 3000)[0], z3.unknown)
        if r == z3.unsat: s.stats.be['z3-bv'] = s.stats.be.get('z3-bv', 0) + 1
        s.gencache[n.get_id()] = (n, r == z3.unsat)
        return r == z3.unsat

    def nested(s, t):
        c = s.nestcache
        r = c.get(t.get_id())
        if r is None:
            r = z3.is_app(t) and (t.decl().kind() in s.DIVS or any(s.nested(x) for x in t.children()))
            c[t.get_id()] = r = (t, r)
        return r[1]

    # ------------------------------------------------------------ obligations
    def stack(s, st):
        out = []
        for fr in reversed(st.frames):
            b = fr.fn.blocks[fr.blk].insts
            ins = b[min(fr.ip, len(b) - 1)]
            out.append('%s (%s)' % (demangle(fr.fn.name)[:100], fr.fn.mod.loc(ins.dbg)))
        return out

    def where(s, st):
        for fr in reversed(st.frames):
            b = fr.fn.blocks[fr.blk].insts
            ins = b[min(fr.ip, len(b) - 1)]
            l = fr.fn.mod.loc(ins.dbg)
            if l.startswith('/repo') or not l.startswith('/usr'):
                return l, demangle(fr.fn.name)
        return '?', demangle(st.frames[-1].fn.name) if st.frames else '?'

    def check(s, st, c, kind, msg):
        """an obligation: c must hold on every input that reaches this point"""
        if s.mode == 'pure': return
        if s.mode == 'quiet':
            s.assume(st, c)
            return
        if s.bmc:
            if c is True: return
            r, m = s.solve(st.pc, [lnot(c)] + s.instances(st, [lnot(c)]), s.timeout)
            if r == 'sat':
                l, f = s.where(st)
                s.failures.append(Failure(kind, l, f, msg, m, st))
                raise Stop()
            s.assume(st, c)
            return
        l, f = s.where(st)
        k = (kind, l, f, msg)
        rec = s.obl.setdefault(k, [0, 0, 0])
        if c is True:
            rec[0] += 1
            return
        r, m = s.prove(st, c, timeout=2000 if rec[2] else None, final=not rec[2])
        if r == 'yes':
            rec[0] += 1
        elif r == 'no':
            rec[1] += 1
            if rec[1] == 1: s.failures.append(Failure(kind, l, f, msg, m, st))
            if s.verbose: print('   FAIL', kind, msg, l, f)
        else:
            rec[2] += 1
            if rec[2] == 1: s.failures.append(Failure('undecided', l, f, kind + ': ' + msg, None, st))
        if len(s.failures) > 8: raise Stop()
        s.assume(st, c)

    def fail(s, st, kind, msg):
        s.check(st, False, kind, msg)
        raise PathEnd(kind)

    # ------------------------------------------------------------ objects
    def new_obj(s, st, name, kind, size):
        s.nobj += 1
        o = Obj(s.nobj, name, kind, size)
        s.objs[o.id] = o
        st.mem[o.id] = OState()
        return o

    def lookup_func(s, name, mod):
        f = mod.funcs.get(name)
        if f is not None and f.blocks is not None: return f
        al = mod.aliases.get(name)
        if al is not None and al[0] == 'g':
            return s.lookup_func(al[1], mod)
        for m in s.mods:
            f = m.funcs.get(name)
            if f is not None and f.blocks is not None and not f.internal: return f
            al = m.aliases.get(name)
            if al is not None and al[0] == 'g':
                return s.lookup_func(al[1], m)
        return None

    def lookup_lib(s, name):
        if s.libs:
            m = s.libs(name)
            if m is not None:
                if m not in s.mods: s.mods.append(m)
                return s.lookup_func(name, m)
        return None

    def gptr(s, st, name, mod):
        """pointer to a global or function"""
        g = mod.globals.get(name)
        home = mod
        if (g is None or g.external) and name not in mod.funcs:
            for m in s.mods:
                g2 = m.globals.get(name)
                if g2 is not None and not g2.external and not g2.internal:
                    g = g2; home = m
                    break
        if g is not None:
            k = (home.name, name) if g.internal else name
            oid = s.gobj.get(k)
            if oid is None:
                try:
                    sz = home.size(g.ty)
                except ir.IRError:
                    sz = 0
                s.nobj += 1
                o = Obj(s.nobj, '@' + name, 'global', sz)
                o.readonly = g.const and not g.external
                o.glob = g
                o.home = (name, mod)
                s.objs[o.id] = o
                s.gobj[k] = o.id
                oid = o.id
            if oid not in st.mem:
                os_ = OState()
                st.mem[oid] = os_
                g = s.objs[oid].glob
                if g.init is not None:
                    s.init_const(st, os_, 0, g.ty, g.init, home)
                elif g.external:
                    if name.startswith('_ZTI'):
                        pass
            return Ptr(oid, 0, 0)
        al = mod.aliases.get(name)
        if al is not None and al[0] == 'g':
            return s.gptr(st, al[1], mod)
        # function
        f = mod.funcs.get(name)
        k = (mod.name, name) if (f is not None and f.internal) else name
        oid = s.fobj.get(k)
        if oid is None:
            s.nobj += 1
            o = Obj(s.nobj, '@' + name, 'func', 1)
            o.func = (name, mod)
            s.objs[o.id] = o
            s.fobj[k] = o.id
            oid = o.id
        if oid not in st.mem: st.mem[oid] = OState()
        return Ptr(oid, 0, 0)

    def init_const(s, st, os_, off, ty, v, mod):
        t = mod.resolve(ty)
        k = v[0]
        if k == 'zero':
            s.zero_range(os_, off, mod.size(t))
            return
        if k == 'undef': return
        if k == 'str':
            if off == 0 and os_.arr is None:
                os_.arr = AConst(v[1])
            else:
                for i, b in enumerate(v[1]): os_.cells[off + i] = (1, b)
            return
        if k == 'agg':
            if t[0] == 'st':
                lay = mod.layout(ty if ty[0] == 'named' else t)[1]
                for (fty, fv), o in zip(v[1], lay):
                    s.init_const(st, os_, off + o, fty, fv, mod)
            else:
                es = mod.size(t[2])
                for i, (fty, fv) in enumerate(v[1]):
                    s.init_const(st, os_, off + i * es, fty, fv, mod)
            return
        val = s.const(st, t, v, mod)
        n = mod.size(t)
        if t[0] == 'i' and t[1] == 1: val = int(val)
        os_.cells[off] = (n, val)

    def zero_range(s, os_, off, n):
        if n > 64 or os_.arr is None:
            base = os_.arr
            if base is None and not os_.cells: os_.arr = AConst(b'')
            else: os_.arr = AFill(base if base is not None else AConst(b''), 0, off, n, 0)
        else:
            os_.arr = AFill(os_.arr, 0, off, n, 0)

    def const(s, st, ty, v, mod):
        k = v[0]
        if k == 'c':
            if ty[0] == 'i' and ty[1] == 1: return bool(v[1] & 1)
            if ty[0] == 'i': return v[1] & mask(ty[1])
            return v[1]
        if k == 'null': return NULL
        if k == 'g': return s.gptr(st, v[1], mod)
        if k == 'undef':
            return s.undef(ty, mod)
        if k == 'zero':
            t = mod.resolve(ty)
            if t[0] == 'i': return False if t[1] == 1 else 0
            if t[0] == 'ptr': return NULL
            if t[0] == 'f': return 0
            if t[0] == 'st': return tuple(s.const(st, f, v, mod) for f in t[1])
            if t[0] in ('arr', 'vec'): return tuple(s.const(st, t[2], v, mod) for _ in range(t[1]))
        if k == 'agg':
            return tuple(s.const(st, t, x, mod) for t, x in v[1])
        if k == 'str': return tuple(v[1])
        if k == 'fc':
            import struct
            t = v[1]
            if ty[1] == 64:
                if t.startswith('0x'): return int(t[2:], 16)
                return struct.unpack('<Q', struct.pack('<d', float(t)))[0]
            if ty[1] == 32:
                if t.startswith('0x'):
                    d = struct.unpack('<d', struct.pack('<Q', int(t[2:], 16)))[0]
                else: d = float(t)
                return struct.unpack('<I', struct.pack('<f', d))[0]
            return Opq()
        if k == 'cgep':
            base = s.const(st, *v[2][0][:1], v[2][0][1], mod)
            return s.gep(st, mod, v[1], base, [(t, s.const(st, t, x, mod)) for t, x in v[2][1:]])
        if k == 'ccast':
            x = s.const(st, v[2], v[3], mod)
            return s.cast(st, v[1], v[2], v[4], x)
        if k == 'cbin':
            a = s.const(st, v[2][0][0], v[2][0][1], mod)
            b = s.const(st, v[2][1][0], v[2][1][1], mod)
            return s.binop(st, v[1], v[2][0][0], a, b, ())
        if k == 'cicmp':
            a = s.const(st, v[2][0][0], v[2][0][1], mod)
            b = s.const(st, v[2][1][0], v[2][1][1], mod)
            return s.icmp(st, v[1], v[2][0][0], a, b)
        raise Unsupported('const %r' % (v,))

    def undef(s, ty, mod):
        t = mod.resolve(ty) if ty[0] == 'named' else ty
        if t[0] == 'i':
            if t[1] == 1: return z3.Bool('undef!%d' % fresh_id())
            return BitVec('undef!%d' % fresh_id(), t[1])
        if t[0] == 'ptr': return Ptr(0, 0, BitVec('undef!%d' % fresh_id(), 64))
        if t[0] == 'f': return BitVec('undef!%d' % fresh_id(), t[1]) if t[1] in (32, 64) else Opq()
        if t[0] == 'st': return tuple(s.undef(f, mod) for f in t[1])
        if t[0] in ('arr', 'vec'): return tuple(s.undef(t[2], mod) for _ in range(t[1]))
        return Opq()

    # ------------------------------------------------------------ pointers
    def addr(s, p):
        """integer value of a pointer"""
        if type(p.tag) is not int:
            # nested choice over tags
            tags = s.tag_values(p.tag)
            r = None
            for t in tags:
                a = s.addr(Ptr(t, p.idx, p.off))
                r = a if r is None else ite(eq(p.tag, t, 16), a, r)
            return r
        if p.tag == 0: return p.off
        o = s.objs[p.tag]
        if o.addr is None:
            o.addr = BitVec('addr!%d' % o.id, 64)
        a = o.addr
        if o.stride: a = add(a, mul(p.idx, o.stride))
        return add(a, p.off)

    def addr_axioms(s, st, p):
        if type(p.tag) is int and p.tag != 0:
            o = s.objs[p.tag]
            if ('addr', o.id) not in st.opts:
                st.opts[('addr', o.id)] = True
                s.addr(p)
                sz = o.size if not o.stride else mul(o.stride, o.count)
                s.assume(st, simp(And(UGE(o.addr, 4096), ULE(o.addr, BitVecVal(1 << 47, 64)), Extract(3, 0, o.addr) == 0)))

    def addr_disjoint(s, st, p, q):
        """two objects do not overlap"""
        if type(p.tag) is not int or type(q.tag) is not int or 0 in (p.tag, q.tag) or p.tag == q.tag: return
        a, b = s.objs[p.tag], s.objs[q.tag]
        k = ('disj', min(a.id, b.id), max(a.id, b.id))
        if k in st.opts: return
        st.opts[k] = True
        za, zb = (o.size if not o.stride else mul(o.stride, o.count) for o in (a, b))
        s.assume(st, boolz(lor(ule(add(a.addr, za), b.addr), ule(add(b.addr, zb), a.addr))))

    def tag_values(s, t):
        """candidate constants of a symbolic tag"""
        if type(t) is int: return [t]
        out = []
        seen = set()
        stk = [t]
        while stk:
            x = stk.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if is_bv_value(x):
                v = x.as_long()
                if v not in out: out.append(v)
            elif z3.is_app_of(x, z3.Z3_OP_ITE):
                stk += [x.arg(1), x.arg(2)]
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for v in s.symtags.get(x.decl().name(), ()):
                    if v not in out: out.append(v)
            else:
                raise Unsupported('tag term %s' % x)
        return sorted(out)

    def fresh_tag(s, name, allowed):
        v = BitVec('%s!%d' % (name, fresh_id()), 16)
        s.symtags[v.decl().name()] = list(allowed)
        return v

    def gep(s, st, mod, bt, base, idxs):
        if isinstance(base, PI): base = base.p
        p = base
        # first index
        off = p.off
        idx = p.idx
        ty = bt
        first = True
        tag = p.tag
        o = s.objs.get(tag) if type(tag) is int else None
        for (ity, iv) in idxs:
            w = ity[1]
            if isinstance(iv, PI): raise Unsupported('gep index pointer')
            if first:
                first = False
                es = mod.size(ty)
                v = iv
                if w != 64:
                    v = (sgn(iv, w) & mask(64)) if type(iv) is int else simp(SignExt(64 - w, iv))
                if o is not None and o.stride and type(v) is int and v == 0: pass
                elif o is not None and o.stride and es == o.stride:
                    idx = add(idx, v)
                elif o is not None and o.stride and es and es % o.stride == 0:
                    idx = add(idx, mul(v, es // o.stride))
                elif o is not None and o.stride and type(v) is int and type(off) is int and o.payload is None:
                    nb = sgn(v, 64) * es + sgn(off, 64)
                    if nb % o.stride == 0 or not (0 <= nb < o.stride):
                        idx = add(idx, (nb // o.stride) & mask(64))
                        off = nb % o.stride
                    else: off = nb & mask(64)
                elif o is not None and o.stride and o.payload is not None and type(v) is int and off == 0 and sgn(v, 64) * es % o.stride == 0:
                    idx = add(idx, (sgn(v, 64) * es // o.stride) & mask(64))
                elif o is not None and o.stride and es == 1 and type(off) is int and off == 0 and type(v) is not int:
                    q = s.div_by(v, o.stride)
                    if q is not None: idx = add(idx, q)
                    else: off = add(off, v)
                else:
                    off = add(off, mul(v, es))
                continue
            t = mod.resolve(ty)
            if t[0] == 'st':
                off = add(off, mod.layout(ty if ty[0] == 'named' else t)[1][iv])
                ty = t[1][iv]
            elif t[0] in ('arr', 'vec'):
                es = mod.size(t[2])
                v = iv
                if w != 64:
                    v = (sgn(iv, w) & mask(64)) if type(iv) is int else simp(SignExt(64 - w, iv))
                off = add(off, mul(v, es))
                ty = t[2]
            else:
                raise Unsupported('gep into %r' % (t,))
        return Ptr(tag, idx, off)

    def div_by(s, v, n):
        """v / n when v is syntactically a multiple of n"""
        if type(v) is int: return v // n if v % n == 0 else None
        if z3.is_app_of(v, z3.Z3_OP_BMUL):
            for i in range(v.num_args()):
                if is_bv_value(v.arg(i)) and v.arg(i).as_long() == n:
                    r = None
                    for j in range(v.num_args()):
                        if j != i: r = v.arg(j) if r is None else r * v.arg(j)
                    return norm(r)
        if n and n & (n - 1) == 0:
            k = n.bit_length() - 1
            # low k bits syntactically zero
            lo = simplify(Extract(k - 1, 0, v))
            if is_bv_value(lo) and lo.as_long() == 0:
                return simp(z3.If(v < 0, -LShR(-v, k), LShR(v, k)) if False else (v >> k))
        return None

    def resolve_tag(s, st, p, what='access'):
        """-> list of (state, concrete Ptr)"""
        if isinstance(p, PI): p = p.p
        if not isinstance(p, Ptr):
            p = Ptr(0, 0, p)
        if type(p.tag) is int: return [(st, p)]
        vals = s.tag_values(p.tag)
        out = []
        feas = []
        for v in vals:
            c = eq(p.tag, v, 16)
            if s.mode == 'pure' or s.feasible(st, c): feas.append((v, c))
        if not feas: raise PathEnd('no tag')
        if len(feas) > 1 and st.specs and s.mode != 'pure': raise SpecAbort(st.specs[0])
        for n, (v, c) in enumerate(feas):
            st2 = st if n == len(feas) - 1 else st.fork()
            s.assume(st2, c)
            out.append((st2, Ptr(v, s.spec_ite(p.idx, p.tag, v), s.spec_ite(p.off, p.tag, v))))
        return out

    def spec_ite(s, t, tag, v):
        """specialise an index/offset term under tag == v when it has the same ite structure"""
        if type(t) is int or type(tag) is int: return t
        try:
            while z3.is_app_of(tag, z3.Z3_OP_ITE) and z3.is_app_of(t, z3.Z3_OP_ITE) and tag.arg(0).eq(t.arg(0)):
                a, b = tag.arg(1), tag.arg(2)
                av = s.tag_values(a); bv_ = s.tag_values(b)
                if v not in av and v in bv_: tag, t = b, t.arg(2)
                elif v in av and v not in bv_: tag, t = a, t.arg(1)
                else: break
        except Unsupported:
            pass
        return norm(t)

    # ------------------------------------------------------------ memory access
    def inbounds(s, o, p, n):
        """bounds condition for n bytes (int or term) at concrete-tag pointer p"""
        if o.stride:
            a = ult(p.idx, o.count)
            b = land(ule(n, o.stride), ule(p.off, sub(o.stride, n)))
            if type(n) is not int or type(p.off) is not int: pass
            return land(a, b)
        return land(ule(n, o.size), ule(p.off, sub(o.size, n)))

    def access(s, st, p, n, write, what=None):
        """validity obligations; p has a concrete tag"""
        if s.mode == 'pure': return
        if p.tag == 0:
            s.fail(st, 'memory', 'null or invalid pointer dereference')
        o = s.objs[p.tag]
        os_ = st.mem.get(p.tag)
        if os_ is None or not os_.alive:
            s.fail(st, 'memory', 'access to freed or out-of-scope object')
        if o.kind == 'func': s.fail(st, 'memory', 'data access to function')
        if not (o.glob is not None and o.glob.external):
            s.check(st, s.inbounds(o, p, n), 'memory', ('write' if write else 'read') + ' within the bounds of the object')
        if write and (o.readonly or os_.ro):
            s.fail(st, 'frame', 'write to an object outside the frame')

    def flush(s, st, oid, lo=None, n=None):
        """move integer cells of a plain object into its byte contents"""
        os_ = st.mem[oid]
        if not os_.cells: return
        w = st.w(oid)
        if w.arr is None: w.arr = ABase(s.objs[oid].name, False)
        arr = w.arr
        keep = {}
        hi = None
        if type(lo) is int and n is not None:
            # cells that the access provably does not reach stay cells
            if type(n) is int: hi = lo + n
            else:
                hi = 1 << 62
                for co in sorted(c for c in w.cells if c > lo)[:6]:
                    if s.prove(st, ule(n, co - lo), timeout=300)[0] == 'yes':
                        hi = co
                        break
        few = lo is not None and hi is None and n is not None and sum(1 for c in w.cells.values() if not isinstance(c[1], (Ptr, PI, Opq))) <= 6
        for off, (sz, v) in w.cells.items():
            if isinstance(v, (Ptr, PI, Opq)) or hi is not None and (off + sz <= lo or off >= hi):
                keep[off] = (sz, v)
                continue
            if few:
                c = lor(ule(add(lo, n), off), ule(off + sz, lo))
                if c is True or c is not False and s.prove(st, c, timeout=200)[0] == 'yes':
                    keep[off] = (sz, v)
                    continue
            if type(v) is bool: v = int(v)
            arr = AStore(arr, 0, off, [byte_of(v, sz * 8, i) for i in range(sz)])
        w.arr = arr
        w.cells = keep

    def no_ptr_overlap(s, st, oid, off, n):
        for co, (sz, v) in st.mem[oid].cells.items():
            # [co,co+sz) vs [off,off+n)
            c = lor(ule(add(off, n), co), ule(co + sz, off))
            if c is True: continue
            if s.prove(st, c)[0] != 'yes':
                raise Unsupported('symbolic access may overlap a pointer cell of %s' % s.objs[oid].name)

    def byte_at(s, st, oid, off):
        os_ = st.mem[oid]
        for d in range(0, 16):
            c = os_.cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    v = c[1]
                    if isinstance(v, (Ptr, PI)):
                        if isinstance(v, PI): v = v.p
                        a = s.addr(v)
                        return byte_of(a, 64, d)
                    if isinstance(v, Opq): return BitVec('opq!%d' % fresh_id(), 8)
                    return byte_of(v, c[0] * 8, d)
                if d == 0: pass
        if os_.arr is None:
            w = st.w(oid)
            w.arr = ABase(s.objs[oid].name, False)
            os_ = w
        return os_.arr.read(0, off)

    def rd(s, st, p, n, kind):
        """read n bytes at concrete-tag pointer; kind 'i'|'p'"""
        oid = p.tag
        if s.mode == 'pure' and (oid == 0 or oid not in st.mem or s.objs[oid].kind == 'func'):
            return NULL if kind == 'p' else BitVec('undef!%d' % fresh_id(), n * 8)
        o = s.objs[oid]
        os_ = st.mem[oid]
        if o.stride:
            if type(p.off) is int and (o.payload is None or p.off + n <= o.payload):
                ch = os_.fields.get(p.off)
                if ch is None or ch[0] != n:
                    # containing integer field?
                    for fo, (fn, fch, fk) in os_.fields.items():
                        if fo <= p.off and p.off + n <= fo + fn and fk == 'i':
                            v = fch.read(p.idx, 0)
                            return concat_bytes([byte_of(v, fn * 8, p.off - fo + i) for i in range(n)])
                    if ch is not None or any(fo < p.off + n and p.off < fo + fn for fo, (fn, _, _) in os_.fields.items()):
                        # compose from bytes of several fields
                        bs = []
                        for i in range(n):
                            bs.append(s.rd(st, Ptr(oid, p.idx, p.off + i), 1, 'i'))
                        return concat_bytes(bs)
                    if o.fieldspec is not None and s.mode != 'pure':
                        pass
                    w = st.w(oid)
                    ch = (n, FBase('%s.%d' % (o.name, p.off), kind, n * 8), kind)
                    if kind == 'p': s.symtags[ch[1].name + '!t'] = [0]
                    w.fields[p.off] = ch
                return ch[1].read(p.idx, 0)
            if os_.arr is None:
                w = st.w(oid)
                w.arr = ABase(o.name, True)
                os_ = w
            return concat_bytes([os_.arr.read(p.idx, add(p.off, i)) for i in range(n)])
        if type(p.off) is int:
            c = os_.cells.get(p.off)
            if c is not None and c[0] == n: return c[1]
            return concat_bytes([s.byte_at(st, oid, p.off + i) for i in range(n)])
        if os_.cells:
            s.flush(st, oid, p.off, n)
            os_ = st.mem[oid]
            if os_.cells: s.no_ptr_overlap(st, oid, p.off, n) if s.mode != 'pure' else None
        if os_.arr is None:
            w = st.w(oid)
            w.arr = ABase(o.name, False)
            os_ = w
        return concat_bytes([os_.arr.read(0, add(p.off, i)) for i in range(n)])

    def clear_cells(s, w, oid, off, n):
        """make room for a write to [off,off+n) (concrete)"""
        for d in list(w.cells):
            sz = w.cells[d][0]
            if d < off + n and off < d + sz:
                if not (off <= d and d + sz <= off + n):
                    v = w.cells[d][1]
                    if w.arr is None: w.arr = ABase(s.objs[oid].name, False)
                    if isinstance(v, (Ptr, PI, Opq)):
                        b = [BitVec('ptrbyte!%d' % fresh_id(), 8) for _ in range(sz)]
                    else: b = [byte_of(v, sz * 8, i) for i in range(sz)]
                    w.arr = AStore(w.arr, 0, d, b)
                del w.cells[d]

    def wr(s, st, p, n, v):
        oid = p.tag
        o = s.objs[oid]
        w = st.w(oid)
        if type(v) is bool: v = int(v)
        if o.stride:
            if type(p.off) is int and (o.payload is None or p.off + n <= o.payload):
                ch = w.fields.get(p.off)
                isp = isinstance(v, (Ptr, PI))
                if ch is None or ch[0] != n:
                    for fo, (fn, fch, fk) in list(w.fields.items()):
                        if fo < p.off + n and p.off < fo + fn:
                            if fk == 'i' and fo <= p.off and p.off + n <= fo + fn:
                                old = fch.read(p.idx, 0)
                                bs = [byte_of(old, fn * 8, i) for i in range(fn)]
                                for i in range(n): bs[p.off - fo + i] = byte_of(v, n * 8, i)
                                w.fields[fo] = (fn, FStore(fch, p.idx, concat_bytes(bs), fn * 8), fk)
                                return
                            raise Unsupported('overlapping field write at %d of %s' % (p.off, o.name))
                    k = 'p' if isp else 'i'
                    ch = (n, FBase('%s.%d' % (o.name, p.off), k, n * 8), k)
                    if k == 'p': s.symtags[ch[1].name + '!t'] = [0]
                if ch[2] == 'p' and not isp and type(v) is int and v == 0: v = NULL
                w.fields[p.off] = (n, FStore(ch[1], p.idx, v, n * 8), ch[2])
                return
            if isinstance(v, (Ptr, PI, Opq)): raise Unsupported('pointer into element payload')
            if w.arr is None: w.arr = ABase(o.name, True)
            w.arr = AStore(w.arr, p.idx, p.off, [byte_of(v, n * 8, i) for i in range(n)])
            return
        if type(p.off) is int:
            s.clear_cells(w, oid, p.off, n)
            w.cells[p.off] = (n, v)
            return
        if isinstance(v, (Ptr, PI, Opq)): raise Unsupported('pointer stored at symbolic offset in %s' % o.name)
        s.flush(st, oid, p.off, n)
        w = st.w(oid)
        if w.cells: s.no_ptr_overlap(st, oid, p.off, n)
        if w.arr is None: w.arr = ABase(o.name, False)
        w.arr = AStore(w.arr, 0, p.off, [byte_of(v, n * 8, i) for i in range(n)])

    def load(s, st, p, ty, mod):
        """p concrete tag"""
        t = mod.resolve(ty)
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            s.access(st, p, n, False)
            v = s.rd(st, p, n, 'i')
            if isinstance(v, Ptr): v = PI(v)
            if isinstance(v, Opq): return BitVec('opq!%d' % fresh_id(), t[1])
            if t[1] == 1:
                if type(v) is int: return bool(v & 1)
                if type(v) is bool: return v
                return simp(Extract(0, 0, v) == 1)
            if t[1] != n * 8 and not isinstance(v, PI):
                v = v & mask(t[1]) if type(v) is int else simp(Extract(t[1] - 1, 0, v))
            return v
        if k == 'ptr':
            s.access(st, p, 8, False)
            v = s.rd(st, p, 8, 'p')
            if isinstance(v, PI): v = v.p
            if not isinstance(v, Ptr): v = Ptr(0, 0, v) if not isinstance(v, Opq) else Ptr(0, 0, BitVec('opq!%d' % fresh_id(), 64))
            return v
        if k == 'f':
            n = mod.size(t)
            s.access(st, p, n, False)
            if t[1] == 80:
                c = st.mem[p.tag].cells.get(p.off) if type(p.off) is int and p.tag in st.mem else None
                return c[1] if c and isinstance(c[1], Opq) else Opq()
            return s.rd(st, p, n, 'i')
        if k == 'st':
            lay = mod.layout(ty if ty[0] == 'named' else t)[1]
            return tuple(s.load(st, Ptr(p.tag, p.idx, add(p.off, o)), f, mod) for f, o in zip(t[1], lay))
        if k in ('arr', 'vec'):
            es = mod.size(t[2])
            return tuple(s.load(st, Ptr(p.tag, p.idx, add(p.off, i * es)), t[2], mod) for i in range(t[1]))
        raise Unsupported('load %r' % (t,))

    def store(s, st, p, ty, v, mod):
        t = mod.resolve(ty)
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            s.access(st, p, n, True)
            if t[1] == 1: v = int(v) if type(v) is bool else ite(v, 1, 0, 8)
            elif t[1] != n * 8 and not isinstance(v, PI):
                v = v if type(v) is int else simp(ZeroExt(n * 8 - t[1], v))
            s.wr(st, p, n, v)
        elif k == 'ptr':
            s.access(st, p, 8, True)
            s.wr(st, p, 8, v)
        elif k == 'f':
            n = mod.size(t)
            s.access(st, p, n, True)
            s.wr(st, p, n, v)
        elif k == 'st':
            lay = mod.layout(ty if ty[0] == 'named' else t)[1]
            for f, o, x in zip(t[1], lay, v):
                s.store(st, Ptr(p.tag, p.idx, add(p.off, o)), f, x, mod)
        elif k in ('arr', 'vec'):
            es = mod.size(t[2])
            for i, x in enumerate(v):
                s.store(st, Ptr(p.tag, p.idx, add(p.off, i * es)), t[2], x, mod)
        else:
            raise Unsupported('store %r' % (t,))

    def memcpy(s, st, d, sp, n):
        """both pointers concrete-tag; snapshot semantics (memmove)"""
        if type(n) is int and n == 0: return
        if type(n) is not int:
            # guarded: zero length touches nothing
            z = ult(0, n)
            if s.mode == 'full' and not s.bmc or s.bmc:
                pass
            s.access_if(st, z, d, n, True)
            s.access_if(st, z, sp, n, False)
            if d.tag == 0 or sp.tag == 0: return      # proved n == 0
        else:
            s.access(st, d, n, True)
            s.access(st, sp, n, False)
        do, so = s.objs[d.tag], s.objs[sp.tag]
        # ---- families
        if so.stride or do.stride:
            return s.memcpy_fam(st, d, sp, n, do, so)
        if type(n) is int and type(d.off) is int and type(sp.off) is int:
            src = st.mem[sp.tag]
            cells = {}
            part = False
            for co, (sz, v) in src.cells.items():
                if co < sp.off + n and sp.off < co + sz:
                    if sp.off <= co and co + sz <= sp.off + n:
                        cells[co - sp.off] = (sz, v)
                    else: part = True
            if part:
                w = st.w(sp.tag)
                for co, (sz, v) in list(w.cells.items()):
                    if co < sp.off + n and sp.off < co + sz and not (sp.off <= co and co + sz <= sp.off + n):
                        s.clear_cells(w, sp.tag, co + (0 if co < sp.off else sz - 1), 1) if False else None
                        if w.arr is None: w.arr = ABase(so.name, False)
                        if isinstance(v, (Ptr, PI)):
                            raise Unsupported('partial pointer copy')
                        w.arr = AStore(w.arr, 0, co, [byte_of(v, sz * 8, i) for i in range(sz)])
                        del w.cells[co]
                src = st.mem[sp.tag]
            covered = sum(c[0] for c in cells.values())
            srcarr = src.arr
            if covered < n and srcarr is None:
                w = st.w(sp.tag)
                w.arr = ABase(so.name, False)
                srcarr = w.arr
            w = st.w(d.tag)
            s.clear_cells(w, d.tag, d.off, n)
            if covered < n:
                if w.arr is None: w.arr = ABase(do.name, False)
                w.arr = ACopy(w.arr, 0, d.off, n, srcarr, 0, sp.off)
            for co, c in cells.items(): w.cells[d.off + co] = c
            return
        if type(n) is int and n <= 16 and False: pass
        s.flush(st, sp.tag, sp.off, n)
        if st.mem[sp.tag].cells: s.no_ptr_overlap(st, sp.tag, sp.off, n)
        s.flush(st, d.tag, d.off, n)
        if st.mem[d.tag].cells: s.no_ptr_overlap(st, d.tag, d.off, n)
        ws = st.mem[sp.tag]
        if ws.arr is None:
            ws = st.w(sp.tag)
            ws.arr = ABase(so.name, False)
        srcarr = ws.arr
        w = st.w(d.tag)
        if w.arr is None: w.arr = ABase(do.name, False)
        w.arr = ACopy(w.arr, 0, d.off, n, srcarr, 0, sp.off)

    def memcpy_fam(s, st, d, sp, n, do, so):
        # whole-element ranges between families of the same stride
        if so.stride and do.stride and so.stride == do.stride and so.payload is None and do.payload is None and \
           type(d.off) is int and d.off == 0 and type(sp.off) is int and sp.off == 0:
            k = s.div_by(n, so.stride)
            if k is None and so.stride & (so.stride - 1) == 0:
                k = simp(LShR(n, so.stride.bit_length() - 1))
            if k is not None:
                src = st.mem[sp.tag]
                w = st.w(d.tag)
                for fo, (fn, ch, fk) in src.fields.items():
                    dch = w.fields.get(fo)
                    if dch is None:
                        b = FBase('%s.%d' % (do.name, fo), fk, fn * 8)
                        if fk == 'p': s.symtags[b.name + '!t'] = [0]
                    else: b = dch[1]
                    w.fields[fo] = (fn, FCopy(b, d.idx, k, ch, sp.idx, fn * 8), fk)
                return
        inpay = lambda o, p: o.stride and o.payload is not None and (type(p.off) is not int or p.off >= o.payload)
        sbytes = (not so.stride) or inpay(so, sp)
        dbytes = (not do.stride) or inpay(do, d)
        if sbytes and dbytes:
            for o, p in ((so, sp), (do, d)):
                if o.stride and type(p.off) is not int:
                    if s.prove(st, ule(o.payload, p.off))[0] != 'yes': raise Unsupported('payload copy')
                if not o.stride: s.flush(st, p.tag)
            for o, p in ((so, sp), (do, d)):
                if st.mem[p.tag].arr is None:
                    st.w(p.tag).arr = ABase(o.name, bool(o.stride))
                if not o.stride and st.mem[p.tag].cells: s.no_ptr_overlap(st, p.tag, p.off, n)
            srcarr = st.mem[sp.tag].arr
            w = st.w(d.tag)
            w.arr = ACopy(w.arr, d.idx if do.stride else 0, d.off, n, srcarr, sp.idx if so.stride else 0, sp.off)
            return
        if type(n) is int and type(d.off) is int and type(sp.off) is int:
            # field-wise: split by known layout of the source (or destination)
            spans = []
            if so.stride:
                src = st.mem[sp.tag].fields
                spans = [(fo, fn, fk) for fo, (fn, _, fk) in src.items() if sp.off <= fo and fo + fn <= sp.off + n]
            else:
                spans = [(co, sz, 'p' if isinstance(v, (Ptr, PI)) else 'i') for co, (sz, v) in st.mem[sp.tag].cells.items() if sp.off <= co and co + sz <= sp.off + n]
                if do.stride:
                    have = {c[0] for c in spans}
                    for fo, (fn, _, fk) in st.mem[d.tag].fields.items():
                        q = fo - d.off + sp.off
                        if sp.off <= q and q + fn <= sp.off + n and q not in have and not any(c <= q < c + m for c, m, _ in spans):
                            spans.append((q, fn, fk))
            vals = [(fo, fn, s.rd(st, Ptr(sp.tag, sp.idx, fo), fn, fk)) for fo, fn, fk in spans]
            for fo, fn, v in vals:
                s.wr(st, Ptr(d.tag, d.idx, d.off + fo - sp.off), fn, v)
            return
        raise Unsupported('memcpy involving element family')

    def access_if(s, st, cond, p, n, write):
        if s.mode == 'pure': return
        if p.tag == 0:
            s.check(st, lnot(cond), 'memory', 'null or invalid pointer with non-zero length')
            return
        o = s.objs[p.tag]
        os_ = st.mem.get(p.tag)
        if os_ is None or not os_.alive:
            s.check(st, lnot(cond), 'memory', 'access to freed or out-of-scope object')
            return
        s.check(st, implies(cond, s.inbounds(o, p, n)), 'memory', ('write' if write else 'read') + ' within the bounds of the object')
        if write and (o.readonly or os_.ro):
            s.check(st, lnot(cond), 'frame', 'write to an object outside the frame')

    # ------------------------------------------------------------ scalar ops
    def ev(s, st, fr, ty, op):
        k = op[0]
        if k == 'l': return fr.loc[op[1]]
        if k == 'c':
            if ty[0] == 'i':
                if ty[1] == 1: return bool(op[1] & 1)
                return op[1] & mask(ty[1])
        return s.const(st, ty, op, fr.fn.mod)

    def toint(s, v, w):
        if isinstance(v, PI):
            a = s.addr(v.p)
            return a if w == 64 else (simp(Extract(w - 1, 0, bv(a, 64))))
        if isinstance(v, Opq): return BitVec('opq!%d' % fresh_id(), w)
        return v

    def binop(s, st, op, ty, a, b, flags):
        if ty[0] == 'vec': raise Unsupported('vector op')
        if ty[0] == 'f': return s.fbin(op, ty, a, b)
        w = ty[1]
        if isinstance(a, PI) or isinstance(b, PI):
            if op == 'sub' and isinstance(a, PI) and isinstance(b, PI):
                p, q = a.p, b.p
                if type(p.tag) is int and type(q.tag) is int and p.tag == q.tag:
                    r = sub(p.off, q.off)
                    o = s.objs.get(p.tag)
                    if o is not None and o.stride: r = add(r, mul(sub(p.idx, q.idx), o.stride))
                    return r
            if op == 'add' and isinstance(a, PI) != isinstance(b, PI):
                p, x = (a.p, b) if isinstance(a, PI) else (b.p, a)
                return PI(Ptr(p.tag, p.idx, add(p.off, x)))
            if op == 'sub' and isinstance(a, PI) and not isinstance(b, PI):
                return PI(Ptr(a.p.tag, a.p.idx, sub(a.p.off, b)))
            if op in ('and', 'urem') and isinstance(a, PI) and type(b) is int and b < 16 and type(a.p.tag) is int and a.p.tag:
                pass
            for x in (a, b):
                if isinstance(x, PI) and s.mode != 'pure': s.addr_axioms(st, x.p)
            a = s.toint(a, w); b = s.toint(b, w)
        if isinstance(a, Opq) or isinstance(b, Opq): return BitVec('opq!%d' % fresh_id(), w)
        if w == 1:
            if op in ('and', 'mul'): return land(a, b)
            if op == 'or': return lor(a, b)
            if op in ('xor', 'add', 'sub'):
                if type(a) is bool and type(b) is bool: return a != b
                if b is True: return lnot(a)
                if b is False: return a
                if a is True: return lnot(b)
                if a is False: return b
                return simp(z3.Xor(a, b))
            raise Unsupported('i1 ' + op)
        ints = type(a) is int and type(b) is int
        if 'nsw' in flags and s.mode != 'pure' and s.ubcheck:
            if ints:
                x, y = sgn(a, w), sgn(b, w)
                r = {'add': x + y, 'sub': x - y, 'mul': x * y, 'shl': x << b if b < w else 1 << 200}[op]
                if not -(1 << (w - 1)) <= r < (1 << (w - 1)):
                    s.check(st, False, 'overflow', 'no signed overflow in ' + op)
            elif op in ('add', 'sub', 'mul'):
                x, y = bv(a, w), bv(b, w)
                if op == 'add': c = And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
                elif op == 'sub': c = And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
                else: c = And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
                s.check(st, simp(c), 'overflow', 'no signed overflow in ' + op)
        if op == 'add': return add(a, b, w)
        if op == 'sub': return sub(a, b, w)
        if op == 'mul': return mul(a, b, w)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if s.mode != 'pure':
                s.check(st, lnot(eq(b, 0, w)), 'arith', 'division by non-zero')
            if ints:
                if b == 0: return 0
                if op == 'udiv': return a // b
                if op == 'urem': return a % b
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                if op == 'sdiv': return q & mask(w)
                return (x - q * y) & mask(w)
            if op == 'sdiv' and s.mode != 'pure' and s.ubcheck:
                s.check(st, lnot(land(eq(b, mask(w), w), eq(a, 1 << (w - 1), w))), 'overflow', 'no signed overflow in division')
            x, y = bv(a, w), bv(b, w)
            if op == 'udiv':
                if type(b) is int and b & (b - 1) == 0: return simp(LShR(x, b.bit_length() - 1))
                return simp(UDiv(x, y))
            if op == 'urem':
                if type(b) is int and b & (b - 1) == 0: return simp(x & (b - 1))
                return simp(URem(x, y))
            if op == 'sdiv' and w == 64 and type(b) is not int and not z3.is_bv_value(b) and not s.bmc:
                # division by a variable: uninterpreted, with its range, until a proof needs its meaning
                q = s.fuf('sdiv', (w, w), w, lambda x, y: x / y, x, y)
                if s.mode != 'pure': st.pc.append(simp(z3.Implies(And(x >= 0, y > 0), And(q >= 0, q <= x))))
                return q
            if op == 'sdiv': return simp(x / y)
            return simp(z3.SRem(x, y))
        if op in ('shl', 'lshr', 'ashr'):
            if s.mode != 'pure' and s.ubcheck and not (type(b) is int and b < w):
                s.check(st, ult(b, w, w), 'overflow', 'shift amount below width')
            if ints:
                if b >= w: return 0
                if op == 'shl': return (a << b) & mask(w)
                if op == 'lshr': return a >> b
                return (sgn(a, w) >> b) & mask(w)
            x, y = bv(a, w), bv(b, w)
            if op == 'shl': return simp(x << y)
            if op == 'lshr': return simp(LShR(x, y))
            return simp(x >> y)
        if ints:
            return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
        x, y = bv(a, w), bv(b, w)
        if op == 'and': return simp(x & y)
        if op == 'or': return simp(x | y)
        if op == 'xor': return simp(x ^ y)
        raise Unsupported(op)

    ubcheck = True

    def fsort(s, w): return z3.Float64() if w == 64 else z3.Float32()
    def fbin(s, op, ty, a, b):
        if ty[1] not in (32, 64) or isinstance(a, Opq) or isinstance(b, Opq): return Opq()
        w = ty[1]
        if not s.fconc(a, b): return s.fuf(op, (w, w), w, lambda a, b: s.fbin0(op, ty, a, b), a, b)
        return s.fbin0(op, ty, a, b)

    # floating point operations are uninterpreted functions of the bits until a proof needs their meaning
    def fconc(s, *a): return s.bmc or all(type(x) in (int, bool) or z3.is_bv_value(x) for x in a)
    def fuf(s, name, ws, rw, body, *args):
        name = 'X!%s!%s!%s' % (name, '_'.join(map(str, ws)), rw)
        d = s.fpufs.get(name)
        if d is None:
            f = z3.Function(name, *([z3.BitVecSort(w) for w in ws] + [z3.BoolSort() if rw == 'b' else z3.BitVecSort(rw)]))
            b = body(*[z3.Var(i, z3.BitVecSort(w)) for i, w in enumerate(ws)])
            d = s.fpufs[name] = (f, b)
        return d[0](*[bv(a, w) for a, w in zip(args, ws)])
    def fexpand(s, fs):
        '''replace the uninterpreted floating point operations by their meaning; None if there are none'''
        if not s.fpufs: return None
        out = []; any_ = False
        defs = list(s.fpufs.values())
        for f in fs:
            f = boolz(f)
            for r in range(20):
                g = z3.substitute_funs(f, *defs)
                if g.eq(f): break
                f = g; any_ = True
            out.append(f)
        return out if any_ else None
    def frefine(s, fs, timeout):
        fs = s.fexpand(fs)
        if fs is None: return None
        t0 = time.time()
        s2 = z3.Solver()
        s2.set('timeout', timeout)
        for f in fs: s2.add(f)
        r = s2.check()
        s.stats.t += time.time() - t0
        s.stats.be['z3-fp'] = s.stats.be.get('z3-fp', 0) + 1
        if r == z3.sat: return 'sat', s2.model()
        return ('unsat', None) if r == z3.unsat else ('unknown', None)

    def fbin0(s, op, ty, a, b):
        w = ty[1]
        x = z3.fpBVToFP(bv(a, w), s.fsort(w)); y = z3.fpBVToFP(bv(b, w), s.fsort(w))
        rm = z3.RNE()
        r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}.get(op)
        if r is None: return BitVec('opq!%d' % fresh_id(), w)
        return simp(z3.fpToIEEEBV(r(rm, x, y)))

    def fcast(s, op, ft, tt, v):
        rm = z3.RNE()
        if op in ('sitofp', 'uitofp'):
            x = bv(v, ft[1])
            f = z3.fpSignedToFP(rm, x, s.fsort(tt[1])) if op == 'sitofp' else z3.fpUnsignedToFP(rm, x, s.fsort(tt[1]))
            return simp(z3.fpToIEEEBV(f))
        x = z3.fpBVToFP(bv(v, ft[1]), s.fsort(ft[1]))
        if op == 'fptosi': return simp(z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(tt[1])))
        if op == 'fptoui': return simp(z3.fpToUBV(z3.RTZ(), x, z3.BitVecSort(tt[1])))
        return simp(z3.fpToIEEEBV(z3.fpToFP(rm, x, s.fsort(tt[1]))))

    def fcmp0(s, p, w, a, b):
        x = z3.fpBVToFP(bv(a, w), s.fsort(w)); y = z3.fpBVToFP(bv(b, w), s.fsort(w))
        uno = Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        m = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'ne': z3.fpNEQ}
        if p == 'uno': r = uno
        elif p == 'ord': r = Not(uno)
        elif p[0] == 'o': r = And(Not(uno), m[p[1:]](x, y))
        else: r = Or(uno, m[p[1:]](x, y))
        return simp(r)

    def peq(s, p, q):
        """pointer equality"""
        if type(p.tag) is int and type(q.tag) is int:
            if p.tag != q.tag:
                # distinct objects never compare equal, except null/integers against integers
                if p.tag == 0 or q.tag == 0:
                    z = p if p.tag == 0 else q
                    if type(z.off) is int and z.off < 4096: return False
                    return False
                return False
            if p.tag == 0: return eq(p.off, q.off)
            o = s.objs[p.tag]
            if o.stride: return land(eq(p.idx, q.idx), eq(p.off, q.off))
            return eq(p.off, q.off)
        te = eq(p.tag, q.tag, 16)
        # null has idx 0/off 0 canonically
        zero = eq(p.tag, 0, 16)
        same = land(eq(p.idx, q.idx), eq(p.off, q.off))
        for z in (p, q):
            if type(z.tag) is int and z.tag == 0:
                return te if (type(z.off) is int and z.off == 0) else land(te, eq(p.off, q.off))
        return land(te, lor(zero, same))

    def icmp(s, st, pred, ty, a, b):
        if ty[0] == 'ptr' or isinstance(a, PI) or isinstance(b, PI):
            p = a.p if isinstance(a, PI) else a if isinstance(a, Ptr) else Ptr(0, 0, a)
            q = b.p if isinstance(b, PI) else b if isinstance(b, Ptr) else Ptr(0, 0, b)
            if pred in ('eq', 'ne'):
                if s.icmp_log is not None and s.mode != 'pure':
                    for x, y in ((p.off, q.off), (p.idx, q.idx)):
                        if not (type(x) is int and type(y) is int): s.icmp_log.append((x, y))
                return s.peq(p, q) if pred == 'eq' else lnot(s.peq(p, q))
            if type(p.tag) is int and type(q.tag) is int and p.tag == q.tag:
                o = s.objs.get(p.tag)
                if o is not None and o.stride:
                    if type(p.off) is int and p.off == q.off:
                        a, b = p.idx, q.idx
                    else: raise Unsupported('ordering of element pointers')
                else: a, b = p.off, q.off
                # offsets are below 2^63 for valid pointers
                w = 64
                if pred[0] == 's': pred = 'u' + pred[1:]
            else:
                for x in (p, q):
                    if s.mode != 'pure': s.addr_axioms(st, x)
                if s.mode != 'pure': s.addr_disjoint(st, p, q)
                a, b = s.addr(p), s.addr(q)
                w = 64
            ty = ('i', 64)
        w = ty[1]
        if w == 1:
            if pred == 'eq': r = s.binop(st, 'xor', ty, a, b, ()); return lnot(r)
            if pred == 'ne': return s.binop(st, 'xor', ty, a, b, ())
            a = ite(a, 1, 0, 8); b = ite(b, 1, 0, 8); w = 8
        if isinstance(a, Opq) or isinstance(b, Opq): return z3.Bool('opq!%d' % fresh_id())
        if w == 64 and s.icmp_log is not None and s.mode != 'pure':
            s.icmp_log.append((a, b))
        if pred == 'eq': return eq(a, b, w)
        if pred == 'ne': return lnot(eq(a, b, w))
        if pred == 'ult': return ult(a, b, w)
        if pred == 'ule': return ule(a, b, w)
        if pred == 'ugt': return ult(b, a, w)
        if pred == 'uge': return ule(b, a, w)
        if pred == 'slt': return slt(a, b, w)
        if pred == 'sle': return sle(a, b, w)
        if pred == 'sgt': return slt(b, a, w)
        if pred == 'sge': return sle(b, a, w)
        raise Unsupported(pred)

    icmp_log = None

    def cast(s, st, op, ft, tt, v):
        if op == 'ptrtoint':
            if tt[1] != 64: return s.cast(st, 'trunc', ('i', 64), tt, s.toint(PI(v), 64))
            if type(v.tag) is int and v.tag == 0: return v.off
            return PI(v)
        if op == 'inttoptr':
            if isinstance(v, PI): return v.p
            if type(v) is not int and ft[1] != 64: v = simp(ZeroExt(64 - ft[1], v))
            return Ptr(0, 0, v)
        if op in ('bitcast', 'addrspacecast'): return v
        if op in ('fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc'):
            if isinstance(v, Opq) or (ft[0] == 'f' and ft[1] == 80) or (tt[0] == 'f' and tt[1] == 80):
                return BitVec('opq!%d' % fresh_id(), tt[1]) if tt[0] == 'i' else Opq()
            if not s.fconc(v): return s.fuf(op, (ft[1],), tt[1], lambda v: s.fcast(op, ft, tt, v), v)
            return s.fcast(op, ft, tt, v)
        fw, tw = ft[1], tt[1]
        if isinstance(v, PI):
            if fw == tw: return v
            if s.mode != 'pure': s.addr_axioms(st, v.p)
            v = s.toint(v, fw)
        if isinstance(v, Opq): return BitVec('opq!%d' % fresh_id(), tw)
        if fw == 1:
            if type(v) is bool: return (1 if op == 'zext' else mask(tw)) if v else 0
            return ite(v, 1 if op == 'zext' else mask(tw), 0, tw)
        if op == 'trunc':
            if tw == 1:
                if type(v) is int: return bool(v & 1)
                return simp(Extract(0, 0, v) == 1)
            if type(v) is int: return v & mask(tw)
            return simp(Extract(tw - 1, 0, v))
        if op == 'zext':
            if type(v) is int: return v
            return simp(ZeroExt(tw - fw, v))
        if op == 'sext':
            if type(v) is int: return sgn(v, fw) & mask(tw)
            return simp(SignExt(tw - fw, v))
        raise Unsupported(op)

    # ------------------------------------------------------------ control
    def enter(s, st, fn, args, ret):
        fn.mod.ensure(fn)
        s.funcs_run.add(fn)
        if len(st.frames) > 80: raise Unsupported('call depth')
        fr = Frame(fn)
        for (ty, nm, bvt), a in zip(fn.params, args):
            fr.loc[nm] = a
        fr.blk = fn.order[0]
        fr.ip = 0
        fr.ret = ret
        st.frames.append(fr)
        for (ty, nm, bvt), a in zip(fn.params, args):
            if bvt is not None:
                n = fn.mod.size(bvt)
                o = s.new_obj(st, 'byval', 'stack', n)
                fr.stk.append(o.id)
                q = a
                if type(q.tag) is int and q.tag != 0 and q.tag in st.mem:
                    s.memcpy(st, Ptr(o.id), q, n)
                fr.loc[nm] = Ptr(o.id)

    def pop_frame(s, st):
        fr = st.frames.pop()
        for k in fr.active.values():
            if k.kind == 'probe': raise PathEnd('left probed loop')
        if st.specs: st.specs = [x for x in st.specs if x[0] <= len(st.frames)]
        for oid in fr.stk:
            o = st.mem.get(oid)
            if o is not None:
                del st.mem[oid]
        return fr

    def do_return(s, st, v, out):
        fr = s.pop_frame(st)
        if not st.frames:
            s.on_exit(st, v)
            return
        caller = st.frames[-1]
        ret = fr.ret            # (res, normal dest or None)
        if ret is None:
            return
        s.bind(st, ret, v)
        out.append(st)

    def bind(s, st, ret, v):
        caller = st.frames[-1]
        res, dest = ret
        if res: caller.loc[res] = v
        if dest is not None:
            s.jump(st, dest[0])
        else:
            caller.ip += 1

    def jump(s, st, to):
        """transfer to block `to` in the top frame; may raise PathEnd"""
        fr = st.frames[-1]
        frm = fr.blk
        fn = fr.fn
        loops = ir.find_loops(fn)
        # leaving loops
        if fr.active:
            for h in list(fr.active):
                c = fr.active[h]
                if to not in c.body:
                    del fr.active[h]
                    if c.kind == 'probe': raise PathEnd('left probed loop')
                    if c.kind == 'spec':
                        d = len(st.frames)
                        st.specs = [x for x in st.specs if not (x[0] == d and x[1] == h)]
        blk = fn.blocks[to]
        vals = []
        n = 0
        for ins in blk.insts:
            if ins.op != 'phi': break
            n += 1
            vals.append((ins.res, s.ev(st, fr, ins.ty, ins.x[frm])))
        for r, v in vals: fr.loc[r] = v
        fr.prev = frm
        fr.blk = to
        fr.ip = n
        if to in loops and s.mode != 'pure':
            body = loops[to]
            c = fr.active.get(to)
            if c is not None and frm in body:
                # back edge
                if c.kind in ('probe', 'inv'):
                    c.hits.append(st)
                    raise PathEnd('back edge')
                c2 = c.copy()
                c2.count += 1
                fr.active[to] = c2
                lim = s.bmc or ((st.unroll or c.lim) if c.kind == 'unroll' else 100000)
                if c.kind == 'unroll' and c2.count > lim:
                    if s.bmc: raise PathEnd('unwound')
                    if s.mode == 'full':
                        r, m = s.solve(st.pc, s.instances(st, []), 5000)
                        if r != 'unsat':
                            l, f = s.where(st)
                            s.failures.append(Failure('undecided', l, f, 'loop not exhausted within %d iterations' % lim, None, st))
                    raise PathEnd('unwound')
                return
            # entry
            k = st.unroll
            if not k:
                for nm, kk in st.opts.get('unroll_in', ()):
                    if nm in fr.fn.name: k = kk
            if s.bmc or k:
                fr.active[to] = LoopCtx('unroll', to, body)
                fr.active[to].lim = k
            elif c is None:
                snap = st.fork()
                c = LoopCtx('spec', to, body)
                fr.active[to] = c
                st.specs = st.specs + [(len(st.frames), to, snap)]

    def unwind(s, st):
        """propagate st.exc; positions st at a landing pad or ends the path"""
        while st.frames:
            fr = s.pop_frame(st)
            if not st.frames: break
            caller = st.frames[-1]
            ret = fr.ret
            if ret is not None and ret[1] is not None:
                dest = ret[1][1]
                # does the landing pad handle it?
                blk = caller.fn.blocks[dest]
                lp = None
                for ins in blk.insts:
                    if ins.op == 'landingpad': lp = ins
                sel = s.select_handler(st, caller, lp)
                if sel is not None:
                    st.exc = st.exc[:2] + (sel,)
                    s.jump(st, dest)
                    return True
        # uncaught
        raise PathEnd('uncaught')

    def raise_exc(s, st, obj, ti):
        st.exc = (obj, ti, 0)
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.blk].insts[fr.ip]
        if not s.has_handler(st):
            s.check(st, False, 'exception', 'no exception of type %s escapes' % demangle(ti or '?'))
            raise PathEnd('uncaught')
        if ins.op == 'invoke':
            dest = ins.x[3][1]
            lp = [i for i in fr.fn.blocks[dest].insts if i.op == 'landingpad'][0]
            sel = s.select_handler(st, fr, lp)
            if sel is not None:
                st.exc = (obj, ti, sel)
                s.jump(st, dest)
                return
        s.unwind(st)

    def has_handler(s, st):
        """is there any catching frame (not just cleanups)?"""
        fr = st.frames[-1]
        for k in range(len(st.frames) - 1, -1, -1):
            fr = st.frames[k]
            ins = fr.fn.blocks[fr.blk].insts[fr.ip] if k == len(st.frames) - 1 else None
            if ins is not None and ins.op != 'invoke': continue
            if k < len(st.frames) - 1:
                ret = st.frames[k + 1].ret
                if ret is None or ret[1] is None: continue
                dest = ret[1][1]
            else: dest = ins.x[3][1]
            lp = [i for i in fr.fn.blocks[dest].insts if i.op == 'landingpad'][0]
            sel = s.select_handler(st, fr, lp)
            if sel is not None and sel != 0: return True
            if sel == 0: continue
        return False

    def ti_bases(s, ti, seen=None):
        out = [ti]
        for m in s.mods:
            g = m.globals.get(ti)
            if g is not None and g.init is not None and g.init[0] == 'agg':
                for t, v in g.init[1][2:]:
                    if v[0] == 'g' and v[1].startswith('_ZTI'):
                        out += s.ti_bases(v[1])
                return out
        STD = {'_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
               '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt11logic_error': '_ZTISt9exception',
               '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt9bad_alloc': '_ZTISt9exception',
               '_ZTISt17bad_function_call': '_ZTISt9exception', '_ZTISt8bad_cast': '_ZTISt9exception',
               '_ZTISt12system_error': '_ZTISt13runtime_error'}
        if ti in STD: out += s.ti_bases(STD[ti])
        return out

    def typeid(s, name):
        return s.typeids.setdefault(name, len(s.typeids) + 1)

    def select_handler(s, st, fr, lp):
        """selector value, 0 for cleanup, None when this pad is not entered"""
        ti = st.exc[1]
        bases = s.ti_bases(ti) if ti else []
        cleanup = False
        for k, v in lp.x:
            if k == 'cleanup': cleanup = True
            elif k == 'catch':
                if v[0] == 'null': return s.typeid('catchall')
                if v[0] == 'g' and v[1] in bases: return s.typeid(v[1])
        return 0 if cleanup else None

    def on_exit(s, st, v):
        s.completed += 1
        s.exits.append(st)

    # ------------------------------------------------------------ main loop
    def run(s, work):
        while work:
            st = work.pop()
            try:
                while st is not None:
                    nxt = s.step(st)
                    if nxt is st: continue
                    if nxt is None: break
                    # list
                    for x in nxt[:-1]: work.append(x)
                    st = nxt[-1] if nxt else None
            except PathEnd:
                pass
            except Unsupported as e:
                if not getattr(e, 'stack', None):
                    e.stack = s.stack(st)
                raise
            except SpecAbort as e:
                d, h, snap = e.entry
                snap = snap.fork()
                try:
                    st2 = s.enter_inv(snap, h)
                    if st2 is not None: work.append(st2)
                except PathEnd:
                    pass

    def step(s, st):
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.blk].insts[fr.ip]
        s.steps += 1
        if s.steps & 1023 == 0:
            if s.deadline and time.time() > s.deadline: raise Budget('time budget exhausted')
            if s.steps > s.maxsteps: raise Budget('step budget exhausted')
        h = s.DISPATCH.get(ins.op)
        if h is None: raise Unsupported('instruction ' + ins.op)
        return h(s, st, fr, ins)

    def i_bin(s, st, fr, ins):
        a = s.ev(st, fr, ins.ty, ins.a[0])
        b = s.ev(st, fr, ins.ty, ins.a[1])
        fr.loc[ins.res] = s.binop(st, ins.op, ins.ty, a, b, ins.flags)
        fr.ip += 1
        return st

    def i_icmp(s, st, fr, ins):
        a = s.ev(st, fr, ins.ty, ins.a[0])
        b = s.ev(st, fr, ins.ty, ins.a[1])
        fr.loc[ins.res] = s.icmp(st, ins.x, ins.ty, a, b)
        fr.ip += 1
        return st

    def i_fcmp(s, st, fr, ins):
        a = s.ev(st, fr, ins.ty, ins.a[0])
        b = s.ev(st, fr, ins.ty, ins.a[1])
        w = ins.ty[1]
        if isinstance(a, Opq) or isinstance(b, Opq) or w not in (32, 64):
            r = z3.Bool('opq!%d' % fresh_id())
        else:
            p = ins.x
            r = s.fcmp0(p, w, a, b) if s.fconc(a, b) else s.fuf('fcmp_' + p, (w, w), 'b', lambda a, b: s.fcmp0(p, w, a, b), a, b)
        fr.loc[ins.res] = r
        fr.ip += 1
        return st

    def i_cast(s, st, fr, ins):
        v = s.ev(st, fr, ins.x, ins.a[0])
        fr.loc[ins.res] = s.cast(st, ins.op, ins.x, ins.ty, v)
        fr.ip += 1
        return st

    def i_alloca(s, st, fr, ins):
        n = fr.fn.mod.size(ins.ty)
        if ins.x is not None:
            c = s.ev(st, fr, ins.x[0], ins.x[1])
            if type(c) is not int: raise Unsupported('variable alloca')
            n *= c
        o = s.new_obj(st, ins.res, 'stack', n)
        fr.stk.append(o.id)
        fr.loc[ins.res] = Ptr(o.id, 0, 0)
        fr.ip += 1
        return st

    def multi(s, st, p, f):
        """resolve p's tag (forking) and apply f(state, ptr) to each"""
        if isinstance(p, Ptr) and type(p.tag) is int:
            f(st, p)
            return st
        rs = s.resolve_tag(st, p)
        out = []
        for st2, q in rs:
            try:
                f(st2, q)
                out.append(st2)
            except PathEnd:
                pass
        if not out: return None
        return out if len(out) > 1 else (out[0] if out[0] is st else out)

    def i_load(s, st, fr, ins):
        p = s.ev(st, fr, PTR_, ins.a[0])
        def f(x, q):
            r = s.load(x, q, ins.ty, fr.fn.mod)
            t = x.frames[-1]
            t.loc[ins.res] = r
            t.ip += 1
        return s.multi(st, p, f)

    def i_store(s, st, fr, ins):
        v = s.ev(st, fr, ins.ty, ins.a[0])
        p = s.ev(st, fr, PTR_, ins.a[1])
        def f(x, q):
            s.store(x, q, ins.ty, v, fr.fn.mod)
            x.frames[-1].ip += 1
        return s.multi(st, p, f)

    def i_gep(s, st, fr, ins):
        base = s.ev(st, fr, PTR_, ins.a[0][1])
        idx = [(t, s.ev(st, fr, t, v)) for t, v in ins.a[1:]]
        def f(x, q):
            t = x.frames[-1]
            t.loc[ins.res] = s.gep(x, fr.fn.mod, ins.ty, q, idx)
            t.ip += 1
        if isinstance(base, Ptr) and type(base.tag) is not int:
            return s.multi(st, base, f)
        f(st, base)
        return st

    def i_br(s, st, fr, ins):
        if not ins.a:
            s.jump(st, ins.x[0])
            return st
        c = s.ev(st, fr, BOOL_, ins.a[0])
        if c is True:
            s.jump(st, ins.x[0]); return st
        if c is False:
            s.jump(st, ins.x[1]); return st
        return s.branch(st, [(c, ins.x[0]), (lnot(c), ins.x[1])])

    def branch(s, st, alts):
        """alts: [(cond, target block)]"""
        if s.mode == 'pure':
            feas = alts
        else:
            feas = [(c, t) for c, t in alts[:-1] if s.feasible(st, c)]
            if not feas: feas = [alts[-1]]
            elif s.feasible(st, alts[-1][0]): feas.append(alts[-1])
        if len(feas) > 1 and st.specs and s.mode != 'pure':
            raise SpecAbort(st.specs[0])
        out = []
        for n, (c, t) in enumerate(feas):
            x = st if n == len(feas) - 1 else st.fork()
            try:
                s.assume(x, c)
                s.jump(x, t)
                out.append(x)
            except PathEnd:
                pass
            except SpecAbort:
                raise
        if not out: return None
        return out

    def i_switch(s, st, fr, ins):
        w = ins.ty[1]
        v = s.toint(s.ev(st, fr, ins.ty, ins.a[0]), w)
        d, cs = ins.x
        if type(v) in (int, bool):
            for cv, l in cs:
                if (cv & mask(w)) == int(v):
                    s.jump(st, l); return st
            s.jump(st, d); return st
        alts = []
        rest = []
        bydest = {}
        for cv, l in cs:
            c = eq(v, cv & mask(w), w)
            bydest.setdefault(l, []).append(c)
            rest.append(lnot(c))
        for l, c in bydest.items(): alts.append((lor(*c), l))
        alts.append((land(*rest), d))
        return s.branch(st, alts)

    def i_ret(s, st, fr, ins):
        v = s.ev(st, fr, ins.ty, ins.a[0]) if ins.a else None
        out = []
        s.do_return(st, v, out)
        return out[0] if out and out[0] is st else (out or None)

    def i_unreachable(s, st, fr, ins):
        if s.mode != 'pure': s.check(st, False, 'unreachable', 'unreachable code not reached')
        raise PathEnd('unreachable')

    def i_select(s, st, fr, ins):
        c = s.ev(st, fr, BOOL_, ins.a[0])
        a = s.ev(st, fr, ins.ty, ins.a[1])
        b = s.ev(st, fr, ins.ty, ins.a[2])
        if c is True: r = a
        elif c is False: r = b
        else:
            r = s.sel(c, a, b, ins.ty)
        fr.loc[ins.res] = r
        fr.ip += 1
        return st

    def sel(s, c, a, b, ty):
        if type(a) is tuple:
            return tuple(s.sel(c, x, y, None) for x, y in zip(a, b))
        if type(a) is bool or type(b) is bool or isinstance(a, z3.BoolRef):
            return simp(If(c, boolz(a), boolz(b)))
        isp = isinstance(a, (Ptr, PI)) or isinstance(b, (Ptr, PI))
        if isp:
            wasPI = isinstance(a, PI) or isinstance(b, PI)
            r = merge(c, a if not (type(a) is int) else Ptr(0, 0, a), b if not (type(b) is int) else Ptr(0, 0, b), 64)
            return PI(r) if wasPI and ty != ('ptr',) else r
        w = ty[1] if ty else (a.size() if not type(a) is int else b.size())
        if type(a) is int and type(b) is int and a == b: return a
        return simp(If(c, bv(a, w), bv(b, w)))

    def i_extractvalue(s, st, fr, ins):
        v = s.ev(st, fr, ins.ty, ins.a[0])
        for i in ins.x: v = v[i]
        fr.loc[ins.res] = v
        fr.ip += 1
        return st

    def i_insertvalue(s, st, fr, ins):
        v = s.ev(st, fr, ins.ty, ins.a[0])
        e = s.ev(st, fr, ins.x[0], ins.a[1])
        def put(v, idx):
            v = list(v)
            v[idx[0]] = e if len(idx) == 1 else put(v[idx[0]], idx[1:])
            return tuple(v)
        fr.loc[ins.res] = put(v, ins.x[1])
        fr.ip += 1
        return st

    def i_freeze(s, st, fr, ins):
        fr.loc[ins.res] = s.ev(st, fr, ins.ty, ins.a[0])
        fr.ip += 1
        return st

    def i_fneg(s, st, fr, ins):
        v = s.ev(st, fr, ins.ty, ins.a[0])
        w = ins.ty[1]
        fr.loc[ins.res] = v if isinstance(v, Opq) else s.binop(st, 'xor', ('i', w), v, 1 << (w - 1), ())
        fr.ip += 1
        return st

    def i_nop(s, st, fr, ins):
        fr.ip += 1
        return st

    def i_landingpad(s, st, fr, ins):
        fr.loc[ins.res] = (st.exc[0], st.exc[2] & mask(32))
        fr.ip += 1
        return st

    def i_resume(s, st, fr, ins):
        s.unwind(st)
        return st

    def i_atomicrmw(s, st, fr, ins):
        p = s.ev(st, fr, PTR_, ins.a[0])
        v = s.ev(st, fr, ins.ty, ins.a[1])
        def f(x, q):
            old = s.load(x, q, ins.ty, fr.fn.mod)
            op = ins.x
            if op == 'xchg': nv = v
            elif op in ('add', 'sub', 'and', 'or', 'xor'): nv = s.binop(x, op, ins.ty, old, v, ())
            else: raise Unsupported('atomicrmw ' + op)
            s.store(x, q, ins.ty, nv, fr.fn.mod)
            t = x.frames[-1]
            t.loc[ins.res] = old
            t.ip += 1
        return s.multi(st, p, f)

    def i_cmpxchg(s, st, fr, ins):
        p = s.ev(st, fr, PTR_, ins.a[0])
        c = s.ev(st, fr, ins.ty, ins.a[1])
        nv = s.ev(st, fr, ins.ty, ins.a[2])
        def f(x, q):
            old = s.load(x, q, ins.ty, fr.fn.mod)
            ok = s.icmp(x, 'eq', ins.ty, old, c)
            s.store(x, q, ins.ty, s.sel(ok, nv, old, ins.ty) if type(ok) is not bool else (nv if ok else old), fr.fn.mod)
            t = x.frames[-1]
            t.loc[ins.res] = (old, ok)
            t.ip += 1
        return s.multi(st, p, f)

    def i_call(s, st, fr, ins):
        callee, args, _, dest = ins.x
        if callee[0] == 'g':
            name = callee[1]
            mod = fr.fn.mod
        else:
            p = s.ev(st, fr, PTR_, callee)
            if type(p.tag) is not int:
                out = []
                rs = s.resolve_tag(st, p)
                for x, q in rs:
                    # re-evaluate with the tag pinned
                    if callee[0] == 'l': x.frames[-1].loc[callee[1]] = q
                    out.append(x)
                return out
            if p.tag == 0: s.fail(st, 'memory', 'call through a null function pointer')
            o = s.objs[p.tag]
            if o.kind != 'func': s.fail(st, 'memory', 'call through a data pointer')
            name, mod = o.func
        av = [s.ev(st, fr, t, v) if t != ('metadata',) else None for t, v, _ in args]
        return s.call(st, name, mod, av, ins)

    i_invoke = i_call

    def call(s, st, name, mod, av, ins):
        ret = (ins.res, ins.x[3])
        fn = None
        md = s.models.get(name)
        if md is None or not md.force:
            fn = s.lookup_func(name, mod)
        if fn is None and md is None:
            for pre, m2 in s.prefix_models:
                if name.startswith(pre):
                    md = m2
                    break
        if fn is None and md is None:
            fn = s.lookup_lib(name)
        if fn is not None:
            if s.mode == 'pure' and False: pass
            s.enter(st, fn, av, ret)
            if fn.vararg: st.frames[-1].va = [(a[0], v) for a, v in list(zip(ins.x[1], av))[len(fn.params):]]
            return st
        if md is None:
            raise UnknownFn('call to %s (%s): no body and no contract' % (name, demangle(name)))
        if md.trusted: s.trusted.add(md.trusted)
        fr = st.frames[-1]
        depth = len(st.frames)
        r = md.fn(s, st, av, ins)
        if isinstance(r, Forks):
            out = []
            for x, v in r.alts:
                try:
                    if v is not HANDLED: s.bind(x, ret, v)
                    out.append(x)
                except PathEnd:
                    pass
            if len(r.alts) > 1 and st.specs and s.mode != 'pure': raise SpecAbort(st.specs[0])
            return out or None
        if r is HANDLED: return st
        s.bind(st, ret, r)
        return st

    # ------------------------------------------------------------ pure evaluation of contract predicates
    def eval_fn(s, st, p, args):
        """value of calling function pointer p (concrete) on args in a copy of st, all paths merged"""
        o = s.objs[p.tag]
        name, mod = o.func
        fn = s.lookup_func(name, mod)
        if fn is None: raise Unsupported('predicate ' + name)
        old = s.mode
        oldlog = s.icmp_log
        s.icmp_log = None
        s.mode = 'pure'
        results = []
        try:
            x = st.fork()
            x.frames = []
            x.specs = []
            x.unroll = 0
            n0 = len(x.pc)
            s.enter(x, fn, args, None)
            root = x.frames[0]
            work = [x]
            guard = 0
            while work:
                y = work.pop()
                guard += 1
                if guard > 400: raise Unsupported('predicate too large')
                try:
                    while True:
                        fr = y.frames[-1]
                        i2 = fr.fn.blocks[fr.blk].insts[fr.ip]
                        if i2.op == 'ret' and len(y.frames) == 1:
                            v = s.ev(y, fr, i2.ty, i2.a[0]) if i2.a else None
                            results.append((y.pc[n0:], v))
                            break
                        nxt = s.step(y)
                        if nxt is y: continue
                        if nxt is None: break
                        for z in nxt[:-1]: work.append(z)
                        y = nxt[-1]
                except PathEnd:
                    pass
        finally:
            s.mode = old
            s.icmp_log = oldlog
        if not results: raise Unsupported('predicate has no result')
        conds, v = results[-1]
        for conds, w in reversed(results[:-1]):
            v = s.sel2(land(*conds), w, v)
        return v

    def sel2(s, c, a, b):
        if c is True: return a
        if c is False: return b
        if isinstance(a, (Ptr, PI)) or isinstance(b, (Ptr, PI)):
            return merge(c, a, b, 64)
        if type(a) is bool or type(b) is bool or isinstance(a, z3.BoolRef):
            return simp(If(c, boolz(a), boolz(b)))
        if type(a) is int and type(b) is int:
            if a == b: return a
            return norm(If(c, BitVecVal(a, 64), BitVecVal(b, 64)))
        w = a.size() if type(a) is not int else b.size()
        return simp(If(c, bv(a, w), bv(b, w)))

    from .loops import enter_inv, havoc, diff_states, houdini, gather_vars

    def run_harness(s, name):
        fn = s.lookup_func(name, s.m)
        if fn is None: raise Unsupported('no harness ' + name)
        st = State()
        st.model = None
        s.exits = []
        s.enter(st, fn, [], None)
        try:
            s.run([st])
        except Stop:
            pass

PTR_ = ('ptr',)
BOOL_ = ('i', 1)

class Forks:
    def __init__(s, alts): s.alts = alts
HANDLED = object()

E = Engine
Engine.prefix_models = []
Engine.DISPATCH = {}
for op in ir.Module.BIN: Engine.DISPATCH[op] = E.i_bin
for op in ir.Module.CASTS: Engine.DISPATCH[op] = E.i_cast
for op in ('icmp', 'fcmp', 'alloca', 'load', 'store', 'br', 'switch', 'ret', 'unreachable', 'select', 'extractvalue',
           'insertvalue', 'freeze', 'fneg', 'landingpad', 'resume', 'atomicrmw', 'cmpxchg', 'call', 'invoke'):
    Engine.DISPATCH[op] = getattr(E, 'i_' + op)
Engine.DISPATCH['getelementptr'] = E.i_gep
Engine.DISPATCH['fence'] = E.i_nop
