"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits
from /repo's sources.  Only the constructs clang/opt produce for this code base
are accepted; anything else raises IRError (an extraction break, never a
violation)."""
import re

class IRError(Exception):
    pass

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"[^"]*")
 | (?P<loc>%"[^"]*"|%[-\w.$]+)
 | (?P<glob>@"[^"]*"|@[-\w.$]+)
 | (?P<str>"[^"]*")
 | (?P<dots>\.\.\.)
 | (?P<hex>0x[KLMH]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(\.\d+(e[+-]?\d+)?)?)
 | (?P<attr>\#\d+)
 | (?P<meta>![\w.]*(\{[^}]*\})?)
 | (?P<word>[A-Za-z_$][\w.$]*)
 | (?P<p>[()\[\]{}<>,=*|:])
''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise IRError('lex: %r' % s[i:i + 80])
        i = m.end()
        k = m.lastgroup
        # lastgroup may be an inner unnamed group's parent; compute by presence
        if m.group('ws') is not None:
            continue
        out.append(m.group(0))
    return out

def unq(name):
    # %"foo bar" -> %foo bar
    if len(name) > 1 and name[1] == '"':
        return name[0] + re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), name[2:-1])
    return name

VOID = ('void',)
PTR = ('ptr',)
def INT(n): return ('i', n)

class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'dbg', 'flags', 'txt')
    def __init__(s, op, res=None, ty=None, a=(), x=None, dbg=None, flags=()):
        s.op = op; s.res = res; s.ty = ty; s.a = a; s.x = x; s.dbg = dbg; s.flags = flags
        s.txt = None

class Block:
    __slots__ = ('name', 'insts', 'succ')
    def __init__(s, name):
        s.name = name; s.insts = []; s.succ = []

class Func:
    def __init__(s, name, rty, params, vararg, mod):
        s.name = name; s.rty = rty; s.params = params; s.vararg = vararg
        s.blocks = None; s.order = []; s.mod = mod; s.loops = None; s.subprog = None
        s.internal = False

class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'mod', 'tls', 'external', 'internal')

SKIPATTR = set('''noundef nonnull zeroext signext inreg nocapture readonly writeonly readnone returned
 noalias immarg nofree swiftself nest dso_local fastcc ccc tail musttail notail nocallback
 unnamed_addr local_unnamed_addr noreturn nounwind writable dead_on_unwind internal linkonce_odr
 weak_odr available_externally private external weak linkonce common extern_weak hidden protected default
 mustprogress uwtable noinline optnone allocsize'''.split())

class P:
    """token stream parser"""
    def __init__(s, toks, mod):
        s.t = toks; s.i = 0; s.m = mod
    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else None
    def next(s):
        v = s.t[s.i]; s.i += 1
        return v
    def eat(s, v):
        if s.i < len(s.t) and s.t[s.i] == v:
            s.i += 1
            return True
        return False
    def exp(s, v):
        if not s.eat(v):
            raise IRError('expected %r at %r' % (v, ' '.join(s.t[max(0, s.i - 8):s.i + 8])))

    def skip_attrs(s):
        byval = None
        while True:
            t = s.peek()
            if t is None:
                return byval
            if t in SKIPATTR:
                s.i += 1
                if s.peek() == '(' and t in ('memory', 'allocsize'):
                    s.parens()
                continue
            if t in ('align', 'alignstack', 'addrspace'):
                s.i += 1
                if s.peek() == '(':
                    s.parens()
                else:
                    s.i += 1
                continue
            if t in ('dereferenceable', 'dereferenceable_or_null', 'nofpclass', 'range', 'captures', 'memory', 'initializes'):
                s.i += 1
                s.parens()
                continue
            if t in ('sret', 'byval', 'byref', 'elementtype', 'preallocated', 'inalloca'):
                s.i += 1
                s.exp('(')
                ty = s.type()
                s.exp(')')
                if t == 'byval':
                    byval = ty
                continue
            if t[0] == '#':
                s.i += 1
                continue
            if t[0] == '"':  # string attribute
                s.i += 1
                if s.eat('='):
                    s.i += 1
                continue
            return byval

    def parens(s):
        s.exp('(')
        d = 1
        while d:
            t = s.next()
            if t == '(':
                d += 1
            elif t == ')':
                d -= 1

    def type(s):
        t = s.next()
        if t == 'void': r = VOID
        elif t == 'ptr': r = PTR
        elif t[0] == 'i' and t[1:].isdigit(): r = ('i', int(t[1:]))
        elif t == 'double': r = ('f', 64)
        elif t == 'float': r = ('f', 32)
        elif t == 'x86_fp80': r = ('f', 80)
        elif t == 'half': r = ('f', 16)
        elif t == 'label': r = ('label',)
        elif t == 'metadata': r = ('metadata',)
        elif t == 'token': r = ('token',)
        elif t[0] == '%':
            r = ('named', unq(t))
        elif t == '[':
            n = int(s.next())
            w = s.next()
            if w != 'x': raise IRError('array type')
            e = s.type()
            s.exp(']')
            r = ('arr', n, e)
        elif t == '{':
            r = ('st', tuple(s.types('}')), False)
        elif t == '<':
            if s.peek() == '{':
                s.next()
                fs = tuple(s.types('}'))
                s.exp('>')
                r = ('st', fs, True)
            else:
                n = int(s.next())
                w = s.next()
                e = s.type()
                s.exp('>')
                r = ('vec', n, e)
        elif t == 'opaque':
            r = ('opaque',)
        else:
            raise IRError('type %r near %r' % (t, ' '.join(s.t[max(0, s.i - 6):s.i + 6])))
        if s.peek() == 'addrspace':
            s.next(); s.parens()
        while s.peek() == '(' and False:
            pass
        return r

    def types(s, end):
        out = []
        if s.eat(end):
            return out
        while True:
            out.append(s.type())
            if s.eat(end):
                return out
            s.exp(',')

    def value(s, ty):
        t = s.next()
        if t[0] == '%':
            return ('l', unq(t))
        if t[0] == '@':
            return ('g', unq(t)[1:])
        if t == 'true': return ('c', 1)
        if t == 'false': return ('c', 0)
        if t == 'null': return ('null',)
        if t in ('undef', 'poison'): return ('undef',)
        if t == 'none': return ('undef',)
        if t == 'zeroinitializer': return ('zero',)
        if t[0] == 'c' and len(t) > 1 and t[1] == '"':
            raw = t[2:-1]
            b = bytearray()
            i = 0
            while i < len(raw):
                if raw[i] == '\\' and raw[i + 1] == '\\':
                    b.append(92); i += 2
                elif raw[i] == '\\':
                    b.append(int(raw[i + 1:i + 3], 16)); i += 3
                else:
                    b.append(ord(raw[i])); i += 1
            return ('str', bytes(b))
        if ty[0] == 'f':
            return ('fc', t)
        if t.lstrip('-').isdigit():
            return ('c', int(t))
        if t.startswith('0x'):
            return ('fc', t)
        if t in ('{', '['):
            end = '}' if t == '{' else ']'
            return ('agg', s.tvals(end))
        if t == '<':
            if s.eat('{'):
                v = ('agg', s.tvals('}'))
                s.exp('>')
                return v
            return ('agg', s.tvals('>'))
        if t == 'getelementptr':
            inb = s.eat('inbounds')
            if s.peek() == 'inrange':
                s.next(); s.parens()
            s.exp('(')
            bt = s.type()
            s.exp(',')
            ops = s.tvals(')')
            return ('cgep', bt, ops)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            s.exp('(')
            ft = s.type()
            v = s.value(ft)
            if s.next() != 'to': raise IRError('cast')
            tt = s.type()
            s.exp(')')
            return ('ccast', t, ft, v, tt)
        if t in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            while s.peek() in ('nuw', 'nsw', 'exact'):
                s.next()
            s.exp('(')
            ops = s.tvals(')')
            return ('cbin', t, ops)
        if t == 'icmp':
            pred = s.next()
            s.exp('(')
            ops = s.tvals(')')
            return ('cicmp', pred, ops)
        if t == 'select':
            s.exp('(')
            ops = s.tvals(')')
            return ('csel', ops)
        if t == 'dso_local_equivalent' or t == 'no_cfi':
            return ('g', unq(s.next())[1:])
        raise IRError('value %r near %r' % (t, ' '.join(s.t[max(0, s.i - 6):s.i + 6])))

    def tval(s):
        ty = s.type()
        s.skip_attrs()
        if s.peek() == 'inrange':
            s.next()
            if s.peek() == '(':
                s.parens()
            ty = s.type() if False else ty
        return (ty, s.value(ty))

    def tvals(s, end):
        out = []
        if s.eat(end):
            return out
        while True:
            if s.peek() == 'inrange':
                s.next()
                if s.peek() == '(':
                    s.parens()
            out.append(s.tval())
            if s.eat(end):
                return out
            s.exp(',')

class Module:
    def __init__(s, text, name=''):
        s.name = name
        s.types = {}
        s.globals = {}
        s.funcs = {}
        s.aliases = {}
        s.dbg = {}
        s.sub = {}
        s._lay = {}
        s.parse(text)

    # ------------------------------------------------------------ layout
    def resolve(s, ty):
        while ty[0] == 'named':
            t = s.types.get(ty[1])
            if t is None:
                raise IRError('unknown type %s' % ty[1])
            ty = t
        return ty

    def align(s, ty):
        k = ty[0]
        if k == 'i':
            n = (ty[1] + 7) // 8
            a = 1
            while a < n: a *= 2
            return min(a, 16)
        if k == 'ptr': return 8
        if k == 'f': return {16: 2, 32: 4, 64: 8, 80: 16}[ty[1]]
        if k == 'arr': return s.align(ty[2])
        if k == 'vec': return max(1, s.size(ty))
        if k == 'named' or k == 'st':
            return s.layout(ty)[2]
        raise IRError('align %r' % (ty,))

    def size(s, ty):
        """alloc size"""
        k = ty[0]
        if k == 'i':
            a = s.align(ty)
            n = (ty[1] + 7) // 8
            return (n + a - 1) // a * a
        if k == 'ptr': return 8
        if k == 'f': return {16: 2, 32: 4, 64: 8, 80: 16}[ty[1]]
        if k == 'arr': return ty[1] * s.size(ty[2])
        if k == 'vec': return ty[1] * s.size(ty[2])
        if k == 'named' or k == 'st':
            return s.layout(ty)[0]
        raise IRError('size %r' % (ty,))

    def layout(s, ty):
        """(size, offsets, align) of struct"""
        r = s._lay.get(ty)
        if r: return r
        t = s.resolve(ty)
        if t[0] != 'st':
            r = (s.size(t), [0], s.align(t))
            s._lay[ty] = r
            return r
        off = 0; al = 1; offs = []
        for f in t[1]:
            a = 1 if t[2] else s.align(f)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s.size(f)
        off = (off + al - 1) // al * al
        r = (off, offs, al)
        s._lay[ty] = r
        return r

    # ------------------------------------------------------------ parsing
    def parse(s, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if not ln or ln[0] == ';':
                i += 1
                continue
            if ln.startswith('%'):
                toks = tokenize(ln.split(' ; ')[0])
                p = P(toks, s)
                nm = unq(p.next())
                p.exp('=')
                if p.next() != 'type': raise IRError(ln)
                s.types[nm] = p.type()
            elif ln.startswith('@'):
                s.parse_global(ln)
            elif ln.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                s.parse_func(ln, lines[i + 1:j])
                i = j
            elif ln.startswith('declare'):
                s.parse_head(ln, False)
            elif ln.startswith('!'):
                m = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+).*?scope: !(\d+)', ln)
                if m:
                    s.dbg[m.group(1)] = (int(m.group(2)), m.group(3))
                else:
                    m = re.match(r'!(\d+) = (?:distinct )?!(DISubprogram|DILexicalBlock|DILexicalBlockFile|DIFile)\((.*)\)', ln)
                    if m:
                        s.sub[m.group(1)] = (m.group(2), m.group(3))
            elif ln.startswith('attributes') or ln.startswith('source_filename') or ln.startswith('target') or ln.startswith('$') or ln.startswith('module asm') or ln.startswith('uselistorder'):
                pass
            else:
                raise IRError('top: ' + ln[:100])
            i += 1

    def loc(s, dbg):
        d = s.dbg.get(dbg) if dbg else None
        if not d: return '?'
        line, sc = d
        f = None
        seen = 0
        while sc and seen < 20:
            seen += 1
            x = s.sub.get(sc)
            if not x: break
            m = re.search(r'file: !(\d+)', x[1])
            if m:
                f = s.sub.get(m.group(1))
                break
            m = re.search(r'scope: !(\d+)', x[1])
            sc = m.group(1) if m else None
        fn = '?'
        if f:
            m = re.search(r'filename: "([^"]*)"', f[1])
            if m: fn = m.group(1)
        return '%s:%d' % (fn, line)

    def parse_global(s, ln):
        ln = re.sub(r'(, !\w+ !\d+)+$', '', ln)
        p = P(tokenize(ln), s)
        g = Global()
        g.name = unq(p.next())[1:]
        g.mod = s
        g.tls = False
        g.external = False
        g.internal = False
        g.init = None
        p.exp('=')
        while True:
            t = p.peek()
            if t in ('external', 'extern_weak'):
                g.external = True
                p.next()
            elif t in ('private', 'internal'):
                g.internal = True
                p.next()
            elif t == 'thread_local':
                g.tls = True
                p.next()
                if p.peek() == '(':
                    p.parens()
            elif t in ('global', 'constant'):
                g.const = t == 'constant'
                p.next()
                break
            elif t == 'alias':
                p.next()
                ty = p.type()
                if p.peek() == '(':
                    p.parens()
                p.exp(',')
                ty2 = p.type()
                v = p.value(ty2)
                s.aliases[g.name] = v
                return
            elif t == 'addrspace':
                p.next(); p.parens()
            elif t in SKIPATTR or t in ('externally_initialized', 'appending'):
                p.next()
            else:
                raise IRError('global ' + ln[:120])
        g.ty = p.type()
        if p.peek() is not None and p.peek() != ',':
            g.init = p.value(g.ty)
        s.globals[g.name] = g

    def parse_head(s, ln, define):
        m = re.search(r' !dbg !(\d+)', ln)
        ln = re.sub(r' (personality .*)?\{$', '', ln) if define else ln
        ln = re.sub(r' personality .*$', '', ln)
        ln = re.sub(r' ![a-z]+ !\d+', '', ln)
        p = P(tokenize(ln), s)
        p.next()
        internal = False
        while True:
            if p.peek() in ('internal', 'private'):
                internal = True
            t0 = p.i
            p.skip_attrs()
            if p.i == t0:
                break
        rty = p.type()
        p.skip_attrs()
        name = unq(p.next())[1:]
        p.exp('(')
        params = []
        va = False
        k = 0
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    va = True
                    p.exp(')')
                    break
                ty = p.type()
                bv = p.skip_attrs()
                nm = None
                if p.peek() and p.peek()[0] == '%':
                    nm = unq(p.next())
                else:
                    nm = '%' + str(k)
                k += 1
                params.append((ty, nm, bv))
                if p.eat(')'):
                    break
                p.exp(',')
        f = Func(name, rty, params, va, s)
        f.internal = internal
        if m:
            f.subprog = m.group(1)
        old = s.funcs.get(name)
        if old is None or old.blocks is None:
            s.funcs[name] = f
        return f

    def parse_func(s, head, body):
        f = s.parse_head(head, True)
        # join multi-line instructions
        lines = []
        for ln in body:
            if not ln.strip() or ln.lstrip().startswith(';'):
                continue
            st = ln.strip()
            if lines and (st.startswith('to label') or st.startswith('catch ') or st == 'cleanup' or st.startswith('cleanup,') or st.startswith('filter ')
                          or st.startswith('i') and re.match(r'i\d+ -?\d+, label', st) or st == ']' or st.startswith('],') or st.startswith('] ')):
                lines[-1] += ' ' + st
                continue
            lines.append(ln)
        f.lines = lines
        f.blocks = {}   # parsed lazily
        s.funcs[f.name] = f

    def ensure(s, f):
        if f.order:
            return f
        # numbering: entry label is the first unnamed number after params if numbered
        cur = None
        nparam_unnamed = sum(1 for _, nm, _ in f.params if nm[1:].isdigit())
        entry = '%' + str(nparam_unnamed)
        for ln in f.lines:
            if not ln.startswith(' '):
                m = re.match(r'^("[^"]*"|[-\w.$]+):', ln)
                if not m: raise IRError('label ' + ln)
                nm = m.group(1)
                nm = '%' + (nm[1:-1] if nm[0] == '"' else nm)
                cur = Block(nm)
                f.blocks[nm] = cur
                f.order.append(nm)
                continue
            if cur is None:
                cur = Block(entry)
                f.blocks[entry] = cur
                f.order.append(entry)
            ins = s.inst(ln, f)
            cur.insts.append(ins)
        for b in f.blocks.values():
            t = b.insts[-1]
            if t.op == 'br':
                b.succ = list(t.x)
            elif t.op == 'switch':
                b.succ = [t.x[0]] + [l for _, l in t.x[1]]
            elif t.op == 'invoke':
                b.succ = list(t.x[3])
            else:
                b.succ = []
        f.lines = None
        return f

    CASTS = ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'addrspacecast')
    BIN = ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem')

    def inst(s, ln, f):
        dbg = None
        m = re.search(r'!dbg !(\d+)', ln)
        if m:
            dbg = m.group(1)
        body = re.sub(r',? !\w+ !\d+', '', ln)
        body = re.sub(r' ; .*$', '', body) if '"' not in body else body
        body = body.strip()
        p = P(tokenize(body), s)
        res = None
        if p.peek()[0] == '%' and p.peek(1) == '=':
            res = unq(p.next())
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        flags = []
        I = Inst(op, res, dbg=dbg)
        I.txt = ln.strip()
        if op in s.BIN:
            while p.peek() in ('nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint'):
                flags.append(p.next())
            ty = p.type()
            a = p.value(ty)
            p.exp(',')
            b = p.value(ty)
            I.ty = ty; I.a = (a, b); I.flags = tuple(flags)
        elif op == 'fneg' or op == 'freeze':
            ty = p.type()
            I.ty = ty; I.a = (p.value(ty),)
        elif op in ('icmp', 'fcmp'):
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'samesign'):
                p.next()
            I.x = p.next()
            ty = p.type()
            a = p.value(ty)
            p.exp(',')
            b = p.value(ty)
            I.ty = ty; I.a = (a, b)
        elif op in s.CASTS:
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            ft = p.type()
            v = p.value(ft)
            if p.next() != 'to': raise IRError(ln)
            tt = p.type()
            I.ty = tt; I.x = ft; I.a = (v,)
        elif op == 'alloca':
            p.eat('inalloca')
            I.ty = p.type()
            cnt = None
            if p.eat(','):
                if p.peek() != 'align' and p.peek() != 'addrspace':
                    cty = p.type()
                    cnt = (cty, p.value(cty))
            I.x = cnt
        elif op == 'load':
            while p.peek() in ('atomic', 'volatile'):
                p.next()
            I.ty = p.type()
            p.exp(',')
            p.type()
            I.a = (p.value(PTR),)
        elif op == 'store':
            while p.peek() in ('atomic', 'volatile'):
                p.next()
            ty = p.type()
            v = p.value(ty)
            p.exp(',')
            p.type()
            I.ty = ty; I.a = (v, p.value(PTR))
        elif op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                flags.append(p.next())
            bt = p.type()
            p.exp(',')
            ops = []
            while True:
                ops.append(p.tval())
                if not p.eat(','):
                    break
            I.ty = bt; I.a = tuple(ops); I.flags = tuple(flags)
        elif op == 'br':
            if p.peek() == 'label':
                p.next()
                I.x = [unq(p.next())]
            else:
                ty = p.type()
                c = p.value(ty)
                p.exp(',')
                p.next()
                t1 = unq(p.next())
                p.exp(',')
                p.next()
                t2 = unq(p.next())
                I.a = (c,)
                I.x = [t1, t2]
        elif op == 'switch':
            ty = p.type()
            v = p.value(ty)
            p.exp(',')
            p.next()
            d = unq(p.next())
            p.exp('[')
            cs = []
            while not p.eat(']'):
                ct = p.type()
                cv = p.value(ct)
                p.exp(',')
                p.next()
                cs.append((cv[1], unq(p.next())))
            I.ty = ty; I.a = (v,); I.x = (d, cs)
        elif op == 'ret':
            ty = p.type()
            I.ty = ty
            if ty != VOID:
                I.a = (p.value(ty),)
        elif op == 'unreachable':
            pass
        elif op == 'phi':
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            ty = p.type()
            inc = {}
            while True:
                p.exp('[')
                v = p.value(ty)
                p.exp(',')
                b = unq(p.next())
                p.exp(']')
                inc[b] = v
                if not p.eat(','):
                    break
            I.ty = ty; I.x = inc
        elif op == 'select':
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            c = p.tval()
            p.exp(',')
            a = p.tval()
            p.exp(',')
            b = p.tval()
            I.ty = a[0]; I.a = (c[1], a[1], b[1]); I.x = c[0]
        elif op in ('call', 'invoke'):
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            p.skip_attrs()
            rty = p.type()
            if p.peek() == '(':  # full function type
                p.parens()
            # callee
            if p.peek() == 'asm':
                raise IRError('asm')
            callee = p.value(PTR)
            p.exp('(')
            args = []
            if not p.eat(')'):
                while True:
                    ty = p.type()
                    bv = p.skip_attrs()
                    if ty == ('metadata',):
                        # skip metadata operand
                        d = 0
                        while not (d == 0 and p.peek() in (',', ')')):
                            t = p.next()
                            if t in '([{': d += 1
                            if t in ')]}': d -= 1
                        args.append((ty, ('undef',), None))
                    else:
                        args.append((ty, p.value(ty), bv))
                    if p.eat(')'):
                        break
                    p.exp(',')
            dest = None
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.next(); p.next()
                n1 = unq(p.next())
                while p.peek() != 'unwind':
                    p.next()
                p.next(); p.next()
                dest = (n1, unq(p.next()))
            I.ty = rty
            I.x = (callee, args, None, dest)
        elif op == 'landingpad':
            I.ty = p.type()
            cl = []
            while p.peek():
                t = p.next()
                if t == 'cleanup':
                    cl.append(('cleanup', None))
                elif t == 'catch':
                    ty = p.type()
                    cl.append(('catch', p.value(ty)))
                elif t == 'filter':
                    ty = p.type()
                    cl.append(('filter', p.value(ty)))
                else:
                    break
            I.x = cl
        elif op == 'resume':
            ty = p.type()
            I.ty = ty
            I.a = (p.value(ty),)
        elif op == 'extractvalue':
            ty = p.type()
            v = p.value(ty)
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            I.ty = ty; I.a = (v,); I.x = idx
        elif op == 'insertvalue':
            ty = p.type()
            v = p.value(ty)
            p.exp(',')
            ety = p.type()
            e = p.value(ety)
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            I.ty = ty; I.a = (v, e); I.x = (ety, idx)
        elif op == 'atomicrmw':
            p.eat('volatile')
            bop = p.next()
            p.type()
            ptr = p.value(PTR)
            p.exp(',')
            ty = p.type()
            v = p.value(ty)
            I.ty = ty; I.a = (ptr, v); I.x = bop
        elif op == 'cmpxchg':
            p.eat('weak'); p.eat('volatile')
            p.type()
            ptr = p.value(PTR)
            p.exp(',')
            ty = p.type()
            c = p.value(ty)
            p.exp(',')
            p.type()
            nv = p.value(ty)
            I.ty = ty; I.a = (ptr, c, nv)
        elif op == 'fence':
            pass
        elif op in ('extractelement', 'insertelement', 'shufflevector', 'va_arg', 'indirectbr', 'callbr'):
            I.op = 'unsupported'
        else:
            raise IRError('inst ' + ln)
        return I


def find_loops(f):
    """natural loops: header -> set of blocks"""
    if f.loops is not None:
        return f.loops
    order = f.order
    idx = {b: i for i, b in enumerate(order)}
    entry = order[0]
    # reverse postorder
    seen = set()
    rpo = []
    stack = [(entry, iter(f.blocks[entry].succ))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        for n in it:
            if n not in seen:
                seen.add(n)
                stack.append((n, iter(f.blocks[n].succ)))
                break
        else:
            rpo.append(b)
            stack.pop()
    rpo.reverse()
    num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for n in f.blocks[b].succ:
            preds[n].append(b)
    dom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            nd = None
            for q in preds[b]:
                if q in dom:
                    if nd is None:
                        nd = q
                    else:
                        a, c = q, nd
                        while a != c:
                            while num[a] > num[c]: a = dom[a]
                            while num[c] > num[a]: c = dom[c]
                        nd = a
            if dom.get(b) != nd:
                dom[b] = nd
                ch = True
    def dominates(a, b):
        while True:
            if a == b: return True
            if b == entry: return False
            b = dom[b]
    loops = {}
    for b in rpo:
        for h in f.blocks[b].succ:
            if dominates(h, b):
                body = loops.setdefault(h, {h})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x)
                    st.extend(preds[x])
    f.loops = loops
    return loops
