"""Native build of a contract file (same harnesses, same real sources) for
replaying counterexamples and for bounded random runs."""
import os, re, subprocess, time

CXX = 'clang++-18'
BASE = ['-std=c++14', '-I/repo', '-I/verif/contracts', '-fno-access-control', '-w', '-g1', '-O1', '-fsanitize=address', '-fno-omit-frame-pointer',
        '-fno-builtin', '-ffunction-sections', '-fdata-sections']

class Native:
    def __init__(s, scratch, tu, harnesses, libs=(), flags=(), link=(), batch=400):
        s.batch = batch
        s.dir = scratch
        s.tu = tu
        s.names = harnesses
        s.libs = libs
        s.flags = list(flags)
        s.link = list(link)
        s.exe = None
        s.err = None

    def build(s):
        if s.exe or s.err: return s.exe
        b = os.path.join(s.dir, 'native_' + os.path.basename(s.tu).replace('.', '_'))
        os.makedirs(b, exist_ok=True)
        tab = os.path.join(b, 'table.h')
        with open(tab, 'w') as f:
            f.write('extern "C" {%s}\n' % ' '.join('void H_%s();' % n for n in s.names))
            f.write('static struct { char const *n; void (*f)(); } T[] = {%s {0,0}};\n' % ' '.join('{"%s", H_%s},' % (n, n) for n in s.names))
        jobs = [(s.tu, 'h.o', []), (os.environ.get('KVN', '/verif/contracts/kv_native.cc'), 'kv.o', ['-DKV_TABLE_H="%s"' % tab])]
        for i, l in enumerate(s.libs): jobs.append((l, 'l%d.o' % i, []))
        ps = []
        for src, o, ex in jobs:
            ps.append((src, subprocess.Popen([CXX] + s.flags + BASE + ex + ['-c', src, '-o', os.path.join(b, o)],
                                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        objs = []
        for (src, p), (_, o, _) in zip(ps, jobs):
            _, e = p.communicate()
            if p.returncode:
                if src in s.libs: continue
                s.err = e[-2000:]
                return None
            objs.append(os.path.join(b, o))
        exe = os.path.join(b, 'run')
        r = subprocess.run([CXX, '-fsanitize=address', '-Wl,--allow-multiple-definition', '-Wl,--gc-sections', '-o', exe] + objs + ['-lpthread'] + s.link,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            s.err = r.stderr[-2000:]
            return None
        s.exe = exe
        return exe

    def _run(s, args, tmo):
        try:
            r = subprocess.run([s.exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tmo, cwd=s.dir)
            return r.returncode, r.stdout.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            return None, 'timeout'

    def replay(s, name, path):
        """-> ('fails', output) | ('passes', out) | ('rejected', out) | ('none', out)"""
        if not s.build(): return 'none', s.err
        rc, out = s._run([name, 'replay', path], 40)
        if rc == 0: return 'passes', out
        if rc == 77: return 'rejected', out
        if rc is None: return 'none', out
        return 'fails', out

    def random(s, name, secs, seed, out):
        if not s.build(): return 'none', s.err
        rc, o = s._run([name, 'random', str(secs), str(seed), out, str(s.batch)], secs + 30)
        if rc == 0: return 'passes', o
        if rc is None: return 'none', o
        return 'fails', o

def model_inputs(E, f, maxlen=5 << 20):
    """input file text from a failure's model, or None"""
    import z3
    m = f.model
    if m is None: return None
    def ev(v, w=64):
        if type(v) is bool: return int(v)
        if type(v) is int: return v
        r = m.eval(v, model_completion=True)
        if z3.is_bool(r): return int(z3.is_true(r))
        return r.as_long()
    out = []
    try:
        for name, kind, v, extra in f.inputs:
            if kind in (8, 16, 32, 64): out.append('u%d %s %d' % (kind, name, ev(v)))
            elif kind == 'size': out.append('size %s %d' % (name, ev(v)))
            elif kind == 1: out.append('bool %s %d' % (name, ev(v)))
            elif kind == 'bytes':
                arr, n = v
                n = ev(n)
                if n > maxlen: return None
                if n > 4096:
                    # default everywhere except the points of the model
                    b = bytearray(n)
                    fi = m[arr.f]
                    if fi is not None:
                        d = fi.else_value()
                        try: d = d.as_long()
                        except Exception: d = 0
                        b = bytearray([d]) * n
                        for k in range(fi.num_entries()):
                            e = fi.entry(k)
                            i = e.arg_value(0).as_long()
                            if i < n: b[i] = e.value().as_long()
                    h = bytes(b).hex()
                else:
                    h = bytes(ev(arr.read(0, i)) for i in range(n)).hex()
                out.append('bytes %s %d %s' % (name, n, h))
            elif kind == 'family':
                fam = v
            elif kind == 'field':
                o, off, n, b = v
                cnt = ev(o.count)
                if cnt > 100000: return None
                out.append('field %d %s' % (off, ' '.join(str(ev(b.read(i, 0))) for i in range(cnt))))
    except Exception as e:
        return None
    return '\n'.join(out) + '\n'
