"""Value tables of extracted expressions: an expression (address, condition, stored value) that the dataflow found
is a closed function of the hash value, the container fields and some metadata bytes; here it is tabulated over
sample points of those, so that two such functions can be compared whatever their spelling."""
import re, struct
import eng, ir
from eng import E, const, base_of

class Unknown(Exception): pass
M64 = (1 << 64) - 1
def esize(ty):
    m = re.match(r'<(\d+) x i(\d+)>$', ty)
    if m: return int(m.group(1)), int(m.group(2))
    m = re.match(r'i(\d+)$', ty)
    if m: return 1, int(m.group(1))
    raise Unknown(ty)

class Vec(tuple):
    """lanes; .w is the lane width"""
    def __new__(c, xs, w): v = tuple.__new__(c, xs); v.w = w; return v

def parse_init(t):
    """bytes of a constant global, or None"""
    m = re.search(r'\[(\d+) x i(\d+)\] \[(.*?)\](,|$)', t)
    if m:
        w = int(m.group(2)); xs = re.findall(r'i%d (-?\d+)' % w, m.group(3))
        if len(xs) == int(m.group(1)): return b''.join((int(x) & ((1 << w) - 1)).to_bytes(w // 8, 'little') for x in xs)
    m = re.search(r'\[(\d+) x i8\] c"((?:[^"\\]|\\..)*)"', t)
    if m:
        o = b''; s = m.group(2); n = 0
        while n < len(s):
            if s[n] == '\\': o += bytes([int(s[n + 1:n + 3], 16)]); n += 3
            else: o += s[n].encode('latin1'); n += 1
        return o
    return None

class Env:
    """init: function of an `init`/`arg`/`alloc`/`j`... atom -> int or None; mem: function (address, size) -> int or None; calls: function(name, args, E) -> int or None"""
    def __init__(s, mod, atom, mem):
        s.m, s.atom, s.mem = mod, atom, mem; s.memo = {}
        if not hasattr(mod, '_gbytes'): mod._gbytes = {}
    def gbytes(s, g):
        d = s.m._gbytes
        if g not in d:
            t = s.m.globals.get('@' + g) or s.m.globals.get(g)
            d[g] = parse_init(str(t)) if t is not None and 'constant' in str(t) else None
        return d[g]
    def __call__(s, e):
        r = s.memo.get(e)
        if r is None:
            try: r = s.ev(e)
            except Unknown as x: r = x
            s.memo[e] = r
        if isinstance(r, Unknown): raise r
        return r
    def load(s, a, nbytes):
        b, o = base_of(a)
        if b is not None and b.k == 'g':
            t = s.gbytes(b.a[0]); n = s(o)
            if t is None or n + nbytes > len(t): raise Unknown('global')
            return int.from_bytes(t[n:n + nbytes], 'little')
        r = s.mem(s(a), nbytes)
        if r is None: raise Unknown('memory')
        return r
    def vec(s, n, lanes, w): return Vec([(n >> (w * i)) & ((1 << w) - 1) for i in range(lanes)], w)
    def flat(s, v):
        if not isinstance(v, Vec): return v
        r = 0
        for i, x in enumerate(v): r |= x << (v.w * i)
        return r
    def ev(s, e):
        k = e.k; w = 64 if e.w == 65 else e.w
        M = (1 << w) - 1
        if k == 'c': return e.a[0] & M
        if k == 'lin':
            r = e.a[0]
            for x, v in e.a[1]: r += v * s(x)
            return r & M
        if k == 'ld':
            r = s.atom(e)
            if r is not None: return r
            ty = e.a[1].split('|')[1] if '|' in str(e.a[1]) else None
            if ty and ty[0] == '<':
                n, lw = esize(ty); return s.vec(s.load(e.a[0], n * lw // 8), n, lw)
            return s.load(e.a[0], max(1, w // 8)) & M
        if k in ('init', 'arg', 'alloca', 'alloc', 'j', 'p', 'v', 'hav', 'call', 'g', 'part'):
            r = s.atom(e)
            if r is None: raise Unknown(k)
            return r & ((1 << 128) - 1)
        if k == 'not': return 1 - s(e.a[0])
        if k == 'eq0': return int(s(e.a[0]) & ((1 << (64 if e.a[0].w == 65 else e.a[0].w)) - 1) == 0)
        if k == 'ult': return int(s(e.a[0]) < s(e.a[1]))
        if k == 'slt':
            W = 64 if e.a[0].w == 65 else e.a[0].w
            sg = lambda n: n - (1 << W) if n >> (W - 1) else n
            return int(sg(s(e.a[0])) < sg(s(e.a[1])))
        if k == 'zext' or k == 'trunc': return s(e.a[0]) & M
        if k == 'sext':
            W = 64 if e.a[0].w == 65 else e.a[0].w; n = s(e.a[0])
            return (n - (1 << W) if n >> (W - 1) else n) & M
        if k in ('and', 'or', 'xor', 'mul', 'lshr', 'ashr', 'shl', 'udiv', 'urem', 'sdiv', 'srem') and len(e.a) == 2:
            return s.bin(k, s(e.a[0]), s(e.a[1]), w)
        if k in ('umax', 'umin'): return (max if k == 'umax' else min)(s(e.a[0]), s(e.a[1]))
        if k == 'sel': return s(e.a[1]) if s(e.a[0]) else s(e.a[2])
        if k == 'vop':
            a, b = s(e.a[1]), s(e.a[2])
            if not isinstance(a, Vec) and isinstance(b, Vec): a = Vec([a] * len(b), b.w) if a == 0 else a
            if not isinstance(b, Vec) and isinstance(a, Vec): b = Vec([b] * len(a), a.w) if b == 0 else b
            return Vec([s.bin(e.a[0], x, y, a.w) for x, y in zip(a, b)], a.w)
        if k == 'vcmp':
            p, a, b = e.a[0], s(e.a[1]), s(e.a[2])
            if not isinstance(a, Vec): a = Vec([0] * len(b), b.w)
            if not isinstance(b, Vec): b = Vec([0] * len(a), a.w)
            W = a.w; sg = lambda n: n - (1 << W) if n >> (W - 1) else n
            u = {'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'ult': lambda x, y: x < y, 'ugt': lambda x, y: x > y, 'ule': lambda x, y: x <= y, 'uge': lambda x, y: x >= y,
                 'slt': lambda x, y: sg(x) < sg(y), 'sgt': lambda x, y: sg(x) > sg(y), 'sle': lambda x, y: sg(x) <= sg(y), 'sge': lambda x, y: sg(x) >= sg(y)}[p]
            return Vec([int(u(x, y)) for x, y in zip(a, b)], 1)
        if k == 'vcast':
            n, lw = esize(e.a[1]); a = s(e.a[2])
            if e.a[0] == 'sext': return Vec([((x - (1 << a.w)) if x >> (a.w - 1) else x) & ((1 << lw) - 1) for x in a], lw)
            return Vec([x & ((1 << lw) - 1) for x in a], lw)
        if k == 'vsel':
            c, a, b = s(e.a[0]), s(e.a[1]), s(e.a[2])
            return Vec([x if z else y for z, x, y in zip(c, a, b)], (a if isinstance(a, Vec) else b).w)
        if k == 'bitcast':
            f = s.flat(s(e.a[0])); ty = e.a[1]
            if ty[0] == '<': n, lw = esize(ty); return s.vec(f, n, lw)
            return f & M
        if k == 'zeroinit': return 0
        if k == 'undef': return 0
        if k == 'k':
            t = e.a[0]
            m = re.match(r'<(i(\d+) .*)>$', t)
            if m:
                lw = int(m.group(2)); xs = re.findall(r'i%d (-?\d+|true|false|undef|poison)' % lw, m.group(1))
                cv = lambda x: {'true': 1, 'false': 0, 'undef': 0, 'poison': 0}.get(x) if not x.lstrip('-').isdigit() else int(x)
                return Vec([cv(x) & ((1 << lw) - 1) for x in xs], lw)
            raise Unknown('const ' + t[:30])
        if k.startswith('f:'): return s.fn(k[2:], e, w)
        raise Unknown(k)
    def bin(s, op, a, b, w):
        M = (1 << w) - 1
        sg = lambda n: n - (1 << w) if n >> (w - 1) else n
        if op == 'add': return (a + b) & M
        if op == 'sub': return (a - b) & M
        if op == 'mul': return (a * b) & M
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op in ('shl', 'lshr', 'ashr'):
            if b >= w: raise Unknown('shift')
            return (a << b) & M if op == 'shl' else (a >> b) if op == 'lshr' else (sg(a) >> b) & M
        if op in ('udiv', 'urem'):
            if b == 0: raise Unknown('div')
            return a // b if op == 'udiv' else a % b
        if op in ('sdiv', 'srem'):
            if b == 0: raise Unknown('div')
            q = abs(sg(a)) // abs(sg(b)); q = -q if (sg(a) < 0) != (sg(b) < 0) else q
            return (q if op == 'sdiv' else sg(a) - q * sg(b)) & M
        raise Unknown(op)
    def fn(s, op, e, w):
        A = e.a
        if op == 'extractelement':
            v = s(A[0]); n = s(A[1]) if isinstance(A[1], E) else int(A[1])
            if not isinstance(v, Vec): return 0
            return v[n]
        if op == 'insertelement':
            v = s(A[0]); x = s(A[1]); n = s(A[2]) if isinstance(A[2], E) else int(A[2])
            tys = re.findall(r"'([^']*)'", str(A[3])) if not isinstance(A[3], list) else A[3]
            L, lw = esize(tys[0] if tys and tys[0][0] == '<' else A[4])
            l = list(v) if isinstance(v, Vec) else [0] * L
            l[n] = x; return Vec(l, lw)
        if op == 'shufflevector':
            a, b = s(A[0]), s(A[1]); m = s(A[2]) if isinstance(A[2], E) else None
            if m is None: raise Unknown(op)
            if not isinstance(a, Vec): raise Unknown(op)
            L = len(a); b = b if isinstance(b, Vec) else Vec([0] * L, a.w)
            if not isinstance(m, Vec):
                tys = re.findall(r'<\d+ x i\d+>', str(A[3:])); n = esize(tys[-1])[0] if tys else L
                m = Vec([0] * n, 32)
            return Vec([(list(a) + list(b))[x] for x in m], a.w)
        xs = [s(x) for x in A if isinstance(x, E)]
        n = xs[0]; W = 64 if A[0].w == 65 else A[0].w
        if op == 'ctpop': return bin(n).count('1')
        if op == 'ctlz': return W - n.bit_length()
        if op == 'cttz': return W if n == 0 else (n & -n).bit_length() - 1
        if op == 'bswap': return int.from_bytes(n.to_bytes(W // 8, 'little'), 'big')
        if op == 'usub': return max(0, n - xs[1])
        if op == 'uadd': return min((1 << W) - 1, n + xs[1])
        if op == 'abs': return abs(n - (1 << W) if n >> (W - 1) else n)
        if op in ('smax', 'smin'):
            sg = lambda n: n - (1 << W) if n >> (W - 1) else n
            return (max if op == 'smax' else min)(n, xs[1], key=sg)
        if op == 'fshl' and len(xs) == 3: r = xs[2] % W; return ((xs[0] << r) | (xs[1] >> (W - r) if r else 0)) & ((1 << W) - 1)
        if op == 'fshr' and len(xs) == 3: r = xs[2] % W; return ((xs[1] >> r) | (xs[0] << (W - r) if r else 0)) & ((1 << W) - 1)
        raise Unknown('f:' + op)
