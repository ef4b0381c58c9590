"""Geometry: the fields that describe a table describe the same table.  The dataflow gives, per path class of an
operation, the final fields and the allocated blocks as closed expressions of the old fields and the argument; they are
tabulated over reachable geometries and arguments and judged against the lookup summary and capacity()."""
import num, proto, paths, eng, opspec
from proto import A0, GRP, SLOTS, fact, atomnum
from eng import const, base_of
from paths import deep_atoms
NS = (0, 1, 2, 3, 5, 7, 8, 9, 10, 14, 15, 16, 17, 28, 29, 30, 31, 32, 33, 40, 48, 59, 60, 61, 56, 63, 64, 65, 100, 112, 119, 120, 121, 127, 128, 129, 224, 225, 448, 1000, 4096, 5000)
HS = (0, 1, (1 << 64) - 1, 1 << 63, (1 << 63) - 1, 0x5555555555555555, 0x9E3779B97F4A7C15, 0xFFFFFFFF00000000, 0x123456789ABCDEF0)

def fields_of(S, env, old):
    f = dict(old)
    for (b, off, sz), x in S.mem.items():
        if b is A0 and off != 'n':
            try: f[off] = env.flat(env(x))
            except num.Unknown: f[off] = None
    return f
def blocks_of(t, env):
    out = []
    for x in t:
        if x[0] == 'C' and x[1] == 'vf_alloc':
            try: out.append((env(x[3]), env(x[2][0]) * env(x[2][1])))
            except num.Unknown: pass
    return out
class Geom:
    def __init__(s, m, c, lk, W):
        s.m, s.c, s.lk, s.W = m, c, lk, W; s.viols = {}; s.P = {}
        s.n = dict(states=0, fields=0, positions=0, fresh=0, undecided=0, paths=0); s.seen = {}
        s.lay = proto.Layout(lk, proto.geometries(m, c)[0], c.stride) if W == 1 else None
    def viol(s, rule, op, i, msg):
        v = opspec.Viol(rule, op, s.c.var, s.P[op].where(i), msg); s.viols.setdefault(v.key(), v)
    def trace(s, op):
        if op not in s.P:
            P = Quick(s.c, op); P.W = s.W; paths.PathEngine(s.m).run(s.m.funcs[op], P); s.P[op] = P
        return [x for x in s.P[op].paths if x[1] == 'ret']
    def env(s, g, arg, by=None):
        def atom(e):
            if e.k == 'init' and e.a[0] is A0: return g.get(e.a[1])
            if e.k in ('v', 'arg') and arg is not None and e.w == 64 and '~' not in str(e.a[0]): return arg
            return atomnum(e)
        return num.Env(s.m, atom, proto.memf(by) if by else lambda a, z: None)
    def outcomes(s, op, g, arg):
        """(trace, fields, blocks) of every path class that is possible from the old fields"""
        env = s.env(g, arg); out = []
        for t, how, S in s.trace(op):
            if any(fact(env, x[1], x[2]) is False for x in t if x[0] == 'B'): continue
            out.append((t, fields_of(S, env, g), blocks_of(t, env)))
        return out
    def at(s, t):
        for x in reversed(t):
            if x[0] == 'F': return x[3]
        return t[-1][-1] if t else None
    # ---- what is judged
    def starts(s):
        """reachable geometries: constructed for n elements, and never allocated"""
        out = []
        for op, args in (('ctor_', (None,)), ('ctor_n_', NS)):
            for n in args:
                for t, f, bl in s.outcomes(op, {}, n):
                    s.judge(op, t, f, bl, 0, None)
                    if None in f.values() or f.get(GRP) is None: continue
                    shift = lambda v: v + (0x1000 << 32) if any(b <= v <= b + z for b, z in bl) else v
                    f = {o: shift(v) for o, v in f.items()}
                    out.append((n, f, [(b + (0x1000 << 32), z) for b, z in bl]))
        return out
    def run(s, op):
        st = s.starts(); args, kind = OPS.get(op, ((None,), ''))
        if op not in OPS:       # the element operations: paths with their probes, cut and merged as for the probe protocol
            P = proto.trace(s.m, s.c, op, s.W, envs=[s.env(f, None) for n, f, bl in st if bl and n in (33, 100)]); s.P[op] = P
        if not any(bl for n, f, bl in st): raise num.Unknown('no geometry')
        mo = opspec.MLF[s.c.var] if hasattr(opspec, 'MLF') else {'g15': 48, 'g16': 56, 'rd': 56, 'ri': 56}[s.c.var]
        st[1:1] = [(n, {**f, **q}, bl) for n, f, bl in st[:1] for q in ([{mo: q} for q in (128, 150, 201, 223)] if s.W > 1 else
                   [{mo: -(-q * 256 // 100), mo + 4: -(-25600 // q)} for q in (30, 45, 60)])]
        for n, f, bl in [x for x in st if not x[2] or x[0] in ((0, 16, 29, 33, 100, 1000) if op in OPS else (33, 100))]:
            thr = f.get(s.c.thr_off) or 0
            for z in sorted({0, 1, thr // 2, max(0, thr - 1), thr} if op in OPS else {min(1, thr), max(0, thr - 1), thr}):
                if z > thr or not z and op.startswith('erase'): continue
                g = {**f, s.c.size_off: z}
                for a in args:
                    for t, f2, b2 in s.outcomes(op, g, a):
                        s.judge(op, t, f2, bl + b2, z, a if kind == 'room' else None, g)
                        if t and op not in OPS and not b2 and (f2.get(s.c.thr_off) or 0) > thr: s.viol('room', op, s.at(t), 'raises the growth threshold beyond the one of the capacity')
        if op in FRESH: s.fresh(op, st)
        return s
    # ---- the metadata of a container that holds nothing
    def fresh(s, op, st):
        for n, f, bl in st:
            if n not in ((16, 33, 100) if s.W > 1 else (2, 8, 16, 33, 100)) or not bl: continue
            ini = s.content('ctor_n_', {}, n, {})
            if not ini: continue
            d, f1, i = ini[0]; d = {a + proto.OLD: b for a, b in d.items()}
            if op == 'ctor_n_': s.empty(op, i, f, d, d)
            elif op in ('clear_', 'clear_d_'):
                by = s.full(f, d)
                for d2, f2, i2 in s.content(op, {**f, s.c.size_off: 5}, None, by):
                    if f2.get(s.c.size_off) not in (0, None): s.viol('fresh', op, i2, 'the element count is not zero afterwards')
                    if f2.get(GRP) == f[GRP]: s.empty(op, i2, f2, {**by, **d2}, d)
            else:
                never = [x[1] for x in st if not x[2]]
                for d2, f2, i2 in s.content(op, never[0], n, {}) if never else ():
                    s.empty(op, i2, f2, d2, None)
    def content(s, op, g, arg, by):
        env = s.env(g, arg, by); out = []
        P = proto.trace(s.m, s.c, op, s.W, envs=[env], exact=2000); s.P['x'] = P
        for t, how, S in P.paths:
            if how == 'ret' and not any(fact(env, x[1], x[2]) is False for x in t if x[0] == 'B'): out.append((proto.final(t, env), fields_of(S, env, g), s.at(t)))
        return out
    def full(s, f, d):
        """every position in use"""
        by = {}; e = s.c.stride; G = f[GRP]; free = {d[G]} if s.W > 1 else ()
        for a in sorted(d):
            o = a - G
            if s.W > 1: by[a] = d[a] if d[a] & 127 not in free and d[a] else 2 + (o * 37) % 120 | (o & 1) << 7 if not (s.c.var == 'g15' and o % 16 == 15) else 0xA5
            elif o % e == s.lay.dpos: by[a] = o // e % 3 if o // e <= f[MASK[s.c.var]] else d[a]
            else: by[a] = d[a]
        return by
    def empty(s, op, i, f, d, ini):
        seen = set(); free = 0; field = f.get
        for h in HS + tuple(k << 58 for k in range(64)) + tuple(range(0, 4096, 61)):
            try: U = s.lk.units(field, h)
            except num.Unknown: s.n['undecided'] += 1; return
            env = s.lk.env(field, h, d)
            for j, u in enumerate(U):
                s.n['fresh'] += 1; new = u not in seen; seen.add(u)
                if any(u + k not in d for k in range(s.W if s.W > 1 else s.c.stride)): s.viol('inside', op, i, 'a lookup would read control bytes that were never initialised'); return
                if s.lk.examined(j, env): s.viol('fresh', op, i, 'a lookup in a container without elements would compare a slot'); return
                if new and s.W > 1: free += sum(1 for k in range(15 if s.c.var == 'g15' else 16) if not d[u + k] & (127 if s.c.var == 'g16' else 255))
        if s.W == 1 and None not in (f.get(32), f.get(40)):
            if any(f[GRP] + s.c.stride * k + s.lay.dpos not in d for k in range(f[32] + f[40] + 1)): s.viol('inside', op, i, 'control bytes of positions an insertion may choose are never initialised')
        thr = f.get(s.c.thr_off)
        if s.W > 1 and thr is not None and free < thr: s.viol('room', op, i, 'the growth threshold exceeds the number of positions in which an element can be placed')
        for a in ini or ():
            # the end marker of the control bytes stays
            if s.W > 1 and ini[a] and d.get(a) != ini[a]: s.viol('fresh', op, i, 'the end marker of the control bytes is lost'); return
            if s.W == 1 and (a - f[GRP]) % s.c.stride == s.lay.dpos and d.get(a) != ini[a]: s.viol('fresh', op, i, 'a position of a container without elements is not marked empty'); return
    def judge(s, op, t, f, bl, size, want, old=None):
        s.n['states'] += 1; i = s.at(t)
        thr, sz = f.get(s.c.thr_off), f.get(s.c.size_off)
        if f.get(GRP) is None or thr is None: s.n['undecided'] += 1; return
        if not any(b <= f[GRP] < b + z for b, z in bl):      # never allocated: nothing may be stored without growing
            s.n['fields'] += 1
            if thr != 0 and f.get(s.c.slots_off) == 0: s.viol('room', op, i, 'a container without storage could be given elements without growing')
            return
        cap = s.capacity(f)
        if cap is None: s.n['undecided'] += 1
        else:
            s.n['fields'] += 1
            mlf = f.get({'g15': 48, 'g16': 56}.get(s.c.var, 56))
            if mlf is not None and cap > 64 and op != 'set_mlf_' and thr * 256 > cap * mlf + 256: s.viol('room', op, i, 'the growth threshold exceeds the maximum load factor')
            if thr > cap: s.viol('room', op, i, 'the growth threshold exceeds the number of slots')
        if sz is not None and sz > thr: s.viol('room', op, i, 'the container holds more elements than its growth threshold allows')
        if want is not None and want < 1 << 40 and (thr < want if 'reserve' in op else (cap or 0) < want - 1 - want // 16): s.viol('room', op, i, 'does not provide room for the requested number of elements')
        key = tuple(sorted((o, v) for o, v in f.items() if o != s.c.size_off and v is not None))
        if key in s.seen: return
        s.seen[key] = 1
        s.inside(op, i, f, bl, cap)
    def capacity(s, f):
        env = s.env(f, None); out = set()
        for t, how, S in s.trace('capacity_'):
            if any(fact(env, x[1], x[2]) is False for x in t if x[0] == 'B'): continue
            for (b, off, sz), x in S.mem.items():
                if b is proto.A1:
                    try: out.add((off, env(x)))
                    except num.Unknown: return None
        return out.pop()[1] if len(out) == 1 else None
    def inside(s, op, i, f, bl, cap):
        """every position a lookup can reach lies in allocated storage"""
        field = f.get; G, SL = f[GRP], f.get(SLOTS)
        ok = lambda a, n: any(b <= a and a + n <= b + z for b, z in bl)
        ssz = SSZ[s.c.var]; top = 0; ctop = 0
        for h in HS:
            try: U = s.lk.units(field, h)
            except num.Unknown: s.n['undecided'] += 1; return
            for j, u in enumerate(U):
                s.n['positions'] += 1
                if not ok(u, s.W if s.W > 1 else s.c.stride): s.viol('inside', op, i, 'a lookup would read control bytes outside the allocated storage'); return
                ctop = max(ctop, u + (s.W if s.W > 1 else s.c.stride))
        if s.W == 1 and s.c.stride > 1:
            if cap is not None and SL is not None and f.get(s.c.thr_off) and not ok(SL, f[s.c.thr_off] * ssz): s.viol('inside', op, i, 'the slot array has no room for as many elements as the growth threshold allows')
            return
        if s.W == 1 and SL is not None and None not in (f.get(32), f.get(40)):
            top = f[32] + f[40]         # the last position an insertion may choose: the last home plus the maximum distance
            if not ok(SL, top * ssz): s.viol('inside', op, i, 'the slot array is shorter than the positions an insertion may choose')
            if not ok(G, top * s.c.stride): s.viol('inside', op, i, 'the control array is shorter than the positions an insertion may choose')
        for h in HS[:5]:
            U = s.lk.units(field, h)
            try: fp = [b for b in s.lk.fps(field, h) if b or s.W == 1]
            except num.Unknown: continue
            for p in range(s.W) if fp else ():
                u = U[0]; by = {u + k: 0 for k in range(s.W)}; by[u + p] = fp[0]
                for D in s.lk.examined(0, s.lk.env(field, h, by)) or ():
                    s.n['positions'] += 1; last = s.W > 1 and s.c.var == 'g15' and p == 14
                    if not ok(D, 0 if last else ssz): s.viol('inside', op, i, 'a lookup would compare a slot outside the allocated storage'); return
                    if not last and D < ctop and D + ssz > G: s.viol('inside', op, i, 'slots and control bytes overlap'); return
FRESH = ('ctor_n_', 'rehash_', 'reserve_', 'clear_', 'clear_d_')
MASK = {'rd': 32, 'ri': 32, 'g15': 32, 'g16': 40}
SSZ = {'g15': 16, 'g16': 16, 'rd': 16, 'ri': 48}
_fr = {}
def free(e):
    """a function of the fields, the arguments and the blocks only"""
    if e not in _fr: _fr[e] = all(x.k in ('init', 'arg', 'alloc', 'g') or x.k == 'v' and '~' not in x.a[0] for x in deep_atoms(e))
    return _fr[e]
class Quick(paths.PathProp):
    maxpaths = 4000
    def peel(s, S, phis): return 0
    def start(s, S): paths.PathProp.start(s, S); S.auto['k'] = (); s.seen = set()
    def enter(s, S, b, frm):
        # states that agree on the fields, the blocks and what was decided about them are followed once
        k = (b, S.auto['k'], S.auto.get('eq'), S.auto.get('nb'), S.auto.get('nh'), tuple(sorted((r, e) for r, e in S.env.items() if free(e))))
        if k in s.seen: return False
        s.seen.add(k)
    def branch(s, S, i, c, t):
        paths.PathProp.branch(s, S, i, c, t)
        if c.k != 'c' and free(c): S.auto['k'] += ((c, t),)
    def call(s, S, i, n, args, rv):
        paths.PathProp.call(s, S, i, n, args, rv)
        if n == 'vf_alloc': S.auto['k'] += (('alloc', rv) + tuple(args),)
        if n == 'vf_eq': S.auto['eq'] = 1
        if n in ('vf_K_copy', 'vf_K_move', 'vf_K_def', 'vf_K_conv', 'vf_K_dtor'): S.auto['nb'] = n
        if n == 'vf_hash':
            S.auto['nh'] = S.auto.get('nh', 0) + 1
            if S.auto['nh'] > 3: return []
    def store(s, S, i, a, v, sz):
        paths.PathProp.store(s, S, i, a, v, sz)
        b, o = base_of(a)
        if b is A0 and const(o) is not None: s.note(S, 'F', const(o), v, i); S.auto['k'] += ((const(o), v),)
OPS = {'rehash_': (NS, 'room'), 'reserve_': (NS, 'room'), 'shrink_': ((None,), ''), 'set_mlf_': ((None,), ''), 'clear_': ((None,), ''), 'clear_d_': ((None,), '')}
