"""Whole-container operations with stateful hash, equality and allocator objects.  The dataflow yields, per path class,
the closed expression every field of both containers ends with; the rule compares them with the fields before: a move or
swap hands over every field, a copy keeps the load factor, the hash function and the equality, and what a move leaves
behind equals a default-constructed container.  Fields are recognised by what the observers and constructors do with them."""
import random
import num, paths, opspec, eng
from paths import PathProp, PathEngine
from eng import sym, base_of, con
from proto import atomnum, fact, final, older, OLD
A = [sym('arg', n, w=65) for n in range(5)]
POL = {700101: 'hash function', 700102: 'key equality', 700103: 'allocator'}
OPS = {'ctor_p_': None, 'move_ctor_': 1, 'move_asn_': 1, 'swap_': 1, 'fswap_': 1, 'copy_ctor_': 1, 'copy_asn_': 1}
KIND = {'hash function': 'policy', 'key equality': 'policy', 'allocator': 'policy'}

class Prop(PathProp):
    def __init__(s, c, op, envs): super().__init__(c, op); s.envs = envs; s.rv = {}; s.sites = {}; s.last = s.lib = None
    def branch(s, S, i, c, t):
        if c.k == 'c': return
        if s.envs and all(fact(e, c, t) is False for e in s.envs): return False
        s.note(S, 'B', c, t, i)
    def store(s, S, i, a, v, sz):
        b, o = base_of(a)
        if b in A: s.sites[(b, o)] = i
        if s.lib is None and 'drv/' not in s.where(i): s.lib = i
        PathProp.store(s, S, i, a, v, sz)
    def ret(s, S, i, v): s.rv[len(s.paths)] = v; s.last = i; s.done(S, 'ret')

class Whole:
    def __init__(s, m, c, prop, swp):      # prop, swp: allocators propagate on assignment, on swap
        s.m, s.c, s.prop, s.swp = m, c, prop, swp; s.viols = {}; s.n = dict(paths=0, fields=0, undecided=0, trials=0, copied=0)
        s.fields = {}; s.bytes = {}; s.learn()
    def run_op(s, op, envs=(), exact=0):
        P = s.P = Prop(s.c, op, envs); P.exact = exact; PathEngine(s.m).run(s.m.funcs[op], P)
        return [(t, S, P.rv.get(n)) for n, (t, how, S) in enumerate(P.paths) if how == 'ret']
    def env(s, vals):
        def atom(e):
            if e.k == 'init' and e.a[0] in vals: return vals[e.a[0]](e.a[1], e.w)
            if e.k == 'v' and '~' not in e.a[0]: return vals.get('n')
            return atomnum(e)
        def mem(a, z):
            try: return int.from_bytes(bytes(s.bytes[a + k] for k in range(z)), 'little')
            except KeyError: return None
        return num.Env(s.m, atom, mem)
    def learn(s):
        dflt = s.run_op('ctor_'); full = s.run_op('ctor_p_', [s.env({'n': 1000})])
        if len(dflt) != 1 or not full: raise num.Unknown('constructors')
        e0 = s.env({'n': 1000})
        S = dflt[0][1]; s.dflt = {}
        for (b, o, z), x in S.mem.items():
            if b is A[0] and o != 'havoc':
                s.dflt[o] = e0(x); s.fields[o] = z
        zs = self_read(s, 'get_size_')
        s.kind = {}
        for o, z in s.fields.items():
            if s.dflt[o] in POL: s.kind[o] = POL[s.dflt[o]]; continue
            fx = set()
            for t, S, rv in full:
                x = S.mem.get((A[0], o, z)); fx.add(x)
            same = len(fx) == 1 and next(iter(fx)) is not None and next(iter(fx)).k == 'c' and next(iter(fx)).a[0] == s.dflt[o]
            s.kind[o] = 'element count' if o in zs else 'load factor' if same else 'storage' if fx and any(x is not None and base_of(x)[0] is not None for x in fx) else 'geometry'
        # an empty container with storage: its fields and the entries written for it
        s.empty = {}; e40 = s.env({'n': 40}); best = -1
        for t, S, rv in s.run_op('ctor_p_', [e40], 300):
            d = final(t, e40); x = {}
            for o, z in s.fields.items():
                try: x[o] = s.dflt[o] if s.kind[o] in POL.values() or (A[0], o, z) not in S.mem else e40(S.mem[(A[0], o, z)])
                except num.Unknown: break
            if len(x) == len(s.fields) and len(d) > best:
                best = len(d); s.empty = older(x); s.bytes = {a + OLD: b for a, b in d.items()}
        if not s.empty: raise num.Unknown('constructor with a capacity')
        k = list(s.kind.values())
        for need in ('hash function', 'key equality', 'allocator', 'element count', 'load factor', 'storage', 'geometry'):
            if need not in k: raise num.Unknown('no field was recognised as %s' % need)
    def values(s, r, size, alloc):
        mem = {o: (r.getrandbits(40) | 1) << 3 & (1 << 8 * z) - 1 if z == 8 else r.getrandbits(20) for o, z in s.fields.items()}
        for o, k in s.kind.items():
            if k == 'element count': mem[o] = size
            if k == 'load factor': mem[o] = r.randrange(100, 400)
            if k == 'allocator': mem[o] = alloc
        return mem
    @staticmethod
    def reader(mem, fields):
        by = {}
        for o, z in fields.items():
            for k in range(z): by[o + k] = mem[o] >> (8 * k) & 255
        def f(off, w):
            n = (64 if w == 65 else w) // 8 or 1
            try: return int.from_bytes(bytes(by[off + k] for k in range(n)), 'little')
            except (KeyError, TypeError): return None
        return f
    def final(s, S, env, base, init):
        """the bytes of the object after the operation (None where unknown)"""
        out = {}
        for o, z in s.fields.items():
            for k in range(z): out[o + k] = init[o] >> (8 * k) & 255 if init is not None else None
        if (base, 'havoc', 0) in S.mem: out = {k: None for k in out}
        for (b, o, z), x in S.mem.items():
            if b is not base or o == 'havoc': continue
            try: v = env.flat(env(x))
            except num.Unknown: v = None
            for k in range(z): out[o + k] = None if v is None else v >> (8 * k) & 255
        return {o: None if None in [out.get(o + k) for k in range(z)] else sum(out[o + k] << (8 * k) for k in range(z)) for o, z in s.fields.items()}
    def run(s, op):
        r = random.Random(7)
        for size in (0, 5, 0) if op.startswith(('move', 'swap', 'fswap')) else (0, 0):
            for al in ((11, 11), (11, 13)):
                if op in ('swap_', 'fswap_') and al[0] != al[1] and not s.swp: continue      # not allowed
                if size and op == 'move_asn_' and al[0] != al[1] and not s.prop: continue      # moves the elements one by one
                s.trial(op, r, size, al)
    def trial(s, op, r, size, al):
        b0 = s.values(r, size, al[0]); b1 = s.values(r, size, al[1])
        if not size and not op.startswith(('swap', 'fswap')): b1 = {o: s.empty[o] if k in ('storage', 'geometry', 'element count') else b1[o] for o, k in s.kind.items()}
        if op in ('move_asn_', 'copy_asn_'):
            b0 = {o: b0[o] if k in POL.values() or k == 'load factor' else s.dflt[o] for o, k in s.kind.items()}
        if op == 'ctor_p_':
            hs = {A[n]: (lambda v: lambda off, w: v if off == 0 else None)(r.getrandbits(30)) for n in range(1, 6) if n < len(A)}
            vals = {'n': 0, **hs}
        else: vals = {A[1]: s.reader(b1, s.fields)}
        ctor = op.endswith('ctor_') or op == 'ctor_p_'
        if not ctor: vals[A[0]] = s.reader(b0, s.fields)
        env = s.env(vals)
        for t, S, rv in s.run_op(op, [env]):
            facts = [fact(env, x[1], x[2]) for x in t if x[0] == 'B']
            if False in facts: continue
            s.n['paths'] += 1; s.n['trials'] += 1
            f0 = s.final(S, env, A[0], None if ctor else b0); f1 = s.final(S, env, A[1], b1) if op != 'ctor_p_' else {}
            eq = al[0] == al[1]
            if op == 'ctor_p_':
                order = {'hash function': 2, 'key equality': 3, 'allocator': 4}
                byarg = {k: vals[A[n]](0, 64) for k, n in order.items() if A[n] in vals}
                for o, k in s.kind.items():
                    if k in byarg: s.expect(op, k, (A[0], o), f0[o], (byarg[k],), 'does not keep the %s it is given' % k)
                continue
            for o, k in s.kind.items():
                if op in ('copy_ctor_', 'copy_asn_'):
                    s.expect(op, k, (A[1], o), f1[o], (b1[o],), 'changes the %s of its source' % k, k)
                if op.startswith('copy') or op == 'move_asn_' and not eq and not s.prop:
                    if k in ('hash function', 'key equality', 'load factor'): s.expect(op, k, (A[0], o), f0[o], (b1[o],), 'does not take over the %s' % k)
                    elif k == 'allocator': s.expect(op, k, (A[0], o), f0[o], (b1[o] if op == 'copy_ctor_' or s.prop and op == 'copy_asn_' else b0[o],), 'ends with the wrong allocator')
                    continue
                if op in ('move_ctor_', 'move_asn_'):
                    if k == 'allocator': s.expect(op, k, (A[0], o), f0[o], (b1[o],) if op == 'move_ctor_' or s.prop else (b0[o], b1[o]) if eq else (b0[o],), 'ends with the wrong allocator')
                    else: s.expect(op, k, (A[0], o), f0[o], (b1[o],), 'does not take over the %s' % k)
                    if k in ('storage', 'geometry', 'element count'):
                        s.expect(op, k, (A[1], o), f1[o], (s.dflt[o],) + ((b0[o],) if op == 'move_asn_' else ()), 'leaves the source with a wrong %s for an empty container' % k)
                else:
                    if k == 'allocator':
                        s.expect(op, k, (A[0], o), f0[o], (b1[o],) if s.swp else (b0[o],), 'ends with the wrong allocator')
                        s.expect(op, k, (A[1], o), f1[o], (b0[o],) if s.swp else (b1[o],), 'ends with the wrong allocator')
                    else:
                        s.expect(op, k, (A[0], o), f0[o], (b1[o],), 'does not exchange the %s' % k)
                        s.expect(op, k, (A[1], o), f1[o], (b0[o],), 'does not exchange the %s' % k)
    def copy(s, op):
        """a copy of trivially copyable elements: every byte a lookup or iteration may use arrives"""
        r = random.Random(11); b1 = {o: s.empty[o] if k in ('storage', 'geometry') else s.dflt[o] for o, k in s.kind.items()}
        cap = s.observe('get_cap_', b1); esz = s.observe('get_esz_', b1)
        if not cap or not esz: raise num.Unknown('capacity of a container')
        for o, k in s.kind.items():
            if k == 'element count': b1[o] = cap // 2
        blocks = {}                                   # field -> bytes it has to hand over
        for o, k in s.kind.items():
            if k == 'storage' and o == s.c.slots_off: blocks[o] = cap * esz
        meta = sorted(a for a in s.bytes)
        for o, k in s.kind.items():
            if k == 'storage' and o != s.c.slots_off and b1[o] in s.bytes:
                n = 0
                while b1[o] + n in s.bytes: n += 1
                blocks[o] = n
        old = dict(s.bytes)
        for o, n in blocks.items():
            for j in range(n):
                if o == s.c.slots_off or s.bytes[b1[o] + j] == 0: s.bytes[b1[o] + j] = r.randrange(2, 127)
        by = dict(s.bytes)
        try:
            vals = {A[1]: s.reader(b1, s.fields)}; b0 = None
            if op == 'copy_asn_':
                b0 = {o: b1[o] if k == 'load factor' else s.dflt[o] for o, k in s.kind.items()}; vals[A[0]] = s.reader(b0, s.fields)
            env = s.env(vals)
            for t, S, rv in s.run_op(op, [env]):
                if False in [fact(env, x[1], x[2]) for x in t if x[0] == 'B']: continue
                s.n['paths'] += 1; f0 = s.final(S, env, A[0], b0); d = final(t, env, by)
                if not any(x[0] == 'M' and x[1] in ('memcpy', 'memmove') for x in t): s.n['undecided'] += 1; continue
                for o, n in blocks.items():
                    if f0.get(o) is None or b1[o] not in by: s.n['undecided'] += 1; continue
                    got = [d.get(f0[o] + j) for j in range(n)]
                    if all(x is None for x in got): s.n['undecided'] += 1; continue
                    s.n['copied'] += n
                    bad = [j for j in range(n) if got[j] != by[b1[o] + j]]
                    if bad: s.report('whole.copy', op, next((x[-1] for x in t if x[0] == 'M'), None), 'does not carry over all %s' % ('elements' if o == s.c.slots_off else 'metadata'))
        finally: s.bytes = old
    def observe(s, op, mem):
        env = s.env({A[0]: s.reader(mem, s.fields)})
        for t, S, rv in s.run_op(op, [env]):
            if False in [fact(env, x[1], x[2]) for x in t if x[0] == 'B'] or rv is None: continue
            try: return env(rv)
            except num.Unknown: return None
    def report(s, rule, op, i, msg):
        v = opspec.Viol(rule, op, s.c.var, s.P.where(i) if i is not None and not isinstance(i, int) else s.P.where(s.P.last), '%s %s' % (op.rstrip('_'), msg)); s.viols.setdefault(v.key(), v)
    def expect(s, op, kind, at, got, want, msg, *x):
        if got is None: s.n['undecided'] += 1; return
        s.n['fields'] += 1
        if got not in want:
            rule = {'element count': 'whole.size', 'storage': 'whole.own', 'geometry': 'whole.geom', 'load factor': 'whole.geom'}.get(kind, 'whole.policy')
            where = s.P.where(s.P.sites.get((at[0], eng.con(at[1], 64))) or s.P.sites.get(at) or s.P.lib or s.P.last)
            v = opspec.Viol(rule, op, s.c.var, where, '%s %s' % (op.rstrip('_'), msg)); s.viols.setdefault(v.key(), v)

def self_read(s, op):
    """offsets an observer's result is read from"""
    out = set()
    for t, S, rv in s.run_op(op):
        if rv is not None:
            for x in paths.deep_atoms(rv):
                if x.k == 'init' and x.a[0] is A[0]: out.add(x.a[1])
    return out
