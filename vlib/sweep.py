"""Sweeps: operations that go over a whole table reach exactly the elements its metadata describes.

For tables with one or two elements at chosen positions the scan loops of an operation are kept exact (their conditions
are closed functions of the fields and control bytes); on every path class the relocated, destroyed or copied slots must
be those a lookup would compare, each once."""
import random
import eng, num, paths, opspec, proto, geom
from proto import A0, A1, GRP, SLOTS, fact, atomnum
from paths import PathEngine
#: operation -> (operand that is swept, what happens to every element)
OPS = {'clear_': (A0, 'destroyed'), 'clear_d_': (A0, 'destroyed'), 'dtor_': (A0, 'destroyed'),
       'rehash_': (A0, 'relocated'), 'reserve_': (A0, 'relocated'), 'insert_c_': (A0, 'relocated'), 'shrink_': (A0, 'relocated'), 'set_mlf_': (A0, 'relocated'),
       'for_each_': (A0, 'visited'), 'for_each_m_': (A0, 'visited'), 'copy_ctor_': (A1, 'copied'), 'copy_asn_': (A1, 'copied')}
class Scan(proto.Trace):
    MAXHASH = 2
    thin = True
    by = None
    def note(s, S, *x):
        if x[0] == 'M' and s.by is not None: s.by.update(proto.final([x], s.envs[0], s.by))
        proto.Trace.note(s, S, *x)
    def peel(s, S, phis): return max(4, proto.Trace.peel(s, S, phis))
    def enter(s, S, b, frm):
        k = (b, frm, S.auto.get('nh'), S.auto['nv'], S.auto.get('e', 0), S.auto.get('built'), S.auto.get('lost'))
        if S.auto.get('nh'):
            n = s.seen[k] = s.seen.get(k, 0) + 1
            if n > 60: s.dropped += 1; return False
class Sweep:
    def __init__(s, m, c, lk, W, g, ini):
        s.m, s.c, s.lk, s.W, s.g = m, c, lk, W, g
        s.I = proto.IterCheck(s.m, c, lk, W, g, ini, ()); s.viols = {}; s.n = dict(contents=0, tail=0, paths=0, copies=0, undecided=0)
    def viol(s, P, op, i, msg):
        v = opspec.Viol('sweep', op, s.c.var, P.where(i) if i is not None else P.f.name, msg); s.viols.setdefault(v.key(), v)
    def positions(s):
        """the positions of the table: control byte address -> (bytes, slot)"""
        I = s.I; I.setup_positions(); A = sorted(I.slot); s.tail = []
        if s.W == 1 and s.c.stride == 1:
            # positions behind the last home: reached by elements displaced from it
            h = next(h for a, D, h, b, u in I.pos if a == A[-1]); f = lambda o: s.g.get(o); by = dict(I.ini)
            for d, u in enumerate(s.lk.units(f, h)):
                by.update(I.lay.entry(u, d, 0, 0)); ex = s.lk.examined(d, s.lk.env(f, h, by))
                if not d: continue
                if not ex or len(ex) != 1 or u in I.slot or u not in I.ini: break
                I.ent[u] = I.lay.entry(u, d, 0, 0); I.slot[u] = list(ex)[0]; s.tail.append(u)
            s.n['tail'] = len(s.tail)
        return A
    def unallocated(s, m):
        """the fields of a container that was never given room"""
        P = proto.trace(m, s.c, 'ctor_', s.W); env = num.Env(m, atomnum, lambda a, z: None); out = []
        for t, how, S in P.paths:
            if how == 'ret' and not any(x[0] == 'C' and x[1] == 'vf_alloc' for x in t): out.append(geom.fields_of(S, env, {}))
        if len(out) != 1: raise num.Unknown('default constructor')
        return out[0]
    def run(s, op, m2=None):
        if op == 'copy_asn_': s.never = s.unallocated(s.m)
        A = s.positions()
        if len(A) < s.W: raise num.Unknown('no positions')
        src, what = OPS[op]; r = s.I.rnd; m = m2 or s.m
        if s.W == 1 and s.c.stride > 1: picks = [A[:k] for k in (1, 2, 3, 7) if k <= len(A)] + [[]]
        else:
            ends = [a for a in A if a + 1 not in s.I.slot or a - 1 not in s.I.slot] if s.W > 1 else [A[0], A[-1]]
            picks = [[a] for a in sorted(set(ends + r.sample(A, min(8, len(A)))))] + [sorted(r.sample(A, 2)) for k in range(4)] + [[A[0], A[1]], A[:s.W], A[-s.W:], sorted(r.sample(A, min(9, len(A))))][:1 if what == 'relocated' else 4] + [[]]
        picks += [[A[-1]] + s.tail[:k + 1] for k in range(len(s.tail))]
        if op == 'set_mlf_': picks = picks[:2] if s.W == 1 and s.c.stride > 1 else [A[:1], A[-1:], [A[-1]] + s.tail]   # its argument leaves every outcome open
        for used in picks: s.one(op, m, src, what, used)
        return s
    def one(s, op, m, src, what, used):
        by = s.I.table(used); size = len(used)
        g = {**s.g, s.c.size_off: size}
        if op == 'insert_c_': g[s.c.thr_off] = size
        if op == 'shrink_': g[s.c.thr_off] = s.g[s.c.thr_off]
        r = random.Random(len(used)); hs = {s.I.slot[a]: r.getrandbits(64) for a in used}
        def atom(e):
            if e.k == 'init':
                if e.a[0] is src: return g.get(e.a[1])
                if e.a[0] is A0 and src is A1 and op == 'copy_asn_': return s.never.get(e.a[1])
                return None
            if e.k == 'call' and e.a[0] == 'vf_hash':
                try: return hs[env(e.a[1])]
                except (num.Unknown, KeyError, TypeError): return (0x9E3779B97F4A7C15 * (1 + len(used))) & num.M64
            if e.k == 'v' and '~' not in e.a[0] and e.w == 64: return 8 * g['n'] + 96
            return atomnum(e)
        env = num.Env(m, atom, proto.memf(by))
        P = proto.trace(m, s.c, op, s.W, cls=Scan, envs=[env], exact=4000, by=by)
        want = sorted(s.I.slot[a] for a in used); ok = 0
        for t, how, S in P.paths:
            if how != 'ret' or any(fact(env, x[1], x[2]) is False for x in t if x[0] == 'B'): continue
            ev = {'vf_K_dtor': [], 'vf_K_move': [], 'vf_K_copy': [], 'vf_use': []}; bad = False; last = None; dst = []
            for x in t:
                if x[0] != 'C' or x[1] not in ev: continue
                a = x[2][0] if x[1] in ('vf_K_dtor', 'vf_use') else x[2][1]
                try: v = env(a)
                except num.Unknown:
                    if proto.s_storage(a): bad = True
                    continue
                if v >> 32 == s.g[SLOTS] >> 32:
                    ev[x[1]].append(v); last = x[4]
                    if x[1] == 'vf_K_copy': dst.append((v, x[2][0], x[4]))
            if bad: s.n['undecided'] += 1; continue
            if what == 'relocated' and s.kept(t): s.n['undecided'] += 1; continue
            s.n['paths'] += 1; ok = 1
            key = {'destroyed': 'vf_K_dtor', 'relocated': 'vf_K_move', 'copied': 'vf_K_copy', 'visited': 'vf_use'}[what]
            got = sorted(ev[key])
            i = last if last is not None else next((x[-1] for x in reversed(t) if x[0] in 'BC'), None)
            if got != want:
                if set(want) - set(got): s.viol(P, op, i, 'an element of the table is not ' + what)
                elif set(got) - set(want): s.viol(P, op, i, 'a slot without an element is ' + what)
                else: s.viol(P, op, i, 'an element of the table is %s more than once' % what)
            if what == 'relocated' and sorted(ev['vf_K_dtor']) != want: s.viol(P, op, i, 'the slots destroyed after the relocation are not those of the elements')
            if what == 'copied' and ev['vf_K_dtor'] + ev['vf_K_move']: s.viol(P, op, i, 'copying changes an element of the source')
            if what == 'copied' and got == want and not any(x[0] == 'C' and x[1] == 'vf_hash' for x in t): s.same(P, op, t, S, env, by, dst)
        s.n['contents'] += ok
    def same(s, P, op, t, S, env, by, dst):
        if s.W == 1: return
        """a lookup in the copy compares the slot into which the element was copied"""
        f = geom.fields_of(S, env, {}); d = proto.final(t, env, by)
        if f.get(GRP) is None: s.n['undecided'] += 1; return
        sz = f.get(s.c.size_off); n = len(dst)
        if sz is not None and sz != n: s.viol(P, op, dst[0][2] if dst else None, 'the copy has another size than its source')
        for v, to, i in dst:
            h, b = next((h, b) for a, D, h, b, u in s.I.pos if D == v)
            a = next(a for a, D, h2, b2, u in s.I.pos if D == v)
            if by.get(a) != b and s.W > 1: h = None
            try: D = env(to)
            except num.Unknown: s.n['undecided'] += 1; continue
            if h is None: continue
            try: ex = s.lk.examined(0, s.lk.env(f.get, h, d))
            except num.Unknown: ex = None
            if ex is None or not all(k in d for k in (f[GRP],)): s.n['undecided'] += 1; continue
            s.n['copies'] += 1
            if D not in ex: s.viol(P, op, i, 'a lookup in the copy would not compare the slot into which the element was copied')
    def kept(s, t):
        """the table was not reallocated on this path"""
        return not any(x[0] == 'C' and x[1] == 'vf_alloc' for x in t)
