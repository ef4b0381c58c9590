"""Metadata protocol: what a lookup reads must be what the other operations write.

The lookup is summarised, group by group, as closed functions of the hash value, the container fields and the bytes of
one group: which group comes next, when it goes on to it, and which slots it compares.  Every other operation must
(1) visit the groups in that order, (2) leave every group it passes in a state in which a lookup goes on, (3) describe
the slot it fills so that a lookup compares it, (4) un-describe the slot it empties, (5) keep what other lookups need."""
import random, zlib
import eng, ir, num, paths, opspec
from eng import E, sym, mk, con, const, sub, addc, base_of, roots
from paths import hashdep, deep_atoms
A0 = sym('arg', 0, w=65)
GRP, SLOTS = 0, 8
NV = 3                      # visits kept per probe
SIZES = (40, 100, 1000)

class Trace(paths.PathProp):
    W = 16
    MAXHASH = 3
    KEEP = 6
    V0 = 0                      # probe lengths before a growth that are told apart
    thin = False
    dropped = pruned = 0
    envs = ()
    def branch(s, S, i, c, t):
        if c.k == 'c': return
        if s.envs:
            fs = {fact(e, c, t) for e in s.envs}
            if fs == {False}: s.pruned += 1; return False
            if fs != {True}: S.auto['fk'] = S.auto.get('fk', 0) + 1
        s.note(S, 'B', c, t, i)
    scan = 0
    def peel(s, S, phis): return s.scan or paths.PathProp.peel(s, S, phis)
    def start(s, S):
        paths.PathProp.start(s, S); S.auto['nv'] = 0; S.auto['last'] = None; S.auto['fv'] = (); s.seen = {}
    def cur(s, S, off, w=65):
        for o, v in S.auto['fv']:
            if o == off: return v
        return sym('init', A0, off, 8, w=w)
    def load(s, S, i, a, v):
        if not s.isst(a): return
        s.note(S, 'L', a, v, i, s.eng.L.size_align(i.ty)[0])
        if hashdep(a):
            o = sub(a, s.cur(S, GRP)); sz = s.eng.L.size_align(i.ty)[0]
            if S.auto['last'] is not o and not within(o, S.auto['last'], s.c.stride) and (s.W == 1 or sz >= 8 or not any(x.k == 'ld' for x in deep_atoms(o))):
                S.auto['last'] = o; S.auto['nv'] += 1; S.auto['e'] = 0
                if S.auto['nv'] > s.limit(S): S.auto['cut'] = 1
    def enter(s, S, b, frm):
        # after a growth only a few representatives per block and probe position are followed
        if (S.auto.get('grown') or s.thin) and not s.exact:
            k = (b, frm, bool(S.auto.get('grown')), S.auto.get('nh'), S.auto['nv'], S.auto.get('e', 0), S.auto.get('built'), S.auto.get('v0'))
            n = s.seen[k] = s.seen.get(k, 0) + 1
            if n > (s.KEEP if S.auto.get('grown') else 40): s.dropped += 1; return False
    def limit(s, S): return NV if s.W > 1 else 4
    def store(s, S, i, a, v, sz):
        paths.PathProp.store(s, S, i, a, v, sz)
        b, o = base_of(a)
        if b is A0 and const(o) is not None:
            S.auto['fv'] = tuple(x for x in S.auto['fv'] if x[0] != const(o)) + ((const(o), v),)
            s.note(S, 'F', const(o), v, i)
    def call(s, S, i, n, args, rv):
        paths.PathProp.call(s, S, i, n, args, rv)
        if n == 'vf_eq':
            S.auto['e'] = S.auto.get('e', 0) + 1
            if S.auto['e'] > 1: return []
        if n == 'vf_alloc': S.auto['grown'] = 1; S.auto.setdefault('v0', min(S.auto['nv'], s.V0))
        if n[:5] == 'vf_K_' and n[5:] in ('copy', 'move', 'def', 'conv') and s.isst(args[0]): S.auto['built'] = S.auto.get('built', 0) + 1
        if n == 'vf_hash':
            S.auto['nh'] = S.auto.get('nh', 0) + 1; S.auto['nv'] = 0; S.auto['last'] = None
            if S.auto['nh'] > s.MAXHASH: return []
    def unreachable(s, S, i): s.done(S, 'throw')

def trace(m, c, op, W, cls=Trace, envs=(), **kw):
    P = cls(c, op); P.W = W; P.envs = envs
    for k, v in kw.items(): setattr(P, k, v)
    En = paths.PathEngine(m); En.run(m.funcs[op], P)
    return P

def geometries(m, c, sizes=None):
    """field values of a container constructed for n elements, from the constructor's own expressions"""
    P = paths.PathProp(c, 'ctor_n_'); En = paths.PathEngine(m); En.run(m.funcs['ctor_n_'], P)
    out = []
    for n in sizes or SIZES:
        for t, how, S in P.paths:
            if how != 'ret': continue
            env = num.Env(m, lambda e: n if e.k == 'v' and '~' not in e.a[0] else atomnum(e), lambda a, z: None)
            if not all(fact(env, x[1], x[2]) is not False for x in t if x[0] == 'B'): continue
            g = {}
            for (b, off, sz), x in S.mem.items():
                if b is A0:
                    try: g[off] = env(x)
                    except num.Unknown: pass
            if g.get(GRP) and g.get(SLOTS):
                g = older(g)
                g['n'] = n; out += [{**g, c.size_off: z} for z in (n // 2, g.get(c.thr_off, n))]; break
    return out
_st = {}
def stable(e):
    if e not in _st: _st[e] = zlib.crc32(repr(e).encode())
    return _st[e]
_an = {}
OLD = 0x1000 << 32          # blocks a container was constructed with lie this much higher than those an operation allocates
def older(g):
    ks = [v >> 32 << 32 for k, v in _an.items() if k.k == 'alloc']
    return {o: v + OLD if o != 'n' and v >> 32 << 32 in ks else v for o, v in g.items()}
def atomnum(e):
    if e.k in ('arg', 'alloca', 'alloc', 'g'):
        if e not in _an: _an[e] = (len(_an) + 3) << 32
        return _an[e]
    return None
def fact(env, c, t):
    try: return bool(env(c)) == t
    except num.Unknown: return None

def within(o, last, stride):
    """the same entry of the control array"""
    if last is None or stride == 1: return False
    d = const(sub(o, last))
    return d is not None and 0 < d < stride
class Lookup:
    """the lookup summary, learned from find"""
    def __init__(s, m, c, W, op='find_'):
        s.m, s.c, s.W = m, c, W
        P = trace(m, c, op, W)
        s.pools = {}; s.addr = []; s.cont = {}; s.exam = {}; s.stop = {}; s.paths = P.paths; s.hcall = None
        for t, how, S in P.paths:
            segs = s.segments(t)
            for j, (a, ev) in enumerate(segs):
                if j == len(s.addr): s.addr.append(a)
                fs = []; eq = None
                for x in ev:
                    if x[0] == 'B': fs.append((x[1], x[2]))
                    if x[0] == 'C' and x[1] == 'vf_eq':
                        sl = [y for y in x[2] if s_storage(y)]
                        if sl: s.exam.setdefault(j, set()).add((tuple(fs), sl[0]))
                if j + 1 < len(segs): s.cont.setdefault(j, set()).add(tuple(fs))
                else: s.stop.setdefault(j, set()).add(tuple(fs))
        if len(s.addr) < 2 or not s.cont or not s.exam: raise num.Unknown("no probe sequence in " + op)
    def segments(s, t):
        out = []; last = None
        for x in t:
            if x[0] == 'L' and hashdep(x[1]):
                o = sub(x[1], sym('init', A0, GRP, 8, w=65))
                if base_of(o)[0] is not None: continue
                if last is None or (o is not last and not within(o, last, s.c.stride) and (s.W == 1 or x[4] >= 8)):
                    last = o; out.append((x[1], [])); continue
            if out: out[-1][1].append(x)
        return out
    def env(s, field, h, bytes_):
        def atom(e):
            if e.k == 'init' and e.a[0] is A0: return field(e.a[1])
            if e.k == 'call': return h if e.a[0] == 'vf_hash' else None
            return atomnum(e)
        return num.Env(s.m, atom, memf(bytes_))
    def units(s, field, h):
        env = s.env(field, h, {})
        return [env(a) for a in s.addr]
    def fps(s, field, h):
        """bytes that make visit 0 compare the slot at that position"""
        u = s.units(field, h)[0]; out = []
        for b in range(256):
            if s.examined(0, s.env(field, h, {**{u + k: 0 for k in range(s.W)}, u + 3 % s.W: b})): out.append(b)
        return out
    def pool(s, g):
        """representative hash values: every fingerprint residue, several homes"""
        k = (g.get(GRP), g.get('n'))
        if k not in s.pools:
            r = random.Random(7); f = lambda o: g.get(o); P = []
            for n in range(24):
                h = r.getrandbits(64)
                if n == 0: h = 0
                P.append((h, s.units(f, h), s.fps(f, h)))
            s.pools[k] = P
        return s.pools[k]
    def goes_on(s, j, env): return s.any(s.cont.get(j, ()), env)
    def any(s, alts, env):
        """True: some alternative holds entirely; False: all are refuted; None: unknown"""
        unk = False
        for fs in alts:
            rs = [fact(env, c, t) for c, t in fs if not eqdep(c)]
            if False in rs: continue
            if None in rs: unk = True; continue
            return True
        return None if unk else False
    def examined(s, j, env):
        """numeric addresses of the slots compared first in visit j, or None if unknown"""
        out = set(); unk = False
        for fs, slot in s.exam.get(j, ()):
            rs = [fact(env, c, t) for c, t in fs if not eqdep(c)]
            if False in rs: continue
            if None in rs: unk = True; continue
            try: out.add(env(slot))
            except num.Unknown: unk = True
        return out if out or not unk else None

class Layout:
    """what one entry of a control array with one entry per position looks like (learned from the lookup)"""
    def __init__(s, lk, g, stride):
        s.lk, s.stride, s.dpos, s.hb = lk, stride, 0, {}
        if stride == 1: return
        f = lambda o: g.get(o); h = 0x1234567890ABCDEF
        for s.dpos in (0, 1):
            s.hb.clear()
            if s.describe(f, 0, h) is not None: s.hb.clear(); return
        raise num.Unknown('layout of the control entries')
    def entry(s, u, dist, hb, idx):
        if s.stride == 1: return {u: dist & 255}
        return {u + s.dpos: dist & 255, u + 1 - s.dpos: hb, u + 2: 0, u + 3: 0, **{u + 4 + k: (idx >> (8 * k)) & 255 for k in range(4)}}
    def describe(s, field, key, h):
        """the byte that makes a lookup of h compare the slot of an entry at its home"""
        k = (key, h)
        if k not in s.hb:
            u = s.lk.units(field, h)[0]
            s.hb[k] = next((b for b in range(256) if s.lk.examined(0, s.lk.env(field, h, s.entry(u, 0, b, 5)))), None)
        return s.hb[k]

_ho = {}
def hashof(e):
    """the one hash value an address is computed from"""
    if e not in _ho:
        hs = [x for x in deep_atoms(e) if x.k == 'call' and x.a[0] == 'vf_hash']
        out = [x for x in hs if not any(y is not x and x in deep_atoms(y) for y in hs)]
        _ho[e] = out[0] if len(out) == 1 else None
    return _ho[e]
def s_storage(e):
    b, o = base_of(e)
    return b is None or b.k not in ('arg', 'alloca', 'g')
_eqd = {}
def eqdep(c):
    r = _eqd.get(c)
    if r is None: r = _eqd[c] = any(x.k == 'call' and x.a[0] == 'vf_eq' for x in deep_atoms(c))
    return r
def memf(b):
    def f(a, n):
        try: return int.from_bytes(bytes(b[a + k] for k in range(n)), 'little')
        except KeyError: return None
    return f

class OpCheck:
    """one operation against the lookup summary"""
    def __init__(s, m, c, op, lk, W, geoms, fp=None):
        s.m, s.c, s.op, s.lk, s.W, s.geoms = m, c, op, lk, W, geoms
        s.viols = {}; s.n = dict(paths=0, visits=0, passed=0, built=0, erased=0, kept=0, undecided=0)
        s.rnd = random.Random(12345); s.kn = 0; s.pc = {}; s.free = set(); s.pool = lk.pool(geoms[0])
    def viol(s, rule, i, msg):
        v = opspec.Viol(rule, s.op, s.c.var, s.P.where(i), msg); s.viols.setdefault(v.key(), v)
    def run(s, contents=True):
        s.P = P = trace(s.m, s.c, s.op, s.W, envs=[num.Env(s.m, s.opatom(g, None), lambda a, z: None) for g in s.geoms[:4]])
        for t, how, S in P.paths:
            s.n['paths'] += 1
            for g in s.geoms[:4]:
                for h in s.hashes(2): s.order(t, g, h)
            if contents: s.content(t)
    def hashes(s, n): return [s.rnd.getrandbits(64) for _ in range(n)]
    def opatom(s, g, h):
        def atom(e):
            if e.k == 'init' and e.a[0] is A0: return g.get(e.a[1])
            if e.k == 'call' and e.a[0] == 'vf_hash':
                b = base_of(e.a[1])[0]
                if h is None: return None
                return h if b is not None and b.k in ('arg', 'alloca') else (h * 0x9E3779B97F4A7C15 + stable(e) * 0xC2B2AE3D27D4EB4F) & num.M64
            if e.k == 'v' and '~' not in e.a[0]: return 8 * g['n']
            return atomnum(e)
        return atom
    def order(s, t, g, h):
        env = num.Env(s.m, s.opatom(g, h), lambda a, z: None)
        cur = {}; U = None; j = -1; hv = None
        for x in t:
            if x[0] == 'F':
                cur[x[1]] = x[2]; U = None
            elif x[0] == 'B':
                if fact(env, x[1], x[2]) is False: return
            elif x[0] == 'L' and hashdep(x[1]):
                hc = hashof(x[1])
                if hc is not hv: hv = hc; U = None
                if hv is None: continue
                if U is None:
                    field = lambda o: env(cur[o]) if o in cur else g.get(o)
                    try: U = s.lk.units(field, env(hv)); G = field(GRP); j = -1
                    except num.Unknown: return
                try: a = env(x[1])
                except num.Unknown: s.n['undecided'] += 1; continue
                u = a - (a - G) % max(s.W, s.c.stride)
                s.n['visits'] += 1
                if j >= 0 and u == U[j]: continue
                if j + 1 < len(U) and u == U[j + 1]: j += 1; continue
                if u == U[0]: j = 0; continue
                if s.W == 1 and u in U[:j + 1]: continue
                if j + 1 >= len(U): return
                s.viol('probe', x[3], 'does not examine the positions in the order in which a lookup does'); return
    # ---- contents
    def sample(s, g, h, t, k):
        """position of the events of visit number k and its address: list of (index in trace, j, unit, pass, fields, hash)"""
    def visits(s, t, env, g):
        cur = {}; U = None; j = -1; hv = None; out = []; ps = 0
        for n, x in enumerate(t):
            if x[0] == 'F': cur = dict(cur); cur[x[1]] = x[2]; U = None
            elif x[0] == 'L' and hashdep(x[1]):
                hc = hashof(x[1])
                if hc is not hv: hv = hc; U = None; ps += 1
                if hv is None: continue
                c2 = cur; field = lambda o, c2=c2: env(c2[o]) if o in c2 else g.get(o)
                if U is None:
                    try: U = s.lk.units(field, env(hv)); G = field(GRP); j = -1; ps += 1
                    except num.Unknown: return out
                try: a = env(x[1])
                except num.Unknown: continue
                u = a - (a - G) % s.W
                if j >= 0 and u == U[j] and not (s.W > 1 and x[4] >= 8 and j == 0 and False): continue
                if j + 1 < len(U) and u == U[j + 1]: j += 1
                elif u == U[0]: j = 0; ps += 1
                else: return out
                if out: out[-1]['end'] = n
                out.append(dict(n=n, n2=None, j=j, u=u, ps=ps, field=field, h=env(hv), end=len(t)))
        return out
    def content(s, t):
        built = [n for n, x in enumerate(t) if x[0] == 'C' and x[1] in ('vf_K_copy', 'vf_K_move', 'vf_K_def', 'vf_K_conv') and s_storage(x[2][0]) and hashdep(x[2][0])]
        gone = [n for n, x in enumerate(t) if x[0] == 'C' and x[1] == 'vf_K_dtor' and s_storage(x[2][0]) and hashdep(x[2][0])]
        if not built and not gone and not any(x[0] == 'S' for x in t): return
        for g in s.geoms[:2]:
            for h in s.hashes(2):
                env = num.Env(s.m, s.opatom(g, h), lambda a, z: None)
                vs = s.visits(t, env, g)
                for b in gone:
                    v = [v for v in vs if v['n'] < b]
                    if v: s.erased(t, g, h, v[-1], b)
                for b in built:
                    v = [v for v in vs if v['n'] < b]
                    if v: s.built(t, g, h, v[-1], [x for x in v[:-1] if x['ps'] == v[-1]['ps']], b)
    def bytes_for(s, u, p, kind):
        """metadata of one group: position p has byte `kind`, the others are in use"""
        d = {u + k: b | (0x80 if s.topbit and s.rnd.random() < 0.5 else 0) for k, b in enumerate(s.rnd.sample(range(2, 127), 16))}
        d[u + 15] = s.rnd.getrandbits(8) if s.lane15 else d[u + 15]
        return d
    lane15 = topbit = False
    known_free = ()
    def eval_path(s, t, g, h, lo, hi, by):
        """facts between two trace positions under the given metadata: None if refuted, else (env, number decided true)"""
        st = dict(by); env = num.Env(s.m, s.opatom(g, h), memf(st)); n = 0
        for x in t[lo:hi]:
            if x[0] == 'L':
                try: env(x[2])
                except num.Unknown: pass
            elif x[0] == 'S': s.store(env, x, st)
            elif x[0] == 'B' and not eqdep(x[1]):
                f = fact(env, x[1], x[2])
                if f is False: return None
                if f is True: n += 1
        return env, n
    @staticmethod
    def store(env, x, st):
        try: a = env(x[1]); v = env.flat(env(x[2]))
        except num.Unknown: return
        for k in range(x[3]): st[a + k] = (v >> (8 * k)) & 255
    def apply(s, t, env, by, u, lo=0, hi=None):
        """metadata of the unit after the stores of the path"""
        nb = dict(by); hit = 0
        for x in t[lo:hi]:
            if x[0] != 'S': continue
            try: a = env(x[1])
            except num.Unknown: continue
            if not (u <= a < u + s.W): continue
            try: v = env(x[2])
            except num.Unknown: return None, 0
            v = env.flat(v)
            for k in range(x[3]): nb[a + k] = (v >> (8 * k)) & 255
            hit += 1
        return nb, hit
    def built(s, t, g, h, v, passed, b):
        u = v['u']
        x = t[b]
        for p in range(s.W if s.W > 1 else 1):
            by = None
            for e in (0, 0x80, 0xFF, 0xFE):
                by = s.bytes_for(u, p, e); by[u + p] = e
                r = s.eval_path(t, g, h, v['n'], v['end'], by)
                if r and r[1]: break
            else: continue
            env = r[0]
            try: D = env(x[2][0])
            except num.Unknown: s.n['undecided'] += 1; continue
            nb, hit = s.apply(t, env, by, u, v['n'], v['end'])
            if nb is None: s.n['undecided'] += 1; continue
            new = {nb[q] for q in nb if nb[q] != by[q]}
            if any(nb[q] == by[q] and any((nb[q] ^ y) & 127 == 0 for y in new) for q in nb): continue       # another position has the same fingerprint
            ex = s.lk.examined(v['j'], s.lk.env(v['field'], v['h'], nb))
            if ex is None: s.n['undecided'] += 1; continue
            s.n['built'] += 1
            s.free.add(by[u + p])
            if s.kn < 80: s.kn += 1; s.kept(u, v['field'], by, nb, p, x[4])
            if D not in ex: s.viol('lookup', x[4], 'a lookup of the key would not compare the slot in which the element was built')
        for w in passed:
            for k in range(8):
                by = s.bytes_for(w['u'], 0, 0)
                r = s.eval_path(t, g, h, w['n'], w['end'], by)
                if not r or not r[1]: continue
                nb, hit = s.apply(t, r[0], by, w['u'], w['n'], v['end'])
                if nb is None: s.n['undecided'] += 1; continue
                on = s.lk.goes_on(w['j'], s.lk.env(w['field'], w['h'], nb))
                if on is None: s.n['undecided'] += 1; continue
                s.n['passed'] += 1
                if s.kn < 120: s.kn += 1; s.kept(w['u'], w['field'], by, nb, None, x[4])
                if on is False: s.viol('lookup', x[4], 'a lookup of the key would stop before it reaches the element')

    def erased(s, t, g, h, v, b):
        u = v['u']; x = t[b]; fps = s.lk.fps(v['field'], v['h'])
        if not fps: s.n['undecided'] += 1; return
        for p in range(s.W):
            for fpb in fps:
                by = s.bytes_for(u, p, 0); by[u + p] = fpb
                if any((by[q] ^ fpb) & 127 == 0 for q in by if q != u + p): continue
                r = s.eval_path(t, g, h, v['n'], v['end'], by)
                if not r: continue
                s.judge_erased(r[0], v, by, p, x, t)
    def judge_erased(s, env, v, by, p, x, t, lo=None, hi=None):
        u = v['u']
        try: D = env(x[2][0])
        except num.Unknown: s.n['undecided'] += 1; return
        ex = s.lk.examined(v['j'], s.lk.env(v['field'], v['h'], by))
        if not ex or D not in ex: s.n['undecided'] += 1; return
        nb, hit = s.apply(t, env, by, u, v['n'] if lo is None else lo, v['end'] if hi is None else hi)
        if nb is None: s.n['undecided'] += 1; return
        s.n['erased'] += 1
        ex2 = s.lk.examined(v['j'], s.lk.env(v['field'], v['h'], nb))
        if ex2 and D in ex2: s.viol('lookup', x[4], 'a lookup would still compare the slot of the removed element'); return
        if s.known_free and nb[u + p] not in s.known_free:
            s.viol('reuse', x[4], 'no insertion can use the position of the removed element again')
        s.kept(v['u'], v['field'], by, nb, p, x[4])
    def poolof(s, field):
        k = []
        for o in s.geoms[0]:
            if o == 'n': continue
            try: k.append(field(o))
            except num.Unknown: k.append(None)
        k = tuple(k)
        if k not in s.pc:
            s.pc[k] = []
            for h2, U2, fp2 in s.pool:
                try: s.pc[k].append((h2, s.lk.units(field, h2), fp2))
                except num.Unknown: pass
        return s.pc[k]
    def kept(s, u, field, by, nb, p, i):
        """what the metadata says about the other elements and the other keys does not change"""
        for h2, U2, fp2 in s.poolof(field):
            for j2, w in enumerate(U2):
                if w != u: continue
                e1, e2 = s.lk.env(field, h2, by), s.lk.env(field, h2, nb)
                if s.lk.goes_on(j2, e1) is True and s.lk.goes_on(j2, e2) is False:
                    s.viol('kept', i, 'a lookup of another key would no longer go on past this group'); return
                s.n['kept'] += 1
                for q in range(s.W):
                    if q == p or by[u + q] == nb[u + q]: continue
                    for z in fp2:
                        b1 = dict(by); b1[u + q] = z
                        # the stores leave byte q with what they wrote: compare only when they rewrote it
                        a1 = s.lk.examined(j2, s.lk.env(field, h2, b1))
                        if a1 and by[u + q] == z:
                            a2 = s.lk.examined(j2, e2)
                            if a2 is not None and not a1 & a2: s.viol('kept', i, 'a lookup of another element would no longer compare its slot'); return
                break

def initial(m, c, W, g):
    """metadata of a freshly constructed container of geometry g: address -> byte (None: not determined)"""
    env = num.Env(m, lambda e: g['n'] if e.k == 'v' and '~' not in e.a[0] else atomnum(e), lambda a, z: None)
    P = trace(m, c, 'ctor_n_', W, envs=[env], exact=300)
    best = {}
    for t, how, S in P.paths:
        d = final(t, env) if how == 'ret' else {}
        if len(d) > len(best): best = d
    return {a + OLD: b for a, b in best.items()}
def final(t, env, by=()):
    d = {}
    for x in t:
        if x[0] == 'M' and x[1] == 'memset':
            try: a, v, n = (env.flat(env(y)) for y in x[2][:3])
            except num.Unknown: continue
            for k in range(min(n, 1 << 14)): d[a + k] = v & 255
        if x[0] == 'M' and x[1] in ('memcpy', 'memmove'):
            try: a, v, n = (env.flat(env(y)) for y in x[2][:3])
            except num.Unknown: continue
            for k in range(min(n, 1 << 14)):
                if v + k in by: d[a + k] = by[v + k]
                else: d.pop(a + k, None)
        if x[0] != 'S': continue
        try: a = env(x[1]); v = env.flat(env(x[2]))
        except num.Unknown: continue
        for k in range(x[3]): d[a + k] = (v >> (8 * k)) & 255
    return d

A1 = sym('arg', 1, w=65); A2 = sym('arg', 2, w=65)
class IterCheck:
    """iterators: what find returns, what * refers to, what ++ and begin reach, what erase(iterator) removes"""
    NP = 26
    def __init__(s, m, c, lk, W, g, ini, free, const_=False):
        s.m, s.c, s.lk, s.W, s.g, s.ini, s.free = m, c, lk, W, g, ini, free
        s.pre = 'c' if const_ else ''; s.viols = {}; s.n = dict(positions=0, steps=0, begins=0, derefs=0, erased=0, undecided=0)
        s.tr = {}; s.const_ = const_; s.rnd = random.Random(5)
    def viol(s, rule, op, i, msg):
        v = opspec.Viol(rule, op, s.c.var, s.where.get(op) if i is None else i, msg); s.viols.setdefault(v.key(), v)
    where = {}
    def paths(s, op):
        if op not in s.tr:
            scan = 0 if op.startswith('find') else 80
            envs = [num.Env(s.m, s.atoms(None, {}), lambda a, z: None)]
            for scan in ((80, 18, 8) if scan else (0,)):
                try: P = trace(s.m, s.c, op, s.W, envs=envs if scan else (), scan=scan, maxpaths=900 if scan == 80 else 4000); break
                except eng.AnalysisError:
                    if scan in (0, 8): raise
            s.tr[op] = P
        return s.tr[op].paths
    def atoms(s, h, it):
        def atom(e):
            if e.k == 'init':
                if e.a[0] is A0: return s.g.get(e.a[1])
                if e.a[0] is A1: return it.get(e.a[1])
                return None
            if e.k == 'call':
                if e.a[0] == 'vf_hash': return h
                if e.a[0] == 'vf_eq': return 1
                return None
            return atomnum(e)
        return atom
    def env(s, by, h=None, it={}):
        a0 = atomnum(A0)
        def mem(a, n):
            if a0 <= a < a0 + 256: return s.g.get(a - a0)
            r = 0
            for k in range(n):
                b = by.get(a + k)
                if b is None: return None
                r |= b << (8 * k)
            return r
        return num.Env(s.m, s.atoms(h, it), mem)
    def consistent(s, op, env):
        """the path whose conditions hold (all of them, when a condition is not determined and they agree), or None"""
        out = []
        for t, how, S in s.paths(op):
            if how == 'throw': continue
            r = [fact(env, x[1], x[2]) for x in t if x[0] == 'B']
            if False in r: continue
            if S.auto.get('cut'): return None
            out.append((t, S))
            if len(out) > 3: return None
        if not out: return None
        if len(out) > 1:
            for arg in (A1, A2):
                fs = [s.fields(S, arg, env) for t, S in out]
                if None in fs or any(f != fs[0] for f in fs): return None
        return out[0]
    def fields(s, S, arg, env, it={}):
        f = dict(it)
        for (b, off, sz), x in S.mem.items():
            if b is arg:
                try: f[off] = env(x)
                except num.Unknown: return None
        return f
    def setup_positions(s):
        """positions of the table: metadata address, slot address, a hash homed there and the byte that describes it"""
        s.pos = []; s.ent = {}; s.lay = Layout(s.lk, s.g, s.c.stride) if s.W == 1 else None; f = lambda o: s.g.get(o); seen = set()
        r = random.Random(3); units = {}
        for n in range(400):
            h = r.getrandbits(64); u = s.lk.units(f, h)[0]
            units.setdefault(u, h)
        used = 0
        for u, h in sorted(units.items()):
            if s.W == 1 and s.c.stride > 1: fp = [s.lay.describe(f, 0, h)]
            else: fp = [b for b in s.lk.fps(f, h) if b or s.W == 1]
            if not fp or fp[0] is None: continue
            for p in range(s.W):
                a = u + p
                if s.ini.get(a) != 0 and s.W > 1: continue
                s.ent[a] = s.lay.entry(a, 0, fp[0], len(s.ent)) if s.W == 1 else {a: fp[0]}
                by = {**{u + k: s.ini.get(u + k, 0) for k in range(s.W)}, **s.ent[a]}
                ex = s.lk.examined(0, s.lk.env(f, h, by))
                if ex and len(ex) == 1: s.pos.append((a, list(ex)[0], h, fp[0], u))
        s.slot = {a: D for a, D, h, b, u in s.pos}; s.byte = {a: b for a, D, h, b, u in s.pos}
    def setup(s):
        s.setup_positions(); s.rep = {}
        op = 'find_cit_' if s.const_ else 'find_it_'
        for a, D, h, b, u in s.pos:
            env = s.env({**s.ini, **s.ent[a]}, h)
            r = s.consistent(op, env)
            it = r and s.fields(r[1], A2, env)
            if it: s.rep[a] = it; s.n['positions'] += 1
        e = s.consistent('cend_it_' if s.const_ else 'end_it_', s.env(s.ini)); s.end = e and s.fields(e[1], A1, s.env(s.ini))
    def at(s, op, t): 
        for x in reversed(t):
            if x[0] in 'LSB': return s.tr[op].where(x[3] if x[0] in 'LB' else x[4])
        return s.tr[op].f.name
    def isend(s, it): return it == s.end
    def run(s):
        s.setup(); A = sorted(s.rep)
        if len(A) < s.W: raise num.Unknown('no iterator positions')
        if s.W == 1 and s.c.stride > 1: return s.dense()
        picks = [(A[0], A[1]), (A[0], A[-1]), (A[-2], A[-1]), (A[-1], None), (A[0], None)]
        while len(picks) < 40:
            p, q = sorted(s.rnd.sample(A, 2)); 
            if q - p < 36: picks.append((p, q))
        s.deref(A); s.begin(A); s.next(picks)
        if not s.const_: s.erase(A)
    def dense(s):
        """iteration over a slot array without holes: position k is the slot k"""
        size = s.g[s.c.size_off]; A = list(s.ent)[:size]; by = s.table(A)
        if any(a not in s.rep for a in A): raise num.Unknown('no iterator positions')
        s.deref(A)
        op = 'begin_cit_' if s.const_ else 'begin_it_'
        env = s.env(by); r = s.consistent(op, env); it = r and s.fields(r[1], A1, env)
        if it:
            s.n['begins'] += 1
            if it != s.rep[A[0]]: s.viol('iter', op, s.at(op, r[0]), 'begin() does not designate the first element of the table')
        op = 'cnext_' if s.const_ else 'next_'
        for k, a in enumerate(A):
            env = s.env(by, it=s.rep[a]); r = s.consistent(op, env); it = r and s.fields(r[1], A1, env, s.rep[a])
            if not it: s.n['undecided'] += 1; continue
            s.n['steps'] += 1
            if it != (s.rep[A[k + 1]] if k + 1 < size else s.end): s.viol('iter', op, s.at(op, r[0]), 'advancing the iterator does not give the next element of the table')
        g = s.g; s.g = {**g, s.c.size_off: 0}
        try:
            env = s.env(s.ini); b = s.consistent('begin_it_', env); e = s.consistent('end_it_', env)
            b = b and s.fields(b[1], A1, env); e = e and s.fields(e[1], A1, env)
            if b and e:
                s.n['begins'] += 1
                if b != e: s.viol('iter', 'begin_it_', s.at('begin_it_', s.paths('begin_it_')[0][0]), 'begin() of an empty table is not end()')
        finally: s.g = g
    def table(s, used, avoid=0):
        by = dict(s.ini)
        for n, a in enumerate(used):
            if s.W == 1: by.update(s.ent[a])
            else: by[a] = s.byte[a] if not n else next(b for b in iter(lambda: s.rnd.randrange(2, 126), 0) if b & 127 != avoid & 127)
        return by
    def deref(s, A):
        op = 'cderef_' if s.const_ else 'deref_'
        for a in A:
            env = s.env(s.table([a]), it=s.rep[a])
            r = s.consistent(op, env); f = r and s.fields(r[1], A2, env)
            if not f: s.n['undecided'] += 1; continue
            s.n['derefs'] += 1
            if f.get(0) != s.slot[a]: s.viol('iter', op, s.at(op, r[0]), 'an iterator to an element does not refer to the slot of that element')
    def begin(s, A):
        op = 'begin_cit_' if s.const_ else 'begin_it_'
        for a in s.rnd.sample(A, 20) + [A[0], A[-1]]:
            more = [b for b in A if b > a and s.rnd.random() < 0.3]
            env = s.env(s.table([a] + more))
            r = s.consistent(op, env); it = r and s.fields(r[1], A1, env)
            if not it: s.n['undecided'] += 1; continue
            s.n['begins'] += 1
            if it != s.rep[a]: s.viol('iter', op, s.at(op, r[0]), 'begin() does not designate the first element of the table')
        env = s.env(s.ini); r = s.consistent(op, env); it = r and s.fields(r[1], A1, env)
        if it:
            s.n['begins'] += 1
            if s.end is not None and it != s.end: s.viol('iter', op, s.at(op, r[0]), 'begin() of an empty table is not end()')
    def next(s, picks):
        op = 'cnext_' if s.const_ else 'next_'
        for p, q in picks:
            more = [b for b in s.rep if (b < p or q is not None and b > q) and s.rnd.random() < 0.4]
            env = s.env(s.table([p] + ([q] if q else []) + more), it=s.rep[p])
            r = s.consistent(op, env); it = r and s.fields(r[1], A1, env, s.rep[p])
            if not it: s.n['undecided'] += 1; continue
            s.n['steps'] += 1
            want = s.rep[q] if q else s.end
            if want is None: continue
            if q is None and not s.same(it, want): s.viol('iter', op, s.at(op, r[0]), 'advancing the iterator from the last element does not give end()')
            elif q is not None and it != want: s.viol('iter', op, s.at(op, r[0]), 'advancing the iterator does not give the next element of the table')
    def same(s, a, b):
        """equality of iterators as the library defines it"""
        if a == b: return True
        env = num.Env(s.m, lambda e: (a if e.a[0] is A1 else b if e.a[0] is A2 else s.g).get(e.a[1]) if e.k == 'init' else atomnum(e), s.env(s.ini).mem)
        r = s.consistent('iteq_', env)
        if not r: return True
        A3 = sym('arg', 3, w=65); f = s.fields(r[1], A3, env)
        return not f or bool(f.get(24, f.get(8, 1)) if False else f.get(24, 1))
    def erase(s, A):
        op = 'erase_it_'; O = OpCheck(s.m, s.c, op, s.lk, s.W, [s.g]); O.known_free = s.free
        for a in s.rnd.sample(A, min(s.NP, len(A))):
            D, h, b, u = next((D, h, b, u) for x, D, h, b, u in s.pos if x == a)
            more = [z for z in A if z != a and s.rnd.random() < 0.5]
            by = s.table([a] + more, b)
            if any(by.get(u + k, 0) & 127 == b & 127 for k in range(s.W) if u + k != a): continue
            env = s.env(by, it=s.rep[a])
            for t, how, S in s.paths(op):
                r = [fact(env, x[1], x[2]) for x in t if x[0] == 'B']
                if False in r: continue
                gone = [n for n, x in enumerate(t) if x[0] == 'C' and x[1] == 'vf_K_dtor' and s_storage(x[2][0])]
                if len(gone) != 1: continue
                x = t[gone[0]]; O.P = s.tr[op]
                try: d = env(x[2][0])
                except num.Unknown: s.n['undecided'] += 1; continue
                if d != D: s.viol('erase', op, O.P.where(x[4]), 'erase(iterator) destroys another element than the one the iterator designates'); continue
                v = dict(n=0, j=0, u=u, field=lambda o: s.g.get(o), h=h, end=len(t))
                if s.W > 1: O.judge_erased(env, v, by, a - u, x, t, 0, len(t)); s.n['erased'] += 1
                break
        for v in O.viols.values(): s.viols.setdefault(v.key(), v)
