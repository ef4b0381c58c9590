"""The object-lifetime / effect automaton run over every public operation of every container variant.

For one operation (one driver function, everything inlined) it tracks, per path class:
  st     status of the key/mapped objects the path has touched (live / moved-from / dead) with provenance
  eq     the element for which the user's key-equality answered true (or 'none')
  n,m    live-element count and size-field deltas (relative to entry, or absolute after the storage was replaced)
  al     allocations owned by the path
  ev     coarse events: allocation, transfer of elements, calls to the cut recursion
Violations are reported at the construct where they become certain; exits are judged by the operation's contract."""
import re, sys
import ir, eng
from eng import E, mk, con, const, ZERO, addc, add, sub, base_of, roots, show, lin_parts

CAP = 3
RE_EV = re.compile(r'vf_([KT])_(\w+)$')
CONSTRUCT = ('def', 'copy', 'move', 'conv', 'conv2')

_hasp = {}
def has_p(e):
    r = _hasp.get(e)
    if r is None:
        r = e.k == 'p' or any(has_p(x) if isinstance(x, E) else (isinstance(x, tuple) and any(has_p(y[0] if isinstance(y, tuple) else y) for y in x if isinstance(y, (E, tuple)))) for x in e.a)
        _hasp[e] = r
    return r

def fields_from(e, b, F):
    """e, written in terms of the fields of container b, in terms of what those fields hold according to F"""
    env = {}
    for a in eng.atoms_of(e):
        if a.k == 'init' and a.a[0] is b:
            if (a.a[1], a.a[2]) in F: env[a] = F[a.a[1], a.a[2]]
            else: return None
    return eng.fold(e, env)
def has_j(e):
    if not isinstance(e, E): return any(has_j(x) for x in e) if isinstance(e, tuple) else False
    return e.k in ('j', 'p', 'hav', 'v') or any(has_j(x) for x in e.a)
def fieldsonly(e):
    if e.k == 'lin': return all(fieldsonly(k) for k, _ in e.a[1])
    return e.k in ('c', 'arg') or e.k == 'init' and fieldsonly(e.a[0])
class Viol:
    __slots__ = ('rule', 'op', 'var', 'where', 'msg', 'path')
    def __init__(s, rule, op, var, where, msg, path=()): s.rule, s.op, s.var, s.where, s.msg, s.path = rule, op, var, where, msg, path
    def key(s): return (s.rule, s.op, s.var, s.where, s.msg)
    def __str__(s): return '[%s] %s/%s at %s: %s' % (s.rule, s.var, s.op, s.where, s.msg)

class Ctx:
    """what is known about a variant (derived from the analysed code)"""
    def __init__(c, var, ksz, tsz):
        c.var, c.ksz, c.tsz = var, ksz, tsz
        c.size_off = c.slots_off = c.groups_off = None; c.owned = (); c.geom = {}; c.dform = {}

class OpProp(eng.Prop):
    def __init__(s, ctx, op, initmem=None, throws=False):
        s.c, s.op, s.initmem, s.throws = ctx, op, initmem, throws
        s.viols = {}; s.exits = []; s.stats = dict(events=0, stores=0, loads=0, calls=0, exits=0)
        s.constructs = []   # (where, auto) element constructions from the arguments
        s.sites = {}; s.subs = set(); s.sizechecks = 0; s.geo = {}

    # ------------------------------------------------------------ helpers
    def viol(s, rule, i, msg, S=None):
        w = s.where(i) if i is not None else s.f.name
        v = Viol(rule, s.op, s.c.var, w, msg)
        s.viols.setdefault(v.key(), v)
    def cls(s, p):
        b, off = base_of(p)
        if b is None: return 'unk', None
        if b.k == 'arg':
            if b.a[0] in s.maps: return 'map', b
            return 'arg', b
        if b.k == 'alloca': return ('map', b) if b in s.tmpmaps else ('tmp', b)
        if b.k == 'g': return 'glob', b
        return 'sto', b
    def start(s, S):
        s.maps = s.mapargs(); s.tmpmaps = set()
        S.auto.update(st=frozenset(), eq='none', neq=0, n=('rel', 0), m=('rel', 0), al=frozenset(), ev=frozenset(), am=frozenset(), tr=0)
        if s.initmem:
            for (off, sz), v in s.initmem.items(): S.mem[(eng.sym('arg', 0, w=65), off, sz)] = v
    def mapargs(s):
        return {0, 1} if s.op in ('copy_ctor_', 'move_ctor_', 'copy_asn_', 'move_asn_', 'swap_', 'fswap_') else {0}
    def field(s, S, off, sz=8, base=None, ptr=False):
        return s.eng.read(S, base or eng.sym('arg', 0, w=65), off, sz, ptr)
    def cur_slots(s, S):
        return s.field(S, s.c.slots_off, ptr=True)
    def in_cur(s, S, p):
        """the element address is in the storage the map currently points to"""
        if s.c.slots_off is None: return True
        r = roots(p); cur = roots(s.cur_slots(S))
        if r & cur or not r: return True
        if r & S.auto.get('old', frozenset()): return False
        # storage the object owned on entry, storage of the other object, storage allocated here: not current
        return not any(x.k == 'alloc' or (x.k == 'init' and x.a[0].k == 'arg' and x.a[0].a[0] in s.maps and x.a[1] == s.c.slots_off) for x in r)
    def ev(s, S, *e): S.auto['ev'] = S.auto['ev'] | set(e)
    # st is a frozenset of (kind, ptr, status, prov)
    def get(s, S, k, p):
        for (kk, q, stt, pr) in S.auto['st']:
            if kk == k and q is p: return stt, pr
        return None, None
    def put(s, S, k, p, stt, pr=None):
        S.auto['st'] = frozenset([x for x in S.auto['st'] if not (x[0] == k and x[1] is p)] + ([(k, p, stt, pr)] if stt else []))
    def partner(s, k, p): return ('T', addc(p, s.c.ksz)) if k == 'K' else ('K', addc(p, -s.c.ksz))
    def prune(s, S):
        st = S.auto['st']
        fr = S.auto.get('fr')
        if fr and any(x.k == 'p' for x in fr): S.auto['fr'] = frozenset(x for x in fr if x.k != 'p')
        if any(has_p(x[1]) and x[2] == 'dead' for x in st) or any(isinstance(x[3], tuple) and any(isinstance(y, E) and has_p(y) for y in x[3]) for x in st):
            S.auto['st'] = frozenset((k, p, t, ('el', None) if isinstance(pr, tuple) and any(isinstance(y, E) and has_p(y) for y in pr) else pr)
                                     for (k, p, t, pr) in st if not (t == 'dead' and has_p(p)))
    def enter(s, S, b, frm):
        s.prune(S)
        if b in s.drainheads(): s.ev(S, 'drain')
    def drainheads(s):
        r = getattr(s, '_dh', None)
        if r is None:
            r = set()
            for h, body in s.cfg['body'].items():
                ev = set()
                for x in body:
                    for i in s.f.blocks[x].insts:
                        if i.op in ('call', 'invoke'):
                            m = RE_EV.match(i.aux['callee'])
                            if m: ev.add((m.group(1), m.group(2)))
                if ('K', 'dtor') in ev and ('T', 'dtor') in ev: r.add(h)
            s._dh = r
        return r
    def known_empty(s, S):
        z = s.eng.decide(S, eng.icmp('eq', s.field(S, s.c.size_off), ZERO, 64))
        if z: return True
        sl = s.field(S, s.c.slots_off, ptr=True)
        return bool(s.eng.decide(S, eng.icmp('eq', sl, ZERO, 65)))

    # ------------------------------------------------------------ counting
    def bump(s, S, which, d, i):
        mode, n = S.auto[which]
        if n == 'drain': return
        n += d
        S.auto[which] = (mode, n)
        s.norm(S, i)
    def norm(s, S, i):
        (m1, a), (m2, b) = S.auto['n'], S.auto['m']
        if m1 == m2 == 'abs' and a != 'drain' and b != 'drain':
            S.auto['n'] = ('abs', a - b); S.auto['m'] = ('abs', 0); a, b = a - b, 0
        for w, v in (('n', a), ('m', b)):
            if v != 'drain' and abs(v) > CAP:
                S.auto[w] = (S.auto[w][0], 'drain')
                if w == 'm': s.viol('size', i, 'the element count changes in a loop that does not add or remove elements')
    # ------------------------------------------------------------ events
    def call(s, S, i, n, args, rv):
        s.stats['calls'] += 1
        m = RE_EV.match(n)
        if m: s.stats['events'] += 1; return s.object_event(S, i, m.group(1), m.group(2), args)
        if n == 'vf_eq': return s.on_eq(S, i, args, rv)
        if n == 'vf_alloc':
            s.ev(S, 'alloc'); S.auto['al'] = S.auto['al'] | {(rv, args[0], args[1])}
            S.auto['az'] = S.auto.get('az', frozenset()) | {(rv, args[0], args[1])}; return
        if n == 'vf_dealloc': return s.on_dealloc(S, i, args)
        if n in ('vf_hash', 'vf_use', 'vf_mark'): return
        if n.endswith('__rec') or n == s.f.name: return s.on_rec(S, i, n, args)
        if n in s.eng.m.funcs: return s.on_sub(S, i, n, args)
        if n in ('__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort', 'memset', 'memcpy', 'memmove'): return
        if n.startswith(('_ZSt', '__cxa', '_ZSt20__throw', '__clang_call_terminate', '_ZNSt', 'abort')) or 'throw' in n: return
        s.unknown_call(S, i, n, args)
    def unknown_call(s, S, i, n, args):
        s.ev(S, 'unk:' + n)
    def on_eq(s, S, i, args, rv):
        # fork on the answer: the analysis keeps the two outcomes apart
        e = [a for a in args if s.cls(a)[0] == 'sto']
        k = [a for a in args if s.cls(a)[0] in ('arg', 'tmp')]
        S.auto['lasteq'] = (rv, e[0] if e else args[1], k[0] if k else None)
    def branch(s, S, i, c, t):
        le = S.auto.get('lasteq')
        if le and c.syms & le[0].syms:
            r = s.eng.decide(S, eng.icmp('ne', le[0], con(0, le[0].w), le[0].w) if le[0].w != 1 else le[0])
            if r is True:
                S.auto['eq'] = le[1]; del S.auto['lasteq']
                k = le[2]
                if k is None: S.auto['eqk'] = 'el'
                elif s.cls(k)[0] == 'arg': S.auto['eqk'] = ('arg', base_of(k)[0].a[0], const(base_of(k)[1]))
                else:
                    pr = s.get(S, 'K', k)[1]
                    if isinstance(pr, tuple) and pr[0] == 'copy': pr = pr[1]
                    S.auto['eqk'] = pr[:3] if isinstance(pr, tuple) and pr[0] == 'arg' else ('tmp',)
                s.eq_true(S, i, le)
            elif r is False: S.auto.pop('lasteq', None)
    def eq_true(s, S, i, le): pass

    def object_event(s, S, i, k, ev, args):
        d = args[0]; src = args[1:] if len(args) > 1 else []
        c = s.cls(d)[0]
        if c in ('sto', 'tmp', 'map', 'glob', 'unk'):
            s.site(S, i, k, ev, d, src)
        if c == 'glob' or (c == 'unk' and const(d) is not None):
            s.viol('null', i, 'an element is %s at address %s, which is no element storage' % (ev, show(d)))
        if c == 'map': s.viol('layout', i, 'a %s is constructed inside the container object' % k)
        prov = None
        if ev in CONSTRUCT:
            if ev == 'def': prov = ('def',)
            elif ev in ('copy', 'conv', 'conv2'): prov = (ev,) + tuple(s.srcprov(S, k, x, ev) for x in src)
            else: prov = s.srcprov(S, k, src[0], ev)
        if ev in ('move', 'masn'):
            x = src[0]; xc = s.cls(x)[0]
            if ev == 'masn': prov = s.srcprov(S, k, x, ev)
            if xc == 'arg':
                S.auto['am'] = S.auto['am'] | {(base_of(x)[0].a[0], const(base_of(x)[1]), k)}
                if s.get(S, k, x)[0] == 'moved': s.viol('args', i, 'the %s argument is moved from twice' % ('key' if k == 'K' else 'mapped'))
                s.put(S, k, x, 'moved')
            else:
                stt = s.get(S, k, x)[0]
                if stt in ('moved', 'dead'): s.viol('life', i, 'moves from a %s that was already %s' % (k, 'moved from' if stt == 'moved' else 'destroyed'))
                s.put(S, k, x, 'moved')
        if ev == 'copy' or ev == 'casn':
            x = src[0]; stt = s.get(S, k, x)[0]
            if stt in ('moved', 'dead'): s.viol('args' if s.cls(x)[0] == 'arg' else 'life', i, 'copies a %s that was already %s' % (k, 'moved from' if stt == 'moved' else 'destroyed'))
            if ev == 'casn': prov = ('copy', s.srcprov(S, k, x, ev))
        if ev in CONSTRUCT:
            if c == 'arg': s.viol('args', i, 'constructs over an argument')
            stt = s.get(S, k, d)[0]
            if stt in ('live', 'moved'): s.viol('life', i, 'constructs a %s over an object that was not destroyed%s' % (k, ' (its own source)' if src and src[0] is d else ''))
            s.put(S, k, d, 'live', prov)
            if c == 'sto':
                pk, pp = s.partner(k, d)
                if s.get(S, pk, pp)[0] == 'live': s.element_built(S, i, d if k == 'K' else pp)
        elif ev in ('casn', 'masn'):
            stt = s.get(S, k, d)[0]
            if stt == 'dead': s.viol('life', i, 'assigns to a destroyed %s' % k)
            if c == 'arg': s.viol('args', i, 'assigns to an argument')
            if c == 'sto' and stt is None: s.assigned(S, i, k, d, prov, ev)
            if k == 'K' and c == 'sto' and ev == 'masn' and s.from_el(prov) and isinstance(prov[1], E) and fieldsonly(d):
                o = dict(S.auto.get('org', ())); o[d] = prov[1]
                if len(o) <= 3: S.auto['org'] = tuple(sorted(o.items(), key=lambda x: x[0].h))
            s.put(S, k, d, None if c == 'sto' and s.from_el(prov) else 'live', prov)
        elif ev == 'dtor':
            stt = s.get(S, k, d)[0]
            if stt == 'dead': s.viol('life', i, 'destroys a %s twice' % k)
            if c == 'tmp' and stt is None: s.viol('life', i, 'destroys a temporary %s that was not constructed on this path' % k)
            if c == 'arg': s.viol('args', i, 'destroys an argument')
            if c in ('tmp', 'arg'): s.put(S, k, d, None)
            else:
                s.put(S, k, d, 'dead', stt)
                pk, pp = s.partner(k, d); o = s.get(S, pk, pp)
                if o[0] == 'dead':
                    s.element_gone(S, i, d if k == 'K' else pp, stt or o[1])
                    s.put(S, k, d, None); s.put(S, pk, pp, None)
    def site(s, S, i, k, ev, d, src): s.sites[(i.loc, k, ev)] = s.sites.get((i.loc, k, ev), 0) + 1
    def srcprov(s, S, k, x, ev):
        c, b = s.cls(x)
        if c == 'arg': return ('arg', b.a[0], const(base_of(x)[1]), 'move' if ev in ('move', 'masn') else 'copy')
        st, pr = s.get(S, k, x)
        if pr is not None: return pr
        if c == 'glob': return ('glob', x.a[0] if x.k == 'g' else '?')
        return ('el', x)
    @staticmethod
    def from_el(pr):
        """the provenance is (a move of) an element already in the container"""
        return isinstance(pr, tuple) and pr and pr[0] == 'el'
    def element_built(s, S, i, p):
        pk, pt = s.get(S, 'K', p)[1], s.get(S, 'T', addc(p, s.c.ksz))[1]
        s.bump(S, 'n', 1 if s.in_cur(S, p) else 0, i)
        if not s.in_cur(S, p) and s.c.slots_off is not None: s.ev(S, 'built-elsewhere')
        cp = lambda q: q[1] if isinstance(q, tuple) and q and q[0] == 'copy' and len(q) == 2 else None
        if s.from_el(cp(pk)) and s.from_el(cp(pt)):
            s.ev(S, 'copied'); a, b = cp(pk)[1], cp(pt)[1]
            if isinstance(a, E) and isinstance(b, E) and b is not addc(a, s.c.ksz): s.viol('pairing', i, 'the key and the mapped value of a copied element come from different elements')
            s.put(S, 'K', p, None); s.put(S, 'T', addc(p, s.c.ksz), None)
        elif s.from_el(pk) and s.from_el(pt):
            s.ev(S, 'transfer')
            if isinstance(pk[1], E) and isinstance(pt[1], E) and pt[1] is not addc(pk[1], s.c.ksz): s.viol('pairing', i, 'the key and the mapped value of a relocated element come from different elements')
            s.relocated(S, i, p, pk[1])
            s.put(S, 'K', p, None); s.put(S, 'T', addc(p, s.c.ksz), None)
        else: s.new_element(S, i, p, pk, pt)
    def relocated(s, S, i, p, frm): pass
    def new_element(s, S, i, p, pk, pt):
        if S.auto.get('new'): s.viol('once', i, 'a second element is constructed')
        S.auto['new'] = (p, pk, pt)
    def assigned(s, S, i, k, d, prov, ev): S.auto['asn'] = S.auto.get('asn', ()) + ((k, d, prov),) if len(S.auto.get('asn', ())) < 4 else S.auto['asn']
    def element_gone(s, S, i, p, was):
        cur = s.in_cur(S, p)
        if was == 'moved' and not cur: return
        if S.auto.get('new') and S.auto['new'][0] is p: S.auto['new'] = None
        if cur: s.bump(S, 'n', -1, i)
        else: s.ev(S, 'old-destroyed')
        g = S.auto.get('gone', ())
        if was != 'moved' and cur and S.auto['n'][0] == 'rel' and len(g) < 2: S.auto['gone'] = g + (dict(S.auto.get('org', ())).get(p, p),)
    def on_dealloc(s, S, i, args):
        p = args[0]
        s.ev(S, 'dealloc')
        c, b = s.cls(p)
        own = [x for x in S.auto['al'] if x[0] in roots(p)]
        S.auto['al'] = S.auto['al'] - set(own)
        s.dealloc(S, i, p, args[1], args[2], own)
        S.auto['fr'] = S.auto.get('fr', frozenset()) | roots(p)
    def dealloc(s, S, i, p, n, sz, own):
        if const(p) == 0: s.viol('alloc', i, 'deallocates a null pointer')
        if any(r.k == 'g' for r in roots(p)): s.viol('static', i, 'deallocates static storage %s' % show(p))
        if roots(p) & S.auto.get('fr', frozenset()): s.viol('alloc', i, 'deallocates the same storage twice')
        s.count_dealloc(S, i, p, n, sz)
    def count_dealloc(s, S, i, p, n, sz):
        """the block is released with the number of objects it was obtained with"""
        for r in roots(p):
            if r.k == 'alloc':
                for rv, an, asz in S.auto.get('az', ()):
                    if rv is r and not has_p(an) and (asz is not sz or eng.same_value(n, an) is False and not (eng.atoms_of(n) - eng.atoms_of(an))): s.viol('alloc', i, 'storage is deallocated with another size than it was allocated with')
            elif r.k == 'init' and r.a[0].k == 'arg' and s.c.geom and not has_j(n):
                a0 = eng.sym('arg', 0, w=65)
                for an, asz, F in s.c.geom.get(r.a[1], ()):
                    # the destroying operation sees the fields the allocating one left
                    d = fields_from(n, r.a[0], F)
                    if d is None or eng.atoms_of(d) - eng.atoms_of(an): continue
                    s.sizechecks += 1
                    if asz is not sz or eng.same_value(d, an) is False: s.viol('alloc', i, 'storage is deallocated with another size than it was allocated with')
    def on_sub(s, S, i, n, args):
        """call of an insertion that is analysed on its own: one more element or none"""
        s.ev(S, 'sub'); s.subs.add(n)
        for a in args:
            c, b = s.cls(a)
            if c == 'tmp':
                for k, q in (('K', a), ('T', addc(a, s.c.ksz))):
                    st, pr = s.get(S, k, q)
                    if st in ('moved', 'dead'): s.viol('life', i, 'passes on a %s that was already %s' % (k, 'moved from' if st == 'moved' else 'destroyed'))
            t = s.eng.addr(a)
            if c == 'map' or t and t[0].k == 'alloca':
                held = {r for k, v in S.mem.items() if k[0] is t[0] for r in roots(v)}
                S.auto['al'] = frozenset(x for x in S.auto['al'] if x[0] not in held)
            if t and (c == 'map' or c == 'tmp' and s.get(S, 'K', a)[0] is None): s.eng.havoc(S, t[0], i.dst or n)
    def on_rec(s, S, i, n, args):
        if S.auto['ev'] & {'rec'}: s.viol('rec', i, 'the operation is repeated twice')
        s.ev(S, 'rec')
        for a in args:
            t = s.eng.addr(a)
            if t: s.eng.havoc(S, t[0], i.dst or n)
        S.auto['recargs'] = tuple(args); S.auto['m'] = ('rel', 0); 
    # ------------------------------------------------------------ plain stores
    def load(s, S, i, a, v):
        s.stats['loads'] += 1
        fr = S.auto.get('fr')
        if fr and roots(a) & fr: s.viol('alloc', i, 'reads storage after it was deallocated')
    def store(s, S, i, a, v, sz):
        s.stats['stores'] += 1
        c, b = s.cls(a)
        if c == 'map':
            off = const(base_of(a)[1])
            if off is None: s.viol('field', i, 'store at a variable offset in the container object'); return
            if b.k == 'arg' and b.a[0] == 0:
                if 'mst' not in S.auto['ev'] and s.field(S, off, sz, ptr=v.w == 65) is not v: s.ev(S, 'mst')
                s.map_store(S, i, off, v, sz)
            return
        if c == 'arg':
            if b is not s.outarg(): s.arg_store(S, i, b, a, v)
            return
        if c == 'tmp': return
        if c == 'glob': return s.glob_store(S, i, b, a, v)
        fr = S.auto.get('fr')
        if fr and roots(a) & fr: s.viol('alloc', i, 'writes storage after it was deallocated')
        s.sto_store(S, i, a, v, sz)
    def outarg(s): return eng.sym('arg', len(s.f.args) - 1, w=65)
    def arg_store(s, S, i, b, a, v):
        s.ev(S, 'argstore'); 
    def glob_store(s, S, i, b, a, v):
        if 's_empty' in b.a[0] or b.a[0].startswith('_ZGV'): s.ev(S, 'ginit')
        else: s.ev(S, 'gstore'); s.viol('static', i, 'writes the global %s' % b.a[0])
    def sto_store(s, S, i, a, v, sz): s.ev(S, 'sto')
    def map_store(s, S, i, off, v, sz):
        if s.c.size_off is not None and off == s.c.size_off and sz == 8:
            old = s.field(S, off)
            if const(v) == 0 and S.auto['n'][0] == 'rel' and ('drain' in S.auto['ev'] or s.known_empty(S)) and (S.auto['n'][1] == 'drain' or S.auto['n'][1] <= 0):
                # every element was destroyed by a loop over the storage (its range is judged separately), or there was none
                S.auto['n'] = ('abs', 0); S.auto['m'] = ('abs', 0); s.ev(S, 'emptied')
            elif const(v) == 0 and const(old) != 0:
                S.auto['m'] = ('abs', 0)
                if S.auto['n'][1] == 'drain': S.auto['n'] = ('abs', 0)
                s.norm(S, i)
            elif const(v) == 0: S.auto['m'] = ('abs', 0); s.norm(S, i)
            else:
                d = eng.sconst(sub(v, old))
                if d is None:
                    S.auto['m'] = ('expr', 0); S.auto['sizex'] = v
                else: s.bump(S, 'm', d, i)
        elif s.c.slots_off is not None and off == s.c.slots_off:
            old = s.field(S, off, ptr=True)
            if v is not old:
                r = roots(v)
                if any(x.k == 'alloc' for x in r) or const(v) is not None or any(x.k == 'g' for x in r):
                    S.auto['n'] = ('abs', 0); s.norm(S, i); s.ev(S, 'newslots'); S.auto['old'] = frozenset(roots(old)) - r
                else: s.ev(S, 'slots=other'); S.auto['n'] = ('expr', 0)
        # ownership of allocations published into the object
        r = roots(v)
        if r:
            S.auto['al'] = frozenset(x for x in S.auto['al'] if x[0] not in r) if any(x[0] in r for x in S.auto['al']) else S.auto['al']
            pub = S.auto.get('pub', frozenset())
    def memop(s, S, i, kind, args):
        c, b = s.cls(args[0])
        if c == 'sto':
            fr = S.auto.get('fr')
            if fr and roots(args[0]) & fr: s.viol('alloc', i, 'writes storage after it was deallocated')
            s.ev(S, 'sto'); s.sto_memop(S, i, kind, args)
        elif c == 'glob': s.ev(S, 'gstore'); s.viol('static', i, 'writes the global %s' % b.a[0])
        elif c == 'arg' and b is not s.outarg(): s.arg_store(S, i, b, args[0], None)
    def sto_memop(s, S, i, kind, args): pass
    # ------------------------------------------------------------ exits
    def out(s, S, what):
        off = dict(elem=0, end=8, ins=16, n=24)[what]
        a = s.outarg()
        return S.mem.get((a, off, 8))
    def ret(s, S, i, v):
        s.stats['exits'] += 1
        s.at_exit(S, i)
        s.exits.append((dict(S.auto), dict(S.mem), dict(S.facts), i))
    def at_exit(s, S, i):
        for (k, p, stt, pr) in S.auto['st']:
            c = s.cls(p)[0]; kn = {'K': 'key', 'T': 'mapped value'}[k]
            if c == 'tmp': s.viol('life', i, 'a temporary %s is not destroyed' % kn)
            elif c in ('sto', 'unk'):
                if stt == 'moved': s.viol('life', i, 'a moved-from %s is left in the storage without being destroyed' % kn)
                elif stt == 'dead':
                    s.viol('life', i, 'a %s is destroyed without the rest of its element' % kn)
                elif stt == 'live' and s.get(S, *s.partner(k, p))[0] is None and not S.auto.get('asn'):
                    s.viol('life', i, 'a %s is constructed without the rest of its element' % kn)
        if S.auto['al']: s.viol('alloc', i, 'allocated storage is neither stored in the container nor released')
        s.owners(S, i)
        if 'rec' in S.auto['ev']: return
        (m1, a), (m2, b) = S.auto['n'], S.auto['m']
        if 'expr' in (m1, m2): return
        if m1 != m2 or (a != b):
            if 'ctor' in s.op or s.op == 'dtor_': return
            s.viol('size', i, 'the element count %s while the elements %s' % (s.cnt(m2, b), s.cnt(m1, a)))
    def owners(s, S, i):
        """who owns each block at the exit: exactly one of a container, or nobody because it was released"""
        if not s.c.owned: return
        fr = S.auto.get('fr', frozenset())
        maps = [eng.sym('arg', n, w=65) for n in sorted(s.maps)]
        if any((b, 'havoc', 0) in S.mem for b in maps): return
        gone = {maps[0]} if s.op == 'dtor_' else set()
        held = {}
        for b in maps:
            if b in gone: continue
            for off in s.c.owned:
                raw = 'ctor' in s.op and b is maps[0]
                v = S.mem.get((b, off, 8))
                if v is None:
                    if raw: continue
                    v = eng.sym('init', b, off, 8, w=65)
                if has_j(v): return
                for r in roots(v):
                    if r.k in ('init', 'alloc'): held.setdefault(r if r.k == 'alloc' else eng.sym('init', *r.a, w=65), set()).add((b, off))
        # new storage: the fields must describe it the way the destructor will release it
        for b in maps:
            F = {k[1:]: v for k, v in S.mem.items() if k[0] is b and k[1] != 'havoc'}
            for off in s.c.owned:
                v = S.mem.get((b, off, 8))
                for rv, an, asz in S.auto.get('az', ()):
                    if v is None or base_of(v)[0] is not rv: continue
                    s.geo.setdefault(off, []).append((an, asz, F))
                    for dn, dsz in s.c.dform.get(off, ()):
                        d = fields_from(dn, eng.sym('arg', 0, w=65), F)
                        if d is None or has_p(an) or eng.atoms_of(d) - eng.atoms_of(an): continue
                        s.sizechecks += 1
                        if dsz is not asz or eng.same_value(d, an) is False: s.viol('alloc', i, 'the fields of the container do not describe the size of the storage it allocated')
        for r, hs in held.items():
            if r in fr: s.viol('alloc', i, 'the container keeps a pointer to storage that was deallocated')
            if len({b for b, _ in hs}) > 1 and not s.isnone(S, r): s.viol('alloc', i, 'two containers own the same storage')
        for b in maps:
            if 'ctor' in s.op and b is maps[0]: continue
            for off in s.c.owned:
                r = eng.sym('init', b, off, 8, w=65)
                if r in held or r in fr or s.isnone(S, r): continue
                s.viol('alloc', i, 'the storage the container owned is neither kept nor released')
    def isnone(s, S, r):
        """the pointer is known to be null or the shared default storage"""
        for f, v in S.facts.items():
            if not isinstance(f, E): continue
            if f.k == 'eq0' and v is True:
                d = lin_parts(f.a[0])[1]
                if r in d and all(k is r or k.k in ('g', 'c') or k.k == 'init' and k.a[0] is r.a[0] for k in d): return True
                # another field of the same container equals the shared default storage: it owns nothing
                if any(k.k == 'g' for k in d) and any(k.k == 'init' and r.k == 'init' and k.a[0] is r.a[0] for k in d): return True
        return bool(r.k == 'init' and r.a[0].k == 'arg' and s.eng.decide(S, eng.icmp('eq', eng.sym('init', r.a[0], s.c.slots_off, 8, w=65), ZERO, 65)))
    def cnt(s, m, v):
        if v == 'drain': return 'change in a loop'
        if m == 'abs': return 'restart from 0%s' % ('' if v == 0 else ' and are off by %d' % v)
        return 'change by %d' % v if v else 'are unchanged'

class BulkProp(OpProp):
    """operations that repeat an insertion or an erasure: only the balance matters, not how often"""
    def norm(s, S, i):
        (m1, a), (m2, b) = S.auto['n'], S.auto['m']
        if m1 == m2 == 'rel' and a != 'drain' and b != 'drain' and a and b and (a > 0) == (b > 0):
            d = min(a, b) if a > 0 else max(a, b)
            S.auto['n'] = (m1, a - d); S.auto['m'] = (m2, b - d)
        OpProp.norm(s, S, i)
    def new_element(s, S, i, p, pk, pt):
        s.ev(S, 'inserted')
        s.put(S, 'K', p, None); s.put(S, 'T', addc(p, s.c.ksz), None)
        s.once(S, i, p, pk, pt)
    def once(s, S, i, p, pk, pt): pass
    def assigned(s, S, i, k, d, prov, ev): s.ev(S, 'assigned')
    def element_gone(s, S, i, p, was):
        OpProp.element_gone(s, S, i, p, was)
        S.auto.pop('gone', None)
    def branch(s, S, i, c, t):
        OpProp.branch(s, S, i, c, t); S.auto['eq'] = 'none'
    def enter(s, S, b, frm):
        OpProp.enter(s, S, b, frm); S.auto.pop('new', None)
    def on_rec(s, S, i, n, args):
        OpProp.on_rec(s, S, i, n, args); S.auto['ev'] -= {'rec'}; S.auto.pop('recargs', None)
BULK = ('copy_ctor_', 'copy_asn_', 'insert_r_', 'insert_rp_', 'ctor_r_', 'erase_r_')
