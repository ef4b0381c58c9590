"""Contracts of the public operations, and the judge that compares the path classes found by the analysis with them.

Every judge is a necessary condition that the analysed code definitely breaks on some path class; what the
analysis cannot decide (addresses merged at a join, recursion) is counted as undecided and never reported."""
import eng, num, opspec
from eng import E, con, const, add, sub, scale, show, lin_parts, base_of
from opspec import Viol

class Op:
    def __init__(o, kind, key=None, val=None, cat='c', res=None, k=None, v=None):
        o.kind, o.key, o.val, o.cat, o.res = kind, key, val, cat, res
        o.provk, o.provv = k, v
def C(a, off=0): return ('copy', ('arg', a, off, 'copy'))
def M(a, off=0): return ('arg', a, off, 'move')
VO = 'v'   # placeholder: offset of the mapped value within a pair (the key size)
def I(k, v, res='pair', **kw): return Op('insert', 1, None, res=res, k=k, v=v, **kw)
def A(k, v, res='pair', **kw): return Op('assign', 1, None, res=res, k=k, v=v, **kw)
OPS = {
 'find_': Op('lookup', 1, res='iter'), 'cfind_': Op('lookup', 1, res='iter'), 'count_': Op('lookup', 1, res='n'), 'contains_': Op('lookup', 1, res='n'),
 'at_': Op('at', 1, res='ref'), 'cat_': Op('at', 1, res='ref'),
 'insert_c_': I(C(1), C(1, VO)), 'insert_m_': I(C(1), M(1, VO), cat='may'), 'insert_ic_': I(C(1), C(1, VO)), 'insert_im_': I(M(1), M(1, VO)), 'insert_il_': I(C(1), C(1, VO)),
 'insert_hc_': I(C(1), C(1, VO), 'iter'), 'insert_him_': I(M(1), M(1, VO), 'iter'),
 'emplace_cc_': I(C(1), C(2)), 'emplace_ll_': I(C(1), C(2)), 'emplace_mm_': I(M(1), M(2), cat='may'), 'emplace_kc_': I(C(1), ('conv', ('arg', 2, 0, 'copy'))),
 'emplace_pl_': I(C(1), C(1, VO)), 'emplace_pm_': I(M(1), M(1, VO), cat='may'), 'emplace_pc_': I(C(1), C(1, VO)), 'emplace_pw_': I(C(1), C(2)),
 'emplace_pw2_': I(C(1), ('conv2', ('arg', 2, 0, 'copy'), ('arg', 3, 0, 'copy'))), 'emplace_h_': I(C(1), C(2), 'iter'),
 'try_c_': I(C(1), C(2)), 'try_c2_': I(C(1), ('conv2', ('arg', 2, 0, 'copy'), ('arg', 3, 0, 'copy'))), 'try_m_': I(M(1), M(2)), 'try_l_': I(C(1), C(2)),
 'try_0_': I(C(1), ('def',)), 'try_h_': I(C(1), C(2), 'iter'),
 'index_c_': I(C(1), ('def',), 'ref'), 'index_m_': I(M(1), ('def',), 'ref'),
 'ioa_cc_': A(C(1), C(2)), 'ioa_cm_': A(C(1), M(2)), 'ioa_ll_': A(C(1), C(2)), 'ioa_mm_': A(M(1), M(2)), 'ioa_h_': A(C(1), C(2), 'iter'),
 'erase_k_': Op('erase_k', 1, res='n'), 'erase_it_': Op('erase_it', res=None), 'erase_cit_': Op('erase_it', res=None),
 'clear_': Op('clear'), 'clear_d_': Op('clear'),
 'reserve_': Op('capacity'), 'rehash_': Op('capacity'), 'shrink_': Op('capacity'), 'set_mlf_': Op('capacity'),
}
for _n in ('size_', 'empty_', 'capacity_', 'bucket_count_', 'begin_', 'cbegin_'): OPS[_n] = Op('observe', res='n')
for _n in ('load_factor_', 'get_mlf_', 'for_each_', 'for_each_m_', 'next_', 'deref_', 'cderef_'): OPS[_n] = Op('observe')
READONLY = [n for n, o in OPS.items() if o.kind in ('lookup', 'at', 'observe')]
INSERTS = [n for n, o in OPS.items() if o.kind in ('insert', 'assign')]

def fix(pr, ksz):
    if isinstance(pr, tuple): return tuple(fix(x, ksz) for x in pr)
    return ksz if pr == VO else pr

def simple(e):
    """built only from the fields of the containers and constants"""
    if e.k in ('c', 'arg', 'g'): return True
    if e.k == 'init': return simple(e.a[0])
    if e.k == 'lin': return all(simple(k) for k, _ in e.a[1])
    return False
def unsure(e):
    """contains a value that was merged at a join, or read back from memory that was overwritten"""
    return any(True for _ in _merged(e))
def _merged(e, seen=None):
    if not isinstance(e, E): return
    if e.k in ('j', 'p', 'hav', 'v'): yield e; return
    for x in e.a:
        if isinstance(x, E): yield from _merged(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, E): yield from _merged(y)
                elif isinstance(y, tuple) and y and isinstance(y[0], E): yield from _merged(y[0])

def reduce(e, facts):
    """choose the arm of every selection whose condition is known on the path"""
    if not isinstance(e, E): return tuple(reduce(x, facts) if isinstance(x, (E, tuple)) else x for x in e) if isinstance(e, tuple) else e
    if e.k in ('c', 'arg', 'g', 'alloca', 'init'): return e
    if e.k == 'ld': return eng.mk('ld', reduce(e.a[0], facts), w=e.w)
    if e.k == 'sel' and facts.get(e.a[0]) in (True, False): return reduce(e.a[1] if facts[e.a[0]] else e.a[2], facts)
    if e.k == 'lin':
        r = con(e.a[0], e.w)
        for k, v in e.a[1]: r = add(r, scale(reduce(k, facts), v, e.w), e.w)
        return r
    return eng.mk(e.k, *[reduce(x, facts) if isinstance(x, (E, tuple)) else x for x in e.a], w=e.w)
def differs(a, b, facts=None):
    """True only if the two addresses are certainly different"""
    if a is None or b is None or a is b: return False
    d = sub(a, b)
    if const(d) is not None: return const(d) != 0
    if facts:
        a, b = reduce(a, facts), reduce(b, facts); d = sub(a, b)
        if const(d) is not None: return const(d) != 0
        for f, val in facts.items():
            if val is not True or not isinstance(f, E) or f.k != 'eq0': continue
            g = reduce(f.a[0], facts); _, d1 = lin_parts(g); _, d0 = lin_parts(d)
            if set(d1) == set(d0):
                k = next(iter(d0))
                if any(scale(g, r, 64) is d for r in ratios(d0[k], d1[k])): return False
    if simple(a) != simple(b): return True
    return False

def at_sentinel(elem, facts, ctx):
    """the path is only taken when the position of the found element equals a position computed from the fields alone
    (the one-past-the-last position): no element lives there"""
    elem = reduce(elem, facts); c0, d0 = lin_parts(elem)
    free = [(k, v) for k, v in d0.items() if not simple(k)]
    if not free: return False
    for f, val in facts.items():
        if val is not True or not isinstance(f, E) or f.k != 'eq0': continue
        g = reduce(f.a[0], facts)
        _, d1 = lin_parts(g)
        shared = [(k, v) for k, v in free if k in d1]
        if not shared:
            # an index loaded from the control array stands for the slot: the index into that array is what is compared
            if inner(free[0][0], d1, ctx) and any(not fields_only(k) for k in d1): return True
            continue
        for k, v in shared:
            for r in ratios(v, d1[k]):
                x = sub(elem, scale(g, r, 64), 64)
                if fields_only(x) and not lowest(x, ctx): return True
                rest = [y for y in lin_parts(x)[1] if not fields_only(y)]
                if rest and all(y.k == 'j' for y in rest): return True     # the group was merged at a join, apart from the index computed from it: undecided
    return False
def inner(k, d1, ctx):
    """k is a value loaded at an address that depends on the atoms compared, and the comparison is with a position other than 0"""
    def atoms(e, acc):
        if isinstance(e, E):
            acc.add(e)
            for x in e.a: atoms(x, acc)
        elif isinstance(e, tuple):
            for x in e: atoms(x, acc)
        return acc
    free = [x for x in d1 if not fields_only(x)]
    return bool(free) and len(d1) > len(free) and any(x.k == 'ld' for x in atoms(k, set())) and set(free) <= atoms(k, set())
def ratios(a, b):
    M = 1 << 64
    sg = lambda x: x - M if x >> 63 else x
    a, b = sg(a), sg(b)
    return [a // b] if b and a % b == 0 else []
def fields_only(e):
    if e.k in ('c', 'arg', 'g'): return True
    if e.k == 'init': return fields_only(e.a[0])
    if e.k in ('ld', 'call', 'j', 'p', 'hav', 'v', 'alloc', 'alloca'): return False
    for x in e.a:
        if isinstance(x, E) and not fields_only(x): return False
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, E) and not fields_only(y): return False
                if isinstance(y, tuple) and y and isinstance(y[0], E) and not fields_only(y[0]): return False
    return True
def lowest(x, ctx):
    """the first slot (slots + small constant)"""
    c, d = lin_parts(x)
    return not d or (len(d) == 1 and next(iter(d)).k == 'init' and next(iter(d)).a[1] == ctx.slots_off)
def subst(e, old, new):
    if e is old: return new
    if not isinstance(e, E): return tuple(subst(x, old, new) if isinstance(x, (E, tuple)) else x for x in e) if isinstance(e, tuple) else e
    if e.k in ('c', 'arg', 'g', 'alloca'): return e
    if e.k == 'lin':
        r = con(e.a[0], e.w)
        for k, v in e.a[1]: r = add(r, scale(subst(k, old, new), v, e.w), e.w)
        return r
    if e.k == 'ld' and isinstance(e.a[0], E):
        b, o = base_of(subst(e.a[0], old, new))
        if b is not None and b.k == 'arg' and const(o) is not None: return eng.mk('init', b, const(o), 8, w=e.w)
    return eng.mk(e.k, *[subst(x, old, new) if isinstance(x, (E, tuple)) else x for x in e.a], w=e.w)

def entry(P):
    """the member function of the library that the operation calls"""
    D = P.eng.D
    for b in P.f.blocks.values():
        for i in b.insts:
            ch = [x for x in D.where(i.loc) if '/jstd/' in x[0]]
            if ch: return '%s (%s)' % (ch[-1][0].split('/src/')[-1], ch[-1][2])
    return P.f.name
class Judge:
    """collects violations of one analysed operation"""
    def __init__(j, P, ops=OPS):
        j.P, j.c, j.op = P, P.c, P.op
        j.o = ops[P.op]; j.viols = {}; j.st = dict(found=0, new=0, retry=0, absent=0, other=0, infeasible=0, undecided=0)
        j.ref = None
    def viol(j, rule, i, msg):
        v = Viol(rule, j.op, j.c.var, j.where(i), msg); j.viols.setdefault(v.key(), v)
    def where(j, i):
        if i is not None and i.op not in ('ret', 'resume', 'unreachable'):
            return j.P.where(i)
        return entry(j.P)
    def out(j, m, w): return j.P.out(type('S', (), dict(mem=m)), w)
    # ---------------------------------------------------------------- entry point
    def run(j):
        k = j.o.kind
        for a, m, f, i in j.P.exits:
            if a['eq'] != 'none' and at_sentinel(a['eq'], f, j.c): j.st['infeasible'] += 1; continue
            if k in ('insert', 'assign'): j.insertion(a, m, f, i)
            elif k in ('lookup', 'at'): j.lookup(a, m, f, i)
            elif k == 'observe': j.pure(a, i)
            elif k == 'erase_k': j.erase_k(a, m, f, i)
            elif k == 'erase_it': j.erase_it(a, m, f, i)
            elif k == 'clear': j.clear(a, m, f, i)
            elif k == 'capacity': j.capacity(a, m, f, i)
        if k in ('insert', 'assign'):
            if not j.st['found']: j.viol('dup', None, 'no path recognises an equal key that is already present')
            if not j.st['new']: j.viol('lost', None, 'no path adds an element')
        if k in ('lookup', 'at', 'erase_k') and not j.st['found']: j.viol('res.found', None, 'no path recognises an equal key that is present')
        return j
    # ---------------------------------------------------------------- rules
    def pure(j, a, i, what='a read-only operation'):
        ev = a['ev']
        for e, msg in (('alloc', 'allocates'), ('dealloc', 'deallocates'), ('sto', 'writes the container\'s storage'), ('gstore', 'writes a global'), ('argstore', 'writes an argument'), ('newslots', 'replaces the storage'), ('transfer', 'relocates elements'), ('copied', 'copies elements'), ('mst', 'writes a field of the container')):
            if e in ev: j.viol('pure', i, '%s %s' % (what, msg))
        if a['n'] != ('rel', 0): j.viol('pure', i, '%s adds or removes elements' % what)
        if a['m'] != ('rel', 0): j.viol('pure', i, '%s changes the element count' % what)
        if a.get('new'): j.viol('pure', i, '%s constructs an element' % what)
        if a.get('asn'): j.viol('pure', i, '%s assigns to an element' % what)
        if a.get('gone'): j.viol('pure', i, '%s destroys an element' % what)
        if a['am']: j.viol('args', i, '%s moves from its argument' % what)
    def key_ok(j, a, i):
        kp = a.get('eqk')
        if kp is None: return
        if kp == 'el': j.viol('key', i, 'the element is compared with an element instead of the searched key')
        elif kp[0] == 'arg' and (kp[1], kp[2]) != (j.o.key, 0): j.viol('key', i, 'the element is compared with something other than the searched key')
    def result_elem(j, a, m, i, want, what, f=None, rule='res.found'):
        el = j.out(m, 'elem')
        if j.o.res == 'ref': want = eng.addc(want, j.c.ksz)
        if j.o.res in ('iter', 'pair', 'ref'):
            if el is None: j.st['undecided'] += 1
            elif differs(el, want, f): j.viol(rule, i, 'the returned position is not that of %s' % what)
            elif el is not want: j.st['undecided'] += 1
        if j.o.res in ('iter', 'pair'):
            en = j.out(m, 'end')
            if en is not None and const(en) == 1: j.viol(rule, i, 'end() is returned although %s exists' % what)
    def lookup(j, a, m, f, i):
        j.pure(a, i)
        n = j.out(m, 'n')
        if a['eq'] != 'none':
            j.st['found'] += 1; j.key_ok(a, i)
            if j.o.res == 'n':
                if n is not None and const(n) == 0: j.viol('res.found', i, 'reports an equal key as absent')
                elif n is not None and const(n) not in (None, 1): j.viol('res.found', i, 'reports an equal key more than once')
            else: j.result_elem(a, m, i, a['eq'], 'the element with the equal key', f)
        else:
            j.st['absent'] += 1
            if j.o.kind == 'at': j.viol('res.absent', i, 'returns normally although no equal key was found')
            if j.o.res == 'n' and n is not None and const(n) not in (0, None): j.viol('res.absent', i, 'reports a key as present although no element compared equal')
            if j.o.res == 'iter':
                en = j.out(m, 'end')
                if en is not None and const(en) == 0: j.viol('res.absent', i, 'returns an element although none compared equal')
    def insertion(j, a, m, f, i):
        o = j.o; ins = j.out(m, 'ins'); ev = a['ev']
        K, T = fix(o.provk, j.c.ksz), fix(o.provv, j.c.ksz)
        if 'rec' in ev:
            j.st['retry'] += 1
            if a.get('new'): j.viol('once', i, 'the operation is repeated although the element was already built')
            if a.get('asn'): j.viol('once', i, 'the operation is repeated although the element was already assigned')
            if a['am'] and {base_of(x)[0].a[0] for x in a.get('recargs', ()) if base_of(x)[0] is not None and base_of(x)[0].k == 'arg'} & {x[0] for x in a['am']}: j.viol('args', i, 'the operation is repeated after its argument was moved from')
            if o.res == 'pair' and ins is not None and const(ins) is not None: j.viol('res.retry', i, 'the result of the repeated insertion is not passed on')
            return
        if a['eq'] != 'none':
            j.st['found'] += 1; j.key_ok(a, i)
            if a.get('new'): j.viol('dup', i, 'a second element is added although an equal key was found'); return
            asn = a.get('asn', ())
            a2 = dict(a); a2.pop('asn', None); a2['am'] = frozenset()
            j.pure(a2, i, 'inserting a key that is present')
            am = set(a['am'])
            if o.kind == 'assign':
                good = [x for x in asn if x[0] == 'T']
                if any(x[0] == 'K' for x in asn): j.viol('assign', i, 'insert_or_assign assigns to the key of the existing element')
                if not good: j.viol('assign', i, 'insert_or_assign leaves the mapped value of the existing element unchanged')
                elif len(good) > 1: j.viol('assign', i, 'insert_or_assign assigns the mapped value more than once')
                else:
                    k, d, pr = good[0]
                    if differs(d, eng.addc(a['eq'], j.c.ksz), f): j.viol('assign', i, 'insert_or_assign assigns to another element than the one with the equal key')
                    if pr != T and not opspec.OpProp.from_el(pr): j.viol('assign', i, 'insert_or_assign assigns %s instead of %s' % (pt(pr), pt(T)))
                    elif pr != T: j.viol('assign', i, 'insert_or_assign assigns from an element instead of from its argument')
                am -= {(T[1], T[2], 'T')} if T[0] == 'arg' else set()
            elif asn: j.viol('keep', i, 'the %s of the existing element is overwritten' % ('key' if asn[0][0] == 'K' else 'mapped value'))
            if am and o.cat != 'may': j.viol('args', i, 'an argument is moved from although the key is present')
            if o.res == 'pair' and ins is not None and const(ins) not in (None, 0): j.viol('res.found', i, 'reports an insertion although the key was present')
            j.result_elem(a, m, i, a['eq'], 'the element with the equal key', f)
        elif a.get('new'):
            j.st['new'] += 1
            p, pk, pv = a['new']
            asn = a.get('asn', ())
            if pk != K: j.viol('source', i, 'the key of the new element is %s instead of %s' % (pt(pk), pt(K)))
            if pv != T:
                late = [x for x in asn if x[0] == 'T' and x[1] is eng.addc(p, j.c.ksz)]
                if not (late and late[-1][2] == T): j.viol('source', i, 'the mapped value of the new element is %s instead of %s' % (pt(pv), pt(T)))
            if o.res == 'pair' and ins is not None and const(ins) == 0: j.viol('res.new', i, 'reports no insertion although an element was added')
            j.result_elem(a, m, i, p, 'the new element', f, 'res.new')
        else:
            j.st['other'] += 1
            j.viol('lost', i, 'returns without having found the key or added an element')
    def erase_k(j, a, m, f, i):
        n = j.out(m, 'n'); g = tuple(reduce(x, f) for x in a.get('gone', ()))
        if a['eq'] != 'none':
            j.st['found'] += 1; j.key_ok(a, i)
            if a['n'] == ('rel', 0) and not g: j.viol('erase', i, 'the element with the equal key is not removed')
            if len(g) > 1: j.viol('erase', i, 'more than one element is removed')
            if g and differs(g[0], a['eq'], f): j.viol('erase', i, 'another element than the one with the equal key is removed')
            elif g and g[0] is not a['eq']: j.st['undecided'] += 1
            if n is not None and const(n) == 0: j.viol('res.found', i, 'reports that nothing was erased although a key was found')
            elif n is not None and const(n) not in (None, 1): j.viol('res.found', i, 'reports more than one erased element')
        else:
            j.st['absent'] += 1
            if g or a['n'] != ('rel', 0): j.viol('erase', i, 'an element is removed although no element compared equal')
            if n is not None and const(n) not in (None, 0): j.viol('res.absent', i, 'reports an erased element although none compared equal')
            j.pure(a, i, 'erasing an absent key')
    def erase_it(j, a, m, f, i):
        g = a.get('gone', ())
        if a['n'][1] == 'drain': j.viol('erase', i, 'elements are removed in a loop')
        elif not g: j.viol('erase', i, 'the element at the iterator is not removed')
        elif len(g) > 1: j.viol('erase', i, 'more than one element is removed')
        elif any(x[0]['eq'] != 'none' for x in j.P.exits):
            # the position is looked up by the key of the element at the iterator
            if a['eq'] != 'none' and differs(reduce(g[0], f), a['eq'], f): j.viol('erase', i, 'another element than the one with the key of the iterator is removed')
        elif j.ref is not None:
            if differs(g[0], j.ref, f): j.viol('erase', i, 'another element than the one at the iterator is removed')
            elif g[0] is not j.ref: j.st['undecided'] += 1
        j.st['found'] += 1
    def clear(j, a, m, f, i):
        P = j.P
        sz = m.get((eng.sym('arg', 0, w=65), j.c.size_off, 8))
        if sz is not None and const(sz) not in (None, 0): j.viol('clear', i, 'the element count is not 0 after clear()')
        if a['m'] == ('rel', 0) and a['n'] == ('rel', 0) and 'emptied' not in a['ev']:
            if not fact_empty(f, j.c): j.viol('clear', i, 'clear() returns without having emptied the container')
        if a.get('new'): j.viol('clear', i, 'clear() adds an element')
        j.st['other'] += 1
    def capacity(j, a, m, f, i):
        j.st['other'] += 1
        if a.get('new'): j.viol('capacity', i, 'a capacity operation adds an element that was not in the container')
        if a.get('asn'): j.viol('capacity', i, 'a capacity operation assigns to an element')
        if a.get('gone') and not fact_empty(f, j.c): j.viol('capacity', i, 'a capacity operation destroys an element that was not moved')
        if a['n'][1] == 'drain' and a['n'][0] == 'rel': j.viol('capacity', i, 'a capacity operation removes elements')
        if 'copied' in a['ev']: j.viol('capacity', i, 'a capacity operation copies elements instead of relocating them')

def zero_means_empty(e, c):
    """e == 0 implies that there is no element"""
    if e.k == 'umax': return any(zero_means_empty(x, c) for x in e.a if isinstance(x, E))
    if e.k == 'udiv': return small(e.a[0], e.a[1], c)
    if e.k == 'lin': return e.a[0] == 0 and len(e.a[1]) == 1 and zero_means_empty(e.a[1][0][0], c)
    if e.k == 'zext': return zero_means_empty(e.a[0], c)
    return z8(e, c) or e.k == 'init' and e.a[1] == c.slots_off
def small(a, b, c):
    c0, d = lin_parts(a)
    return c0 == 0 and len(d) == 1 and z8(next(iter(d)), c) and next(iter(d.values())) >= 256 and b.k == 'init'
def z8(x, c): return x.k == 'init' and x.a[1] == c.size_off
def fact_empty(f, c):
    z = eng.mk('init', eng.sym('arg', 0, w=65), c.size_off)
    for k, v in f.items():
        if isinstance(k, E) and k.k == 'eq0' and v is True and any(x.k == 'init' and x.a[1] in (c.size_off, c.slots_off) for x in lin_parts(k.a[0])[1]): return True
        # size * 256 < max load factor (scaled by 256, at most 256): no element
        if isinstance(k, E) and k.k == 'ult' and v is True and small(k.a[0], k.a[1], c): return True
        if isinstance(k, E) and k.k == 'eq0' and v is True and zero_means_empty(k.a[0], c): return True
        if isinstance(k, E) and implies_empty(k, v, c): return True
    return False
_ie = {}
def implies_empty(k, v, c):
    """the fact is refuted for every sampled element count above 0, whatever the load factor (scaled by 256) is"""
    key = (k, v, c.size_off)
    if key not in _ie:
        at = eng.atoms_of(k); ok = False
        if any(z8(x, c) for x in at) and all(x.k in ('init', 'v') for x in at) and len(at) <= 4:
            ok = True
            for n in (1, 2, 3, 28, 29, 1000):
                for q in (77, 128, 154, 201, 224, 256):
                    for o in (0, 40):
                        try: ok &= bool(num.Env(None_(), lambda x: n if z8(x, c) else q if x.k == 'init' else o, lambda a, z: None)(k)) != v
                        except num.Unknown: ok = False
        _ie[key] = ok
    return _ie[key]
class None_:
    globals = {}
def pt(pr):
    """provenance in words"""
    if not isinstance(pr, tuple) or not pr: return 'something else'
    if pr[0] == 'copy': return 'a copy of ' + pt(pr[1])[10:] if pt(pr[1]).startswith('moved from ') else 'a copy of ' + pt(pr[1])
    if pr[0] == 'arg': return ('moved from ' if pr[3] == 'move' else '') + 'argument %s%s' % (pr[1], '' if not pr[2] else ' (mapped part)')
    if pr[0] == 'def': return 'default-constructed'
    if pr[0] in ('conv', 'conv2'): return 'constructed from ' + ', '.join(pt(x) for x in pr[1:])
    if pr[0] == 'el': return 'taken from another element'
    return str(pr[0])
