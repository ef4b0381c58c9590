"""Trace-partitioned dataflow: the first iterations of every loop are peeled and the abstract paths kept apart,
so the addresses a probe visits are known as expressions over the hash value and the container fields."""
import eng
from eng import E, mk, con, sym, const, addc, sub, base_of, atoms_of

class Cut(Exception): pass

class PathEngine(eng.Engine):
    MAXPATHS = 4000
    MAXSTEPS = 200000
    def run(self, f, P):
        C = self.cfg(f)
        C['inloop'] = set()                       # no renaming: every load gets its own name
        S = eng.State({}, {}, {}, {}, None)
        for n, (ty, nm, attr) in enumerate(f.args):
            S.env[nm] = sym('arg', n, w=65) if ty == 'ptr' else sym('v', nm, w=self.width(ty))
        P.eng = self; P.f = f; P.cfg = C
        P.start(S)
        self.steps = 0; self.seq = 0
        stack = [(f.order[0], S)]
        while stack:
            b, S = stack.pop()
            self.steps += 1
            if self.steps > self.MAXSTEPS: raise eng.AnalysisError('%s: step limit' % f.name)
            for tb, S2 in self.block(f, C, f.blocks[b], S, P):
                blk = f.blocks[tb]
                ph = []
                for i in blk.insts:
                    if i.op != 'phi': break
                    ph.append((i.dst, self.val(S2, i.ops[i.aux.index(b)], i.ty)))
                if S2 is S: S2 = S.copy()
                live = C['live'][tb]
                S2.env = {k: v for k, v in S2.env.items() if k in live}
                if tb in C['heads'] and ph:
                    back = C['num'][b] >= C['num'][tb]
                    lc = dict(S2.auto.get('lc', ())); n, tot, fk = lc.get(tb, (0, 0, 0)) if back else (0, 0, 0)
                    if back and (not P.exact or fk != S2.auto.get('fk', 0) or tot >= P.exact): n += 1
                    lc[tb] = (n, tot + 1, S2.auto.get('fk', 0))
                    S2.auto['lc'] = tuple(sorted(lc.items()))
                    if n > P.peel(S2, ph):
                        if n > P.peel(S2, ph) + 1: continue          # the widened iteration was explored once
                        ph = [(d, sym('v', '%s~%d' % (d, self.fresh()), w=e.w)) for d, e in ph]
                for d, e in ph: S2.env[d] = e
                if P.enter(S2, tb, b) is False: continue
                stack.append((tb, S2))
        return self.steps
    def fresh(self): self.seq += 1; return self.seq
    def step(self, f, C, blk, S, i, P, loop):
        if S.auto.get('cut'): return []
        return eng.Engine.step(self, f, C, blk, S, i, P, False)

class PathProp(eng.Prop):
    """records, per path, the memory accesses, calls and branches that matter (the trace is a linked list)"""
    maxpaths = PathEngine.MAXPATHS
    exact = 0        # > 0: iterations without an undecided branch stay exact, up to this number
    def __init__(s, c, op): s.c, s.op = c, op; s.paths = []; s.nld = 0
    def start(s, S): S.auto['t'] = None; S.auto['st'] = None
    def note(s, S, *x): S.auto['t'] = (x, S.auto['t'])
    def peel(s, S, phis):
        """how many iterations are kept exact before the loop variables are widened"""
        return 8 if any(hashdep(e) for d, e in phis) else 4 if any(itdep(e) for d, e in phis) else 0
    @staticmethod
    def trace(S):
        o = []; t = S.auto['t']
        while t: o.append(t[0]); t = t[1]
        return o[::-1]
    def isst(s, a):
        """address in storage (not the container object, a temporary, an operand or a global)"""
        b, o = base_of(a)
        if b is None: return True
        return b.k not in ('arg', 'alloca', 'g')
    def loadval(s, S, i, a, w):
        sz = s.eng.L.size_align(i.ty)[0]
        if base_of(a)[0] is not None and base_of(a)[0].k == 'g' and '_ZGV' in str(base_of(a)[0].a[0]): return con(1, w)      # local statics are initialised
        st = S.auto['st']
        while st:
            (A, V, Z), st = st
            if A is a and Z == sz: return V
            d = const(sub(a, A))
            if d is None: break                      # may alias: a fresh value
            d = d - (1 << 64) if d >> 63 else d
            if -sz < d < Z: break
        s.nld += 1
        return sym('ld', a, '#%d|%s' % (s.nld, i.ty), w=w)
    def load(s, S, i, a, v):
        if s.isst(a): s.note(S, 'L', a, v, i)
    def store(s, S, i, a, v, sz):
        if s.isst(a): S.auto['st'] = ((a, v, sz), S.auto['st']); s.note(S, 'S', a, v, sz, i)
    def memop(s, S, i, kind, args): s.note(S, 'M', kind, args, i)
    def branch(s, S, i, c, t):
        if c.k != 'c': s.note(S, 'B', c, t, i)
    def default(s, S, i, conds):
        for c in conds:
            if s.branch(S, i, c, False) is False: return False
    def call(s, S, i, n, args, rv): s.note(S, 'C', n, args, rv, i)
    def ret(s, S, i, v): s.done(S, 'ret')
    def unreachable(s, S, i): s.done(S, 'unreachable')
    def done(s, S, how):
        s.paths.append((s.trace(S), how, S))
        if len(s.paths) > s.maxpaths: raise eng.AnalysisError('path limit')

A1 = sym('arg', 1, w=65)
_hd = {}
def hashdep(e):
    r = _hd.get(e)
    if r is None: r = _hd[e] = any(x.k == 'call' and x.a[0] == 'vf_hash' for x in deep_atoms(e))
    return r
_id = {}
def itdep(e):
    """computed from the fields of an iterator operand"""
    if e not in _id: _id[e] = any(x.k == 'init' and x.a[0] is A1 for x in deep_atoms(e))
    return _id[e]
def deep_atoms(e, acc=None):
    """atoms, including those below a loaded value's address or a call's arguments"""
    acc = acc if acc is not None else set()
    if e.k in ('ld', 'call', 'init', 'arg', 'alloca', 'alloc', 'j', 'p', 'v', 'hav', 'g'):
        if e in acc: return acc
        acc.add(e)
    if e.k == 'lin':
        for k, _ in e.a[1]: deep_atoms(k, acc)
        return acc
    for x in e.a:
        if isinstance(x, E): deep_atoms(x, acc)
    return acc
