"""Path-sensitive, merge-at-join dataflow over the normalised IR (property simulation in the style of ESP).

Abstract state at a program point:
  auto   the automaton of the property under analysis (finite, defined by the property)
  env    SSA name -> canonical expression, for the names that are live
  mem    (object, offset, size) -> expression, for the container objects, out-parameters and locals
  facts  branch conditions known on every path merged into the state
States with the same automaton (and the same known boolean results) are joined: entries that differ become a
fresh symbol, the same symbol for entries that differ in the same way.  No solver and no execution: expressions
are only compared after linear normalisation."""
import sys, math
import ir

sys.setrecursionlimit(100000)

class AnalysisError(Exception): pass

_tab = {}; _one = {}
class E:
    __slots__ = ("k", "a", "syms", "h", "w")
    def __repr__(s): return show(s)
    def __hash__(s): return s.h
    def __eq__(s, o): return s is o
    def __lt__(s, o): return repr(s) < repr(o)

def mk(k, *a, w=64):
    key = (k, w) + a
    e = _tab.get(key)
    if e is None:
        e = E(); e.k = k; e.a = a; e.w = w
        sy = set()
        for x in a:
            if isinstance(x, E): sy |= x.syms
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, E): sy |= y.syms
                    elif isinstance(y, tuple) and y and isinstance(y[0], E): sy |= y[0].syms
        if k in ('j', 'p', 'ld', 'call', 'v', 'alloc', 'hav'): sy.add(a[-1] if k in ('ld', 'call', 'v', 'alloc') else (a[0] if k in ('j', 'p') else a[-1]))
        e.syms = frozenset(sy); e.h = hash(key)
        _tab[key] = e
    return e

def con(n, w=64):
    if w == 65: w = 64
    return mk('c', n & ((1 << w) - 1), w=w)
ZERO = con(0)
def sym(k, *a, w=64): return mk(k, *a, w=w)

def lin_parts(e):
    """-> const, {atom:coef}"""
    if e.k == 'c': return e.a[0], {}
    if e.k == 'lin': return e.a[0], dict(e.a[1])
    return 0, {e: 1}

def mk_lin(c, d, w):
    if w == 65: w = 64
    M = (1 << w) - 1
    c &= M
    d = {k: v & M for k, v in d.items() if v & M}
    if not d: return con(c, w)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1: return k
    return mk('lin', c, tuple(sorted(d.items(), key=lambda kv: (kv[0].h, repr(kv[0])))), w=w)

def add(a, b, w=None):
    w = w or a.w
    c1, d1 = lin_parts(a); c2, d2 = lin_parts(b)
    d = dict(d1)
    for k, v in d2.items(): d[k] = d.get(k, 0) + v
    return mk_lin(c1 + c2, d, w)
def scale(a, n, w=None):
    w = w or a.w
    c, d = lin_parts(a); return mk_lin(c * n, {k: v * n for k, v in d.items()}, w)
def sub(a, b, w=None): return add(a, scale(b, -1, w or a.w), w)
def addc(a, n): return add(a, con(n, a.w))
def const(e): return e.a[0] if e.k == 'c' else None
def sconst(e):
    if e.k != 'c': return None
    n = e.a[0]
    return n - (1 << e.w) if n >> (e.w - 1) else n

def show(e, d=0):
    if not isinstance(e, E): return str(e)
    if d > 12: return '…'
    if e.k == 'c': return str(sconst(e))
    if e.k == 'lin':
        r = []
        M = 1 << e.w
        for k, v in e.a[1]:
            if v >> (e.w - 1): v -= M
            r.append(('%d*' % v if v != 1 else '') + show(k, d+1))
        if e.a[0]:
            c = e.a[0]; c = c - M if c >> (e.w-1) else c
            r.append(str(c))
        return '(' + ' + '.join(r) + ')'
    if e.k == 'arg': return 'arg%d' % e.a[0]
    if e.k == 'init': return '*[%s+%d]' % (show(e.a[0], d+1), e.a[1])
    if e.k == 'g': return '@' + e.a[0]
    if e.k == 'ld': return 'ld(%s)' % show(e.a[0], d+1)
    if e.k == 'j': return 'j<%s:%s>' % (e.a[0], e.a[1])
    return '%s(%s)' % (e.k, ', '.join(show(x, d+1) if isinstance(x, E) else str(x) for x in e.a))

NOT = {}
def mk_not(e):
    if e.k == 'c': return con(1 - e.a[0], 1)
    if e.k == 'not': return e.a[0]
    return mk('not', e, w=1)

NONNULL = ('arg', 'alloca', 'g', 'alloc')
def base_of(e):
    """pointer expression -> (base atom, rest) where base is the unique pointer-like atom"""
    if e.k in ('arg', 'alloca', 'g', 'alloc', 'init', 'ld', 'j', 'p', 'v', 'call', 'hav'): return e, ZERO
    if e.k == 'lin':
        for k, v in e.a[1]:
            if v == 1 and is_ptr_atom(k): return k, sub(e, k)
    if e.k == 'and': # aligned-up pointer: and(base+..., -align)
        pass
    return None, e

PTR_KINDS = ('arg', 'alloca', 'g', 'alloc')
def is_ptr_atom(k):
    return k.k in PTR_KINDS or (k.k in ('init', 'ld', 'j', 'p', 'v', 'hav', 'call') and getattr(k, 'w') == 65) or k.k == 'align'
# pointer typed symbols carry w == 65 so that a pointer atom can be told from an index atom

def roots(e, acc=None):
    """all pointer-like atoms below e"""
    acc = acc if acc is not None else set()
    if not isinstance(e, E): return acc
    if e.k in PTR_KINDS or (e.w == 65 and e.k in ('init', 'ld', 'j', 'p', 'v', 'hav', 'call')):
        acc.add(e); return acc
    if e.k == 'lin':
        for k, _ in e.a[1]: roots(k, acc)
        return acc
    if e.k == 'c': return acc
    for x in e.a:
        if isinstance(x, E): roots(x, acc)
    return acc

def icmp(pred, a, b, w):
    if pred == 'ne': return mk_not(icmp('eq', a, b, w))
    if pred == 'ugt': return icmp('ult', b, a, w)
    if pred == 'uge': return mk_not(icmp('ult', a, b, w))
    if pred == 'ule': return mk_not(icmp('ult', b, a, w))
    if pred == 'sgt': return icmp('slt', b, a, w)
    if pred == 'sge': return mk_not(icmp('slt', a, b, w))
    if pred == 'sle': return mk_not(icmp('slt', b, a, w))
    if pred == 'eq':
        d = sub(a, b, min(w, 64)) if w != 65 else sub(a, b, 64)
        c = const(d)
        if c is not None: return con(1 if c == 0 else 0, 1)
        if a.k == 'zext' and b.k == 'c':
            x = a.a[0]
            if x.w == 1:
                if b.a[0] == 0: return mk_not(x)
                if b.a[0] == 1: return x
                return con(0, 1)
            if b.a[0] < (1 << x.w): return icmp('eq', x, con(b.a[0], x.w), x.w)
            return con(0, 1)
        if w == 1 and b.k == 'c': return a if b.a[0] else mk_not(a)
        # object identity: distinct objects / null
        if const(b) == 0 and nonnull(a): return con(0, 1)
        if const(a) == 0 and nonnull(b): return con(0, 1)
        if a.k in NONNULL and b.k in NONNULL and a is not b: return con(0, 1)
        nd = scale(d, -1, d.w)
        if repr(nd) < repr(d): d = nd
        return mk('eq0', d, w=1)
    if pred == 'ult':
        ca, cb = const(a), const(b)
        if ca is not None and cb is not None: return con(int(ca < cb), 1)
        if cb == 0 or a is b: return con(0, 1)
        if cb == 1: return icmp('eq', a, con(0, a.w if a.w != 65 else 64), w)
        if ca == 0: return mk_not(icmp('eq', b, con(0, b.w if b.w != 65 else 64), w))
        return mk('ult', a, b, w=1)
    if pred == 'slt':
        ca, cb = sconst(a), sconst(b)
        if ca is not None and cb is not None: return con(int(ca < cb), 1)
        return mk('slt', a, b, w=1)
    return mk('cmp', pred, a, b, w=1)

def nonnull(e):
    if e.k in NONNULL: return True
    b, r = base_of(e)
    return b is not None and b.k in ('alloca', 'g', 'arg')

class State:
    __slots__ = ("auto", "env", "mem", "facts", "trace")
    def __init__(s, auto, env, mem, facts, trace=None): s.auto, s.env, s.mem, s.facts, s.trace = auto, env, mem, facts, trace
    def copy(s): return State(dict(s.auto), dict(s.env), dict(s.mem), dict(s.facts), s.trace)

def conv(x, f):
    if isinstance(x, E): return f(x)
    if isinstance(x, tuple): return tuple(conv(y, f) for y in x)
    if isinstance(x, frozenset): return frozenset(conv(y, f) for y in x)
    return x

_ren = {}
def rename(e, names):
    """j/ld/call symbols whose name is in `names` -> the 'previous' symbol"""
    if not (e.syms & names): return e
    key = (e, names)
    r = _ren.get(key)
    if r is not None: return r
    if e.k in ('j', 'p', 'ld', 'call', 'v', 'alloc', 'hav'):
        nm = e.a[0] if e.k in ('j', 'p') else e.a[-1]
        if nm in names:
            if e.k == 'p': r = e
            elif e.k == 'j': r = mk('p', e.a[0], e.a[1], w=e.w)
            else: r = mk('p', e.a[-1], e.k, w=e.w)
            _ren[key] = r; return r
    r = rebuild(e, lambda x: rename(x, names))
    _ren[key] = r
    return r

def rebuild(e, f):
    if e.k == 'lin':
        r = con(e.a[0], e.w)
        for k, v in e.a[1]: r = add(r, scale(f(k), v, e.w), e.w)
        return r
    if e.k in ('j', 'p'): return e
    if e.k == 'not': return mk_not(f(e.a[0]))
    if e.k == 'eq0':
        return icmp('eq', f(e.a[0]), con(0, min(e.a[0].w, 64)), e.a[0].w)
    return mk(e.k, *[f(x) if isinstance(x, E) else x for x in e.a], w=e.w)

class Engine:
    MAXSTATES = 60000
    def __init__(self, mod, dbg=None):
        self.m = mod; self.L = ir.Layout(mod); self.D = dbg or ir.Debug(mod); self._cfg = {}; self.dom = {}; self._gd = {}

    # ---------------- CFG facts
    def cfg(self, f):
        if f.name in self._cfg: return self._cfg[f.name]
        order, seen = [], set()
        st = [(f.order[0], iter(f.blocks[f.order[0]].succs))]; seen.add(f.order[0]); onst = {f.order[0]}
        back = set()
        while st:
            b, it = st[-1]
            for s in it:
                if s in onst: back.add((b, s))
                if s not in seen:
                    seen.add(s); onst.add(s); st.append((s, iter(f.blocks[s].succs))); break
            else:
                st.pop(); onst.discard(b); order.append(b)
        rpo = order[::-1]; num = {b: i for i, b in enumerate(rpo)}
        heads = {h for _, h in back}
        # loop bodies
        body = {h: {h} for h in heads}
        for (t, h) in back:
            wl = [t]
            while wl:
                x = wl.pop()
                if x in body[h]: continue
                body[h].add(x); wl += [p for p in f.blocks[x].preds if p in num]
        inloop = set().union(*body.values()) if body else set()
        # liveness
        use, de = {}, {}
        live = {b: set() for b in rpo}
        phiuse = {}
        for b in rpo:
            u, d = set(), set()
            for i in f.blocks[b].insts:
                if i.op == 'phi':
                    for v, pb in zip(i.ops, i.aux):
                        if isinstance(v, str) and v.startswith('%'): phiuse.setdefault(pb, set()).add(v)
                else:
                    for v in i.ops:
                        if isinstance(v, str) and v.startswith('%') and v not in d: u.add(v)
                if i.dst: d.add(i.dst)
            use[b], de[b] = u, d
        ch = True
        while ch:
            ch = False
            for b in reversed(rpo):
                out = set(phiuse.get(b, ()))
                for s in f.blocks[b].succs: out |= live[s]
                # values defined by phis in successors are not live-in through us
                new = use[b] | (out - de[b])
                if new != live[b]: live[b] = new; ch = True
        r = dict(rpo=rpo, num=num, heads=heads, body=body, inloop=inloop, live=live, back=back)
        self._cfg[f.name] = r
        return r

    # ---------------- expressions
    def width(self, ty):
        if ty == 'ptr': return 65
        if ty and ty[0] == 'i' and ty[1:].isdigit(): return int(ty[1:])
        return 64
    def val(self, S, v, ty=None):
        if v.startswith('%'):
            e = S.env.get(v)
            if e is None: return sym('v', v, w=65 if ty == 'ptr' else self.width(ty or 'i64'))
            return e
        if v == 'null': return ZERO
        if v in ('true', 'false'): return con(int(v == 'true'), 1)
        if v in ('undef', 'poison'): return mk('undef', w=self.width(ty or 'i64'))
        if v == 'zeroinitializer': return mk('zeroinit')
        if v.startswith('@'): return mk('g', v[1:].strip('"'), w=65)
        try: return con(int(v), min(self.width(ty), 64) if ty else 64)
        except ValueError: pass
        if v.startswith('getelementptr'):
            return self.constgep(S, v)
        if v.startswith(('ptrtoint', 'inttoptr')):
            inner = v[v.index('(')+1:v.rindex(')')]; inner = inner.rsplit(' to ', 1)[0]
            t, x = ir.take_type(inner); return self.val(S, x, t)
        return mk('k', v, w=self.width(ty or 'i64'))
    def constgep(self, S, v):
        inner = v[v.index('(')+1:v.rindex(')')]
        parts = ir.split_top(inner); t, p = ir.take_type(parts[1])
        idx = [ir.take_type(x) for x in parts[2:]]
        i = ir.Inst('getelementptr', None, parts[0], [p] + [x[1] for x in idx], [x[0] for x in idx])
        return self.gep(S, i)
    def gep(self, S, i):
        e = self.val(S, i.ops[0], 'ptr'); t = i.ty
        off = ZERO; first = True
        for v, ty in zip(i.ops[1:], i.aux):
            x = self.val(S, v, ty)
            if first:
                sz = self.L.size_align(t)[0]; off = add(off, scale(self.ext(x), sz, 64), 64); first = False; continue
            kind, info = self.L.elem(t)
            if kind == 'seq':
                sz = self.L.size_align(info)[0]; off = add(off, scale(self.ext(x), sz, 64), 64); t = info
            elif kind == 'struct':
                els, offs = info; n = const(x); off = addc(off, offs[n]); t = els[n]
            else:
                off = add(off, self.ext(x), 64)
        return add(e, off, 64)
    def ext(self, x):
        if x.w >= 64: return x
        if x.k == 'c': return con(sconst(x), 64)
        return mk('sext', x, w=64)

    def pure(self, S, i):
        op = i.op
        if op == 'getelementptr': return self.gep(S, i)
        w = self.width(i.ty)
        if op in ('add', 'sub', 'mul', 'shl', 'and', 'or', 'xor', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            if i.ty[0] == '<': return mk('vop', op, *[self.val(S, o, i.ty) for o in i.ops])
            return binop(op, self.val(S, i.ops[0], i.ty), self.val(S, i.ops[1], i.ty), w, i.aux)
        if op == 'icmp':
            wo = self.width(i.ty)
            a, b = self.val(S, i.ops[0], i.ty), self.val(S, i.ops[1], i.ty)
            if i.ty[0] == '<': return mk('vcmp', i.aux, a, b)
            return icmp(i.aux, a, b, wo)
        if op in ('zext', 'sext', 'trunc'):
            a = self.val(S, i.ops[0], i.aux)
            if i.ty[0] == '<': return mk('vcast', op, i.ty, a)
            if a.k == 'c': return con(a.a[0] if op != 'sext' else sconst(a), w)
            if op == 'trunc' and a.k in ('zext', 'sext'):
                if a.a[0].w == w: return a.a[0]
                if a.a[0].w > w: return mk('trunc', a.a[0], w=w)
                return mk(a.k, a.a[0], w=w)
            if op == 'zext' and a.k == 'zext': return mk('zext', a.a[0], w=w)
            return mk(op, a, w=w)
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            a = self.val(S, i.ops[0], i.aux if op != 'freeze' else i.ty)
            if op == 'bitcast': return mk('bitcast', a, i.ty, w=w)
            return a
        if op == 'select':
            return None
        return mk('f:' + op, *[self.val(S, o) if isinstance(o, str) and not o.isdigit() else o for o in i.ops], str(i.aux) if i.aux is not None else '', i.ty or '', w=w)

    # ---------------- memory
    def addr(self, e):
        """-> (base, off) if e is a constant offset into a tracked object"""
        if e.k in ('arg', 'alloca'): return e, 0
        if e.k == 'lin' and len(e.a[1]) == 1:
            k, v = e.a[1][0]
            if v == 1 and k.k in ('arg', 'alloca'):
                c = e.a[0]; return k, c - (1 << 64) if c >> 63 else c
        return None
    def read(self, S, base, off, size, isptr):
        k = (base, off, size)
        v = S.mem.get(k)
        if v is not None:
            if isptr and v.k == 'init' and v.w == 64: return sym('init', *v.a, w=65)
            return v
        for (b, o, s) in S.mem:
            if b is base and o != 'havoc' and o < off + size and off < o + s:
                # overlapping partial: only handle an aggregate zero
                x = S.mem[(b, o, s)]
                if x.k == 'zeroinit' or (x.k == 'c' and x.a[0] == 0): return con(0, 64 if isptr else min(size * 8, 64))
                return mk('part', x, off - o, size, w=65 if isptr else size * 8)
        return sym('init', base, off, size, w=65 if isptr else size * 8)
    def write(self, S, base, off, size, v):
        for k in [k for k in S.mem if k[0] is base and k[1] != 'havoc' and k[1] < off + size and off < k[1] + k[2]]:
            if k[1] == off and k[2] == size: continue
            old = S.mem.pop(k)
            if old.k in ('zeroinit',) or (old.k == 'c' and old.a[0] == 0):
                # keep the remainder of a zero fill in 8-byte cells
                for o in range(k[1], k[1] + k[2], 8):
                    if not (o < off + size and off < o + 8): S.mem[(base, o, 8)] = ZERO
        S.mem[(base, off, size)] = v
    def havoc(self, S, base, tag):
        for k in [k for k in S.mem if k[0] is base]: del S.mem[k]
        S.mem[(base, 'havoc', 0)] = sym('hav', tag)

    # ---------------- facts
    def decide(self, S, c):
        if c.k == 'c': return bool(c.a[0])
        if c.k == 'not':
            r = self.decide(S, c.a[0]); return None if r is None else not r
        r = S.facts.get(c)
        if r is not None: return r
        if self.dom and c.syms:
            r = self.bydomain(c)
            if r is not None: return r
        if c.k == 'and':
            rs = [self.decide(S, x) for x in c.a]
            if False in rs: return False
            if all(x is True for x in rs): return True
        if c.k == 'or':
            rs = [self.decide(S, x) for x in c.a]
            if True in rs: return True
            if all(x is False for x in rs): return False
        if c.k == 'ult':
            # a<b known false from b<a ; equal known
            r = S.facts.get(mk('ult', c.a[1], c.a[0], w=1))
            if r is True: return False
            if const(c.a[0]) == 0: return None
        if c.k == 'eq0':
            # x-y==0 given x<y or y<x
            cc, d = lin_parts(c.a[0])
            if len(d) == 2 and cc == 0:
                (x, vx), (y, vy) = d.items()
                M = (1 << c.a[0].w) - 1 if c.a[0].w < 65 else (1 << 64) - 1
                if (vx + vy) & M == 0 and (vx == 1 or vy == 1):
                    if S.facts.get(mk('ult', x, y, w=1)) or S.facts.get(mk('ult', y, x, w=1)): return False
            # x - c1 == 0 when x - c2 == 0 is known
            if len(d) == 1:
                for f, t in S.facts.items():
                    if t is True and f.k == 'eq0' and f is not c:
                        c2, d2 = lin_parts(f.a[0])
                        if d2 == d and c2 != cc: return False
        return None
    def assume(self, S, c, t):
        """record c == t; False if contradictory"""
        r = self.decide(S, c)
        if r is not None: return r == t
        if c.k == 'not': return self.assume(S, c.a[0], not t)
        S.facts[c] = t
        if c.k == 'and' and t:
            for x in c.a:
                if x.w == 1 and not self.assume(S, x, True): return False
        if c.k == 'or' and not t:
            for x in c.a:
                if x.w == 1 and not self.assume(S, x, False): return False
        if c.k == 'sel' and c.w == 1:
            # sel(p,true,q)==false -> !p,!q ; sel(p,q,false)==true -> p,q
            p, a, b = c.a
            if not t and const(a) == 1: return self.assume(S, p, False) and self.assume(S, b, False)
            if t and const(b) == 0: return self.assume(S, p, True) and self.assume(S, a, True)
        return True

    def bydomain(self, c):
        a = _one.get(c, 0)
        if a == 0:
            at = atoms_of(c); a = _one[c] = next(iter(at)) if len(at) == 1 else None
        if a is None: return None
        D = self.dom.get(a)
        if not D: return None
        res = set()
        for x in D:
            r = fold(c, {a: con(x, a.w)})
            if r is None or r.k != 'c': return None
            res.add(bool(r.a[0]))
            if len(res) > 1: return None
        return res.pop()
    def globdom(self, g, size):
        """the constants a static array is filled with, if nothing else is ever stored into it"""
        key = (g, size)
        if key in self._gd: return self._gd[key]
        vals = set(); ok = True; n = 0
        S0 = State({}, {}, {}, {}, None)
        for f in self.m.funcs.values():
            for b in f.blocks.values():
                for i in b.insts:
                    if i.op != 'store' or g not in str(i.ops[1]): continue
                    a = self.val(S0, i.ops[1], 'ptr'); bs, off = base_of(a)
                    if bs is None or bs.k != 'g' or bs.a[0] != g: continue
                    v = const(self.val(S0, i.ops[0], i.ty)) if i.ty[0] != '<' else None
                    sz = self.L.size_align(i.ty)[0]
                    if i.ty[0] == '<' and str(i.ops[0]) in ('zeroinitializer',): v = 0
                    if v is None or (sz != size and not (v == 0 and sz % size == 0)): ok = False
                    else: vals.add(v); n += 1
        r = frozenset(vals) if ok and n else None
        self._gd[key] = r
        return r

    # ---------------- driver
    def run(self, f, P):
        """analyse one function with property P; returns number of (block,state) visits"""
        C = self.cfg(f)
        S = State({}, {}, {}, {}, None)
        for n, (ty, nm, attr) in enumerate(f.args):
            S.env[nm] = sym('arg', n, w=65) if ty == 'ptr' else sym('v', nm, w=self.width(ty))
        P.eng = self; P.f = f; P.cfg = C
        P.start(S)
        entry = f.order[0]
        table = self.table = {}     # block -> {key: State}
        work = []
        import heapq
        cnt = 0; seq = 0
        def push(b, S, frm):
            nonlocal seq
            blk = f.blocks[b]
            names = frozenset([b])
            # phis (parallel)
            phis = []
            for i in blk.insts:
                if i.op != 'phi': break
                v = i.ops[i.aux.index(frm)]
                phis.append((i.dst, self.val(S, v, i.ty)))
            for d, e in phis: S.env[d] = e
            phin = {d for d, _ in phis}
            live = C['live'][b] | phin
            if len(blk.preds) > 1:
                R = lambda e: rename(e, names)
                S.env = {k: R(v) for k, v in S.env.items() if k in live}
                S.mem = {k: R(v) for k, v in S.mem.items()}
                S.facts = {c: t for c, t in S.facts.items() if not (c.syms & names)}
                S.auto = {k: conv(v, R) for k, v in S.auto.items()}
            else:
                S.env = {k: v for k, v in S.env.items() if k in live}
            P.enter(S, b, frm)
            ishead = b in C['heads']
            kc = []
            if not ishead:
                for k, v in S.env.items():
                    if v.k == 'c' and (v.w == 1 or v.a[0] == 0): kc.append((k, v.a[0]))
                kc.sort()
            kc += P.extrakey(S, b)
            key = (tuple(sorted(S.auto.items(), key=lambda kv: kv[0])), tuple(kc))
            t = table.setdefault(b, {})
            old = t.get(key)
            if old is None:
                t[key] = S; new = S
            else:
                new = self.join(old, S, b)
                if new is None: return
                t[key] = new
            seq += 1
            heapq.heappush(work, (C['num'][b], seq, b, key))
        for k, v in list(S.env.items()): pass
        t = table.setdefault(entry, {}); t['init'] = S
        heapq.heappush(work, (0, 0, entry, 'init'))
        pend = set()
        while work:
            _, _, b, key = heapq.heappop(work)
            S = table[b][key].copy()
            S.trace = (b, S.trace)
            cnt += 1
            if cnt > self.MAXSTATES: raise AnalysisError('%s: state limit exceeded' % f.name)
            for (tb, S2) in self.block(f, C, f.blocks[b], S, P):
                push(tb, S2, b)
        P.nstates = sum(len(x) for x in table.values())
        return cnt

    def join(self, A, B, b):
        """join B into A at block b; None if nothing changes"""
        pairs = {}
        changed = False
        def collect(name, x, y):
            pairs.setdefault((x, y), []).append(name)
        allmem = set(A.mem) | set(B.mem)
        def mget(S, k):
            v = S.mem.get(k)
            if v is None: v = sym('init', k[0], k[1], k[2], w=65 if False else k[2] * 8) if k[1] != 'havoc' else ZERO
            return v
        for k in A.env:
            x, y = A.env[k], B.env.get(k)
            if y is None: y = x
            if x is not y: collect(('e', k), x, y)
        for k in allmem:
            x, y = A.mem.get(k), B.mem.get(k)
            if x is None:
                w = y.w; x = (self.read(A, k[0], k[1], k[2], y.w == 65) if (k[0], 'havoc', 0) not in A.mem else sym('hav', '%s+%s' % (show(k[0]), k[1]), w=y.w)) if k[1] != 'havoc' else ZERO
            if y is None:
                y = (self.read(B, k[0], k[1], k[2], x.w == 65) if (k[0], 'havoc', 0) not in B.mem else sym('hav', '%s+%s' % (show(k[0]), k[1]), w=x.w)) if k[1] != 'havoc' else ZERO
            if x is not y: collect(('m', k), x, y)
            elif k not in A.mem:
                A = State(A.auto, A.env, dict(A.mem), A.facts, A.trace); A.mem[k] = x; changed = True
        env, mem = dict(A.env), dict(A.mem)
        # split x = C + g*u, y = C + g*v with C the common linear part of a pointer: entries that move in step
        # share one symbol for the (u, v) pair
        groups = {}
        for (x, y), names in pairs.items():
            C, g, u, v = self.split(x, y, b)
            G = groups.setdefault((u, v), [])
            for nm in names: G.append((nm, C, g, x))
        users = {}
        for (u, v) in groups: users[u] = users.get(u, 0) + 1
        for (u, v), G in groups.items():
            G.sort(key=lambda t: str(t[0]))
            nm = G[0][0]
            isp = u.w == 65 or v.w == 65 or is_ptr(u) or is_ptr(v)
            s = mk('j', b, '%s%s' % (nm[0], nm[1] if nm[0] == 'e' else '%s+%s' % (show(nm[1][0]), nm[1][1])), w=65 if isp else min(u.w, 64))
            if u.k == 'j' and u.a[0] == b and u.w == s.w:
                # already a symbol of this join point: keep it if no other group uses it
                if users[u] == 1: s = u
                elif u.a[1] == s.a[1]: s = u
            for nm, C, g, x in G:
                e = s if C is None else add(C, scale(s, g, 64), 64)
                if nm[0] == 'e':
                    if env[nm[1]] is not e: env[nm[1]] = e; changed = True
                else:
                    if mem.get(nm[1]) is not e: mem[nm[1]] = e; changed = True
        facts = {c: t for c, t in A.facts.items() if B.facts.get(c) == t}
        if len(facts) != len(A.facts): changed = True
        if not changed: return None
        # facts that mention symbols introduced just now would be stale
        return State(A.auto, env, mem, facts, A.trace)

    def split(self, x, y, b):
        if not (is_ptr(x) and is_ptr(y)): return None, 1, x, y
        cx, dx = lin_parts(x); cy, dy = lin_parts(y)
        fresh = lambda k: any(n == b for n in k.syms)
        common = {k: v for k, v in dx.items() if dy.get(k) == v and not fresh(k)}
        if not any(is_ptr_atom(k) and v == 1 for k, v in common.items()): return None, 1, x, y
        # the constant belongs to the common part when both sides keep it modulo the stride
        rx = {k: v for k, v in dx.items() if k not in common}; ry = {k: v for k, v in dy.items() if k not in common}
        g = 0
        sg = lambda n: n - (1 << 64) if n >> 63 else n
        for v in list(rx.values()) + list(ry.values()): g = math.gcd(g, abs(sg(v)))
        d = sg((cy - cx) & ((1 << 64) - 1)); g = math.gcd(g, abs(d))
        if g == 0: return None, 1, x, y
        r = sg(cx) % g
        C = mk_lin(r, common, 64)
        r0, r = r, sg(cx)   # the whole constant of x stays in the common part: entries at a fixed distance move in step
        C = mk_lin(r, common, 64)
        q = lambda c, t: mk_lin((sg(c) - r) // g, {k: sg(v) // g for k, v in t.items()}, 64)
        return C, g, q(cx, rx), q(cy, ry)

    def block(self, f, C, blk, S, P):
        """execute the block; yields (successor, state)"""
        states = [S]
        loop = blk.name in C['inloop']
        for i in blk.insts:
            if i.op == 'phi': continue
            nxt = []
            for S in states:
                nxt += self.step(f, C, blk, S, i, P, loop)
            states = nxt
            if not states: return
            if i.op in ('br', 'switch', 'ret', 'unreachable', 'resume', 'invoke'):
                for item in states: yield item
                return
    def kill(self, S, name):
        names = frozenset([name])
        R = lambda e: rename(e, names)
        if any(names & v.syms for v in S.env.values()): S.env = {k: R(v) for k, v in S.env.items()}
        if any(names & v.syms for v in S.mem.values()): S.mem = {k: R(v) for k, v in S.mem.items()}
        if any(names & c.syms for c in S.facts): S.facts = {c: t for c, t in S.facts.items() if not (c.syms & names)}
        S.auto = {k: conv(v, R) for k, v in S.auto.items()}

    def step(self, f, C, blk, S, i, P, loop):
        op = i.op
        if op == 'br':
            if not i.ops: return [(i.aux[0], S)]
            c = self.val(S, i.ops[0], 'i1')
            return self.fork(S, i, c, i.aux[0], i.aux[1], P)
        if op == 'load':
            a = self.val(S, i.ops[0], 'ptr'); w = self.width(i.ty); sz = self.L.size_align(i.ty)[0]
            t = self.addr(a)
            if t and ((t[0], 'havoc', 0) not in S.mem or (t[0], t[1], sz) in S.mem):
                v = self.read(S, t[0], t[1], sz, w == 65)
                if v.k == 'zeroinit': v = con(0, min(w, 64))
            else:
                if loop: self.kill(S, i.dst)
                v = P.loadval(S, i, a, w)
                if v is None:
                    v = sym('ld', a, i.dst, w=w)
                    ba = base_of(a)[0]
                    if ba is not None and ba.k == 'g' and (ba is a or getattr(P, 'initmem', None)) and w <= 32 and v not in self.dom:
                        D = self.globdom(ba.a[0], sz)
                        if D: self.dom[v] = D
            S.env[i.dst] = v
            P.load(S, i, a, v)
            return [S]
        if op == 'store':
            v = self.val(S, i.ops[0], i.ty); a = self.val(S, i.ops[1], 'ptr'); sz = self.L.size_align(i.ty)[0]
            r = P.store(S, i, a, v, sz)
            t = self.addr(a)
            if t: self.write(S, t[0], t[1], sz, v)
            return r or [S]
        if op in ('call', 'invoke'):
            return self.call(f, S, i, P, loop)
        if op == 'ret':
            P.ret(S, i, self.val(S, i.ops[0], i.ty) if i.ops else None); return []
        if op == 'resume':
            P.resume(S, i); return []
        if op == 'unreachable': 
            P.unreachable(S, i); return []
        if op == 'alloca':
            S.env[i.dst] = sym('alloca', i.dst, w=65); return [S]
        if op == 'switch':
            c = self.val(S, i.ops[0], i.ty); out = []; w = self.width(i.ty)
            pairs = []
            for v, lab in i.aux[1]:
                e = con(int(v) if v not in ('true', 'false') else int(v == 'true'), w)
                cond = icmp('eq', c, e, w); pairs.append(cond)
                S2 = S.copy()
                if self.assume(S2, cond, True):
                    if P.branch(S2, i, cond, True) is not False: out.append((lab, S2))
            S2 = S.copy(); ok = True
            for cond in pairs: ok = ok and self.assume(S2, cond, False)
            if ok and P.default(S2, i, pairs) is not False: out.append((i.aux[0], S2))
            return out
        if op == 'select':
            c = self.val(S, i.ops[0], i.aux); a = self.val(S, i.ops[1], i.ty); b = self.val(S, i.ops[2], i.ty)
            if i.aux != 'i1':
                S.env[i.dst] = mk('vsel', c, a, b); return [S]
            r = self.decide(S, c)
            if r is None and a is b: r = True
            if r is not None: S.env[i.dst] = a if r else b; return [S]
            if i.ty == 'i1':
                if a.k == 'c' and b.k == 'c': S.env[i.dst] = c if a.a[0] else mk_not(c); return [S]
                S.env[i.dst] = mk('sel', c, a, b, w=1); return [S]
            if P.forksel(S, i, c, a, b):
                out = []
                for t, v in ((True, a), (False, b)):
                    S2 = S.copy()
                    if self.assume(S2, c, t):
                        if P.branch(S2, i, c, t) is False: continue
                        S2.env[i.dst] = v; out.append(S2)
                return out
            S.env[i.dst] = mk('sel', c, a, b, w=self.width(i.ty)); return [S]
        if op == 'landingpad':
            S.env[i.dst] = sym('v', i.dst); P.landing(S, i); return [S]
        e = self.pure(S, i)
        if i.dst: S.env[i.dst] = e
        return [S]

    def fork(self, S, i, c, lt, lf, P):
        out = []
        r = self.decide(S, c)
        if r is not None:
            if P.branch(S, i, c, r) is False: return []
            return [(lt if r else lf, S)]
        for t, lab in ((True, lt), (False, lf)):
            S2 = S.copy()
            if not self.assume(S2, c, t): continue
            if P.branch(S2, i, c, t) is False: continue
            out.append((lab, S2))
        return out

    def call(self, f, S, i, P, loop):
        n = i.aux['callee']
        cont = lambda L: ([(i.aux['normal'], s) for s in L]) if i.op == 'invoke' else L
        if n.startswith(('llvm.dbg', 'llvm.assume', 'llvm.prefetch', 'llvm.lifetime', 'llvm.experimental.noalias')): return cont([S])
        args = [self.val(S, o, t) if o != 'metadata' else None for o, t in zip(i.ops, i.aux['tys'])]
        if n.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
            r = P.memop(S, i, n.split('.')[1], args)
            t = self.addr(args[0])
            if t and const(args[2]) is not None:
                sz = const(args[2])
                if n.startswith('llvm.memset'):
                    self.write(S, t[0], t[1], sz, mk('zeroinit') if const(args[1]) == 0 else mk('fill', args[1]))
                else:
                    s = self.addr(args[1])
                    if s:
                        cells = {k: v for k, v in S.mem.items() if k[0] is s[0] and k[1] != 'havoc' and s[1] <= k[1] and k[1] + k[2] <= s[1] + sz}
                        done = set()
                        for k, v in cells.items():
                            self.write(S, t[0], t[1] + k[1] - s[1], k[2], v); done.add(k[1] - s[1])
                        for o in range(0, sz, 8):
                            if not any(k[1] - s[1] <= o < k[1] - s[1] + k[2] for k in cells):
                                self.write(S, t[0], t[1] + o, min(8, sz - o), self.read(S, s[0], s[1] + o, min(8, sz - o), False))
                    else: self.write(S, t[0], t[1], sz, sym('ld', args[1], 'memcpy'))
            return cont(r or [S])
        if n.startswith('llvm.'):
            w = self.width(i.ty)
            base = n.split('.')[1]
            if base in ('umax', 'umin') and len(args) >= 2:
                a, b = args[:2]
                if const(a) is not None and const(b) is not None: e = con((max if base == 'umax' else min)(const(a), const(b)), w)
                else:
                    a, b = sorted((a, b), key=repr); e = mk(base, a, b, w=w)
            elif base == 'expect': e = args[0]
            else: e = mk('f:' + base, *[x for x in args if x is not None], w=w)
            if i.dst: S.env[i.dst] = e
            return cont([S])
        # a real call
        if i.dst:
            if loop: self.kill(S, i.dst)
            w = self.width(i.ty)
            rv = mk('alloc', i.dst, w=65) if n == 'vf_alloc' else mk('call', n, *args, i.dst, w=w)
        else: rv = None
        out = []
        if i.op == 'invoke' and P.may_throw(i, n):
            S2 = S.copy()
            r2 = P.throwing(S2, i, n, args)
            if r2 is not False: out.append((i.aux['unwind'], S2))
        elif i.op == 'call' and P.may_throw(i, n):
            S2 = S.copy(); P.escape(S2, i, n, args)
        r = P.call(S, i, n, args, rv)
        if i.dst: S.env[i.dst] = rv
        if r is None: r = [S]
        for s in r:
            if i.dst and i.dst not in s.env: s.env[i.dst] = rv
        return out + cont(r)

def is_ptr(e):
    return e.w == 65 or base_of(e)[0] is not None and base_of(e)[0].w == 65

def binop(op, a, b, w, flags=()):
    ca, cb = const(a), const(b)
    M = (1 << w) - 1 if w <= 64 or w == 128 else (1 << 64) - 1
    if w == 65: w = 64
    if ca is not None and cb is not None and w <= 128:
        try:
            r = {'add': lambda: ca + cb, 'sub': lambda: ca - cb, 'mul': lambda: ca * cb, 'and': lambda: ca & cb, 'or': lambda: ca | cb,
                 'xor': lambda: ca ^ cb, 'shl': lambda: ca << cb, 'lshr': lambda: ca >> cb, 'udiv': lambda: ca // cb, 'urem': lambda: ca % cb,
                 'ashr': lambda: sconst(a) >> cb}[op]()
            return con(r, w)
        except (KeyError, ZeroDivisionError, MemoryError): pass
    if op == 'add': return add(a, b, w)
    if op == 'sub': return sub(a, b, w)
    if op == 'mul':
        if cb is not None: return scale(a, cb, w)
        if ca is not None: return scale(b, ca, w)
    if op == 'shl' and cb is not None and cb < w: return scale(a, 1 << cb, w)
    if op == 'or' and 'disjoint' in (flags or ()): return add(a, b, w)
    if op == 'and':
        if ca == 0 or cb == 0: return con(0, w)
        if cb == M: return a
        if ca == M: return b
        if a is b: return a
    if op == 'or':
        if ca == 0: return b
        if cb == 0: return a
    if op == 'xor':
        if cb == 0: return a
        if w == 1 and cb == 1: return mk_not(a)
        if a is b: return con(0, w)
    if op in ('lshr', 'ashr', 'udiv', 'sdiv') and cb and 'exact' in (flags or ()) and w <= 64:
        q = 1 << cb if op in ('lshr', 'ashr') else cb
        sg = lambda n: n - (1 << w) if n >> (w - 1) else n
        c0, d0 = lin_parts(a)
        if d0 and sg(c0) % q == 0 and all(sg(v) % q == 0 for v in d0.values()):
            return mk_lin(sg(c0) // q, {k: sg(v) // q for k, v in d0.items()}, w)
    if op in ('lshr', 'ashr', 'udiv') and cb is not None and (cb == 0 and op != 'udiv' or cb == 1 and op == 'udiv'): return a
    if op == 'udiv' and cb and cb & (cb - 1) == 0: return binop('lshr', a, con(cb.bit_length() - 1, w), w)
    if op == 'urem' and cb and cb & (cb - 1) == 0: return binop('and', a, con(cb - 1, w), w)
    if op in ('and', 'or', 'xor', 'mul'):
        a, b = sorted((a, b), key=repr)
    return mk(op, a, b, w=w)

def atoms_of(e, acc=None):
    acc = acc if acc is not None else set()
    if e.k in ('ld', 'call', 'j', 'p', 'v', 'hav', 'alloc', 'init', 'arg', 'alloca', 'g'): acc.add(e); return acc
    if e.k == 'lin':
        for k, _ in e.a[1]: atoms_of(k, acc)
        return acc
    for x in e.a:
        if isinstance(x, E): atoms_of(x, acc)
    return acc

def fold(e, env):
    """substitute and constant-fold; an expression that still has atoms if it cannot be decided"""
    r = env.get(e)
    if r is not None: return r
    if e.k == 'c': return e
    if e.k == 'lin':
        r = con(e.a[0], e.w)
        for k, v in e.a[1]: r = add(r, scale(fold(k, env), v, e.w), e.w)
        return r
    if e.k == 'not': return mk_not(fold(e.a[0], env))
    if e.k == 'eq0':
        x = fold(e.a[0], env); return con(int(x.a[0] == 0), 1) if x.k == 'c' else mk('eq0', x, w=1)
    if e.k in ('ult', 'slt'): return icmp(e.k, fold(e.a[0], env), fold(e.a[1], env), e.a[0].w)
    if e.k in ('zext', 'sext', 'trunc'):
        x = fold(e.a[0], env)
        if x.k == 'c': return con(x.a[0] if e.k != 'sext' else sconst(x), e.w)
        return mk(e.k, x, w=e.w)
    if e.k in ('and', 'or', 'xor', 'mul', 'lshr', 'ashr', 'shl', 'udiv', 'urem'):
        return binop(e.k, fold(e.a[0], env), fold(e.a[1], env), e.w)
    if e.k == 'sel':
        c = fold(e.a[0], env)
        if c.k == 'c': return fold(e.a[1] if c.a[0] else e.a[2], env)
        return mk('sel', c, fold(e.a[1], env), fold(e.a[2], env), w=e.w)
    if e.k in ('umax', 'umin'):
        a, b = fold(e.a[0], env), fold(e.a[1], env)
        if a.k == b.k == 'c': return con((max if e.k == 'umax' else min)(a.a[0], b.a[0]), e.w)
        return mk(e.k, a, b, w=e.w)
    if e.k.startswith('f:') and e.a and all(isinstance(x, E) for x in e.a):
        xs = [fold(x, env) for x in e.a]
        if xs[0].k == 'c':
            n = xs[0].a[0]; w = xs[0].w
            if e.k == 'f:ctpop': return con(bin(n).count('1'), e.w)
            if e.k == 'f:ctlz': return con(w - n.bit_length(), e.w)
            if e.k == 'f:cttz': return con(w if n == 0 else (n & -n).bit_length() - 1, e.w)
            if e.k == 'f:usub.sat' or e.k == 'f:usub' and xs[1].k == 'c': return con(max(0, n - xs[1].a[0]), e.w)
        return mk(e.k, *xs, w=e.w)
    return e

SAMPLES = [(1 << a, b) for a in range(5, 23) for b in (3, 10, 64)]
def same_value(a, b):
    """do two integer expressions over the same atoms agree?  False only if they disagree at a sample point
    (sizes are powers of two); None if one of them cannot be folded to a number"""
    if a is b: return True
    if (a, b) in _sv: return _sv[a, b]
    r = _sv[a, b] = _same(a, b)
    return r
_sv = {}
def _same(a, b):
    at = sorted(atoms_of(a) | atoms_of(b), key=repr)
    res = True
    for x, y in SAMPLES:
        vals = [x] + [y] * len(at)
        for r in range(max(1, len(at))):
            env = {k: con(vals[(n + r) % len(at)] if len(at) > 1 else x, k.w) for n, k in enumerate(at)}
            p, q = fold(a, env), fold(b, env)
            if p.k != 'c' or q.k != 'c': return None
            if p is not q and p.a[0] != q.a[0]: res = False
        if res is False: return False
    return True

class Prop:
    """default hooks"""
    def start(self, S): pass
    def enter(self, S, b, frm): pass
    def extrakey(self, S, b): return []
    def load(self, S, i, a, v): pass
    def loadval(self, S, i, a, w): return None
    def store(self, S, i, a, v, sz): pass
    def call(self, S, i, n, args, rv): pass
    def memop(self, S, i, kind, args): pass
    def default(s, S, i, conds): pass
    def branch(self, S, i, c, t): pass
    def forksel(self, S, i, c, a, b): return i.ty == 'ptr' or (a.k == 'c') or (b.k == 'c')
    def ret(self, S, i, v): pass
    def resume(self, S, i): pass
    def unreachable(self, S, i): pass
    def landing(self, S, i): pass
    def may_throw(self, i, n): return False
    def throwing(self, S, i, n, args): pass
    def escape(self, S, i, n, args): pass
    def where(self, i):
        w = self.eng.D.where(i.loc)
        for fl, ln, fn in w:
            if '/jstd/' in fl: return '%s:%d (%s)' % (fl.split('/src/')[-1] if '/src/' in fl else fl, ln, fn)
        return '%s:%d' % (w[0][0], w[0][1]) if w else '?'
