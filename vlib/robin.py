"""Open addressing with one control entry per position (robin_hash_map): the invariant 'a lookup of every element
reaches its slot' is decided to be inductive.  The dataflow yields, per path class, which entries an operation reads,
under which conditions, what it writes and which elements it moves; those relations are tabulated over all small
contents of the entries read, and every content that satisfied the invariant before must satisfy it after."""
import random
import eng, num, proto, opspec
from eng import base_of
from paths import itdep
from proto import A0, GRP, SLOTS, fact, atomnum, eqdep, hashdep, deep_atoms, s_storage

VALS = (-1, 0, 1, 2, 3)
class Skip(Exception): pass

class Cells:
    CAP = 40            # contents per path class
    WORK = 400          # partial contents tried per path class
    eqs = {}
    def __init__(s, m, c, op, lk, geoms, stride):
        s.m, s.c, s.op, s.lk, s.g, s.stride = m, c, op, lk, geoms[0], stride
        s.viols = {}; s.n = dict(paths=0, contents=0, kept=0, built=0, gone=0, undecided=0, unseen=0)
        s.rnd = random.Random(99); s.tabs = {}; s.lay = proto.Layout(lk, s.g, stride); s.homes = {}
    limit = None        # (offset of the field that bounds the distances, its value before)
    def bounded(s, key, G, st, mem, at):
        """every entry written lies within the distance the table provides for"""
        lim = dict(key).get(s.limit[0])
        if not isinstance(lim, int): return
        for a, v in st.items():
            u, r = divmod(a - G, s.stride)
            if r != s.lay.dpos or mem.get(a) == v or v >= 128 or not 0 <= u < 1 << 20: continue
            s.n['limited'] = s.n.get('limited', 0) + 1
            if v >= lim: s.viol('limit', at, 'puts an entry %d positions behind its home, the table provides for less than %d' % (v, lim))
    def viol(s, rule, i, msg):
        v = opspec.Viol(rule, s.op, s.c.var, s.P.where(i), msg); s.viols.setdefault(v.key(), v)
    # ---- tables: the control array the fields designate at some moment
    def table(s, key):
        """key: tuple of (offset, value) fields -> dict(unit -> hash homed there), slot address per unit"""
        if key not in s.tabs:
            f = dict(key); field = f.get; hs = {}; r = random.Random(1)
            for n in range(1500):
                h = r.getrandbits(64); hs.setdefault(s.lk.units(field, h)[0], h)
            s.tabs[key] = (field, hs)
        return s.tabs[key]
    def describe(s, key, u, h, n): return s.lay.describe(s.table(key)[0], key, h)
    def entry(s, u, dist, hb, idx): return s.lay.entry(u, dist, hb, idx)
    def run(s):
        s.P = P = proto.trace(s.m, s.c, s.op, 1, envs=[num.Env(s.m, s.atom({}, {}, None, {}), lambda a, z: None)])
        its = list(s.iterators()) if 'erase_it' in s.op or 'erase_cit' in s.op else [({}, {})]
        for t, how, S in P.paths:
            if how not in ('ret',): continue
            s.n['paths'] += 1
            if not any(x[0] == 'S' for x in t): continue
            for s.it, cells in its:
                for h in (0x5DEECE66D1234515,) + ((s.lasthome(),) if s.tail else ()):
                    try: s.path(t, h, cells)
                    except Skip: s.n['unseen'] += 1
    tail = False        # also tabulate the entries behind the last home position
    def lasthome(s):
        hs = s.table(tuple((o, s.g[o]) for o in sorted(x for x in s.g if x != 'n')))[1]
        return hs[max(hs)]
    def atom(s, mem, occ, h, memo):
        """occ: numeric slot address -> hash of the element there"""
        g = s.g
        def at(e):
            if e.k == 'init' and e.a[0] is A0: return g.get(e.a[1])
            if e.k == 'init' and e.a[0] is proto.A1: return s.it.get(e.a[1])
            if e.k == 'call':
                if e.a[0] == 'vf_hash':
                    if h is None: return None
                    b = base_of(e.a[1])[0]
                    if b is not None and b.k in ('arg', 'alloca'): return h
                    return occ(e) if occ else None
                if e.a[0] == 'vf_eq': return s.eqs.get(e)
                return None
            if e.k == 'v' and '~' not in e.a[0]: return 8 * g['n']
            return atomnum(e)
        return at
    def iterators(s):
        """iterators to an occupied entry: fields of the iterator and the entry"""
        I = proto.IterCheck(s.m, s.c, s.lk, 1, s.g, {}, (), 'cit' in s.op); op = 'find_cit_' if I.const_ else 'find_it_'
        key = tuple((o, s.g[o]) for o in sorted(x for x in s.g if x != 'n')); field, hs = s.table(key)
        U = sorted(hs)
        for u0 in (U[9], U[0]) + ((U[-1],) if s.tail else ()):
            for d in (0, 1, 2):
                hx = hs.get(u0 - d * s.stride)
                if hx is None: continue
                for idx in (3, s.g[s.c.size_off] - 1) if s.stride > 1 else (3,):
                    e = s.entry(u0, 0, s.describe(key, u0, hs[u0], 0) or 0, idx)
                    r = I.consistent(op, I.env(e, hs[u0])); it = r and I.fields(r[1], proto.A2, I.env(e, hs[u0]))
                    if it: yield it, {u0: (d, key, hx, idx)}
    it = {}
    def path(s, t, h, cells={}):
        """enumerate the contents of the entries this path class reads"""
        s.left = s.CAP; s.work = s.WORK; s.eqs = {}
        for x in t:
            if x[0] == 'B' and eqdep(x[1]):
                cs = [y for y in deep_atoms(x[1]) if y.k == 'call' and y.a[0] == 'vf_eq']
                ok = [v for v in (0, 1) if len(cs) == 1 and fact(num.Env(s.m, lambda e: v if e is cs[0] else None, lambda a, z: None), x[1], x[2])]
                if len(ok) == 1: s.eqs[cs[0]] = ok[0]
        s.cc = {}; s.deps = {}; s.addrs = {}
        s.want = next(iter(cells), None); s.dfs(t, h, 0, dict(cells), {GRP: s.g[GRP]}, 0)
    def mkenv(s, cells, h):
        mem = {}
        for u, (d, key, hx, idx) in cells.items(): mem.update(s.entry(u, d, s.describe(key, u, hx, 0) or 0, idx))
        def occ(e):
            try: a = base(e.a[1])
            except num.Unknown: a = None
            for u, (d, key, hx, idx) in cells.items():
                if a is not None and d >= 0 and s.slotaddr(key, u, idx) == a: return hx
            return (h * 0x9E3779B97F4A7C15 + len(repr(e.a[1])) * 0xC2B2AE3D27D4EB4F) & num.M64 if a is None else (a * 0x9E3779B97F4A7C15 >> 7) & num.M64
        st = dict(mem)          # entries as the path changes them; loads are evaluated when they happen
        env = num.Env(s.m, s.atom(None, occ, h, None), proto.memf(st)); base = env
        return env, mem, st
    def homeof(s, key, h):
        k = (key, h)
        if k not in s.homes: s.homes[k] = s.lk.units(s.table(key)[0], h)[0]
        return s.homes[k]
    def slotaddr(s, key, u, idx):
        k = (key, u, idx)
        if k not in s.addrs:
            field, hs = s.table(key)
            hx = hs.get(u); r = None; j = 0
            while hx is None and s.tail and j < 4: j += 1; hx = hs.get(u - j * s.stride)      # behind the last home
            if hx is not None and j < len(s.lk.addr):
                ex = s.lk.examined(j, s.lk.env(field, hx, s.entry(u, j, s.describe(key, u, hx, 0) or 0, idx)))
                r = list(ex)[0] if ex and len(ex) == 1 else None
            s.addrs[k] = r
        return s.addrs[k]
    def key(s, env, cur):
        k = []
        for o in sorted(x for x in s.g if x != 'n'):
            try: k.append((o, env(cur[o]) if o in cur and not isinstance(cur[o], int) else s.g[o]))
            except num.Unknown: k.append((o, None))
        return tuple(k)
    def dfs(s, t, h, n, cells, cur, depth):
        """walk the events from n under the assumed entries; branch when an unknown entry is read"""
        s.work -= 1
        if s.left <= 0 or s.work < 0: return
        env, mem, st = s.mkenv(cells, h); cur = {}; seen = fresh = False
        for k, x in enumerate(t):
            if x[0] == 'F': cur[x[1]] = x[2]
            elif x[0] == 'B':
                if fact(env, x[1], x[2]) is False: return
            elif x[0] == 'L' and (hashdep(x[1]) or s.it and itdep(x[1])):
                seen = True
                try: a = env(x[1])
                except num.Unknown: continue
                try: key = s.key(env, cur); G = dict(key)[GRP]; hs = s.table(key)[1]
                except num.Unknown: continue
                u = a - (a - G) % s.stride
                if (u in hs or s.tail and 0 < u - max(hs) <= 4 * s.stride) and u not in cells and not (u - G) % s.stride and a not in st:
                    vals = list(VALS); s.rnd.shuffle(vals)
                    top = s.g[s.c.size_off] - 1; hc = proto.hashof(x[1]); hslot = None
                    if s.stride > 1 and hc is not None:
                        try: hslot = env(hc.a[1])
                        except num.Unknown: pass
                    for d in vals:
                        if s.limit and d >= s.limit[1]: continue
                        home = u - max(d, 0) * s.stride
                        hx0 = hs.get(home)
                        if hx0 is None and d >= 0: continue
                        if hx0 is None: hx0 = h
                        used = {z[3] for z in cells.values()}; opts = [3 + len(cells)]
                        if s.stride > 1 and d >= 0 and top not in used: opts = [top] + opts
                        for idx, hx in [(i, x) for i in opts for x in ((hx0, h) if d >= 0 and s.homeof(key, h) == home and hx0 != h else (hx0,))]:
                            if hslot is not None and s.slotaddr(key, u, idx) == hslot:
                                hx = env(hc)
                                if s.lk.units(dict(key).get, hx)[0] != home: continue
                            s.dfs(t, h, 0, {**cells, u: (d, key, hx, idx)}, cur, depth + 1)
                            if s.left <= 0: return
                    return
                try: env(x[2])
                except num.Unknown: pass
            elif x[0] == 'C' and x[1] in ('vf_alloc', 'vf_hash'): fresh = x[1] == 'vf_alloc'
            elif x[0] == 'C' and x[1] == 'vf_eq' and s.it:          # the elements of a table are distinct
                try: a, b = [env(y) for y in x[2][:2]]
                except num.Unknown: continue
                if x[3] in s.eqs and s.eqs[x[3]] != (a == b): return
            elif x[0] == 'S' and fresh and not hashdep(x[1]): continue       # the initialisation of a new table
            elif x[0] == 'S':
                try: a = env(x[1]); v = env.flat(env(x[2]))
                except num.Unknown:
                    if not seen: continue            # the loop that initialises a new table
                    s.n['undecided'] += 1; return
                for z in range(x[3]): st[a + z] = (v >> (8 * z)) & 255
        s.left -= 1
        s.judge(t, h, env, mem, st, cells, cur)
        if s.tail and cells: s.unread(t, h, env, mem, st, cells, cur)
    def unread(s, t, h, env, mem, st, cells, cur):
        """an entry next to a changed one that the path class never read may hold anything"""
        key = next(iter(cells.values()))[1]; hs = s.table(key)[1]; G = dict(key)[GRP]
        for u in sorted(cells):
            v = u + s.stride
            if v in cells or v in st or not any(st.get(u + k) != mem.get(u + k) for k in range(s.stride)): continue
            for d in (1, 2, 3):
                hx = hs.get(v - d * s.stride)
                if hx is None: continue
                idx = 3 + len(cells); e = s.entry(v, d, s.describe(key, v, hx, 0) or 0, idx); more = {**cells, v: (d, key, hx, idx)}
                D = s.slotaddr(key, v, idx)
                if D is None or s.lookup(key, hx, {**mem, **e}, {D: ('occ', v)}, ('occ', v)) is not True: continue
                s.n['unread'] = s.n.get('unread', 0) + 1
                s.judge(t, h, env, {**mem, **e}, {**e, **st}, more, cur)
    def lookup(s, key, h, mem, content, want):
        """does the lookup of h reach a slot holding `want`: True / False / None"""
        field = s.table(key)[0]; env = s.lk.env(field, h, mem)
        for j in range(len(s.lk.addr)):
            ex = s.lk.examined(j, env)
            if ex and any(content.get(D, 0) == want for D in ex): return True
            g = s.lk.goes_on(j, env)
            if ex is None and g is not True: return None
            if g is False: return False
            if g is None: return None
        return None
    def judge(s, t, h, env, mem, st, cells, cur):
        content = {}; hash_ = {}; home = {}
        for u, (d, key, hx, idx) in cells.items():
            D = s.slotaddr(key, u, idx)
            if D is None: s.n['undecided'] += 1; return
            content[D] = ('occ', u) if d >= 0 else None
            if d >= 0: hash_[('occ', u)] = hx
        for u, (d, key, hx, idx) in cells.items():      # the invariant holds before
            if d >= 0 and s.lookup(key, hx, mem, content, ('occ', u)) is False: return
        s.n['contents'] += 1
        hkey = None; alive = {}; last = {}; lostat = {}
        def kk(e):
            try: return env(e)
            except num.Unknown: return e
        keyed = {}
        cu = {}
        for n, x in enumerate(t):
            if x[0] == 'F': cu[x[1]] = x[2]
            if x[0] != 'C': continue
            if x[1] == 'vf_hash':
                a = kk(x[2][0]); i = content.setdefault(a, ('obj', str(a)[:60]))
                try: hash_[i] = env(x[3])
                except num.Unknown: pass
            elif x[1][:5] == 'vf_K_':
                w = x[1][5:]; a = [kk(y) for y in x[2]]
                if w == 'dtor': content[a[0]] = None; last[a[0]] = x
                elif w in ('copy', 'move', 'masn', 'casn', 'conv'):
                    src = content.setdefault(a[1], ('obj', str(a[1])[:60])) if len(a) > 1 else ('obj', 'd')
                    content[a[0]] = src; last[a[0]] = x
                elif w == 'def': content[a[0]] = ('obj', 'd'); last[a[0]] = x
        key = s.key(env, cu)
        try: field, hs = s.table(key)
        except (num.Unknown, TypeError): s.n['undecided'] += 1; return
        G = dict(key)[GRP]
        where = {}
        for D, i in content.items():
            if i is not None and isinstance(D, int): where.setdefault(i, []).append(D)
        if any(dict(k)[GRP] == G and k != key and [a for a, b in zip(k, key) if a != b and a[0] not in (s.c.size_off,)] for u, (d, k, hx, i) in cells.items()): s.n['undecided'] += 1; return
        SL = dict(key)[SLOTS]
        ev = lambda i: next((last[D][4] for D in where.get(i, ()) if D in last), None)
        if s.want is not None:
            for u in cells:
                i = ('occ', u)
                if dict(cells[u][1])[GRP] != G or cells[u][0] < 0: continue
                here = [D for D in where.get(i, ()) if D >> 32 == SL >> 32]
                s.n['gone'] += 1
                if bool(here) == (u == s.want): s.viol('erase', ev(i) or next((x[4] for x in reversed(t) if x[0] == 'C'), None), 'erase(iterator) %s' % ('leaves the element the iterator designates' if here else 'removes another element than the one the iterator designates'))
        anyst = next((x[4] for x in reversed(t) if x[0] == 'S'), None)
        if s.limit: s.bounded(key, G, st, mem, anyst); return
        for i, hx in hash_.items():
            Ds = [D for D in where.get(i, ()) if D >> 32 == SL >> 32]
            if not Ds: continue                          # no longer in this table
            if i[0] == 'occ' and dict(cells[i[1]][1])[GRP] != G and not any(x[0] == 'C' and x[1] == 'vf_hash' for x in t): continue
            r = s.lookup(key, hx, st, content, i)
            if r is None: s.n['undecided'] += 1; continue
            s.n['kept' if i[0] == 'occ' else 'built'] += 1
            if r is False:
                s.viol('lookup' if i[0] != 'occ' else 'kept', ev(i) or anyst,
                       'a lookup of %s would not reach its slot' % ('the element this operation stores' if i[0] != 'occ' else 'another element of the table'))
        for a in st:                                     # the distance stored is the distance to the home
            u = a - s.lay.dpos
            if (u - G) % s.stride or st[a] >= 128 or not 0 <= u - G < 1 << 20 or st[a] == mem.get(a): continue
            try: idx = sum(st[u + 4 + k] << (8 * k) for k in range(4)) if s.stride > 1 else 0
            except KeyError: continue
            i = content.get(s.slotaddr(key, u, idx)); hx = hash_.get(i)
            if hx is None: continue
            s.n['exact'] = s.n.get('exact', 0) + 1
            if (u - s.homeof(key, hx)) // s.stride != st[a]:
                s.viol('kept', ev(i) or anyst, 'the distance stored for an element is not its distance from home (%d instead of %d)' % (st[a], (u - s.homeof(key, hx)) // s.stride))
        for u in cells:                                  # no lookup compares a slot without an element
            if dict(cells[u][1])[GRP] != G: continue
            hx = hs.get(u)
            if hx is None: continue
            ex = s.lk.examined(0, s.lk.env(field, hx, st))
            s.n['gone'] += 1
            for D in ex or ():
                if D in content and content[D] is None:
                    s.viol('lookup', last[D][4] if D in last else anyst, 'a lookup would compare a slot that holds no element')
