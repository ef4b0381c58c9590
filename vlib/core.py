"""Run the automaton and the contract judges over the operations of the four container variants, in parallel."""
import os, sys, time, traceback
from multiprocessing import get_context
import ir, eng, build, opspec, spec, proto, robin, geom, sweep, num, whole

KSZ = {'g15': 8, 'g16': 8, 'rd': 8, 'ri': 24}
MAXSTATES = int(os.environ.get('VERIF_MAXSTATES', '6000'))
BULKLIM = 20000

class Broken(Exception):
    """the analysis lost its subject: neither a pass nor a violation"""

def ctx(var):
    c = opspec.Ctx(var, KSZ[var], KSZ[var])
    c.size_off = 24 if var[0] == 'r' else 16; c.far_off = 40; c.slots_off = 8; c.stride = {'g15': 16, 'g16': 16, 'rd': 1, 'ri': 8}[var]; c.thr_off = {'g15': 24, 'g16': 32}.get(var, 48)
    c.owned = OWNED.get(var, ()); c.geom = GEOM.get(var, {}); c.dform = DFORM.get(var, {})
    return c
OWNED = {}   # variant -> offsets of the fields whose storage the destructor releases (learned from the analysed destructor)
GEOM = {}    # variant -> {offset: [(count, size, fields)]}: the storage a constructor allocates and the fields that describe it
DFORM = {}   # variant -> {offset: {(count, size)}}: how the destructor releases it
class Learn(opspec.OpProp):
    def dealloc(s, S, i, p, n, sz, own):
        for r in eng.roots(p):
            if r.k == 'init' and r.a[0] is eng.sym('arg', 0, w=65) and not opspec.has_j(n): s.df.setdefault(r.a[1], set()).add((n, sz))
def learn(var):
    if var in OWNED or var not in _M or 'dtor_' not in _M[var].m.funcs: return
    P = Learn(ctx(var), 'dtor_'); P.df = {}; eng.Engine(_M[var].m).run(_M[var].m.funcs['dtor_'], P)
    a0 = eng.sym('arg', 0, w=65); o = set()
    for a, mem, f, i in P.exits: o |= {r.a[1] for r in a.get('fr', ()) if r.k == 'init' and r.a[0] is a0}
    if not o: raise Broken('the destructor of %s releases no storage of the container' % build.NAMES.get(var, var))
    OWNED[var] = tuple(sorted(o)); DFORM[var] = P.df
    P = opspec.OpProp(ctx(var), 'ctor_n_'); eng.Engine(_M[var].m).run(_M[var].m.funcs['ctor_n_'], P)
    GEOM[var] = P.geo
    if not set(P.geo) >= set(P.c.owned) - {8} and not P.geo: raise Broken('the sized constructor of %s allocates no storage' % build.NAMES.get(var, var))

class Res:
    __slots__ = ('var', 'op', 'viols', 'stats', 'judge', 'err', 't', 'states', 'exits', 'sites', 'extra')
    def __init__(r, var, op): r.var, r.op = var, op; r.viols = []; r.stats = {}; r.judge = {}; r.err = None; r.t = 0; r.states = 0; r.exits = 0; r.sites = []; r.extra = None

LK = {}      # variant -> (lookup summary, sample geometries)
def learn_lookup(var, tag=None):
    tag = tag or var
    if tag in LK: return
    m, c, W = _M[tag].m, ctx(var), wid(var)
    try: LK[tag] = (proto.Lookup(m, c, W), proto.geometries(m, c))
    except (eng.AnalysisError, num.Unknown, KeyError) as e: raise Broken('the lookup of %s could not be summarised: %s' % (build.NAMES.get(var, var), e))
    if not LK[tag][1]: raise Broken('the geometry of %s could not be derived from its constructor' % build.NAMES.get(var, var))
def wid(var): return 16 if var[0] == 'g' else 1
def opcheck(var, op):
    m, c = _M[var].m, ctx(var); lk, geoms = LK[var]
    O = proto.OpCheck(m, c, op, lk, wid(var), geoms); O.lane15 = var == 'g15'; O.topbit = var == 'g16'
    return O
def run_proto(r, var, op):
    m, c = _M[var].m, ctx(var); lk, geoms = LK[var]
    O = opcheck(var, op); r.extra = {}
    if wid(var) > 1:
        if op.startswith('erase'):
            I = opcheck(var, 'insert_c_'); I.run(); O.known_free = I.free
        O.run(); r.viols = list(O.viols.values()); r.extra = O.n
        return
    O.run(False); r.viols = list(O.viols.values())
    K = robin.Cells(m, c, op, lk, geoms, c.stride); K.tail = op in TAIL; K.run()
    if op in GROWN:                     # at the threshold: the insertion goes on in a new table
        K2 = robin.Cells(m, c, op, lk, geoms[1:2], c.stride); K2.run(); K.viols = {**K.viols, **K2.viols}
        for k, x in K2.n.items(): K.n[k] += x
    r.viols += list(K.viols.values()); r.extra = {k: O.n.get(k, 0) + (K.n.get(k, 0) if k != 'paths' else 0) for k in {**O.n, **K.n}}
TAIL = ('insert_c_', 'erase_k_', 'erase_it_', 'erase_cit_', 'cfind_', 'emplace_cc_')      # also at the last home position
GROWN = ('insert_c_', 'emplace_cc_', 'try_c_')
def run_iter(r, var, op):
    m, c = _M[var].m, ctx(var); lk, geoms = LK[var]; W = wid(var); g = geoms[0]; free = ()
    if W > 1 and op == 'iter':
        I = opcheck(var, 'insert_c_'); I.run(); free = I.free
    K = proto.IterCheck(m, c, lk, W, g, proto.initial(m, c, W, g), free, op == 'citer')
    K.run(); r.viols = list(K.viols.values()); r.extra = K.n
def run_geom(r, var, op):
    m, c = _M[var].m, ctx(var); K = geom.Geom(m, c, LK[var][0], wid(var))
    K.run(op); r.viols = list(K.viols.values()); r.extra = K.n
def run_geomz(r, var, op):                 # the same for trivially copyable and destructible elements
    z = var + '.z'; K = geom.Geom(_M[z].m, ctx(var), LK[z][0], wid(var))
    K.run(op); r.viols = list(K.viols.values()); r.extra = K.n
def run_sweep(r, var, op):
    m, c = _M[var].m, ctx(var); lk, geoms = LK[var]; r.extra = {}; err = None; seen = {}
    bulk = op.startswith('copy'); m2 = _M[var + '.c'].m if bulk else m
    for g in proto.geometries(m, c, (1,))[:1] + [geoms[0]]:
        K = sweep.Sweep(m, c, lk, wid(var), g, proto.initial(m, c, wid(var), g))
        try: K.run(op, m2)
        except (eng.AnalysisError, num.Unknown) as e: err = e
        for k, v in K.viols.items(): seen.setdefault(k, v)
        for k, x in K.n.items(): r.extra[k] = r.extra.get(k, 0) + x
    r.viols = list(seen.values())
    if not r.extra.get('contents'): raise err or num.Unknown('no content was decided')
def run_limit(r, var, op):
    m, c = _M[var].m, ctx(var); lk, geoms = LK[var]; r.extra = {}
    g = geoms[0]; far = 2                   # the least limit at which a displaced element can reach it
    if not 4 <= g.get(c.far_off, 0) <= 256: raise num.Unknown('the field that bounds the distance from home')
    K = robin.Cells(m, c, op, lk, [{**g, c.far_off: far}], c.stride); K.limit = (c.far_off, far); K.run()
    r.viols = list(K.viols.values()); r.extra = K.n
def run_whole(r, var, op):
    r.extra = {}; seen = {}
    for p in PROPS:
        tag = var + '.' + p
        W = WH[tag]; W.viols = {}; W.n = dict.fromkeys(W.n, 0); W.run(op); seen.update(W.viols)
        for k, x in W.n.items(): r.extra[k] = r.extra.get(k, 0) + x
    r.viols = list(seen.values())
WH = {}
PROPS = {'w0': (False, False), 'w1': (True, True), 'w2': (True, False), 'w3': (False, True)}   # allocators propagate on assignment, on swap
def run_wcopy(r, var, op):
    W = WH[var + '.t0']; W.viols = {}; W.n = dict.fromkeys(W.n, 0); W.copy(op)
    r.extra = W.n; r.viols = list(W.viols.values())
def learn_whole(var):
    if var[0] == 'g':
        try: WH[var + '.t0'] = whole.Whole(_M[var + '.t0'].m, ctx(var), False, False)
        except (eng.AnalysisError, num.Unknown, KeyError) as e: raise Broken('the constructors of %s could not be summarised: %s' % (build.NAMES.get(var, var), e))
    for p in PROPS:
        tag = var + '.' + p
        try: WH[tag] = whole.Whole(_M[tag].m, ctx(var), *PROPS[p])
        except (eng.AnalysisError, num.Unknown, KeyError) as e: raise Broken('the constructors of %s could not be summarised: %s' % (build.NAMES.get(var, var), e))
RUN = {'wcopy': run_wcopy, 'whole': run_whole, 'limit': run_limit, 'sweep': run_sweep, 'proto': run_proto, 'iter': run_iter, 'geom': run_geom, 'geomz': run_geomz}

_M = {}   # tag -> parsed module (inherited by the forked workers)
def _run(job):
    tag, var, op, mode = job
    r = Res(var, op); t = time.time()
    m = _M[tag].m
    try:
        if mode in RUN:
            RUN[mode](r, var, op)
            r.t = time.time() - t; r.judge = {mode + '_' + k: v for k, v in r.extra.items()}
            return r
        En = eng.Engine(m); c = ctx(var)
        P = (opspec.BulkProp if mode == 'bulk' else opspec.OpProp)(c, op)
        eng.Engine.MAXSTATES = BULKLIM if mode == 'bulk' else MAXSTATES
        En.run(m.funcs[op], P)
        r.viols = list(P.viols.values()); r.stats = P.stats; r.states = P.nstates; r.exits = len(P.exits); r.sites = list(P.sites); r.extra = sorted(P.subs); r.stats['size_checks'] = P.sizechecks
        if mode == 'op' and op in spec.OPS:
            J = spec.Judge(P)
            if op in ('erase_it_', 'erase_cit_'): J.ref = deref(m, c, 'deref_' if op == 'erase_it_' else 'cderef_')
            J.run(); r.viols += list(J.viols.values()); r.judge = J.st
    except (eng.AnalysisError, num.Unknown) as e: r.err = str(e)
    except Exception: r.err = 'internal: ' + traceback.format_exc()[-600:]
    for v in r.viols: v.path = ()
    r.t = time.time() - t
    return r
def deref(m, c, op):
    P = opspec.OpProp(c, op); eng.Engine(m).run(m.funcs[op], P)
    el = {P.out(type('S', (), dict(mem=x[1])), 'elem') for x in P.exits}
    if len(el) != 1: return None
    e = el.pop()
    # an iterator of the container refers to the container: its map pointer is the operand
    for off in (0, 8):
        for w in (65, 64): e = spec.subst(e, eng.mk('init', eng.sym('arg', 1, w=65), off, 8, w=w), eng.sym('arg', 0, w=65)) if has_field(e, off, w) else e
    return e
def has_field(e, off, w):
    """the field of the iterator at this offset is used as the address of the container"""
    f = eng.mk('init', eng.sym('arg', 1, w=65), off, 8, w=w)
    def go(x):
        if isinstance(x, tuple): return any(go(y) for y in x)
        if not isinstance(x, eng.E): return False
        if x.k == 'init' and x.a[0] is f: return True
        if x.k == 'ld' and eng.base_of(x.a[0])[0] is f: return True
        return any(go(y) for y in x.a)
    return go(e)

def prepare(tags):
    """tags: list of (variant, kind) with kind in op | bulk"""
    jobs = []
    for var, kind in tags:
        if kind == 'op': jobs.append(build.Job(var, 'ops.cpp', build.VARIANTS[var]))
        elif kind in PROPS or kind == 't0':
            a, b = (('false', 'true')[x] for x in PROPS.get(kind, (0, 0)))
            jobs.append(build.Job(var + '.' + kind, 'whole.cpp', build.VARIANTS[var] + ['-DVF_STATEFUL', '-DVF_PROP=std::%s_type' % a, '-DVF_POCS=std::%s_type' % b] + ['-DVF_TRIVIAL'] * (kind == 't0'), cutrec=True))
        elif kind == 'z': jobs.append(build.Job(var + '.z', 'ops.cpp', build.VARIANTS[var] + ['-DVF_TRIVIAL']))
        else: jobs.append(build.Job(var + '.c', 'bulk.cpp', build.VARIANTS[var], cutrec=True))
    try: _M.update(build.units(jobs))
    except build.BuildError as e: raise Broken(str(e))
    for var, kind in tags:
        try: learn(var)
        except eng.AnalysisError as e: raise Broken('destructor of %s: %s' % (var, e))
def analyse(work, procs=8):
    """work: list of (tag, var, op, mode) -> list of Res"""
    work = sorted(work, key=lambda w: (w[1][0] != 'r', w[2] not in ('clear_d_',)))
    with get_context('fork').Pool(min(procs, max(1, len(work)))) as pool: return pool.map(_run, work, 1)
