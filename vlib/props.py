"""Which operations, rules and extra analyses decide each property."""
import core, spec, build, opspec
from core import Broken
ALLV = ['g15', 'g16', 'rd', 'ri']
MEMBERS = ['dtor_', 'ctor_', 'ctor_n_', 'move_ctor_', 'move_asn_', 'swap_', 'fswap_']
ALLOPS = list(spec.OPS) + MEMBERS
BULK = ['copy_ctor_', 'copy_asn_', 'insert_r_', 'insert_rp_', 'ctor_r_', 'erase_r_']
BULKSKIP = {('g15', 'ctor_r_'), ('g16', 'ctor_r_')}   # state explosion; the pieces are covered by ctor_n_ and insert_r_
LOOKUPS = ['cfind_', 'count_', 'contains_', 'at_', 'cat_']
INS = list(spec.INSERTS)
RESIZE = ['rehash_', 'reserve_', 'shrink_', 'set_mlf_']
ERASE = ['erase_k_', 'erase_it_', 'erase_cit_']
CLEAR = ['clear_', 'clear_d_']
SOMEINS = ['insert_c_', 'insert_hc_', 'emplace_cc_', 'try_c_', 'index_c_', 'ioa_cc_']
SWEEP = CLEAR + ['dtor_', 'for_each_', 'for_each_m_', 'copy_ctor_', 'copy_asn_', 'insert_c_'] + RESIZE
ZV = ['g15', 'g16', 'rd']       # variants analysed with trivially copyable elements too
WHOLE = ['ctor_p_', 'move_ctor_', 'move_asn_', 'swap_', 'fswap_', 'copy_ctor_', 'copy_asn_']
PHASE = {
 'P01': dict(ops=spec.READONLY, rules={'pure', 'args', 'static', 'null', 'field', 'layout'}),
 'P02': dict(ops=[n for n in spec.INSERTS], rules={'pure', 'keep', 'args', 'dup', 'key', 'res.found'}, skipfound=True),
 'P03': dict(ops=[n for n, o in spec.OPS.items() if o.kind == 'assign'], rules={'assign', 'pure', 'key', 'dup', 'args'}),
 'P04': dict(ops=spec.INSERTS, rules={'source', 'once', 'lost', 'res.new', 'res.retry', 'rec', 'layout', 'probe', 'lookup', 'kept', 'limit'}, proto=INS, limit=INS),
 'P05': dict(ops=ALLOPS, whole=WHOLE, rules={'whole.size', 'size', 'clear', 'fresh', 'sweep'}, bulk=True, geom=CLEAR, geomz=CLEAR, sweep=CLEAR),
 'P06': dict(ops=ALLOPS, whole=WHOLE, rules={'whole.own', 'life', 'null', 'sweep'}, bulk=True, sweep=CLEAR + ['dtor_'] + RESIZE),
 'P07': dict(ops=ALLOPS, whole=WHOLE, rules={'whole.own', 'alloc', 'static'}, bulk=True),
 'P08': dict(ops=['erase_k_', 'erase_it_', 'erase_cit_'], rules={'erase', 'res.found', 'res.absent', 'pure', 'key', 'once', 'lookup', 'kept', 'reuse', 'probe'}, proto=ERASE, iter=['iter']),
 'P09': dict(ops=['find_', 'cfind_', 'count_', 'contains_', 'at_', 'cat_'], rules={'res.found', 'res.absent', 'key', 'probe'}, proto=LOOKUPS),
 'P10': dict(ops=['reserve_', 'rehash_', 'shrink_', 'set_mlf_'] + [n for n in spec.INSERTS], rules={'capacity', 'pairing', 'lookup', 'kept', 'probe', 'room', 'inside', 'fresh', 'sweep', 'limit'}, proto=RESIZE + SOMEINS, limit=SOMEINS, geom=RESIZE + SOMEINS, sweep=RESIZE + ['insert_c_']),
 'P11': dict(ops=[], rules={'probe', 'lookup', 'kept', 'reuse', 'limit'}, limit=SOMEINS, proto=LOOKUPS + INS + ERASE + RESIZE),
 'P12': dict(ops=[], rules={'iter', 'sweep'}, iter=['iter', 'citer'], sweep=['for_each_', 'for_each_m_']),
 'P13': dict(ops=[], whole=WHOLE, rules={'whole.geom', 'room', 'inside', 'fresh', 'limit'}, limit=INS, geom=['ctor_n_'] + RESIZE + CLEAR + INS + ERASE, geomz=['ctor_n_'] + CLEAR),
 'P14': dict(ops=[], rules={'sweep', 'whole.own', 'whole.copy'}, sweep=SWEEP, whole=WHOLE),
 'P15': dict(ops=[], rules={'whole.size', 'whole.own', 'whole.geom', 'whole.policy', 'whole.copy'}, whole=WHOLE),
}
ASSUME = ['the key, mapped, hash, equality and allocator types behave as their requirements say (hash and equality do not modify their arguments; destructors and move constructors do not throw)',
          'operands of an operation do not alias each other', 'a found element never sits at the one-past-the-last position',
          'clang 18 and the opt passes preserve the semantics of the source', 'addresses merged at a join or read back through overwritten memory are undecided and never reported']

def vd(v): return dict(rule=v.rule, var=v.var, op=v.op, where=v.where, msg=v.msg)
def decide(pid, tier):
    if pid in PHASE: return phase(pid, tier, **PHASE[pid])
    raise Broken('unknown property ' + pid)

def phase(pid, tier, ops, rules, bulk=False, skipfound=False, proto=(), iter=(), geom=(), sweep=(), limit=(), whole=(), geomz=()):
    tags = [(v, 'op') for v in ALLV] + ([(v, 'bulk') for v in ALLV] if bulk or set(sweep) & set(BULK) else [])
    if whole: tags += [(v, w) for v in ALLV for w in (*core.PROPS, 't0') if w != 't0' or v[0] == 'g']
    if geomz: tags += [(v, 'z') for v in ZV]
    core.prepare(tags)
    work = []; missing = []
    for v in ALLV:
        if proto or iter or geom or sweep or limit: core.learn_lookup(v)
        work += [(v, v, op, 'proto') for op in proto] + [(v, v, op, 'iter') for op in iter] + [(v, v, op, 'geom') for op in geom] + [(v, v, op, 'sweep') for op in sweep]
        if whole: core.learn_whole(v)
        if whole and v[0] == 'g': work += [(v, v, op, 'wcopy') for op in ('copy_ctor_', 'copy_asn_')]
        if geomz and v in ZV:
            core.learn_lookup(v, v + '.z'); work += [(v, v, op, 'geomz') for op in geomz]
        work += [(v, v, op, 'whole') for op in whole]
        missing += [v + '/' + op for op in whole if op not in core._M[v + '.w0'].m.funcs]
        if v[0] == 'r': work += [(v, v, op, 'limit') for op in limit]
        missing += [v + '/' + op for op in list(proto) + list(geom) + list(sweep) if op not in core._M[v + ('.c' if op in BULK else '')].m.funcs]
        for op in ops:
            if op in core._M[v].m.funcs: work.append((v, v, op, 'op'))
            else: missing.append(v + '/' + op)
        if bulk:
            for op in BULK:
                if (v, op) in BULKSKIP: continue
                if op in core._M[v + '.c'].m.funcs: work.append((v + '.c', v, op, 'bulk'))
                else: missing.append(v + '/' + op)
            work += [(v + '.c', v, f, 'op') for f in core._M[v + '.c'].m.funcs if 'unique_insert' in f]
    if missing: raise Broken('operations not found in the compiled driver: ' + ', '.join(missing[:10]))
    R = core.analyse(work)
    return summarize(pid, R, rules)

def summarize(pid, R, rules):
    failed = [r for r in R if r.err]
    done = [r for r in R if not r.err]
    if len(failed) > len(R) // 3: raise Broken('the analysis did not finish on %d of %d operations, e.g. %s' % (len(failed), len(R), failed[0].err))
    viols = [vd(v) for r in done for v in r.viols if v.rule in rules]
    st = {k: sum(r.stats.get(k, 0) for r in done) for k in ('events', 'stores', 'loads', 'calls', 'exits')}
    jd = {}
    for r in done:
        for k, x in r.judge.items(): jd[k] = jd.get(k, 0) + x
    ops = [r for r in done if r.stats]; tab = [r for r in done if not r.stats]
    if ops and not st['calls']: raise Broken('no call was analysed')
    for v in sorted({r.var for r in tab}):
        n = {}
        for r in tab:
            if r.var == v:
                for k, x in r.judge.items(): n[k] = n.get(k, 0) + x
        need = [k for k in ('iter_positions', 'iter_steps', 'iter_begins', 'iter_derefs') if 'iter_steps' in n] + (['proto_visits'] if 'proto_visits' in n else [])
        need += [k for k in ('geom_fields', 'geom_positions') if 'geom_states' in n] + (['geom_fresh'] if any(r.var == v and r.op in ('ctor_n_', 'clear_') and 'geom_states' in r.judge for r in tab) else [])
        if any(r.var == v and r.op in INS and 'proto_visits' in r.judge for r in tab): need += ['proto_built']
        need += ['sweep_contents'] if 'sweep_paths' in n else []
        need += ['whole_fields'] if 'whole_paths' in n else []
        need += ['geomz_fields', 'geomz_positions', 'geomz_fresh'] if 'geomz_states' in n else []
        need += ['limit_limited'] if 'limit_paths' in n else []
        for k in need:
            if not n.get(k): raise Broken('nothing was decided for %s: %s' % (build.NAMES.get(v, v), k))
    sites = sorted({x for r in done for x in ((r.var,) + s for s in r.sites)}, key=str)
    cov = dict(explanation=
               'Path-sensitive dataflow (property simulation with join-time merging) over the normalised LLVM IR of every public operation, instantiated for opaque key, mapped, hash, equality and allocator types; the rules named below are judged at every element event, store, allocation and exit of every path class.' * bool(ops) +
               (' The probe protocol is decided by extracting, per path class, the closed expressions for probed position, compared slot, written control bytes and iterator fields, and tabulating them over sample geometries, hash values and small control-byte contents (counts proto_* and iter_* below; undecided ones are quiet).' if tab else ''),
               rules=sorted(rules), containers={v: build.NAMES[v] for v in sorted({r.var for r in R})}, operations=len(done),
               operation_names=sorted({r.op for r in done}), path_states=sum(r.states for r in done), exit_classes=sum(r.exits for r in done),
               element_events=st['events'], stores=st['stores'], loads=st['loads'], calls=st['calls'], element_event_sites=len(sites), exits_by_outcome=jd,
               not_analysed=[dict(container=r.var, operation=r.op, why=r.err[:200]) for r in failed], slowest_s=round(max([r.t for r in R] or [0]), 2))
    return viols, cov, ASSUME, 'other'
