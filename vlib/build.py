"""Compile the analysis drivers from the current tree and normalise the IR.

Nothing is executed: clang's front end (no optimisation) followed by a fixed list of opt passes that only
normalise (inlining, SSA construction, value numbering, branch simplification)."""
import os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
import ir

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
DRV = os.path.join(VERIF, 'vlib', 'drv')

class BuildError(Exception): pass

# effect annotations of the opaque functions of the drivers (their declarations, not code of the library)
DECL = {
 'vf_hash': 'declare noundef i64 @vf_hash(ptr nocapture noundef readonly) nounwind willreturn memory(argmem: read)',
 'vf_eq': 'declare noundef zeroext i1 @vf_eq(ptr nocapture noundef readonly, ptr nocapture noundef readonly) nounwind willreturn memory(argmem: read)',
 'vf_alloc': 'declare noalias noundef nonnull align 16 ptr @vf_alloc(i64 noundef, i64 noundef) NW memory(inaccessiblemem: readwrite)',
 'vf_dealloc': 'declare void @vf_dealloc(ptr nocapture noundef, i64 noundef, i64 noundef) nounwind memory(argmem: readwrite, inaccessiblemem: readwrite)',
 'vf_use': 'declare void @vf_use(ptr nocapture noundef readonly) nounwind memory(argmem: read, inaccessiblemem: readwrite)',
}
NOTHROW = ('_dtor', '_move', '_masn')

def prep(t, throwing, cutrec=False):
    t = re.sub(r'\b(noinline|optnone|inlinehint)\b ?', '', t)
    out = []
    for l in t.split('\n'):
        if l.startswith('declare'):
            m = re.search(r'@(vf_\w+)\(', l)
            if m:
                n = m.group(1)
                if n in DECL: 
                    l = DECL[n].replace('NW', '' if throwing else 'nounwind')
                    if throwing and n in ('vf_hash', 'vf_eq'): l = l.replace('nounwind willreturn ', '').replace('argmem: read', 'argmem: read, inaccessiblemem: readwrite')
                elif n.startswith(('vf_K_', 'vf_T_')):
                    nargs = l.count('ptr')
                    nx = 'nounwind' if (not throwing or n.endswith(NOTHROW)) else ''
                    l = 'declare void @%s(%s) %s memory(argmem: readwrite, inaccessiblemem: readwrite)' % (n, ', '.join(['ptr nocapture noundef'] * nargs), nx)
        elif l.startswith('define') and ('linkonce' in l or 'internal' in l):
            if '@_GLOBAL__sub' not in l and '@__cxx_global' not in l:
                l = re.sub(r'\s#(\d+)', r' alwaysinline #\1', l, count=1)
        out.append(l)
    return unrecurse('\n'.join(out), cutrec)

def unrecurse(t, cutrec=False):
    """Cut every call-graph cycle: the closing call goes to a declaration NAME__rec, so that the body can be
    inlined once and the remaining call is summarised by the property (assume/guarantee)."""
    lines = t.split('\n'); fn = None; calls = {}; where = {}
    for n, l in enumerate(lines):
        if l.startswith('define'):
            fn = re.search(r'@("[^"]*"|[-\w.$]+)\(', l).group(1); calls[fn] = []
        elif l.startswith('}'): fn = None
        elif fn and (' call ' in l or ' invoke ' in l or l.lstrip().startswith(('call ', 'invoke ', 'tail call'))):
            m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
            if m: calls[fn].append((m.group(1), n))
    color = {}; cut = []
    for root in calls:
        if root in color: continue
        st = [(root, iter(calls[root]))]; color[root] = 1
        while st:
            f, it = st[-1]
            for g, n in it:
                if g not in calls: continue
                c = color.get(g)
                if c is None: color[g] = 1; st.append((g, iter(calls[g]))); break
                if c == 1: cut.append((g, n))
            else:
                color[f] = 2; st.pop()
    if cutrec:
        # keep every recursive function out of line: its callers see one call, and it is analysed on its own
        R = {g for g, _ in cut}
        for n, l in enumerate(lines):
            if l.startswith('define'):
                g = re.search(r'@("[^"]*"|[-\w.$]+)\(', l).group(1)
                if g in R: lines[n] = l.replace(' alwaysinline ', ' noinline ', 1).replace('linkonce_odr ', '', 1).replace('internal ', '', 1)
        return '\n'.join(lines)
    extra = set()
    for g, n in cut:
        l = lines[n]
        g2 = g[:-1] + '__rec"' if g.startswith('"') else g + '__rec'
        lines[n] = l.replace('@' + g + '(', '@' + g2 + '(', 1); extra.add((g, g2))
    hdr = {}
    for l in lines:
        if l.startswith('define'):
            m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
            if m and any(m.group(1) == g for g, _ in extra): hdr[m.group(1)] = l
    for g, g2 in sorted(extra):
        h = hdr[g]; j = h.index('@' + g + '('); k = j + len(g) + 1; d = 0
        for x in range(k, len(h)):
            d += h[x] == '('; d -= h[x] == ')'
            if d == 0: break
        args = re.sub(r' %[-\w.$]+(?=[,)]|$)', '', h[k:x+1])
        pre = re.sub(r'\b(linkonce_odr|internal|dso_local|available_externally|linkonce|weak_odr|hidden)\b ?', '', h[len('define'):j])
        lines.append('declare%s@%s%s' % (pre if pre.startswith(' ') else ' ' + pre, g2, args))
    return '\n'.join(lines)

IC = 'instcombine<no-verify-fixpoint>'
PASSES = ('always-inline,globalopt,globaldce,function(lower-expect,sroa,early-cse<memssa>,%s,simplifycfg,sroa,jump-threading,gvn,%s,'
          'simplifycfg,jump-threading,early-cse<memssa>,gvn,dse,%s,adce,simplifycfg),globaldce') % (IC, IC, IC)

VARIANTS = {
 'g15': ['-DVF_G15'], 'g16': ['-DVF_G16'], 'rd': ['-DVF_RD'], 'ri': ['-DVF_RI', '-DVF_KSZ=24', '-DVF_TSZ=24'],
}
NAMES = {'g15': 'group15_flat_map', 'g16': 'group16_flat_map', 'rd': 'robin_hash_map (direct layout)', 'ri': 'robin_hash_map (indirect layout)'}
FLAGS = ['-std=c++17', '-DNDEBUG', '-march=x86-64-v3', '-mtune=generic', '-fPIC', '-w']

def run(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **k)
    return r

class Unit:
    def __init__(self, name, text):
        p = ir.Parser(text); self.name = name; self.m = p.m; self.D = ir.Debug(p.m); self.text = text

def compile_ir(src, flags, throwing=False, passes=PASSES, tag='u', raw=False, cutrec=False):
    tmp = tempfile.mkdtemp(prefix='vfb')
    try:
        ll = os.path.join(tmp, 'a.ll')
        r = run(['clang++'] + FLAGS + ['-O1', '-Xclang', '-disable-llvm-passes', '-g1', '-I' + REPO + '/src', '-I' + DRV, '-S', '-emit-llvm', src, '-o', ll] + flags)
        if r.returncode: raise BuildError('clang failed on %s %s:\n%s' % (os.path.basename(src), ' '.join(flags), r.stderr[:4000]))
        t = prep(open(ll).read(), throwing, cutrec)
        if raw: return Unit(tag, t)
        ll2 = os.path.join(tmp, 'b.ll'); open(ll2, 'w').write(t)
        r = run(['opt', '-S', '-passes=' + passes, ll2, '-o', '-'])
        if r.returncode: raise BuildError('opt failed on %s %s:\n%s' % (os.path.basename(src), ' '.join(flags), r.stderr[:2000]))
        if os.environ.get('VERIF_KEEP'): open(os.path.join(os.environ['VERIF_KEEP'], tag + '.ll'), 'w').write(r.stdout)
        return Unit(tag, r.stdout)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

class Job:
    def __init__(j, tag, src, flags=(), throwing=False, cutrec=False, passes=PASSES, raw=False):
        j.tag, j.src, j.flags, j.throwing, j.cutrec, j.passes, j.raw = tag, src, list(flags), throwing, cutrec, passes, raw
def units(jobs):
    with ThreadPoolExecutor(8) as ex:
        fs = {j.tag: ex.submit(compile_ir, os.path.join(DRV, j.src), j.flags, j.throwing, j.passes, j.tag, j.raw, j.cutrec) for j in jobs}
        return {t: f.result() for t, f in fs.items()}

def variants(src='ops.cpp', which=None, extra=(), throwing=False, cutrec=False, suffix=''):
    return units([Job(v + suffix, src, VARIANTS[v] + list(extra), throwing, cutrec) for v in (which or VARIANTS)])

if __name__ == '__main__':
    os.environ['VERIF_KEEP'] = sys.argv[1]
    js = []
    for v in VARIANTS:
        js.append(Job(v, 'ops.cpp', VARIANTS[v]))
        js.append(Job(v + '.c', 'bulk.cpp', VARIANTS[v], cutrec=True))
        js.append(Job(v + '.t', 'ops.cpp', VARIANTS[v] + ['-DVF_THROW'], throwing=True))
    u = units([j for j in js if not sys.argv[2:] or j.tag in sys.argv[2:]])
    for k, v in u.items(): print(k, len(v.m.funcs))
