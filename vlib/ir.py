"""Textual LLVM IR (opaque pointers, LLVM 18) -> light object model.

Only the instruction forms clang emits for the drivers are modelled; anything unknown is kept as an
opaque instruction so that the analyses treat it conservatively."""
import re

class Inst:
    __slots__ = ("op", "dst", "ty", "ops", "aux", "loc", "text", "block", "idx")
    def __init__(s, op, dst=None, ty=None, ops=(), aux=None, loc=None, text=""):
        s.op, s.dst, s.ty, s.ops, s.aux, s.loc, s.text = op, dst, ty, list(ops), aux, loc, text
        s.block = None; s.idx = 0
    def __repr__(s): return s.text

class Block:
    __slots__ = ("name", "insts", "succs", "preds")
    def __init__(s, name): s.name, s.insts, s.succs, s.preds = name, [], [], []

class Function:
    def __init__(s, name): s.name, s.args, s.blocks, s.order, s.rty = name, [], {}, [], None; s.dbg = None

class Module:
    def __init__(s): s.types, s.funcs, s.globals, s.meta, s.decls = {}, {}, {}, {}, set(); s._sz = {}

NAME = r'(?:%(?:"[^"]*"|[-\w.$]+))'
GNAME = r'(?:@(?:"[^"]*"|[-\w.$]+))'

def split_top(s, sep=','):
    out, depth, cur, q = [], 0, [], False
    for c in s:
        if c == '"': q = not q
        if not q:
            if c in '([{<': depth += 1
            elif c in ')]}>': depth -= 1
            elif c == sep and depth == 0:
                out.append(''.join(cur).strip()); cur = []; continue
        cur.append(c)
    t = ''.join(cur).strip()
    if t: out.append(t)
    return out

def take_type(s):
    """split 'TYPE rest' -> (type, rest)"""
    s = s.strip()
    if s[0] in '[{<':
        d, q = 0, False
        for i, c in enumerate(s):
            if c == '"': q = not q
            if q: continue
            if c in '[{<(': d += 1
            elif c in ']}>)':
                d -= 1
                if d == 0: break
        return s[:i+1], s[i+1:].strip()
    m = re.match(NAME + r'|[A-Za-z]\w*', s)
    t = m.group(0); rest = s[m.end():]
    if t == 'ptr':
        m2 = re.match(r'\s+addrspace\(\d+\)', rest)
        if m2: rest = rest[m2.end():]
    return t, rest.strip()

ATTR = re.compile(r'^(?:noundef|nonnull|noalias|nocapture|readonly|readnone|writeonly|zeroext|signext|returned|immarg|inreg|nofree|nest|swiftself|'
                  r'align \d+|dereferenceable(?:_or_null)?\(\d+\)|(?:sret|byval|elementtype)\((?:[^()]|\([^()]*\))*\)|range\([^)]*\)|nofpclass\([^)]*\)|inbounds|captures\([^)]*\)|dead_on_unwind|writable|noext)\s*')
def strip_attrs(s):
    s = s.strip()
    while True:
        m = ATTR.match(s)
        if not m: return s
        s = s[m.end():]

class Parser:
    def __init__(self, text):
        self.m = Module(); self.parse(text)

    # ---- types
    def parse(self, text):
        m = self.m; cur = None; blk = None; lines = text.split('\n'); i = 0; n = len(lines)
        while i < n:
            l = lines[i]; i += 1
            if cur is None:
                if not l: continue
                c = l[0]
                if c == '%':
                    mm = re.match('(' + NAME + r') = type (.*)$', l)
                    if mm: m.types[mm.group(1)] = mm.group(2)
                elif c == '@':
                    mm = re.match('(' + GNAME + r') = (.*)$', l)
                    if mm: m.globals[mm.group(1)] = mm.group(2)
                elif c == '!':
                    mm = re.match(r'!(\d+) = (.*)$', l)
                    if mm: m.meta[int(mm.group(1))] = mm.group(2)
                elif l.startswith('declare'):
                    mm = re.search(GNAME, l)
                    if mm: m.decls.add(mm.group(0))
                elif l.startswith('define'):
                    cur = self.fn_header(l); m.funcs[cur.name] = cur; blk = None
                continue
            if l == '}':
                cur = None; continue
            if not l.strip(): continue
            if not l.startswith(' '):
                mm = re.match(r'(?:"([^"]*)"|([-\w.$]+)):', l)
                if mm:
                    nm = '%' + (('"%s"' % mm.group(1)) if mm.group(1) is not None else mm.group(2))
                    blk = Block(nm); cur.blocks[nm] = blk; cur.order.append(nm)
                continue
            s = l.strip()
            if s.startswith('switch '):
                while not s.rstrip().split(', !')[0].rstrip().endswith(']'):
                    s += ' ' + lines[i].strip(); i += 1
            elif s.startswith('invoke ') or ' = invoke ' in s:
                s += ' ' + lines[i].strip(); i += 1
            elif 'landingpad' in s:
                while i < n and lines[i].strip().startswith(('cleanup', 'catch', 'filter')):
                    s += ' ' + lines[i].strip(); i += 1
            if blk is None:
                blk = Block('%%%d' % sum(1 for a in cur.args if a[1] and a[1][1:].isdigit())); cur.blocks[blk.name] = blk; cur.order.append(blk.name)
            ins = self.inst(s)
            ins.block = blk.name; ins.idx = len(blk.insts)
            blk.insts.append(ins)
        for f in m.funcs.values(): self.finish(f)

    def fn_header(self, l):
        mm = re.search('(' + GNAME + r')\(', l)
        f = Function(mm.group(1)[1:].strip('"'))
        d = 0; j = mm.end() - 1
        for k in range(j, len(l)):
            if l[k] == '(': d += 1
            elif l[k] == ')':
                d -= 1
                if d == 0: break
        for a in split_top(l[j+1:k]):
            if a == '...': continue
            ty, rest = take_type(a)
            nm = re.search(NAME + r'$', rest)
            f.args.append((ty, nm.group(0) if nm else None, rest))
        mm = re.search(r'!dbg !(\d+)', l[k:]); f.dbg = int(mm.group(1)) if mm else None
        pre = l[:mm.start()] if mm else l
        f.header = l
        return f

    def finish(self, f):
        if not f.order: return
        # the entry label may be implicit: give it the number LLVM would
        for b in f.blocks.values():
            t = b.insts[-1] if b.insts else None
            if t is None: continue
            if t.op == 'br': b.succs = [x for x in t.aux]
            elif t.op == 'switch': b.succs = [t.aux[0]] + [x for _, x in t.aux[1]]
            elif t.op == 'invoke': b.succs = [t.aux['normal'], t.aux['unwind']]
        for b in f.blocks.values():
            for s in b.succs:
                if b.name not in f.blocks[s].preds: f.blocks[s].preds.append(b.name)

    # ---- instructions
    def operand(self, s):
        return s.strip()

    def inst(self, s):
        text = s; loc = None
        mm = re.search(r', !dbg !(\d+)', s)
        if mm: loc = int(mm.group(1))
        s = re.sub(r'(, ![\w.]+ ![\w]+)+\s*$', '', s)
        s = re.sub(r', ![A-Za-z_.]\w* !\d+', '', s)
        dst = None
        mm = re.match('(' + NAME + r') = ', s)
        if mm: dst = mm.group(1); s = s[mm.end():]
        op, _, rest = s.partition(' ')
        I = lambda **k: Inst(k.pop('op', op), dst, loc=loc, text=text, **k)
        if op in ('tail', 'musttail', 'notail'):
            op, _, rest = rest.partition(' ')
        if op == 'call' or op == 'invoke': return self.call(op, dst, rest, loc, text)
        if op == 'load':
            rest = re.sub(r'^(volatile|atomic) ', '', rest)
            ty, r = take_type(rest); parts = split_top(r.lstrip(', '))
            pty, p = take_type(parts[0])
            return I(ty=ty, ops=[p])
        if op == 'store':
            rest = re.sub(r'^(volatile|atomic) ', '', rest)
            parts = split_top(rest); ty, v = take_type(parts[0]); _, p = take_type(parts[1])
            return I(ty=ty, ops=[v, p])
        if op == 'getelementptr':
            while re.match(r'^(inbounds|nuw|nusw|inrange\([^)]*\)) ', rest): rest = rest.split(' ', 1)[1]
            parts = split_top(rest); base_ty = parts[0]
            _, p = take_type(parts[1])
            idx = [take_type(x) for x in parts[2:]]
            return I(ty=base_ty, ops=[p] + [x[1] for x in idx], aux=[x[0] for x in idx])
        if op == 'br':
            labs = re.findall(r'label (' + NAME + ')', rest)
            if len(labs) == 1: return I(ops=[], aux=labs)
            c = split_top(rest)[0]; _, c = take_type(c)
            return I(ops=[c], aux=labs)
        if op == 'switch':
            mm = re.match(r'(\w+) (\S+), label (' + NAME + r') \[(.*)\]', rest)
            cases = re.findall(r'\w+ (-?\w+), label (' + NAME + ')', mm.group(4))
            return I(ty=mm.group(1), ops=[mm.group(2).rstrip(',')], aux=(mm.group(3), cases))
        if op == 'phi':
            ty, r = take_type(rest)
            pr = []
            for p in split_top(r):
                inner = p.strip()[1:-1]; a = split_top(inner)
                pr.append((a[0], a[1]))
            return I(ty=ty, ops=[a for a, _ in pr], aux=[b for _, b in pr])
        if op == 'select':
            while re.match(r'^(fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) ', rest): rest = rest.split(' ', 1)[1]
            parts = split_top(rest); c = take_type(parts[0]); a = take_type(parts[1]); b = take_type(parts[2])
            return I(ty=a[0], ops=[c[1], a[1], b[1]], aux=c[0])
        if op in ('icmp', 'fcmp'):
            while re.match(r'^(samesign|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) ', rest): rest = rest.split(' ', 1)[1]
            pred, r = rest.split(' ', 1); ty, r = take_type(r); a, b = split_top(r)
            return I(ty=ty, ops=[a, b], aux=pred)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            flags = []
            while True:
                w = rest.split(' ', 1)[0]
                if w in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                    flags.append(w); rest = rest.split(' ', 1)[1]
                else: break
            ty, r = take_type(rest); a, b = split_top(r)
            return I(ty=ty, ops=[a, b], aux=flags)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc', 'addrspacecast'):
            rest = re.sub(r'^((nneg|nuw|nsw) )+', '', rest)
            mm = re.match(r'(.*) to (.*)$', rest); ty, v = take_type(mm.group(1))
            return I(ty=mm.group(2).strip(), ops=[v], aux=ty)
        if op == 'fneg' or op == 'freeze':
            ty, v = take_type(rest); return I(ty=ty, ops=[v])
        if op == 'alloca':
            parts = split_top(rest); return I(ty=parts[0], ops=[])
        if op == 'ret':
            if rest.strip() == 'void': return I(ops=[])
            ty, v = take_type(rest); return I(ty=ty, ops=[v])
        if op in ('unreachable',): return I(ops=[])
        if op == 'resume':
            ty, v = take_type(rest); return I(ty=ty, ops=[v])
        if op == 'landingpad': return I(ops=[], aux=rest)
        if op in ('extractvalue', 'extractelement', 'insertvalue', 'insertelement', 'shufflevector'):
            parts = split_top(rest); ops = []; tys = []
            for p in parts:
                if re.match(r'^\d+$', p): ops.append(p); tys.append('idx')
                else:
                    t, v = take_type(p); ops.append(v); tys.append(t)
            return I(ty=tys[0], ops=ops, aux=tys)
        return Inst('unknown', dst, ops=re.findall(NAME, rest), loc=loc, text=text, aux=op)

    def call(self, op, dst, rest, loc, text):
        aux = {}
        if op == 'invoke':
            mm = re.search(r'to label (' + NAME + r')\s+unwind label (' + NAME + ')', rest)
            aux['normal'], aux['unwind'] = mm.group(1), mm.group(2)
            rest = rest[:mm.start()]
        while re.match(r'^(fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|fastcc|ccc) ', rest): rest = rest.split(' ', 1)[1]
        rest = strip_attrs(rest)
        ty, r = take_type(rest)
        r = r.strip()
        if r.startswith('('):   # function type (varargs)
            d = 0
            for k, c in enumerate(r):
                if c == '(': d += 1
                elif c == ')':
                    d -= 1
                    if d == 0: break
            r = r[k+1:].strip()
        mm = re.match('(' + GNAME + '|' + NAME + r')\(', r)
        if not mm:
            return Inst('unknown', dst, ops=re.findall(NAME, rest), loc=loc, text=text, aux='call')
        callee = mm.group(1); d = 0
        for k in range(mm.end() - 1, len(r)):
            if r[k] == '(': d += 1
            elif r[k] == ')':
                d -= 1
                if d == 0: break
        args, tys = [], []
        for a in split_top(r[mm.end():k]):
            if a.startswith('metadata'): args.append('metadata'); tys.append('metadata'); continue
            t, v = take_type(a); args.append(strip_attrs(v)); tys.append(t)
        aux['callee'] = callee[1:].strip('"') if callee[0] == '@' else callee
        aux['tys'] = tys
        return Inst(op, dst, ty=ty, ops=args, aux=aux, loc=loc, text=text)

class Layout:
    def __init__(self, m): self.m = m; self.c = {}
    def size_align(self, t):
        t = t.strip()
        if t in self.c: return self.c[t]
        r = self._sa(t); self.c[t] = r; return r
    def _sa(self, t):
        if t == 'ptr': return 8, 8
        m = re.match(r'i(\d+)$', t)
        if m:
            b = (int(m.group(1)) + 7) // 8
            p = 1
            while p < b: p *= 2
            return (p, min(p, 16)) 
        if t == 'float': return 4, 4
        if t == 'double': return 8, 8
        if t == 'x86_fp80': return 16, 16
        if t[0] == '[':
            m = re.match(r'\[(\d+) x (.*)\]$', t); s, a = self.size_align(m.group(2)); return int(m.group(1)) * s, a
        if t.startswith('<{'):
            els = split_top(t[2:-2]); return sum(self.size_align(e)[0] for e in els), 1
        if t[0] == '<':
            m = re.match(r'<(\d+) x (.*)>$', t); s, a = self.size_align(m.group(2)); n = int(m.group(1)) * s; return n, n
        if t[0] == '{': return self.struct(split_top(t[1:-1]))[1:]
        if t[0] == '%': 
            d = self.m.types.get(t)
            if d is None or d == 'opaque': return 1, 1
            return self.size_align(d)
        return 8, 8
    def struct(self, els):
        off, al, offs = 0, 1, []
        for e in els:
            s, a = self.size_align(e)
            off = (off + a - 1) // a * a; offs.append(off); off += s; al = max(al, a)
        return offs, (off + al - 1) // al * al, al
    def elem(self, t):
        """resolve a type to (kind, info)"""
        t = t.strip()
        while t[0] == '%': t = self.m.types.get(t, 'i8')
        if t[0] == '[':
            m = re.match(r'\[(\d+) x (.*)\]$', t); return 'seq', m.group(2)
        if t.startswith('<{'):
            els = split_top(t[2:-2]); o = 0; offs = []
            for e in els: offs.append(o); o += self.size_align(e)[0]
            return 'struct', (els, offs)
        if t[0] == '<':
            m = re.match(r'<(\d+) x (.*)>$', t); return 'seq', m.group(2)
        if t[0] == '{':
            els = split_top(t[1:-1]); return 'struct', (els, self.struct(els)[0])
        return 'scalar', t

class Debug:
    """!DILocation -> list of (file, line, function), innermost first"""
    def __init__(self, m): self.m = m; self.c = {}
    def fields(self, k):
        if k in self.c: return self.c[k]
        t = self.m.meta.get(k, ''); d = {}
        for mm in re.finditer(r'(\w+): ("(?:[^"]*)"|!\d+|[-\w|]+)', t): d[mm.group(1)] = mm.group(2).strip('"')
        d['_'] = t; self.c[k] = d; return d
    def scope(self, k):
        while True:
            d = self.fields(k)
            if 'DISubprogram' in d['_'] or 'DIFile' in d['_'] or 'DICompileUnit' in d['_']: break
            s = d.get('scope')
            if not s or s[0] != '!': break
            k = int(s[1:])
        fn = d.get('name', '?'); fl = d.get('file', '')
        if fl.startswith('!'): fl = self.fields(int(fl[1:])).get('filename', '')
        return fl, fn
    def where(self, loc):
        out = []; n = 0
        while loc is not None and n < 40:
            d = self.fields(loc)
            sc = d.get('scope')
            fl, fn = self.scope(int(sc[1:])) if sc and sc[0] == '!' else ('', '?')
            out.append((fl, int(d.get('line', 0)), fn))
            ia = d.get('inlinedAt'); loc = int(ia[1:]) if ia and ia[0] == '!' else None
            n += 1
        return out
