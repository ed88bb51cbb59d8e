"""Parser for the subset of textual LLVM-18 IR that clang -O0 + opt(sroa,early-cse,
simplifycfg,loop-simplify) emits for librseq.  Anything outside the subset raises
Unsupported: the caller then reports the function as out of reach, never as verified."""
import re

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- types
class T:
    pass
class TInt(T):
    def __init__(s, w): s.w = w
    def __repr__(s): return 'i%d' % s.w
class TPtr(T):
    def __repr__(s): return 'ptr'
class TVoid(T):
    def __repr__(s): return 'void'
class TArr(T):
    def __init__(s, n, e): s.n, s.e = n, e
    def __repr__(s): return '[%d x %r]' % (s.n, s.e)
class TStruct(T):
    def __init__(s, fs, packed=False, name=None): s.fs, s.packed, s.name = fs, packed, name
    def __repr__(s): return s.name or '{%s}' % ','.join(map(repr, s.fs))
class TFP(T):
    def __repr__(s): return 'fp'

PTR = TPtr(); VOID = TVoid()

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-$._A-Za-z0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-$._A-Za-z0-9]+))
 | (?P<meta>!(?:[A-Za-z0-9_.]+)?)
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?|0x[0-9A-Fa-f]+)
 | (?P<id>[A-Za-z_.][-A-Za-z0-9_.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise Unsupported('tokenize: ' + s[i:i+40])
        k = m.lastgroup; out.append((k, m.group(k))); i = m.end()
        rest = s[i:].lstrip()
        if rest.startswith(';'):
            break
    return out

PARAM_ATTRS = {'noundef', 'zeroext', 'signext', 'nonnull', 'noalias', 'nocapture', 'readonly',
    'writeonly', 'readnone', 'returned', 'immarg', 'inreg', 'nofree', 'allocptr', 'allocalign',
    'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'internal', 'private', 'external', 'global',
    'constant', 'hidden', 'weak', 'linkonce_odr', 'common', 'fastcc', 'inrange', 'nest'}
PARAM_ATTRS_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'elementtype', 'range'}

class P:
    """token cursor"""
    def __init__(s, toks, mod): s.t, s.i, s.m = toks, 0, mod
    def peek(s, k=0): return s.t[s.i + k] if s.i + k < len(s.t) else (None, None)
    def next(s):
        r = s.peek(); s.i += 1; return r
    def eat(s, v):
        if s.peek()[1] == v:
            s.i += 1; return True
        return False
    def expect(s, v):
        if not s.eat(v):
            raise Unsupported('expected %r got %r' % (v, s.t[s.i:s.i+6]))
    def skip_attrs(s):
        while True:
            k, v = s.peek()
            if k == 'id' and v in PARAM_ATTRS:
                s.i += 1
            elif k == 'id' and v in PARAM_ATTRS_PAREN:
                s.i += 1
                if s.peek()[0] == 'num': s.i += 1
                elif s.eat('('):
                    d = 1
                    while d:
                        x = s.next()[1]
                        d += (x == '(') - (x == ')')
            elif k == 'attr':
                s.i += 1
            else:
                return
    def type(s):
        k, v = s.next()
        if k == 'id':
            if re.fullmatch(r'i\d+', v): return TInt(int(v[1:]))
            if v == 'ptr':
                if s.peek()[1] == 'addrspace': raise Unsupported('addrspace')
                return PTR
            if v == 'void': return VOID
            if v in ('double', 'float', 'x86_fp80'): return TFP()
            if v in ('metadata', 'label', 'opaque'): return VOID
            raise Unsupported('type ' + v)
        if v == '[':
            n = int(s.next()[1]); s.expect('x'); e = s.type(); s.expect(']'); return TArr(n, e)
        if v == '{':
            fs = []
            if not s.eat('}'):
                fs.append(s.type())
                while s.eat(','): fs.append(s.type())
                s.expect('}')
            return TStruct(fs)
        if v == '<':
            if s.eat('{'):
                fs = [s.type()]
                while s.eat(','): fs.append(s.type())
                s.expect('}'); s.expect('>'); return TStruct(fs, True)
            raise Unsupported('vector')
        if k == 'loc':
            return s.m.named(v)
        raise Unsupported('type tok %r' % (v,))
    def value(s, ty):
        """returns ('loc',name)|('glob',name)|('int',n)|('null',)|('undef',)|('zero',)|('gep',...)|..."""
        k, v = s.next()
        if k == 'loc': return ('loc', v)
        if k == 'glob': return ('glob', v)
        if k == 'num': return ('int', int(v, 0)) if '.' not in v else ('fp', v)
        if k == 'str': return ('str', v)
        if k == 'id':
            if v == 'null': return ('int', 0)
            if v in ('true', 'false'): return ('int', 1 if v == 'true' else 0)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'getelementptr':
                while s.peek()[1] in ('inbounds', 'nuw', 'nusw'): s.i += 1
                s.expect('(')
                bt = s.type(); s.expect(','); ops = []
                while True:
                    t = s.type(); s.skip_attrs(); ops.append((t, s.value(t)))
                    if not s.eat(','): break
                s.expect(')')
                return ('cgep', bt, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                s.expect('('); t = s.type(); x = s.value(t); s.expect('to'); t2 = s.type(); s.expect(')')
                return ('ccast', v, t, x, t2)
            if v in ('add', 'sub', 'mul'):
                while s.peek()[1] in ('nsw', 'nuw'): s.i += 1
                s.expect('('); t = s.type(); a = s.value(t); s.expect(','); t2 = s.type(); b = s.value(t2); s.expect(')')
                return ('cbin', v, t, a, b)
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]; els = []
            if v == '<' and s.eat('{'):
                close = '}'
            if not s.eat(close):
                while True:
                    t = s.type(); els.append((t, s.value(t)))
                    if not s.eat(','): break
                s.expect(close)
            if v == '<' and close == '}': s.expect('>')
            return ('agg', els)
        raise Unsupported('value tok %r %r' % (k, v))

class Instr:
    __slots__ = ('op', 'dst', 'a', 'text', 'line')
    def __init__(s, op, dst, a, text, line): s.op, s.dst, s.a, s.text, s.line = op, dst, a, text, line
    def __repr__(s): return s.text.strip()

class Func:
    def __init__(s, name, rt, params):
        s.name, s.rt, s.params = name, rt, params
        s.blocks = {}; s.order = []; s.internal = False; s.varargs = False
    def entry(s): return s.order[0]

def align_to(x, a): return (x + a - 1) // a * a

class Module:
    def __init__(s):
        s.types = {}; s.rawtypes = {}; s.globals = {}; s.funcs = {}; s.decls = set(); s.tls = set()
        s.meta = {}
    def named(s, n):
        if n not in s.types:
            if n not in s.rawtypes: raise Unsupported('unknown type ' + n)
            raw = s.rawtypes[n]
            st = TStruct([], name=n); s.types[n] = st
            if raw.strip() == 'opaque': return st
            t = P(tokenize(raw), s).type()
            st.fs, st.packed = t.fs, t.packed
        return s.types[n]
    # layout (x86-64)
    def size(s, t):
        if isinstance(t, TInt): return max(1, 1 << ((t.w + 7) // 8 - 1).bit_length())
        if isinstance(t, TPtr): return 8
        if isinstance(t, TArr): return t.n * s.size(t.e)
        if isinstance(t, TStruct):
            o = 0
            for f in t.fs:
                if not t.packed: o = align_to(o, s.align(f))
                o += s.size(f)
            return o if t.packed else align_to(o, s.align(t))
        if isinstance(t, TFP): return 8
        raise Unsupported('sizeof %r' % t)
    def align(s, t):
        if isinstance(t, TInt): return min(8, s.size(t))
        if isinstance(t, TPtr): return 8
        if isinstance(t, TArr): return s.align(t.e)
        if isinstance(t, TStruct): return 1 if t.packed else max([1] + [s.align(f) for f in t.fs])
        return 8
    def field(s, t, i):
        o = 0
        for k, f in enumerate(t.fs):
            if not t.packed: o = align_to(o, s.align(f))
            if k == i: return o, f
            o += s.size(f)
        raise Unsupported('field')

ICMP = {'eq', 'ne', 'ugt', 'uge', 'ult', 'ule', 'sgt', 'sge', 'slt', 'sle'}
BINOPS = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'}

def parse_call(p, m):
    while p.peek()[1] in ('tail', 'musttail', 'notail', 'fast', 'ccc', 'fastcc'): p.i += 1
    p.skip_attrs()
    rt = p.type()
    va = False
    if p.peek()[1] == '(':   # function type
        p.next()
        d = 1
        while d:
            x = p.next()[1]
            d += (x == '(') - (x == ')')
    if p.peek()[1] == 'asm':
        p.next(); flags = []
        while p.peek()[0] == 'id': flags.append(p.next()[1])
        tmpl = p.next()[1]; p.expect(','); cons = p.next()[1]
        callee = ('asm', tmpl, cons)
    else:
        callee = p.value(PTR)
    p.expect('(')
    args = []
    if not p.eat(')'):
        while True:
            t = p.type(); p.skip_attrs()
            if isinstance(t, TVoid):
                # metadata argument: skip
                while p.peek()[1] not in (',', ')'): p.next()
                args.append((t, ('undef',)))
            else:
                args.append((t, p.value(t)))
            if not p.eat(','): break
        p.expect(')')
    return rt, callee, args

def parse_instr(line, m, lineno):
    toks = tokenize(line)
    p = P(toks, m); dst = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        dst = p.next()[1]; p.next()
    k, op = p.next()
    I = lambda *a: Instr(op, dst, a, line, lineno)
    if op == 'ret':
        t = p.type()
        return I(None) if isinstance(t, TVoid) else I((t, p.value(t)))
    if op == 'br':
        if p.eat('label'): return I(None, p.next()[1], None)
        t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); a = p.next()[1]
        p.expect(','); p.expect('label'); b = p.next()[1]
        return I((t, v), a, b)
    if op == 'unreachable': return I()
    if op == 'load':
        if p.eat('volatile'): pass
        if p.eat('atomic'): pass
        p.eat('volatile')
        t = p.type(); p.expect(','); pt = p.type(); return I(t, (pt, p.value(pt)))
    if op == 'store':
        p.eat('atomic'); p.eat('volatile')
        t = p.type(); v = p.value(t); p.expect(','); pt = p.type(); return I((t, v), (pt, p.value(pt)))
    if op == 'alloca':
        t = p.type(); n = None
        if p.eat(',') and p.peek()[1] != 'align':
            nt = p.type(); n = (nt, p.value(nt))
        return I(t, n)
    if op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'): p.i += 1
        bt = p.type(); p.expect(','); ops = []
        while True:
            t = p.type(); ops.append((t, p.value(t)))
            if not p.eat(','): break
            if p.peek()[0] == 'meta': break
        return I(bt, ops)
    if op == 'icmp':
        c = p.next()[1]
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return I(c, t, a, b)
    if op in BINOPS:
        fl = []
        while p.peek()[1] in ('nsw', 'nuw', 'exact', 'disjoint'): fl.append(p.next()[1])
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return I(t, a, b, fl)
    if op in CASTS:
        while p.peek()[1] in ('nneg', 'nuw', 'nsw'): p.i += 1
        t = p.type(); v = p.value(t); p.expect('to'); t2 = p.type()
        return I(t, v, t2)
    if op == 'phi':
        t = p.type(); inc = []
        while True:
            p.expect('['); v = p.value(t); p.expect(','); b = p.next()[1]; p.expect(']'); inc.append((v, b))
            if not p.eat(','): break
            if p.peek()[0] == 'meta': break
        return I(t, inc)
    if op == 'select':
        t = p.type(); c = p.value(t); p.expect(','); t1 = p.type(); a = p.value(t1); p.expect(','); p.type(); b = p.value(t1)
        return I((t, c), t1, a, b)
    if op == 'freeze':
        t = p.type(); return I(t, p.value(t))
    if op == 'extractvalue':
        t = p.type(); v = p.value(t); p.expect(','); return I(t, v, int(p.next()[1]))
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); v2 = p.value(t2); p.expect(','); return I(t, v, (t2, v2), int(p.next()[1]))
    if op == 'switch':
        t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next()[1]; p.expect('['); cs = []
        while not p.eat(']'):
            ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label'); cs.append((cv[1], p.next()[1]))
        return I((t, v), d, cs)
    if op == 'fence': return I()
    if op in ('call', 'tail', 'musttail', 'notail'):
        if op != 'call': p.expect('call')
        rt, callee, args = parse_call(p, m)
        return Instr('call', dst, (rt, callee, args), line, lineno)
    raise Unsupported('instr: ' + line.strip())

def parse(text):
    m = Module()
    lines = text.split('\n')
    # join multi-line switch
    joined = []; i = 0
    while i < len(lines):
        l = lines[i]; ln = i + 1
        if re.match(r'\s+switch .*\[\s*$', l):
            while ']' not in lines[i].split('[', 1)[-1] if lines[i] == l else not lines[i].strip().startswith(']'):
                i += 1; l = l + ' ' + lines[i].strip()
        joined.append((ln, l)); i += 1
    for ln, l in joined:
        mm = re.match(r'(%[-$._A-Za-z0-9"]+) = type (.*)$', l)
        if mm: m.rawtypes[mm.group(1)] = mm.group(2)
    cur = None; blk = None
    bad = None
    for ln, l in joined:
        if cur is None:
            if l.startswith('define'):
                h = l[:l.rindex('{')]
                nm = re.search(r'@("[^"]*"|[-$._A-Za-z0-9]+)\(', h)
                name = nm.group(1)
                # return type: token before name
                pre = tokenize(h[:nm.start()].replace('define', '', 1))
                p = P(pre, m); p.skip_attrs()
                while p.peek()[0] == 'id' and p.peek()[1] in ('dso_local', 'internal', 'linkonce_odr', 'weak', 'hidden'): p.next()
                p.skip_attrs(); rt = p.type()
                p = P(tokenize(h[nm.end() - 1:]), m); p.expect('(')
                params = []; va = False; idx = 0
                if not p.eat(')'):
                    while True:
                        if p.eat('...'): va = True
                        else:
                            t = p.type(); p.skip_attrs()
                            if p.peek()[0] == 'loc': params.append((t, p.next()[1]))
                            else: params.append((t, '%%%d' % idx))
                            idx += 1
                        if not p.eat(','): break
                    p.expect(')')
                cur = Func(name, rt, params); cur.varargs = va
                cur.internal = ' internal ' in h
                m.funcs[name] = cur; blk = None; cur.raw = []; bad = None
            elif l.startswith('declare'):
                mm = re.search(r'@([-$._A-Za-z0-9]+)\(', l)
                if mm: m.decls.add(mm.group(1))
            elif l.startswith('@'):
                mm = re.match(r'(@(?:"[^"]*"|[-$._A-Za-z0-9]+)) = (.*)$', l)
                nm, body = mm.group(1), mm.group(2)
                tls = 'thread_local' in body
                const = bool(re.search(r'\bconstant\b', body))
                b2 = re.sub(r'^.*?\b(global|constant)\b', '', body, count=1)
                try:
                    p = P(tokenize(b2), m); t = p.type(); init = None
                    if p.peek()[0] is not None and p.peek()[1] != ',' and not re.match(r'external\b', body) and ' external ' not in (' ' + body.split('global')[0] + ' '):
                        init = p.value(t)
                except Unsupported:
                    t, init = None, None
                al = re.search(r'align (\d+)', body)
                m.globals[nm] = dict(type=t, init=init, tls=tls, const=const, align=int(al.group(1)) if al else 1,
                                     external=('external' in body.split('global')[0] if 'global' in body else False))
                if tls: m.tls.add(nm)
            continue
        if l.startswith('}'):
            cur = None; continue
        if not l.strip() or l.strip().startswith(';'): continue
        mm = re.match(r'("[^"]*"|[-$._A-Za-z0-9]+):', l)
        if mm:
            blk = '%' + mm.group(1); cur.blocks[blk] = []; cur.order.append(blk); continue
        if blk is None:
            # implicit entry label: number = count of params (unnamed) -- never referenced by br, only by phi
            n = sum(1 for t, nme in cur.params if re.fullmatch(r'%\d+', nme))
            blk = '%%%d' % n; cur.blocks[blk] = []; cur.order.append(blk)
        try:
            cur.blocks[blk].append(parse_instr(l, m, ln))
        except Unsupported as e:
            cur.blocks[blk].append(Instr('unsupported', None, (str(e),), l, ln))
    for f in m.funcs.values(): analyse(f)
    return m

def succs(f, b):
    i = f.blocks[b][-1]
    if i.op == 'br': return [x for x in i.a[1:] if x]
    if i.op == 'switch': return [i.a[1]] + [c[1] for c in i.a[2]]
    return []

def analyse(f):
    """natural loops: f.loops = {header: set(blocks)}"""
    preds = {b: [] for b in f.order}
    for b in f.order:
        for s in succs(f, b): preds[s].append(b)
    f.preds = preds
    # dominators (iterative)
    allb = set(f.order); dom = {b: set(allb) for b in f.order}; e = f.order[0]; dom[e] = {e}
    ch = True
    while ch:
        ch = False
        for b in f.order[1:]:
            ps = [dom[p] for p in preds[b]]
            n = (set.intersection(*ps) if ps else set()) | {b}
            if n != dom[b]: dom[b] = n; ch = True
    loops = {}
    for b in f.order:
        for s in succs(f, b):
            if s in dom[b]:
                body = loops.setdefault(s, {s}); st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st.extend(preds[x])
    f.loops = loops; f.dom = dom
