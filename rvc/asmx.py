"""x86-64 inline assembly -> LLVM IR, mechanically and on every run.

Each `callbr asm` (asm goto) clang emits for the per-CPU operations of /repo's headers is replaced
by a call to a generated LLVM function with one alloca per register, one basic block per
instruction and a call to a kernel model (@__rvc_point) before every instruction, at which the
kernel may divert control to the abort handler of the announced descriptor.  Nothing is
dropped: an instruction, directive or operand form which is not understood raises Unsupported."""
import re
from .llir import Unsupported

class Prog: pass

REG64 = ['rax', 'rbx', 'rcx', 'rdx', 'rsi', 'rdi', 'rbp', 'rsp'] + ['r%d' % i for i in range(8, 16)]
REGS = {}
for r in REG64[:8]:
    b = r[1:]
    REGS[r] = (r, 64, 0); REGS['e' + b] = (r, 32, 0); REGS[b] = (r, 16, 0)
    REGS[(b[0] + 'l') if b[1] == 'x' else b + 'l'] = (r, 8, 0)
for r in REG64[8:]:
    REGS[r] = (r, 64, 0); REGS[r + 'd'] = (r, 32, 0); REGS[r + 'w'] = (r, 16, 0); REGS[r + 'b'] = (r, 8, 0)

CC = {'e': 'ZF', 'z': 'ZF', 'ne': '!ZF', 'nz': '!ZF', 'b': 'CF', 'c': 'CF', 'nae': 'CF', 'ae': '!CF', 'nb': '!CF', 'nc': '!CF',
      's': 'SF', 'ns': '!SF', 'o': 'OF', 'no': '!OF', 'l': 'SF^OF', 'nge': 'SF^OF', 'ge': '!SF^OF', 'nl': '!SF^OF',
      'le': 'ZF|(SF^OF)', 'ng': 'ZF|(SF^OF)', 'g': '!ZF|(SF^OF)', 'nle': '!ZF|(SF^OF)',
      'be': 'ZF|CF', 'na': 'ZF|CF', 'a': '!ZF|CF', 'nbe': '!ZF|CF'}
SUF = {'b': 8, 'w': 16, 'l': 32, 'q': 64}

def unesc(t):
    return re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), t)

def statements(t):
    for line in t.split('\n'):
        line = line.split('#')[0] if False else line
        for s in line.split(';'):
            s = s.strip()
            while True:
                m = re.match(r'^([\w.$]+|\$\{\w+:\w+\})\s*:(?!\w)\s*', s)
                if not m: break
                yield ('label', m.group(1)); s = s[m.end():]
            if s: yield ('stmt', s)

def parse_template(text):
    """-> Prog: secs {name: {exec, items}}, labels [(name, sec, pos)] in textual order"""
    P = Prog(); P.secs = {}; P.labels = []; P.stmts = []
    def sec(n, ex):
        if n not in P.secs: P.secs[n] = {'exec': ex, 'items': []}
        return n
    cur = sec('.text', True); stack = []
    for ti, (k, s) in enumerate(statements(text)):
        it = P.secs[cur]['items']
        if k == 'label':
            P.labels.append((s, cur, len(it), ti)); it.append(('label', len(P.labels) - 1, ti)); continue
        m = re.match(r'^\.(\w+)\s*(.*)$', s)
        if m:
            d, rest = m.groups()
            if d == 'pushsection':
                a = [x.strip() for x in rest.split(',')]
                stack.append(cur); cur = sec(a[0], len(a) > 1 and 'x' in a[1])
            elif d == 'popsection':
                if not stack: raise Unsupported('popsection')
                cur = stack.pop()
            elif d in ('balign', 'align', 'p2align'):
                n = int(rest.split(',')[0], 0); it.append(('align', n if d != 'p2align' else 1 << n, ti))
            elif d in ('byte', 'short', 'word', '2byte', 'long', 'int', '4byte', 'quad', '8byte'):
                n = {'byte': 1, 'short': 2, 'word': 2, '2byte': 2, 'long': 4, 'int': 4, '4byte': 4, 'quad': 8, '8byte': 8}[d]
                for e in rest.split(','): it.append(('data', n, e.strip(), ti))
            else: raise Unsupported('asm directive .' + d)
            continue
        it.append(('ins', s, ti))
    if stack: raise Unsupported('unbalanced sections')
    return P

def resolve_label(P, name, ti):
    m = re.match(r'^(\d+)([fb])$', name)
    if m:
        c = [i for i, l in enumerate(P.labels) if l[0] == m.group(1)]
        if m.group(2) == 'f': c = [i for i in c if P.labels[i][3] > ti]; return c[0] if c else None
        c = [i for i in c if P.labels[i][3] <= ti]; return c[-1] if c else None
    c = [i for i, l in enumerate(P.labels) if l[0] == name]
    return c[0] if c else None

def num(e):
    try: return int(e, 0)
    except ValueError: return None

def expr(P, e, ti):
    """value of a data expression: ('int', n) | ('lab', i) | ('diff', i, j) | ('c', operand) | None"""
    e = e.strip()
    while e.startswith('(') and e.endswith(')') and balanced(e[1:-1]): e = e[1:-1].strip()
    n = num(e)
    if n is not None: return ('int', n)
    m = re.match(r'^\$\{(\d+):l\}$', e)
    if m: return ('c', int(m.group(1)))
    d = 0
    for i in range(len(e) - 1, 0, -1):
        ch = e[i]
        if ch == ')': d += 1
        elif ch == '(': d -= 1
        elif ch == '-' and d == 0:
            a, b = expr(P, e[:i], ti), expr(P, e[i + 1:], ti)
            if a and b and a[0] == b[0] == 'lab': return ('diff', a[1], b[1])
            if a and b and a[0] == b[0] == 'int': return ('int', a[1] - b[1])
            return None
    l = resolve_label(P, e, ti)
    return ('lab', l) if l is not None else None

def balanced(t):
    d = 0
    for c in t:
        d += c == '('; d -= c == ')'
        if d < 0: return False
    return d == 0

class Descr: pass

def descriptor(P, lab):
    """decode the data which follows label `lab` as struct rseq_cs; -> Descr with problems listed"""
    name, sec, pos, ti = P.labels[lab]
    items = P.secs[sec]['items']; D = Descr(); D.bad = []; D.start = D.post = D.abort = None
    # alignment: the closest non-label item before it must be an alignment of at least 32
    i = pos - 1
    while i >= 0 and items[i][0] == 'label': i -= 1
    if i < 0 or items[i][0] != 'align' or items[i][1] % 32: D.bad.append('descriptor is not aligned on 32 bytes')
    vals = {}; off = 0
    for it in items[pos:]:
        if it[0] == 'label': continue
        if it[0] != 'data': break
        vals[off] = (it[1], expr(P, it[2], it[3])); off += it[1]
        if off >= 32: break
    def fld(o, n):
        v = vals.get(o)
        if v is None: return None
        if v[0] == n: return v[1]
        return None
    def f64(o):
        v = fld(o, 8)
        if v: return v
        a, b = fld(o, 4), fld(o + 4, 4)
        if a and b and a[0] == b[0] == 'int': return ('int', a[1] | b[1] << 32)
        return None
    if fld(0, 4) != ('int', 0): D.bad.append('descriptor version is not 0')
    if fld(4, 4) != ('int', 0): D.bad.append('descriptor flags are not 0')
    s, o, a = f64(8), f64(16), f64(24)
    if not s or s[0] != 'lab': D.bad.append('start_ip is not a code label')
    else: D.start = P.labels[s[1]][1:3]
    if not o or o[0] != 'diff' or P.labels[o[1]][1] != P.labels[o[2]][1]: D.bad.append('post_commit_offset is not a distance within one section')
    elif D.start:
        if P.labels[o[2]][1:3] != D.start and norm(P, P.labels[o[2]][1:3]) != norm(P, D.start): D.bad.append('post_commit_offset is not relative to start_ip')
        D.post = P.labels[o[1]][1:3]
        if D.post[0] != D.start[0] or norm(P, D.post)[1] <= norm(P, D.start)[1]: D.bad.append('empty or negative range')
    if not a or a[0] != 'lab': D.bad.append('abort_ip is not a code label')
    else:
        D.abort = a[1]
        asec, apos = P.labels[a[1]][1:3]
        if not P.secs[asec]['exec']: D.bad.append('abort_ip is not in an executable section')
        if D.start and D.post and asec == D.start[0] and norm(P, D.start)[1] <= norm(P, (asec, apos))[1] < norm(P, D.post)[1]:
            D.bad.append('abort_ip lies inside the range')
        D.sig = signature(P, asec, apos)
    return D

def norm(P, loc):
    """skip labels: position of the next instruction/data item"""
    sec, pos = loc; items = P.secs[sec]['items']
    while pos < len(items) and items[pos][0] == 'label': pos += 1
    return (sec, pos)

def signature(P, sec, pos):
    items = P.secs[sec]['items']; b = b''; i = pos - 1
    while i >= 0 and len(b) < 4:
        it = items[i]
        if it[0] == 'data':
            v = expr(P, it[2], it[3])
            if not v or v[0] != 'int': return None
            b = (v[1] & ((1 << 8 * it[1]) - 1)).to_bytes(it[1], 'little') + b
        elif it[0] == 'ins': return None
        elif it[0] == 'align': return None
        i -= 1
    return int.from_bytes(b[-4:], 'little') if len(b) >= 4 else None

class Gen:
    """LLVM IR text of one asm goto"""
    def __init__(s, k, tmpl, cons, args):
        s.k = k; s.P = parse_template(unesc(tmpl)); s.ops = args; s.out = []; s.n = 0; s.notes = []
        cs = [c for c in cons.split(',')]
        s.clob = {c[2:-1] for c in cs if c.startswith('~{')}
        ins = [c for c in cs if not c.startswith('~{')]
        s.kinds = []
        for c in ins:
            if c.startswith('!'): s.kinds.append('label')
            elif c.startswith('='): raise Unsupported('asm goto with outputs')
            elif c.startswith('*'): s.kinds.append('mem')
            else:
                c = c.lstrip('&%')
                m = re.match(r'^\{(\w+)\}$', c)
                if m: raise Unsupported('fixed register operand')
                if re.match(r'^\d+$', c): raise Unsupported('tied operand')
                s.kinds.append('reg')
        s.labels_ops = [i for i, x in enumerate(s.kinds) if x == 'label']
        if len(s.kinds) - len(s.labels_ops) != len(args): raise Unsupported('asm operand count')
        s.used_regs = set(); s.points = []
    def t(s):
        s.n += 1; return '%%t%d' % s.n
    def e(s, x): s.out.append('  ' + x)
    # ---- operands
    def operand(s, o):
        o = o.strip()
        m = re.match(r'^\$(\d+)$', o) or re.match(r'^\$\{(\d+)(?::(\w))?\}$', o)
        if m:
            i = int(m.group(1)); mod = m.group(2) if m.lastindex and m.lastindex > 1 else None
            if s.kinds[i] == 'label':
                if mod != 'l': raise Unsupported('label operand'); 
                return ('clabel', s.labels_ops.index(i))
            if s.kinds[i] == 'mem': return ('mem', ('op', i), None, 1, 0, None)
            w = {None: s.ops[i][1], 'k': 32, 'q': 64, 'w': 16, 'b': 8}.get(mod)
            if w is None: raise Unsupported('operand modifier ' + str(mod))
            return ('reg', ('op', i), w)
        if o.startswith('$$'):
            n = num(o[2:])
            if n is None: raise Unsupported('immediate ' + o)
            return ('imm', n)
        if o.startswith('%') and not o.startswith('%fs:') and not o.startswith('%gs:'):
            r = REGS.get(o[1:])
            if r is None: raise Unsupported('register ' + o)
            return ('reg', ('phys', r[0]), r[1])
        seg = None
        if o.startswith('%fs:'): seg = 'fs'; o = o[4:]
        elif o.startswith('%gs:'): raise Unsupported('gs segment')
        m = re.match(r'^([^()]*)\((.*)\)$', o)
        if not m: raise Unsupported('asm operand ' + o)
        disp, inner = m.groups(); disp = disp.strip()
        parts = [x.strip() for x in inner.split(',')]
        if parts[0] == '%rip':
            l = resolve_label(s.P, disp, s.ti)
            if l is None: raise Unsupported('rip-relative ' + disp)
            return ('rip', l)
        d = 0
        if disp:
            d = num(disp)
            if d is None: raise Unsupported('displacement ' + disp)
        def rg(x):
            r = s.operand(x)
            if r[0] == 'mem' or r[0] != 'reg' : raise Unsupported('address register ' + x)
            if r[2] != 64: raise Unsupported('address register width')
            return r[1]
        base = rg(parts[0]) if parts[0] else None
        idx = rg(parts[1]) if len(parts) > 1 and parts[1] else None
        sc = int(parts[2]) if len(parts) > 2 else 1
        return ('mem', base, idx, sc, d, seg)
    def slot(s, r):
        if r[0] == 'op': return '%%op%d' % r[1]
        s.used_regs.add(r[1]); return '%%%s' % r[1]
    def rd_reg(s, r):
        if r[0] == 'op' and s.kinds[r[1]] == 'mem':
            return '%%a%d' % r[1]
        v = s.t(); s.e('%s = load i64, ptr %s' % (v, s.slot(r))); return v
    def addr(s, o):
        _, base, idx, sc, d, seg = o
        v = None
        if base is not None: v = s.rd_reg(base)
        if idx is not None:
            x = s.rd_reg(idx)
            if sc != 1: y = s.t(); s.e('%s = mul i64 %s, %d' % (y, x, sc)); x = y
            if v is None: v = x
            else: y = s.t(); s.e('%s = add i64 %s, %s' % (y, v, x)); v = y
        if d: y = s.t(); s.e('%s = add i64 %s, %d' % (y, v, d)) if v else s.e('%s = add i64 0, %d' % (y, d)); v = y
        if seg: y = s.t(); s.e('%s = call i64 @__rvc_tp()' % y); z = s.t(); s.e('%s = add i64 %s, %s' % (z, y, v)); v = z
        return v
    def read(s, o, w):
        if o[0] == 'imm': return str(signed(o[1], w))
        if o[0] == 'rip': raise Unsupported('load of label data')
        if o[0] == 'reg':
            v = s.rd_reg(o[1])
            if w == 64: return v
            y = s.t(); s.e('%s = trunc i64 %s to i%d' % (y, v, w)); return y
        a = s.addr(o); p = s.t(); s.e('%s = inttoptr i64 %s to ptr' % (p, a)); v = s.t()
        s.e('%s = load i%d, ptr %s, align 1' % (v, w, p)); return v
    def write(s, o, w, v):
        if o[0] == 'reg':
            if o[1][0] == 'op': s.modified.add(o[1][1])
            else: s.written.add(o[1][1])
            if w == 64: s.e('store i64 %s, ptr %s' % (v, s.slot(o[1]))); return
            y = s.t(); s.e('%s = zext i%d %s to i64' % (y, w, v))
            if w < 32:
                old = s.rd_reg(o[1]); m = s.t(); s.e('%s = and i64 %s, %d' % (m, old, signed(~((1 << w) - 1), 64)))
                z = s.t(); s.e('%s = or i64 %s, %s' % (z, m, y)); y = z
            s.e('store i64 %s, ptr %s' % (y, s.slot(o[1]))); return
        if o[0] != 'mem': raise Unsupported('asm destination')
        a = s.addr(o); p = s.t(); s.e('%s = inttoptr i64 %s to ptr' % (p, a))
        s.e('store i%d %s, ptr %s, align 1' % (w, v, p)); s.memwrite = True
    def width(s, suf, *os):
        if suf: return SUF[suf]
        for o in os:
            if o[0] == 'reg': return o[2]
        raise Unsupported('operand size')
    def flag(s, f, v): s.e('store i1 %s, ptr %%%s' % (v, f))
    def getcc(s, cc):
        neg = cc.startswith('!'); cc = cc[1:] if neg else cc
        def ld(f): v = s.t(); s.e('%s = load i1, ptr %%%s' % (v, f)); return v
        def b(op, x, y): v = s.t(); s.e('%s = %s i1 %s, %s' % (v, op, x, y)); return v
        if cc in ('ZF', 'CF', 'SF', 'OF'): v = ld(cc)
        elif cc == 'SF^OF': v = b('xor', ld('SF'), ld('OF'))
        elif cc == 'ZF|CF': v = b('or', ld('ZF'), ld('CF'))
        else: v = b('or', ld('ZF'), b('xor', ld('SF'), ld('OF')))
        return b('xor', v, 'true') if neg else v
    def szf(s, w, r, a=None, b='0'):
        z = s.t(); s.e('%s = icmp eq i%d %s, %s' % (z, w, r if a is None else a, b)); s.flag('ZF', z)
        n = s.t(); s.e('%s = icmp slt i%d %s, 0' % (n, w, r)); s.flag('SF', n)
    def alu(s, op, w, a, b, carry=True):
        """a op b with flags; returns result"""
        r = s.t()
        if op in ('and', 'or', 'xor'):
            s.e('%s = %s i%d %s, %s' % (r, op, w, a, b)); s.szf(w, r, a if op == 'and' and a == b else None); s.flag('CF', 'false'); s.flag('OF', 'false'); return r
        s.e('%s = %s i%d %s, %s' % (r, op, w, a, b)); s.szf(w, r, *((a, b) if op == 'sub' else ()))
        if carry:
            c = s.t(); s.e('%s = icmp ult i%d %s, %s' % (c, w, a, b) if op == 'sub' else '%s = icmp ult i%d %s, %s' % (c, w, r, a)); s.flag('CF', c)
        x = s.t(); y = s.t(); z = s.t(); o = s.t()
        s.e('%s = xor i%d %s, %s' % (x, w, a, b)); s.e('%s = xor i%d %s, %s' % (y, w, a, r))
        if op == 'add': x2 = s.t(); s.e('%s = xor i%d %s, -1' % (x2, w, x)); x = x2
        s.e('%s = and i%d %s, %s' % (z, w, x, y)); s.e('%s = icmp slt i%d %s, 0' % (o, w, z)); s.flag('OF', o)
        return r
    # ---- instructions
    def ins(s, text, nxt):
        """emit IR for one instruction; ends with a terminator"""
        m = re.match(r'^([a-z][\w.]*)\s*(.*)$', text)
        if not m: raise Unsupported('asm ' + text)
        op, rest = m.groups(); ops = []; d = 0; cur = ''
        for ch in rest:
            if ch == ',' and d == 0: ops.append(cur); cur = ''; continue
            d += ch in '({'; d -= ch in ')}'; cur += ch
        if cur.strip(): ops.append(cur)
        br = lambda l: s.e('br label %%%s' % l)
        if op in ('nop', 'pause', 'endbr64'): return br(nxt)
        if op == 'jmp': return br(s.target(ops[0]))
        if op[0] == 'j' and op[1:] in CC:
            c = s.getcc(CC[op[1:]]); return s.e('br i1 %s, label %%%s, label %%%s' % (c, s.target(ops[0]), nxt))
        base, suf = op, None
        names = ('mov', 'add', 'sub', 'and', 'or', 'xor', 'cmp', 'test', 'inc', 'dec', 'neg', 'not', 'lea', 'shl', 'sal', 'shr', 'xchg')
        if op == 'movabsq': base, suf = 'mov', 'q'
        elif op not in names and op[:-1] in names and op[-1] in SUF: base, suf = op[:-1], op[-1]
        mz = re.match(r'^mov([zs])([bw])([wlq])$', op)
        O = [s.operand(x) for x in ops]
        if mz or op in ('movslq',):
            w1, w2 = (SUF[mz.group(2)], SUF[mz.group(3)]) if mz else (32, 64)
            v = s.read(O[0], w1); y = s.t()
            s.e('%s = %s i%d %s to i%d' % (y, 'zext' if mz and mz.group(1) == 'z' else 'sext', w1, v, w2)); s.write(O[1], w2, y); return br(nxt)
        mc = re.match(r'^cmov(\w+?)([lq]?)$', op)
        if mc and (mc.group(1) in CC):
            w = s.width(mc.group(2) or None, O[1]); c = s.getcc(CC[mc.group(1)]); a = s.read(O[0], w); b = s.read(O[1], w)
            y = s.t(); s.e('%s = select i1 %s, i%d %s, i%d %s' % (y, c, w, a, w, b)); s.write(O[1], w, y); return br(nxt)
        if base == 'lea':
            if O[0][0] == 'rip':
                v = s.t(); s.e('%s = call i64 @__rvc_label(i32 %d, i32 %d)' % (v, s.k, O[0][1]))
            else: v = s.addr(O[0])
            if s.width(suf, O[1]) != 64: raise Unsupported('lea width')
            s.write(O[1], 64, v); return br(nxt)
        if base == 'mov':
            w = s.width(suf, *O); s.write(O[1], w, s.read(O[0], w)); return br(nxt)
        if base == 'xchg':
            if any(o[0] == 'mem' for o in O): raise Unsupported('xchg with memory')
            w = s.width(suf, *O); a = s.read(O[0], w); b = s.read(O[1], w); s.write(O[0], w, b); s.write(O[1], w, a); return br(nxt)
        if base in ('add', 'sub', 'and', 'or', 'xor'):
            w = s.width(suf, *O)
            if base == 'xor' and O[0][0] == 'reg' and O[0] == O[1]: a = b = '0'; r = s.alu('xor', w, '0', '0')
            else: b = s.read(O[0], w); a = s.read(O[1], w); r = s.alu(base, w, a, b)
            s.write(O[1], w, r); return br(nxt)
        if base == 'cmp':
            w = s.width(suf, *O); b = s.read(O[0], w); a = s.read(O[1], w); s.alu('sub', w, a, b); return br(nxt)
        if base == 'test':
            w = s.width(suf, *O); b = s.read(O[0], w); a = b if O[0] == O[1] else s.read(O[1], w); s.alu('and', w, a, b); return br(nxt)
        if base in ('inc', 'dec'):
            w = s.width(suf, O[0]); a = s.read(O[0], w); r = s.alu('add' if base == 'inc' else 'sub', w, a, '1', carry=False); s.write(O[0], w, r); return br(nxt)
        if base in ('neg', 'not'):
            w = s.width(suf, O[0]); a = s.read(O[0], w)
            if base == 'neg': r = s.alu('sub', w, '0', a)
            else: r = s.t(); s.e('%s = xor i%d %s, -1' % (r, w, a))
            s.write(O[0], w, r); return br(nxt)
        raise Unsupported('asm instruction ' + text)
    def target(s, o):
        o = o.strip()
        m = re.match(r'^\$\{(\d+):l\}$', o)
        if m:
            i = int(m.group(1))
            if s.kinds[i] != 'label': raise Unsupported('jump to ' + o)
            return 'exit%d' % (s.labels_ops.index(i) + 1)
        l = resolve_label(s.P, o, s.ti)
        if l is None: raise Unsupported('jump to ' + o)
        sec, pos = P_loc(s.P, l)
        return s.bname(sec, pos)
    def bname(s, sec, pos):
        items = s.P.secs[sec]['items']
        while pos < len(items) and items[pos][0] in ('label',): pos += 1
        if pos >= len(items): return 'exit0' if sec == '.text' else 'falloff'
        if items[pos][0] != 'ins': return 'falloff'
        return 'b_%s_%d' % (re.sub(r'\W', '_', sec), pos)
    def gen(s):
        P = s.P; s.modified = set(); s.written = set(); s.memwrite = False
        body = []
        ds = [descriptor(P, i) for i, l in enumerate(P.labels) if not P.secs[l[1]]['exec']]
        ab = {D.abort for D in ds}
        exlabels = [i for i, l in enumerate(P.labels) if P.secs[l[1]]['exec'] and i in ab]
        for sec, S in P.secs.items():
            if not S['exec']: continue
            for pos, it in enumerate(S['items']):
                if it[0] != 'ins': continue
                s.ti = it[2]; s.out = []
                bn = s.bname(sec, pos)
                s.points.append((sec, pos, it[1])); pid = len(s.points) - 1
                p = s.t(); s.e('%s = call i32 @__rvc_point(i32 %d, i32 %d)' % (p, s.k, pid))
                if not any(D.start and D.post and D.start[0] == sec and norm(P, D.start)[1] <= pos < norm(P, D.post)[1] for D in ds): s.e('br label %%%s_x' % bn)
                else: s.e('switch i32 %s, label %%%s_x [%s]' % (p, bn, ' '.join('i32 %d, label %%%s' % (i + 1, s.bname(*P_loc(P, i))) for i in exlabels)))
                s.out.append(bn + '_x:')
                s.ins(it[1], s.bname(sec, pos + 1))
                body += ['%s:' % bn] + s.out
        params = ', '.join('i%d %%a%d' % (w, i) if ty != 'ptr' else 'i64 %%a%d' % i for i, (ty, w, _) in enumerate(s.ops))
        head = ['define i32 @__asm_%d(%s) {' % (s.k, params), 'entry:']
        for i, (ty, w, _) in enumerate(s.ops):
            if s.kinds[i] == 'mem': continue
            head.append('  %%op%d = alloca i64' % i)
        for r in sorted(s.used_regs | s.written): head.append('  %%%s = alloca i64' % r)
        for f in ('ZF', 'CF', 'SF', 'OF'): head.append('  %%%s = alloca i1' % f)
        for r in sorted(s.used_regs | s.written): head += ['  %%u_%s = call i64 @__rvc_undef()' % r, '  store i64 %%u_%s, ptr %%%s' % (r, r)]
        for i, (ty, w, _) in enumerate(s.ops):
            if s.kinds[i] == 'mem': continue
            if w == 64: head.append('  store i64 %%a%d, ptr %%op%d' % (i, i))
            else: head += ['  %%x%d = call i64 @__rvc_reg%d(i%d %%a%d)' % (i, w, w, i), '  store i64 %%x%d, ptr %%op%d' % (i, i)]
        first = s.bname('.text', 0)
        head.append('  br label %%%s' % first)
        tail = []
        for i in range(len(s.labels_ops) + 1): tail += ['exit%d:' % i, '  ret i32 %d' % i]
        tail += ['falloff:', '  call void @__rvc_falloff()', '  unreachable', '}']
        return '\n'.join(head + body + tail)

def P_loc(P, l): return P.labels[l][1], P.labels[l][2]
def signed(n, w):
    n &= (1 << w) - 1
    return n - (1 << w) if n >> (w - 1) else n

DECLS = '''
declare i32 @__rvc_point(i32, i32)
declare i64 @__rvc_tp()
declare i64 @__rvc_label(i32, i32)
declare i64 @__rvc_undef()
declare i64 @__rvc_reg32(i32)
declare i64 @__rvc_reg16(i16)
declare i64 @__rvc_reg8(i8)
declare void @__rvc_falloff()
'''

def split_top(t):
    out = []; d = 0; cur = ''; q = False
    for c in t:
        if c == '"': q = not q
        if not q:
            d += c in '([{'; d -= c in ')]}'
            if c == ',' and d == 0: out.append(cur.strip()); cur = ''; continue
        cur += c
    if cur.strip(): out.append(cur.strip())
    return out

def rewrite(text):
    """replace every callbr in LLVM IR text; -> (text, {k: Gen})"""
    gens = {}; out = []; lines = text.split('\n'); i = 0
    while i < len(lines):
        L = lines[i]
        if 'callbr' in L and re.match(r'^\s*(%\S+ = )?callbr ', L):
            if not L.strip().startswith('callbr void asm'): raise Unsupported('callbr: ' + L.strip()[:60])
            while ']' not in lines[i + 1].split('to label')[-1]: L += lines[i + 1]; i += 1
            L += lines[i + 1]; i += 1
            m = re.match(r'^\s*callbr void asm (?:sideeffect )?(?:alignstack )?(?:inteldialect )?"(.*?)", "(.*?)"\((.*)\)(?: #\d+)?\s+to label (%\S+) \[(.*?)\]', L)
            if not m: raise Unsupported('callbr: ' + L.strip()[-200:])
            tmpl, cons, args, ft, labs = m.groups()
            ops = []
            for a in split_top(args):
                ty = a.split()[0]; v = a.split()[-1]
                if 'elementtype' in a: ops.append(('mem', 64, v))
                elif ty == 'ptr': ops.append(('ptr', 64, v))
                else: ops.append((ty, int(ty[1:]), v))
            labs = [x.strip().split()[-1] for x in labs.split(',')] if labs.strip() else []
            k = len(gens); g = Gen(k, tmpl, cons, [(t, w, v) for t, w, v in ops]); g.text = g.gen()
            gens[k] = g
            for j, (t, w, v) in enumerate(ops):
                if t in ('mem', 'ptr'): out.append('  %%rvc.p%d.%d = ptrtoint ptr %s to i64' % (k, j, v))
            al = ', '.join('i64 %%rvc.p%d.%d' % (k, j) if t in ('mem', 'ptr') else '%s %s' % (t, v) for j, (t, w, v) in enumerate(ops))
            out.append('  %%rvc.r%d = call i32 @__asm_%d(%s)' % (k, k, al))
            out.append('  switch i32 %%rvc.r%d, label %s [%s]' % (k, ft, ' '.join('i32 %d, label %s' % (j + 1, l) for j, l in enumerate(labs))))
        else: out.append(L)
        i += 1
    return '\n'.join(out) + DECLS + '\n'.join(g.text for g in gens.values()) + '\n', gens
