"""Parser for the subset of textual LLVM IR that rustc emits for this crate.

Anything it does not know is kept as an ('unknown', text) instruction, which the executor turns into an
explicit "cannot encode" result if (and only if) a path reaches it."""
import re

TOK = re.compile(r'''
  (?P<ws>[ \t\n]+)
 |(?P<cstr>c"(?:[^"\\]|\\.)*")
 |(?P<str>"(?:[^"\\]|\\.)*")
 |(?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 |(?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 |(?P<md>!(?:[-\w.$\\]+)?)
 |(?P<attr>\#\d+)
 |(?P<fhex>0x[KLMHR]?[0-9A-Fa-f]+)
 |(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 |(?P<id>[A-Za-z_$][\w.$]*)
 |(?P<dots>\.\.\.)
 |(?P<p>[(){}\[\]<>,=*:|])
''', re.X)

class ParseError(Exception):
    pass

def tokenize(s):
    out = []; i = 0; n = len(s)
    m = TOK.match
    while i < n:
        k = m(s, i)
        if not k:
            if s[i] == ';':
                j = s.find('\n', i)
                if j < 0: break
                i = j; continue
            raise ParseError('tok: ' + s[i:i+40])
        i = k.end()
        g = k.lastgroup
        if g != 'ws':
            out.append((g, k.group()))
    return out

def unescape(s):
    b = bytearray(); i = 0
    e = s.encode('utf-8')
    while i < len(e):
        if e[i] == 0x5c:
            if e[i+1] == 0x5c: b.append(0x5c); i += 2
            else: b.append(int(e[i+1:i+3], 16)); i += 3
        else:
            b.append(e[i]); i += 1
    return bytes(b)

def name(t):
    s = t[1:]
    return s[1:-1] if s.startswith('"') else s

FLOATS = {'half': 16, 'bfloat': 16, 'float': 32, 'double': 64, 'fp128': 128}
I1 = ('i', 1)

class P:
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod
    def peek(self, k=0):
        return self.t[self.i+k] if self.i+k < len(self.t) else ('eof', '')
    def nxt(self):
        x = self.peek(); self.i += 1; return x
    def at(self, v, k=0):
        return self.peek(k)[1] == v and self.peek(k)[0] not in ('str', 'cstr')
    def eat(self, v):
        if self.at(v):
            self.i += 1; return True
        return False
    def need(self, v):
        if not self.eat(v):
            raise ParseError('want %s got %s' % (v, self.t[self.i-2:self.i+5]))
    def skip_parens(self):
        if self.at('('):
            d = 0
            while True:
                x = self.nxt()
                if x[0] == 'eof': raise ParseError('eof in parens')
                if x[0] == 'p':
                    if x[1] == '(': d += 1
                    elif x[1] == ')':
                        d -= 1
                        if d == 0: return
    def is_type(self):
        g, v = self.peek()
        if g == 'id':
            return v in FLOATS or v in ('ptr', 'void', 'label', 'metadata', 'token', 'x86_mmx', 'opaque') or bool(re.fullmatch(r'i\d+', v)) or v in ('target',)
        if g == 'loc': return True
        return g == 'p' and v in '{[<'
    def type(self):
        g, v = self.nxt()
        if g == 'id':
            if v in FLOATS: t = ('f', FLOATS[v])
            elif v == 'ptr':
                if self.at('addrspace'):
                    self.nxt(); self.need('('); k = self.nxt()[1]; self.need(')')
                    t = ('ptr',) if k == '0' else ('ptr', int(k))
                else: t = ('ptr',)
            elif v in ('void', 'label', 'metadata', 'token', 'opaque'): t = (v,)
            elif re.fullmatch(r'i\d+', v): t = ('i', int(v[1:]))
            else: raise ParseError('type ' + v)
        elif g == 'loc':
            t = ('named', name(v))
        elif v == '{':
            t = ('st', tuple(self.tlist('}')), False)
        elif v == '[':
            n = int(self.nxt()[1]); self.need('x'); e = self.type(); self.need(']')
            t = ('arr', n, e)
        elif v == '<':
            if self.eat('{'):
                l = self.tlist('}'); self.need('>'); t = ('st', tuple(l), True)
            else:
                n = int(self.nxt()[1]); self.need('x'); e = self.type(); self.need('>')
                t = ('vec', n, e)
        else:
            raise ParseError('type %s' % v)
        # function type?
        if self.at('(') and t[0] != 'label':
            # could be a function type "void (ptr, i32)" -- only in calls to varargs; treat as fn type
            j = self.i
            self.skip_parens()
            if self.peek()[0] in ('glob', 'loc'):
                return t  # "ret (args) @f": caller wants return type
            self.i = j
        return t
    def tlist(self, end):
        l = []
        if self.eat(end): return l
        while True:
            l.append(self.type())
            if self.eat(end): return l
            self.need(',')
    ATTR_PAREN = None
    def skip_attrs(self, stop_type=False):
        """parameter attributes between a type and a value"""
        a = []
        while True:
            g, v = self.peek()
            if g == 'id' and stop_type and self.is_type(): return a
            if g == 'id' and v not in ('null', 'true', 'false', 'undef', 'poison', 'zeroinitializer', 'none', 'asm',
                                       'getelementptr', 'ptrtoint', 'inttoptr', 'bitcast', 'sub', 'add', 'trunc', 'blockaddress',
                                       'dso_local_equivalent', 'no_cfi', 'splat', 'xor', 'addrspacecast', 'inrange', 'nuw', 'nsw', 'inbounds', 'ptrtoaddr'):
                self.nxt(); a.append(v)
                if v == 'align' and self.peek()[0] == 'num': self.nxt(); continue
                if self.at('('): self.skip_parens()
            elif g == 'str':
                self.nxt()
                if self.eat('='): self.nxt()
            else:
                return a
    def value(self, ty):
        g, v = self.nxt()
        if g == 'loc': return ('reg', name(v), ty)
        if g == 'glob': return ('glob', name(v), ty)
        if g == 'num':
            if ty[0] == 'f':
                return ('fp', float(v), ty)
            return ('int', int(v), ty)
        if g == 'fhex':
            return ('fphex', v, ty)
        if g == 'cstr':
            return ('cstr', unescape(v[2:-1]), ty)
        if g == 'md':
            return ('md', v, ty)
        if g == 'id':
            if v in ('true', 'false'): return ('int', int(v == 'true'), ty)
            if v == 'null': return ('null', None, ty)
            if v in ('undef', 'poison'): return (v, None, ty)
            if v in ('zeroinitializer', 'none'): return ('zero', None, ty)
            if v == 'splat':
                self.need('('); t = self.type(); e = self.value(t); self.need(')')
                return ('agg', [e] * ty[1], ty)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'nsw', 'inrange'):
                    self.nxt(); self.skip_parens() if self.at('(') and False else None
                if self.peek()[0] == 'id' and self.peek()[1] == 'inrange':
                    self.nxt(); self.skip_parens()
                self.need('(')
                bt = self.type(); self.need(',')
                ops = []
                while True:
                    t = self.type(); ops.append(self.value(t))
                    if self.eat(')'): break
                    self.need(',')
                return ('gep', (bt, ops), ty)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast', 'ptrtoaddr'):
                self.need('('); t = self.type(); e = self.value(t); self.need('to'); t2 = self.type(); self.need(')')
                return ('cast', (v, e, t2), t2)
            if v in ('sub', 'add', 'xor'):
                while self.peek()[1] in ('nuw', 'nsw'): self.nxt()
                self.need('('); t = self.type(); a = self.value(t); self.need(','); t = self.type(); b = self.value(t); self.need(')')
                return ('bin', (v, a, b), t)
            raise ParseError('value id ' + v)
        if g == 'p':
            if v == '{' or v == '[':
                return self.agg('}' if v == '{' else ']', ty)
            if v == '<':
                if self.eat('{'):
                    r = self.agg('}', ty); self.need('>'); return r
                return self.agg('>', ty)
        raise ParseError('value %s %s' % (g, v))
    def agg(self, end, ty):
        l = []
        if self.eat(end): return ('agg', l, ty)
        while True:
            t = self.type(); l.append(self.value(t))
            if self.eat(end): return ('agg', l, ty)
            self.need(',')
    def tv(self):
        t = self.type()
        self.skip_attrs()
        return self.value(t)

class Fn:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'entry', 'mod', 'attrs', 'raw', 'linkage')
    def __init__(self): self.blocks = {}

class Mod:
    def __init__(self):
        self.types = {}; self.globals = {}; self.fns = {}; self.decls = {}; self.dl = ''; self.triple = ''; self.attrs = {}
        self.aliases = {}
        self.name = ''

ORDS = ('unordered', 'monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst')
BIN = ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem')
CAST = ('trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'addrspacecast', 'ptrtoaddr')
FLAGS = ('nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'samesign', 'inbounds', 'nusw')
CCS = ('fastcc', 'ccc', 'coldcc', 'preserve_mostcc', 'tailcc', 'arm_aapcscc', 'arm_aapcs_vfpcc', 'avr_intrcc', 'win64cc', 'x86_64_sysvcc')

def parse_instr(text, mod):
    toks = tokenize(text)
    p = P(toks, mod)
    dst = None
    if p.peek()[0] == 'loc' and p.at('=', 1):
        dst = name(p.nxt()[1]); p.nxt()
    op = p.nxt()[1]
    tail = None
    if op in ('tail', 'musttail', 'notail'):
        tail = op; op = p.nxt()[1]
    def flags():
        f = set()
        while p.peek()[0] == 'id' and p.peek()[1] in FLAGS: f.add(p.nxt()[1])
        return f
    if op == 'ret':
        if p.eat('void'): return ('ret', None)
        return ('ret', p.tv())
    if op == 'br':
        if p.at('label'):
            p.nxt(); return ('br', name(p.nxt()[1]))
        c = p.tv(); p.need(','); p.need('label'); a = name(p.nxt()[1]); p.need(','); p.need('label'); b = name(p.nxt()[1])
        return ('condbr', c, a, b)
    if op == 'switch':
        v = p.tv(); p.need(','); p.need('label'); d = name(p.nxt()[1]); p.need('[')
        cases = []
        while not p.eat(']'):
            c = p.tv(); p.need(','); p.need('label'); cases.append((c, name(p.nxt()[1])))
        return ('switch', v, d, cases)
    if op == 'unreachable': return ('unreachable',)
    if op in BIN:
        f = flags(); t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
        return ('bin', dst, op, f, t, a, b)
    if op == 'fneg':
        flags(); t = p.type(); return ('fneg', dst, t, p.value(t))
    if op in ('icmp', 'fcmp'):
        f = flags(); pred = p.nxt()[1]; t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
        return (op, dst, pred, t, a, b)
    if op in CAST:
        f = flags(); v = p.tv(); p.need('to'); t = p.type()
        return ('cast', dst, op, v, t)
    if op == 'select':
        flags(); c = p.tv(); p.need(','); a = p.tv(); p.need(','); b = p.tv()
        return ('select', dst, c, a, b)
    if op == 'phi':
        flags(); t = p.type(); inc = []
        while True:
            p.need('['); v = p.value(t); p.need(','); l = name(p.nxt()[1]); p.need(']')
            inc.append((v, l))
            if not p.eat(','): break
            if p.peek()[0] == 'md': break
        return ('phi', dst, t, inc)
    if op == 'freeze': return ('freeze', dst, p.tv())
    if op == 'alloca':
        p.eat('inalloca'); t = p.type(); n = None; al = 1
        while p.eat(','):
            if p.eat('align'): al = int(p.nxt()[1])
            elif p.peek()[0] == 'md': break
            elif p.at('addrspace'): p.nxt(); p.skip_parens()
            else: n = p.tv()
        return ('alloca', dst, t, n, al)
    if op == 'load':
        at = p.eat('atomic'); vol = p.eat('volatile'); t = p.type(); p.need(','); a = p.tv()
        ss = None; o = None; al = 1
        if p.at('syncscope'): p.nxt(); p.need('('); ss = p.nxt()[1]; p.need(')')
        if p.peek()[1] in ORDS: o = p.nxt()[1]
        while p.eat(','):
            if p.eat('align'): al = int(p.nxt()[1])
            else: break
        return ('load', dst, t, a, at, vol, o, al)
    if op == 'store':
        at = p.eat('atomic'); vol = p.eat('volatile'); v = p.tv(); p.need(','); a = p.tv()
        ss = None; o = None; al = 1
        if p.at('syncscope'): p.nxt(); p.need('('); ss = p.nxt()[1]; p.need(')')
        if p.peek()[1] in ORDS: o = p.nxt()[1]
        while p.eat(','):
            if p.eat('align'): al = int(p.nxt()[1])
            else: break
        return ('store', v, a, at, vol, o, al)
    if op == 'atomicrmw':
        vol = p.eat('volatile'); rop = p.nxt()[1]
        if rop in ('elementwise',): rop = p.nxt()[1]
        a = p.tv(); p.need(','); v = p.tv(); ss = None
        if p.at('syncscope'): p.nxt(); p.need('('); ss = p.nxt()[1]; p.need(')')
        o = p.nxt()[1]
        return ('rmw', dst, rop, a, v, o, vol, ss)
    if op == 'cmpxchg':
        weak = p.eat('weak'); vol = p.eat('volatile'); a = p.tv(); p.need(','); c = p.tv(); p.need(','); n = p.tv(); ss = None
        if p.at('syncscope'): p.nxt(); p.need('('); ss = p.nxt()[1]; p.need(')')
        so = p.nxt()[1]; fo = p.nxt()[1]
        return ('cmpxchg', dst, weak, a, c, n, so, fo)
    if op == 'fence':
        ss = None
        if p.at('syncscope'): p.nxt(); p.need('('); ss = p.nxt()[1]; p.need(')')
        return ('fence', p.nxt()[1], ss)
    if op == 'getelementptr':
        flags()
        t = p.type(); p.need(','); base = p.tv(); idx = []
        while p.eat(','):
            if p.peek()[0] == 'md': break
            idx.append(p.tv())
        return ('gep', dst, t, base, idx)
    if op in ('extractvalue',):
        v = p.tv(); idx = []
        while p.eat(','):
            if p.peek()[0] == 'md': break
            idx.append(int(p.nxt()[1]))
        return ('extractvalue', dst, v, idx)
    if op == 'insertvalue':
        a = p.tv(); p.need(','); v = p.tv(); idx = []
        while p.eat(','):
            if p.peek()[0] == 'md': break
            idx.append(int(p.nxt()[1]))
        return ('insertvalue', dst, a, v, idx)
    if op == 'extractelement':
        v = p.tv(); p.need(','); i = p.tv(); return ('extractelement', dst, v, i)
    if op == 'insertelement':
        v = p.tv(); p.need(','); e = p.tv(); p.need(','); i = p.tv(); return ('insertelement', dst, v, e, i)
    if op == 'shufflevector':
        a = p.tv(); p.need(','); b = p.tv(); p.need(','); m = p.tv(); return ('shuffle', dst, a, b, m)
    if op in ('call', 'invoke'):
        flags()
        while p.peek()[1] in CCS: p.nxt()
        if p.at('cc'): p.nxt(); p.nxt()
        p.skip_attrs(True)
        if p.at('addrspace'): p.nxt(); p.skip_parens()
        rt = p.type()
        if p.at('asm'):
            p.nxt(); kw = []
            while p.peek()[0] == 'id': kw.append(p.nxt()[1])
            tmpl = unescape(p.nxt()[1][1:-1]).decode('latin1'); p.need(',')
            cons = p.nxt()[1][1:-1]
            args = call_args(p)
            rest = [x[1] for x in p.t[p.i:]]
            at = next((x for x in rest if x.startswith('#')), None)
            return ('asm', dst, rt, tmpl, cons, kw, args, at)
        g, v = p.nxt()
        if g == 'glob': callee = ('glob', name(v), ('ptr',))
        elif g == 'loc': callee = ('reg', name(v), ('ptr',))
        elif v in ('null', 'undef', 'poison'): callee = ('null', None, ('ptr',))
        else:
            p.i -= 1; callee = p.value(('ptr',))
        args = call_args(p)
        r = ('call', dst, rt, callee, args)
        if op == 'invoke':
            while not p.at('to'): p.nxt()
            p.nxt(); p.need('label'); nb = name(p.nxt()[1])
            return ('invoke', r, nb)
        return r
    return ('unknown', text)

def call_args(p):
    p.need('('); l = []
    if p.eat(')'): return l
    while True:
        t = p.type()
        a = p.skip_attrs()
        if t == ('metadata',):
            # skip metadata operand
            d = 0
            while not ((p.at(',') or p.at(')')) and d == 0):
                x = p.nxt()
                if x[1] in '([{<' and x[0] == 'p': d += 1
                elif x[1] in ')]}>' and x[0] == 'p': d -= 1
            l.append(('md', None, t))
        else:
            v = p.value(t)
            l.append(v)
        if p.eat(')'): return l
        p.need(',')

TERM = re.compile(r'^\s+(?:ret|br|switch|unreachable|invoke|resume)\b')
LABEL = re.compile(r'^(?:"((?:[^"\\]|\\.)*)"|([-\w.$]+)):')

def parse_module(text, nm=''):
    mod = Mod(); mod.name = nm
    lines = text.split('\n')
    i = 0; n = len(lines)
    while i < n:
        ln = lines[i]
        if not ln or ln[0] == ';' or ln[0] == '!':
            i += 1; continue
        if ln.startswith('target datalayout'):
            mod.dl = ln.split('"')[1]
        elif ln.startswith('target triple'):
            mod.triple = ln.split('"')[1]
        elif ln[0] == '%':
            p = P(tokenize(ln), mod)
            nmx = name(p.nxt()[1]); p.need('='); p.need('type')
            mod.types[nmx] = p.type()
        elif ln[0] == '@':
            parse_global(ln, mod)
        elif ln.startswith('attributes'):
            m = re.match(r'attributes (#\d+) = \{(.*)\}', ln)
            if m: mod.attrs[m.group(1)] = m.group(2)
        elif ln.startswith('declare'):
            m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', ln)
            a = re.search(r'(#\d+)\s*$', ln)
            mod.decls[name(m.group(0)[:-1])] = (ln, a.group(1) if a else None)
        elif ln.startswith('define'):
            j = i + 1
            while lines[j] != '}': j += 1
            parse_fn(ln, lines[i+1:j], mod)
            i = j
        i += 1
    return mod

def parse_global(ln, mod):
    m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+) = (.*)$', ln)
    nm = name('@' + m.group(1)); rest = m.group(2)
    if re.search(r'\balias\b', rest.split('{')[0].split('(')[0]):
        g = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))', rest)
        mod.aliases[nm] = name(g.group(1)) if g else None
        return
    mm = re.match(r'(.*?)\b(global|constant)\b (.*)$', rest)
    if not mm: return
    pre, kind, body = mm.groups()
    ext = bool(re.search(r'\bexternal\b|\bextern_weak\b|available_externally', pre))
    try:
        p = P(tokenize(body), mod)
        t = p.type()
        init = None
        if not ext: init = p.value(t)
        al = 1
        while p.i < len(p.t):
            if p.eat('align'):
                al = int(p.nxt()[1])
            else: p.nxt()
        mod.globals[nm] = dict(name=nm, const=kind == 'constant', type=t, init=init, ext=ext, align=al, mod=mod, tls='thread_local' in pre)
    except ParseError as e:
        mod.globals[nm] = dict(name=nm, const=kind == 'constant', type=None, init=None, ext=ext, align=1, mod=mod, err=str(e), tls=False)

def parse_fn(head, body, mod):
    f = Fn(); f.mod = mod
    m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', head)
    f.name = name(head[m.start():m.end()-1])
    f.linkage = 'internal' if re.match(r'define (internal|private)', head) else 'external'
    p = P(tokenize(head[m.end()-1:]), mod)
    pre = P(tokenize(head[:m.start()]), mod)
    pre.nxt()
    while pre.i < len(pre.t):
        if pre.is_type():
            try:
                j = pre.i; f.ret = pre.type()
                if pre.i >= len(pre.t): break
            except ParseError:
                pre.i = j + 1
        else: pre.nxt()
    p.need('('); f.params = []
    k = 0
    if not p.eat(')'):
        while True:
            if p.peek()[0] == 'dots': p.nxt(); p.need(')'); break
            t = p.type(); st = p.i; at = p.skip_attrs()
            if p.peek()[0] == 'loc': nm = name(p.nxt()[1])
            else: nm = str(k); k += 1
            f.params.append((nm, t, at))
            if p.eat(')'): break
            p.need(',')
    # unnamed params/blocks are numbered; entry label may be implicit
    f.raw = body
    cur = None
    blocks = {}
    order = []
    i = 0; n = len(body)
    while i < n:
        ln = body[i]
        if not ln.strip() or ln.lstrip().startswith(';') or ln.lstrip().startswith('#dbg'):
            i += 1; continue
        if ln[0] not in ' \t':
            m = LABEL.match(ln)
            cur = m.group(1) if m.group(1) is not None else m.group(2)
            blocks[cur] = []; order.append(cur)
            i += 1; continue
        if cur is None:
            cur = '0entry'; blocks[cur] = []; order.append(cur)
        s = ln
        if ln.lstrip().startswith('switch') and ']' not in ln:
            while ']' not in body[i]:
                i += 1; s += '\n' + body[i]
        elif ln.lstrip().startswith('invoke') or (' = invoke ' in ln):
            i += 1; s += '\n' + body[i]
        elif 'landingpad' in ln:
            while i + 1 < n and re.match(r'\s+(cleanup|catch|filter)', body[i+1]):
                i += 1
        blocks[cur].append(s)
        i += 1
    f.blocks = blocks
    f.entry = order[0] if order else None
    mod.fns[f.name] = f

_cache = {}
def instrs(fn, blk):
    """lazily parsed instructions of one block"""
    l = fn.blocks[blk]
    if l and isinstance(l[0], str):
        out = []
        for s in l:
            try:
                out.append(parse_instr(s, fn.mod))
            except (ParseError, IndexError, ValueError) as e:
                out.append(('unknown', s.strip() + '  ; ' + str(e)))
        fn.blocks[blk] = out
        l = out
    return l

if __name__ == '__main__':
    import sys
    for fnm in sys.argv[1:]:
        m = parse_module(open(fnm).read(), fnm)
        bad = 0
        for f in m.fns.values():
            for b in list(f.blocks):
                for ins in instrs(f, b):
                    if ins[0] == 'unknown':
                        print(f.name[-40:], ins[1][:300]); bad += 1
        for g in m.globals.values():
            if g.get('err'): print('G', g['name'], g['err'])
        print(fnm, len(m.fns), 'fns', len(m.globals), 'globals', bad, 'unknown')
