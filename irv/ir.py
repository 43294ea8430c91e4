"""Parser for LLVM 18 textual IR (the subset clang emits for this code base).

Only structure is kept: types, globals, functions, blocks, instructions.
Function bodies are parsed on demand.
"""
import re

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ()

class IntTy(Ty):
    __slots__ = ('w',)
    def __init__(self, w): self.w = w
    def __repr__(self): return 'i%d' % self.w

class FloatTy(Ty):
    __slots__ = ('w', 'name')
    def __init__(self, w, name): self.w = w; self.name = name
    def __repr__(self): return self.name

class PtrTy(Ty):
    __slots__ = ()
    w = 64
    def __repr__(self): return 'ptr'

class VoidTy(Ty):
    __slots__ = ()
    def __repr__(self): return 'void'

class LabelTy(Ty):
    __slots__ = ()
    def __repr__(self): return 'label'

class MetaTy(Ty):
    __slots__ = ()
    def __repr__(self): return 'metadata'

class ArrTy(Ty):
    __slots__ = ('n', 'el')
    def __init__(self, n, el): self.n = n; self.el = el
    def __repr__(self): return '[%d x %r]' % (self.n, self.el)

class VecTy(Ty):
    __slots__ = ('n', 'el')
    def __init__(self, n, el): self.n = n; self.el = el
    def __repr__(self): return '<%d x %r>' % (self.n, self.el)

class StructTy(Ty):
    __slots__ = ('els', 'packed', 'name')
    def __init__(self, els, packed=False, name=None):
        self.els = els; self.packed = packed; self.name = name
    def __repr__(self): return self.name or ('{%s}' % ', '.join(map(repr, self.els)))

class FnTy(Ty):
    __slots__ = ('ret', 'args', 'va')
    def __init__(self, ret, args, va): self.ret = ret; self.args = args; self.va = va

_ints = {}
def I(w):
    t = _ints.get(w)
    if t is None:
        t = _ints[w] = IntTy(w)
    return t
PTR = PtrTy(); VOID = VoidTy(); LABEL = LabelTy(); META = MetaTy()
FLOAT = FloatTy(32, 'float'); DOUBLE = FloatTy(64, 'double'); HALF = FloatTy(16, 'half')
FP80 = FloatTy(80, 'x86_fp80'); FP128 = FloatTy(128, 'fp128')

def align_up(x, a): return (x + a - 1) // a * a

def sizeof(t):
    """allocation size in bytes"""
    if isinstance(t, IntTy):
        n = (t.w + 7) // 8
        p = 1
        while p < n: p *= 2
        return p if p <= 16 else align_up(n, 16)
    if isinstance(t, FloatTy):
        return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t.w]
    if isinstance(t, PtrTy): return 8
    if isinstance(t, ArrTy): return t.n * sizeof(t.el)
    if isinstance(t, VecTy): return align_up(t.n * bitwidth(t.el) // 8, alignof(t))
    if isinstance(t, StructTy):
        off = 0
        for e in t.els:
            if not t.packed: off = align_up(off, alignof(e))
            off += sizeof(e)
        return off if t.packed else align_up(off, alignof(t))
    raise IRError('sizeof %r' % t)

def storesize(t):
    if isinstance(t, IntTy): return (t.w + 7) // 8
    if isinstance(t, FloatTy) and t.w == 80: return 10
    return sizeof(t)

def bitwidth(t):
    if isinstance(t, (IntTy, FloatTy)): return t.w
    if isinstance(t, PtrTy): return 64
    return sizeof(t) * 8

def alignof(t):
    if isinstance(t, IntTy):
        s = sizeof(t)
        return min(s, 16)
    if isinstance(t, FloatTy): return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t.w]
    if isinstance(t, PtrTy): return 8
    if isinstance(t, ArrTy): return alignof(t.el)
    if isinstance(t, VecTy):
        n = t.n * bitwidth(t.el) // 8
        p = 1
        while p < n: p *= 2
        return p
    if isinstance(t, StructTy):
        if t.packed: return 1
        return max([alignof(e) for e in t.els], default=1)
    raise IRError('alignof %r' % t)

def struct_offset(t, i):
    off = 0
    for k, e in enumerate(t.els):
        if not t.packed: off = align_up(off, alignof(e))
        if k == i: return off
        off += sizeof(e)
    raise IRError('struct index')

# ---------------------------------------------------------------- tokens
TOK = re.compile(r'''
   (?P<ws>\s+|;[^\n]*)
 | (?P<str>c?"(?:[^"\\]|\\[0-9a-fA-F]{2}|\\\\)*")
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9\\]+)?)
 | (?P<attr>\#[0-9]+)
 | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<num>-?[0-9]+(?:\.[0-9]+(?:[eE][+-]?[0-9]+)?)?(?![a-zA-Z_0-9]))
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 | (?P<dots>\.\.\.)
 | (?P<sym>[()\[\]{}<>,=*:|])
''', re.X)

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        k = m(s, pos)
        if not k:
            raise IRError('tokenize at %r' % s[pos:pos+60])
        kind = k.lastgroup
        if kind != 'ws':
            out.append((kind, k.group()))
        pos = k.end()
    return out

class Toks:
    __slots__ = ('t', 'i', 'mod')
    def __init__(self, t, mod): self.t = t; self.i = 0; self.mod = mod
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def eof(self): return self.i >= len(self.t)
    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False
    def expect(self, v):
        if not self.accept(v):
            raise IRError('expected %r got %r near %r' % (v, self.peek(), self.t[max(0, self.i-6):self.i+6]))

# ---------------------------------------------------------------- values
# Operand representations (tuples):
#  ('c', ty, int)         integer constant (also float bit patterns)
#  ('null',)  ('undef', ty) ('zero', ty)
#  ('l', name)  ('g', name)
#  ('agg', ty, [ (ty,op)... ])  ('str', bytes)
#  ('ce', opname, ...)  constant expressions
#  ('ba', fn, label)
PARAM_ATTR_PAREN = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'byref',
                    'inalloca', 'preallocated', 'elementtype', 'nofpclass', 'range', 'memory', 'allocsize', 'alignstack', 'captures', 'initializes'}
PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone',
               'writeonly', 'returned', 'immarg', 'nofree', 'nest', 'swiftself', 'swifterror', 'swiftasync', 'writable',
               'dead_on_unwind', 'allocptr', 'allocalign', 'noinline', 'nounwind', 'willreturn'}

class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'x')
    def __init__(self, op, res, ty, a, x=None, line=''):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.x = x; self.line = line
    def __repr__(self): return self.line.strip()

class Block:
    __slots__ = ('name', 'phis', 'ins', 'term')
    def __init__(self, name):
        self.name = name; self.phis = []; self.ins = []; self.term = None

class Func:
    def __init__(self, mod, name, ret, params, va, attrs, header):
        self.mod = mod; self.name = name; self.ret = ret; self.params = params
        self.va = va; self.lines = None; self.blocks = None; self.entry = None
        self.header = header; self.is_decl = False
        self._ipdom = None
        self._loops = None

    def body(self):
        if self.blocks is None:
            self.mod.parse_body(self)
        return self.blocks

    def succs(self, b):
        t = b.term
        if t.op == 'br': return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
        if t.op == 'switch': return [t.a[1]] + [l for _, l in t.a[2]]
        if t.op == 'indirectbr': return list(t.a[1])
        if t.op == 'invoke': return [t.x['normal'], t.x['unwind']]
        return []

    def ipdom(self):
        """immediate post-dominators; None = virtual exit"""
        if self._ipdom is not None: return self._ipdom
        bl = self.body()
        names = list(bl)
        EXIT = None
        succ = {}
        for n in names:
            s = []
            for x in self.succs(bl[n]):
                if x not in s: s.append(x)
            succ[n] = s if s else [EXIT]
        pred = {n: [] for n in names}; pred[EXIT] = []
        for n in names:
            for s in succ[n]: pred[s].append(n)
        # reverse graph postorder from EXIT
        order = []; seen = set()
        def dfs(root):
            st = [(root, iter(pred[root]))]
            seen.add(root)
            while st:
                n, it = st[-1]
                for m in it:
                    if m not in seen:
                        seen.add(m); st.append((m, iter(pred[m]))); break
                else:
                    order.append(n); st.pop()
        dfs(EXIT)
        # blocks that never reach exit (infinite loops): attach to EXIT
        for n in names:
            if n not in seen:
                succ[n] = succ[n] + [EXIT]; pred[EXIT].append(n)
        order.clear(); seen.clear(); dfs(EXIT)
        rpo = list(reversed(order))
        idx = {n: i for i, n in enumerate(rpo)}
        idom = {EXIT: EXIT}
        def inter(a, b):
            while a != b:
                while idx[a] > idx[b]: a = idom[a]
                while idx[b] > idx[a]: b = idom[b]
            return a
        ch = True
        while ch:
            ch = False
            for n in rpo:
                if n is EXIT: continue
                new = 'undef'
                for s in succ[n]:
                    if s in idom:
                        new = s if new == 'undef' else inter(new, s)
                if new != 'undef' and idom.get(n, 'x') != new:
                    idom[n] = new; ch = True
        self._ipdom = idom
        return idom

    def loops(self):
        """header -> set(blocks) natural loops (via dominators)."""
        if self._loops is not None: return self._loops
        bl = self.body()
        succ = {n: list(dict.fromkeys(self.succs(bl[n]))) for n in bl}
        pred = {n: [] for n in bl}
        for n in bl:
            for s in succ[n]: pred[s].append(n)
        order = []; seen = {self.entry}
        st = [(self.entry, iter(succ[self.entry]))]
        while st:
            n, it = st[-1]
            for m in it:
                if m not in seen:
                    seen.add(m); st.append((m, iter(succ[m]))); break
            else:
                order.append(n); st.pop()
        rpo = list(reversed(order)); idx = {n: i for i, n in enumerate(rpo)}
        idom = {self.entry: self.entry}
        def inter(a, b):
            while a != b:
                while idx[a] > idx[b]: a = idom[a]
                while idx[b] > idx[a]: b = idom[b]
            return a
        ch = True
        while ch:
            ch = False
            for n in rpo[1:]:
                new = None
                for p in pred[n]:
                    if p in idom: new = p if new is None else inter(new, p)
                if new is not None and idom.get(n) != new: idom[n] = new; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == self.entry: return False
                b = idom[b]
        L = {}
        for n in rpo:
            for s in succ[n]:
                if s in idx and dom(s, n):
                    body = L.setdefault(s, {s})
                    w = [n]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x); w += [p for p in pred[x] if p in idx]
        self._loops = L
        self.rpo_index = idx
        return L

class Module:
    def __init__(self, text, name=''):
        self.name = name
        self.types = {}
        self._typesrc = {}
        self.globals = {}      # name -> raw source
        self._gparsed = {}
        self.funcs = {}
        self.aliases = {}
        self._scan(text)

    def _scan(self, text):
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                f = self._header(l)
                f.lines = lines[i+1:j]
                self.funcs[f.name] = f
                i = j + 1; continue
            if l.startswith('declare '):
                f = self._header(l)
                f.is_decl = True
                if f.name not in self.funcs: self.funcs[f.name] = f
            elif l.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', l)
                if m: self._typesrc[m.group(1)] = m.group(2)
            elif l.startswith('@'):
                m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
                if m:
                    if re.search(r'\balias\b', m.group(2).split('@')[0]):
                        self.aliases[self._gn(m.group(1))] = m.group(2)
                    else:
                        self.globals[self._gn(m.group(1))] = m.group(2)
            i += 1

    @staticmethod
    def _gn(tok):
        tok = tok[1:]
        if tok.startswith('"'): tok = tok[1:-1]
        return tok

    def named_type(self, nm):
        t = self.types.get(nm)
        if t is None:
            src = self._typesrc.get(nm)
            t = StructTy([], False, nm)
            self.types[nm] = t
            if src is None or src.strip() == 'opaque':
                return t
            tk = Toks(tokenize(src), self)
            r = self.ptype(tk)
            if not isinstance(r, StructTy):
                self.types[nm] = r
                return r
            t.els = r.els; t.packed = r.packed
        return t

    def ptype(self, tk):
        kind, v = tk.next()
        if kind == 'word':
            if v == 'ptr':
                t = PTR
                if tk.peek()[1] == 'addrspace':
                    tk.next(); tk.expect('('); tk.next(); tk.expect(')')
            elif v == 'void': t = VOID
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif v == 'float': t = FLOAT
            elif v == 'double': t = DOUBLE
            elif v == 'half': t = HALF
            elif v == 'x86_fp80': t = FP80
            elif v == 'fp128': t = FP128
            elif v == 'token': t = META
            elif v == 'opaque': t = StructTy([])
            elif v[0] == 'i' and v[1:].isdigit(): t = I(int(v[1:]))
            else: raise IRError('type %r' % v)
        elif kind == 'loc':
            t = self.named_type(v)
        elif v == '[':
            n = int(tk.next()[1]); tk.expect('x'); el = self.ptype(tk); tk.expect(']')
            t = ArrTy(n, el)
        elif v == '{':
            t = StructTy(self._tylist(tk, '}'))
        elif v == '<':
            if tk.peek()[1] == '{':
                tk.next()
                t = StructTy(self._tylist(tk, '}'), True)
                tk.expect('>')
            else:
                n = int(tk.next()[1]); tk.expect('x'); el = self.ptype(tk); tk.expect('>')
                t = VecTy(n, el)
        else:
            raise IRError('type tok %r' % v)
        # function type suffix
        while tk.peek()[1] == '(' :
            tk.next()
            args = []; va = False
            while not tk.accept(')'):
                if tk.accept('...'): va = True
                else:
                    args.append(self.ptype(tk))
                tk.accept(',')
            t = FnTy(t, args, va)
        return t

    def _tylist(self, tk, end):
        els = []
        while not tk.accept(end):
            els.append(self.ptype(tk)); tk.accept(',')
        return els

    def _skip_attrs(self, tk):
        x = {}
        while True:
            k, v = tk.peek()
            if k == 'word' and v in PARAM_ATTR_PAREN:
                tk.next()
                if tk.peek()[1] == '(':
                    tk.next(); depth = 1; start = tk.i
                    sub = []
                    while depth:
                        q = tk.next()
                        if q[1] == '(': depth += 1
                        elif q[1] == ')': depth -= 1
                        if depth: sub.append(q)
                    if v in ('byval', 'sret'):
                        x[v] = self.ptype(Toks(sub, self))
                elif v == 'align': tk.next()
            elif k == 'word' and v in PARAM_ATTRS:
                tk.next(); x[v] = True
            elif k == 'attr': tk.next()
            elif k == 'str':
                tk.next()
                if tk.accept('='): tk.next()
            else: return x

    LINK = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
            'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
            'unnamed_addr', 'local_unnamed_addr', 'fastcc', 'ccc', 'coldcc', 'tailcc', 'dllimport', 'preserve_mostcc', 'ghccc', 'cc', 'preserve_nonecc',
            'define', 'declare', 'global', 'constant', 'thread_local', 'externally_initialized'}

    def _header(self, l):
        # cut trailing '{' and personality
        l2 = l
        k = l2.find(' personality ')
        if k >= 0: l2 = l2[:k]
        tk = Toks(tokenize(l2.rstrip('{').rstrip()), self)
        while True:
            kk, v = tk.peek()
            if kk == 'word' and v in self.LINK: tk.next()
            else: break
        self._skip_attrs(tk)
        # careful: return type followed by @name(
        ret = self.ptype(tk)
        name = self._gn(tk.next()[1])
        tk.expect('(')
        params = []; va = False; idx = 0
        while not tk.accept(')'):
            if tk.accept('...'): va = True
            else:
                t = self.ptype(tk)
                at = self._skip_attrs(tk)
                if tk.peek()[0] == 'loc': nm = tk.next()[1]
                else: nm = '%%%d' % idx
                params.append((t, nm, at)); idx += 1
            tk.accept(',')
        return Func(self, name, ret, params, va, None, l)

    # ---------------------------------------------------------------- constants / operands
    def pvalue(self, tk, ty):
        k, v = tk.next()
        if k == 'loc': return ('l', v)
        if k == 'glob': return ('g', self._gn(v))
        if k == 'num':
            if isinstance(ty, FloatTy):
                return ('c', ty, fp_bits(ty, float(v)))
            if isinstance(ty, IntTy):
                return ('c', ty, int(v) & ((1 << ty.w) - 1))
            raise IRError('num for %r' % ty)
        if k == 'hex':
            if v[2] in 'KLMHR':
                return ('c', ty, int(v[3:], 16))
            b = int(v, 16)
            if ty is FLOAT or (isinstance(ty, FloatTy) and ty.w == 32):
                import struct
                d = struct.unpack('<d', struct.pack('<Q', b))[0]
                if d != d:
                    # keep payload
                    s = b >> 63; mant = (b >> 29) & 0x7fffff
                    return ('c', ty, (s << 31) | (0xff << 23) | mant)
                return ('c', ty, struct.unpack('<I', struct.pack('<f', d))[0])
            return ('c', ty, b)
        if k == 'str':
            return ('str', unescape(v))
        if k == 'word':
            if v == 'true': return ('c', I(1), 1)
            if v == 'false': return ('c', I(1), 0)
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef', ty)
            if v == 'zeroinitializer': return ('zero', ty)
            if v == 'none': return ('undef', ty)
            if v == 'blockaddress':
                tk.expect('('); f = self._gn(tk.next()[1]); tk.expect(','); b = tk.next()[1]; tk.expect(')')
                return ('ba', f, b)
            if v == 'getelementptr':
                inb = False
                while tk.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'): tk.next()
                tk.expect('(')
                st = self.ptype(tk); tk.expect(',')
                ops = []
                while not tk.accept(')'):
                    if tk.accept('inrange'):
                        if tk.accept('('):
                            while not tk.accept(')'): tk.next()
                    t = self.ptype(tk); ops.append((t, self.pvalue(tk, t))); tk.accept(',')
                return ('ce', 'gep', st, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                tk.expect('('); t = self.ptype(tk); o = self.pvalue(tk, t); tk.expect('to'); t2 = self.ptype(tk); tk.expect(')')
                return ('ce', v, t, o, t2)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr', 'icmp', 'select'):
                while tk.peek()[1] in ('nuw', 'nsw', 'exact') or (v == 'icmp' and tk.peek()[0] == 'word' and tk.peek()[1] != '('):
                    if v == 'icmp': pred = tk.next()[1]; break
                    tk.next()
                tk.expect('(')
                ops = []
                while not tk.accept(')'):
                    t = self.ptype(tk); ops.append((t, self.pvalue(tk, t))); tk.accept(',')
                return ('ce', v, ops, pred if v == 'icmp' else None)
            if v == 'dso_local_equivalent' or v == 'no_cfi':
                return self.pvalue(tk, ty)
            if v == 'splat':
                tk.expect('('); t = self.ptype(tk); o = self.pvalue(tk, t); tk.expect(')')
                return ('agg', ty, [(t, o)] * ty.n)
            raise IRError('value word %r' % v)
        if v == '[' or v == '{' or v == '<':
            packed = False
            if v == '<' and tk.peek()[1] == '{': tk.next(); packed = True; end = '}'
            else: end = {'[': ']', '{': '}', '<': '>'}[v]
            els = []
            while not tk.accept(end):
                t = self.ptype(tk); els.append((t, self.pvalue(tk, t))); tk.accept(',')
            if packed: tk.expect('>')
            return ('agg', ty, els)
        if k == 'meta':
            return ('meta',)
        raise IRError('value %r %r near %r' % (k, v, tk.t[max(0, tk.i-5):tk.i+5]))

    def global_def(self, name):
        """-> (type, initializer-or-None, is_const)"""
        g = self._gparsed.get(name)
        if g is None:
            src = self.globals[name]
            tk = Toks(tokenize(src), self)
            const = False; ext = False
            while True:
                k, v = tk.peek()
                if k == 'word' and (v in self.LINK):
                    tk.next()
                    if v == 'constant': const = True
                    if v in ('external', 'extern_weak'): ext = True
                    if v == 'thread_local' and tk.accept('('):
                        tk.next(); tk.expect(')')
                    if v in ('global', 'constant'): break
                elif v == 'addrspace':
                    tk.next(); tk.expect('('); tk.next(); tk.expect(')')
                else: break
            ty = self.ptype(tk)
            init = None
            if not ext and not tk.eof() and tk.peek()[1] != ',':
                init = self.pvalue(tk, ty)
            g = (ty, init, const)
            self._gparsed[name] = g
        return g

    # ---------------------------------------------------------------- bodies
    def parse_body(self, f):
        blocks = {}
        f.blocks = blocks
        cur = None
        lines = f.lines
        i = 0; n = len(lines)
        # implicit entry label number: count of unnamed params
        while i < n:
            l = lines[i]; i += 1
            s = l.strip()
            if not s or s.startswith(';'): continue
            if not l.startswith(' '):
                m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
                if not m: raise IRError('label? %r' % l)
                nm = '%' + m.group(1)
                cur = Block(nm); blocks[nm] = cur
                if f.entry is None: f.entry = nm
                continue
            if cur is None:
                nm = '%<entry>'
                cur = Block(nm); blocks[nm] = cur; f.entry = nm
            # multi-line switch / landingpad / invoke
            if s.startswith('switch ') and not s.rstrip().endswith(']') and ']' not in s:
                while ']' not in lines[i]:
                    s += ' ' + lines[i].strip(); i += 1
                s += ' ' + lines[i].strip(); i += 1
            if 'landingpad' in s:
                while i < n and re.match(r'^\s+(cleanup|catch|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip(); i += 1
            if 'invoke ' in s:
                while i < n and re.match(r'^\s+to label', lines[i]):
                    s += ' ' + lines[i].strip(); i += 1
            ins = self.pinstr(s)
            if ins is None: continue
            if ins.op == 'phi': cur.phis.append(ins)
            elif ins.op in ('br', 'switch', 'indirectbr', 'ret', 'unreachable', 'resume', 'invoke'):
                cur.term = ins
            else: cur.ins.append(ins)
        # fix numeric implicit entry label in phis: preds may refer to e.g. %1
        if f.entry == '%<entry>':
            num = 0
            for t, nm, at in f.params:
                if nm[1:].isdigit(): num = max(num, int(nm[1:]) + 1)
            alias = '%%%d' % num
            if alias not in blocks:
                b = blocks.pop('%<entry>')
                b.name = alias
                nb = {alias: b}; nb.update(blocks)
                f.blocks = nb; f.entry = alias
        return f.blocks

    BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
           'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
    CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
            'inttoptr', 'bitcast', 'addrspacecast'}
    FLAGS = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg', 'samesign', 'inbounds', 'nusw', 'volatile', 'atomic', 'weak'}

    def pinstr(self, s):
        tk = Toks(tokenize(s), self)
        res = None
        if tk.peek()[0] == 'loc' and tk.peek(1)[1] == '=':
            res = tk.next()[1]; tk.next()
        op = tk.next()[1]
        if op in ('tail', 'musttail', 'notail'):
            op = tk.next()[1]
        P = self
        def tv():
            t = P.ptype(tk); P._skip_attrs(tk); return (t, P.pvalue(tk, t))
        if op in self.BIN:
            fl = set()
            while tk.peek()[1] in self.FLAGS: fl.add(tk.next()[1])
            t = self.ptype(tk); a = self.pvalue(tk, t); tk.expect(','); b = self.pvalue(tk, t)
            return Instr(op, res, t, (a, b), fl, s)
        if op == 'fneg':
            while tk.peek()[1] in self.FLAGS: tk.next()
            t = self.ptype(tk); a = self.pvalue(tk, t)
            return Instr(op, res, t, (a,), None, s)
        if op in self.CAST:
            while tk.peek()[1] in self.FLAGS: tk.next()
            t = self.ptype(tk); a = self.pvalue(tk, t); tk.expect('to'); t2 = self.ptype(tk)
            return Instr(op, res, t2, (a,), t, s)
        if op in ('icmp', 'fcmp'):
            while tk.peek()[1] in self.FLAGS: tk.next()
            pred = tk.next()[1]
            t = self.ptype(tk); a = self.pvalue(tk, t); tk.expect(','); b = self.pvalue(tk, t)
            return Instr(op, res, I(1), (a, b), (pred, t), s)
        if op == 'select':
            while tk.peek()[1] in self.FLAGS: tk.next()
            ct = self.ptype(tk); c = self.pvalue(tk, ct); tk.expect(',')
            t = self.ptype(tk); a = self.pvalue(tk, t); tk.expect(',')
            t = self.ptype(tk); b = self.pvalue(tk, t)
            return Instr(op, res, t, (c, a, b), ct, s)
        if op == 'freeze':
            t = self.ptype(tk); a = self.pvalue(tk, t)
            return Instr(op, res, t, (a,), None, s)
        if op == 'load':
            fl = set()
            while tk.peek()[1] in self.FLAGS: fl.add(tk.next()[1])
            t = self.ptype(tk); tk.expect(','); pt = self.ptype(tk); p = self.pvalue(tk, pt)
            return Instr(op, res, t, (p,), fl, s)
        if op == 'store':
            fl = set()
            while tk.peek()[1] in self.FLAGS: fl.add(tk.next()[1])
            t, v = tv(); tk.expect(','); pt = self.ptype(tk); p = self.pvalue(tk, pt)
            return Instr(op, None, t, (v, p), fl, s)
        if op == 'alloca':
            tk.accept('inalloca')
            t = self.ptype(tk); n = None
            while tk.accept(','):
                if tk.peek()[1] == 'align': tk.next(); tk.next()
                elif tk.peek()[0] == 'meta': tk.next(); tk.next() if not tk.eof() else None
                else:
                    nt = self.ptype(tk); n = (nt, self.pvalue(tk, nt))
            return Instr(op, res, t, (), n, s)
        if op == 'getelementptr':
            while tk.peek()[1] in ('inbounds', 'nuw', 'nusw'): tk.next()
            st = self.ptype(tk); tk.expect(',')
            ops = []
            while not tk.eof() and tk.peek()[0] != 'meta':
                t = self.ptype(tk); ops.append((t, self.pvalue(tk, t)))
                if not tk.accept(','): break
            return Instr(op, res, PTR, ops, st, s)
        if op == 'phi':
            while tk.peek()[1] in self.FLAGS: tk.next()
            t = self.ptype(tk)
            inc = []
            while tk.accept('['):
                v = self.pvalue(tk, t); tk.expect(','); lab = tk.next()[1]; tk.expect(']'); tk.accept(',')
                inc.append((v, lab))
            return Instr(op, res, t, inc, None, s)
        if op == 'br':
            if tk.accept('label'):
                return Instr(op, None, None, (tk.next()[1],), None, s)
            t = self.ptype(tk); c = self.pvalue(tk, t); tk.expect(','); tk.expect('label'); a = tk.next()[1]
            tk.expect(','); tk.expect('label'); b = tk.next()[1]
            return Instr(op, None, None, (c, a, b), None, s)
        if op == 'switch':
            t, v = tv(); tk.expect(','); tk.expect('label'); d = tk.next()[1]; tk.expect('[')
            cs = []
            while not tk.accept(']'):
                ct, cv = tv(); tk.expect(','); tk.expect('label'); cs.append((cv[2], tk.next()[1]))
            return Instr(op, None, t, (v, d, cs), None, s)
        if op == 'indirectbr':
            t, v = tv(); tk.expect(','); tk.expect('[')
            ls = []
            while not tk.accept(']'):
                tk.expect('label'); ls.append(tk.next()[1]); tk.accept(',')
            return Instr(op, None, t, (v, ls), None, s)
        if op == 'ret':
            if tk.peek()[1] == 'void': return Instr(op, None, VOID, (), None, s)
            t, v = tv()
            return Instr(op, None, t, (v,), None, s)
        if op == 'unreachable': return Instr(op, None, None, (), None, s)
        if op == 'resume':
            t, v = tv()
            return Instr(op, None, t, (v,), None, s)
        if op in ('call', 'invoke'):
            while True:
                k, v = tk.peek()
                if k == 'word' and (v in self.FLAGS or v in self.LINK): tk.next()
                else:
                    if not (k == 'word' and (v in PARAM_ATTRS or v in PARAM_ATTR_PAREN)): break
                    self._skip_attrs(tk)
            t = self.ptype(tk)
            if isinstance(t, FnTy): rt = t.ret
            else: rt = t
            k, v = tk.peek()
            if v == 'asm':
                return Instr('asm', res, rt, (), None, s)
            callee = self.pvalue(tk, PTR)
            tk.expect('(')
            args = []; attrs = []
            while not tk.accept(')'):
                at = self.ptype(tk)
                if at is META:
                    # skip metadata operand
                    depth = 0
                    while not (depth == 0 and tk.peek()[1] in (',', ')')):
                        q = tk.next()[1]
                        if q in '({': depth += 1
                        if q in ')}': depth -= 1
                    args.append((at, ('meta',))); attrs.append({})
                else:
                    x = self._skip_attrs(tk)
                    args.append((at, self.pvalue(tk, at))); attrs.append(x)
                tk.accept(',')
            x = {'args': args, 'attrs': attrs}
            if op == 'invoke':
                while not tk.accept('to'): tk.next()
                tk.expect('label'); x['normal'] = tk.next()[1]; tk.expect('unwind'); tk.expect('label'); x['unwind'] = tk.next()[1]
            return Instr(op, res, rt, (callee,), x, s)
        if op == 'landingpad':
            t = self.ptype(tk)
            cl = []; cleanup = False
            while not tk.eof():
                k, v = tk.next()
                if v == 'cleanup': cleanup = True
                elif v == 'catch':
                    ct = self.ptype(tk); cl.append(('catch', self.pvalue(tk, ct)))
                elif v == 'filter':
                    ct = self.ptype(tk); cl.append(('filter', self.pvalue(tk, ct)))
                else: break
            return Instr(op, res, t, cl, cleanup, s)
        if op == 'extractvalue':
            t, v = tv(); ix = []
            while tk.accept(','): 
                if tk.peek()[0] != 'num': break
                ix.append(int(tk.next()[1]))
            return Instr(op, res, agg_elem(t, ix), (v,), (t, ix), s)
        if op == 'insertvalue':
            t, v = tv(); tk.expect(','); et, ev = tv(); ix = []
            while tk.accept(','):
                if tk.peek()[0] != 'num': break
                ix.append(int(tk.next()[1]))
            return Instr(op, res, t, (v, ev), (et, ix), s)
        if op == 'extractelement':
            t, v = tv(); tk.expect(','); it, iv = tv()
            return Instr(op, res, t.el, (v, iv), (t, it), s)
        if op == 'insertelement':
            t, v = tv(); tk.expect(','); et, ev = tv(); tk.expect(','); it, iv = tv()
            return Instr(op, res, t, (v, ev, iv), (et, it), s)
        if op == 'shufflevector':
            t, v = tv(); tk.expect(','); t2, v2 = tv(); tk.expect(','); mt, mv = tv()
            return Instr(op, res, VecTy(mt.n, t.el), (v, v2, mv), (t, mt), s)
        if op in ('atomicrmw',):
            tk.accept('volatile')
            o = tk.next()[1]
            pt, p = tv(); tk.expect(','); t, v = tv()
            return Instr(op, res, t, (p, v), o, s)
        if op == 'cmpxchg':
            while tk.peek()[1] in self.FLAGS: tk.next()
            pt, p = tv(); tk.expect(','); t, c = tv(); tk.expect(','); t2, n = tv()
            return Instr(op, res, StructTy([t, I(1)]), (p, c, n), t, s)
        if op == 'fence': return None
        if op == 'va_arg': raise IRError('va_arg')
        raise IRError('instr %r' % s)

def agg_elem(t, ix):
    for i in ix:
        if isinstance(t, StructTy): t = t.els[i]
        else: t = t.el
    return t

def fp_bits(ty, v):
    import struct
    if ty.w == 32: return struct.unpack('<I', struct.pack('<f', v))[0]
    if ty.w == 64: return struct.unpack('<Q', struct.pack('<d', v))[0]
    raise IRError('fp const')

def unescape(v):
    assert v.startswith('c"')
    s = v[2:-1]; out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)
