"""Symbolic execution of LLVM IR functions with contracts.

Every function reached is either given a contract (a Python callable in
Exec.contracts, checked against its own body elsewhere or listed as trusted)
or inlined from the IR of the real code.  Paths fork at symbolic branches and
are merged again at joins.  Side conditions (bounds, shifts, division) are
collected as obligations and discharged by z3.
"""
import z3, time
from . import terms as T
from . import ir
from .ir import IntTy, FloatTy, PtrTy, StructTy, ArrTy, VecTy, sizeof, storesize, bitwidth

class Unsupported(Exception):
    """verifier cannot decide (never a violation)"""

isint = T.isint

class Ptr:
    __slots__ = ('r', 'off')
    def __init__(self, r, off): self.r = r; self.off = off
    def __repr__(self): return 'Ptr(%s+%s)' % (self.r.name, self.off)
class PIte:
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
    def __repr__(self): return 'PIte(%s,%s,%s)' % (self.c, self.a, self.b)
class Fn:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __repr__(self): return 'Fn(%s)' % self.name
class BA:
    __slots__ = ('fn', 'label')
    def __init__(self, fn, label): self.fn = fn; self.label = label
    def __repr__(self): return 'BA(%s)' % self.label

import re
ALIGN_RE = re.compile(r'align (\d+)')
_rid = [0]
class Region:
    """memory object.  kind: 'obj' | 'bytes' | 'hook'"""
    def __init__(self, name, kind='obj', size=None, init=None, segs=(), const=False, hook=None, align=16):
        _rid[0] += 1
        self.id = _rid[0]; self.name = name; self.kind = kind; self.size = size
        self.init = init          # fn(off, n) -> value or None
        self.segs = list(segs); self.const = const; self.hook = hook
        self.shared = {}          # byte -> (sym, idx)
        self._base = None
        self.align = align
        self.exc = None
        self.uninit = False
    @property
    def base(self):
        if self._base is None:
            b = z3.BitVec('&%s#%d' % (self.name, self.id), 64)
            BASES[b.get_id()] = (self, b)
            # alignment known: low 4 bits zero
            self._base = b
        return self._base
BASES = {}

class Seg:
    """array-like part of an object, addressed by a symbolic index"""
    def __init__(self, name, start, count, stride, idxw, base=None):
        self.name = name; self.start = start; self.count = count; self.stride = stride; self.idxw = idxw
        self.base = base if base is not None else z3.Array(name, z3.BitVecSort(idxw), z3.BitVecSort(8 * stride))
    def end(self): return self.start + self.count * self.stride

class ObjMem:
    __slots__ = ('cells', 'segs')
    def __init__(self, cells=None, segs=None):
        self.cells = cells if cells is not None else {}
        self.segs = segs if segs is not None else {}
    def copy(self): return ObjMem(dict(self.cells), dict(self.segs))

class State:
    __slots__ = ('mem', 'pc', 'ghost', 'pcids')
    def __init__(self):
        self.mem = {}; self.pc = (); self.ghost = {}; self.pcids = frozenset()
    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.pc = self.pc; s.ghost = dict(self.ghost); s.pcids = self.pcids
        return s
    def assume(self, c):
        """returns self with c added (in place)"""
        if isint(c):
            if c: return self
            c = z3.BoolVal(False)
        if T.kind(c) == z3.Z3_OP_AND:
            for x in c.children(): self.assume(x)
            return self
        i = c.get_id()
        if i in self.pcids: return self
        self.pc = self.pc + (c,)
        self.pcids = self.pcids | {i}
        return self

class Out:
    __slots__ = ('kind', 'st', 'val')
    def __init__(self, kind, st, val=None): self.kind = kind; self.st = st; self.val = val

class Obl:
    __slots__ = ('name', 'ok', 'model', 'where', 'why', 'pc', 'cond')
    def __init__(self, name, ok, model, where, why='', pc=None, cond=None):
        self.name = name; self.ok = ok; self.model = model; self.where = where; self.why = why
        self.pc = pc; self.cond = cond

# ---------------------------------------------------------------- solver
COMMUT = {'fadd32', 'fadd64', 'fmul32', 'fmul64', 'fma32', 'fma64'}
def commut_axioms(conj):
    """ground instances of commutativity (up to the choice of NaN payload)"""
    seen = set(); out = []; todo = list(conj)
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in COMMUT:
                ch = x.children()
                if not ch[0].eq(ch[1]): out.append(x == d(ch[1], ch[0], *ch[2:]))
            todo += x.children()
    return out

class Expand:
    """reads of stores, lambdas and ites written out: what is left are reads of array constants"""
    def __init__(self): self.memo = {}; self.sm = {}; self.lam = {}; self.n = 0
    def has_lambda(self, e):
        todo = [e]
        while todo:
            x = todo[-1]; k = x.get_id()
            if k in self.lam: todo.pop(); continue
            if z3.is_quantifier(x): self.lam[k] = (x, x.is_lambda()); todo.pop(); continue
            ch = x.children(); new = [c for c in ch if c.get_id() not in self.lam]
            if new: todo += new; continue
            self.lam[k] = (x, any(self.lam[c.get_id()][1] for c in ch)); todo.pop()
        return self.lam[e.get_id()][1]
    def red(self, e):
        k = e.get_id()
        if k in self.memo: return self.memo[k][1]
        self.n += 1
        if self.n > 60000: raise RecursionError
        r = e
        if z3.is_app(e) and e.num_args():
            kd = e.decl().kind(); ch = [self.red(c) for c in e.children()]
            if kd == z3.Z3_OP_SELECT and len(ch) == 2: r = self.sel(ch[0], ch[1])
            elif all(a is b for a, b in zip(ch, e.children())): r = e
            elif kd == z3.Z3_OP_AND: r = z3.And(*ch)
            elif kd == z3.Z3_OP_OR: r = z3.Or(*ch)
            else: r = e.decl()(*ch)
        self.memo[k] = (e, r); return r
    def sel(self, a, i):
        key = (a.get_id(), i.get_id())
        if key in self.sm: return self.sm[key][2]
        self.n += 1
        if self.n > 60000: raise RecursionError
        if z3.is_quantifier(a) and a.is_lambda() and a.num_vars() == 1: r = self.red(z3.substitute_vars(a.body(), i))
        elif z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE and a.num_args() == 3: r = z3.If(a.arg(1) == i, a.arg(2), self.sel(a.arg(0), i))
        elif z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE: r = z3.If(a.arg(0), self.sel(a.arg(1), i), self.sel(a.arg(2), i))
        elif z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY: r = a.arg(0)
        else: r = z3.Select(a, i)
        self.sm[key] = (a, i, r); return r

class Solver:
    def __init__(self, timeout=20000):
        self.expand = Expand()
        self.timeout = timeout; self.time = 0.0; self.n = 0; self.cache = {}
        self.background = []
        self.keep = []
    def check(self, conj, timeout=None):
        """conj list of z3 bools -> ('sat',model)|('unsat',None)|('unknown',None)"""
        key = tuple(sorted(c.get_id() for c in conj))
        r = self.cache.get(key)
        if r is not None: return r
        t0 = time.time()
        if any(self.expand.has_lambda(c) for c in conj):
            try: self.expand.n = 0; conj0 = conj; conj = [z3.simplify(self.expand.red(c)) for c in conj]; self.keep.append(list(conj0))
            except RecursionError: conj = conj0
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        s.add(*self.background)
        s.add(*conj)
        q = s.check()
        self.time += time.time() - t0; self.n += 1
        if q == z3.sat:
            r = ('sat', s.model())
            ax = commut_axioms(conj)
            if ax:
                s.add(*ax); q = s.check()
                r = ('sat', s.model()) if q == z3.sat else ('unsat' if q == z3.unsat else 'unknown', None)
        elif q == z3.unsat: r = ('unsat', None)
        else: r = ('unknown', None)
        if r[0] == 'unknown' and (timeout or self.timeout) >= 5000:
            r2 = self.second(conj, timeout or self.timeout)
            if r2: r = r2
        self.cache[key] = r
        self.keep.append(list(conj))
        return r
    def second(self, conj, timeout):
        # second strategy: explicit bit-blasting after ackermannisation
        t0 = time.time()
        try:
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'ackermannize_bv', 'bv1-blast' if False else 'simplify', 'smt').solver()
            s.set('timeout', timeout)
            s.add(*self.background); s.add(*conj)
            q = s.check()
        except z3.Z3Exception:
            return None
        finally:
            self.time += time.time() - t0
        if q == z3.unsat: return ('unsat', None)
        if q == z3.sat: return ('sat', s.model())
        return None

# ---------------------------------------------------------------- value helpers
def is_ptrish(v): return isinstance(v, (Ptr, PIte, Fn, BA))

FNADDR = {}
def fn_addr(name):
    a = FNADDR.get(name)
    if a is None:
        a = FNADDR[name] = z3.BitVec('&fn:' + name, 64)
    return a

def to_int(v, w=64):
    """pointer-ish or integer value -> integer term"""
    if isinstance(v, Ptr):
        return T.add(v.r.base, v.off, 64)
    if isinstance(v, PIte):
        return T.ite(v.c, to_int(v.a), to_int(v.b), 64)
    if isinstance(v, Fn): return fn_addr(v.name)
    if isinstance(v, BA): return z3.BitVec('&ba:%s:%s' % (v.fn, v.label), 64)
    if isinstance(v, z3.BoolRef): return T.bv(v, w)
    return v

def to_ptr(v):
    """integer term -> pointer if a region base is recognised"""
    if isint(v) or is_ptrish(v): return v
    if T.kind(v) == z3.Z3_OP_ITE:
        a, b = to_ptr(T.norm(v.arg(1))), to_ptr(T.norm(v.arg(2)))
        if is_ptrish(a) or is_ptrish(b): return PIte(v.arg(0), a, b)
        return v
    d = {}
    T._lin_full(v, 1, d, 64)
    bases = [(BASES[i][0], k) for i, (t, k) in d.items() if i in BASES]
    if len(bases) == 1 and bases[0][1] == 1:
        r = bases[0][0]
        return Ptr(r, T.sub(v, r.base, 64))
    return v

def val_ite(c, a, b, w, ty=None):
    if a is b: return a
    if isint(c): return a if c else b
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list) and len(a) == len(b)): raise Unsupported('merge aggregate')
        out = []
        for i, (x, y) in enumerate(zip(a, b)):
            t = None
            if ty is not None: t = ty.els[i] if isinstance(ty, StructTy) else ty.el
            out.append(val_ite(c, x, y, bitwidth(t) if t is not None and not isinstance(t, (StructTy, ArrTy)) else None, t))
        return out
    pa, pb = is_ptrish(a), is_ptrish(b)
    if pa or pb:
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
            return Ptr(a.r, T.ite(c, a.off, b.off, 64))
        if isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name: return a
        if isinstance(a, BA) and isinstance(b, BA) and a.label == b.label: return a
        if isinstance(a, PIte) and a.c is c: a = a.a
        return PIte(c, a, b)
    if w == 1: return T.ite(c, a, b, 1)
    if isint(a) and isint(b) and w is None:
        if a == b: return a
        raise Unsupported('merge ints of unknown width')
    return T.ite(c, a, b, w)

def val_same(a, b):
    if a is b: return True
    if isinstance(a, list): return isinstance(b, list) and len(a) == len(b) and all(val_same(x, y) for x, y in zip(a, b))
    if isinstance(a, Ptr): return isinstance(b, Ptr) and a.r is b.r and T.same(a.off, b.off)
    if isinstance(a, PIte): return isinstance(b, PIte) and T.same(a.c, b.c) and val_same(a.a, b.a) and val_same(a.b, b.b)
    if isinstance(a, Fn): return isinstance(b, Fn) and a.name == b.name
    if isinstance(a, BA): return isinstance(b, BA) and a.label == b.label and a.fn == b.fn
    if is_ptrish(b) or isinstance(b, list): return False
    if isinstance(a, (str, tuple, type(None))) or isinstance(b, (str, tuple, type(None))): return a == b
    return T.same(a, b)

def conj(cs):
    cs = list(cs)
    if not cs: return 1
    if len(cs) == 1: return cs[0]
    return z3.And(*cs)

# ---------------------------------------------------------------- floating point (bit level)
FPFN = {}
UFCONC = None            # concrete evaluator (irv.concrete), when replaying
def uf(name, args, ws, rw):
    if UFCONC is not None and all(T.isint(a) for a in args): return UFCONC(name, args, ws, rw)
    key = (name, tuple(ws), rw)
    f = FPFN.get(key)
    if f is None:
        f = FPFN[key] = z3.Function(name, *[z3.BitVecSort(w) for w in ws], z3.BitVecSort(rw))
    return f(*[T.bv(a, w) for a, w in zip(args, ws)])

def fp_params(w): return {32: (8, 23), 64: (11, 52), 16: (5, 10)}[w]
def f_isnan(x, w):
    e, m = fp_params(w)
    mag = T.band(x, T.mask(w - 1), w)
    return T.ult(T.mask(e) << m, mag, w)
def f_iszero(x, w):
    return T.eq(T.band(x, T.mask(w - 1), w), 0, w)
def f_eq(a, b, w):
    """ordered equal"""
    nn = T.land(T.lnot(f_isnan(a, w)), T.lnot(f_isnan(b, w)))
    return T.land(nn, T.lor(T.eq(a, b, w), T.land(f_iszero(a, w), f_iszero(b, w))))
def f_lt(a, b, w):
    nn = T.land(T.lnot(f_isnan(a, w)), T.lnot(f_isnan(b, w)))
    sa = T.eq(T.extract(w - 1, w - 1, a), 1, 1); sb = T.eq(T.extract(w - 1, w - 1, b), 1, 1)
    bothz = T.land(f_iszero(a, w), f_iszero(b, w))
    r = T.ite(sa, T.ite(sb, T.ult(b, a, w), 1, 1), T.ite(sb, 0, T.ult(a, b, w), 1), 1)
    return T.land(nn, T.land(T.lnot(bothz), r))
def f_unord(a, b, w): return T.lor(f_isnan(a, w), f_isnan(b, w))
def f_cmp(pred, a, b, w):
    if pred == 'true': return 1
    if pred == 'false': return 0
    un = f_unord(a, b, w)
    if pred == 'ord': return T.lnot(un)
    if pred == 'uno': return un
    core = {'eq': lambda: f_eq(a, b, w), 'lt': lambda: f_lt(a, b, w), 'gt': lambda: f_lt(b, a, w),
            'le': lambda: T.lor(f_lt(a, b, w), f_eq(a, b, w)), 'ge': lambda: T.lor(f_lt(b, a, w), f_eq(a, b, w)),
            'ne': lambda: T.lor(f_lt(a, b, w), f_lt(b, a, w))}[pred[1:]]()
    return core if pred[0] == 'o' else T.lor(un, core)

FOLDFP = True
def f_minmax(op, a, b, w):
    """C fmin/fmax: a NaN operand is ignored; which of two equal operands (or NaNs) is returned is not specified"""
    lt = f_lt(a, b, w) if op == 'max' else f_lt(b, a, w)
    gt = f_lt(b, a, w) if op == 'max' else f_lt(a, b, w)
    tie = T.ite(T.fresh('zsel', 'bool'), a, b, w)
    na, nb = f_isnan(a, w), f_isnan(b, w)
    nan = T.fresh('nan', w)
    both = T.ite(f_isnan(nan, w), nan, a, w)
    return T.ite(T.land(na, nb), both, T.ite(na, b, T.ite(nb, a, T.ite(lt, b, T.ite(gt, a, tie, w), w), w), w), w)

def f_bin(op, a, b, w):
    return uf('%s%d' % (op, w), [a, b], [w, w], w)

# ---------------------------------------------------------------- function info
class FInfo:
    def __init__(self, f):
        self.f = f
        bl = f.body()
        self.blocks = bl
        self.types = {}
        for t, nm, at in f.params: self.types[nm] = t
        uses = {}; defs = {}
        succ = {}
        for n, b in bl.items():
            u = set(); d = set()
            for p in b.phis:
                d.add(p.res); self.types[p.res] = p.ty
            for i in b.ins + ([b.term] if b.term else []):
                for o in operands(i):
                    if o[0] == 'l' and o[1] not in d: u.add(o[1])
                if i.res: d.add(i.res); self.types[i.res] = i.ty
            uses[n] = u; defs[n] = d
            succ[n] = list(dict.fromkeys(f.succs(b)))
        self.succ = succ
        live = {n: set(uses[n]) for n in bl}
        # phi uses belong to the pred edge; treat as live-out of pred
        phiuse = {n: {} for n in bl}
        for n, b in bl.items():
            for p in b.phis:
                for v, lab in p.a:
                    if v[0] == 'l': phiuse[n].setdefault(lab, set()).add(v[1])
        order = self.order_blocks()
        self.order = {n: i for i, n in enumerate(order)}
        ch = True
        while ch:
            ch = False
            for n in reversed(order):
                o = set()
                for s in succ[n]:
                    o |= live[s]
                    o |= phiuse[s].get(n, set())
                new = uses[n] | (o - defs[n])
                if len(new) != len(live[n]): live[n] = new; ch = True
        self.live = live

    def order_blocks(self):
        """linear order in which loop bodies come before loop exits"""
        import sys
        sys.setrecursionlimit(100000)
        f = self.f; succ = self.succ
        def scc(nodes, entry):
            # iterative Tarjan restricted to nodes; returns SCCs in topological order
            idx = {}; low = {}; st = []; on = set(); out = []; c = [0]
            def visit(r):
                work = [(r, iter(succ[r]))]
                idx[r] = low[r] = c[0]; c[0] += 1; st.append(r); on.add(r)
                while work:
                    n, it = work[-1]
                    adv = False
                    for m in it:
                        if m not in nodes: continue
                        if m not in idx:
                            idx[m] = low[m] = c[0]; c[0] += 1; st.append(m); on.add(m)
                            work.append((m, iter(succ[m]))); adv = True; break
                        elif m in on: low[n] = min(low[n], idx[m])
                    if adv: continue
                    work.pop()
                    if work: low[work[-1][0]] = min(low[work[-1][0]], low[n])
                    if low[n] == idx[n]:
                        comp = []
                        while True:
                            x = st.pop(); on.discard(x); comp.append(x)
                            if x == n: break
                        out.append((n, comp))
            visit(entry)
            for n in list(nodes):
                if n not in idx: visit(n)
            out.reverse()
            return out
        res = []
        def rec(nodes, entry, depth=0):
            for head, comp in scc(nodes, entry):
                # head: the first node reached in the component
                if len(comp) == 1:
                    res.append(comp[0])
                elif depth > 60:
                    res.extend(comp)
                else:
                    res.append(head)
                    rest = set(comp); rest.discard(head)
                    # continue with successors of head first
                    ent = next((s for s in succ[head] if s in rest), next(iter(rest)))
                    rec(rest, ent, depth + 1)
        rec(set(self.blocks), f.entry)
        return res

def operands(i):
    op = i.op
    if op in ir.Module.BIN or op in ir.Module.CAST or op in ('icmp', 'fcmp', 'select', 'freeze', 'load', 'store', 'fneg', 'ret', 'resume', 'extractvalue', 'insertvalue', 'extractelement', 'insertelement', 'atomicrmw', 'cmpxchg'):
        for o in i.a: yield o
    elif op == 'shufflevector':
        yield i.a[0]; yield i.a[1]
    elif op == 'getelementptr':
        for t, o in i.a: yield o
    elif op in ('call', 'invoke'):
        yield i.a[0]
        for t, o in i.x['args']: yield o
    elif op == 'br':
        if len(i.a) == 3: yield i.a[0]
    elif op == 'switch': yield i.a[0]
    elif op == 'indirectbr': yield i.a[0]
    elif op == 'alloca':
        if i.x: yield i.x[1]

# ---------------------------------------------------------------- executor
class Exec:
    def __init__(self, modules, contracts=None, solver=None):
        self.mods = modules if isinstance(modules, list) else [modules]
        self.contracts = dict(DEFAULT_CONTRACTS)
        if contracts: self.contracts.update(contracts)
        self.solver = solver or Solver()
        self.obls = []
        self.finfo = {}
        self.globs = {}
        self.distinct = set()       # frozenset of term-id pairs known distinct
        self.depth = 0; self.maxdepth = 64
        self.maxvisits = 4096
        self.inlined = set()
        self.used_contracts = set()
        self.global_init = {}       # name -> Region override
        self.check_bounds = True
        self.loop_specs = {}        # fname -> {header ordinal: spec}
        self.edge_hook = None
        self.fork_feas = True
        self.feas_timeout = 3000
        self.trace = False
        self.steps = 0
        self.deadline = None

    # ---- symbols
    def find_func(self, name):
        d = None
        for m in self.mods:
            f = m.funcs.get(name)
            if f is not None:
                if not f.is_decl: return f
                d = d or f
        for m in self.mods:
            if name in m.aliases:
                import re
                mm = re.findall(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', m.aliases[name])
                if mm: return self.find_func(mm[-1].strip('"'))
        return d

    def info(self, f):
        i = self.finfo.get(f.name)
        if i is None:
            i = self.finfo[f.name] = FInfo(f)
        return i

    def global_ptr(self, name, mod):
        for m in [mod] + self.mods:
            if m is None: continue
            if name in m.funcs: return Fn(name)
            if name in m.aliases:
                f = self.find_func(name)
                if f: return Fn(f.name)
        g = self.globs.get(name)
        if g is None:
            if name in self.global_init:
                g = self.global_init[name]
            else:
                gm = None
                for m in [mod] + self.mods:
                    if m is not None and name in m.globals:
                        ty, init, const = m.global_def(name)
                        if gm is None or init is not None:
                            gm = m
                            if init is not None: break
                if gm is None: raise Unsupported('global ' + name)
                ty, init, const = gm.global_def(name)
                g = Region('@' + name, 'obj', sizeof(ty) if not (isinstance(ty, StructTy) and not ty.els) else None, const=const)
                if init is not None and const:
                    cells = {}
                    self.flatten(ty, init, 0, cells, gm)
                    g.init_cells = cells
                    g.init = (lambda cells: lambda off, n: None)(cells)
                    g.const_cells = cells
            self.globs[name] = g
        return Ptr(g, 0)

    def flatten(self, ty, v, off, cells, mod):
        k = v[0]
        if k == 'zero' or k == 'undef':
            n = sizeof(ty)
            if n: cells[off] = (0, n)
            return
        if k == 'str':
            for i, b in enumerate(v[1]): cells[off + i] = (b, 1)
            return
        if k == 'agg':
            if isinstance(ty, StructTy):
                end = 0
                for i, (t, o) in enumerate(v[2]):
                    so = ir.struct_offset(ty, i)
                    if so > end: cells[off + end] = (0, so - end)
                    self.flatten(t, o, off + so, cells, mod)
                    end = so + sizeof(t)
            else:
                s = sizeof(ty.el)
                for i, (t, o) in enumerate(v[2]): self.flatten(t, o, off + i * s, cells, mod)
            return
        cells[off] = (self.const(v, ty, mod), storesize(ty))

    def const(self, o, ty, mod, env=None):
        k = o[0]
        if k == 'c': return o[2]
        if k == 'null': return 0
        if k == 'zero':
            return self.zero(ty)
        if k == 'undef': return self.undef(ty)
        if k == 'g': return self.global_ptr(o[1], mod)
        if k == 'ba': return BA(o[1], o[2])
        if k == 'agg': return [self.const(x, t, mod) for t, x in o[2]]
        if k == 'str': return list(o[1])
        if k == 'ce':
            if o[1] == 'gep':
                ops = o[3]
                base = self.const(ops[0][1], ops[0][0], mod)
                return self.gep(base, o[2], [(t, self.const(x, t, mod)) for t, x in ops[1:]])
            if o[1] in ('ptrtoint',): return T.trunc(to_int(self.const(o[3], o[2], mod)), 64, o[4].w)
            if o[1] == 'inttoptr': return to_ptr(self.const(o[3], o[2], mod))
            if o[1] in ('bitcast', 'addrspacecast'): return self.const(o[3], o[2], mod)
            if o[1] == 'trunc': return T.trunc(self.const(o[3], o[2], mod), o[2].w, o[4].w)
            if o[1] in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr'):
                (t, a), (t2, b) = o[2]
                return self.binop(o[1], self.const(a, t, mod), self.const(b, t2, mod), t.w, None, None)
        if k == 'meta': return None
        raise Unsupported('const %r' % (o,))

    def zero(self, ty):
        if isinstance(ty, StructTy): return [self.zero(t) for t in ty.els]
        if isinstance(ty, (ArrTy, VecTy)): return [self.zero(ty.el) for _ in range(ty.n)]
        return 0
    def undef(self, ty):
        if isinstance(ty, StructTy): return [self.undef(t) for t in ty.els]
        if isinstance(ty, (ArrTy, VecTy)): return [self.undef(ty.el) for _ in range(ty.n)]
        if isinstance(ty, PtrTy): return T.fresh('undefp', 64)
        if isinstance(ty, (IntTy, FloatTy)): return T.fresh('undef', 'bool' if ty.w == 1 else ty.w)
        return None

    # ---- obligations
    def oblige(self, st, cond, name, where='', gen=None):
        if isint(cond):
            if cond:
                self.obls.append(Obl(name, True, None, where)); return True
            r = self.solver.check(list(st.pc)) if st.pc else ('sat', None)
            if r[0] == 'unsat':
                self.obls.append(Obl(name, True, None, where)); return True
            self.obls.append(Obl(name, False if r[0] == 'sat' else None, r[1], where, 'constant false', st.pc, cond))
            st.assume(0)
            return False
        if cond.get_id() in st.pcids:
            self.obls.append(Obl(name, True, None, where)); return True
        q = list(st.pc) + [z3.Not(cond)]
        if gen is not None and not isint(gen):
            # how the address is computed does not matter: any address will do
            g = gen
            while g.decl().kind() == z3.Z3_OP_BADD and g.num_args() == 2 and any(z3.is_bv_value(x) for x in g.children()):
                g = [x for x in g.children() if not z3.is_bv_value(x)][0]
            if g.num_args() and not z3.is_bv_value(g):
                if self.solver.check([z3.substitute(x, (g, z3.BitVec('anyaddr', g.size()))) for x in q])[0] == 'unsat':
                    self.obls.append(Obl(name, True, None, where)); return True
        r = self.solver.check(q)
        if r[0] == 'unsat':
            self.obls.append(Obl(name, True, None, where)); 
            return True
        self.obls.append(Obl(name, False if r[0] == 'sat' else None, r[1], where, '', st.pc, cond))
        st.assume(cond)
        return False

    def aligned(self, st, p, line, where):
        """vector-sized accesses the host may perform with aligned instructions"""
        if not isinstance(p, Ptr) or p.r.kind != 'bytes': return
        m = ALIGN_RE.search(line)
        if not m or int(m.group(1)) < 16: return
        k = int(m.group(1)).bit_length() - 1
        self.oblige(st, T.eq(T.extract(k - 1, 0, p.off), 0, k), 'alignment of a vector access', where)

    def feasible(self, st, c):
        """can c hold on this path?"""
        if isint(c): return bool(c)
        if c.get_id() in st.pcids: return True
        n = T.lnot(c)
        if not isint(n) and n.get_id() in st.pcids: return False
        r = self.solver.check(list(st.pc) + [c], self.feas_timeout)
        return r[0] != 'unsat'

    # ---- memory
    def content(self, st, r):
        m = st.mem.get(r.id)
        if m is None:
            m = ObjMem()
            if getattr(r, 'const_cells', None) is not None: m.cells = r.const_cells
        return m

    def find_seg(self, r, off, n):
        if isint(off):
            for s in r.segs:
                if s.count is None: 
                    if off >= s.start: return s
                elif s.start <= off < s.end(): return s
            return None
        lo, hi = T.urange(off, 64)
        for s in r.segs:
            if s.count is None:
                if lo >= s.start: return s
            elif s.start <= lo and hi < s.end(): return s
        # single segment fallback: region consists of that segment only
        for s in r.segs:
            if getattr(s, 'only', False): return s
        return None

    def seg_lookup(self, s, writes, idx):
        pend = []
        res = None
        for k, (i, v) in enumerate(reversed(writes)):
            if i is None:                      # contents after a loop: another array
                res = z3.Select(v, T.bv(idx, s.idxw))
                if getattr(s, 'zero', None) is not None: res = val_ite(T.eq(idx, s.zero, s.idxw), 0, res, 8 * s.stride)
                break
            if T.same(i, idx):
                res = v; break
            if isint(i) and isint(idx): continue
            if self.known_distinct(i, idx): continue
            pend.append((T.eq(idx, i, s.idxw), v))
        if res is None:
            rd = getattr(s, 'reader', None)
            if rd: res = rd(idx)
            else: res = z3.Select(s.base, T.bv(idx, s.idxw))
        for c, v in reversed(pend):
            res = val_ite(c, v, res, 8 * s.stride)
        return res

    def known_distinct(self, i, j):
        if isint(i) and isint(j): return i != j
        a = ('c', i) if isint(i) else i.get_id(); b = ('c', j) if isint(j) else j.get_id()
        return (a, b) in self.distinct or (b, a) in self.distinct
    def declare_distinct(self, i, j):
        a = ('c', i) if isint(i) else i.get_id(); b = ('c', j) if isint(j) else j.get_id()
        self.distinct.add((a, b))

    def seg_index(self, s, off):
        rel = T.sub(off, s.start, 64)
        sh = s.stride.bit_length() - 1
        if (1 << sh) != s.stride: 
            if isint(rel): return rel // s.stride, rel % s.stride
            raise Unsupported('symbolic index into stride %d' % s.stride)
        inner = T.extract(sh - 1, 0, rel) if sh else 0
        idx = T.extract(min(63, sh + s.idxw - 1), sh, rel)
        if min(63, sh + s.idxw - 1) - sh + 1 < s.idxw: idx = T.zext(idx, 64 - sh, s.idxw)
        return idx, inner

    def read(self, st, p, n, where='', isptr=False):
        """n bytes -> value (integer term of width 8n, or pointer-ish)"""
        if isinstance(p, PIte):
            sa = st.copy().assume(p.c); sb = st.copy().assume(T.lnot(p.c))
            if not self.feasible(st, p.c): return self.read(st, p.b, n, where, isptr)
            if not self.feasible(st, T.lnot(p.c)): return self.read(st, p.a, n, where, isptr)
            a = self.read(sa, p.a, n, where, isptr); b = self.read(sb, p.b, n, where, isptr)
            return val_ite(p.c, a, b, 8 * n)
        if not isinstance(p, Ptr):
            p2 = to_ptr(p)
            if is_ptrish(p2): return self.read(st, p2, n, where, isptr)
            self.oblige(st, 0, 'valid-pointer(read)', where)
            return T.fresh('badread', 8 * n)
        r = p.r
        if r.kind == 'hook': return r.hook.read(self, st, p.off, n, where)
        self.bounds(st, r, p.off, n, 'read', where)
        if r.kind == 'bytes':
            arr = st.mem[r.id]
            return T.concat([(self.bsel(arr, T.add(p.off, i, 64)), 8) for i in reversed(range(n))])
        m = self.content(st, r)
        s = self.find_seg(r, p.off, n)
        if s is not None:
            idx, inner = self.seg_index(s, p.off)
            if not isint(inner):
                # symbolic lane inside an element
                v = self.seg_lookup(s, m.segs.get(s.name, ()), idx)
                step = n
                w = 8 * s.stride
                sh = T.shl_c(T.zext(inner, inner.size(), w), 3, w)
                self.oblige(st, T.ule(inner, s.stride - n, inner.size()), 'in-element(read)', where)
                return T.extract(8 * n - 1, 0, T.lshr(v, sh, w))
            if inner + n <= s.stride:
                v = self.seg_lookup(s, m.segs.get(s.name, ()), idx)
                if is_ptrish(v):
                    if inner == 0 and n == 8: return v
                    v = to_int(v)
                return T.extract(8 * (inner + n) - 1, 8 * inner, v)
            # crosses elements
            parts = []
            o = 0
            while o < n:
                k = min(n - o, s.stride - ((inner + o) % s.stride))
                parts.append((self.read(st, Ptr(r, T.add(p.off, o, 64)), k, where), 8 * k)); o += k
            return T.concat(list(reversed(parts)))
        if not isint(p.off):
            return self.read_symoff(st, r, m, p.off, n, where)
        return self.read_cells(r, m, p.off, n)

    def bsel(self, arr, idx):
        # select over store chain with simple syntactic resolution
        idx = T.bv(idx, 64)
        a = arr
        k = 0
        while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE and k < 64:
            j = a.arg(1)
            if j.eq(idx): return T.norm(a.arg(2))
            e = T.eq(T.norm(j), T.norm(idx), 64)
            if isint(e) and e == 0: a = a.arg(0); k += 1; continue
            break
        v = z3.Select(a, idx)
        return T.norm(z3.simplify(v)) if z3.is_quantifier(a) else v

    def read_cells(self, r, m, off, n):
        c = m.cells.get(off)
        if c is not None and c[1] == n: return c[0]
        if c is not None and c[1] > n and not is_ptrish(c[0]):
            return T.extract(8 * n - 1, 0, self.cellint(c))
        # slow path, byte ranges
        parts = []   # low to high
        o = off; end = off + n
        near = self.overlap(m.cells, off, n)
        for co, (v, cn) in near:
            if co > o: parts += self.init_parts(r, o, co - o)
            a = max(o, co); b = min(end, co + cn)
            iv = self.cellint((v, cn))
            parts.append((T.extract(8 * (b - co) - 1, 8 * (a - co), iv), 8 * (b - a)))
            o = b
        if o < end: parts += self.init_parts(r, o, end - o)
        if len(parts) == 1: return parts[0][0]
        return T.concat([(to_int(v), w) for v, w in reversed(parts)])

    def cellint(self, c):
        v, n = c
        if is_ptrish(v): return to_int(v)
        if n > 8 and isint(v): return v
        return v

    def overlap(self, cells, off, n):
        if len(cells) > 4 * n + 64:
            out = []
            # probe: cells start at most 64 bytes earlier
            for o in range(off - 64, off + n):
                c = cells.get(o)
                if c is not None and o + c[1] > off: out.append((o, c))
            # zero-filled big cells
            for o, c in cells.items():
                if c[1] > 64 and o < off - 64 and o + c[1] > off: out.append((o, c))
            out.sort(key=lambda x: x[0])
            return out
        return sorted([(o, c) for o, c in cells.items() if o < off + n and o + c[1] > off], key=lambda x: x[0])

    def init_parts(self, r, off, n):
        """initial contents [off,off+n) as list of (value,width) low to high"""
        if r.init is not None:
            v = r.init(off, n)
            if v is not None: return [(v, 8 * n)]
        parts = []
        o = off
        sh = r.shared
        while o < off + n:
            e = sh.get(o)
            if e is None:
                # maximal fresh run
                k = o
                while k < off + n and k not in sh: k += 1
                sym = z3.BitVec('%s#%d@%d:%d' % (r.name, r.id, o, k - o), 8 * (k - o))
                for i in range(o, k): sh[i] = (sym, i - o)
                e = sh[o]
            sym, idx = e
            k = o; j = idx
            while k < off + n and sh.get(k) is not None and sh[k][0] is sym and sh[k][1] == j: k += 1; j += 1
            parts.append((T.extract(8 * j - 1, 8 * idx, sym), 8 * (k - o)))
            o = k
        return parts

    def read_symoff(self, st, r, m, off, n, where):
        """table lookup in a small constant object"""
        if r.size is None or not isint(r.size) or r.size > 70000:
            raise Unsupported('symbolic offset into %s at %s' % (r.name, where))
        # stride: known low zero bits and residue
        tz, res = T.low_known(off)
        step = 1 << tz
        lo, hi = T.urange(off, 64)
        start = lo - lo % step + res
        cands = [o for o in range(start, min(hi, r.size - n) + 1, step) if o >= lo and o >= 0]
        if len(cands) > 2048: raise Unsupported('large symbolic table %s at %s' % (r.name, where))
        res_v = None
        for o in reversed(cands):
            v = self.read_cells(r, m, o, n)
            if res_v is None: res_v = v
            else:
                res_v = val_ite(T.eq(off, o, 64), v, res_v, 8 * n)
        if res_v is None:
            return T.fresh('emptytable', 8 * n)
        return res_v

    def bounds(self, st, r, off, n, what, where):
        if r.size is None: return
        if isint(r.size) and isint(off):
            if off + n <= r.size and off >= 0: return
            self.oblige(st, 0, 'in-bounds(%s %s)' % (what, r.name), where); return
        if not self.check_bounds: return
        # off <= size - n, with size >= n
        if isint(r.size):
            lo, hi = T.urange(off, 64)
            if hi + n <= r.size: return
            c = T.ule(off, r.size - n, 64) if r.size >= n else 0
        else:
            c = T.land(T.ule(n, r.size, 64), T.ule(off, T.sub(r.size, n, 64), 64))
        self.oblige(st, c, 'in-bounds(%s %s)' % (what, r.name), where, off)

    def write(self, st, p, v, n, where=''):
        if isinstance(p, PIte):
            if not self.feasible(st, p.c): return self.write(st, p.b, v, n, where)
            if not self.feasible(st, T.lnot(p.c)): return self.write(st, p.a, v, n, where)
            sa = st.copy().assume(p.c); sb = st.copy().assume(T.lnot(p.c))
            oa = self.read(sa, p.a, n, where); ob = self.read(sb, p.b, n, where)
            # conditional writes without re-checking bounds
            cb = self.check_bounds; self.check_bounds = False
            try:
                self.write(st, p.a, val_ite(p.c, v, oa, 8 * n), n, where)
                ob = self.read(st, p.b, n, where)
                self.write(st, p.b, val_ite(p.c, ob, v, 8 * n), n, where)
            finally: self.check_bounds = cb
            return
        if not isinstance(p, Ptr):
            p2 = to_ptr(p)
            if is_ptrish(p2): return self.write(st, p2, v, n, where)
            self.oblige(st, 0, 'valid-pointer(write)', where); return
        r = p.r
        if r.kind == 'hook': return r.hook.write(self, st, p.off, v, n, where)
        if r.const: self.oblige(st, 0, 'write to constant', where)
        self.bounds(st, r, p.off, n, 'write', where)
        if r.kind == 'bytes':
            arr = st.mem[r.id]
            v = to_int(v)
            for i in range(n):
                arr = z3.Store(arr, T.bv(T.add(p.off, i, 64), 64), T.bv(T.extract(8 * i + 7, 8 * i, v) if not isint(v) else (v >> (8 * i)) & 255, 8))
            st.mem[r.id] = arr
            return
        m = self.content(st, r)
        s = self.find_seg(r, p.off, n)
        if s is not None:
            idx, inner = self.seg_index(s, p.off)
            ws = m.segs.get(s.name, ())
            w = 8 * s.stride
            if not isint(inner):
                old = self.seg_lookup(s, ws, idx)
                self.oblige(st, T.ule(inner, s.stride - n, inner.size()), 'in-element(write)', where)
                sh = T.shl_c(T.zext(inner, inner.size(), w), 3, w)
                msk = T.shl(T.mask(8 * n), sh, w) if not isint(sh) else 0
                val = T.shl(T.zext(to_int(v), 8 * n, w), sh, w)
                nv = T.bor(T.band(old, T.bnot(msk, w), w), val, w)
            elif inner + n <= s.stride:
                if n == s.stride: nv = v
                else:
                    old = to_int(self.seg_lookup(s, ws, idx))
                    nv = T.concat([(T.extract(w - 1, 8 * (inner + n), old) if inner + n < s.stride else 0, w - 8 * (inner + n)), (to_int(v), 8 * n), (T.extract(8 * inner - 1, 0, old) if inner else 0, 8 * inner)])
            else:
                o = 0; iv = to_int(v)
                while o < n:
                    k = min(n - o, s.stride - ((inner + o) % s.stride))
                    self.write(st, Ptr(r, T.add(p.off, o, 64)), T.extract(8 * (o + k) - 1, 8 * o, iv), k, where); o += k
                return
            m = m.copy()
            m.segs[s.name] = tuple((i, x) for i, x in ws if i is None or not T.same(i, idx)) + ((idx, nv),)
            st.mem[r.id] = m
            return
        if not isint(p.off):
            return self.write_symoff(st, r, m, p.off, v, n, where)
        m = m.copy()
        self.write_cell(r, m, p.off, v, n)
        st.mem[r.id] = m

    def write_cell(self, r, m, off, v, n):
        cells = m.cells
        c = cells.get(off)
        if c is not None and c[1] == n:
            cells[off] = (v, n); return
        for co, (cv, cn) in self.overlap(cells, off, n):
            del cells[co]
            iv = self.cellint((cv, cn))
            if co < off: cells[co] = (T.extract(8 * (off - co) - 1, 0, iv), off - co)
            if co + cn > off + n: cells[off + n] = (T.extract(8 * cn - 1, 8 * (off + n - co), iv), co + cn - off - n)
        cells[off] = (v, n)

    def write_symoff(self, st, r, m, off, v, n, where):
        if r.size is None or not isint(r.size) or r.size > 512:
            raise Unsupported('symbolic write offset into %s at %s: %s' % (r.name, where, str(off)[:300]))
        tz, res = T.low_known(off)
        step = 1 << tz
        lo, hi = T.urange(off, 64)
        m = m.copy()
        start = lo - lo % step + res
        for o in range(start, min(hi, r.size - n) + 1, step):
            if o < lo: continue
            old = self.read_cells(r, m, o, n)
            self.write_cell(r, m, o, val_ite(T.eq(off, o, 64), v, old, 8 * n), n)
        st.mem[r.id] = m

    # copy n (concrete) bytes
    def copy(self, st, d, s, n, where):
        if n == 0: return
        if isinstance(s, Ptr) and s.r.kind == 'obj' and isint(s.off) and isinstance(d, Ptr) and d.r.kind == 'obj' and isint(d.off) and not self.find_seg(s.r, s.off, n) and not self.find_seg(d.r, d.off, n):
            self.bounds(st, s.r, s.off, n, 'read', where)
            m = self.content(st, s.r)
            cuts = {s.off, s.off + n}
            ov = self.overlap(m.cells, s.off, n)
            for o, c in ov:
                cuts.add(max(o, s.off)); cuts.add(min(o + c[1], s.off + n))
            for r, o in ((s.r, s.off), (d.r, d.off)):
                for sg in r.segs:
                    if sg.count is None: raise Unsupported('copy of %s' % r.name)
                    for x in range(sg.start, sg.end() + 1, sg.stride):
                        if o < x < o + n: cuts.add(x - o + s.off)
            # gaps: align to 8
            cl = sorted(cuts)
            pieces = []
            for a, b in zip(cl, cl[1:]):
                if self.find_seg(s.r, a, 1) or self.find_seg(d.r, d.off + a - s.off, 1): pieces.append((a, b - a)); continue
                cov = any(o <= a and o + c[1] >= b for o, c in ov)
                if cov and b - a <= 4096: pieces.append((a, b - a))
                else:
                    x = a
                    while x < b:
                        k = min(8 - x % 8, b - x); pieces.append((x, k)); x += k
            vals = [(a, k, self.read_cells(s.r, m, a, k) if not self.find_seg(s.r, a, k) else self.read(st, Ptr(s.r, a), k, where)) for a, k in pieces]
            for a, k, v in vals: self.write(st, Ptr(d.r, d.off + a - s.off), v, k, where)
            return
        if n <= 256:
            k = n
            v = self.read(st, s, k, where)
            self.write(st, d, v, k, where)
            return
        raise Unsupported('large copy %d' % n)

    # ---- values
    def val(self, o, ty, env, f):
        if o[0] == 'l':
            try: return env[o[1]]
            except KeyError: raise Unsupported('undefined value %s in %s' % (o[1], f.name))
        return self.const(o, ty, f.mod, env)

    def gep(self, base, st_ty, idxs):
        off = 0
        t = st_ty
        first = True
        for ty, v in idxs:
            if first:
                sz = sizeof(t); first = False
                off = T.add(off, self.scale(v, ty, sz), 64); continue
            if isinstance(t, StructTy):
                off = T.add(off, ir.struct_offset(t, v), 64); t = t.els[v]
            else:
                t = t.el
                off = T.add(off, self.scale(v, ty, sizeof(t)), 64)
        return ptr_add(base, off)

    def scale(self, v, ty, sz):
        v = to_int(v)
        if ty.w < 64: v = T.sext(v, ty.w, 64)
        return T.mul(v, sz, 64)

    def binop(self, op, a, b, w, st, where):
        if is_ptrish(a): a = to_int(a)
        if is_ptrish(b): b = to_int(b)
        if w == 1:
            if op == 'and' or op == 'mul': return T.land(a, b)
            if op == 'or': return T.lor(a, b)
            if op in ('xor', 'add', 'sub'): return T.lxor(a, b)
            raise Unsupported('i1 %s' % op)
        if op == 'add': return T.add(a, b, w)
        if op == 'sub': return T.sub(a, b, w)
        if op == 'mul': return T.mul(a, b, w)
        if op == 'and': return T.band(a, b, w)
        if op == 'or': return T.bor(a, b, w)
        if op == 'xor': return T.bxor(a, b, w)
        if op in ('shl', 'lshr', 'ashr'):
            # an oversized amount is undefined: an arbitrary value, harmless when discarded
            if isint(b):
                if b >= w: return T.fresh('undef', w)
            elif st is not None and T.urange(b, w)[1] >= w:
                big = T.ule(w, b, w)
                if self.feasible(st, big):
                    return T.ite(big, T.fresh('undef', w), {'shl': T.shl, 'lshr': T.lshr, 'ashr': T.ashr}[op](a, b, w), w)
            return {'shl': T.shl, 'lshr': T.lshr, 'ashr': T.ashr}[op](a, b, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if st is not None:
                nz = T.lnot(T.eq(b, 0, w))
                if not (isint(nz) and nz): self.oblige(st, nz, 'division-by-zero', where)
                if op[0] == 's':
                    ov = T.land(T.eq(a, 1 << (w - 1), w), T.eq(b, T.mask(w), w))
                    if not (isint(ov) and not ov): self.oblige(st, T.lnot(ov), 'division-overflow', where)
            return {'udiv': T.udiv, 'urem': T.urem, 'sdiv': T.sdiv, 'srem': T.srem}[op](a, b, w)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return f_bin(op, a, b, w)
        raise Unsupported(op)

    def icmp(self, pred, a, b, w, st=None):
        if is_ptrish(a) or is_ptrish(b):
            r = self.pcmp(pred, a, b)
            if r is not None: return r
            a = to_int(a); b = to_int(b)
        if w == 1:
            if pred == 'eq': return T.lnot(T.lxor(a, b))
            if pred == 'ne': return T.lxor(a, b)
            if pred == 'ult': return T.land(T.lnot(a), b)
            if pred == 'ugt': return T.land(a, T.lnot(b))
            if pred == 'ule': return T.lor(T.lnot(a), b)
            if pred == 'uge': return T.lor(a, T.lnot(b))
            raise Unsupported('icmp i1 ' + pred)
        if pred == 'eq': return T.eq(a, b, w)
        if pred == 'ne': return T.lnot(T.eq(a, b, w))
        if pred == 'ult': return T.ult(a, b, w)
        if pred == 'ule': return T.ule(a, b, w)
        if pred == 'ugt': return T.ult(b, a, w)
        if pred == 'uge': return T.ule(b, a, w)
        if pred == 'slt': return T.slt(a, b, w)
        if pred == 'sle': return T.sle(a, b, w)
        if pred == 'sgt': return T.slt(b, a, w)
        if pred == 'sge': return T.sle(b, a, w)
        raise Unsupported(pred)

    def pcmp(self, pred, a, b):
        if isinstance(a, PIte):
            x = self.pcmp(pred, a.a, b); y = self.pcmp(pred, a.b, b)
            if x is None: x = self.icmp(pred, to_int(a.a), to_int(b), 64)
            if y is None: y = self.icmp(pred, to_int(a.b), to_int(b), 64)
            return T.ite(a.c, x, y, 1)
        if isinstance(b, PIte):
            x = self.pcmp(pred, a, b.a); y = self.pcmp(pred, a, b.b)
            if x is None: x = self.icmp(pred, to_int(a), to_int(b.a), 64)
            if y is None: y = self.icmp(pred, to_int(a), to_int(b.b), 64)
            return T.ite(b.c, x, y, 1)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r is b.r: return self.icmp(pred, a.off, b.off, 64)
            if pred == 'eq': return 0
            if pred == 'ne': return 1
            return None
        def nonnull(x): return isinstance(x, (Ptr, Fn, BA))
        if isint(a) and a == 0 and nonnull(b) or isint(b) and b == 0 and nonnull(a):
            if pred == 'eq': return 0
            if pred == 'ne': return 1
            return None
        if isinstance(a, Fn) and isinstance(b, Fn):
            if pred == 'eq': return int(a.name == b.name)
            if pred == 'ne': return int(a.name != b.name)
        if isinstance(a, BA) and isinstance(b, BA):
            if pred == 'eq': return int(a.label == b.label)
            if pred == 'ne': return int(a.label != b.label)
        if (isinstance(a, Ptr) and isinstance(b, (Fn, BA))) or (isinstance(b, Ptr) and isinstance(a, (Fn, BA))):
            if pred == 'eq': return 0
            if pred == 'ne': return 1
        return None

    # ---- running
    def call(self, name, args, st, ins=None, f=None):
        c = self.contracts.get(name)
        if c is None:
            c = self.match_contract(name)
        if c is not None:
            self.used_contracts.add(name)
            return c(self, st, args, ins, name)
        fn = self.find_func(name)
        if fn is None or fn.is_decl:
            raise Unsupported('no contract for external function %s' % name)
        return self.run(fn, args, st)

    prefix_contracts = ()
    def match_contract(self, name):
        for p, c in self.prefix_contracts:
            if name.startswith(p): return c
        return None

    def run(self, fn, args, st):
        if self.depth > self.maxdepth: raise Unsupported('call depth at ' + fn.name)
        self.depth += 1
        self.inlined.add(fn.name)
        try:
            return self._run(fn, args, st)
        finally:
            self.depth -= 1

    def _run(self, fn, args, st):
        info = self.info(fn)
        env = {}
        if len(args) < len(fn.params): raise Unsupported('arity ' + fn.name)
        for (t, nm, at), a in zip(fn.params, args): env[nm] = a
        work = {fn.entry: [(st, env, None)]}
        outs = []
        visits = {}
        order = info.order
        while work:
            b = min(work, key=lambda n: order[n])
            items = work.pop(b)
            visits[b] = visits.get(b, 0) + 1
            if visits[b] > self.maxvisits: raise Unsupported('loop in %s does not unroll' % fn.name)
            if self.deadline and time.time() > self.deadline: raise Unsupported('time limit')
            if self.block_hook:
                items = self.block_hook(self, fn, info, b, items, visits[b])
                if not items: continue
            for s, e in self.merge_items(info, b, items):
                self.run_block(fn, info, b, s, e, work, outs)
        return self.merge_outs(outs, fn.ret)
    block_hook = None

    def edge(self, info, work, frm, to, st, env):
        blk = info.blocks[to]
        if blk.phis:
            env = dict(env)
            upd = {}
            for p in blk.phis:
                for v, lab in p.a:
                    if lab == frm:
                        upd[p.res] = self.val(v, p.ty, env, info.f); break
                else: raise Unsupported('phi without edge')
            env.update(upd)
        work.setdefault(to, []).append((st, env, frm))

    def merge_items(self, info, b, items):
        live = info.live[b] | {p.res for p in info.blocks[b].phis}
        cur = []
        for st, env, frm in items:
            e = {k: env[k] for k in live if k in env}
            cur.append((st, e))
        if len(cur) == 1: return cur
        out = [cur[0]]
        for st, env in cur[1:]:
            for k in range(len(out) - 1, -1, -1):
                m = self.merge2(out[k][0], out[k][1], st, env, info.types)
                if m is not None:
                    out[k] = m; break
            else: out.append((st, env))
        return out

    def merge2(self, s1, e1, s2, e2, types):
        """merge two states or None.  Conditions distinguishing them come from
        the path suffixes."""
        for k in set(s1.ghost) | set(s2.ghost):
            if k[0] == '!': continue
            if not val_same(s1.ghost.get(k), s2.ghost.get(k)): return None
        # common prefix
        n = 0
        p1, p2 = s1.pc, s2.pc
        while n < len(p1) and n < len(p2) and p1[n].get_id() == p2[n].get_id(): n += 1
        a = [c for c in p1[n:] if c.get_id() not in s2.pcids]
        b = [c for c in p2[n:] if c.get_id() not in s1.pcids]
        common = [c for c in p1[n:] if c.get_id() in s2.pcids]
        if not a:
            if not b: return (s1, e1) if self.state_same(s1, e1, s2, e2) else None
            # s1 weaker: choose by b
            c = T.lnot(conj(b)) if True else None
            cond = c
        else: cond = conj(a)
        if not self.mergeable(s1, e1, s2, e2): return None
        try:
            env = {}
            for k in e1:
                if k in e2:
                    x, y = e1[k], e2[k]
                    if val_same(x, y): env[k] = x
                    else:
                        t = types[k]
                        w = None if isinstance(t, (StructTy, ArrTy, VecTy)) else bitwidth(t)
                        env[k] = val_ite(cond, x, y, w, t)
            s = State()
            for rid in set(s1.mem) | set(s2.mem):
                m1 = s1.mem.get(rid); m2 = s2.mem.get(rid)
                if m1 is m2: s.mem[rid] = m1
                elif m1 is None or m2 is None:
                    r = self.regions.get(rid)
                    one = m1 if m2 is None else m2
                    if r is None or not isinstance(one, ObjMem): s.mem[rid] = one; continue
                    s.mem[rid] = self.merge_mem(rid, m1 or self.content(s1, r), m2 or self.content(s2, r), cond)
                else: s.mem[rid] = self.merge_mem(rid, m1, m2, cond)
        except Unsupported:
            return None
        for k, v in s1.ghost.items():
            if k[0] == '!' and k in s2.ghost:
                v2 = s2.ghost[k]
                s.ghost[k] = v if val_same(v, v2) else val_ite(cond, v, v2, GHOST_W.get(k, 64))
            elif k[0] != '!': s.ghost[k] = v
        s.pc = p1[:n]
        s.pcids = frozenset(c.get_id() for c in s.pc)
        for c in common: s.assume(c)
        x = disj(a, b)
        if x is not None: s.assume(x)
        return s, env

    def mergeable(self, s1, e1, s2, e2): return True

    def state_same(self, s1, e1, s2, e2):
        for k in e1:
            if k in e2 and not val_same(e1[k], e2[k]): return False
        for rid in set(s1.mem) | set(s2.mem):
            m1 = s1.mem.get(rid); m2 = s2.mem.get(rid)
            if m1 is m2: continue
            return False
        return True

    regions = None
    def merge_mem(self, rid, m1, m2, cond):
        if not isinstance(m1, ObjMem):
            if m1.eq(m2): return m1
            return z3.If(cond, m1, m2)
        r = self.regions.get(rid)
        m = ObjMem()
        if m1.cells is m2.cells: m.cells = m1.cells
        else:
            c1, c2 = m1.cells, m2.cells
            keys = set(c1) | set(c2)
            todo = []
            for k in keys:
                x = c1.get(k); y = c2.get(k)
                if x is not None and y is not None and x[1] == y[1]:
                    m.cells[k] = x if val_same(x[0], y[0]) else (val_ite(cond, x[0], y[0], 8 * x[1]), x[1])
                else: todo.append(k)
            if todo:
                if r is None: raise Unsupported('merge of unknown region')
                # split at all boundaries
                cuts = set()
                for k in todo:
                    for c in (c1, c2):
                        if k in c: cuts.add(k); cuts.add(k + c[k][1])
                cl = sorted(cuts)
                for a, b in zip(cl, cl[1:]):
                    if any(o < b and o + z[1] > a for o, z in m.cells.items()): continue
                    if not any((k in c and k < b and k + c[k][1] > a) for k in todo for c in (c1, c2)): continue
                    x = self.read_cells(r, m1, a, b - a); y = self.read_cells(r, m2, a, b - a)
                    m.cells[a] = (x if val_same(x, y) else val_ite(cond, x, y, 8 * (b - a)), b - a)
        if m1.segs is m2.segs: m.segs = m1.segs
        else:
            for nm in set(m1.segs) | set(m2.segs):
                w1 = m1.segs.get(nm, ()); w2 = m2.segs.get(nm, ())
                if w1 is w2: m.segs[nm] = w1; continue
                seg = next(s for s in r.segs if s.name == nm)
                h1 = [v for i, v in w1 if i is None]; h2 = [v for i, v in w2 if i is None]
                pre = ()
                if h1 or h2:
                    if len(h1) != 1 or len(h2) != 1 or not h1[0].eq(h2[0]): raise Unsupported('merge of loop contents')
                    pre = ((None, h1[0]),); w1 = tuple(x for x in w1 if x[0] is not None); w2 = tuple(x for x in w2 if x[0] is not None)
                # merged list: indices of both, in an order valid for both when they may alias
                idxs = []
                for i, v in w1 + w2:
                    if not any(T.same(i, j) for j in idxs): idxs.append(i)
                nw = []
                for i in idxs:
                    x = self.seg_lookup(seg, pre + w1, i); y = self.seg_lookup(seg, pre + w2, i)
                    nw.append((i, x if val_same(x, y) else val_ite(cond, x, y, 8 * seg.stride)))
                # each entry holds the complete final value at its index, so order is irrelevant
                m.segs[nm] = pre + tuple(nw)
        return m

    def merge_outs(self, outs, rty):
        rets = [o for o in outs if o.kind == 'ret']
        if len(rets) <= 1: return outs
        others = [o for o in outs if o.kind != 'ret']
        types = {'r': rty}
        acc = [(rets[0].st, {'r': rets[0].val} if rets[0].val is not None else {})]
        for o in rets[1:]:
            e = {'r': o.val} if o.val is not None else {}
            for k in range(len(acc) - 1, -1, -1):
                m = self.merge2(acc[k][0], acc[k][1], o.st, e, types)
                if m is not None: acc[k] = m; break
            else: acc.append((o.st, e))
        return [Out('ret', s, e.get('r')) for s, e in acc] + others

    def run_block(self, fn, info, b, st, env, work, outs, start=0):
        blk = info.blocks[b]
        ins = blk.ins
        for k in range(start, len(ins)):
            i = ins[k]
            if i.op == 'call':
                res = self.do_call(fn, i, st, env)
                if len(res) == 1 and res[0].kind == 'ret':
                    st = res[0].st
                    if i.res: env[i.res] = res[0].val
                    continue
                for o in res:
                    if o.kind == 'ret':
                        e = dict(env)
                        if i.res: e[i.res] = o.val
                        self.run_block(fn, info, b, o.st, e, work, outs, k + 1)
                    else: outs.append(o)
                return
            self.steps += 1
            try:
                self.exec_ins(fn, i, st, env)
            except z3.Z3Exception as e:
                raise Unsupported('z3: %s in %s: %s' % (e, fn.name, i))
        t = blk.term
        op = t.op
        if op == 'br':
            if len(t.a) == 1:
                self.edge(info, work, b, t.a[0], st, env); return
            c = self.val(t.a[0], ir.I(1), env, fn)
            self.branch(info, work, b, [(c, t.a[1]), (T.lnot(c), t.a[2])], st, env)
        elif op == 'ret':
            outs.append(Out('ret', st, self.val(t.a[0], t.ty, env, fn) if t.a else None))
        elif op == 'switch':
            v = self.val(t.a[0], t.ty, env, fn)
            if isint(v):
                for c, lab in t.a[2]:
                    if c == v: self.edge(info, work, b, lab, st, env); return
                self.edge(info, work, b, t.a[1], st, env); return
            w = t.ty.w
            groups = {}; rest = 1
            for c, lab in t.a[2]:
                e = T.eq(v, c, w)
                groups[lab] = T.lor(groups.get(lab, 0), e)
                rest = T.land(rest, T.lnot(e))
            alts = []
            for lab, c in groups.items():
                if lab == t.a[1]: rest = T.lor(rest, c)
                else: alts.append((c, lab))
            alts.append((rest, t.a[1]))
            self.branch(info, work, b, alts, st, env)
        elif op == 'indirectbr':
            v = self.val(t.a[0], t.ty, env, fn)
            self.indirect(fn, info, work, b, v, st, env)
        elif op == 'invoke':
            res = self.do_call(fn, t, st, env)
            for o in res:
                e = dict(env) if len(res) > 1 else env
                if o.kind == 'ret':
                    if t.res: e[t.res] = o.val
                    self.edge(info, work, b, t.x['normal'], o.st, e)
                elif o.kind == 'throw':
                    s = o.st
                    s.ghost = dict(s.ghost); s.ghost['inflight'] = o.val
                    self.edge(info, work, b, t.x['unwind'], s, e)
                else: outs.append(o)
        elif op == 'resume':
            ex = st.ghost.get('inflight')
            st.ghost = dict(st.ghost); st.ghost.pop('inflight', None)
            outs.append(Out('throw', st, ex))
        elif op == 'unreachable':
            self.oblige(st, 0, 'unreachable-not-reached', fn.name)
        else: raise Unsupported(op)

    def indirect(self, fn, info, work, b, v, st, env):
        if isinstance(v, PIte):
            if self.feasible(st, v.c):
                self.indirect(fn, info, work, b, v.a, st.copy().assume(v.c), dict(env))
            n = T.lnot(v.c)
            if self.feasible(st, n):
                self.indirect(fn, info, work, b, v.b, st.copy().assume(n), dict(env))
            return
        if not isinstance(v, BA): raise Unsupported('indirect branch to %r' % (v,))
        self.edge(info, work, b, v.label, st, env)

    def branch(self, info, work, b, alts, st, env):
        live = []
        for c, lab in alts:
            if isint(c):
                if c: live = [(1, lab)]; break
                continue
            live.append((c, lab))
        if len(live) > 1 and self.fork_feas:
            ok = [(c, lab) for c, lab in live if self.feasible(st, c)]
            if len(ok) == 1 and len(live) == 2: ok = [(ok[0][0], ok[0][1])]
            live = ok
        for k, (c, lab) in enumerate(live):
            s = st if k == len(live) - 1 else st.copy()
            if k == len(live) - 1 and k > 0: s = st.copy()
            if not isint(c): s.assume(c)
            self.edge(info, work, b, lab, s, env if k == len(live) - 1 else dict(env))

    def do_call(self, fn, i, st, env):
        callee = i.a[0]
        args = []
        for (t, o), at in zip(i.x['args'], i.x['attrs']):
            v = self.val(o, t, env, fn) if o[0] != 'meta' else None
            if 'byval' in at:
                r = self.alloc(st, 'byval', sizeof(at['byval']))
                self.copy(st, Ptr(r, 0), v, sizeof(at['byval']), fn.name)
                v = Ptr(r, 0)
            args.append(v)
        if callee[0] == 'g':
            name = callee[1]
        else:
            v = self.val(callee, ir.PTR, env, fn)
            return self.call_value(v, args, st, i, fn)
        if name.startswith('llvm.'):
            return [Out('ret', st, self.intrinsic(name, args, st, i, fn))]
        return self.call(name, args, st, i, fn)

    def call_value(self, v, args, st, i, fn):
        if isinstance(v, PIte):
            outs = []
            if self.feasible(st, v.c): outs += self.call_value(v.a, args, st.copy().assume(v.c), i, fn)
            n = T.lnot(v.c)
            if self.feasible(st, n): outs += self.call_value(v.b, args, st.copy().assume(n), i, fn)
            return outs
        if isinstance(v, Fn): return self.call(v.name, args, st, i, fn)
        h = self.contracts.get('*indirect')
        if h: return h(self, st, args, i, v)
        if isint(v) and v == 0:
            self.oblige(st, 0, 'call-null', fn.name)
            return []
        raise Unsupported('indirect call to %r in %s' % (v, fn.name))

    def alloc(self, st, name, size, init_zero=False, kind='obj'):
        r = Region(name, kind, size)
        self.regions[r.id] = r
        st.mem[r.id] = ObjMem({0: (0, size)} if init_zero and size else {})
        return r

    def add_region(self, st, r):
        self.regions[r.id] = r
        if r.kind == 'bytes':
            st.mem[r.id] = z3.Array('%s#%d' % (r.name, r.id), z3.BitVecSort(64), z3.BitVecSort(8))
        return r

    def exec_ins(self, fn, i, st, env):
        op = i.op
        V = self.val
        if op in ir.Module.BIN:
            if isinstance(i.ty, VecTy):
                a = V(i.a[0], i.ty, env, fn); b = V(i.a[1], i.ty, env, fn)
                env[i.res] = [self.binop(op, x, y, i.ty.el.w, st, fn.name) for x, y in zip(a, b)]
                return
            env[i.res] = self.binop(op, V(i.a[0], i.ty, env, fn), V(i.a[1], i.ty, env, fn), i.ty.w, st, fn.name)
        elif op == 'load':
            p = V(i.a[0], ir.PTR, env, fn)
            self.aligned(st, p, i.line, fn.name)
            env[i.res] = self.load(st, p, i.ty, fn.name)
        elif op == 'store':
            v = V(i.a[0], i.ty, env, fn); p = V(i.a[1], ir.PTR, env, fn)
            self.aligned(st, p, i.line, fn.name)
            self.store(st, p, v, i.ty, fn.name)
        elif op == 'getelementptr':
            base = V(i.a[0][1], i.a[0][0], env, fn)
            env[i.res] = self.gep(base, i.x, [(t, V(o, t, env, fn)) for t, o in i.a[1:]])
        elif op == 'icmp':
            pred, t = i.x
            a = V(i.a[0], t, env, fn); b = V(i.a[1], t, env, fn)
            if isinstance(t, VecTy): env[i.res] = [self.icmp(pred, x, y, t.el.w) for x, y in zip(a, b)]
            else: env[i.res] = self.icmp(pred, a, b, bitwidth(t), st)
        elif op == 'fcmp':
            pred, t = i.x
            env[i.res] = f_cmp(pred, V(i.a[0], t, env, fn), V(i.a[1], t, env, fn), t.w)
        elif op in ir.Module.CAST:
            env[i.res] = self.cast(op, V(i.a[0], i.x, env, fn), i.x, i.ty, st, fn.name)
        elif op == 'select':
            c = V(i.a[0], i.x, env, fn); a = V(i.a[1], i.ty, env, fn); b = V(i.a[2], i.ty, env, fn)
            if isinstance(c, list): env[i.res] = [val_ite(x, y, z, i.ty.el.w) for x, y, z in zip(c, a, b)]
            else: env[i.res] = val_ite(c, a, b, None if isinstance(i.ty, (StructTy, ArrTy, VecTy)) else bitwidth(i.ty), i.ty)
        elif op == 'freeze': env[i.res] = V(i.a[0], i.ty, env, fn)
        elif op == 'alloca':
            n = 1
            if i.x:
                n = V(i.x[1], i.x[0], env, fn)
                if not isint(n): raise Unsupported('dynamic alloca')
            r = self.alloc(st, i.res.lstrip('%') + '@' + fn.name[:40], sizeof(i.ty) * n)
            env[i.res] = Ptr(r, 0)
        elif op == 'extractvalue':
            v = V(i.a[0], i.x[0], env, fn)
            for k in i.x[1]: v = v[k]
            env[i.res] = v
        elif op == 'insertvalue':
            v = V(i.a[0], i.ty, env, fn); ev = V(i.a[1], i.x[0], env, fn)
            env[i.res] = ins_val(v, i.x[1], ev)
        elif op == 'fneg':
            w = i.ty.w
            env[i.res] = T.bxor(V(i.a[0], i.ty, env, fn), 1 << (w - 1), w)
        elif op == 'landingpad':
            ex = st.ghost.get('inflight')
            tok = T.fresh('exc', 64)
            sel = self.landing(fn, i, ex)
            env[i.res] = [ex, sel]
        elif op == 'atomicrmw':
            p = V(i.a[0], ir.PTR, env, fn); v = V(i.a[1], i.ty, env, fn)
            old = self.load(st, p, i.ty, fn.name); w = i.ty.w
            o = i.x
            new = {'xchg': lambda: v, 'add': lambda: T.add(old, v, w), 'sub': lambda: T.sub(old, v, w), 'and': lambda: T.band(old, v, w),
                   'or': lambda: T.bor(old, v, w), 'xor': lambda: T.bxor(old, v, w),
                   'max': lambda: T.ite(T.slt(old, v, w), v, old, w), 'min': lambda: T.ite(T.slt(old, v, w), old, v, w),
                   'umax': lambda: T.ite(T.ult(old, v, w), v, old, w), 'umin': lambda: T.ite(T.ult(old, v, w), old, v, w)}.get(o)
            if new is None: raise Unsupported('atomicrmw ' + o)
            self.store(st, p, new(), i.ty, fn.name)
            env[i.res] = old
        elif op == 'cmpxchg':
            p = V(i.a[0], ir.PTR, env, fn); c = V(i.a[1], i.x, env, fn); n = V(i.a[2], i.x, env, fn)
            old = self.load(st, p, i.x, fn.name); w = bitwidth(i.x)
            e = self.icmp('eq', old, c, w)
            self.store(st, p, val_ite(e, n, old, w), i.x, fn.name)
            env[i.res] = [old, e]
        elif op == 'extractelement':
            v = V(i.a[0], i.x[0], env, fn); k = V(i.a[1], i.x[1], env, fn)
            if not isint(k): raise Unsupported('extractelement')
            env[i.res] = v[k]
        elif op == 'insertelement':
            v = list(V(i.a[0], i.ty, env, fn)); ev = V(i.a[1], i.x[0], env, fn); k = V(i.a[2], i.x[1], env, fn)
            if not isint(k): raise Unsupported('insertelement')
            v[k] = ev; env[i.res] = v
        elif op == 'shufflevector':
            v = list(V(i.a[0], i.x[0], env, fn)) + list(V(i.a[1], i.x[0], env, fn)); mk = V(i.a[2], i.x[1], env, fn)
            env[i.res] = [v[k] if isint(k) else self.undef(i.x[0].el) for k in mk]
        elif op == 'asm':
            if 'sideeffect' in i.line or True:
                if i.res: raise Unsupported('asm')
        else: raise Unsupported('instruction ' + op)

    def load(self, st, p, ty, where):
        if isinstance(ty, StructTy):
            return [self.load(st, ptr_add(p, ir.struct_offset(ty, k)), t, where) for k, t in enumerate(ty.els)]
        if isinstance(ty, (ArrTy, VecTy)):
            s = sizeof(ty.el)
            return [self.load(st, ptr_add(p, k * s), ty.el, where) for k in range(ty.n)]
        n = storesize(ty)
        v = self.read(st, p, n, where)
        if isinstance(ty, PtrTy): return to_ptr(v) if not is_ptrish(v) else v
        if isinstance(ty, IntTy) and is_ptrish(v): v = to_int(v)
        if isinstance(v, z3.BoolRef): v = T.bv(v, 8 * n)
        if ty.w == 1:
            # bool objects hold 0 or 1
            if isint(v): return v & 1
            return T.boolof(T.extract(0, 0, v))
        if ty.w < 8 * n: v = T.extract(ty.w - 1, 0, v)
        return v

    def store(self, st, p, v, ty, where):
        if isinstance(ty, StructTy):
            for k, t in enumerate(ty.els): self.store(st, ptr_add(p, ir.struct_offset(ty, k)), v[k], t, where)
            return
        if isinstance(ty, (ArrTy, VecTy)):
            s = sizeof(ty.el)
            for k in range(ty.n): self.store(st, ptr_add(p, k * s), v[k], ty.el, where)
            return
        n = storesize(ty)
        if isinstance(ty, (IntTy, FloatTy)):
            if ty.w == 1: v = T.zext(T.bv(v, 1), 1, 8) if not isint(v) else v
            elif ty.w < 8 * n: v = T.zext(v, ty.w, 8 * n)
        self.write(st, p, v, n, where)

    def cast(self, op, v, t, t2, st, where):
        if isinstance(t, VecTy):
            if op == 'bitcast':
                iv = T.concat([(x, bitwidth(t.el)) for x in reversed(v)]) if isinstance(v, list) else v
                if isinstance(t2, VecTy):
                    w = bitwidth(t2.el)
                    return [T.extract(w * k + w - 1, w * k, iv) for k in range(t2.n)]
                return iv
            return [self.cast(op, x, t.el, t2.el, st, where) for x in v]
        if isinstance(t2, VecTy):
            w = bitwidth(t2.el)
            return [T.extract(w * k + w - 1, w * k, v) for k in range(t2.n)]
        if op == 'ptrtoint':
            v = to_int(v); return T.trunc(v, 64, t2.w)
        if op == 'inttoptr': return to_ptr(v)
        if op in ('bitcast', 'addrspacecast'): return v
        if is_ptrish(v): v = to_int(v)
        w, w2 = t.w, t2.w
        if op == 'trunc':
            if w2 == 1: return v & 1 if isint(v) else T.boolof(T.extract(0, 0, v))
            return T.trunc(v, w, w2)
        if op == 'zext':
            if w == 1: return v if isint(v) else T.b2bv(v, w2)
            return T.zext(v, w, w2)
        if op == 'sext':
            if w == 1: return T.ite(v, T.mask(w2), 0, w2)
            return T.sext(v, w, w2)
        if op in ('fptrunc', 'fpext'): return uf('%s_%d_%d' % (op, w, w2), [v], [w], w2)
        if op in ('fptosi', 'fptoui'):
            if not isint(v) and z3.is_app(v) and v.decl().name() == 'trunc%d' % w: v = T.norm(v.arg(0))   # conversion truncates
            return uf('%s_%d_%d' % (op, w, w2), [v], [w], w2)
        if op in ('sitofp', 'uitofp'):
            if isint(v): pass
            # canonical form: signed 64-bit source for anything that fits
            if w == 1: v = T.bv(v, 1)
            if op == 'sitofp' and w < 64: v = T.sext(v, w, 64); w = 64
            if op == 'uitofp' and w < 64: v = T.zext(v, w, 64); w = 64; op = 'sitofp'
            return uf('%s_%d_%d' % (op, w, w2), [v], [w], w2)
        raise Unsupported(op)

    def landing(self, fn, i, ex):
        """selector value for exception ex (a ghost tuple (typeinfo-name, ...))"""
        ti = ex[0] if isinstance(ex, tuple) else None
        for k, o in i.a:
            if k == 'catch':
                if o[0] == 'null': return 1 << 20
                nm = o[1] if o[0] == 'g' else None
                if nm is None: raise Unsupported('catch clause')
                if ti is None: raise Unsupported('unknown exception type at landing pad')
                if nm in exc_bases(ti): return typeid(nm)
        return 0

    # ---- intrinsics
    def intrinsic(self, name, args, st, i, fn):
        n = name[5:]
        where = fn.name
        if n.startswith(('lifetime', 'dbg', 'invariant', 'assume', 'experimental.noalias', 'prefetch', 'var.annotation')): return None
        if n.startswith('expect'): return args[0]
        if n.startswith('is.constant'): return 0
        if n.startswith('objectsize'): return T.mask(64)
        if n.startswith('launder') or n.startswith('strip.invariant') or n.startswith('threadlocal.address'): return args[0]
        if n.startswith('eh.typeid.for'):
            a = args[0]
            return typeid(a.r.name.lstrip('@')) if isinstance(a, Ptr) else 0
        if n.startswith(('memcpy', 'memmove')):
            k = args[2]
            for q, ln in zip(args[:2], i.line.split('(', 1)[-1].split(', ')[:2]): self.aligned(st, q, ln, where)
            if isint(k): self.copy(st, args[0], args[1], k, where); return None
            return self.bulk_copy(st, args[0], args[1], k, where)
        if n.startswith('memset'):
            k = args[2]; v = args[1]
            if isint(k) and isinstance(args[0], Ptr) and args[0].r.kind == 'obj':
                p = args[0]
                if isint(v) and k > 0 and isint(p.off) and self.find_seg(p.r, p.off, k) is None:
                    val = int.from_bytes(bytes([v]) * k, 'little')
                    self.bounds(st, p.r, p.off, k, 'write', where)
                    if v == 0 or k <= 4096:
                        m = self.content(st, p.r).copy()
                        self.write_cell(p.r, m, p.off, val, k)
                        st.mem[p.r.id] = m
                        return None
                for j in range(0, k):
                    self.write(st, ptr_add(args[0], j), v, 1, where)
                return None
            if isint(k) and k <= 64:
                for j in range(k): self.write(st, ptr_add(args[0], j), v, 1, where)
                return None
            return self.bulk_set(st, args[0], v, k, where)
        ty = i.ty
        w = bitwidth(ty) if ty is not None and not isinstance(ty, (ir.VoidTy, StructTy)) else None
        if isinstance(ty, VecTy): raise Unsupported('vector intrinsic ' + name)
        a = [to_int(x) if is_ptrish(x) else x for x in args]
        if n.startswith('umin.'): return T.ite(T.ult(a[0], a[1], w), a[0], a[1], w)
        if n.startswith('umax.'): return T.ite(T.ult(a[0], a[1], w), a[1], a[0], w)
        if n.startswith('smin.'): return T.ite(T.slt(a[0], a[1], w), a[0], a[1], w)
        if n.startswith('smax.'): return T.ite(T.slt(a[0], a[1], w), a[1], a[0], w)
        if n.startswith('abs.'): return T.ite(T.slt(a[0], 0, w), T.sub(0, a[0], w), a[0], w)
        if n.startswith('ctpop'): return T.popcount(a[0], w)
        if n.startswith('ctlz'): 
            r = T.clz(a[0], w)
            # undefined at zero: an arbitrary value, harmless when discarded
            return T.ite(T.eq(a[0], 0, w), T.fresh('undef', w), r, w) if isint(a[1]) and a[1] and self.feasible(st, T.eq(a[0], 0, w)) else r
        if n.startswith('cttz'):
            r = T.ctz(a[0], w)
            return T.ite(T.eq(a[0], 0, w), T.fresh('undef', w), r, w) if isint(a[1]) and a[1] and self.feasible(st, T.eq(a[0], 0, w)) else r
        if n.startswith('bswap'):
            return T.concat([(T.extract(8 * k + 7, 8 * k, a[0]), 8) for k in range(w // 8)])
        if n.startswith('bitreverse'):
            return T.concat([(T.extract(k, k, a[0]), 1) for k in range(w)])
        if n.startswith('fshl') or n.startswith('fshr'):
            s = T.urem(a[2], w, w)
            if isint(s):
                if s == 0: return a[0] if n.startswith('fshl') else a[1]
                if n.startswith('fshl'): return T.bor(T.shl(a[0], s, w), T.lshr(a[1], w - s, w), w)
                return T.bor(T.shl(a[0], w - s, w), T.lshr(a[1], s, w), w)
            wide = T.concat([(a[0], w), (a[1], w)])
            sw = T.zext(s, w, 2 * w)
            if n.startswith('fshl'): return T.extract(2 * w - 1, w, T.shl(wide, sw, 2 * w))
            return T.extract(w - 1, 0, T.lshr(wide, sw, 2 * w))
        for o in ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul'):
            if n.startswith(o + '.with.overflow'):
                w = ty.els[0].w
                f = {'add': T.add, 'sub': T.sub, 'mul': T.mul}[o[1:]]
                ext = T.sext if o[0] == 's' else T.zext
                w2 = 2 * w if o[1:] == 'mul' else w + 1
                r = f(a[0], a[1], w)
                full = f(ext(a[0], w, w2), ext(a[1], w, w2), w2)
                return [r, T.lnot(T.eq(full, ext(r, w, w2), w2))]
            if n.startswith(o + '.sat'):
                f = {'add': T.add, 'sub': T.sub}[o[1:]]
                ext = T.sext if o[0] == 's' else T.zext
                r = f(a[0], a[1], w)
                full = f(ext(a[0], w, w + 1), ext(a[1], w, w + 1), w + 1)
                ovf = T.lnot(T.eq(full, ext(r, w, w + 1), w + 1))
                if o[0] == 'u': sat = T.mask(w) if o == 'uadd' else 0
                else: sat = T.ite(T.slt(full, 0, w + 1), 1 << (w - 1), T.mask(w - 1), w)
                return T.ite(ovf, sat, r, w)
        if n.startswith('fabs'): return T.band(a[0], T.mask(w - 1), w)
        if n.startswith('copysign'): return T.concat([(T.extract(w - 1, w - 1, a[1]), 1), (T.extract(w - 2, 0, a[0]), w - 1)])
        if n.startswith('fma.') : return uf('fma%d' % w, a, [w, w, w], w)
        if n.startswith('fmuladd'): return f_bin('fadd', f_bin('fmul', a[0], a[1], w), a[2], w)
        if n.startswith('sqrt'): return uf('sqrt%d' % w, a, [w], w)
        for o in ('floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'round', 'roundeven', 'exp', 'log', 'log2', 'exp2'):
            if n.startswith(o + '.'): return uf('%s%d' % (o, w), a, [w], w)
        if n.startswith('minnum.') or n.startswith('maxnum.'): return f_minmax(n[:3], a[0], a[1], w)
        for o in ('minimum', 'maximum', 'pow'):
            if n.startswith(o + '.'): return uf('%s%d' % (o, w), a, [w, w], w)
        if n.startswith('ldexp'): return uf('ldexp%d' % w, a, [w, 32], w)
        if n.startswith('lrint') or n.startswith('llrint'):
            sw = bitwidth(i.x['args'][0][0])
            return uf('lrint_%d_%d' % (sw, w), a, [sw], w)
        if n.startswith('is.fpclass'): 
            sw = bitwidth(i.x['args'][0][0]); m = a[1]
            if m == 3: return f_isnan(a[0], sw)
            raise Unsupported(name)
        if n.startswith('trap'):
            self.oblige(st, 0, 'trap', where); return None
        if n.startswith('stacksave') or n.startswith('stackrestore'): return T.fresh('stk', 64)
        raise Unsupported('intrinsic ' + name)

    # symbolic-length block operations on byte regions
    def bulk_copy(self, st, d, s, n, where):
        h = self.contracts.get('*bulk_copy')
        if h: return h(self, st, d, s, n, where)
        if not isinstance(d, Ptr): d = to_ptr(d)
        if not isinstance(s, Ptr): s = to_ptr(s)
        if not (isinstance(d, Ptr) and isinstance(s, Ptr)): raise Unsupported('bulk copy %r %r in %s' % (d, s, where))
        self.bulk_bounds(st, s, n, 'read', where)
        self.bulk_bounds(st, d, n, 'write', where)
        if s.r.kind == 'bytes' and d.r.kind == 'bytes':
            k = z3.BitVec(T.fresh_name('k'), 64)
            so, do, nn = T.bv(s.off, 64), T.bv(d.off, 64), T.bv(n, 64)
            st.mem[d.r.id] = z3.Lambda([k], z3.If(z3.ULT(k - do, nn), z3.Select(st.mem[s.r.id], k - do + so), z3.Select(st.mem[d.r.id], k)))
            return None
        if d.r.kind == 'bytes':
            k = z3.BitVec(T.fresh_name('k'), 64)
            fresh = z3.Array(T.fresh_name('blk'), z3.BitVecSort(64), z3.BitVecSort(8))
            do, nn = T.bv(d.off, 64), T.bv(n, 64); v = z3.Select(fresh, k)
            if s.r.kind == 'obj' and isint(s.r.size) and isint(s.off) and s.r.size - s.off <= 256:
                bs = [self.read(st, Ptr(s.r, s.off + j), 1, where) for j in range(s.r.size - s.off)]
                if not any(is_ptrish(x) for x in bs):
                    for j, x in enumerate(bs): v = z3.If(k - do == j, T.bv(x, 8), v)
            st.mem[d.r.id] = z3.Lambda([k], z3.If(z3.ULT(k - do, nn), v, z3.Select(st.mem[d.r.id], k)))
            return None
        raise Unsupported('bulk copy into object %s' % d.r.name)
    def bulk_bounds(self, st, p, n, what, where):
        r = p.r
        if r.size is None: return
        sz = T.bv(r.size, 64); off = T.bv(p.off, 64); nn = T.bv(n, 64)
        c = z3.Or(nn == 0, z3.And(z3.ULE(nn, sz), z3.ULE(off, sz - nn)))
        self.oblige(st, c, 'in-bounds(block %s %s)' % (what, r.name), where)
    def bulk_set(self, st, d, v, n, where):
        h = self.contracts.get('*bulk_set')
        if h: return h(self, st, d, v, n, where)
        if not isinstance(d, Ptr): d = to_ptr(d)
        if not isinstance(d, Ptr): raise Unsupported('bulk set %r' % d)
        self.bulk_bounds(st, d, n, 'write', where)
        if d.r.kind == 'bytes':
            k = z3.BitVec(T.fresh_name('k'), 64)
            do, nn = T.bv(d.off, 64), T.bv(n, 64)
            st.mem[d.r.id] = z3.Lambda([k], z3.If(z3.ULT(k - do, nn), T.bv(v, 8), z3.Select(st.mem[d.r.id], k)))
            return None
        raise Unsupported('bulk set')

GHOST_W = {}
Exec.regions = {}

def disj(a, b):
    """condition (and a) or (and b), None when trivially true"""
    if not a or not b: return None
    if len(a) == 1 and len(b) == 1:
        n = T.lnot(a[0])
        if not isint(n) and n.get_id() == b[0].get_id(): return None
        n = T.lnot(b[0])
        if not isint(n) and n.get_id() == a[0].get_id(): return None
    # A and not-last(A): factor
    return z3.Or(conj(a), conj(b))

def ptr_add(p, off):
    if isint(off) and off == 0: return p
    if isinstance(p, Ptr): return Ptr(p.r, T.add(p.off, off, 64))
    if isinstance(p, PIte): return PIte(p.c, ptr_add(p.a, off), ptr_add(p.b, off))
    if is_ptrish(p): raise Unsupported('arithmetic on code pointer')
    return to_ptr(T.add(p, off, 64))

def ins_val(v, ix, ev):
    v = list(v)
    if len(ix) == 1: v[ix[0]] = ev
    else: v[ix[0]] = ins_val(v[ix[0]], ix[1:], ev)
    return v

TYPEIDS = {}
def typeid(nm): return TYPEIDS.setdefault(nm, len(TYPEIDS) + 1)

EXC_BASES = {
    '_ZTIN5loong16MachineExceptionE': ['_ZTISt13runtime_error', '_ZTISt9exception'],
    '_ZTIN5loong23MachineTimeoutExceptionE': ['_ZTIN5loong16MachineExceptionE', '_ZTISt13runtime_error', '_ZTISt9exception'],
    '_ZTISt13runtime_error': ['_ZTISt9exception'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt16invalid_argument': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'],
}
def exc_bases(t): return [t] + EXC_BASES.get(t, [])

# ---------------------------------------------------------------- default contracts
def c_throw(ex, st, args, ins, name):
    obj, ti = args[0], args[1]
    tn = ti.r.name.lstrip('@') if isinstance(ti, Ptr) else '?'
    info = st.ghost.get(('excobj', obj.r.id)) if isinstance(obj, Ptr) else None
    return [Out('throw', st, (tn,) + (info or ()))]

def c_alloc_exc(ex, st, args, ins, name):
    r = ex.alloc(st, 'exception', args[0] if isint(args[0]) else 256)
    return [Out('ret', st, Ptr(r, 0))]

def c_nop(ex, st, args, ins, name): return [Out('ret', st, None)]

def c_rethrow(ex, st, args, ins, name):
    return [Out('throw', st, st.ghost.get('caught') or ('?',))]

def c_begin_catch(ex, st, args, ins, name):
    st.ghost = dict(st.ghost)
    st.ghost['caught'] = args[0]
    st.ghost.pop('inflight', None)
    r = ex.alloc(st, 'caught', 256)
    return [Out('ret', st, Ptr(r, 0))]
def c_end_catch(ex, st, args, ins, name):
    st.ghost = dict(st.ghost); st.ghost.pop('caught', None)
    return [Out('ret', st, None)]

def c_new(ex, st, args, ins, name):
    n = args[0]
    if isint(n): r = ex.alloc(st, 'heap', n)
    else:
        r = Region('heap', 'bytes', n); ex.add_region(st, r)
    return [Out('ret', st, Ptr(r, 0))]

def throw_std(ti):
    def c(ex, st, args, ins, name): return [Out('throw', st, (ti,))]
    return c

DEFAULT_CONTRACTS = {
    '__cxa_throw': c_throw, '__cxa_allocate_exception': c_alloc_exc, '__cxa_free_exception': c_nop,
    '__cxa_rethrow': c_rethrow, '__cxa_begin_catch': c_begin_catch, '__cxa_end_catch': c_end_catch,
    '_Znwm': c_new, '_Znam': c_new, '_ZdlPv': c_nop, '_ZdlPvm': c_nop, '_ZdaPv': c_nop, '_ZdaPvm': c_nop,
    '_ZSt20__throw_length_errorPKc': throw_std('_ZTISt12length_error'),
    '_ZSt24__throw_out_of_range_fmtPKcz': throw_std('_ZTISt12out_of_range'),
    '_ZSt20__throw_out_of_rangePKc': throw_std('_ZTISt12out_of_range'),
    '_ZSt19__throw_logic_errorPKc': throw_std('_ZTISt11logic_error'),
    '_ZSt17__throw_bad_allocv': throw_std('_ZTISt9bad_alloc'),
    '_ZSt25__throw_bad_function_callv': throw_std('_ZTISt17bad_function_call'),
}
