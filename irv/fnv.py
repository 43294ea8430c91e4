"""Contracts on functions: a unit runs one function of the real code from an
arbitrary state satisfying its precondition and discharges its postcondition
(and every side condition met on the way) on every path."""
import re, subprocess, time
import z3
from . import terms as T, build, engine, world, pool
from .engine import *
from .world import World, layout, MEXC, TEXC, EXC, EXCL
from .insn import LIBM
from .loops import LoopExec

_mods = {}
_dem = {}
def modules(srcs):
    key = tuple(srcs)
    if key not in _mods: _mods[key] = build.load(list(srcs))
    return _mods[key]

def demangled(mods):
    key = id(mods)
    if key not in _dem:
        names = sorted({n for m in mods for n, f in m.funcs.items() if not f.is_decl})
        o = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        _dem[key] = list(zip(names, o))
    return _dem[key]

_all = {}
def allnames(mods):
    key = id(mods)
    if key not in _all:
        names = sorted({n for m in mods for n in m.funcs})
        o = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        _all[key] = list(zip(names, o))
    return _all[key]

def find(mods, pat):
    """the defined function whose demangled name starts with / matches pat"""
    c = [n for n, d in demangled(mods) if d.startswith(pat)]
    if not c: c = [n for n, d in demangled(mods) if re.search(pat, d)]
    if len(c) > 1:
        d = dict(demangled(mods)); c2 = [n for n in c if d[n].split('[')[0] == pat or d[n].split('(')[0] == pat.split('(')[0]]
        c = c2 or c
    if not c: raise Unsupported('function %s not found in the code' % pat)
    return c[0]

class Result:
    def __init__(self): self.obls = []; self.funcs = set(); self.solver_s = 0; self.queries = 0; self.err = None; self.used = set(); self.paths = 0
    def bad(self): return [o for o in self.obls if o[1] is not True]

class Ctx:
    """what a unit works with"""
    def __init__(self, mods, timeout=30000, deadline=200, contracts=None, machine=True, inv=True):
        C = dict(world.BASE_CONTRACTS); C.update(LIBM); C.update(STD); C.update(contracts or {})
        self.mods = mods
        ex = self.ex = LoopExec(mods, C, Solver(timeout)); ex.deadline = time.time() + deadline; ex.regions = {}
        self.watch = {}; self.bytewatch = []; self.extra_obls = []
        if machine:
            w = self.w = World(ex, inv=inv); self.st = w.st; self.m = Ptr(w.machine, 0); L = self.L = w.L
            self.mem = Ptr(w.machine, L['memory']); self.cpu = Ptr(w.machine, L['cpu'])
            self.watch.update(N=w.N, RO=w.RO, DA=w.DA)
        else: self.w = None; self.st = State(); self.L = layout()
    def sym(self, name, w=64):
        v = z3.BitVec(name, w); self.watch[name] = v; return v
    def obj(self, name, size, cells=None, const=False):
        r = Region(name, 'obj', size, const=const); self.ex.add_region(self.st, r); self.st.mem[r.id] = ObjMem(dict(cells or {})); return r
    def bytes(self, name, size, const=False):
        r = Region(name, 'bytes', size, const=const); self.ex.add_region(self.st, r); r.init_arr = self.st.mem[r.id]; return r
    def fn(self, pat): return find(self.mods, pat)
    def call(self, pat, args, st=None):
        return self.ex.call(self.fn(pat), args, (st or self.st).copy())
    def ob(self, st, cond, name):
        """postcondition obligation"""
        if isinstance(cond, bool): cond = int(cond)
        s = st.copy()
        self.ex.oblige(s, cond, name, 'post')
    def on(self, pat, f):
        """contract f for every function (also external ones) whose demangled name matches"""
        n = 0
        for nm, d in allnames(self.mods):
            if re.search(pat, d): self.ex.contracts[nm] = f; n += 1
        return n
    def unreachable(self, st, name): self.ob(st, 0, name)
    def field(self, st, name, n=8): return self.ex.read(st, Ptr(self.w.machine, self.L[name]), n)
    def memfield(self, st, name, n=8): return self.ex.read(st, Ptr(self.w.machine, self.L['memory'] + self.L[name]), n)
    def frame(self, st, allowed, name='frame: machine object', regs=True):
        """the machine object is unchanged outside the named byte ranges [(off, n)]"""
        w = self.w; m = self.ex.content(st, w.machine)
        bad = []
        for off, (v, n) in sorted(m.cells.items()):
            for k in self.pieces(off, n, allowed):
                old = self.ex.read_cells(w.machine, ObjMem(), k[0], k[1]); new = self.ex.read_cells(w.machine, m, k[0], k[1])
                if not val_same(old, new):
                    c = T.eq(to_int(old), to_int(new), 8 * k[1])
                    self.ob(st, c, '%s (+%d)' % (name, k[0]))
        if regs:
            for s in (w.regs, w.vr):
                if m.segs.get(s.name): 
                    i = T.fresh('frame_idx', 5); new = self.ex.seg_lookup(s, m.segs[s.name], i); old = self.ex.seg_lookup(s, (), i)
                    self.ob(st, T.eq(to_int(new), to_int(old), 8 * s.stride), name + ': ' + s.name)
    def pieces(self, off, n, allowed):
        out = []; o = off
        while o < off + n:
            if any(a <= o < a + k for a, k in allowed): o += 1; continue
            e = o
            while e < off + n and e - o < 8 and not any(a <= e < a + k for a, k in allowed): e += 1
            out.append((o, e - o)); o = e
        return out
    def arena(self, st): return st.mem[self.w.arena.id]
    def arena_at(self, st, a): return z3.Select(self.arena(st), T.bv(a, 64))
    def is_exc(self, o, kind=None, data=None):
        """condition: outcome o is a MachineException of kind (with data)"""
        if o.kind != 'throw' or not isinstance(o.val, tuple) or o.val[0] not in (MEXC, TEXC) or len(o.val) < 3: return 0
        c = 1
        if kind is not None: c = T.eq(o.val[1], EXC[kind], 32)
        if data is not None: c = T.land(c, T.eq(to_int(o.val[2]), data, 64))
        return c
    def result(self, r):
        ex = self.ex; bad = 0
        for o in ex.obls:
            vals = None
            if o.ok is not True and bad < 12:
                bad += 1
                vals = self.values(o)
            weak = getattr(ex, 'weak', None)
            r.obls.append((o.name + (' [%s]' % o.where if o.where and o.where != 'post' else ''), None if weak and o.ok is False else o.ok, vals if not weak else dict(vals or {}, error='loop invariant not decided in time: %s' % weak) if o.ok is not True else None))
        r.funcs |= ex.inlined; r.used |= ex.used_contracts; r.solver_s += ex.solver.time; r.queries += ex.solver.n
    def values(self, o):
        model = self.small(o)
        if model is None: return None
        d = {}
        for k, t in self.watch.items():
            try: x = model.eval(T.bv(to_int(t), t.size() if hasattr(t, 'size') else 64), model_completion=True); d[k] = x.as_long() if hasattr(x, 'as_long') else str(x)
            except Exception: d[k] = None
        for nm, arr, addr, cnt in self.bytewatch:
            try:
                a = model.eval(T.bv(addr, 64), model_completion=True).as_long(); n = min(model.eval(T.bv(cnt, 64), model_completion=True).as_long(), 512)
                d[nm] = bytes(model.eval(z3.Select(arr, z3.BitVecVal((a + i) & T.mask(64), 64)), model_completion=True).as_long() for i in range(n)).hex()
            except Exception: d[nm] = None
        return d
    def small(self, o):
        """prefer models with small numbers: they replay"""
        if o.ok is not False or o.model is None: return o.model
        if o.pc is None: return o.model
        base = list(o.pc) + ([z3.Not(o.cond)] if o.cond is not None and not isint(o.cond) else [])
        lim = [z3.ULE(t, z3.BitVecVal(b, 64)) for t, b in getattr(self, 'prefer', ())]
        best = o.model
        s = z3.Solver(); s.set('timeout', 4000); s.add(*base)
        for c in lim:
            s.push(); s.add(c)
            if s.check() == z3.sat: best = s.model()
            else: s.pop()
        return best

# ------------------------------------------------ library contracts
def ret(v=None): return lambda ex, st, args, ins, name: [Out('ret', st, v)]
def need_read(ex, st, p, n, where, what='read'):
    """obligation: [p, p+n) is readable memory"""
    if isint(n) and n == 0: return
    p = to_ptr(p) if not is_ptrish(p) else p
    if isinstance(p, PIte):
        for c, q in ((p.c, p.a), (T.lnot(p.c), p.b)):
            if ex.feasible(st, c): need_read(ex, st.copy().assume(c), q, n, where, what)
        return
    if not isinstance(p, Ptr):
        ex.oblige(st, T.eq(n, 0, 64), 'valid-pointer(%s)' % what, where); return
    if p.r.kind == 'hook': return
    ex.bulk_bounds(st, p, n, what, where)
def c_memcmp(ex, st, args, ins, name):
    need_read(ex, st, args[0], args[2], name); need_read(ex, st, args[1], args[2], name)
    r = z3.BitVec(T.fresh_name('memcmp'), 32)
    st.ghost = dict(st.ghost); st.ghost[('memcmp', len(st.pc))] = None
    k = ex.cmp_log = getattr(ex, 'cmp_log', []); k.append((args[0], args[1], args[2], r))
    return [Out('ret', st, r)]
def c_strnlen(ex, st, args, ins, name):
    """result r <= n; no zero before r; zero at r when r < n"""
    p, n = args[0], args[1]
    need_read(ex, st, p, n, name)
    r = z3.BitVec(T.fresh_name('strnlen'), 64); st.assume(T.ule(r, n, 64))
    p = to_ptr(p) if not is_ptrish(p) else p
    if isinstance(p, Ptr) and p.r.kind == 'bytes':
        arr = st.mem[p.r.id]
        st.assume(z3.Implies(z3.ULT(r, T.bv(n, 64)), z3.Select(arr, T.bv(p.off, 64) + r) == 0))
        # the universally quantified part (no zero before r) is instantiated at the indexes a unit asks for
        for j in getattr(ex, 'inst_idx', ()): st.assume(z3.Implies(z3.ULT(j, r), z3.Select(arr, T.bv(p.off, 64) + j) != 0))
    return [Out('ret', st, r)]
def c_memchr(ex, st, args, ins, name):
    need_read(ex, st, args[0], args[2], name)
    found = z3.Bool(T.fresh_name('found')); k = z3.BitVec(T.fresh_name('at'), 64)
    a = st.copy().assume(found).assume(z3.ULT(k, T.bv(args[2], 64))); b = st.copy().assume(z3.Not(found))
    return [Out('ret', a, ptr_add(args[0], k)), Out('ret', b, 0)]
def c_new_sym(ex, st, args, ins, name):
    n = args[0]
    r = ex.alloc(st, 'heap', n if isint(n) else None) if isint(n) else None
    if r is None:
        r = Region('heap', 'obj', n); ex.regions[r.id] = r; st.mem[r.id] = ObjMem()
        big = T.ult(1 << 62, n, 64)
        if ex.feasible(st, big):
            t = st.copy().assume(big); st.assume(T.lnot(big))
            return [Out('ret', st, Ptr(r, 0)), Out('throw', t, ('_ZTISt9bad_alloc',))]
    return [Out('ret', st, Ptr(r, 0))]
STD = {'memcmp': c_memcmp, 'bcmp': c_memcmp, 'strnlen': c_strnlen, 'memchr': c_memchr, '_Znwm': c_new_sym, '_Znam': c_new_sym,
       '_ZdlPv': c_nop, '_ZdlPvm': c_nop, '_ZdaPv': c_nop}

def run_units(rep, units, srcs, harness=None, limit=260, total=800):
    """units: [(name, function(ctx-factory) -> Result-like, replay or None)]"""
    mods = modules(srcs); demangled(mods); layout()
    def one(u):
        name, f, rp = u
        r = Result(); c = None
        try:
            c = f(mods); 
            if not isinstance(c, (list, tuple)): c = [c]
            for x in c: x.result(r)
        except Unsupported as e: r.err = 'not within reach: %s' % e
        except RecursionError: r.err = 'recursion'
        return r
    res = pool.run(units, one, limit=limit, total=total)
    bad = []
    for i, (name, f, rp) in enumerate(units):
        k, r = res.get(i, ("error", "no answer"))
        if k != 'ok': bad.append((name, rp, [('exploration', None, {'error': str(r)})])); continue
        nb = r.bad(); rep.count(name, len(r.obls), len(r.obls) - len(nb))
        rep.solver_s += r.solver_s; rep.queries += r.queries; rep.funcs.update(r.funcs)
        rep.cov.setdefault('contracts_used_at_calls', [])
        rep.cov['contracts_used_at_calls'] = sorted(set(rep.cov['contracts_used_at_calls']) | r.used)
        if r.err: nb = nb + [('exploration', None, {'error': r.err})]
        elif not r.obls: nb = nb + [('exploration', None, {'error': 'no obligations'})]
        if nb: bad.append((name, rp, nb))
    if bad: judge(rep, bad, harness)
    cross(rep, [(name, rp) for name, f, rp in units if rp is not None and hasattr(rp, 'search') and name not in {b[0] for b in bad}], harness)

def cross(rep, units, harness):
    """bounded comparison of the same functions with the native reference: not counted as discharged"""
    from . import native
    from concurrent.futures import ThreadPoolExecutor
    if not harness or not units: return
    try: exe = native.harness(harness)
    except build.BuildError as e:
        rep.cov['native_cross_check'] = 'not built: ' + str(e)[:200]; return
    todo = {}
    for name, rp in units: todo.setdefault(rp.unit, (name, rp))
    def one(x):
        u, (name, rp) = x
        p = native.Proc(exe)
        try: return u, name, rp.search(p, rep.seed, rp.n if rep.tier == 'thorough' else min(rp.n, 400))
        except Exception as e: return u, name, (0, None)
        finally: p.close()
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, todo.items()))
    rep.cov.setdefault('native_cross_check_bounded', {})
    for u, name, (n, f) in res:
        rep.cov['native_cross_check_bounded'][u] = n
        if f: rep.violation('%s: native' % name, '%s: %s' % (name, '; '.join(map(str, f[1]))[:600]), {'function': name, 'note': 'every obligation was discharged, the bounded comparison with the native reference failed', 'input': f[0], 'real_code': f[1]})

def judge(rep, bad, harness):
    """confirm failed obligations natively; stand-in when undecided"""
    import os
    from . import native
    if os.environ.get('IRV_SHOW'):
        for name, rp, obs in bad:
            for o in obs: print('  FAILED', name, o[0], o[1], o[2])
    exe = None; why = ''
    if harness:
        try: exe = native.harness(harness)
        except build.BuildError as e: why = str(e)[:300]
    for name, rp, obs in bad:
        p = native.Proc(exe) if exe else None
        found = None; n = 0
        try:
            if p and rp:
                for nm, ok, vals in obs:
                    if not vals or 'error' in vals: continue
                    try: iss = rp(vals, p)
                    except Exception as e: iss = None; why = 'replay: %r' % e
                    n += 1
                    if iss: found = (nm, vals, iss); break
                if not found and hasattr(rp, 'search'):
                    k, f = rp.search(p, rep.seed)
                    n += k
                    if f: found = (obs[0][0], f[0], f[1])
        finally:
            if p: p.close()
        names = [o[0] for o in obs]
        if found:
            nm, vals, iss = found
            rep.violation('%s: %s' % (name, nm), '%s: %s' % (name, '; '.join(map(str, iss))[:600]), {'function': name, 'failed_obligations': names, 'input': vals, 'real_code': iss})
        elif any(o[1] is False for o in obs):
            nm = [o[0] for o in obs if o[1] is False][0]
            rep.violation('%s: %s' % (name, nm), '%s: obligation "%s" fails (solver: satisfiable negation)' % (name, nm), {'function': name, 'failed_obligations': names, 'verifier_model': [o[2] for o in obs][:4], 'native_inputs_tried': n, 'note': why}, found=False)
        else:
            t = '%s [%s] %s (%d native inputs agree)' % (name, ', '.join(sorted(set(names)))[:200], str((obs[0][2] or {}).get('error', ''))[:1500], n)
            if n >= 100: rep.undecided.append(t)
            else: rep.error('undecided: ' + t + ' ' + why)

class ArrayHook:
    """contents of an array of fixed-size elements: read(idx, inner, n) -> value"""
    def __init__(self, name, count, stride, rd): self.name = name; self.count = count; self.stride = stride; self.rd = rd
    def read(self, ex, st, off, n, where):
        s = self.stride
        if isint(off): idx, inner = off // s, off % s
        else:
            kb = s.bit_length() - 1
            low = T.extract(kb - 1, 0, off)
            if isint(low): idx, inner = T.lshr(off, kb, 64), low
            else:
                base, inner = T.splitc(off, 64)
                if inner >= 1 << 63 or base is None: base, inner = off, 0
                k = inner // s; inner %= s
                ex.oblige(st, T.eq(T.extract(kb - 1, 0, base), 0, kb), 'element alignment', where)
                idx = T.add(T.lshr(base, kb, 64), k, 64)
        ex.oblige(st, T.ult(idx, self.count, 64), 'bounds(read) of ' + self.name, where)
        return self.rd(idx, inner, n)
    def write(self, ex, st, off, v, n, where): raise Unsupported('write to ' + self.name)

def cases(v, c=1):
    """the alternatives of a pointer: [(condition, value)]"""
    if isinstance(v, PIte): return cases(v.a, T.land(c, v.c)) + cases(v.b, T.land(c, T.lnot(v.c)))
    return [(c, v)]

class Rec(tuple):
    def __eq__(a, b): return isinstance(b, tuple) and len(a) == len(b) and all(x is y or val_same(x, y) for x, y in zip(a, b))
    def __ne__(a, b): return not a == b
    def __hash__(a): return 1

class Native:
    """replay and bounded search of a unit with the native harness"""
    def __init__(self, unit, n=3000, rename=None): self.unit = unit; self.n = n; self.rename = rename or {}
    def ask(self, p, line):
        r = p.ask(line)
        if r.startswith('bad'): return [r[4:]]
        if r.startswith('died'): return ['the process running the real code %s' % r]
        return None
    def __call__(self, vals, p):
        v = {self.rename.get(k, k): x for k, x in vals.items() if x is not None}
        return self.ask(p, 'run %s %s' % (self.unit, ' '.join('%s=%s' % (k, x) for k, x in v.items() if isinstance(x, int) or re.match(r'^[0-9a-zA-Z.,:-]+$', str(x)))))
    def search(self, p, seed, limit=None):
        N = limit or self.n; n = 0; step = 250; i = 0
        while n < N and i < N * 3:
            s = seed * 1000003 + i * 7919
            r = p.ask('search %s %d %d' % (self.unit, s, step)); i += step
            if r.startswith('ok'): n += int(r.split()[1]); continue
            if r.startswith('bad'): return n + 1, (r.split('|')[-1].strip(), [r[4:]])
            if r.startswith('died'):
                for k in range(step):
                    q = p.ask('search %s %d 1' % (self.unit, s + k * 7919))
                    if q.startswith('died'): return n + k, ('search seed %d' % (s + k * 7919), ['the process running the real code %s' % q])
                return n, ('search seed %d step %d' % (s, step), ['the process running the real code %s' % r])
            break
        return n, None
