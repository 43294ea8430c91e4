"""Concrete side of the contracts: the same spec.isa functions evaluated on
integers, against a native run of the real code."""
import random
import z3
from . import terms as T, engine, native
from .world import EXC
from spec import isa
RNE = z3.RoundNearestTiesToEven(); RTZ = z3.RoundTowardZero()
SORT = {32: z3.Float32(), 64: z3.Float64(), 16: z3.FPSort(5, 11)}
QNAN = {32: 0x7fc00000, 64: 0x7ff8000000000000}
def _fp(a, w): return z3.fpBVToFP(z3.BitVecVal(a, w), SORT[w])
def _bits(e, w):
    e = z3.simplify(e)
    if z3.is_true(z3.simplify(z3.fpIsNaN(e))): return QNAN[w]
    return z3.simplify(z3.fpToIEEEBV(e)).as_long()

def fp_concrete(name, args, ws, rw):
    import re
    m = re.match(r'(fadd|fsub|fmul|fdiv|fma|sqrt|trunc)(\d+)$', name)
    if m:
        w = int(m.group(2)); a = [_fp(x, w) for x in args]; o = m.group(1)
        r = {'fadd': lambda: z3.fpAdd(RNE, a[0], a[1]), 'fsub': lambda: z3.fpSub(RNE, a[0], a[1]), 'fmul': lambda: z3.fpMul(RNE, a[0], a[1]), 'fdiv': lambda: z3.fpDiv(RNE, a[0], a[1]),
             'fma': lambda: z3.fpFMA(RNE, *a), 'sqrt': lambda: z3.fpSqrt(RNE, a[0]), 'trunc': lambda: z3.fpRoundToIntegral(RTZ, a[0])}[o]()
        return _bits(r, w)
    m = re.match(r'(fptrunc|fpext|sitofp|uitofp|fptosi|fptoui)_(\d+)_(\d+)$', name)
    if m:
        o, w, w2 = m.group(1), int(m.group(2)), int(m.group(3))
        if o in ('fptrunc', 'fpext'): return _bits(z3.fpFPToFP(RNE, _fp(args[0], w), SORT[w2]), w2)
        if o == 'sitofp': return _bits(z3.fpSignedToFP(RNE, z3.BitVecVal(args[0], w), SORT[w2]), w2)
        if o == 'uitofp': return _bits(z3.fpUnsignedToFP(RNE, z3.BitVecVal(args[0], w), SORT[w2]), w2)
        f = z3.fpToSBV if o == 'fptosi' else z3.fpToUBV
        r = z3.simplify(f(RTZ, _fp(args[0], w), z3.BitVecSort(w2)))
        return r.as_long() if z3.is_bv_value(r) else 0
    raise KeyError(name)

class Conc:
    """evaluates floating-point operations on integers while active"""
    def __enter__(self): self.old = engine.UFCONC; engine.UFCONC = fp_concrete; return self
    def __exit__(self, *a): engine.UFCONC = self.old

def spec_on(mn, d, mem=None):
    """spec.isa on a concrete state dict; mem: addr -> byte (default: d['mem'])"""
    if mem is None:
        init = dict(d.get('mem', {}))
        for i in range(4): init[(d['pc'] + i) & T.mask(64)] = d['word'] >> (8 * i) & 255
        mem = lambda a: init.get(a, 0)
    V = {int(k): (int(v, 16) if isinstance(v, str) else v) for k, v in d['vr'].items()}
    s = isa.S(d['word'], lambda i: 0 if i == 0 else d['regs'][i], lambda i: V.get(i, 0), d['pc'], lambda i: d['fcc'] >> i & 1, mem, d['RO'], d['DA'], d['N'], d['ll'] & 1)
    with Conc(): isa.SPEC[mn](s)
    return s

class Undefined(Exception): pass

def issues(mn, eng, d, r):
    """mismatches between the contract and a native result (list of strings)"""
    s = spec_on(mn, d)
    if not s.pre: raise Undefined('outside the precondition')
    if getattr(s, 'indirect', False) and s.npc & 3: raise Undefined('unaligned target')
    if r['kind'] in ('skip', 'hang', 'died'): raise Undefined(r['kind'])
    out = []
    if r['kind'] == 'crash': return ['the host process receives signal %s' % r['type']]
    npc = s.npc if s.npc is not None else (d['pc'] + 4) & T.mask(64)
    branch = s.npc is not None
    V = {int(k): (int(v, 16) if isinstance(v, str) else v) for k, v in d['vr'].items()}
    regs = list(map(int, r['regs'].split(',')))
    vr = {}
    for p in r.get('vr', '').split(','):
        if p: i, h = p.split(':'); vr[int(i)] = int(h, 16)
    mem = {}
    for p in r.get('mem', '').split(','):
        if p: a, b = p.split(':'); mem[int(a)] = int(b)
    exp_regs = [0] + list(d['regs'][1:]); exp_vr = dict(V); preds = []
    exp_mem = {}; exp_fcc = d['fcc']; exp_ll = d['ll'] & 1
    kind, typ, data = r['kind'], int(r.get('type', -1)), int(r.get('data', 0))
    thrown = kind in ('throw', 'other')
    def frame():
        for i in range(32):
            if i not in [g for g in s.free_gr] and regs[i] != exp_regs[i]: out.append('register r%d is %#x, expected %#x' % (i, regs[i], exp_regs[i]))
        for i in range(32):
            g = vr.get(i, 0); e = exp_vr.get(i, 0)
            if i in dict(preds): continue
            if g != e and not nan_equal(mn, g, e): out.append('vector register %d is %#x, expected %#x' % (i, g, e))
        for a in sorted(set(mem) | set(exp_mem)):
            # mem lists changed bytes only
            was = initial(d, a); g = mem.get(a, was); e = exp_mem.get(a, was)
            if g != e: out.append('byte at %#x is %#x, expected %#x' % (a, g, e))
        if int(r['fcc']) != exp_fcc: out.append('condition flags %#x, expected %#x' % (int(r['fcc']), exp_fcc))
        if int(r['ll']) != exp_ll: out.append('reservation %s, expected %s' % (r['ll'], exp_ll))
    loadz = len(s.gw) == 1 and not s.stores and s.gw[0][0] == 0
    if s.fault:
        if not thrown:
            if loadz: return []
            return ['access at %s outside the permitted memory does not fault' % ', '.join('%#x' % a for a in s.faults)]
        if typ != EXC['PROTECTION_FAULT']: return ['raises exception type %d instead of a protection fault' % typ]
        if data not in s.faults: out.append('fault reports address %#x' % data)
        frame(); return out
    for i, v in s.gw:
        if i == 0: continue
        if callable(v): 
            with Conc():
                if not v(regs[i]): out.append('register r%d is %#x' % (i, regs[i]))
            exp_regs[i] = regs[i]
        else: exp_regs[i] = v
    for i, v, W in s.vw:
        g = vr.get(i, 0)
        if callable(v):
            with Conc():
                if not v(g & T.mask(W)): out.append('vector register %d is %#x' % (i, g))
            exp_vr[i] = g
        else: exp_vr[i] = (g & ~T.mask(W)) | v          # bits above the written width are not specified
    for i, b in s.cw: exp_fcc = (exp_fcc & ~(1 << i)) | ((1 if b else 0) << i)
    if s.nll is not None: exp_ll = 1 if s.nll else 0
    for c, a, n, v in s.stores:
        if c:
            for k in range(n): exp_mem[(a + k) & T.mask(64)] = v >> (8 * k) & 255
    exp_regs[0] = 0
    if thrown:
        if eng != 'step' and branch and typ in (EXC['EXECUTION_SPACE_PROTECTION_FAULT'], EXC['ILLEGAL_OPCODE']):
            t = npc if typ == EXC['EXECUTION_SPACE_PROTECTION_FAULT'] else s.target
            if not (d['begin'] <= t and t + 4 <= d['end']): return []
        return ['raises exception type %d (data %#x)' % (typ, data)]
    frame()
    pc, cnt = int(r['pc']), int(r['counter'])
    if eng == 'step':
        if pc != npc: out.append('pc is %#x, expected %#x' % (pc, npc))
        if cnt != (d.get('counter', 0) + 1) & T.mask(64): out.append('instruction counter is %d, expected %d' % (cnt, d.get('counter', 0) + 1))
        return out
    nb = d['nb']
    overlap = branch and abs(npc - d['pc']) < 4 * (nb + 4) and npc != d['pc'] + 4
    if overlap or not (d['begin'] <= d['pc'] and d['pc'] + 4 + 4 * (nb + 1) <= d['end'] or branch): return out
    if branch and not (d['begin'] <= npc and npc + 4 * (nb + 1) <= d['end']): return out
    if eng == 'sim':
        c1 = d['counter'] + 1
        if branch and c1 >= d['max'] and (npc != d['pc'] + 4 or pc == npc):
            if pc != npc: out.append('stops at the limit with pc %#x, expected %#x' % (pc, npc))
            if cnt != c1: out.append('instruction counter is %d, expected %d' % (cnt, c1))
            return out
        if cnt != c1 + nb + 1: out.append('instruction counter is %d, expected %d' % (cnt, c1 + nb + 1))
        if int(r['rv']) != 1: out.append('does not report a normal stop')
    if pc != npc + 4 * nb + 4: out.append('pc is %#x, expected %#x' % (pc, npc + 4 * nb + 4))
    return out

def initial(d, a):
    if 0 <= a - d['pc'] < 4: return d['word'] >> (8 * (a - d['pc'])) & 255
    return d.get('mem', {}).get(a, 0)

def nan_equal(mn, g, e):
    """equal up to the payload of NaN lanes, for floating-point instructions"""
    if isa.CLASS[mn] != 'fp' and '.s' not in mn and '.d' not in mn: return False
    if 'f' not in mn[:3]: return False
    for w in (32, 64):
        ok = True
        for k in range(256 // w):
            a, b = g >> (k * w) & T.mask(w), e >> (k * w) & T.mask(w)
            if a != b and not (engine.f_isnan(a, w) and engine.f_isnan(b, w)): ok = False
        if ok: return True
    return False

def case_line(eng, d, npc):
    V = {int(k): (int(v, 16) if isinstance(v, str) else v) for k, v in d['vr'].items()}
    p = ['eng=' + eng, 'N=%d' % d['N'], 'RO=%d' % d['RO'], 'DA=%d' % d['DA'], 'P=%d' % d['pc'], 'word=%d' % d['word'],
         'regs=' + ','.join(map(str, [0] + list(d['regs'][1:]))), 'vr=' + ','.join('%d:%064x' % (i, v) for i, v in V.items() if v), 'fcc=%d' % d['fcc'], 'll=%d' % (d['ll'] & 1),
         'mem=' + ','.join('%d:%d' % (a, b) for a, b in sorted(d.get('mem', {}).items())), 'counter=%d' % d.get('counter', 0)]
    if eng != 'step':
        p += ['begin=%d' % d['begin'], 'end=%d' % d['end'], 'npc=%d' % npc, 'acc=%d' % d['nb'], 'nb=%d' % d['nb'], 'max=%d' % d['max']]
    return ' '.join(p)

def prepare(mn, eng, d):
    """clip the segment to something that can be built; None when it cannot"""
    d = dict(d)
    s = spec_on(mn, d)
    npc = s.npc if s.npc is not None else (d['pc'] + 4) & T.mask(64)
    if d['N'] > 1 << 46: return None, None
    if eng != 'step':
        d['nb'] = min(d.get('nb', d.get('next_block', 1)), 6)
        if s.npc is None: d['nb'] = max(1, min(d.get('acc', 1), 6)) - 1 if d.get('acc') else d['nb']
        lo = hi = d['pc']
        if d['begin'] <= npc < d['end']: lo = min(lo, npc); hi = max(hi, npc)
        d['begin'] = max(d['begin'], max(0, lo - 4096)) & ~3; d['end'] = min(d['end'], hi + 4096)
        if d['end'] - d['begin'] > 1 << 34: return None, None
        if eng == 'simi': d['counter'] = 0; d['max'] = 0
    return d, npc

def replay(mn, eng, d, proc):
    """-> (list of mismatches, case line, raw result) or None when not replayable"""
    dd, npc = prepare(mn, eng, d)
    if dd is None: return None
    line = case_line(eng, dd, npc)
    raw = proc.ask(line)
    r = native.fields(raw)
    try: return issues(mn, eng, dd, r), line, raw
    except Undefined: return None

EDGE = [0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255, 256, 0x7ff, 0x800, 0xfff, 0x1000, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000,
        0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0x3ff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x3f800000, 0xbf8000003f800000, 0x7f8000007f800000, 0x7fc00000ff800000]
def rnd(rg, w):
    k = rg.random()
    if k < 0.3: v = rg.choice(EDGE)
    elif k < 0.5: v = rg.getrandbits(rg.randint(1, w))
    elif k < 0.6: v = -rg.getrandbits(rg.randint(1, w))
    else: v = rg.getrandbits(w)
    if w > 64 and k < 0.3: v = sum(rg.choice(EDGE) << (64 * i) for i in range(w // 64))
    elif w > 64 and k < 0.7: v = sum(rnd(rg, 64) << (64 * i) for i in range(w // 64))
    return v & T.mask(w)

def random_state(rg, mn, eng):
    ma, mk = isa.table()[mn] if not hasattr(random_state, 'tab') else random_state.tab[mn]
    w = ma | (rg.getrandbits(32) & ~mk & 0xffffffff)
    if rg.random() < 0.1: w &= ~(0x1f & ~mk) & 0xffffffff
    if rg.random() < 0.15: w = (w & ~0x1f & 0xffffffff | (w >> 5 & 0x1f)) if not mk & 0x3ff else w      # rd == rj
    N = 1 << rg.choice([16, 20, 24]); RO = rg.randrange(0, N // 2); DA = rg.randrange(RO, N)
    if rg.random() < 0.5: RO = 4096; DA = 8192
    pc = rg.randrange(RO // 4 + 1, N // 4) * 4
    regs = [0] + [rnd(rg, 64) if rg.random() < 0.6 else rg.choice([rg.randrange(0, N), DA, N, N - 1, RO, pc + rg.randrange(-64, 64) * 4]) & T.mask(64) for _ in range(31)]
    begin = max(RO & ~3, pc - rg.randrange(0, 2000) * 4); end = pc + 4 + rg.randrange(8, 2000) * 4
    if rg.random() < 0.3: begin = 0; end = 1 << 28
    d = dict(word=w, pc=pc, regs=regs, vr={i: rnd(rg, 256) for i in range(32)}, fcc=rg.getrandbits(8), ll=rg.getrandbits(1), N=N, RO=RO, DA=DA,
             begin=begin, end=end, nb=rg.randrange(0, 4), counter=rg.randrange(0, 100), max=rg.choice([0, 1, 50, 1 << 40, (1 << 64) - 1]), mem={})
    # memory the access will see
    seen = {}
    def mem(a):
        if a not in seen: seen[a] = rnd(rg, 64) & 255
        return seen[a]
    s = spec_on(mn, d, mem)
    d['mem'] = {a: b for a, b in seen.items() if a < N + 64 and not 0 <= a - pc < 4}
    if 'pc+' and any(0 <= a - pc < 4 for a in seen): pass
    return d
