"""LoongArch64 instruction semantics, written from the ISA manual.

`SPEC[mnemonic](s)` describes one instruction on the abstract machine `s`
(class S below): it reads operands and appends writes.  This is the oracle the
real decoder, handlers and dispatch loops are verified against.
"""
import json, os
import z3
from irv import terms as T
from irv.engine import uf, f_isnan, f_iszero, f_eq, f_lt, f_unord, f_bin
M = T.mask
HERE = os.path.dirname(os.path.abspath(__file__))

def table():
    t = json.load(open(os.path.join(HERE, 'encodings.json')))
    return {k: (v[0], v[1]) for k, v in t.items()}

class S:
    """abstract machine state before one instruction, and the writes it makes"""
    def __init__(self, word, gr, vr, pc, cf, mem, RO, DA, N, ll, side=None):
        self.w = word; self._gr = gr; self._vr = vr; self.pc = pc; self._cf = cf; self.mem = mem
        self.RO = RO; self.DA = DA; self.N = N; self.ll = ll
        self.fault = 0              # condition under which the access faults
        self.faults = []
        self.gw = []                # (index, value or predicate)
        self.vw = []                # (index, value, defined width | predicate)
        self.cw = []                # (index, bool)
        self.stores = []            # (cond, addr, n, value)
        self.npc = None
        self.nll = None
        self.pre = 1                # operands for which the ISA defines the result
        self.traps = None           # ('any',) when the instruction must raise
        self.free_gr = []           # registers with implementation-defined new value
        self.side = side or []
    # fields
    def f(s, hi, lo): return T.extract(hi, lo, s.w)
    rd = property(lambda s: s.f(4, 0)); rj = property(lambda s: s.f(9, 5)); rk = property(lambda s: s.f(14, 10)); ra = property(lambda s: s.f(19, 15))
    cd = property(lambda s: s.f(2, 0)); cj = property(lambda s: s.f(7, 5)); ca = property(lambda s: s.f(17, 15))
    def sx(s, hi, lo, w=64): return T.sext(s.f(hi, lo), hi - lo + 1, w)
    def zx(s, hi, lo, w=64): return T.zext(s.f(hi, lo), hi - lo + 1, w)
    # state
    def gr(s, i): return s._gr(i)
    def gw32(s, i): return T.extract(31, 0, s._gr(i))
    def vr(s, i, w=256): v = s._vr(i); return T.extract(w - 1, 0, v) if w < 256 else v
    def fr(s, i, w): return T.extract(w - 1, 0, s._vr(i))
    def cf(s, i): return s._cf(i)
    def set(s, v, i=None): s.gw.append((s.rd if i is None else i, v))
    def setw(s, v32): s.set(T.sext(v32, 32, 64))
    def setv(s, v, w): s.vw.append((s.rd, v, w))
    def setc(s, b): s.cw.append((s.cd, b))
    def load(s, addr, n):
        s.fault = T.lor(s.fault, T.lor(T.ult(addr, s.RO, 64), T.ule(s.N, addr, 64)))
        s.faults.append(addr)
        return T.concat([(s.mem(T.add(addr, i, 64)), 8) for i in reversed(range(n))])
    def store(s, addr, n, v, cond=1):
        bad = T.lor(T.ult(addr, s.DA, 64), T.ule(s.N, addr, 64))
        s.fault = T.lor(s.fault, T.land(cond, bad))
        s.faults.append(addr)
        s.stores.append((cond, addr, n, v))
    def require(s, c): s.pre = T.land(s.pre, c)

SPEC = {}; CLASS = {}
def spec(cls, *names):
    def d(fn):
        for n in names:
            assert n not in SPEC, n
            SPEC[n] = fn; CLASS[n] = cls
        return fn
    return d
def deff(cls, name, fn):
    assert name not in SPEC, name
    SPEC[name] = fn; CLASS[name] = cls

# ---------------------------------------------------------------- helpers
def lanes(v, ew, W): return [T.extract(i * ew + ew - 1, i * ew, v) for i in range(W // ew)]
def join(ls, ew): return T.concat([(x, ew) for x in reversed(ls)])
def rev(v, unit, grp, W):
    """reverse `unit`-bit pieces inside each `grp`-bit group"""
    out = []
    for g in range(W // grp):
        k = grp // unit
        out += [T.extract(g * grp + (k - 1 - i) * unit + unit - 1, g * grp + (k - 1 - i) * unit, v) for i in range(k)]
    return join(out, unit)
def sdivt(a, b, w):
    return T.ite(T.land(T.eq(a, 1 << (w - 1), w), T.eq(b, M(w), w)), a, T.sdiv(a, b, w), w)
def sremt(a, b, w):
    return T.ite(T.land(T.eq(a, 1 << (w - 1), w), T.eq(b, M(w), w)), 0, T.srem(a, b, w), w)
def rotr(a, n, w):
    n = T.urem(n, w, w)
    return T.bor(T.lshr(a, n, w), T.ite(T.eq(n, 0, w), 0, T.shl(a, T.sub(w, n, w), w), w), w)
def clo(a, w): return T.clz(T.bnot(a, w), w)
def cto(a, w): return T.ctz(T.bnot(a, w), w)
W64 = 64

# ---------------------------------------------------------------- integer arithmetic and logic
def r3(cls, name, fn):
    deff(cls, name, lambda s: s.set(fn(s.gr(s.rj), s.gr(s.rk))))
def r3w(cls, name, fn):
    deff(cls, name, lambda s: s.setw(fn(s.gw32(s.rj), s.gw32(s.rk))))
r3('alu', 'add.d', lambda a, b: T.add(a, b, 64)); r3w('alu', 'add.w', lambda a, b: T.add(a, b, 32))
r3('alu', 'sub.d', lambda a, b: T.sub(a, b, 64)); r3w('alu', 'sub.w', lambda a, b: T.sub(a, b, 32))
r3('alu', 'and', lambda a, b: T.band(a, b, 64)); r3('alu', 'or', lambda a, b: T.bor(a, b, 64)); r3('alu', 'xor', lambda a, b: T.bxor(a, b, 64))
r3('alu', 'nor', lambda a, b: T.bnot(T.bor(a, b, 64), 64)); r3('alu', 'andn', lambda a, b: T.band(a, T.bnot(b, 64), 64)); r3('alu', 'orn', lambda a, b: T.bor(a, T.bnot(b, 64), 64))
r3('alu', 'slt', lambda a, b: T.b2bv(T.slt(a, b, 64), 64)); r3('alu', 'sltu', lambda a, b: T.b2bv(T.ult(a, b, 64), 64))
r3('alu', 'maskeqz', lambda a, b: T.ite(T.eq(b, 0, 64), 0, a, 64)); r3('alu', 'masknez', lambda a, b: T.ite(T.eq(b, 0, 64), a, 0, 64))
deff('alu', 'addi.d', lambda s: s.set(T.add(s.gr(s.rj), s.sx(21, 10), 64)))
deff('alu', 'addi.w', lambda s: s.setw(T.add(s.gw32(s.rj), s.sx(21, 10, 32), 32)))
deff('alu', 'addu16i.d', lambda s: s.set(T.add(s.gr(s.rj), T.shl(s.sx(25, 10), 16, 64), 64)))
deff('alu', 'andi', lambda s: s.set(T.band(s.gr(s.rj), s.zx(21, 10), 64)))
deff('alu', 'ori', lambda s: s.set(T.bor(s.gr(s.rj), s.zx(21, 10), 64)))
deff('alu', 'xori', lambda s: s.set(T.bxor(s.gr(s.rj), s.zx(21, 10), 64)))
deff('alu', 'slti', lambda s: s.set(T.b2bv(T.slt(s.gr(s.rj), s.sx(21, 10), 64), 64)))
deff('alu', 'sltui', lambda s: s.set(T.b2bv(T.ult(s.gr(s.rj), s.sx(21, 10), 64), 64)))
def sa2(s): return T.add(s.zx(16, 15), 1, 64)
deff('alu', 'alsl.d', lambda s: s.set(T.add(T.shl(s.gr(s.rj), sa2(s), 64), s.gr(s.rk), 64)))
deff('alu', 'alsl.w', lambda s: s.setw(T.add(T.shl(s.gw32(s.rj), T.extract(31, 0, sa2(s)), 32), s.gw32(s.rk), 32)))
deff('alu', 'alsl.wu', lambda s: s.set(T.zext(T.add(T.shl(s.gw32(s.rj), T.extract(31, 0, sa2(s)), 32), s.gw32(s.rk), 32), 32, 64)))
# upper immediates and pc-relative
deff('alu', 'lu12i.w', lambda s: s.set(T.sext(T.concat([(s.f(24, 5), 20), (0, 12)]), 32, 64)))
deff('alu', 'lu32i.d', lambda s: s.set(T.concat([(s.sx(24, 5, 32), 32), (T.extract(31, 0, s.gr(s.rd)), 32)])))
deff('alu', 'lu52i.d', lambda s: s.set(T.concat([(s.f(21, 10), 12), (T.extract(51, 0, s.gr(s.rj)), 52)])))
deff('alu', 'pcaddi', lambda s: s.set(T.add(s.pc, T.shl(s.sx(24, 5), 2, 64), 64)))
deff('alu', 'pcalau12i', lambda s: s.set(T.band(T.add(s.pc, T.shl(s.sx(24, 5), 12, 64), 64), M(64) ^ 0xfff, 64)))
deff('alu', 'pcaddu12i', lambda s: s.set(T.add(s.pc, T.shl(s.sx(24, 5), 12, 64), 64)))
deff('alu', 'pcaddu18i', lambda s: s.set(T.add(s.pc, T.shl(s.sx(24, 5), 18, 64), 64)))

# ---------------------------------------------------------------- shifts, bit fields, bit manipulation
r3('bits', 'sll.d', lambda a, b: T.shl(a, T.band(b, 63, 64), 64)); r3('bits', 'srl.d', lambda a, b: T.lshr(a, T.band(b, 63, 64), 64)); r3('bits', 'sra.d', lambda a, b: T.ashr(a, T.band(b, 63, 64), 64))
r3w('bits', 'sll.w', lambda a, b: T.shl(a, T.band(b, 31, 32), 32)); r3w('bits', 'srl.w', lambda a, b: T.lshr(a, T.band(b, 31, 32), 32)); r3w('bits', 'sra.w', lambda a, b: T.ashr(a, T.band(b, 31, 32), 32))
r3('bits', 'rotr.d', lambda a, b: rotr(a, T.band(b, 63, 64), 64)); r3w('bits', 'rotr.w', lambda a, b: rotr(a, T.band(b, 31, 32), 32))
deff('bits', 'slli.d', lambda s: s.set(T.shl(s.gr(s.rj), s.zx(15, 10), 64))); deff('bits', 'srli.d', lambda s: s.set(T.lshr(s.gr(s.rj), s.zx(15, 10), 64)))
deff('bits', 'srai.d', lambda s: s.set(T.ashr(s.gr(s.rj), s.zx(15, 10), 64))); deff('bits', 'rotri.d', lambda s: s.set(rotr(s.gr(s.rj), s.zx(15, 10), 64)))
deff('bits', 'slli.w', lambda s: s.setw(T.shl(s.gw32(s.rj), s.zx(14, 10, 32), 32))); deff('bits', 'srli.w', lambda s: s.setw(T.lshr(s.gw32(s.rj), s.zx(14, 10, 32), 32)))
deff('bits', 'srai.w', lambda s: s.setw(T.ashr(s.gw32(s.rj), s.zx(14, 10, 32), 32))); deff('bits', 'rotri.w', lambda s: s.setw(rotr(s.gw32(s.rj), s.zx(14, 10, 32), 32)))
def bstrpick(s, w, hi, lo):
    msb = T.zext(s.f(*hi), hi[0] - hi[1] + 1, w); lsb = T.zext(s.f(*lo), lo[0] - lo[1] + 1, w)
    s.require(T.ule(lsb, msb, w))
    a = T.extract(w - 1, 0, s.gr(s.rj))
    v = T.band(T.lshr(a, lsb, w), T.lshr(M(w), T.sub(w - 1, T.sub(msb, lsb, w), w), w), w)
    s.set(v if w == 64 else T.sext(v, 32, 64))
def bstrins(s, w, hi, lo):
    msb = T.zext(s.f(*hi), hi[0] - hi[1] + 1, w); lsb = T.zext(s.f(*lo), lo[0] - lo[1] + 1, w)
    s.require(T.ule(lsb, msb, w))
    m = T.shl(T.lshr(M(w), T.sub(w - 1, T.sub(msb, lsb, w), w), w), lsb, w)
    a = T.extract(w - 1, 0, s.gr(s.rj)); d = T.extract(w - 1, 0, s.gr(s.rd))
    v = T.bor(T.band(d, T.bnot(m, w), w), T.band(T.shl(a, lsb, w), m, w), w)
    s.set(v if w == 64 else T.sext(v, 32, 64))
deff('bits', 'bstrpick.d', lambda s: bstrpick(s, 64, (21, 16), (15, 10))); deff('bits', 'bstrpick.w', lambda s: bstrpick(s, 32, (20, 16), (14, 10)))
deff('bits', 'bstrins.d', lambda s: bstrins(s, 64, (21, 16), (15, 10))); deff('bits', 'bstrins.w', lambda s: bstrins(s, 32, (20, 16), (14, 10)))
def bytepick(s, w, hi):
    n = T.zext(s.f(hi, 15), hi - 14, w); a = T.extract(w - 1, 0, s.gr(s.rk)); b = T.extract(w - 1, 0, s.gr(s.rj))
    v = None
    for k in range(w // 8):
        x = a if k == 0 else T.concat([(T.extract(w - 8 * k - 1, 0, a), w - 8 * k), (T.extract(w - 1, w - 8 * k, b), 8 * k)])
        v = x if v is None else T.ite(T.eq(n, k, w), x, v, w)
    s.set(v if w == 64 else T.sext(v, 32, 64))
deff('bits', 'bytepick.d', lambda s: bytepick(s, 64, 17)); deff('bits', 'bytepick.w', lambda s: bytepick(s, 32, 16))
def r2(name, fn): deff('bits', name, lambda s: s.set(fn(s.gr(s.rj))))
def r2w(name, fn): deff('bits', name, lambda s: s.setw(fn(s.gw32(s.rj))))
r2('clo.d', lambda a: clo(a, 64)); r2('clz.d', lambda a: T.clz(a, 64)); r2('cto.d', lambda a: cto(a, 64)); r2('ctz.d', lambda a: T.ctz(a, 64))
r2w('clo.w', lambda a: clo(a, 32)); r2w('clz.w', lambda a: T.clz(a, 32)); r2w('cto.w', lambda a: cto(a, 32)); r2w('ctz.w', lambda a: T.ctz(a, 32))
r2('revb.4h', lambda a: rev(a, 8, 16, 64)); r2('revb.2w', lambda a: rev(a, 8, 32, 64)); r2('revb.d', lambda a: rev(a, 8, 64, 64))
r2w('revb.2h', lambda a: rev(a, 8, 16, 32)); r2('revh.2w', lambda a: rev(a, 16, 32, 64)); r2('revh.d', lambda a: rev(a, 16, 64, 64))
r2w('bitrev.4b', lambda a: rev(a, 1, 8, 32)); r2('bitrev.8b', lambda a: rev(a, 1, 8, 64)); r2w('bitrev.w', lambda a: rev(a, 1, 32, 32)); r2('bitrev.d', lambda a: rev(a, 1, 64, 64))
r2('ext.w.b', lambda a: T.sext(T.extract(7, 0, a), 8, 64)); r2('ext.w.h', lambda a: T.sext(T.extract(15, 0, a), 16, 64))

# ---------------------------------------------------------------- multiply and divide
r3('muldiv', 'mul.d', lambda a, b: T.mul(a, b, 64)); r3w('muldiv', 'mul.w', lambda a, b: T.mul(a, b, 32))
r3('muldiv', 'mulh.d', lambda a, b: T.extract(127, 64, T.mul(T.sext(a, 64, 128), T.sext(b, 64, 128), 128)))
r3('muldiv', 'mulh.du', lambda a, b: T.extract(127, 64, T.mul(T.zext(a, 64, 128), T.zext(b, 64, 128), 128)))
r3w('muldiv', 'mulh.w', lambda a, b: T.extract(63, 32, T.mul(T.sext(a, 32, 64), T.sext(b, 32, 64), 64)))
r3w('muldiv', 'mulh.wu', lambda a, b: T.extract(63, 32, T.mul(T.zext(a, 32, 64), T.zext(b, 32, 64), 64)))
r3('muldiv', 'mulw.d.w', lambda a, b: T.mul(T.sext(T.extract(31, 0, a), 32, 64), T.sext(T.extract(31, 0, b), 32, 64), 64))
r3('muldiv', 'mulw.d.wu', lambda a, b: T.mul(T.zext(T.extract(31, 0, a), 32, 64), T.zext(T.extract(31, 0, b), 32, 64), 64))
def div(name, fn, w):
    def d(s):
        a = T.extract(w - 1, 0, s.gr(s.rj)); b = T.extract(w - 1, 0, s.gr(s.rk))
        s.divisor = b
        nz = T.lnot(T.eq(b, 0, w))
        r = fn(a, b, w)
        v = r if w == 64 else T.sext(r, 32, 64)
        # quotient by zero: any value, but no trap and nothing else changes
        s.set(lambda got: T.lor(T.lnot(nz), T.eq(got, v, 64)))
    deff('muldiv', name, d)
div('div.d', sdivt, 64); div('div.w', sdivt, 32); div('mod.d', sremt, 64); div('mod.w', sremt, 32)
div('div.du', T.udiv, 64); div('div.wu', T.udiv, 32); div('mod.du', T.urem, 64); div('mod.wu', T.urem, 32)

# ---------------------------------------------------------------- memory
def ea12(s): return T.add(s.gr(s.rj), s.sx(21, 10), 64)
def ea14(s): return T.add(s.gr(s.rj), T.shl(s.sx(23, 10), 2, 64), 64)
def eax(s): return T.add(s.gr(s.rj), s.gr(s.rk), 64)
for nm, n, sg in (('b', 1, 1), ('h', 2, 1), ('w', 4, 1), ('d', 8, 1), ('bu', 1, 0), ('hu', 2, 0), ('wu', 4, 0)):
    def mk(n, sg, ea):
        def d(s):
            v = s.load(ea(s), n)
            s.set(T.sext(v, 8 * n, 64) if sg else T.zext(v, 8 * n, 64))
        return d
    deff('mem', 'ld.' + nm, mk(n, sg, ea12)); deff('mem', 'ldx.' + nm, mk(n, sg, eax))
    if nm in 'wd': deff('mem', 'ldptr.' + nm, mk(n, sg, ea14))
    if len(nm) == 1:
        def mks(n, ea): return lambda s: s.store(ea(s), n, T.extract(8 * n - 1, 0, s.gr(s.rd)))
        deff('mem', 'st.' + nm, mks(n, ea12)); deff('mem', 'stx.' + nm, mks(n, eax))
        if nm in 'wd': deff('mem', 'stptr.' + nm, mks(n, ea14))
for nm, n in (('s', 4), ('d', 8)):
    def mk(n, ea): return lambda s: s.setv(s.load(ea(s), n), 8 * n)
    def mks(n, ea): return lambda s: s.store(ea(s), n, s.fr(s.rd, 8 * n))
    deff('mem', 'fld.' + nm, mk(n, ea12)); deff('mem', 'fldx.' + nm, mk(n, eax))
    deff('mem', 'fst.' + nm, mks(n, ea12)); deff('mem', 'fstx.' + nm, mks(n, eax))
for nm, n in (('v', 16), ('xv', 32)):
    def mk(n, ea): return lambda s: s.setv(s.load(ea(s), n), 8 * n)
    def mks(n, ea): return lambda s: s.store(ea(s), n, s.vr(s.rd, 8 * n))
    deff('mem', nm + 'ld', mk(n, ea12)); deff('mem', nm + 'ldx', mk(n, eax)); deff('mem', nm + 'st', mks(n, ea12)); deff('mem', nm + 'stx', mks(n, eax))
deff('mem', 'preld', lambda s: None)

# ---------------------------------------------------------------- atomics
for nm, n in (('w', 4), ('d', 8)):
    def mkll(n):
        def d(s):
            s.set(T.sext(s.load(ea14(s), n), 8 * n, 64)); s.nll = 1
        return d
    deff('atomic', 'll.' + nm, mkll(n))
    def mksc(n):
        def d(s):
            s.store(ea14(s), n, T.extract(8 * n - 1, 0, s.gr(s.rd)), s.ll)
            s.set(T.b2bv(s.ll, 64)); s.nll = 0
        return d
    deff('atomic', 'sc.' + nm, mksc(n))
    def mkam(n, fn):
        w = 8 * n
        def d(s):
            a = s.gr(s.rj); old = s.load(a, n); b = T.extract(w - 1, 0, s.gr(s.rk))
            s.store(a, n, fn(old, b, w)); s.set(T.sext(old, w, 64))
        return d
    for op, fn in (('swap', lambda a, b, w: b), ('add', T.add), ('and', T.band), ('or', T.bor), ('xor', T.bxor),
                   ('max', lambda a, b, w: T.ite(T.slt(a, b, w), b, a, w)), ('min', lambda a, b, w: T.ite(T.slt(b, a, w), b, a, w))):
        deff('atomic', 'am%s.%s' % (op, nm), mkam(n, fn)); deff('atomic', 'am%s_db.%s' % (op, nm), mkam(n, fn))
    for op, fn in (('max', lambda a, b, w: T.ite(T.ult(a, b, w), b, a, w)), ('min', lambda a, b, w: T.ite(T.ult(b, a, w), b, a, w))):
        deff('atomic', 'am%s.%su' % (op, nm), mkam(n, fn)); deff('atomic', 'am%s_db.%su' % (op, nm), mkam(n, fn))
deff('atomic', 'dbar', lambda s: None); deff('atomic', 'ibar', lambda s: None)

# ---------------------------------------------------------------- control flow
def br(name, cond):
    def d(s):
        off = T.shl(s.sx(25, 10), 2, 64)
        s.npc = T.ite(cond(s.gr(s.rj), s.gr(s.rd)), T.add(s.pc, off, 64), T.add(s.pc, 4, 64), 64)
        s.target = T.add(s.pc, off, 64)
    deff('branch', name, d)
br('beq', lambda a, b: T.eq(a, b, 64)); br('bne', lambda a, b: T.lnot(T.eq(a, b, 64))); br('blt', lambda a, b: T.slt(a, b, 64)); br('bge', lambda a, b: T.lnot(T.slt(a, b, 64)))
br('bltu', lambda a, b: T.ult(a, b, 64)); br('bgeu', lambda a, b: T.lnot(T.ult(a, b, 64)))
def off21(s): return T.shl(T.sext(T.concat([(s.f(4, 0), 5), (s.f(25, 10), 16)]), 21, 64), 2, 64)
def off26(s): return T.shl(T.sext(T.concat([(s.f(9, 0), 10), (s.f(25, 10), 16)]), 26, 64), 2, 64)
def brz(name, cond):
    def d(s):
        s.target = T.add(s.pc, off21(s), 64)
        s.npc = T.ite(cond(s), s.target, T.add(s.pc, 4, 64), 64)
    deff('branch', name, d)
brz('beqz', lambda s: T.eq(s.gr(s.rj), 0, 64)); brz('bnez', lambda s: T.lnot(T.eq(s.gr(s.rj), 0, 64)))
brz('bceqz', lambda s: T.lnot(s.cf(s.cj))); brz('bcnez', lambda s: s.cf(s.cj))
@spec('branch', 'b')
def _b(s): s.npc = s.target = T.add(s.pc, off26(s), 64)
@spec('branch', 'bl')
def _bl(s): s.npc = s.target = T.add(s.pc, off26(s), 64); s.set(T.add(s.pc, 4, 64), 1)
@spec('branch', 'jirl')
def _jirl(s):
    s.npc = T.add(s.gr(s.rj), T.shl(s.sx(25, 10), 2, 64), 64); s.set(T.add(s.pc, 4, 64)); s.indirect = True

# ---------------------------------------------------------------- miscellaneous
deff('alu', 'rdtime.d', lambda s: s.free_gr.extend([s.rd, s.rj]))
deff('alu', 'cpucfg', lambda s: s.free_gr.append(s.rd))

# ---------------------------------------------------------------- scalar floating point
FS = (('s', 32), ('d', 64))
def fneg(v, w): return T.bxor(v, 1 << (w - 1), w)
def fma(a, b, c, w): return uf('fma%d' % w, [a, b, c], [w, w, w], w)
def fmaxmin(op):
    def fn(a, b, w):
        def pred(got):
            na, nb = f_isnan(a, w), f_isnan(b, w)
            lt = f_lt(a, b, w) if op == 'max' else f_lt(b, a, w)
            gt = f_lt(b, a, w) if op == 'max' else f_lt(a, b, w)
            isa, isb = T.eq(got, a, w), T.eq(got, b, w)
            both = T.lor(isa, isb)
            return T.ite(T.land(na, nb), f_isnan(got, w), T.ite(na, isb, T.ite(nb, isa, T.ite(lt, isb, T.ite(gt, isa, both, 1), 1), 1), 1), 1)
        return pred
    return fn
def fclass(a, w):
    e, m = {32: (8, 23), 64: (11, 52)}[w]
    ex = T.extract(w - 2, m, a); fr = T.extract(m - 1, 0, a); sg = T.boolof(T.extract(w - 1, w - 1, a)); q = T.boolof(T.extract(m - 1, m - 1, a))
    emax = T.eq(ex, M(e), e); ez = T.eq(ex, 0, e); fz = T.eq(fr, 0, m)
    def b(c, k): return T.shl(T.b2bv(c, 64), k, 64)
    nsg = T.lnot(sg)
    nrm = T.land(T.lnot(emax), T.lnot(ez))
    bits = [(T.land(emax, T.land(T.lnot(fz), T.lnot(q))), 0), (T.land(emax, T.land(T.lnot(fz), q)), 1)]
    for sgn, base in ((sg, 2), (nsg, 6)):
        bits += [(T.land(sgn, T.land(emax, fz)), base), (T.land(sgn, nrm), base + 1), (T.land(sgn, T.land(ez, T.lnot(fz))), base + 2), (T.land(sgn, T.land(ez, fz)), base + 3)]
    v = 0
    for c, k in bits: v = T.bor(v, b(c, k), 64)
    return v
def f2bits(x, w):
    import struct
    return struct.unpack('<I' if w == 32 else '<Q', struct.pack('<f' if w == 32 else '<d', x))[0]
def inrange(a, w, iw):
    """trunc(a) representable as signed iw-bit"""
    lo = -(2.0 ** (iw - 1)); hi = 2.0 ** (iw - 1)
    okhi = f_lt(a, f2bits(hi, w), w)
    if iw == 32 and w == 64:
        oklo = f_lt(f2bits(-2147483649.0, w), a, w)
    else:
        oklo = T.lor(f_lt(f2bits(lo, w), a, w), f_eq(a, f2bits(lo, w), w))
    return T.land(okhi, oklo)
def ftoi(a, w, iw):
    v = uf('fptosi_%d_%d' % (w, iw), [a], [w], iw)
    ok = inrange(a, w, iw)
    return lambda got: T.lor(T.lnot(ok), T.eq(got, v, iw))
for nm, w in FS:
    def mk2(fn, w): return lambda s: s.setv(fn(s.fr(s.rj, w), s.fr(s.rk, w), w), w)
    for op in ('fadd', 'fsub', 'fmul', 'fdiv'):
        deff('fp', op + '.' + nm, mk2((lambda op: lambda a, b, w: f_bin(op, a, b, w))(op), w))
    deff('fp', 'fmax.' + nm, mk2(fmaxmin('max'), w)); deff('fp', 'fmin.' + nm, mk2(fmaxmin('min'), w))
    deff('fp', 'fcopysign.' + nm, mk2(lambda a, b, w: T.concat([(T.extract(w - 1, w - 1, b), 1), (T.extract(w - 2, 0, a), w - 1)]), w))
    def mk4(fn, w): return lambda s: s.setv(fn(s.fr(s.rj, w), s.fr(s.rk, w), s.fr(s.ra, w), w), w)
    deff('fp', 'fmadd.' + nm, mk4(fma, w)); deff('fp', 'fmsub.' + nm, mk4(lambda a, b, c, w: fma(a, b, fneg(c, w), w), w))
    deff('fp', 'fnmadd.' + nm, mk4(lambda a, b, c, w: fneg(fma(a, b, c, w), w), w)); deff('fp', 'fnmsub.' + nm, mk4(lambda a, b, c, w: fneg(fma(a, b, fneg(c, w), w), w), w))
    def mk1(fn, w): return lambda s: s.setv(fn(s.fr(s.rj, w)), w)
    deff('fp', 'fabs.' + nm, mk1((lambda w: lambda a: T.band(a, M(w - 1), w))(w), w)); deff('fp', 'fneg.' + nm, mk1((lambda w: lambda a: fneg(a, w))(w), w))
    deff('fp', 'fmov.' + nm, mk1(lambda a: a, w)); deff('fp', 'fclass.' + nm, mk1((lambda w: lambda a: T.extract(w - 1, 0, fclass(a, w)))(w), w))
    deff('fp', 'fsqrt.' + nm, mk1((lambda w: lambda a: uf('sqrt%d' % w, [a], [w], w))(w), w))
    for i, iw in (('w', 32), ('l', 64)):
        def mkc(w, iw): return lambda s: s.setv(ftoi(s.fr(s.rj, w), w, iw), iw)
        deff('fp', 'ftintrz.%s.%s' % (i, nm), mkc(w, iw))
        def mki(w, iw): return lambda s: s.setv(uf('sitofp_64_%d' % w, [T.sext(s.fr(s.rj, iw), iw, 64)], [64], w), w)
        deff('fp', 'ffint.%s.%s' % (nm, i), mki(w, iw))
    CC = {0: 'caf', 2: 'clt', 4: 'ceq', 6: 'cle', 8: 'cun', 0xa: 'cult', 0xc: 'cueq', 0xe: 'cule', 0x10: 'cne', 0x14: 'cor', 0x18: 'cune'}
    def fcmpv(code, a, b, w):
        r = 0
        if code & 2: r = T.lor(r, f_lt(a, b, w))
        if code & 4: r = T.lor(r, f_eq(a, b, w))
        if code & 8: r = T.lor(r, f_unord(a, b, w))
        if code & 16: r = T.lor(r, T.lor(f_lt(a, b, w), f_lt(b, a, w)))
        return r
    for code, cn in CC.items():
        for sig in (0, 1):
            name = (cn if not sig else 's' + cn[1:])
            deff('fp', 'fcmp.%s.%s' % (name, nm), (lambda code, w: lambda s: s.setc(fcmpv(code, s.fr(s.rj, w), s.fr(s.rk, w), w)))(code, w))
            for pre, W in (('v', 128), ('xv', 256)):
                deff('lsx' if pre == 'v' else 'lasx', '%sfcmp.%s.%s' % (pre, name, nm),
                     (lambda code, w, W: lambda s: s.setv(join([T.ite(fcmpv(code, a, b, w), M(w), 0, w) for a, b in zip(lanes(s.vr(s.rj, W), w, W), lanes(s.vr(s.rk, W), w, W))], w), W))(code, w, W))
deff('fp', 'fcvt.s.d', lambda s: s.setv(uf('fptrunc_64_32', [s.fr(s.rj, 64)], [64], 32), 32))
deff('fp', 'fcvt.d.s', lambda s: s.setv(uf('fpext_32_64', [s.fr(s.rj, 32)], [32], 64), 64))
deff('fp', 'fsel', lambda s: s.setv(T.ite(s.cf(s.ca), s.fr(s.rk, 64), s.fr(s.rj, 64), 64), 64))
deff('fp', 'movgr2fr.w', lambda s: s.setv(s.gw32(s.rj), 32)); deff('fp', 'movgr2fr.d', lambda s: s.setv(s.gr(s.rj), 64))
deff('fp', 'movfr2gr.s', lambda s: s.set(T.sext(s.fr(s.rj, 32), 32, 64))); deff('fp', 'movfr2gr.d', lambda s: s.set(s.fr(s.rj, 64)))
deff('fp', 'movgr2cf', lambda s: s.setc(T.boolof(T.extract(0, 0, s.gr(s.rj))))); deff('fp', 'movcf2gr', lambda s: s.set(T.b2bv(s.cf(s.cj), 64)))
deff('fp', 'movfr2cf', lambda s: s.setc(T.boolof(T.extract(0, 0, s.vr(s.rj))))); deff('fp', 'movcf2fr', lambda s: s.setv(T.b2bv(s.cf(s.cj), 64), 64))

# ---------------------------------------------------------------- vectors
EW = {'b': 8, 'h': 16, 'w': 32, 'd': 64}
for pre, W, cls in (('v', 128, 'lsx'), ('xv', 256, 'lasx')):
    def D(name, fn): deff(cls, pre + name, fn)
    def l3(fn, ew, W): return lambda s: s.setv(join([fn(a, b, ew) for a, b in zip(lanes(s.vr(s.rj, W), ew, W), lanes(s.vr(s.rk, W), ew, W))], ew), W)
    def l2(fn, ew, W): return lambda s: s.setv(join([fn(a, ew) for a in lanes(s.vr(s.rj, W), ew, W)], ew), W)
    def b3(fn, W): return lambda s: s.setv(fn(s.vr(s.rj, W), s.vr(s.rk, W), W), W)
    ALL = lambda c: (lambda a, b, w: T.ite(c(a, b, w), M(w), 0, w))
    D('and.v', b3(T.band, W)); D('or.v', b3(T.bor, W)); D('xor.v', b3(T.bxor, W)); D('nor.v', b3(lambda a, b, w: T.bnot(T.bor(a, b, w), w), W))
    D('andn.v', b3(lambda a, b, w: T.band(T.bnot(a, w), b, w), W)); D('orn.v', b3(lambda a, b, w: T.bor(a, T.bnot(b, w), w), W))
    D('bitsel.v', (lambda W: lambda s: s.setv(T.bor(T.band(s.vr(s.rk, W), s.vr(s.ra, W), W), T.band(s.vr(s.rj, W), T.bnot(s.vr(s.ra, W), W), W), W), W))(W))
    def rep8(s): return s.f(17, 10)
    D('ori.b', (lambda W: lambda s: s.setv(join([T.bor(a, s.f(17, 10), 8) for a in lanes(s.vr(s.rj, W), 8, W)], 8), W))(W))
    D('andi.b', (lambda W: lambda s: s.setv(join([T.band(a, s.f(17, 10), 8) for a in lanes(s.vr(s.rj, W), 8, W)], 8), W))(W))
    D('xori.b', (lambda W: lambda s: s.setv(join([T.bxor(a, s.f(17, 10), 8) for a in lanes(s.vr(s.rj, W), 8, W)], 8), W))(W))
    D('nori.b', (lambda W: lambda s: s.setv(join([T.bnot(T.bor(a, s.f(17, 10), 8), 8) for a in lanes(s.vr(s.rj, W), 8, W)], 8), W))(W))
    for e, ew in EW.items():
        D('add.' + e, l3(T.add, ew, W)); D('sub.' + e, l3(T.sub, ew, W)); D('mul.' + e, l3(T.mul, ew, W))
        def madd(ew, W, f): return lambda s: s.setv(join([f(d, T.mul(a, b, ew), ew) for d, a, b in zip(lanes(s.vr(s.rd, W), ew, W), lanes(s.vr(s.rj, W), ew, W), lanes(s.vr(s.rk, W), ew, W))], ew), W)
        D('madd.' + e, madd(ew, W, T.add)); D('msub.' + e, madd(ew, W, T.sub))
        D('max.' + e, l3(lambda a, b, w: T.ite(T.slt(a, b, w), b, a, w), ew, W)); D('min.' + e, l3(lambda a, b, w: T.ite(T.slt(a, b, w), a, b, w), ew, W))
        D('max.' + e + 'u', l3(lambda a, b, w: T.ite(T.ult(a, b, w), b, a, w), ew, W)); D('min.' + e + 'u', l3(lambda a, b, w: T.ite(T.ult(a, b, w), a, b, w), ew, W))
        D('seq.' + e, l3(ALL(T.eq), ew, W)); D('slt.' + e, l3(ALL(T.slt), ew, W)); D('slt.' + e + 'u', l3(ALL(T.ult), ew, W))
        D('sle.' + e, l3(ALL(T.sle), ew, W)); D('sle.' + e + 'u', l3(ALL(T.ule), ew, W))
        def imm5(fn, ew, W, sg): return lambda s: s.setv(join([fn(a, s.sx(14, 10, ew) if sg else s.zx(14, 10, ew), ew) for a in lanes(s.vr(s.rj, W), ew, W)], ew), W)
        D('seqi.' + e, imm5(ALL(T.eq), ew, W, 1)); D('addi.' + e + 'u', imm5(T.add, ew, W, 0)); D('subi.' + e + 'u', imm5(T.sub, ew, W, 0))
        D('slti.' + e, imm5(ALL(T.slt), ew, W, 1)); D('slti.' + e + 'u', imm5(ALL(T.ult), ew, W, 0))
        sb = ew.bit_length() - 1
        def shi(fn, ew, W, sb): return lambda s: s.setv(join([fn(a, T.zext(s.f(9 + sb, 10), sb, ew), ew) for a in lanes(s.vr(s.rj, W), ew, W)], ew), W)
        D('slli.' + e, shi(T.shl, ew, W, sb)); D('srli.' + e, shi(T.lshr, ew, W, sb)); D('srai.' + e, shi(T.ashr, ew, W, sb))
        D('bitrevi.' + e, shi(lambda a, n, w: T.bxor(a, T.shl(1, n, w), w), ew, W, sb)); D('bitseti.' + e, shi(lambda a, n, w: T.bor(a, T.shl(1, n, w), w), ew, W, sb))
        D('bitclri.' + e, shi(lambda a, n, w: T.band(a, T.bnot(T.shl(1, n, w), w), w), ew, W, sb))
        D('pcnt.' + e, l2(T.popcount, ew, W)); D('clz.' + e, l2(T.clz, ew, W)); D('clo.' + e, l2(clo, ew, W)); D('neg.' + e, l2(lambda a, w: T.sub(0, a, w), ew, W))
        def sh(fn, ew, W): return l3(lambda a, b, w: fn(a, T.band(b, w - 1, w), w), ew, W)
        D('sll.' + e, sh(T.shl, ew, W)); D('srl.' + e, sh(T.lshr, ew, W)); D('sra.' + e, sh(T.ashr, ew, W))
        def g128(fn, ew, W):
            # fn(list a, list b) per 128-bit lane
            def d(s):
                A = lanes(s.vr(s.rj, W), ew, W); B = lanes(s.vr(s.rk, W), ew, W); n = 128 // ew; out = []
                for g in range(W // 128): out += fn(A[g * n:g * n + n], B[g * n:g * n + n], n)
                s.setv(join(out, ew), W)
            return d
        def ilvl(a, b, n): return [x for i in range(n // 2) for x in (b[i], a[i])]
        def ilvh(a, b, n): return [x for i in range(n // 2, n) for x in (b[i], a[i])]
        def pickev(a, b, n): return [b[2 * i] for i in range(n // 2)] + [a[2 * i] for i in range(n // 2)]
        def pickod(a, b, n): return [b[2 * i + 1] for i in range(n // 2)] + [a[2 * i + 1] for i in range(n // 2)]
        def packev(a, b, n): return [x for i in range(n // 2) for x in (b[2 * i], a[2 * i])]
        def packod(a, b, n): return [x for i in range(n // 2) for x in (b[2 * i + 1], a[2 * i + 1])]
        D('ilvl.' + e, g128(ilvl, ew, W)); D('ilvh.' + e, g128(ilvh, ew, W)); D('pickev.' + e, g128(pickev, ew, W)); D('pickod.' + e, g128(pickod, ew, W))
        D('packev.' + e, g128(packev, ew, W)); D('packod.' + e, g128(packod, ew, W))
        D('replgr2vr.' + e, (lambda ew, W: lambda s: s.setv(join([T.extract(ew - 1, 0, s.gr(s.rj))] * (W // ew), ew), W))(ew, W))
        nb = 4 - {'b': 0, 'h': 1, 'w': 2, 'd': 3}[e]
        def sel(ls, idx, ew):
            v = ls[0]
            for k in range(1, len(ls)): v = T.ite(T.eq(idx, k, idx.size() if not T.isint(idx) else 8), ls[k], v, ew)
            return v
        def replvei(ew, W, nb):
            def d(s):
                L = lanes(s.vr(s.rj, W), ew, W); n = 128 // ew; out = []
                for g in range(W // 128): out += [sel(L[g * n:g * n + n], s.f(9 + nb, 10), ew)] * n
                s.setv(join(out, ew), W)
            return d
        if pre == 'v': D('replvei.' + e, replvei(ew, W, nb))
        else: D('repl128vei.' + e, replvei(ew, W, nb))
        def replve(ew, W, nb):
            def d(s):
                L = lanes(s.vr(s.rj, W), ew, W); n = 128 // ew; out = []
                for g in range(W // 128): out += [sel(L[g * n:g * n + n], T.extract(nb - 1, 0, s.gr(s.rk)), ew)] * n
                s.setv(join(out, ew), W)
            return d
        D('replve.' + e, replve(ew, W, nb))
        # moves between vector lanes and general registers
        if pre == 'v' or ew >= 32:
            ib = nb + (1 if pre == 'xv' else 0)
            for u in (0, 1):
                D('pickve2gr.' + e + ('u' if u else ''), (lambda ew, W, ib, u: lambda s: s.set((T.zext if u else T.sext)(sel(lanes(s.vr(s.rj, W), ew, W), s.f(9 + ib, 10), ew), ew, 64)))(ew, W, ib, u))
            D('insgr2vr.' + e, (lambda ew, W, ib: lambda s: s.setv(join([T.ite(T.eq(s.f(9 + ib, 10), k, ib), T.extract(ew - 1, 0, s.gr(s.rj)), x, ew) for k, x in enumerate(lanes(s.vr(s.rd, W), ew, W))], ew), W))(ew, W, ib))
        if pre == 'xv':
            D('replve0.' + e, (lambda ew, W: lambda s: s.setv(join([T.extract(ew - 1, 0, s.vr(s.rj))] * (W // ew), ew), W))(ew, W))
            if ew >= 32:
                D('pickve.' + e, (lambda ew, W: lambda s: s.setv(T.zext(sel(lanes(s.vr(s.rj, W), ew, W), s.f(12 if ew == 32 else 11, 10), ew), ew, W), W))(ew, W))
        for z, nm2 in ((1, 'setanyeqz.'), (0, 'setallnez.')):
            def seta(ew, W, z):
                def d(s):
                    r = 0
                    for x in lanes(s.vr(s.rj, W), ew, W): r = T.lor(r, T.eq(x, 0, ew))
                    s.setc(r if z else T.lnot(r))
                return d
            D(nm2 + e, seta(ew, W, z))
        def frst(ew, W, z, imm):
            def d(s):
                A = lanes(s.vr(s.rj, W), ew, W); Dl = lanes(s.vr(s.rd, W), ew, W); n = 128 // ew; out = []
                K = lanes(s.vr(s.rk, W), ew, W)
                for g in range(W // 128):
                    idx = n
                    for k in reversed(range(n)):
                        sg = T.boolof(T.extract(ew - 1, ew - 1, A[g * n + k]))
                        idx = T.ite(sg if z else T.lnot(sg), k, idx, ew)
                    lb = n.bit_length() - 1
                    pos = T.extract(lb - 1, 0, s.f(14, 10)) if imm else T.extract(lb - 1, 0, K[g * n])
                    out += [T.ite(T.eq(pos, k, lb), idx, Dl[g * n + k], ew) for k in range(n)]
                s.setv(join(out, ew), W)
            return d
        if ew <= 16:
            D('frstpi.' + e, frst(ew, W, 1, 1)); D('frstp.' + e, frst(ew, W, 1, 0))
    for z, nm2 in ((1, 'seteqz.v'), (0, 'setnez.v')):
        D(nm2, (lambda W, z: lambda s: s.setc(T.eq(s.vr(s.rj, W), 0, W) if z else T.lnot(T.eq(s.vr(s.rj, W), 0, W))))(W, z))
    def msk(fn, ew, W):
        def d(s):
            L = lanes(s.vr(s.rj, W), ew, W); n = 128 // ew; out = []
            for g in range(W // 128):
                out.append((T.concat([(T.bv(fn(x, ew), 1) if not T.isint(fn(x, ew)) else fn(x, ew), 1) for x in reversed(L[g * n:g * n + n])]), n))
            v = T.concat([x for g in reversed(out) for x in ((0, 128 - g[1]), g)])
            s.setv(v, W)
        return d
    for e, ew in EW.items(): D('mskltz.' + e, msk(lambda x, w: T.extract(w - 1, w - 1, x), ew, W))
    D('mskgez.b', msk(lambda x, w: T.bnot(T.extract(7, 7, x), 1), 8, W)); D('msknz.b', msk(lambda x, w: T.b2bv(T.lnot(T.eq(x, 0, 8)), 1), 8, W))
    def shufb(W):
        def d(s):
            J = lanes(s.vr(s.rj, W), 8, W); K = lanes(s.vr(s.rk, W), 8, W); A = lanes(s.vr(s.ra, W), 8, W); out = []
            for i in range(W // 8):
                g = i // 16 * 16
                tbl = K[g:g + 16] + J[g:g + 16]
                s.require(T.ult(A[i], 32, 8))
                out.append(sel(tbl, T.extract(4, 0, A[i]), 8))
            s.setv(join(out, 8), W)
        return d
    D('shuf.b', shufb(W))
    # widening horizontal add / subtract
    for d2, e2, dw in (('h', 'b', 16), ('w', 'h', 32), ('d', 'w', 64), ('q', 'd', 128)):
        def hw(f, dw, W, u):
            def d(s):
                A = lanes(s.vr(s.rj, W), dw // 2, W); B = lanes(s.vr(s.rk, W), dw // 2, W); ex = T.zext if u else T.sext
                s.setv(join([f(ex(A[2 * i + 1], dw // 2, dw), ex(B[2 * i], dw // 2, dw), dw) for i in range(W // dw)], dw), W)
            return d
        D('haddw.%s.%s' % (d2, e2), hw(T.add, dw, W, 0)); D('haddw.%su.%su' % (d2, e2), hw(T.add, dw, W, 1))
        D('hsubw.%s.%s' % (d2, e2), hw(T.sub, dw, W, 0)); D('hsubw.%su.%su' % (d2, e2), hw(T.sub, dw, W, 1))
    for e, w in FS:
        for op in ('fadd', 'fsub', 'fmul', 'fdiv'): D(op + '.' + e, l3((lambda op: lambda a, b, w: f_bin(op, a, b, w))(op), w, W))
        def f4(fn, w, W): return lambda s: s.setv(join([fn(a, b, c, w) for a, b, c in zip(lanes(s.vr(s.rj, W), w, W), lanes(s.vr(s.rk, W), w, W), lanes(s.vr(s.ra, W), w, W))], w), W)
        D('fmadd.' + e, f4(fma, w, W)); D('fmsub.' + e, f4(lambda a, b, c, w: fma(a, b, fneg(c, w), w), w, W))
        D('fnmadd.' + e, f4(lambda a, b, c, w: fneg(fma(a, b, c, w), w), w, W)); D('fnmsub.' + e, f4(lambda a, b, c, w: fneg(fma(a, b, fneg(c, w), w), w), w, W))
    def vftoi(w, W):
        def d(s):
            L = lanes(s.vr(s.rj, W), w, W)
            ps = [ftoi(a, w, w) for a in L]
            def pred(got):
                r = 1
                for p, g in zip(ps, lanes(got, w, W)): r = T.land(r, p(g))
                return r
            s.setv(pred, W)
        return d
    D('ftintrz.w.s', vftoi(32, W)); D('ftintrz.l.d', vftoi(64, W))
    def vldi(W):
        def d(s):
            i13 = s.f(17, 5)
            s.require(T.lnot(vldi_reserved(i13)))
            s.setv(join([vldi_imm(i13)] * (W // 64), 64), W)
        return d
    D('ldi', vldi(W))
def vldi_imm(i):
    """64-bit value replicated by [X]VLDI for the 13-bit immediate i"""
    e10 = T.extract(9, 0, i); mode = T.extract(11, 8, i); b8 = T.extract(7, 0, i)
    def rp(v, w): return T.concat([(v, w)] * (64 // w))
    plain = [rp(T.extract(7, 0, i), 8), rp(T.sext(e10, 10, 16), 16), rp(T.sext(e10, 10, 32), 32), T.sext(e10, 10, 64)]
    et = T.extract(11, 10, i)
    v0 = plain[3]
    for k in (2, 1, 0): v0 = T.ite(T.eq(et, k, 2), plain[k], v0, 64)
    def sh(v, n, w): return T.concat([(0, w - 8 - n), (v, 8), (0, n)]) if n else T.zext(v, 8, w)
    def ones(v, n, w): return T.concat([(0, w - 8 - n), (v, 8), (M(n), n)])
    b7 = T.extract(7, 7, i); b6 = T.extract(6, 6, i); nb6 = T.bnot(b6, 1)
    def r(b, n): return T.concat([(b, 1)] * n)
    f32 = T.concat([(b7, 1), (nb6, 1), (r(b6, 5), 5), (T.extract(5, 0, i), 6), (0, 19)])
    f64 = T.concat([(b7, 1), (nb6, 1), (r(b6, 8), 8), (T.extract(5, 0, i), 6), (0, 48)])
    modes = {0: rp(sh(b8, 0, 32), 32), 1: rp(sh(b8, 8, 32), 32), 2: rp(sh(b8, 16, 32), 32), 3: rp(sh(b8, 24, 32), 32),
             4: rp(sh(b8, 0, 16), 16), 5: rp(sh(b8, 8, 16), 16), 6: rp(ones(b8, 8, 32), 32), 7: rp(ones(b8, 16, 32), 32),
             8: rp(b8, 8), 9: T.concat([(r(T.extract(k, k, i), 8), 8) for k in reversed(range(8))]),
             10: rp(f32, 32), 11: T.concat([(0, 32), (f32, 32)]), 12: f64}
    v1 = modes[12]
    for k in range(12): v1 = T.ite(T.eq(mode, k, 4), modes[k], v1, 64)
    return T.ite(T.boolof(T.extract(12, 12, i)), v1, v0, 64)
def vldi_reserved(i):
    return T.land(T.boolof(T.extract(12, 12, i)), T.ult(12, T.extract(11, 8, i), 4))
@spec('lasx', 'xvpermi.q')
def _xvpermi_q(s):
    imm = s.f(17, 10); d = lanes(s.vr(s.rd), 128, 256); j = lanes(s.vr(s.rj), 128, 256); out = []
    for k in (0, 4):
        b1 = T.boolof(T.extract(k + 1, k + 1, imm)); b0 = T.boolof(T.extract(k, k, imm))
        out.append(T.ite(b1, T.ite(b0, d[1], d[0], 128), T.ite(b0, j[1], j[0], 128), 128))
    s.require(T.land(T.eq(T.extract(3, 2, imm), 0, 2), T.eq(T.extract(7, 6, imm), 0, 2)))
    s.setv(join(out, 128), 256)
@spec('lasx', 'xvpermi.d')
def _xvpermi_d(s):
    L = lanes(s.vr(s.rj), 64, 256)
    s.setv(join([sel(L, s.f(11 + 2 * k, 10 + 2 * k), 64) for k in range(4)], 64), 256)
