"""Bit-vector term constructors.  A value of width w is a Python int
(normalised to [0,2^w)) or a z3 BitVecRef; an i1 value is 0/1 or a z3 BoolRef.
The constructors fold constants and keep bit-field shuffling in
Concat/Extract form so that equal slices are syntactically equal."""
import z3
from z3 import z3core as zc

CTX = z3.main_ctx()
BV = z3.BitVecRef

def mask(w): return (1 << w) - 1

def isint(x): return type(x) is int

def bv(x, w):
    """to z3 bit-vector"""
    if isint(x): return z3.BitVecVal(x, w)
    if isinstance(x, z3.BoolRef): return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return x

def zb(x):
    """to z3 Bool"""
    if isint(x): return z3.BoolVal(bool(x))
    return x

def norm(x):
    """z3 numeral -> int"""
    if isint(x): return x
    if z3.is_bv_value(x): return x.as_long()
    return x

def same(a, b):
    if a is b: return True
    if isint(a) or isint(b): return isint(a) and isint(b) and a == b
    return a.eq(b)

_K = {}
def kind(x):
    return x.decl().kind()

Z = z3
# ---------------------------------------------------------------- structure
def cat_children(v):
    # z3py nests n-ary concatenations to the left
    out = []
    while z3.is_app(v) and v.decl().kind() == Z.Z3_OP_CONCAT:
        ch = v.children(); out += reversed(ch[1:]); v = ch[0]
    out.append(v); out.reverse()
    return out

def concat(parts):
    """parts: list of (value, width), most significant first"""
    out = []
    for v, w in parts:
        if w == 0: continue
        if not isint(v) and kind(v) == Z.Z3_OP_CONCAT:
            for c in cat_children(v):
                _cat1(out, norm(c), c.size())
        else:
            _cat1(out, norm(v), w)
    if len(out) == 1: return out[0][0]
    return z3.Concat(*[bv(v, w) for v, w in out])

def _cat1(out, v, w):
    if out:
        pv, pw = out[-1]
        if isint(v) and isint(pv):
            out[-1] = ((pv << w) | v, pw + w); return
        if not isint(v) and not isint(pv):
            # merge adjacent extracts of the same term
            if kind(v) == Z.Z3_OP_EXTRACT and kind(pv) == Z.Z3_OP_EXTRACT:
                if v.arg(0).eq(pv.arg(0)):
                    vh, vl = v.params(); ph, pl = pv.params()
                    if pl == vh + 1:
                        out[-1] = (extract(ph, vl, v.arg(0)), pw + w); return
    out.append((v, w))

_xmemo = {}
def extract(hi, lo, x):
    if isint(x): return (x >> lo) & mask(hi - lo + 1)
    w = x.size()
    if lo == 0 and hi == w - 1: return x
    k = kind(x)
    if k in _XREC:
        key = (x.get_id(), hi, lo)
        m = _xmemo.get(key)
        if m is not None: return m[1]
        r = _extract(hi, lo, x, k, w)
        _xmemo[key] = (x, r)          # holding x keeps its id in use
        return r
    return _extract(hi, lo, x, k, w)
_XREC = (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_BNOT, z3.Z3_OP_ITE, z3.Z3_OP_CONCAT, z3.Z3_OP_BADD)

def _extract(hi, lo, x, k, w):
    if k == Z.Z3_OP_CONCAT:
        ch = x.children()
        parts = []
        top = w
        for c in ch:
            cw = c.size()
            chi = top - 1; clo = top - cw
            top = clo
            if clo > hi or chi < lo: continue
            h = min(hi, chi) - clo; l = max(lo, clo) - clo
            parts.append((extract(h, l, norm(c)), h - l + 1))
        return concat(parts)
    if k == Z.Z3_OP_EXTRACT:
        h, l = x.params()
        return extract(l + hi, l + lo, x.arg(0))
    if k == Z.Z3_OP_ZERO_EXT:
        a = x.arg(0); aw = a.size()
        if hi < aw: return extract(hi, lo, a)
        if lo >= aw: return 0
        return concat([(0, hi - aw + 1), (extract(aw - 1, lo, a), aw - lo)])
    if k == Z.Z3_OP_SIGN_EXT:
        a = x.arg(0); aw = a.size()
        if hi < aw: return extract(hi, lo, a)
        if lo < aw - 1 or (lo <= aw - 1 and hi > aw - 1):
            base = extract(aw - 1, lo, a)
            return sext(base, aw - lo, hi - lo + 1)
    if k in (Z.Z3_OP_BAND, Z.Z3_OP_BOR, Z.Z3_OP_BXOR, Z.Z3_OP_BNOT) and (hi - lo) < 64:
        cs = [extract(hi, lo, c if not z3.is_bv_value(c) else c.as_long()) for c in x.children()]
        nw = hi - lo + 1
        if k == Z.Z3_OP_BNOT: return bnot(cs[0], nw)
        f = {Z.Z3_OP_BAND: band, Z.Z3_OP_BOR: bor, Z.Z3_OP_BXOR: bxor}[k]
        r = cs[0]
        for c in cs[1:]: r = f(r, c, nw)
        return r
    if k == Z.Z3_OP_ITE:
        a, b = norm(x.arg(1)), norm(x.arg(2))
        if isint(a) or isint(b) or kind(a) in (Z.Z3_OP_CONCAT, Z.Z3_OP_ZERO_EXT) or kind(b) in (Z.Z3_OP_CONCAT, Z.Z3_OP_ZERO_EXT):
            r = ite(x.arg(0), extract(hi, lo, a), extract(hi, lo, b), hi - lo + 1)
            if isinstance(r, z3.BoolRef): r = z3.If(r, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            return r
    if lo == 0 and k in (Z.Z3_OP_BADD, Z.Z3_OP_BMUL, Z.Z3_OP_BSUB):
        nw = hi + 1
        if k == Z.Z3_OP_BADD and x.num_args() == 2:
            a, b = norm(x.arg(0)), norm(x.arg(1))
            la, lb = extract(hi, 0, a), extract(hi, 0, b)
            if isint(la) or isint(lb): return add(la, lb, nw)
    if z3.is_bv_value(x): return (x.as_long() >> lo) & mask(hi - lo + 1)
    return z3.Extract(hi, lo, x)

def trunc(x, w, w2):
    if w == w2: return x
    return extract(w2 - 1, 0, x)

def zext(x, w, w2):
    if isint(x): return x
    if w == w2: return x
    return concat([(0, w2 - w), (x, w)])

def sext(x, w, w2):
    if isint(x):
        if x >> (w - 1) & 1: x |= mask(w2) ^ mask(w)
        return x
    if w == w2: return x
    # sign bit known zero?
    if kind(x) == Z.Z3_OP_CONCAT:
        c = x.arg(0)
        if z3.is_bv_value(c):
            v = c.as_long()
            if not (v >> (c.size() - 1)) & 1: return zext(x, w, w2)
    if kind(x) == Z.Z3_OP_SIGN_EXT:
        a = x.arg(0)
        return z3.SignExt(w2 - a.size(), a)
    return z3.SignExt(w2 - w, x)

def ite(c, a, b, w=None):
    if isint(c): return a if c else b
    if same(a, b): return a
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef) or w == 1 and (isint(a) and isint(b)):
        if isint(a) and isint(b):
            return c if a else lnot(c)
        if isint(a): return lor(c, b) if a else land(lnot(c), b)
        if isint(b): return lor(lnot(c), a) if b else land(c, a)
        return z3.If(c, a, b)
    if isint(a): a = z3.BitVecVal(a, w if w else b.size())
    if isint(b): b = z3.BitVecVal(b, a.size())
    # collapse nested ite on same cond
    if kind(a) == Z.Z3_OP_ITE and a.arg(0).eq(c): a = a.arg(1)
    if kind(b) == Z.Z3_OP_ITE and b.arg(0).eq(c): b = b.arg(2)
    if a.eq(b): return norm(a)
    # i == j ? A[j] : A[i]  is  A[i]
    if z3.is_eq(c) and z3.is_bv(c.arg(0)):
        i, j = c.arg(0), c.arg(1); p, q = a, b
        if kind(p) == Z.Z3_OP_EXTRACT and kind(q) == Z.Z3_OP_EXTRACT and p.params() == q.params(): p, q = p.arg(0), q.arg(0)
        if kind(p) == Z.Z3_OP_SELECT and kind(q) == Z.Z3_OP_SELECT and p.arg(0).eq(q.arg(0)):
            x, y = p.arg(1), q.arg(1)
            if (x.eq(i) and y.eq(j)) or (x.eq(j) and y.eq(i)): return b
    # x|k versus x: keep the common part outside
    if kind(a) == Z.Z3_OP_BOR and a.num_args() == 2:
        for u in (0, 1):
            if a.arg(u).eq(b): return bor(norm(b), ite(c, norm(a.arg(1 - u)), 0, b.size()), b.size())
    return z3.If(c, a, b)

# ---------------------------------------------------------------- bool
def lnot(a):
    if isint(a): return 1 - a
    if kind(a) == Z.Z3_OP_NOT: return a.arg(0)
    return z3.Not(a)
def land(a, b, *r):
    if r: return land(land(a, b), *r)
    if isint(a): return b if a else 0
    if isint(b): return a if b else 0
    if a.eq(b): return a
    return z3.And(a, b)
def lor(a, b, *r):
    if r: return lor(lor(a, b), *r)
    if isint(a): return 1 if a else b
    if isint(b): return 1 if b else a
    if a.eq(b): return a
    return z3.Or(a, b)
def lxor(a, b):
    if isint(a): return lnot(b) if a else b
    if isint(b): return lnot(a) if b else a
    return z3.Xor(a, b)

# ---------------------------------------------------------------- arith
def splitc(x, w):
    """x -> (term-or-None, const)"""
    if isint(x): return None, x
    if kind(x) == Z.Z3_OP_BADD and x.num_args() == 2 and z3.is_bv_value(x.arg(1)):
        return x.arg(0), x.arg(1).as_long()
    return x, 0

def add(a, b, w):
    if isint(a) and isint(b): return (a + b) & mask(w)
    ta, ca = splitc(a, w); tb, cb = splitc(b, w)
    c = (ca + cb) & mask(w)
    if ta is None: t = tb
    elif tb is None: t = ta
    else: t = _add2(ta, tb, w)
    if c == 0: return t
    if isint(t): return (t + c) & mask(w)
    # concat with low zeros and small constant: disjoint -> fold into concat
    if kind(t) == Z.Z3_OP_CONCAT:
        lo = t.arg(t.num_args() - 1)
        if z3.is_bv_value(lo):
            lv = lo.as_long(); lw = lo.size()
            if lv + c < (1 << lw):
                return concat([(norm(x), x.size()) for x in t.children()[:-1]] + [(lv + c, lw)])
    return t + z3.BitVecVal(c, w)

def _disjoint(a, b, w):
    if not (kind(a) == Z.Z3_OP_CONCAT and kind(b) == Z.Z3_OP_CONCAT): return False
    def nz(x):
        m = 0; t = w
        for c in x.children():
            cw = c.size(); t -= cw
            if z3.is_bv_value(c): m |= c.as_long() << t
            else: m |= mask(cw) << t
        return m
    return nz(a) & nz(b) == 0

def _add2(a, b, w):
    if _disjoint(a, b, w): return _bitcat(a, b, w, bor)
    # cancel  a + (-a), and terms: flatten sums with signs
    da, db = {}, {}
    _lin(a, 1, da, w); _lin(b, 1, da, w)
    terms = [(t, k) for t, k in da.values() if k % (1 << w)]
    n = sum(1 for v in da.values())
    if len(terms) == n:
        return a + b
    r = None
    for t, k in terms:
        k &= mask(w)
        if k == 1: x = t
        elif k == mask(w): x = -t
        else: x = t * z3.BitVecVal(k, w)
        if r is None: r = x
        elif k == mask(w): r = r - t
        else: r = r + x
    return 0 if r is None else r

def _lin(t, s, d, w):
    k = kind(t)
    if k == Z.Z3_OP_BADD:
        for c in t.children(): _lin(c, s, d, w)
        return
    if k == Z.Z3_OP_BSUB:
        _lin(t.arg(0), s, d, w)
        for c in t.children()[1:]: _lin(c, -s, d, w)
        return
    if k == Z.Z3_OP_BNEG:
        _lin(t.arg(0), -s, d, w); return
    i = t.get_id()
    if i in d: d[i] = (t, d[i][1] + s)
    else: d[i] = (t, s)

def sub(a, b, w):
    if isint(a) and isint(b): return (a - b) & mask(w)
    if isint(b): return add(a, (-b) & mask(w), w)
    if not isint(a) and a.eq(b): return 0
    ta, ca = splitc(a, w); tb, cb = splitc(b, w)
    c = (ca - cb) & mask(w)
    if ta is None: t = -tb
    elif tb is None: t = ta
    else: t = _sub2(ta, tb, w)
    return add(t, c, w) if c else t

def _sub2(a, b, w):
    d = {}
    _lin(a, 1, d, w); n0 = len(d)
    _lin(b, -1, d, w)
    terms = [(t, k) for t, k in d.values() if k & mask(w)]
    if len(terms) == len(d) and not (kind(a) in (Z.Z3_OP_BADD, Z.Z3_OP_BSUB) or kind(b) in (Z.Z3_OP_BADD, Z.Z3_OP_BSUB)):
        return a - b
    r = None
    for t, k in sorted(terms, key=lambda x: (x[1] < 0)):
        k &= mask(w)
        if r is None:
            r = t if k == 1 else (-t if k == mask(w) else t * z3.BitVecVal(k, w))
        elif k == mask(w): r = r - t
        elif k == 1: r = r + t
        else: r = r + t * z3.BitVecVal(k, w)
    return 0 if r is None else r

def mul(a, b, w):
    if isint(a) and isint(b): return (a * b) & mask(w)
    if isint(a): a, b = b, a
    if isint(b):
        if b == 0: return 0
        if b == 1: return a
        if b & (b - 1) == 0: return shl_c(a, b.bit_length() - 1, w)
        return a * z3.BitVecVal(b, w)
    if a.get_id() > b.get_id(): a, b = b, a
    return a * b

def shl_c(x, c, w):
    if c == 0: return x
    if c >= w: return 0
    return concat([(extract(w - 1 - c, 0, x), w - c), (0, c)])
def lshr_c(x, c, w):
    if c == 0: return x
    if c >= w: return 0
    return concat([(0, c), (extract(w - 1, c, x), w - c)])
def ashr_c(x, c, w):
    if c == 0: return x
    if c >= w: c = w - 1
    return sext(extract(w - 1, c, x), w - c, w)

def shl(a, b, w):
    if isint(b):
        if isint(a): return (a << b) & mask(w) if b < w else 0
        return shl_c(a, b, w)
    return bv(a, w) << b
def lshr(a, b, w):
    if isint(b):
        if isint(a): return a >> b if b < w else 0
        return lshr_c(a, b, w)
    return z3.LShR(bv(a, w), b)
def ashr(a, b, w):
    if isint(b):
        if isint(a):
            s = a - (1 << w) if a >> (w - 1) else a
            return (s >> min(b, w - 1)) & mask(w)
        return ashr_c(a, b, w)
    return bv(a, w) >> b

def _runs(m, w):
    """bit runs of constant m: list of (hi, lo, bit) msb first"""
    out = []
    i = w - 1
    while i >= 0:
        b = (m >> i) & 1
        j = i
        while j >= 0 and ((m >> j) & 1) == b: j -= 1
        out.append((i, j + 1, b))
        i = j
    return out

def band(a, b, w):
    if isint(a) and isint(b): return a & b
    if isint(a): a, b = b, a
    if isint(b):
        if b == 0: return 0
        if b == mask(w): return a
        r = _runs(b, w)
        if len(r) <= 6 or kind(a) == Z.Z3_OP_CONCAT:
            return concat([((extract(h, l, a) if bit else 0), h - l + 1) for h, l, bit in r])
        return a & z3.BitVecVal(b, w)
    if a.eq(b): return a
    if _zcat(a) and _zcat(b): return _bitcat(a, b, w, band)
    return a & b

def bor(a, b, w):
    if isint(a) and isint(b): return a | b
    if isint(a): a, b = b, a
    if isint(b):
        if b == 0: return a
        if b == mask(w): return b
        r = _runs(b, w)
        if len(r) <= 6 or kind(a) == Z.Z3_OP_CONCAT:
            return concat([((mask(h - l + 1) if bit else extract(h, l, a)), h - l + 1) for h, l, bit in r])
        return a | z3.BitVecVal(b, w)
    if a.eq(b): return a
    if _zcat(a) and _zcat(b): return _bitcat(a, b, w, bor)
    return a | b

def bxor(a, b, w):
    if isint(a) and isint(b): return a ^ b
    if isint(a): a, b = b, a
    if isint(b):
        if b == 0: return a
        if b == mask(w): return bnot(a, w)
        if kind(a) == Z.Z3_OP_CONCAT:
            r = _runs(b, w)
            if len(r) <= 8:
                return concat([((bnot(extract(h, l, a), h - l + 1) if bit else extract(h, l, a)), h - l + 1) for h, l, bit in r])
        return a ^ z3.BitVecVal(b, w)
    if a.eq(b): return 0
    if _zcat(a) and _zcat(b): return _bitcat(a, b, w, bxor)
    return a ^ b

def _zcat(x):
    """concat having at least one constant piece"""
    return kind(x) == Z.Z3_OP_CONCAT and any(z3.is_bv_value(c) for c in x.children())

def _bitcat(a, b, w, f):
    cuts = {0, w}
    for x in (a, b):
        t = w
        for c in x.children():
            t -= c.size(); cuts.add(t)
    cs = sorted(cuts, reverse=True)
    parts = []
    for h, l in zip(cs, cs[1:]):
        parts.append((f(extract(h - 1, l, a), extract(h - 1, l, b), h - l), h - l))
    return concat(parts)

def bnot(a, w):
    if isint(a): return a ^ mask(w)
    if kind(a) == Z.Z3_OP_BNOT: return a.arg(0)
    return ~a

def udiv(a, b, w):
    if isint(a) and isint(b) and b: return a // b
    if isint(b) and b and b & (b - 1) == 0: return lshr(a, b.bit_length() - 1, w)
    return z3.UDiv(bv(a, w), bv(b, w))
def urem(a, b, w):
    if isint(a) and isint(b) and b: return a % b
    if isint(b) and b and b & (b - 1) == 0: return band(a, b - 1, w)
    return z3.URem(bv(a, w), bv(b, w))
def sgn(a, w): return a - (1 << w) if a >> (w - 1) & 1 else a
def sdiv(a, b, w):
    if isint(a) and isint(b) and b:
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & mask(w)
    return bv(a, w) / bv(b, w)
def srem(a, b, w):
    if isint(a) and isint(b) and b:
        x, y = sgn(a, w), sgn(b, w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & mask(w)
    return z3.SRem(bv(a, w), bv(b, w))

def _hiconst(x):
    """number of known-zero top bits of a concat"""
    if kind(x) == Z.Z3_OP_CONCAT:
        c = x.arg(0)
        if z3.is_bv_value(c) and c.as_long() == 0: return c.size()
    return 0

def eq(a, b, w):
    if isint(a) and isint(b): return int(a == b)
    if isint(a): a, b = b, a
    if not isint(b) and a.eq(b): return 1
    if isint(b):
        if kind(a) == Z.Z3_OP_CONCAT:
            # constant pieces decide
            t = w; rest = []
            for c in a.children():
                cw = c.size(); t -= cw
                piece = (b >> t) & mask(cw)
                if z3.is_bv_value(c):
                    if c.as_long() != piece: return 0
                else: rest.append((c, piece, cw))
            if len(rest) < a.num_args():
                if not rest: return 1
                r = 1
                for c, p, cw in rest: r = land(r, eq(c, p, cw))
                return r
        if kind(a) == Z.Z3_OP_ITE:
            x, y = norm(a.arg(1)), norm(a.arg(2))
            if isint(x) or isint(y):
                return ite(a.arg(0), eq(x, b, w), eq(y, b, w), 1)
        if w == 1 and False: pass
        return a == z3.BitVecVal(b, w)
    # compare sums: same difference
    za, ra = low_known(a); zb, rb = low_known(b); z = min(za, zb)
    if z and (ra ^ rb) & mask(z): return 0
    ta, ca = splitc(a, w); tb, cb = splitc(b, w)
    if ta is not None and tb is not None and ta.eq(tb): return int(ca == cb)
    return a == b

def ult(a, b, w):
    if isint(a) and isint(b): return int(a < b)
    if isint(b):
        if b == 0: return 0
        if not isint(a):
            z = _hiconst(a)
            if z and mask(w - z) < b: return 1
            if b == 1: return eq(a, 0, w)
    if isint(a):
        if a == mask(w): return 0
        z = _hiconst(b)
        if z and a >= mask(w - z): return 0
    if not isint(a) and not isint(b) and a.eq(b): return 0
    return z3.ULT(bv(a, w), bv(b, w))
def ule(a, b, w): return lnot(ult(b, a, w))
def slt(a, b, w):
    if isint(a) and isint(b): return int(sgn(a, w) < sgn(b, w))
    if not isint(a) and not isint(b) and a.eq(b): return 0
    za = (a >> (w-1) == 0) if isint(a) else _hiconst(a)
    zb_ = (b >> (w-1) == 0) if isint(b) else _hiconst(b)
    if za and zb_: return ult(a, b, w)
    return bv(a, w) < bv(b, w)
def sle(a, b, w): return lnot(slt(b, a, w))

_fresh = [0]
def fresh(name, w):
    _fresh[0] += 1
    if w == 'bool': return z3.Bool('%s!%d' % (name, _fresh[0]))
    return z3.BitVec('%s!%d' % (name, _fresh[0]), w)
def fresh_name(name):
    _fresh[0] += 1
    return '%s!%d' % (name, _fresh[0])

def boolof(b1):
    """1-bit term -> bool"""
    if isint(b1): return b1
    if kind(b1) == Z.Z3_OP_ITE:
        x, y = norm(b1.arg(1)), norm(b1.arg(2))
        if isint(x) and isint(y):
            if x == y: return x
            return b1.arg(0) if x else lnot(b1.arg(0))
    return b1 == z3.BitVecVal(1, 1)

def b2bv(c, w):
    """bool -> w-bit term"""
    if isint(c): return c
    # (x == 1#1) -> zext x
    if kind(c) == Z.Z3_OP_EQ and z3.is_bv(c.arg(0)) and c.arg(0).size() == 1 and z3.is_bv_value(c.arg(1)) and c.arg(1).as_long() == 1:
        return zext(c.arg(0), 1, w)
    if w == 1: return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return concat([(0, w - 1), (z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), 1)])

def _lin_full(t, s, d, w):
    """linear decomposition ignoring constants: id -> (term, coeff)"""
    if isint(t) or z3.is_bv_value(t): return
    k = kind(t)
    if k == Z.Z3_OP_BADD:
        for c in t.children(): _lin_full(c, s, d, w)
        return
    if k == Z.Z3_OP_BSUB:
        _lin_full(t.arg(0), s, d, w)
        for c in t.children()[1:]: _lin_full(c, -s, d, w)
        return
    if k == Z.Z3_OP_BNEG:
        _lin_full(t.arg(0), -s, d, w); return
    i = t.get_id()
    d[i] = (t, d[i][1] + s) if i in d else (t, s)

def urange(x, w):
    """unsigned interval containing x (cheap)"""
    if isint(x): return x, x
    k = kind(x)
    if k == Z.Z3_OP_CONCAT:
        lo = hi = 0
        for c in x.children():
            cw = c.size(); l, h = urange(norm(c), cw)
            lo = (lo << cw) | l; hi = (hi << cw) | h
        return lo, hi
    if k == Z.Z3_OP_ZERO_EXT: return urange(norm(x.arg(0)), x.arg(0).size())
    if k == Z.Z3_OP_ITE:
        a = urange(norm(x.arg(1)), w); b = urange(norm(x.arg(2)), w)
        return min(a[0], b[0]), max(a[1], b[1])
    if k == Z.Z3_OP_BADD:
        lo = hi = 0
        for c in x.children():
            l, h = urange(norm(c), w); lo += l; hi += h
        if hi < (1 << w): return lo, hi
        # constant wrap-around: t + (-c)
        if x.num_args() == 2 and z3.is_bv_value(x.arg(1)):
            c = x.arg(1).as_long(); l, h = urange(norm(x.arg(0)), w)
            m = (1 << w) - c
            if l >= m: return l - m, h - m
    if k == Z.Z3_OP_BAND:
        h = mask(w)
        for c in x.children(): h = min(h, urange(norm(c), w)[1])
        return 0, h
    if k in (Z.Z3_OP_BUREM, Z.Z3_OP_BUREM_I):
        b = norm(x.arg(1))
        if isint(b) and b: return 0, b - 1
    if k == Z.Z3_OP_BLSHR:
        return 0, urange(norm(x.arg(0)), w)[1]
    if k == Z.Z3_OP_BMUL and x.num_args() == 2:
        l1, h1 = urange(norm(x.arg(0)), w); l2, h2 = urange(norm(x.arg(1)), w)
        if h1 * h2 < (1 << w): return l1 * l2, h1 * h2
    return 0, mask(w)

def low_known(x):
    """(t, r): x mod 2^t == r, for the largest t cheaply known"""
    if isint(x): return 6, x & 63
    k = kind(x)
    if k == Z.Z3_OP_CONCAT:
        t = r = 0
        for c in reversed(x.children()):
            if not z3.is_bv_value(c): break
            r |= c.as_long() << t; t += c.size()
            if t >= 6: break
        return min(t, 6), r & mask(min(t, 6))
    if k == Z.Z3_OP_BADD:
        t, r = 6, 0
        for c in x.children():
            t1, r1 = low_known(norm(c)); t = min(t, t1); r += r1
        return t, r & mask(t)
    if k == Z.Z3_OP_ITE:
        t1, r1 = low_known(norm(x.arg(1))); t2, r2 = low_known(norm(x.arg(2)))
        t = min(t1, t2)
        while t and (r1 ^ r2) & mask(t): t -= 1
        return t, r1 & mask(t)
    if k == Z.Z3_OP_BMUL:
        for c in x.children():
            if z3.is_bv_value(c):
                v = c.as_long(); t = 0
                while v and not v & 1 and t < 6: v >>= 1; t += 1
                return t, 0
    return 0, 0

def popcount(x, w):
    if isint(x): return bin(x).count('1')
    r = None
    bits = [zext(extract(k, k, x), 1, w) for k in range(w)]
    while len(bits) > 1:
        bits = [add(bits[i], bits[i + 1], w) if i + 1 < len(bits) else bits[i] for i in range(0, len(bits), 2)]
    return bits[0]
def clz(x, w):
    if isint(x): return w - x.bit_length()
    r = w
    for k in range(w): r = ite(eq(extract(k, k, x), 1, 1), w - 1 - k, r, w)
    return r
def ctz(x, w):
    if isint(x): return w if x == 0 else (x & -x).bit_length() - 1
    r = w
    for k in reversed(range(w)): r = ite(eq(extract(k, k, x), 1, 1), k, r, w)
    return r

def top_ites(v, out=None):
    """conditions of the if-then-else nodes reachable through concatenations"""
    if out is None: out = []
    if isint(v) or isinstance(v, z3.BoolRef): return out
    k = kind(v)
    if k == Z.Z3_OP_ITE:
        c = v.arg(0)
        if not any(c.eq(x) for x in out): out.append(c)
        top_ites(norm(v.arg(1)), out); top_ites(norm(v.arg(2)), out)
    elif k == Z.Z3_OP_CONCAT:
        for x in cat_children(v): top_ites(norm(x), out)
    return out

def reduce_ite(v, c, truth):
    """v under the assumption c == truth"""
    if isint(v) or isinstance(v, z3.BoolRef): return v
    k = kind(v)
    if k == Z.Z3_OP_ITE:
        if v.arg(0).eq(c): return reduce_ite(norm(v.arg(1 if truth else 2)), c, truth)
        return ite(v.arg(0), reduce_ite(norm(v.arg(1)), c, truth), reduce_ite(norm(v.arg(2)), c, truth), v.size())
    if k == Z.Z3_OP_CONCAT:
        return concat([(reduce_ite(norm(x), c, truth), x.size()) for x in cat_children(v)])
    return v
