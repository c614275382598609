"""Hybrid bit-vector terms: a value is a non-negative Python int (concrete) or a z3 BitVecRef; a truth value is a
Python bool or a z3 BoolRef.  Every operator folds constants and does the few rewrites that keep machine-code and
reference terms syntactically close; everything else is left to the solver."""
import z3

_LSHR, _ASHR, _SHL = z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR, z3.Z3_OP_BSHL
MASK = {w: (1 << w) - 1 for w in range(0, 257)}
K = z3
_ZEXT, _SEXT, _CONCAT, _EXTRACT, _BADD, _BNUM, _ITE = (
    z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT, z3.Z3_OP_CONCAT, z3.Z3_OP_EXTRACT, z3.Z3_OP_BADD, z3.Z3_OP_BNUM, z3.Z3_OP_ITE)


def isc(a):
    return type(a) is int


_bvcache = {}


def bv(w, a):
    if type(a) is int:
        k = (w, a)
        r = _bvcache.get(k)
        if r is None:
            if len(_bvcache) > 200000:
                _bvcache.clear()
            r = _bvcache[k] = z3.BitVecVal(a, w)
        return r
    return a


def kind(t):
    return t.decl().kind()


def norm(t):
    """int if a z3 numeral"""
    if type(t) is not int and z3.is_bv_value(t):
        return t.as_long()
    return t


def simp(t):
    if type(t) is int or type(t) is bool:
        return t
    r = z3.simplify(t)
    if z3.is_bv_value(r):
        return r.as_long()
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r


def s2(w, a):
    return a - (1 << w) if a >> (w - 1) & 1 else a


def add(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return (a + b) & MASK[w]
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if kind(a) == _BADD and a.num_args() == 2:
            c = a.arg(1)
            if z3.is_bv_value(c):
                s = (c.as_long() + b) & MASK[w]
                return a.arg(0) if s == 0 else a.arg(0) + bv(w, s)
        return a + bv(w, b)
    return a + b


def sub(w, a, b):
    if type(b) is int:
        return add(w, a, (-b) & MASK[w])
    if type(a) is not int and a.eq(b):
        return 0
    return bv(w, a) - b


def neg(w, a):
    return (-a) & MASK[w] if type(a) is int else -a


def not_(w, a):
    return (~a) & MASK[w] if type(a) is int else ~a


def mul(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return (a * b) & MASK[w]
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return a
    return a * bv(w, b)


def and_(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return a & b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == MASK[w]:
            return a
        if b & (b + 1) == 0:                      # low mask
            n = b.bit_length()
            return zext(n, w, ext(w, a, n - 1, 0))
        return a & bv(w, b)
    if a.eq(b):
        return a
    return a & b


def or_(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return a | b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if b == MASK[w]:
            return b
        r = _or_parts(w, a, b)
        return a | bv(w, b) if r is None else r
    if a.eq(b):
        return a
    r = _or_parts(w, a, b)
    return a | b if r is None else r


def _pieces(w, t):
    """[(width, term or 0)] from the top, with the constant runs of t visible; None when there is none"""
    if type(t) is int:
        r, i = [], w
        while i:                              # runs of zeroes, and the rest bit by bit
            j = i - 1
            bit = t >> j & 1
            while j and (t >> (j - 1) & 1) == bit:
                j -= 1
            r.append((i - j, MASK[i - j] if bit else 0))
            i = j
        return r
    k = kind(t)
    if k == _ZEXT:
        a = t.arg(0)
        return [(w - a.size(), 0), (a.size(), a)]
    if k == _CONCAT:
        r = []
        for i in range(t.num_args()):
            a = norm(t.arg(i))
            r.append((t.arg(i).size(), a))
        return r
    if k == z3.Z3_OP_BSHL and z3.is_bv_value(t.arg(1)):
        n = t.arg(1).as_long()
        if n >= w:
            return [(w, 0)]
        a = t.arg(0)
        if kind(a) == _ZEXT:
            b = a.arg(0)
            if b.size() + n <= w:
                return [(w - n - b.size(), 0), (b.size(), b), (n, 0)]
        return [(w - n, ext(w, a, w - n - 1, 0)), (n, 0)]
    return None


def _or_parts(w, a, b):
    """a | b as a concatenation when their set bits cannot meet"""
    pa, pb = _pieces(w, a), _pieces(w, b)
    if pa is None or pb is None:
        return None
    cuts = set()
    for p in (pa, pb):
        pos = w
        for n, _ in p:
            pos -= n
            cuts.add(pos)
    cuts = sorted(cuts, reverse=True)
    out = []

    def at(p, hi, lo):
        pos = w
        for n, t in p:
            pos -= n
            if lo >= pos:
                return ext(n, t, hi - pos, lo - pos)
    hi = w
    for lo in cuts:
        if lo == hi:
            continue
        x, y = at(pa, hi - 1, lo), at(pb, hi - 1, lo)
        if type(x) is int and x == 0:
            out.append((hi - lo, y))
        elif type(y) is int and y == 0:
            out.append((hi - lo, x))
        elif type(x) is int and x == MASK[hi - lo] or type(y) is int and y == MASK[hi - lo]:
            out.append((hi - lo, MASK[hi - lo]))
        elif type(x) is int and type(y) is int:
            out.append((hi - lo, x | y))
        else:
            return None
        hi = lo
    return concat(out)


def xor(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return a ^ b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        return a ^ bv(w, b)
    if a.eq(b):
        return 0
    return a ^ b


def ext(w, t, hi, lo):
    """bits hi..lo of t (width w)"""
    if type(t) is int:
        return (t >> lo) & MASK[hi - lo + 1]
    if lo == 0 and hi == w - 1:
        return t
    k = kind(t)
    if k == _ZEXT:
        a = t.arg(0)
        n = a.size()
        if hi < n:
            return ext(n, a, hi, lo)
        if lo >= n:
            return 0
    elif k == _SEXT:
        a = t.arg(0)
        n = a.size()
        if hi < n:
            return ext(n, a, hi, lo)
        if lo == 0:
            return sext(n, hi + 1, a)
    elif k == _CONCAT:
        pos = w
        for i in range(t.num_args()):
            a = t.arg(i)
            n = a.size()
            pos -= n
            if lo >= pos and hi < pos + n:
                return ext(n, norm(a), hi - pos, lo - pos)
        pos, parts = w, []
        for i in range(t.num_args()):
            a = t.arg(i)
            n = a.size()
            pos -= n
            h, l = min(hi, pos + n - 1), max(lo, pos)
            if h >= l:
                parts.append((h - l + 1, ext(n, norm(a), h - pos, l - pos)))
        return concat(parts)
    elif (k == _LSHR or k == _ASHR) and z3.is_bv_value(t.arg(1)) and hi + t.arg(1).as_long() < w:
        n = t.arg(1).as_long()
        return ext(w, t.arg(0), hi + n, lo + n)
    elif k == _SHL and z3.is_bv_value(t.arg(1)) and (lo >= t.arg(1).as_long() or hi < t.arg(1).as_long()):
        n = t.arg(1).as_long()
        return ext(w, t.arg(0), hi - n, lo - n) if lo >= n else 0
    elif k == _EXTRACT:
        l0 = t.params()[1]
        a = t.arg(0)
        return ext(a.size(), a, hi + l0, lo + l0)
    elif k == _BNUM:
        return (t.as_long() >> lo) & MASK[hi - lo + 1]
    elif k in _BITOP and t.num_args() == 2 and (z3.is_bv_value(t.arg(0)) or z3.is_bv_value(t.arg(1))):
        return _BITOP[k](hi - lo + 1, ext(w, norm(t.arg(0)), hi, lo), ext(w, norm(t.arg(1)), hi, lo))
    return z3.Extract(hi, lo, t)


_BITOP = {z3.Z3_OP_BOR: or_, z3.Z3_OP_BAND: and_, z3.Z3_OP_BXOR: xor}


def zext(w, w2, t):
    if type(t) is int or w == w2:
        return t
    if kind(t) == _ZEXT:
        a = t.arg(0)
        return z3.ZeroExt(w2 - a.size(), a)
    return z3.ZeroExt(w2 - w, t)


def sext(w, w2, t):
    if w == w2:
        return t
    if type(t) is int:
        return s2(w, t) & MASK[w2]
    k = kind(t)
    if k == _ZEXT:
        return z3.ZeroExt(w2 - t.arg(0).size(), t.arg(0))
    if k == _SEXT:
        return z3.SignExt(w2 - t.arg(0).size(), t.arg(0))
    return z3.SignExt(w2 - w, t)


def concat(parts):
    """parts: list of (width, value) from most significant to least"""
    # merge adjacent
    out = []
    for w, v in parts:
        if w == 0:
            continue
        if out:
            pw, pv = out[-1]
            if type(v) is int and type(pv) is int:
                out[-1] = (pw + w, (pv << w) | v)
                continue
            if type(v) is not int and type(pv) is not int:
                # adjacent extracts of the same term
                kv, kp = kind(v), kind(pv)
                if kp == _EXTRACT:
                    ph, pl = pv.params()[0], pv.params()[1]
                    base = pv.arg(0)
                    if kv == _EXTRACT and v.arg(0).eq(base) and v.params()[0] == pl - 1:
                        lo = v.params()[1]
                        out[-1] = (pw + w, ext(base.size(), base, ph, lo))
                        continue
        out.append((w, v))
    if len(out) == 1:
        return out[0][1]
    if type(out[0][1]) is int and out[0][1] == 0 and len(out) == 2:
        return z3.ZeroExt(out[0][0], out[1][1]) if kind(out[1][1]) != _ZEXT else \
            z3.ZeroExt(out[0][0] + out[1][0] - out[1][1].arg(0).size(), out[1][1].arg(0))
    return z3.Concat(*[bv(w, v) for w, v in out])


def shl(w, a, n):
    if type(n) is int:
        if n >= w:
            return 0
        if type(a) is int:
            return (a << n) & MASK[w]
        if n == 0:
            return a
    return bv(w, a) << bv(w, n)


def lshr(w, a, n):
    if type(n) is int:
        if n >= w:
            return 0
        if type(a) is int:
            return a >> n
        if n == 0:
            return a
    return z3.LShR(bv(w, a), bv(w, n))


def ashr(w, a, n):
    if type(n) is int:
        if n >= w:
            n = w - 1
        if type(a) is int:
            return (s2(w, a) >> n) & MASK[w]
        if n == 0:
            return a
    return bv(w, a) >> bv(w, n)


def rotl(w, a, n):
    """n of width w, any value; rotation modulo w"""
    if type(n) is int:
        n %= w
        if type(a) is int:
            return ((a << n) | (a >> (w - n))) & MASK[w] if n else a
        return z3.RotateLeft(a, bv(w, n)) if n else a
    return z3.RotateLeft(bv(w, a), n)


def rotr(w, a, n):
    if type(n) is int:
        return rotl(w, a, (-n) % w)
    return z3.RotateRight(bv(w, a), n)


def udiv(w, a, b):
    if type(a) is int and type(b) is int:
        return a // b if b else MASK[w]
    return z3.UDiv(bv(w, a), bv(w, b))


def urem(w, a, b):
    if type(a) is int and type(b) is int:
        return a % b if b else a
    return z3.URem(bv(w, a), bv(w, b))


def sdiv(w, a, b):
    if type(a) is int and type(b) is int and b:
        x, y = s2(w, a), s2(w, b)
        q = abs(x) // abs(y)
        return (-q if (x < 0) != (y < 0) else q) & MASK[w]
    return bv(w, a) / bv(w, b)


def srem(w, a, b):
    if type(a) is int and type(b) is int and b:
        x, y = s2(w, a), s2(w, b)
        q = abs(x) % abs(y)
        return (-q if x < 0 else q) & MASK[w]
    return z3.SRem(bv(w, a), bv(w, b))


# ---- booleans
def eq(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return a == b
        a, b = b, a
    if type(b) is int:
        k = kind(a)
        if k == _ZEXT:
            x = a.arg(0)
            if b >> x.size():
                return False
            return eq(x.size(), x, b)
        if k == _ITE:
            x, y = a.arg(1), a.arg(2)
            if z3.is_bv_value(x) and z3.is_bv_value(y):
                xe, ye = x.as_long() == b, y.as_long() == b
                if xe and ye:
                    return True
                if not xe and not ye:
                    return False
                return a.arg(0) if xe else b_not(a.arg(0))
        return a == bv(w, b)
    if a.eq(b):
        return True
    return a == b


def ult(w, a, b):
    if type(a) is int and type(b) is int:
        return a < b
    if type(b) is int and b == 0:
        return False
    return z3.ULT(bv(w, a), bv(w, b))


def ule(w, a, b):
    return b_not(ult(w, b, a))


def slt(w, a, b):
    if type(a) is int and type(b) is int:
        return s2(w, a) < s2(w, b)
    return bv(w, a) < bv(w, b)


def sle(w, a, b):
    return b_not(slt(w, b, a))


def b_not(a):
    if a is True or a is False:
        return not a
    if kind(a) == z3.Z3_OP_NOT:
        return a.arg(0)
    return z3.Not(a)


def b_and(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is not True:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is not False:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def b_xor(a, b):
    if type(a) is bool:
        return b_not(b) if a else b
    if type(b) is bool:
        return b_not(a) if b else a
    return z3.Xor(a, b)


def ite(c, w, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if type(a) is int and type(b) is int:
        if a == b:
            return a
    elif type(a) is not int and type(b) is not int and a.eq(b):
        return a
    return z3.If(c, bv(w, a), bv(w, b))


def b_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if type(a) is bool and type(b) is bool:
        if a == b:
            return a
        return c if a else b_not(c)
    return b_or(b_and(c, a), b_and(b_not(c), b))


def b2v(w, c):
    if c is True:
        return 1
    if c is False:
        return 0
    return z3.If(c, bv(w, 1), bv(w, 0))


def toz3b(c):
    return z3.BoolVal(c) if type(c) is bool else c


# ---- counting
def clz(w, a):
    if type(a) is int:
        return w - a.bit_length()
    r = bv(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, a) == 1, bv(w, w - 1 - i), r)
    return r


def ctz(w, a):
    if type(a) is int:
        return (a & -a).bit_length() - 1 if a else w
    r = bv(w, w)
    for i in range(w - 1, -1, -1):
        r = z3.If(z3.Extract(i, i, a) == 1, bv(w, i), r)
    return r


def popcnt(w, a):
    if type(a) is int:
        return bin(a).count('1')
    # balanced tree of additions, widening one bit per level
    xs = [z3.Extract(i, i, a) for i in range(w)]
    k = 1
    while len(xs) > 1:
        xs = [z3.ZeroExt(1, xs[i]) + z3.ZeroExt(1, xs[i + 1]) for i in range(0, len(xs), 2)]
        k += 1
    return z3.ZeroExt(w - k, xs[0])


# ---- floating point on IEEE bit patterns.  Classification and comparison are exact bit-vector formulas;
# arithmetic and conversions are uninterpreted first (see `real`), and interpreted in the FP theory on demand.
EXPB = {32: 8, 64: 11}
FRAC = {32: 23, 64: 52}
SORT = {32: z3.FPSort(8, 24), 64: z3.FPSort(11, 53)}
QNAN = {32: 0x7fc00000, 64: 0x7ff8000000000000}
INF = {32: 0x7f800000, 64: 0x7ff0000000000000}
RNE = z3.RNE()
RMS = {'rne': z3.RNE(), 'rtz': z3.RTZ(), 'rtp': z3.RTP(), 'rtn': z3.RTN()}


def f_mag(w, a):
    return and_(w, a, MASK[w - 1])


def f_sign(w, a):
    return eq(1, ext(w, a, w - 1, w - 1), 1)


def f_isnan(w, a):
    return ult(w, INF[w], f_mag(w, a))


def f_iszero(w, a):
    return eq(w, f_mag(w, a), 0)


def f_unord(w, a, b):
    return b_or(f_isnan(w, a), f_isnan(w, b))


def f_eq(w, a, b):
    """ordered equal"""
    return b_and(b_not(f_unord(w, a, b)), b_or(eq(w, a, b), b_and(f_iszero(w, a), f_iszero(w, b))))


def f_lt(w, a, b):
    """ordered less"""
    sa, sb = f_sign(w, a), f_sign(w, b)
    ma, mb = f_mag(w, a), f_mag(w, b)
    both0 = b_and(f_iszero(w, a), f_iszero(w, b))
    lt = b_ite(sa, b_ite(sb, ult(w, mb, ma), b_not(both0)), b_ite(sb, False, ult(w, ma, mb)))
    return b_and(b_not(f_unord(w, a, b)), lt)


_uf = {}


def _ufn(name, *ws):
    k = name
    f = _uf.get(k)
    if f is None:
        f = _uf[k] = z3.Function(name, *[z3.BitVecSort(w) for w in ws])
    return f


def _tofp(w, a):
    return z3.fpBVToFP(bv(w, a), SORT[w])


def _frombits(w, f):
    return z3.If(z3.fpIsNaN(f), bv(w, QNAN[w]), z3.fpToIEEEBV(f))


def _real_bin(op, w, a, b):
    f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
    return _frombits(w, f(RNE, _tofp(w, a), _tofp(w, b)))


def _real_sqrt(w, a):
    return _frombits(w, z3.fpSqrt(RNE, _tofp(w, a)))


def _real_round(mode, w, a):
    return _frombits(w, z3.fpRoundToIntegral(RMS[mode], _tofp(w, a)))


def _real_f2i(signed, mode, wf, wi, a):
    f = z3.fpToSBV if signed else z3.fpToUBV
    return f(RMS[mode], _tofp(wf, a), z3.BitVecSort(wi))


def _real_i2f(signed, wi, wf, a):
    f = z3.fpSignedToFP if signed else z3.fpUnsignedToFP
    return z3.fpToIEEEBV(f(RNE, bv(wi, a), SORT[wf]))


def _real_f2f(w1, w2, a):
    return _frombits(w2, z3.fpFPToFP(RNE, _tofp(w1, a), SORT[w2]))


_real_defs = {}


def _nan_rule(w, a, b):
    """x86 SSE: NaN operand selection, first source wins, quieted"""
    q = 1 << (FRAC[w] - 1)
    if (a & MASK[w - 1]) > INF[w]:
        return a | q
    if (b & MASK[w - 1]) > INF[w]:
        return b | q
    return None


def fbin(op, w, a, b):
    if type(a) is int and type(b) is int:
        n = _nan_rule(w, a, b)
        if n is not None:
            return n
        r = z3.simplify(_real_bin(op, w, a, b)).as_long()
        return (r | 1 << (w - 1)) if r == QNAN[w] else r     # x86 default NaN is negative
    name = '%s%d' % (op, w)
    f = _ufn(name, w, w, w)
    if name not in _real_defs:
        _real_defs[name] = (f, 2, lambda x, y, op=op, w=w: _real_bin(op, w, x, y))
    A, B = bv(w, a), bv(w, b)
    if op in ('fadd', 'fmul') and A.get_id() > B.get_id():
        A, B = B, A
    return f(A, B)


def fsqrt(w, a):
    if type(a) is int:
        n = _nan_rule(w, a, a)
        if n is not None:
            return n
        r = z3.simplify(_real_sqrt(w, a)).as_long()
        return (r | 1 << (w - 1)) if r == QNAN[w] else r
    name = 'fsqrt%d' % w
    f = _ufn(name, w, w)
    _real_defs.setdefault(name, (f, 1, lambda x, w=w: _real_sqrt(w, x)))
    return f(a)


def fround(mode, w, a):
    if type(a) is int:
        n = _nan_rule(w, a, a)
        if n is not None:
            return n
        return z3.simplify(_real_round(mode, w, a)).as_long()
    name = 'fround_%s%d' % (mode, w)
    f = _ufn(name, w, w)
    _real_defs.setdefault(name, (f, 1, lambda x, mode=mode, w=w: _real_round(mode, w, x)))
    return f(a)


def f_in_int_range(signed, mode, wf, wi, a):
    """the value of a, rounded by mode to an integer, is representable (exact: bit-level for rtz)"""
    # bounds as floats: |trunc(x)| representable  <=>  lo_open < x < hi_open
    import struct
    from fractions import Fraction

    def enc(v, w):
        return struct.unpack('<I', struct.pack('<f', v))[0] if w == 32 else struct.unpack('<Q', struct.pack('<d', v))[0]
    if signed:
        hi = 2.0 ** (wi - 1)                 # x < hi
        lo = -(2.0 ** (wi - 1))              # x > lo - 1
        if wi < FRAC[wf] + 1:                # lo - 1 representable exactly
            c_lo = f_lt(wf, enc(lo - 1.0, wf), a)
        else:
            c_lo = b_not(f_lt(wf, a, enc(lo, wf)))
    else:
        hi = 2.0 ** wi
        c_lo = f_lt(wf, enc(-1.0, wf), a)
    return b_and(b_not(f_isnan(wf, a)), c_lo, f_lt(wf, a, enc(hi, wf)))


def f2i_raw(signed, mode, wf, wi, a):
    """conversion for an in-range value"""
    if type(a) is int:
        return z3.simplify(_real_f2i(signed, mode, wf, wi, a)).as_long()
    name = 'f2i_%s%s%d_%d' % ('s' if signed else 'u', mode, wf, wi)
    f = _ufn(name, wf, wi)
    _real_defs.setdefault(name, (f, 1, lambda x: _real_f2i(signed, mode, wf, wi, x)))
    return f(a)


def cvt_f2si(mode, wf, wi, a):
    """x86 cvt(t)s[sd]2si"""
    if mode == 'rne':
        a = fround('rne', wf, a)
        mode = 'rtz'
    return ite(f_in_int_range(True, 'rtz', wf, wi, a), wi, f2i_raw(True, 'rtz', wf, wi, a)
               if type(a) is not int or simp(f_in_int_range(True, 'rtz', wf, wi, a)) is True else 0, 1 << (wi - 1))


def i2f(signed, wi, wf, a):
    if type(a) is int:
        return z3.simplify(_real_i2f(signed, wi, wf, a)).as_long()
    name = 'i2f_%s%d_%d' % ('s' if signed else 'u', wi, wf)
    f = _ufn(name, wi, wf)
    _real_defs.setdefault(name, (f, 1, lambda x: _real_i2f(signed, wi, wf, x)))
    return f(a)


def f2f(w1, w2, a):
    if type(a) is int:
        if (a & MASK[w1 - 1]) > INF[w1]:
            s = a >> (w1 - 1)
            fr = a & MASK[FRAC[w1]]
            d = FRAC[w2] - FRAC[w1]
            fr = fr << d if d >= 0 else fr >> -d
            return s << (w2 - 1) | INF[w2] | fr | 1 << (FRAC[w2] - 1)
        return z3.simplify(_real_f2f(w1, w2, a)).as_long()
    name = 'f2f_%d_%d' % (w1, w2)
    f = _ufn(name, w1, w2)
    _real_defs.setdefault(name, (f, 1, lambda x: _real_f2f(w1, w2, x)))
    return f(a)


def has_uf(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                return True
            st.extend(x.children())
    return False


def real(t):
    """t with the floating-point functions interpreted in the FP theory"""
    if type(t) in (int, bool):
        return t
    subs = []
    for name, (f, n, d) in _real_defs.items():
        if n == 1:
            body = d(z3.Var(0, f.domain(0)))
        else:
            body = d(z3.Var(0, f.domain(0)), z3.Var(1, f.domain(1)))
        subs.append((f, body))
    return z3.substitute_funs(t, *subs) if subs else t
