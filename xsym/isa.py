"""Semantics of x86-64 instructions on hybrid values; `build` turns one decoded instruction into a closure."""
import z3
import term as T
import exe as X
from xdis import parse

M64 = (1 << 64) - 1
M32 = (1 << 32) - 1
MASK = T.MASK


class Unsupported(Exception):
    pass


def addr_of(ex, op, nextip):
    size, base, idx, scale, disp, seg = op[1:7]
    a32 = op[7] if len(op) > 7 else False
    if type(disp) is not int:
        f = addr_of(ex, op[:5] + (0,) + op[6:], nextip)
        return lambda st: T.add(64, f(st), disp)
    if seg == 'fs':
        disp += ex.snap.fsbase
    elif seg == 'gs':
        raise Unsupported('gs')
    if base == ('rip',):
        a = (nextip + disp) & M64
        if idx is None:
            return lambda st: a
        raise Unsupported('rip+index')
    disp &= M64
    sh = {1: 0, 2: 1, 4: 2, 8: 3}[scale]
    if a32:
        def f32(st):
            v = disp & M32
            if base is not None:
                v = T.add(32, T.ext(64, st.r[base[0]], 31, 0), v)
            if idx is not None:
                v = T.add(32, T.shl(32, T.ext(64, st.r[idx[0]], 31, 0), sh), v)
            return T.zext(32, 64, v)
        return f32
    if base is None and idx is None:
        return lambda st: disp
    if idx is None:
        b = base[0]

        def fb(st):
            v = st.r[b]
            if type(v) is int:
                return (v + disp) & M64
            return T.add(64, v, disp)
        return fb
    i = idx[0]
    if base is None:
        return lambda st: T.add(64, T.shl(64, st.r[i], sh), disp)
    b = base[0]

    def fbi(st):
        v, w = st.r[b], st.r[i]
        if type(v) is int and type(w) is int:
            return (v + (w << sh) + disp) & M64
        return T.add(64, T.add(64, v, T.shl(64, w, sh)), disp)
    return fbi


def getter(ex, op, w, nextip):
    k = op[0]
    if k == 'i':
        v = op[1] & MASK[w]
        return lambda st: v
    if k == 'I':                # immediate with symbolic bytes
        t = T.sext(op[2], w, op[1]) if op[2] < w else T.ext(op[2], op[1], w - 1, 0)
        return lambda st: t
    if k == 'r':
        i, rw, sh = op[1:4]
        if rw == 64:
            return lambda st: st.r[i]
        if sh == 0:
            m = MASK[rw]

            def g(st):
                v = st.r[i]
                if type(v) is int:
                    return v & m
                return T.ext(64, v, rw - 1, 0)
            return g
        return lambda st: T.ext(64, st.r[i], 15, 8)
    if k == 'm':
        a = addr_of(ex, op, nextip)
        n = w // 8
        load = ex.load
        return lambda st: load(st, a(st), n)
    raise Unsupported('operand')


def setter(ex, op, w, nextip):
    k = op[0]
    if k == 'r':
        i, rw, sh = op[1:4]
        if rw == 64:
            def s64(st, v):
                st.r[i] = v
            return s64
        if rw == 32:
            def s32(st, v):
                st.r[i] = v if type(v) is int else T.zext(32, 64, v)
            return s32

        def sp(st, v):
            o = st.r[i]
            parts = []
            if sh + rw < 64:
                parts.append((64 - sh - rw, T.ext(64, o, 63, sh + rw)))
            parts.append((rw, v))
            if sh:
                parts.append((sh, T.ext(64, o, sh - 1, 0)))
            st.r[i] = T.concat(parts)
        return sp
    if k == 'm':
        a = addr_of(ex, op, nextip)
        n = w // 8
        store = ex.store
        return lambda st, v: store(st, a(st), n, v)
    raise Unsupported('operand')


def rmw(ex, op, w, nextip):
    """(getter, setter) evaluating the address once"""
    if op[0] == 'r':
        return getter(ex, op, w, nextip), setter(ex, op, w, nextip)
    return getter(ex, op, w, nextip), setter(ex, op, w, nextip)


def width(ops):
    for o in ops:
        if o[0] == 'r':
            return o[2]
    for o in ops:
        if o[0] == 'm':
            return o[1]
    raise Unsupported('width')


def opw(o):
    return o[2] if o[0] == 'r' else o[1]


def xget(ex, op, w, nextip):
    """SSE source of w bits (32, 64) or 128 as (lo, hi)"""
    if op[0] == 'x':
        i = op[1]
        if w == 128:
            return lambda st: st.x[i]
        if w == 64:
            return lambda st: st.x[i][0]
        return lambda st: T.ext(64, st.x[i][0], w - 1, 0)
    if op[0] == 'm':
        a = addr_of(ex, op, nextip)
        if w == 128:
            def g(st):
                p = a(st)
                return (ex.load(st, p, 8), ex.load(st, T.add(64, p, 8), 8))
            return g
        return lambda st: ex.load(st, a(st), w // 8)
    raise Unsupported('sse operand')


def xset_low(st, i, w, v):
    lo, hi = st.x[i]
    if w == 64:
        st.x[i] = (v, hi)
    else:
        st.x[i] = (T.concat([(32, T.ext(64, lo, 63, 32)), (32, v)]), hi)


def build(ex, rip, n, text, parsed=None):
    try:
        mn, pre, ops = parsed or parse(text)
        f = _build(ex, rip, n, mn, pre, ops)
    except (Unsupported, ValueError, KeyError) as e:
        msg = '%s at 0x%x (%s)' % (text, rip, e)

        def f(st):
            raise X.Abort('unsupported instruction ' + msg)
    f.len = n
    f.text = text
    return f


ARITH = {'add', 'sub', 'and', 'or', 'xor', 'cmp', 'test', 'adc', 'sbb'}


def _build(ex, rip, n, mn, pre, ops):
    nx = rip + n
    if mn in ('nop', 'endbr64', 'pause', 'prefetcht0', 'prefetcht1', 'prefetcht2', 'prefetchnta', 'mfence', 'lfence',
              'sfence', 'prefetchw', 'prefetch', 'xacquire', 'xrelease'):
        def nop(st):
            pass
        return nop
    if mn in ('mov', 'movabs'):
        w = width(ops)
        d, s = ops
        if d[0] == 'r' and d[2] == 64 and s[0] == 'r':
            di, si = d[1], s[1]

            def mvrr(st):
                st.r[di] = st.r[si]
            return mvrr
        if d[0] == 'r' and d[2] == 64 and s[0] == 'm':
            a = addr_of(ex, s, nx)
            di = d[1]
            load = ex.load

            def mvrm(st):
                st.r[di] = load(st, a(st), 8)
            return mvrm
        g, p = getter(ex, s, w, nx), setter(ex, d, w, nx)

        def mov(st):
            p(st, g(st))
        return mov
    if mn in ('movzx', 'movsx', 'movsxd'):
        w1, w2 = opw(ops[1]), opw(ops[0])
        g, p = getter(ex, ops[1], w1, nx), setter(ex, ops[0], w2, nx)
        if mn == 'movzx':
            return lambda st: p(st, T.zext(w1, w2, g(st)))
        return lambda st: p(st, T.sext(w1, w2, g(st)))
    if mn == 'lea':
        w = ops[0][2]
        a, p = addr_of(ex, ops[1], nx), setter(ex, ops[0], w, nx)
        if w == 64:
            return lambda st: p(st, a(st))
        return lambda st: p(st, T.ext(64, a(st), w - 1, 0))
    if mn in ARITH:
        w = width(ops)
        g0, p0 = rmw(ex, ops[0], w, nx)
        g1 = getter(ex, ops[1], w, nx)
        m = MASK[w]
        if mn == 'cmp':
            def cmp(st):
                a, b = g0(st), g1(st)
                st.fl = ('sub', w, a, b, (a - b) & m if type(a) is int and type(b) is int else T.sub(w, a, b))
            return cmp
        if mn == 'test':
            if ops[0] == ops[1] and ops[0][0] == 'r':
                def testself(st):
                    st.fl = ('log', w, g0(st))
                return testself

            def test(st):
                st.fl = ('log', w, T.and_(w, g0(st), g1(st)))
            return test
        if mn == 'add':
            def fadd(st):
                a, b = g0(st), g1(st)
                r = (a + b) & m if type(a) is int and type(b) is int else T.add(w, a, b)
                p0(st, r)
                st.fl = ('add', w, a, b, r)
            return fadd
        if mn == 'sub':
            def fsub(st):
                a, b = g0(st), g1(st)
                r = (a - b) & m if type(a) is int and type(b) is int else T.sub(w, a, b)
                p0(st, r)
                st.fl = ('sub', w, a, b, r)
            return fsub
        if mn == 'xor' and ops[0] == ops[1]:
            def zero(st):
                p0(st, 0)
                st.fl = ('log', w, 0)
            return zero
        if mn in ('and', 'or', 'xor'):
            op = {'and': T.and_, 'or': T.or_, 'xor': T.xor}[mn]

            def logic(st):
                r = op(w, g0(st), g1(st))
                p0(st, r)
                st.fl = ('log', w, r)
            return logic
        if mn == 'adc':
            def adc(st):
                a, b = g0(st), g1(st)
                c = X.CF(st.fl)
                r = T.add(w, T.add(w, a, b), T.b2v(w, c))
                p0(st, r)
                st.fl = ('adc', w, a, b, c, r)
            return adc
        if mn == 'sbb':
            def sbb(st):
                a, b = g0(st), g1(st)
                c = X.CF(st.fl)
                r = T.sub(w, T.sub(w, a, b), T.b2v(w, c))
                p0(st, r)
                st.fl = ('sbb', w, a, b, c, r)
            return sbb
    if mn in ('inc', 'dec'):
        w = width(ops)
        g, p = rmw(ex, ops[0], w, nx)
        d = 1 if mn == 'inc' else MASK[w]

        def incdec(st):
            r = T.add(w, g(st), d)
            p(st, r)
            st.fl = (mn, w, r, st.fl)
        return incdec
    if mn == 'not':
        w = width(ops)
        g, p = rmw(ex, ops[0], w, nx)
        return lambda st: p(st, T.not_(w, g(st)))
    if mn == 'neg':
        w = width(ops)
        g, p = rmw(ex, ops[0], w, nx)

        def neg(st):
            a = g(st)
            r = T.neg(w, a)
            p(st, r)
            st.fl = ('sub', w, 0, a, r)
        return neg
    if mn in ('shl', 'sal', 'shr', 'sar', 'rol', 'ror'):
        w = width(ops[:1])
        g, p = rmw(ex, ops[0], w, nx)
        gc = getter(ex, ops[1], 8, nx) if len(ops) > 1 else (lambda st: 1)
        cm = 63 if w == 64 else 31

        def shift(st):
            c = gc(st)
            c = c & cm if type(c) is int else T.and_(8, c, cm)
            a = g(st)
            if type(c) is int:
                if c == 0:
                    if w == 32 and ops[0][0] == 'r':
                        p(st, a)
                    return
                if mn in ('shl', 'sal'):
                    r = T.shl(w, a, c)
                    cf = T.eq(1, T.ext(w, a, w - c, w - c), 1) if c <= w else None
                    of = T.b_xor(T.slt(w, r, 0), cf) if c == 1 else None
                elif mn == 'shr':
                    r = T.lshr(w, a, c)
                    cf = T.eq(1, T.ext(w, a, c - 1, c - 1), 1) if c <= w else None
                    of = T.slt(w, a, 0) if c == 1 else None
                elif mn == 'sar':
                    r = T.ashr(w, a, c)
                    cf = T.eq(1, T.ext(w, a, min(c, w) - 1, min(c, w) - 1), 1)
                    of = False if c == 1 else None
                else:
                    r = T.rotl(w, a, c) if mn == 'rol' else T.rotr(w, a, c)
                    p(st, r)
                    cf = T.eq(1, T.ext(w, r, 0, 0), 1) if mn == 'rol' else T.eq(1, T.ext(w, r, w - 1, w - 1), 1)
                    o = st.fl
                    st.fl = ('ex', cf, X.ZF(o) if o[0] != 'ex' else o[2], X.SF(o) if o[0] != 'ex' else o[3], None,
                             X.PF(o) if o[0] != 'ex' and o[0] != 'ite' else None)
                    return
                p(st, r)
                st.fl = ('sh', w, r, cf, of)
                return
            cw = T.zext(8, w, c) if w >= 8 else c
            if mn in ('shl', 'sal'):
                r = T.shl(w, a, cw)
            elif mn == 'shr':
                r = T.lshr(w, a, cw)
            elif mn == 'sar':
                r = T.ashr(w, a, cw)
            elif mn == 'rol':
                r = T.rotl(w, a, cw)
            else:
                r = T.rotr(w, a, cw)
            p(st, r)
            z = T.eq(8, c, 0)
            if mn in ('rol', 'ror'):
                st.fl = ('ite', z, st.fl, ('ex', None, X.ZF(st.fl), X.SF(st.fl), None, None))
            else:
                st.fl = ('ite', z, st.fl, ('sh', w, r, None, None))
        return shift
    if mn in ('shld', 'shrd'):
        w = width(ops[:1])
        g, p = rmw(ex, ops[0], w, nx)
        g1 = getter(ex, ops[1], w, nx)
        gc = getter(ex, ops[2], 8, nx)
        cm = 63 if w == 64 else 31

        def shd(st):
            c = gc(st)
            c = c & cm if type(c) is int else T.and_(8, c, cm)
            a, b = g(st), g1(st)
            if type(c) is int and c == 0:
                return
            if mn == 'shld':
                full = T.concat([(w, a), (w, b)])
                cw = T.zext(8, 2 * w, c)
                r = T.ext(2 * w, T.shl(2 * w, full, cw), 2 * w - 1, w)
            else:
                full = T.concat([(w, b), (w, a)])
                cw = T.zext(8, 2 * w, c)
                r = T.ext(2 * w, T.lshr(2 * w, full, cw), w - 1, 0)
            p(st, r)
            nf = ('sh', w, r, None, None)
            st.fl = nf if type(c) is int else ('ite', T.eq(8, c, 0), st.fl, nf)
        return shd
    if mn in ('shlx', 'shrx', 'sarx'):
        w = width(ops[:1])
        p = setter(ex, ops[0], w, nx)
        g, gc = getter(ex, ops[1], w, nx), getter(ex, ops[2], w, nx)
        op = {'shlx': T.shl, 'shrx': T.lshr, 'sarx': T.ashr}[mn]
        return lambda st: p(st, op(w, g(st), T.and_(w, gc(st), w - 1)))
    if mn == 'rorx':
        w = width(ops[:1])
        p, g = setter(ex, ops[0], w, nx), getter(ex, ops[1], w, nx)
        c = ops[2][1] & (w - 1)
        return lambda st: p(st, T.rotr(w, g(st), c))
    if mn == 'andn':
        w = width(ops[:1])
        p, g1, g2 = setter(ex, ops[0], w, nx), getter(ex, ops[1], w, nx), getter(ex, ops[2], w, nx)

        def andn(st):
            r = T.and_(w, T.not_(w, g1(st)), g2(st))
            p(st, r)
            st.fl = ('log', w, r)
        return andn
    if mn == 'imul' and len(ops) >= 2:
        w = ops[0][2]
        p = setter(ex, ops[0], w, nx)
        g1 = getter(ex, ops[-2], w, nx) if len(ops) == 2 else getter(ex, ops[1], w, nx)
        g2 = getter(ex, ops[-1], w, nx)

        def imul(st):
            a, b = g1(st), g2(st)
            r = T.mul(w, a, b)
            p(st, r)

            st.fl = ('imul', w, a, b, r)
        return imul
    if mn in ('mul', 'imul') and len(ops) == 1:
        w = width(ops)
        g = getter(ex, ops[0], w, nx)
        e = T.zext if mn == 'mul' else T.sext

        def mul1(st):
            a, b = T.ext(64, st.r[0], w - 1, 0), g(st)
            full = T.mul(2 * w, e(w, 2 * w, a), e(w, 2 * w, b))
            lo = T.ext(2 * w, full, w - 1, 0)
            if type(lo) is not int:
                lo = T.mul(w, a, b)
            hi = T.ext(2 * w, full, 2 * w - 1, w)
            if w == 64:
                st.r[0], st.r[2] = lo, hi
            elif w == 32:
                st.r[0], st.r[2] = T.zext(32, 64, lo), T.zext(32, 64, hi)
            else:
                raise X.Abort('mul width')
            if mn == 'mul':
                c = T.b_not(T.eq(w, hi, 0))
            else:
                c = T.b_not(T.eq(w, hi, T.ashr(w, lo, w - 1)))
            st.fl = ('ex', c, None, None, c, None)
        return mul1
    if mn == 'mulx':
        w = width(ops[:1])
        p0, p1 = setter(ex, ops[0], w, nx), setter(ex, ops[1], w, nx)
        g = getter(ex, ops[2], w, nx)

        def mulx(st):
            a, b = T.ext(64, st.r[2], w - 1, 0), g(st)
            full = T.mul(2 * w, T.zext(w, 2 * w, a), T.zext(w, 2 * w, b))
            p1(st, T.ext(2 * w, full, w - 1, 0))
            p0(st, T.ext(2 * w, full, 2 * w - 1, w))
        return mulx
    if mn in ('div', 'idiv'):
        w = width(ops)
        g = getter(ex, ops[0], w, nx)

        def div(st):
            if w not in (32, 64):
                if w == 8 and mn == 'div':
                    a, b = T.ext(64, st.r[0], 15, 0), T.zext(8, 16, g(st))
                    _trap(ex, st, T.eq(16, b, 0), 'division by zero')
                    q, r = T.udiv(16, a, b), T.urem(16, a, b)
                    _trap(ex, st, T.ult(16, 255, q), 'divide overflow')
                    st.r[0] = T.concat([(48, T.ext(64, st.r[0], 63, 16)), (8, T.ext(16, r, 7, 0)),
                                        (8, T.ext(16, q, 7, 0))])
                    st.fl = ('ex', None, None, None, None, None)
                    return
                raise X.Abort('div width')
            b = g(st)
            lo, hi = T.ext(64, st.r[0], w - 1, 0), T.ext(64, st.r[2], w - 1, 0)
            _trap(ex, st, T.eq(w, b, 0), 'division by zero')
            if mn == 'div':
                h = T.simp(hi)
                if type(h) is int and h == 0:
                    q, r = T.udiv(w, lo, b), T.urem(w, lo, b)
                else:
                    a = T.concat([(w, hi), (w, lo)])
                    bb = T.zext(w, 2 * w, b)
                    q, r = T.udiv(2 * w, a, bb), T.urem(2 * w, a, bb)
                    _trap(ex, st, T.ult(2 * w, MASK[w], q), 'divide overflow')
                    q, r = T.ext(2 * w, q, w - 1, 0), T.ext(2 * w, r, w - 1, 0)
            else:
                e = T.simp(T.eq(w, hi, T.ashr(w, lo, w - 1)))
                if e is not True:
                    if ex.solver.check(st.pc, T.b_not(e)) != 'unsat':
                        raise X.Abort('wide idiv')
                _trap(ex, st, T.b_and(T.eq(w, lo, 1 << (w - 1)), T.eq(w, b, MASK[w])), 'divide overflow')
                q, r = T.sdiv(w, lo, b), T.srem(w, lo, b)
            if w == 64:
                st.r[0], st.r[2] = q, r
            else:
                st.r[0], st.r[2] = T.zext(32, 64, q), T.zext(32, 64, r)
            st.fl = ('ex', None, None, None, None, None)
        return div
    if mn in ('bsf', 'bsr'):
        w = width(ops[:1])
        g, p, g0 = getter(ex, ops[1], w, nx), setter(ex, ops[0], w, nx), getter(ex, ops[0], w, nx)

        def bs(st):
            a = g(st)
            z = T.eq(w, a, 0)
            v = T.ctz(w, a) if mn == 'bsf' else T.sub(w, w - 1, T.clz(w, a))
            if type(z) is bool:
                if not z:
                    p(st, v)
            else:
                p(st, T.ite(z, w, g0(st), v))
            st.fl = ('ex', None, z, None, None, None)
        return bs
    if mn in ('lzcnt', 'tzcnt', 'popcnt'):
        w = width(ops[:1])
        g, p = getter(ex, ops[1], w, nx), setter(ex, ops[0], w, nx)
        op = {'lzcnt': T.clz, 'tzcnt': T.ctz, 'popcnt': T.popcnt}[mn]

        def cnt(st):
            a = g(st)
            r = op(w, a)
            p(st, r)
            z = T.eq(w, a, 0)
            if mn == 'popcnt':
                st.fl = ('ex', False, z, False, False, False)
            else:
                st.fl = ('ex', z, T.eq(w, r, 0), None, None, None)
        return cnt
    if mn in ('bt', 'bts', 'btr', 'btc'):
        w = width(ops[:1])
        if ops[0][0] == 'm' and ops[1][0] == 'r':
            raise Unsupported('bt mem,reg')
        g, p = rmw(ex, ops[0], w, nx)
        gi = getter(ex, ops[1], w, nx)

        def bt(st):
            a = g(st)
            i = T.and_(w, gi(st), w - 1)
            c = T.eq(1, T.ext(w, T.lshr(w, a, i), 0, 0), 1)
            m = T.shl(w, 1, i)
            if mn == 'bts':
                p(st, T.or_(w, a, m))
            elif mn == 'btr':
                p(st, T.and_(w, a, T.not_(w, m)))
            elif mn == 'btc':
                p(st, T.xor(w, a, m))
            o = st.fl
            st.fl = ('ex', c, X.ZF(o) if o[0] != 'ex' else o[2], None, None, None)
        return bt
    if mn == 'bswap':
        w = width(ops)
        g, p = rmw(ex, ops[0], w, nx)

        def bswap(st):
            a = g(st)
            p(st, T.concat([(8, T.ext(w, a, 8 * i + 7, 8 * i)) for i in range(w // 8)]))
        return bswap
    if mn in ('cdq', 'cqo', 'cdqe', 'cwde', 'cbw', 'cwd'):
        def cx(st):
            a = st.r[0]
            if mn == 'cqo':
                st.r[2] = T.ashr(64, a, 63)
            elif mn == 'cdq':
                st.r[2] = T.zext(32, 64, T.ashr(32, T.ext(64, a, 31, 0), 31))
            elif mn == 'cdqe':
                st.r[0] = T.sext(32, 64, T.ext(64, a, 31, 0))
            elif mn == 'cwde':
                st.r[0] = T.zext(32, 64, T.sext(16, 32, T.ext(64, a, 15, 0)))
            else:
                raise X.Abort(mn)
        return cx
    if mn == 'xchg':
        w = width(ops)
        g0, p0 = rmw(ex, ops[0], w, nx)
        g1, p1 = rmw(ex, ops[1], w, nx)

        def xchg(st):
            a, b = g0(st), g1(st)
            if ops[0][0] == 'm':
                p0(st, b)
                p1(st, a)
            else:
                p1(st, a)
                p0(st, b)
        return xchg
    if mn == 'cmpxchg':
        w = width(ops)
        g0, p0 = rmw(ex, ops[0], w, nx)
        g1 = getter(ex, ops[1], w, nx)
        ga, pa = getter(ex, ('r', 0, w, 0), w, nx), setter(ex, ('r', 0, w, 0), w, nx)

        def cmpxchg(st):
            d, a = g0(st), ga(st)
            e = T.eq(w, a, d)
            s = g1(st)
            p0(st, T.ite(e, w, s, d))
            if e is not True:
                old = st.r[0]
                pa(st, d)
                st.r[0] = T.ite(e, 64, old, st.r[0])        # left alone, upper half included, when equal
            st.fl = ('sub', w, a, d, T.sub(w, a, d))
        return cmpxchg
    if mn == 'xadd':
        w = width(ops)
        g0, p0 = rmw(ex, ops[0], w, nx)
        g1, p1 = rmw(ex, ops[1], w, nx)

        def xadd(st):
            d, s = g0(st), g1(st)
            r = T.add(w, d, s)
            p0(st, r)
            p1(st, d)
            st.fl = ('add', w, d, s, r)
        return xadd
    if mn == 'push':
        w = 64
        g = getter(ex, ops[0], w, nx)

        def push(st):
            v = g(st)
            sp = T.sub(64, st.r[4], 8)
            ex.store(st, sp, 8, v)
            st.r[4] = sp
        return push
    if mn == 'pop':
        p = setter(ex, ops[0], 64, nx)

        def pop(st):
            v = ex.load(st, st.r[4], 8)
            st.r[4] = T.add(64, st.r[4], 8)
            p(st, v)
        return pop
    if mn == 'leave':
        def leave(st):
            st.r[4] = st.r[5]
            v = ex.load(st, st.r[4], 8)
            st.r[4] = T.add(64, st.r[4], 8)
            st.r[5] = v
        return leave
    if mn == 'call':
        if ops[0][0] == 'i':
            t = (nx + ops[0][1]) & M64

            def calli(st):
                sp = T.sub(64, st.r[4], 8)
                ex.store(st, sp, 8, nx)
                st.r[4] = sp
                st.rip = t
            return calli
        g = getter(ex, ops[0], 64, nx)

        def callr(st):
            t = ex.target(st, g(st))
            sp = T.sub(64, st.r[4], 8)
            ex.store(st, sp, 8, nx)
            st.r[4] = sp
            st.rip = t
            _exec_ok(ex, st, t)
        return callr
    if mn in ('ret', 'retq'):
        extra = ops[0][1] if ops else 0

        def ret(st):
            v = ex.load(st, st.r[4], 8)
            v = ex.target(st, v)
            st.r[4] = T.add(64, st.r[4], 8 + extra)
            st.rip = v
            _exec_ok(ex, st, v)
        return ret
    if mn == 'jmp':
        if ops[0][0] == 'i':
            t = (nx + ops[0][1]) & M64

            def jmpi(st):
                st.rip = t
            return jmpi
        g = getter(ex, ops[0], 64, nx)

        def jmpr(st):
            t = ex.target(st, g(st))
            st.rip = t
            _exec_ok(ex, st, t)
        return jmpr
    if mn in ('jrcxz', 'loop', 'loope', 'loopne'):
        t = (nx + ops[0][1]) & M64

        def loop(st):
            if mn != 'jrcxz':
                st.r[1] = T.add(64, st.r[1], M64)
            c = T.eq(64, st.r[1], 0)
            if mn != 'jrcxz':
                c = T.b_not(c)
            if mn == 'loope':
                c = T.b_and(c, X.ZF(st.fl))
            elif mn == 'loopne':
                c = T.b_and(c, T.b_not(X.ZF(st.fl)))
            if type(c) is not bool:
                b = ex.branch(st, c)
                if type(b) is not bool:
                    c, v, m = b
                    raise X._Jcc(c, v, m, t, nx)
                c = b
            if c:
                st.rip = t
        return loop
    if mn[0] == 'j' and mn[1:] in X.CCS:
        cc = mn[1:]
        t = (nx + ops[0][1]) & M64

        def jcc(st):
            c = X.cond(cc, st.fl)
            if c is True:
                st.rip = t
                return
            if c is False:
                return
            b = ex.branch(st, c)
            if b is True:
                st.rip = t
            elif b is not False:
                c, v, m = b
                raise X._Jcc(c, v, m, t, nx)
        return jcc
    if mn.startswith('set') and mn[3:] in X.CCS:
        cc = mn[3:]
        p = setter(ex, ops[0], 8, nx)
        return lambda st: p(st, T.b2v(8, X.cond(cc, st.fl)))
    if mn.startswith('cmov') and mn[4:] in X.CCS:
        cc = mn[4:]
        w = ops[0][2]
        g0, p = rmw(ex, ops[0], w, nx)
        g1 = getter(ex, ops[1], w, nx)
        return lambda st: p(st, T.ite(X.cond(cc, st.fl), w, g1(st), g0(st)))
    if mn in ('stosb', 'stosd', 'stosq', 'stosw'):
        sz = {'b': 1, 'w': 2, 'd': 4, 'q': 8}[mn[-1]]

        def stos(st):
            c = ex.concretize(st, st.r[1]) if pre else 1
            if c > 1 << 16:
                raise X.Abort('rep count')
            v = T.ext(64, st.r[0], 8 * sz - 1, 0)
            for _ in range(c):
                ex.store(st, st.r[7], sz, v)
                st.r[7] = T.add(64, st.r[7], sz)
            if pre:
                st.r[1] = 0
        return stos
    if mn in ('movsb', 'movsq', 'movsw') or (mn == 'movsd' and ops and type(ops[0]) is str):
        sz = {'b': 1, 'w': 2, 'd': 4, 'q': 8}[mn[-1]]

        def movs(st):
            c = ex.concretize(st, st.r[1]) if pre else 1
            if c > 1 << 16:
                raise X.Abort('rep count')
            for _ in range(c):
                ex.store(st, st.r[7], sz, ex.load(st, st.r[6], sz))
                st.r[7] = T.add(64, st.r[7], sz)
                st.r[6] = T.add(64, st.r[6], sz)
            if pre:
                st.r[1] = 0
        return movs
    if mn in ('ud2', 'int3', 'hlt'):
        def trap(st):
            raise X.Bug('trap', mn)
        return trap
    if mn == 'cpuid':
        raise Unsupported('cpuid')
    return _build_sse(ex, rip, n, mn, pre, ops)


def _exec_ok(ex, st, t):
    if t == X.RET or t in ex.hooks or t in ex.cache:
        return
    no = t // X.PG
    if no in st.pages:
        return
    b = ex._base(no)
    if b[0] is None:
        raise X.Bug('code', 'jump to unmapped address 0x%x' % t)


def _trap(ex, st, c, msg):
    if c is False:
        return
    if c is True:
        raise X.Bug('trap', msg)
    b = ex.branch(st, c)
    if b is True:
        raise X.Bug('trap', msg)
    if b is False:
        return
    raise X.Bug('trap', msg, b[0])


def _lanes32(v):
    lo, hi = v
    return [T.ext(64, lo, 31, 0), T.ext(64, lo, 63, 32), T.ext(64, hi, 31, 0), T.ext(64, hi, 63, 32)]


def _from32(l):
    return (T.concat([(32, l[1]), (32, l[0])]), T.concat([(32, l[3]), (32, l[2])]))


def _fmin(w, a, b):
    return T.ite(T.f_lt(w, a, b), w, a, b)      # minss: b if unordered or both zero


def _fmax(w, a, b):
    return T.ite(T.f_lt(w, b, a), w, a, b)


FB = {'add': 'fadd', 'sub': 'fsub', 'mul': 'fmul', 'div': 'fdiv'}


def _build_sse(ex, rip, n, mn, pre, ops):
    nx = rip + n
    vex = mn.startswith('v') and mn not in ('verr',)
    if vex:
        if any(o[0] == 'y' for o in ops):
            raise Unsupported('ymm')
        if len(ops) == 3 and mn[1:5] not in ('pins',):
            # three-operand form: dst = op(src1, src2).  Only scalar/logic forms with xmm destination.
            f2 = _build_sse(ex, rip, n, mn[1:], pre, [('x', 99), ops[2]]) if False else None
            base = mn[1:]
            if ops[0][0] == 'x' and ops[1][0] == 'x':
                if ops[2][0] == 'x' and ops[2][1] == ops[0][1] and ops[1][1] != ops[0][1]:
                    inner = _build_sse2(ex, nx, base, [ops[1], ops[2]])
                    d, s = ops[0][1], ops[1][1]

                    def v3a(st):
                        save = st.x[s]
                        inner(st)
                        st.x[d], st.x[s] = st.x[s], save
                    return v3a
                inner = _build_sse2(ex, nx, base, [ops[0], ops[2]])
                d, s = ops[0][1], ops[1][1]

                def v3(st):
                    st.x[d] = st.x[s]
                    inner(st)
                return v3
            raise Unsupported('vex')
        mn = mn[1:]
    return _build_sse2(ex, nx, mn, ops)


def _build_sse2(ex, nx, mn, ops):
    d = ops[0] if ops else None
    s = ops[1] if len(ops) > 1 else None
    if mn in ('movss', 'movsd'):
        w = 32 if mn == 'movss' else 64
        if d[0] == 'x' and s[0] == 'x':
            g = xget(ex, s, w, nx)
            i = d[1]
            return lambda st: xset_low(st, i, w, g(st))
        if d[0] == 'x':
            g = xget(ex, s, w, nx)
            i = d[1]

            def ld(st):
                st.x[i] = (T.zext(w, 64, g(st)), 0)
            return ld
        g = xget(ex, s, w, nx)
        p = setter(ex, d, w, nx)
        return lambda st: p(st, g(st))
    if mn in ('movaps', 'movups', 'movapd', 'movupd', 'movdqa', 'movdqu', 'lddqu'):
        g = xget(ex, s, 128, nx)
        if d[0] == 'x':
            i = d[1]

            def mv(st):
                st.x[i] = g(st)
            return mv
        a = addr_of(ex, d, nx)

        def mvm(st):
            p = a(st)
            if mn in ('movaps', 'movapd', 'movdqa') and type(p) is int and p % 16:
                raise X.Bug('trap', 'misaligned ' + mn)
            lo, hi = g(st)
            ex.store(st, p, 8, lo)
            ex.store(st, T.add(64, p, 8), 8, hi)
        return mvm
    if mn in ('movd', 'movq'):
        w = 32 if mn == 'movd' else 64
        if d[0] == 'x':
            i = d[1]
            if s[0] == 'x':
                def mq(st):
                    st.x[i] = (st.x[s[1]][0], 0)
                return mq
            w = opw(s) or w
            g = getter(ex, s, w, nx)

            def m1(st):
                st.x[i] = (T.zext(w, 64, g(st)), 0)
            return m1
        w = opw(d) or w
        g = xget(ex, s, w, nx)
        p = setter(ex, d, w, nx)
        return lambda st: p(st, g(st))
    if mn[:-2] in FB and mn[-2:] in ('ss', 'sd'):
        w = 32 if mn.endswith('ss') else 64
        op = FB[mn[:-2]]
        i = d[1]
        g0, g1 = xget(ex, d, w, nx), xget(ex, s, w, nx)
        return lambda st: xset_low(st, i, w, T.fbin(op, w, g0(st), g1(st)))
    if mn in ('minss', 'minsd', 'maxss', 'maxsd'):
        w = 32 if mn.endswith('ss') else 64
        op = _fmin if mn.startswith('min') else _fmax
        i = d[1]
        g0, g1 = xget(ex, d, w, nx), xget(ex, s, w, nx)
        return lambda st: xset_low(st, i, w, op(w, g0(st), g1(st)))
    if mn in ('sqrtss', 'sqrtsd'):
        w = 32 if mn.endswith('ss') else 64
        i = d[1]
        g1 = xget(ex, s, w, nx)
        return lambda st: xset_low(st, i, w, T.fsqrt(w, g1(st)))
    if mn in ('roundss', 'roundsd'):
        w = 32 if mn.endswith('ss') else 64
        i = d[1]
        g1 = xget(ex, s, w, nx)
        m = ops[2][1] & 7
        mode = ['rne', 'rtn', 'rtp', 'rtz', 'rne', 'rne', 'rne', 'rne'][m]
        return lambda st: xset_low(st, i, w, T.fround(mode, w, g1(st)))
    if mn in ('ucomiss', 'ucomisd', 'comiss', 'comisd'):
        w = 32 if mn.endswith('ss') else 64
        g0, g1 = xget(ex, d, w, nx), xget(ex, s, w, nx)

        def comi(st):
            a, b = g0(st), g1(st)
            u = T.f_unord(w, a, b)
            st.fl = ('ex', T.b_or(u, T.f_lt(w, a, b)), T.b_or(u, T.f_eq(w, a, b)), False, False, u)
        return comi
    if mn in ('cvtss2sd', 'cvtsd2ss'):
        w1, w2 = (32, 64) if mn == 'cvtss2sd' else (64, 32)
        i = d[1]
        g1 = xget(ex, s, w1, nx)
        return lambda st: xset_low(st, i, w2, T.f2f(w1, w2, g1(st)))
    if mn in ('cvtps2pd', 'cvtpd2ps'):
        i = d[1]
        if mn == 'cvtps2pd':
            g1 = xget(ex, s, 64, nx)

            def c1(st):
                v = g1(st)
                st.x[i] = (T.f2f(32, 64, T.ext(64, v, 31, 0)), T.f2f(32, 64, T.ext(64, v, 63, 32)))
            return c1
        g1 = xget(ex, s, 128, nx)

        def c2(st):
            lo, hi = g1(st)
            st.x[i] = (T.concat([(32, T.f2f(64, 32, hi)), (32, T.f2f(64, 32, lo))]), 0)
        return c2
    if mn in ('cvtsi2sd', 'cvtsi2ss'):
        wf = 64 if mn.endswith('sd') else 32
        s = ops[-1]
        wi = opw(s)
        i = d[1]
        g1 = getter(ex, s, wi, nx)
        return lambda st: xset_low(st, i, wf, T.i2f(True, wi, wf, g1(st)))
    if mn in ('cvttss2si', 'cvttsd2si', 'cvtss2si', 'cvtsd2si'):
        wf = 32 if 'ss' in mn else 64
        wi = d[2]
        p = setter(ex, d, wi, nx)
        g1 = xget(ex, s, wf, nx)
        mode = 'rtz' if mn.startswith('cvtt') else 'rne'
        return lambda st: p(st, T.cvt_f2si(mode, wf, wi, g1(st)))
    lg = {'andps': T.and_, 'andpd': T.and_, 'pand': T.and_, 'orps': T.or_, 'orpd': T.or_, 'por': T.or_,
          'xorps': T.xor, 'xorpd': T.xor, 'pxor': T.xor,
          'andnps': lambda w, a, b: T.and_(w, T.not_(w, a), b), 'andnpd': lambda w, a, b: T.and_(w, T.not_(w, a), b),
          'pandn': lambda w, a, b: T.and_(w, T.not_(w, a), b),
          'paddq': T.add, 'psubq': T.sub}
    if mn in lg:
        op = lg[mn]
        i = d[1]
        if mn in ('pxor', 'xorps', 'xorpd') and s[0] == 'x' and s[1] == i:
            def z(st):
                st.x[i] = (0, 0)
            return z
        g1 = xget(ex, s, 128, nx)

        def logic(st):
            a, b = st.x[i], g1(st)
            st.x[i] = (op(64, a[0], b[0]), op(64, a[1], b[1]))
        return logic
    if mn in ('paddd', 'psubd'):
        op = T.add if mn == 'paddd' else T.sub
        i = d[1]
        g1 = xget(ex, s, 128, nx)

        def pd(st):
            a, b = _lanes32(st.x[i]), _lanes32(g1(st))
            st.x[i] = _from32([op(32, x, y) for x, y in zip(a, b)])
        return pd
    if mn in ('pcmpeqd',):
        i = d[1]
        g1 = xget(ex, s, 128, nx)

        def pce(st):
            a, b = _lanes32(st.x[i]), _lanes32(g1(st))
            st.x[i] = _from32([T.ite(T.eq(32, x, y), 32, M32, 0) for x, y in zip(a, b)])
        return pce
    if mn in ('cmpeqss', 'cmpltss', 'cmpless', 'cmpunordss', 'cmpneqss', 'cmpnltss', 'cmpnless', 'cmpordss',
              'cmpeqsd', 'cmpltsd', 'cmplesd', 'cmpunordsd', 'cmpneqsd', 'cmpnltsd', 'cmpnlesd', 'cmpordsd'):
        w = 32 if mn.endswith('ss') else 64
        i = d[1]
        g0, g1 = xget(ex, d, w, nx), xget(ex, s, w, nx)
        pred = mn[3:-2]
        P = {'eq': lambda a, b: T.f_eq(w, a, b), 'lt': lambda a, b: T.f_lt(w, a, b),
             'le': lambda a, b: T.b_or(T.f_lt(w, a, b), T.f_eq(w, a, b)), 'unord': lambda a, b: T.f_unord(w, a, b)}
        neg = {'neq': 'eq', 'nlt': 'lt', 'nle': 'le', 'ord': 'unord'}

        def cmps(st):
            a, b = g0(st), g1(st)
            c = P[pred](a, b) if pred in P else T.b_not(P[neg[pred]](a, b))
            xset_low(st, i, w, T.ite(c, w, MASK[w], 0))
        return cmps
    if mn == 'unpcklps':
        i = d[1]
        g1 = xget(ex, s, 128, nx)

        def unp(st):
            a, b = _lanes32(st.x[i]), _lanes32(g1(st))
            st.x[i] = _from32([a[0], b[0], a[1], b[1]])
        return unp
    if mn in ('unpcklpd', 'punpcklqdq', 'movlhps'):
        i = d[1]
        g1 = xget(ex, s, 64, nx)

        def unq(st):
            st.x[i] = (st.x[i][0], g1(st))
        return unq
    if mn in ('unpckhpd', 'punpckhqdq'):
        i = d[1]
        g1 = xget(ex, s, 128, nx)

        def unh(st):
            st.x[i] = (st.x[i][1], g1(st)[1])
        return unh
    if mn == 'punpckldq':
        i = d[1]
        g1 = xget(ex, s, 128, nx)

        def unp2(st):
            a, b = _lanes32(st.x[i]), _lanes32(g1(st))
            st.x[i] = _from32([a[0], b[0], a[1], b[1]])
        return unp2
    if mn in ('movhps', 'movhpd'):
        if d[0] == 'x':
            i = d[1]
            g1 = xget(ex, s, 64, nx)

            def mh(st):
                st.x[i] = (st.x[i][0], g1(st))
            return mh
        p = setter(ex, d, 64, nx)
        return lambda st: p(st, st.x[s[1]][1])
    if mn in ('movlps', 'movlpd'):
        if d[0] == 'x':
            i = d[1]
            g1 = xget(ex, s, 64, nx)

            def ml(st):
                st.x[i] = (g1(st), st.x[i][1])
            return ml
        p = setter(ex, d, 64, nx)
        return lambda st: p(st, st.x[s[1]][0])
    if mn in ('pshufd', 'shufps'):
        i = d[1]
        c = ops[2][1] & 255
        g1 = xget(ex, s, 128, nx)

        def shuf(st):
            b = _lanes32(g1(st))
            a = b if mn == 'pshufd' else _lanes32(st.x[i])
            st.x[i] = _from32([a[c & 3], a[c >> 2 & 3], b[c >> 4 & 3], b[c >> 6 & 3]])
        return shuf
    if mn in ('psllq', 'psrlq', 'pslld', 'psrld', 'psrldq', 'pslldq') and s[0] == 'i':
        i = d[1]
        c = s[1] & 255

        def psh(st):
            lo, hi = st.x[i]
            if mn in ('psllq', 'psrlq'):
                op = T.shl if mn == 'psllq' else T.lshr
                st.x[i] = (op(64, lo, c), op(64, hi, c))
            elif mn in ('pslld', 'psrld'):
                op = T.shl if mn == 'pslld' else T.lshr
                st.x[i] = _from32([op(32, x, c) for x in _lanes32((lo, hi))])
            else:
                full = T.concat([(64, hi), (64, lo)])
                full = T.lshr(128, full, 8 * c) if mn == 'psrldq' else T.shl(128, full, 8 * c)
                st.x[i] = (T.ext(128, full, 63, 0), T.ext(128, full, 127, 64))
        return psh
    if mn in ('pextrd', 'pextrq'):
        w = 32 if mn == 'pextrd' else 64
        p = setter(ex, d, w, nx)
        c = ops[2][1]

        def pex(st):
            v = st.x[s[1]]
            p(st, _lanes32(v)[c & 3] if w == 32 else v[c & 1])
        return pex
    if mn in ('pinsrd', 'pinsrq'):
        w = 32 if mn == 'pinsrd' else 64
        g = getter(ex, s, w, nx)
        c = ops[2][1]
        i = d[1]

        def pin(st):
            v = st.x[i]
            if w == 64:
                st.x[i] = (g(st), v[1]) if c & 1 == 0 else (v[0], g(st))
            else:
                l = _lanes32(v)
                l[c & 3] = g(st)
                st.x[i] = _from32(l)
        return pin
    if mn == 'insertps':
        c = ops[2][1]
        i = d[1]
        if s[0] == 'x':
            g = xget(ex, s, 128, nx)
        else:
            gm = xget(ex, s, 32, nx)

        def ins(st):
            v = _lanes32(g(st))[c >> 6 & 3] if s[0] == 'x' else gm(st)
            l = _lanes32(st.x[i])
            l[c >> 4 & 3] = v
            l = [0 if c >> k & 1 else x for k, x in enumerate(l)]
            st.x[i] = _from32(l)
        return ins
    if mn in ('movmskpd', 'movmskps'):
        p = setter(ex, d, d[2], nx)
        w = d[2]

        def mm(st):
            v = st.x[s[1]]
            if mn == 'movmskpd':
                r = T.concat([(1, T.ext(64, v[1], 63, 63)), (1, T.ext(64, v[0], 63, 63))])
                p(st, T.zext(2, w, r))
            else:
                l = _lanes32(v)
                r = T.concat([(1, T.ext(32, x, 31, 31)) for x in reversed(l)])
                p(st, T.zext(4, w, r))
        return mm
    raise Unsupported(mn)
