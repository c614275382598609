"""WebAssembly module encoder and symbolic reference interpreter (written from the WebAssembly specification, independent
of the code under test).  Value types: i I f F = i32 i64 f32 f64, r = externref, u = funcref."""
import struct
import z3
import term as T
from arr import Arr

VT = {'i': 0x7f, 'I': 0x7e, 'f': 0x7d, 'F': 0x7c, 'r': 0x6f, 'u': 0x70}
W = {'i': 32, 'I': 64, 'f': 32, 'F': 64, 'r': 64, 'u': 64}


def uleb(n, pad=0):
    out = b''
    while True:
        b = n & 0x7f
        n >>= 7
        if n or len(out) + 1 < pad:
            out += bytes([b | 0x80])
        else:
            return out + bytes([b])


def sleb(n, pad=0):
    out = b''
    while True:
        b = n & 0x7f
        n >>= 7
        done = (n == 0 and not b & 0x40) or (n == -1 and b & 0x40)
        if done and len(out) + 1 >= pad:
            return out + bytes([b])
        out += bytes([b | 0x80])


def s32(v):
    return T.s2(32, v & 0xffffffff)


def s64(v):
    return T.s2(64, v & 0xffffffffffffffff)


def _tab():
    t = {}

    def seq(start, names, sig):
        for k, n in enumerate(names.split()):
            t[n] = (start + k, sig)
    cmp_i = 'eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u'
    cmp_f = 'eq ne lt gt le ge'
    P = lambda p, s: ' '.join(p + '.' + x for x in s.split())
    seq(0x45, 'i32.eqz', 'i:i')
    seq(0x46, P('i32', cmp_i), 'ii:i')
    seq(0x50, 'i64.eqz', 'I:i')
    seq(0x51, P('i64', cmp_i), 'II:i')
    seq(0x5b, P('f32', cmp_f), 'ff:i')
    seq(0x61, P('f64', cmp_f), 'FF:i')
    un = 'clz ctz popcnt'
    bi = 'add sub mul div_s div_u rem_s rem_u and or xor shl shr_s shr_u rotl rotr'
    seq(0x67, P('i32', un), 'i:i')
    seq(0x6a, P('i32', bi), 'ii:i')
    seq(0x79, P('i64', un), 'I:I')
    seq(0x7c, P('i64', bi), 'II:I')
    fu = 'abs neg ceil floor trunc nearest sqrt'
    fb = 'add sub mul div min max copysign'
    seq(0x8b, P('f32', fu), 'f:f')
    seq(0x92, P('f32', fb), 'ff:f')
    seq(0x99, P('f64', fu), 'F:F')
    seq(0xa0, P('f64', fb), 'FF:F')
    for k, (n, s) in enumerate([
            ('i32.wrap_i64', 'I:i'), ('i32.trunc_f32_s', 'f:i'), ('i32.trunc_f32_u', 'f:i'), ('i32.trunc_f64_s', 'F:i'),
            ('i32.trunc_f64_u', 'F:i'), ('i64.extend_i32_s', 'i:I'), ('i64.extend_i32_u', 'i:I'),
            ('i64.trunc_f32_s', 'f:I'), ('i64.trunc_f32_u', 'f:I'), ('i64.trunc_f64_s', 'F:I'), ('i64.trunc_f64_u', 'F:I'),
            ('f32.convert_i32_s', 'i:f'), ('f32.convert_i32_u', 'i:f'), ('f32.convert_i64_s', 'I:f'),
            ('f32.convert_i64_u', 'I:f'), ('f32.demote_f64', 'F:f'),
            ('f64.convert_i32_s', 'i:F'), ('f64.convert_i32_u', 'i:F'), ('f64.convert_i64_s', 'I:F'),
            ('f64.convert_i64_u', 'I:F'), ('f64.promote_f32', 'f:F'),
            ('i32.reinterpret_f32', 'f:i'), ('i64.reinterpret_f64', 'F:I'), ('f32.reinterpret_i32', 'i:f'),
            ('f64.reinterpret_i64', 'I:F'), ('i32.extend8_s', 'i:i'), ('i32.extend16_s', 'i:i'),
            ('i64.extend8_s', 'I:I'), ('i64.extend16_s', 'I:I'), ('i64.extend32_s', 'I:I')]):
        t[n] = (0xa7 + k, s)
    for k, (n, s) in enumerate([
            ('i32.trunc_sat_f32_s', 'f:i'), ('i32.trunc_sat_f32_u', 'f:i'), ('i32.trunc_sat_f64_s', 'F:i'),
            ('i32.trunc_sat_f64_u', 'F:i'), ('i64.trunc_sat_f32_s', 'f:I'), ('i64.trunc_sat_f32_u', 'f:I'),
            ('i64.trunc_sat_f64_s', 'F:I'), ('i64.trunc_sat_f64_u', 'F:I')]):
        t[n] = ((0xfc, k), s)
    return t


NUM = _tab()
LOADS = {}
for _k, (_n, _t, _b, _s) in enumerate([
        ('i32.load', 'i', 4, 0), ('i64.load', 'I', 8, 0), ('f32.load', 'f', 4, 0), ('f64.load', 'F', 8, 0),
        ('i32.load8_s', 'i', 1, 1), ('i32.load8_u', 'i', 1, 0), ('i32.load16_s', 'i', 2, 1), ('i32.load16_u', 'i', 2, 0),
        ('i64.load8_s', 'I', 1, 1), ('i64.load8_u', 'I', 1, 0), ('i64.load16_s', 'I', 2, 1), ('i64.load16_u', 'I', 2, 0),
        ('i64.load32_s', 'I', 4, 1), ('i64.load32_u', 'I', 4, 0)]):
    LOADS[_n] = (0x28 + _k, _t, _b, _s)
STORES = {}
for _k, (_n, _t, _b) in enumerate([
        ('i32.store', 'i', 4), ('i64.store', 'I', 8), ('f32.store', 'f', 4), ('f64.store', 'F', 8),
        ('i32.store8', 'i', 1), ('i32.store16', 'i', 2), ('i64.store8', 'I', 1), ('i64.store16', 'I', 2),
        ('i64.store32', 'I', 4)]):
    STORES[_n] = (0x36 + _k, _t, _b)


def bt(s):
    return bytes([0x40]) if s == '' else bytes([VT[s]])


class Func:
    def __init__(self, params, results, locals_='', body=(), export=None):
        self.params, self.results, self.locals, self.body, self.export = params, results, locals_, list(body), export
        self.raw = None


class Module:
    """imports: list of (module, field, kind, desc); desc: func -> (params, results), memory -> (init, max|None, is64),
    global -> (type, mut), table -> (type, init, max)"""

    def __init__(self):
        self.imports = []
        self.funcs = []
        self.memories = []      # (init, max|None, is64)
        self.globals = []       # (type, mut, initexpr list)
        self.tables = []        # (type, init, max|None)
        self.exports = []       # (name, kind, index)
        self.elems = []         # raw bytes of one element segment each
        self.datas = []
        self.start = None
        self.sigs = []
        self.customs = []       # (before section id, bytes)

    def sig(self, p, r):
        k = (p, r)
        if k not in self.sigs:
            self.sigs.append(k)
        return self.sigs.index(k)

    def nimp(self, kind):
        return sum(1 for i in self.imports if i[2] == kind)

    # signature of function index
    def fsig(self, i):
        im = [x for x in self.imports if x[2] == 'func']
        if i < len(im):
            return im[i][3]
        f = self.funcs[i - len(im)]
        return f.params, f.results

    def gtype(self, i):
        im = [x for x in self.imports if x[2] == 'global']
        return im[i][3][0] if i < len(im) else self.globals[i - len(im)][0]

    def ttype(self, i):
        im = [x for x in self.imports if x[2] == 'table']
        return im[i][3][0] if i < len(im) else self.tables[i - len(im)][0]

    def mem64(self, i):
        im = [x for x in self.imports if x[2] == 'memory']
        return im[i][3][2] if i < len(im) else self.memories[i - len(im)][2]

    def expr(self, body):
        out = b''
        for ins in body:
            out += self.ins(ins)
        return out

    def ins(self, ins):
        n = ins[0]
        if n in NUM:
            op = NUM[n][0]
            return bytes([op]) if type(op) is int else bytes([op[0]]) + uleb(op[1])
        if n in LOADS or n in STORES:
            op = (LOADS.get(n) or STORES.get(n))[0]
            off = ins[1] if len(ins) > 1 else 0
            mem = ins[2] if len(ins) > 2 else 0
            al = ins[3] if len(ins) > 3 else 0
            if mem:
                return bytes([op]) + uleb(al | 0x40) + uleb(mem) + uleb(off)
            return bytes([op]) + uleb(al) + uleb(off)
        if n == 'i32.const':
            return b'\x41' + sleb(s32(ins[1]), *ins[2:])
        if n == 'i64.const':
            return b'\x42' + sleb(s64(ins[1]), *ins[2:])
        if n == 'f32.const':
            return b'\x43' + struct.pack('<I', ins[1])
        if n == 'f64.const':
            return b'\x44' + struct.pack('<Q', ins[1])
        if n == 'raw':
            return ins[1]
        if n in ('block', 'loop'):
            return bytes([2 if n == 'block' else 3]) + bt(ins[1]) + self.expr(ins[2]) + b'\x0b'
        if n == 'if':
            e = ins[3] if len(ins) > 3 else None
            return b'\x04' + bt(ins[1]) + self.expr(ins[2]) + (b'' if e is None else b'\x05' + self.expr(e)) + b'\x0b'
        if n == 'br':
            return b'\x0c' + uleb(ins[1])
        if n == 'br_if':
            return b'\x0d' + uleb(ins[1])
        if n == 'br_table':
            return b'\x0e' + uleb(len(ins[1])) + b''.join(uleb(x) for x in ins[1]) + uleb(ins[2])
        if n == 'select_t':
            return b'\x1c\x01' + bytes([VT[ins[1]]])
        S = {'unreachable': 0, 'nop': 1, 'return': 0xf, 'drop': 0x1a, 'select': 0x1b, 'ref.is_null': 0xd1}
        if n in S:
            return bytes([S[n]])
        S1 = {'call': 0x10, 'return_call': 0x12, 'local.get': 0x20, 'local.set': 0x21, 'local.tee': 0x22,
              'global.get': 0x23, 'global.set': 0x24, 'table.get': 0x25, 'table.set': 0x26, 'ref.func': 0xd2,
              'memory.size': 0x3f, 'memory.grow': 0x40}
        if n in S1:
            return bytes([S1[n]]) + uleb(ins[1] if len(ins) > 1 else 0)
        if n in ('call_indirect', 'return_call_indirect'):
            return bytes([0x11 if n == 'call_indirect' else 0x13]) + uleb(self.sig(ins[1], ins[2])) + uleb(ins[3] if len(ins) > 3 else 0)
        if n == 'ref.null':
            return b'\xd0' + bytes([VT[ins[1]]])
        if n == 'memory.copy':
            return b'\xfc' + uleb(10) + uleb(ins[1]) + uleb(ins[2])
        if n == 'memory.fill':
            return b'\xfc' + uleb(11) + uleb(ins[1])
        if n == 'table.copy':
            return b'\xfc' + uleb(14) + uleb(ins[1]) + uleb(ins[2])
        if n == 'table.grow':
            return b'\xfc' + uleb(15) + uleb(ins[1])
        if n == 'table.size':
            return b'\xfc' + uleb(16) + uleb(ins[1])
        if n == 'table.fill':
            return b'\xfc' + uleb(17) + uleb(ins[1])
        raise ValueError(n)

    def limits(self, init, mx, is64=False):
        return bytes([(1 if mx is not None else 0) | (4 if is64 else 0)]) + uleb(init) + (uleb(mx) if mx is not None else b'')

    def encode(self):
        code = []
        for f in self.funcs:
            lo = []
            for c in f.locals:
                if lo and lo[-1][1] == c:
                    lo[-1][0] += 1
                else:
                    lo.append([1, c])
            b = uleb(len(lo)) + b''.join(uleb(n) + bytes([VT[c]]) for n, c in lo)
            b += (f.raw if f.raw is not None else self.expr(f.body)) + b'\x0b'
            code.append(uleb(len(b)) + b)
        fidx = [self.sig(f.params, f.results) for f in self.funcs]
        ginit = [bytes([VT[t], 1 if m else 0]) + self.expr(e) + b'\x0b' for t, m, e in self.globals]
        imps = []
        for m, f, k, d in self.imports:
            b = uleb(len(m)) + m.encode() + uleb(len(f)) + f.encode()
            if k == 'func':
                b += b'\0' + uleb(self.sig(*d))
            elif k == 'table':
                b += b'\1' + bytes([VT[d[0]]]) + self.limits(d[1], d[2])
            elif k == 'memory':
                b += b'\2' + self.limits(*d)
            else:
                b += b'\3' + bytes([VT[d[0]], 1 if d[1] else 0])
            imps.append(b)
        nif = self.nimp('func')
        exps = list(self.exports)
        for i, f in enumerate(self.funcs):
            if f.export:
                exps.append((f.export, 'func', nif + i))
        K = {'func': 0, 'table': 1, 'memory': 2, 'global': 3}
        types = [b'\x60' + uleb(len(p)) + bytes(VT[c] for c in p) + uleb(len(r)) + bytes(VT[c] for c in r) for p, r in self.sigs]
        secs = [(1, types), (2, imps), (3, [uleb(i) for i in fidx]),
                (4, [bytes([VT[t]]) + self.limits(i, m) for t, i, m in self.tables]),
                (5, [self.limits(*m) for m in self.memories]), (6, ginit),
                (7, [uleb(len(n)) + n.encode() + bytes([K[k]]) + uleb(i) for n, k, i in exps])]
        out = b'\0asm\1\0\0\0'

        def cust(before):
            return b''.join(b'\0' + uleb(len(c)) + c for w, c in self.customs if w == before)

        for sid, items in secs:
            out += cust(sid)
            if items:
                b = uleb(len(items)) + b''.join(items)
                out += bytes([sid]) + uleb(len(b)) + b
        if self.start is not None:
            b = uleb(self.start)
            out += b'\x08' + uleb(len(b)) + b
        out += cust(9)
        for sid, items in ((9, self.elems), (10, code), (11, self.datas)):
            if items:
                b = uleb(len(items)) + b''.join(items)
                out += bytes([sid]) + uleb(len(b)) + b
            out += cust(sid + 1)
        return out


# ------------------------------------------------------------------------------------------------ reference semantics
class Trap(Exception):
    pass


class Limit(Exception):
    """outside the stated bounds"""


class _Br(Exception):
    def __init__(self, n, vals):
        self.n, self.vals = n, vals


class _Ret(Exception):
    def __init__(self, vals):
        self.vals = vals


def num(n, a, ctx):
    """value of numeric instruction n on operand list a; ctx.need(cond) excludes inputs (traps / host-defined results)"""
    p, op = n.split('.', 1)
    w = {'i32': 32, 'i64': 64, 'f32': 32, 'f64': 64}[p]
    if p[0] == 'i' and '_f' not in op and 'reinterpret' not in op:
        x = a[0]
        y = a[1] if len(a) > 1 else None
        if op == 'eqz':
            return T.b2v(32, T.eq(w, x, 0))
        c = {'eq': lambda: T.eq(w, x, y), 'ne': lambda: T.b_not(T.eq(w, x, y)),
             'lt_s': lambda: T.slt(w, x, y), 'lt_u': lambda: T.ult(w, x, y), 'gt_s': lambda: T.slt(w, y, x),
             'gt_u': lambda: T.ult(w, y, x), 'le_s': lambda: T.sle(w, x, y), 'le_u': lambda: T.ule(w, x, y),
             'ge_s': lambda: T.sle(w, y, x), 'ge_u': lambda: T.ule(w, y, x)}.get(op)
        if c:
            return T.b2v(32, c())
        if op == 'clz':
            return T.clz(w, x)
        if op == 'ctz':
            return T.ctz(w, x)
        if op == 'popcnt':
            return T.popcnt(w, x)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
            return {'add': T.add, 'sub': T.sub, 'mul': T.mul, 'and': T.and_, 'or': T.or_, 'xor': T.xor}[op](w, x, y)
        if op in ('shl', 'shr_s', 'shr_u'):
            return {'shl': T.shl, 'shr_s': T.ashr, 'shr_u': T.lshr}[op](w, x, T.and_(w, y, w - 1))
        if op == 'rotl':
            return T.rotl(w, x, y)
        if op == 'rotr':
            return T.rotr(w, x, y)
        if op in ('div_s', 'div_u', 'rem_s', 'rem_u'):
            ctx.trapif(T.eq(w, y, 0), 'divide by zero')
            if op == 'div_s':
                ctx.trapif(T.b_and(T.eq(w, x, 1 << (w - 1)), T.eq(w, y, T.MASK[w])), 'overflow')
                return T.sdiv(w, x, y)
            if op == 'rem_s':
                if type(y) is int and y == T.MASK[w]:
                    return 0
                return T.srem(w, x, y)
            return T.udiv(w, x, y) if op == 'div_u' else T.urem(w, x, y)
        if op == 'wrap_i64':
            return T.ext(64, x, 31, 0)
        if op in ('extend_i32_s', 'extend_i32_u'):
            return (T.sext if op[-1] == 's' else T.zext)(32, 64, x)
        if op.startswith('extend'):
            k = int(op[6:-2])
            return T.sext(k, w, T.ext(w, x, k - 1, 0))
        raise ValueError(n)
    if 'trunc_' in op and p[0] == 'i':
        wf = 32 if 'f32' in op else 64
        s = op[-1] == 's'
        ok = T.f_in_int_range(s, 'rtz', wf, w, a[0])
        ctx.need(ok)
        if type(a[0]) is int:
            return T.f2i_raw(s, 'rtz', wf, w, a[0])
        return T.f2i_raw(s, 'rtz', wf, w, a[0])
    if 'reinterpret' in op:
        return a[0]
    if op.startswith('convert_i'):
        wi = int(op[9:11])
        return T.i2f(op[-1] == 's', wi, w, a[0])
    if op in ('demote_f64', 'promote_f32'):
        return T.f2f(96 - w, w, a[0])
    x = a[0]
    y = a[1] if len(a) > 1 else None
    S = 1 << (w - 1)
    if op == 'abs':
        return T.and_(w, x, S - 1)
    if op == 'neg':
        return T.xor(w, x, S)
    if op == 'copysign':
        return T.or_(w, T.and_(w, x, S - 1), T.and_(w, y, S))
    if op in ('ceil', 'floor', 'trunc', 'nearest'):
        return T.fround({'ceil': 'rtp', 'floor': 'rtn', 'trunc': 'rtz', 'nearest': 'rne'}[op], w, x)
    if op == 'sqrt':
        return T.fsqrt(w, x)
    if op in ('add', 'sub', 'mul', 'div'):
        return T.fbin('f' + op, w, x, y)
    if op in ('min', 'max'):
        nan = T.f_unord(w, x, y)
        eq = T.f_eq(w, x, y)
        zz = T.or_(w, x, y) if op == 'min' else T.and_(w, x, y)    # equal values differ only by the sign of zero
        lt = T.f_lt(w, x, y) if op == 'min' else T.f_lt(w, y, x)
        return T.ite(nan, w, T.QNAN[w], T.ite(eq, w, zz, T.ite(lt, w, x, y)))
    c = {'eq': lambda: T.f_eq(w, x, y), 'ne': lambda: T.b_not(T.f_eq(w, x, y)), 'lt': lambda: T.f_lt(w, x, y),
         'gt': lambda: T.f_lt(w, y, x), 'le': lambda: T.b_or(T.f_lt(w, x, y), T.f_eq(w, x, y)),
         'ge': lambda: T.b_or(T.f_lt(w, y, x), T.f_eq(w, x, y))}[op]
    return T.b2v(32, c())


class RefState:
    """Machine-independent state of a module instance.
    mems: list of dict(arr=Arr, base=int, size=int (bytes), pages, max, is64, fixed)
    globals: list of terms;  tables: list of lists of 64-bit terms;  log: host calls"""

    def __init__(self):
        self.mems, self.globals, self.tables, self.log = [], [], [], []
        self.ngrow, self.grow_ok = 0, None

    def clone(self):
        n = RefState()
        n.ngrow, n.grow_ok = self.ngrow, self.grow_ok
        n.mems = [dict(m) for m in self.mems]
        n.globals = self.globals[:]
        n.tables = [t[:] for t in self.tables]
        n.log = self.log[:]
        return n


class Ref:
    """one run along one decision prefix"""

    def __init__(self, mod, st, solver, faddr=(), pc=(), max_steps=400, hostk=None, zero_init=True, ext_index=True):
        self.mod, self.init, self.solver = mod, st, solver
        self.faddr = dict(faddr)                      # funcref value -> function index
        self.idx2addr = {v: k for k, v in self.faddr.items()}
        self.pc0 = list(pc)
        self.max_steps = max_steps
        self.hostk = hostk or {}                      # func index -> host slot number
        self.zero_init = zero_init
        self.ext_index = ext_index                    # documented: without it 32-bit indexes must be below 2^31
        self.undef = 0

    # ---- decisions
    def trapif(self, c, why=''):
        c = T.simp(c)
        if c is False:
            return
        if c is True:
            raise Trap('trap')
        self.need(T.b_not(c))

    def need(self, c):
        c = T.simp(c)
        if c is True:
            return
        if c is False:
            raise Trap('excluded')
        self.pc.append(c)
        if self.i >= len(self.dec):           # beyond the replayed prefix
            r = self.solver.check(self.pc)
            if r == 'unsat':
                raise Trap('excluded')
            if r == 'unknown':
                raise Limit('unknown')

    def choose(self, alts):
        """alts: list of (cond, value); exactly one holds.  Follows the prefix or forks."""
        if self.i < len(self.dec):
            k = self.dec[self.i]
            self.i += 1
            if type(alts[k][0]) is not bool:
                self.pc.append(alts[k][0])
            return alts[k][1]
        feas = []
        for k, (c, v) in enumerate(alts):
            c = T.simp(c)
            if c is False:
                continue
            if c is True or self.solver.check(self.pc + [c]) != 'unsat':
                feas.append(k)
        if not feas:
            raise Trap('infeasible')
        for k in feas[1:]:
            self.work.append(self.dec[:self.i] + [k])
        k = feas[0]
        self.dec = self.dec[:self.i] + [k]
        self.i += 1
        if type(alts[k][0]) is not bool:
            self.pc.append(T.simp(alts[k][0]))
        return alts[k][1]

    def test(self, c):
        c = T.simp(c)
        if type(c) is bool:
            return c
        return self.choose([(c, True), (T.b_not(c), False)])

    def pick(self, w, v, lo, hi):
        """concrete value of v within [lo, hi); others excluded"""
        v = T.simp(v)
        if type(v) is int:
            if not lo <= v < hi:
                raise Trap('excluded')
            return v
        self.need(T.b_and(T.ule(w, lo, v), T.ult(w, v, hi)))
        return self.choose([(T.eq(w, v, k), k) for k in range(lo, hi)])

    # ---- exploration
    def paths(self, fidx, args, limit=2000):
        """yields (pc, results, state) for every path within bounds; self.excluded counts trap paths, self.cut those
        beyond the step bound"""
        self.work = [[]]
        self.excluded = self.cut = 0
        n = 0
        while self.work:
            self.dec = self.work.pop()
            self.i = 0
            self.pc = list(self.pc0)
            self.steps = 0
            self.s = self.init.clone()
            self.depth = 0
            n += 1
            if n > limit:
                self.cut += 1 + len(self.work)
                return
            try:
                r = self.invoke(fidx, list(args))
            except Trap:
                self.excluded += 1
                continue
            except Limit:
                self.cut += 1
                continue
            yield list(self.pc), r, self.s

    # ---- functions
    def invoke(self, fidx, args):
        m = self.mod
        while True:
            im = [x for x in m.imports if x[2] == 'func']
            if fidx < len(im):
                return self.host(fidx, im[fidx], args)
            f = m.funcs[fidx - len(im)]
            self.depth += 1
            if self.depth > 12:
                raise Limit('depth')
            loc = list(args)
            for t in f.locals:
                if self.zero_init:
                    loc.append(0)
                else:
                    self.undef += 1
                    loc.append(z3.BitVec('undef%d' % self.undef, W[t]))
            stack = []
            try:
                self.block(f.body, stack, loc, f)
                r = stack[len(stack) - len(f.results):] if f.results else []
            except _Ret as e:
                r = e.vals[len(e.vals) - len(f.results):] if f.results else []
            except _Br as e:
                assert e.n == 0
                r = e.vals[len(e.vals) - len(f.results):] if f.results else []
            except _Tail as e:
                fidx, args = e.f, e.args
                self.depth -= 1
                continue
            self.depth -= 1
            return r

    def host(self, fidx, imp, args):
        params, results = imp[3]
        k = self.hostk[fidx]
        if callable(k):
            return k(self, args)
        acc = (0x9e3779b97f4a7c15 + k) & T.MASK[64]
        self.s.log.append(k)
        for t, a in zip(params, args):
            v = T.zext(W[t], 64, a)
            self.s.log.append(v)
            acc = T.xor(64, T.rotl(64, acc, 7), v)
        out = []
        for r, t in enumerate(results):
            acc = T.add(64, T.rotl(64, acc, 11), 0x1234567 + r)
            out.append(T.ext(64, acc, W[t] - 1, 0))
        return out

    def block(self, body, stack, loc, f):
        for ins in body:
            self.step(ins, stack, loc, f)

    def step(self, ins, stack, loc, f):
        n = ins[0]
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit('steps')
        if n in NUM:
            p, _ = NUM[n][1].split(':')
            k = len(p)
            a = stack[-k:]
            del stack[-k:]
            stack.append(num(n, a, self))
            return
        if n == 'local.get':
            stack.append(loc[ins[1]])
        elif n == 'local.set':
            loc[ins[1]] = stack.pop()
        elif n == 'local.tee':
            loc[ins[1]] = stack[-1]
        elif n == 'i32.const':
            stack.append(ins[1] & 0xffffffff)
        elif n == 'i64.const':
            stack.append(ins[1] & T.MASK[64])
        elif n in ('f32.const', 'f64.const'):
            stack.append(ins[1])
        elif n == 'drop':
            stack.pop()
        elif n in ('select', 'select_t'):
            c = stack.pop()
            b = stack.pop()
            a = stack.pop()
            w = W[ins[1]] if len(ins) > 1 else 64
            for v in (a, b):
                if type(v) is not int:
                    w = v.size()
            if type(c) is int and len(ins) == 1:
                stack.append(a if c & 0xffffffff else b)
                return
            assert len(ins) > 1 or not (type(a) is int and type(b) is int), 'select of constants needs a type'
            stack.append(T.ite(T.b_not(T.eq(32, c, 0)), w, a, b))
        elif n in LOADS:
            _, t, nb, sg = LOADS[n]
            off = ins[1] if len(ins) > 1 else 0
            mem = ins[2] if len(ins) > 2 else 0
            a = self.ea(mem, stack.pop(), off, nb)
            v = self.s.mems[mem]['arr'].load(a, nb)
            stack.append((T.sext if sg else T.zext)(8 * nb, W[t], v))
        elif n in STORES:
            _, t, nb = STORES[n]
            off = ins[1] if len(ins) > 1 else 0
            mem = ins[2] if len(ins) > 2 else 0
            v = stack.pop()
            a = self.ea(mem, stack.pop(), off, nb)
            M = self.s.mems[mem]
            M['arr'] = M['arr'].store(a, nb, T.ext(W[t], v, 8 * nb - 1, 0))
        elif n == 'global.get':
            stack.append(self.s.globals[ins[1]])
        elif n == 'global.set':
            self.s.globals[ins[1]] = stack.pop()
        elif n == 'block':
            base = len(stack)
            k = len(ins[1])
            try:
                self.block(ins[2], stack, loc, f)
                v = stack[len(stack) - k:] if k else []
            except _Br as e:
                if e.n:
                    raise _Br(e.n - 1, e.vals)
                v = e.vals[len(e.vals) - k:] if k else []
            stack[base:] = v
        elif n == 'loop':
            base = len(stack)
            k = len(ins[1])
            while True:
                try:
                    self.block(ins[2], stack, loc, f)
                    stack[base:] = stack[len(stack) - k:] if k else []
                    return
                except _Br as e:
                    if e.n:
                        raise _Br(e.n - 1, e.vals)
                    del stack[base:]
                    self.steps += 1
                    if self.steps > self.max_steps:
                        raise Limit('steps')
        elif n == 'if':
            c = stack.pop()
            base = len(stack)
            k = len(ins[1])
            br = ins[2] if self.test(T.b_not(T.eq(32, c, 0))) else (ins[3] if len(ins) > 3 and ins[3] else [])
            try:
                self.block(br, stack, loc, f)
                v = stack[len(stack) - k:] if k else []
            except _Br as e:
                if e.n:
                    raise _Br(e.n - 1, e.vals)
                v = e.vals[len(e.vals) - k:] if k else []
            stack[base:] = v
        elif n == 'br':
            raise _Br(ins[1], stack[:])
        elif n == 'br_if':
            c = stack.pop()
            if self.test(T.b_not(T.eq(32, c, 0))):
                raise _Br(ins[1], stack[:])
        elif n == 'br_table':
            i = stack.pop()
            N = len(ins[1])
            alts = [(T.eq(32, i, k), ins[1][k]) for k in range(N)] + [(T.ule(32, N, i), ins[2])]
            if type(i) is int:
                t = ins[1][i] if i < N else ins[2]
            else:
                t = self.choose(alts)
            raise _Br(t, stack[:])
        elif n == 'return':
            raise _Ret(stack[:])
        elif n == 'unreachable':
            raise Trap('unreachable')
        elif n == 'nop':
            pass
        elif n in ('call', 'return_call'):
            p, r = self.mod.fsig(ins[1])
            self.docall(n, ins[1], p, stack)
        elif n in ('call_indirect', 'return_call_indirect'):
            tab = self.s.tables[ins[3] if len(ins) > 3 else 0]
            i = self.pick(32, stack.pop(), 0, len(tab))
            v = T.simp(tab[i])
            if type(v) is not int or v not in self.faddr or self.mod.fsig(self.faddr[v]) != (ins[1], ins[2]):
                raise Trap('indirect call')
            self.docall('call' if n[0] == 'c' else 'return_call', self.faddr[v], ins[1], stack)
        elif n == 'ref.null':
            stack.append(0)
        elif n == 'ref.is_null':
            stack.append(T.b2v(32, T.eq(64, stack.pop(), 0)))
        elif n == 'ref.func':
            stack.append(self.idx2addr[ins[1]])
        elif n == 'table.get':
            tab = self.s.tables[ins[1]]
            stack.append(tab[self.pick(32, stack.pop(), 0, len(tab))])
        elif n == 'table.set':
            tab = self.s.tables[ins[1]]
            v = stack.pop()
            tab[self.pick(32, stack.pop(), 0, len(tab))] = v
        elif n == 'table.size':
            stack.append(len(self.s.tables[ins[1]]))
        elif n == 'table.grow':
            stack.pop()
            stack.pop()
            stack.append(0xffffffff)       # growth may always fail; the documentation of this runtime says it does
        elif n == 'table.fill':
            tab = self.s.tables[ins[1]]
            c, v, i = stack.pop(), stack.pop(), stack.pop()
            c = self.pick(32, c, 0, len(tab) + 1)
            i = self.pick(32, i, 0, len(tab) + 1)
            if i + c > len(tab):
                raise Trap('oob')
            for k in range(c):
                tab[i + k] = v
        elif n == 'table.copy':
            d, s = self.s.tables[ins[1]], self.s.tables[ins[2]]
            c, si, di = stack.pop(), stack.pop(), stack.pop()
            c = self.pick(32, c, 0, min(len(d), len(s)) + 1)
            si = self.pick(32, si, 0, len(s) + 1)
            di = self.pick(32, di, 0, len(d) + 1)
            if si + c > len(s) or di + c > len(d):
                raise Trap('oob')
            d[di:di + c] = s[si:si + c]
        elif n == 'memory.size':
            M = self.s.mems[ins[1] if len(ins) > 1 else 0]
            stack.append(M['pages'])
        elif n == 'memory.grow':
            k = ins[1] if len(ins) > 1 else 0
            M = self.s.mems[k]
            stack.append(self.grow(k, M, T_w(M), stack.pop()))
        elif n == 'memory.fill':
            M = self.s.mems[ins[1]]
            c, v, d = stack.pop(), stack.pop(), stack.pop()
            self.need(T.ult(64, T.zext(T_w(M), 64, c), 1 << 32))            # documented limit of the count
            a = self.rng(ins[1], d, c)
            M = self.s.mems[ins[1]]
            M['arr'] = M['arr'].fill(a, T.zext(T_w(M), 64, c), T.ext(32, v, 7, 0))
        elif n == 'memory.copy':
            Md, Ms = self.s.mems[ins[1]], self.s.mems[ins[2]]
            c, s_, d = stack.pop(), stack.pop(), stack.pop()
            wc = 64 if Md['is64'] and Ms['is64'] else 32
            c64 = T.zext(wc, 64, c)
            self.need(T.ult(64, c64, 1 << 32))
            a, b = self.rng(ins[1], d, c64, 64), self.rng(ins[2], s_, c64, 64)
            Md['arr'] = Md['arr'].copy(a, c64, Ms['arr'], b)
        else:
            raise ValueError(n)

    def grow(self, k, M, w, d):
        # failure is always permitted; the embedder's documentation fixes when it happens: fixed memories never grow
        fail = T.MASK[w]
        if M.get('fixed'):
            return fail
        room = M['max'] - M['pages']
        if M.get('own'):
            self.need(T.b_or(T.ule(w, d, 3), T.ult(w, 65536 - M['pages'], d)))     # bound of the check
        if not self.test(T.ule(w, d, min(room, 3) if M.get('own') else room)):
            return fail
        d = self.pick(w, d, 0, min(room, 8) + 1)
        old = M['pages']
        if d == 0:
            return old
        j = self.s.ngrow
        self.s.ngrow += 1
        if not (self.s.grow_ok[j] if self.s.grow_ok is not None else self.test(z3.Bool('growok%d' % j))):
            return fail
        n = M.get('grown', 0) + 1
        if n > 3:
            raise Limit('growth steps')
        base = 0x100000000000 + (M['k'] * 16 + n) * 0x200000000
        nm = 'mem%d+%d' % (M['k'], n)
        A = Arr.var(nm).copy(base, M['size'], M['arr'], M['base']).fill(base + M['size'], d * 65536, 0)
        M.update(grown=n, base=base, name=nm, arr=A, pages=old + d, size=(old + d) * 65536, bases=M['bases'] + [base])
        return old

    def rng(self, mem, idx, cnt, wc=None):
        M = self.s.mems[mem]
        w = T_w(M)
        if w == 32 and not self.ext_index:
            self.need(T.ult(32, idx, 0x80000000))
        i, c = T.zext(w, 64, idx), T.zext(wc or w, 64, cnt)
        if M.get('native'):
            self.need(T.b_and(T.ule(64, M['base'], i), T.ule(64, i, M['base'] + M['size'])))
            self.need(T.ule(64, c, T.sub(64, M['base'] + M['size'], i)))
            return i
        self.need(T.ule(64, i, M['size']))
        self.need(T.ule(64, c, T.sub(64, M['size'], i)))
        return T.add(64, M['base'], i)

    def docall(self, n, fidx, p, stack):
        k = len(p)
        args = stack[len(stack) - k:] if k else []
        del stack[len(stack) - k:]
        if n == 'return_call':
            raise _Tail(fidx, args)
        stack.extend(self.invoke(fidx, args))

    def ea(self, mem, idx, off, nb):
        M = self.s.mems[mem]
        if M['is64']:
            self.need(T.ule(64, idx, T.MASK[62]))
            a = T.add(64, idx, off)
            if M.get('native'):
                self.need(T.b_and(T.ule(64, M['base'], a), T.ule(64, a, M['base'] + M['size'] - nb)))
                return a
        else:
            if not self.ext_index:
                self.need(T.ult(32, idx, 0x80000000))
            a = T.add(64, T.zext(32, 64, idx), off)
        self.need(T.ule(64, a, M['size'] - nb))
        return T.add(64, a, M['base'])


def T_w(M):
    return 64 if M['is64'] else 32


class _Tail(Exception):
    def __init__(self, f, args):
        self.f, self.args = f, args


def layout(types, align, off=0):
    """frame offsets of a sequence of values; returns (list of offsets, end)"""
    out = []
    for t in types:
        n = W[t] // 8
        if align:
            off = (off + n - 1) & ~(n - 1)
        out.append(off)
        off += n
    return out, off
