"""Symbolic executor for x86-64 machine code over a snapshot of a real process.

Registers, flags, memory bytes and SSE lanes are hybrid values (term.py).  Conditional branches on symbolic conditions
fork the path; the SMT solver decides feasibility.  Concrete memory comes from the snapshot; `array regions` (wasm
linear memory) are SMT arrays and admit symbolic addresses; any other symbolic address is enumerated by the solver
(exhaustively, up to a limit) and forked on."""
import os
import time
import z3
import term as T
from arr import _diff
from xdis import Dis, parse

M64 = (1 << 64) - 1
M32 = (1 << 32) - 1
PG = 4096
RET = 0x7eeeeeee0000           # magic return address
STACK_HI = 0x7ee000000000      # symbolic run's machine stack
STACK_SZ = 4 << 20
HEAP_LO = 0x7ed000000000


class Abort(Exception):
    """The path cannot be continued by this engine (unsupported instruction, limit): never a verdict."""

    def witness(self):
        """the code did something unusual here, rather than exceeding a budget: worth replaying the path's witness"""
        return str(self).startswith(('unsupported', 'undefined flag', 'symbolic instruction', 'more than', 'CF of', 'condition '))


class Bug(Exception):
    """The code did something no correct program does (invalid access, trap...)."""

    def __init__(self, kind, msg, cond=True):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind, self.msg, self.cond = kind, msg, cond


class Stop(Exception):
    """The path ends here without a verdict (assumption not satisfied)."""


DEBUG = bool(os.environ.get('XSYM_FORKS'))


class Fork(Exception):
    def __init__(self, alts):
        self.alts = alts      # list of (constraint, term, value)


class ArrRegion:
    def __init__(self, name, lo, hi):
        self.name, self.lo, self.hi = name, lo, hi


class Solver:
    """Incremental solver whose assertion stack follows the path condition of the state being explored."""

    def __init__(self, timeout_ms=20000):
        self.s = z3.Solver()
        self.s.set('timeout', timeout_ms)
        self.timeout = self.cur = timeout_ms
        self.deadline = None
        self.oneshot = 0      # ms after which a query is asked again on its own
        self.stack = []
        self.queries = 0
        self.trivial = 0
        self.time = 0.0
        self.unknown = 0
        self.sat = 0
        self.unsat = 0
        self.maxq = 0.0

    def sync(self, pc):
        st = self.stack
        n = 0
        m = min(len(st), len(pc))
        while n < m and (st[n] is pc[n]):
            n += 1
        if len(st) > n:
            self.s.pop(len(st) - n)
            del st[n:]
        for c in pc[n:]:
            self.s.push()
            self.s.add(c)
            st.append(c)

    def check(self, pc, *extra):
        """'sat' | 'unsat' | 'unknown'"""
        ex = []
        for e in extra:
            if e is False:
                self.trivial += 1
                return 'unsat'
            if e is not True:
                ex.append(e)
        t = time.time()
        want = self.timeout
        if self.deadline is not None:
            left = int((self.deadline - t) * 1000)
            if left < 30:
                self.unknown += 1
                return 'unknown'
            # coarse steps, so that the option is not set again for every query
            while want > 100 and want > left:
                want //= 2
        full = want
        if self.oneshot:
            want = min(want, self.oneshot)
        if want != self.cur:
            self.s.set('timeout', want)
            self.cur = want
        self.sync(pc)
        if ex:
            self.s.push()
            self.s.add(*ex)
        r = str(self.s.check())
        self.last = self.s.model() if r == 'sat' else None
        if ex:
            self.s.pop()
        if r == 'unknown' and full > want:
            # the same query without the increments, which is often much faster
            q = z3.SolverFor('QF_BV')
            q.set('timeout', full - want)
            q.add(*pc)
            q.add(*ex)
            r = str(q.check())
            self.last = q.model() if r == 'sat' else None
        d = time.time() - t
        self.time += d
        self.maxq = max(self.maxq, d)
        self.queries += 1
        if r == 'sat':
            self.sat += 1
        elif r == 'unsat':
            self.unsat += 1
        else:
            self.unknown += 1
        return r

    def stats(self):
        return dict(queries=self.queries, folded_by_rewriting=self.trivial, sat=self.sat, unsat=self.unsat,
                    unknown=self.unknown, solver_s=round(self.time, 2), longest_query_s=round(self.maxq, 2))


class Snapshot:
    """Memory image of the stopped runner process."""

    def __init__(self, path):
        import mmap
        import struct
        f = open(path, 'rb')
        n = struct.unpack('<Q', f.read(8))[0]
        self.segs = []
        for _ in range(n):
            lo, hi, off, prot = struct.unpack('<QQQQ', f.read(32))
            self.segs.append((lo, hi, off, prot))
        self.fsbase = struct.unpack('<Q', f.read(8))[0]
        self.mm = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
        self.cache = {}

    def prot(self, addr):
        for lo, hi, off, prot in self.segs:
            if lo <= addr < hi:
                return prot
        return None

    def page(self, no):
        a = no * PG
        for lo, hi, off, prot in self.segs:
            if lo <= a < hi:
                if off == M64:
                    return bytes(PG), prot
                p = off + (a - lo)
                return self.mm[p:p + PG], prot
        return None

    def read(self, addr, n):
        out = b''
        while n:
            pg = self.page(addr // PG)
            if pg is None:
                raise KeyError(hex(addr))
            o = addr % PG
            k = min(n, PG - o)
            out += pg[0][o:o + k]
            addr += k
            n -= k
        return out

    def u64(self, a):
        return int.from_bytes(self.read(a, 8), 'little')

    def u8(self, a):
        return self.u32(a) & 255

    def u32(self, a):
        return int.from_bytes(self.read(a, 4), 'little')

    def cstr(self, a):
        out = b''
        while True:
            b = self.read(a, 1)
            if b == b'\0':
                return out
            out += b
            a += 1


class State:
    __slots__ = ('r', 'x', 'fl', 'rip', 'pages', 'own', 'syms', 'symown', 'pc', 'arr', 'conc', 'model', 'steps',
                 'allocs', 'brk', 'user', 'trace', 'depth', 'freed')

    def clone(self):
        n = State()
        n.r = self.r[:]
        n.x = self.x[:]
        n.fl = self.fl
        n.rip = self.rip
        n.pages = dict(self.pages)
        n.own = set()
        self.own = set()
        n.syms = dict(self.syms)
        n.symown = set()
        self.symown = set()
        n.pc = self.pc[:]
        n.arr = dict(self.arr)
        n.conc = dict(self.conc)
        n.model = self.model
        n.steps = self.steps
        n.allocs = dict(self.allocs)
        n.freed = self.freed
        n.brk = self.brk
        n.user = {k: (v[:] if type(v) is list else dict(v) if type(v) is dict else v) for k, v in self.user.items()}
        n.trace = self.trace[:]
        n.depth = self.depth
        return n


class Exe:
    def __init__(self, snap, hooks=None, max_steps=200000, max_paths=4000, solver=None):
        self.snap = snap
        self.dis = Dis()
        self.hooks = dict(hooks or {})
        self.cache = {}
        self.bcache = {}
        self.written = set()       # pages some path wrote to: their instructions are not cached by address alone
        self.pcode = {}            # page -> addresses of the cached instructions with bytes in it
        self.solver = solver or Solver()
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.garbage = []          # list of (lo, hi, name): bytes never written hold arbitrary values
        self.arrs = []
        self.alias = False
        self.growable = {}
        self.protw = None
        self.steps = 0
        self.paths = 0
        self.deadline = None
        self.readonly = set()
        self.maxenum = 300
        self.covered = set()
        self.fresh = 0
        self._pg = {}
        self._hit = 0
        self._garb = {}
        self.symname = {}

    # ------------------------------------------------------------------ state
    def new_state(self):
        st = State()
        st.r = [0] * 16
        st.x = [(0, 0)] * 16
        st.fl = ('log', 32, 1)
        st.rip = 0
        st.pages, st.own, st.syms, st.symown = {}, set(), {}, set()
        st.pc, st.arr, st.conc = [], {}, {}
        st.model = None
        st.steps = 0
        st.allocs = {}
        st.freed = ()
        st.brk = HEAP_LO
        st.user = {}
        st.trace = []
        st.depth = 0
        return st

    def freshbv(self, name, w):
        self.fresh += 1
        return z3.BitVec('%s!%d' % (name, self.fresh), w)

    # ------------------------------------------------------------------ memory
    def _base(self, no):
        """(bytes, writable) baseline content of a page; None if unmapped"""
        p = self._pg.get(no)
        if p is None:
            a = no * PG
            for lo, hi, nm in self.garbage:
                if lo <= a < hi:
                    p = (bytes(PG), True, nm)
                    break
            else:
                b = self.snap.page(no)
                if b is None:
                    p = (None, False, None)
                else:
                    p = (b[0], bool(b[1] & 2), None)
            self._pg[no] = p
        return p

    def _garbage_page(self, st, no):
        """first touch of a garbage page: all bytes symbolic"""
        d = {}
        a = no * PG
        nm = self._base(no)[2]
        for o in range(0, PG, 8):
            t = self._garb.get(a + o)
            if t is None:
                t = self._garb[a + o] = z3.BitVec('%s_%x' % (nm, a + o), 64)
            for i in range(8):
                d[o + i] = (t, i)
        return d

    def _page_r(self, st, no):
        p = st.pages.get(no)
        if p is None:
            b = self._base(no)
            if b[0] is None:
                if HEAP_LO <= no * PG < st.brk + PG:
                    st.pages[no] = bytearray(PG)
                    st.own.add(no)
                    return st.pages[no]
                return None
            if b[2] is not None:
                st.pages[no] = bytearray(PG)
                st.own.add(no)
                st.syms[no] = self._garbage_page(st, no)
                st.symown.add(no)
                return st.pages[no]
            return b[0]
        return p

    def _page_w(self, st, no):
        if no in st.own:
            return st.pages[no]
        p = self._page_r(st, no)
        if p is None:
            return None
        if no in st.own:
            return st.pages[no]
        if no not in st.pages and not self._base(no)[1]:
            return None
        q = bytearray(p)
        st.pages[no] = q
        st.own.add(no)
        if no not in self.written:
            self.written.add(no)
            for a in self.pcode.pop(no, ()):
                self.cache.pop(a, None)
        return q

    def heapcheck(self, st, addr, n, w):
        if HEAP_LO <= addr < HEAP_LO + (1 << 36):
            lo = self._hit
            sz = st.allocs.get(lo)
            if sz is not None and lo <= addr and addr + n <= lo + sz:
                return
            for lo, sz in st.allocs.items():
                if lo <= addr and addr + n <= lo + sz:
                    self._hit = lo
                    return
            why = 'freed' if any(lo <= addr < lo + sz for lo, sz in st.freed) else 'unallocated'
            raise Bug('heap', '%s of %d bytes at %s heap address 0x%x' % ('write' if w else 'read', n, why, addr))

    def load(self, st, addr, n):
        """n bytes at concrete or symbolic addr -> hybrid value of 8n bits"""
        if type(addr) is not int:
            addr = T.norm(addr)
        if type(addr) is int:
            if self.arrs:
                for R in self.arrs:
                    if R.lo <= addr < R.hi:
                        self._arr_in(st, addr, n, False)
                        return self._arr_load(st, R, addr, n)
            no, o = divmod(addr, PG)
            if o + n <= PG:
                if addr >= HEAP_LO and addr < STACK_HI - STACK_SZ:
                    self.heapcheck(st, addr, n, False)
                p = st.pages.get(no)
                if p is None:
                    p = self._page_r(st, no)
                    if p is None:
                        raise Bug('memory', 'read of %d bytes at unmapped address 0x%x' % (n, addr))
                s = st.syms.get(no)
                if not s:
                    return int.from_bytes(p[o:o + n], 'little')
                return self._mix(p, s, o, n)
            lo = PG - o
            a = self.load(st, addr, lo)
            b = self.load(st, addr + lo, n - lo)
            return T.concat([((n - lo) * 8, b), (lo * 8, a)])
        a = self.resolve(st, addr, n, False)
        if type(a) is int:
            return self.load(st, a, n)
        return self._arr_load(st, a, addr, n)

    def _mix(self, p, s, o, n):
        e0 = s.get(o)
        if e0 is not None:
            t, i = e0
            if i == 0 and t.size() == 8 * n:
                for k in range(1, n):
                    e = s.get(o + k)
                    if e is None or e[0] is not t or e[1] != k:
                        break
                else:
                    return t
        else:
            for k in range(1, n):
                if o + k in s:
                    break
            else:
                return int.from_bytes(p[o:o + n], 'little')
        parts = []
        k = 0
        while k < n:
            e = s.get(o + k)
            if e is None:
                j = k + 1
                while j < n and (o + j) not in s:
                    j += 1
                parts.append((8 * (j - k), int.from_bytes(p[o + k:o + j], 'little')))
                k = j
            else:
                t, i = e
                j = k + 1
                while j < n:
                    e2 = s.get(o + j)
                    if e2 is None or e2[0] is not t or e2[1] != i + (j - k):
                        break
                    j += 1
                parts.append((8 * (j - k), T.ext(t.size(), t, 8 * (i + j - k) - 1, 8 * i)))
                k = j
        parts.reverse()
        return T.concat(parts)

    def store(self, st, addr, n, v):
        if type(addr) is not int:
            addr = T.norm(addr)
        if type(addr) is int:
            if self.arrs:
                for R in self.arrs:
                    if R.lo <= addr < R.hi:
                        self._arr_in(st, addr, n, True)
                        return self._arr_store(st, R, addr, n, v)
            no, o = divmod(addr, PG)
            if o + n <= PG:
                if addr >= HEAP_LO and addr < STACK_HI - STACK_SZ:
                    self.heapcheck(st, addr, n, True)
                p = st.pages[no] if no in st.own else self._page_w(st, no)
                if p is None:
                    raise Bug('memory', 'write of %d bytes at %s address 0x%x' % (
                        n, 'unmapped' if self._base(no)[0] is None else 'read-only', addr))
                s = st.syms.get(no)
                if type(v) is not int and T.kind(v) == z3.Z3_OP_BNUM:
                    v = v.as_long()
                if type(v) is int:
                    p[o:o + n] = v.to_bytes(n, 'little')
                    if s:
                        if no not in st.symown:
                            s = st.syms[no] = dict(s)
                            st.symown.add(no)
                        for k in range(o, o + n):
                            s.pop(k, None)
                else:
                    if no not in st.symown:
                        s = st.syms[no] = dict(s) if s else {}
                        st.symown.add(no)
                    for k in range(n):
                        s[o + k] = (v, k)
                return
            lo = PG - o
            self.store(st, addr, lo, T.ext(8 * n, v, 8 * lo - 1, 0))
            self.store(st, addr + lo, n - lo, T.ext(8 * n, v, 8 * n - 1, 8 * lo))
            return
        a = self.resolve(st, addr, n, True)
        if type(a) is int:
            return self.store(st, a, n, v)
        self._arr_store(st, a, addr, n, v)

    def _arr_in(self, st, addr, n, w):
        av = st.user.get('arvalid')
        if av is not None and not any(lo <= addr and addr + n <= hi for lo, hi in av):
            raise Bug('memory', '%s of %d bytes at 0x%x outside the mapped memory' % ('write' if w else 'read', n, addr))

    def _arr_load(self, st, R, addr, n):
        if type(st.arr.get(R.name, '')) is str:
            raise Bug('memory', 'read of a memory area that was moved')
        if self.alias and n == 8:
            return self._alias_load(st, st.arr[R.name], addr)
        return st.arr[R.name].load(addr, n)

    def _alias_load(self, st, A, addr):
        """8 bytes from a memory that is used in whole words: for every earlier write the solver decides whether it is the one that is read
        (both outcomes are explored when both are possible); a load that may overlap a write only in part is left to the byte-wise semantics"""
        addr = T.simp(addr)
        x = A
        while x.kind == 'st':
            d = _diff(addr, x.a)
            if type(d) is int:
                if d == 0 and x.n == 8:
                    return x.v
                if x.n <= d <= (1 << 64) - 8:
                    x = x.up
                    continue
                return x.load(addr, 8)
            e = st.conc.get(('al', d.get_id(), x.n))
            if e is None:
                dis = z3.And(z3.ULE(T.bv(64, x.n), d), z3.ULE(d, T.bv(64, (1 << 64) - 8)))
                m = self.get_model(st)
                apart = z3.is_true(m.eval(dis, model_completion=True))
                r = self.solver.check(st.pc, z3.Not(dis) if apart else dis)
                if r == 'unknown':
                    raise Abort('unknown on an alias query')
                if r == 'sat':
                    raise Fork([(dis, None, None), (z3.Not(dis), None, None)])
                e = 'no'
                if not apart:
                    r = self.solver.check(st.pc, d != 0) if x.n == 8 else 'sat'
                    if r == 'unknown':
                        raise Abort('unknown on an alias query')
                    e = 'yes' if r == 'unsat' else 'part'
                st.conc[('al', d.get_id(), x.n)] = (d, e)
            else:
                e = e[1]
            if e == 'yes':
                return x.v
            if e == 'part':
                return x.load(addr, 8)
            x = x.up
        return x.load(addr, 8)

    def _arr_store(self, st, R, addr, n, v):
        if type(st.arr.get(R.name, '')) is str:
            raise Bug('memory', 'write to a memory area that was moved')
        st.arr[R.name] = st.arr[R.name].store(addr, n, v)

    def resolve(self, st, addr, n, w):
        """a concrete address (unique under the path condition) or the array region that contains it"""
        av = st.user.get('arvalid')
        if av is not None:
            e = st.conc.get(('av', addr.get_id(), n, av))
            if e is not None:
                return e[1]
        e = st.conc.get(addr.get_id())
        if e is not None and (av is None or e[1] not in self.arrs):
            return e[1]
        sa = T.simp(addr)
        if type(sa) is int:
            return sa
        m = self.get_model(st)
        v = m.eval(addr, model_completion=True).as_long()
        for R in self.arrs:
            if R.lo <= v < R.hi and av is not None:
                bad = z3.Not(z3.Or([z3.And(z3.ULE(T.bv(64, lo), addr), z3.ULE(addr, T.bv(64, hi - n))) for lo, hi in av if hi - lo >= n] + [False]))
                r = self.solver.check(st.pc, bad)
                if r == 'unknown':
                    raise Abort('unknown on a bounds query')
                if r == 'sat':
                    v2 = self.solver.last.eval(addr, model_completion=True).as_long()
                    raise Bug('memory', '%s of %d bytes outside the mapped memory (e.g. 0x%x)' % ('write' if w else 'read', n, v2), bad)
                st.conc[('av', addr.get_id(), n, av)] = (addr, R)
                return R
            if R.lo <= v < R.hi:
                bad = z3.Not(z3.And(z3.ULE(T.bv(64, R.lo), addr), z3.ULE(addr, T.bv(64, R.hi - n))))
                r = self.solver.check(st.pc, bad)
                if r == 'unsat':
                    st.conc[addr.get_id()] = (addr, R)
                    return R
                if r == 'unknown':
                    raise Abort('unknown on a bounds query')
                v2 = self.solver.last.eval(addr, model_completion=True).as_long()
                if not any(Q.lo <= v2 < Q.hi for Q in self.arrs):
                    raise Bug('memory', '%s of %d bytes outside the memory it is addressed to (e.g. 0x%x)'
                              % ('write' if w else 'read', n, v2), bad)
                raise Fork([(z3.Not(bad), None, None), (bad, None, None)])
        vals = []
        cons = []
        while True:
            r = self.solver.check(st.pc, *cons)
            if r == 'unsat':
                break
            if r == 'unknown':
                raise Abort('unknown while enumerating an address')
            v = self.solver.last.eval(addr, model_completion=True).as_long()
            vals.append(v)
            cons.append(addr != v)
            if len(vals) > self.maxenum:
                if self._base(v // PG)[0] is None and not (HEAP_LO <= v < st.brk):
                    raise Bug('memory', 'access at unmapped address 0x%x' % v, addr == v)
                raise Abort('more than %d values for an address (e.g. 0x%x, 0x%x)' % (self.maxenum, v, vals[0]))
        if len(vals) == 1:
            st.conc[addr.get_id()] = (addr, vals[0])
            return vals[0]
        raise Fork([(addr == v, addr, v) for v in vals])

    def concretize(self, st, t):
        """unique concrete value of t on this path; forks over all its values otherwise"""
        if type(t) is int:
            return t
        a = self.resolve_any(st, t)
        return a

    def target(self, st, t):
        """concrete target of a jump, call or return"""
        return t if type(t) is int else self.resolve_any(st, t, True)

    def resolve_any(self, st, t, code=False):
        e = st.conc.get(t.get_id())
        if e is not None:
            return e[1]
        s = T.simp(t)
        if type(s) is int:
            return s
        vals, cons = [], []
        while True:
            r = self.solver.check(st.pc, *cons)
            if r == 'unsat':
                break
            if r == 'unknown':
                raise Abort('unknown while enumerating a value')
            v = self.solver.last.eval(t, model_completion=True).as_long()
            if code and self._base(v // PG)[0] is None and not (HEAP_LO <= v < st.brk):
                raise Bug('memory', 'jump to unmapped address 0x%x' % v, t == v)
            vals.append(v)
            cons.append(t != v)
            if len(vals) > self.maxenum:
                raise Abort('more than %d values where one is needed' % self.maxenum)
        if len(vals) == 1:
            st.conc[t.get_id()] = (t, vals[0])
            return vals[0]
        raise Fork([(t == v, t, v) for v in vals])

    def get_model(self, st):
        if st.model is None:
            r = self.solver.check(st.pc)
            if r != 'sat':
                raise Abort('path condition is %s' % r)
            st.model = self.solver.last
        return st.model

    def assume(self, st, c):
        """add c to the path; False if it becomes infeasible"""
        c = T.simp(c)
        if c is True:
            return True
        if c is False:
            return False
        st.pc.append(c)
        if st.model is not None and z3.is_true(st.model.eval(c, model_completion=True)):
            return True
        r = self.solver.check(st.pc)
        if r == 'unsat':
            return False
        st.model = self.solver.last
        if r == 'unknown':
            raise Abort('unknown on a path condition')
        return True

    def branch(self, st, c):
        """list of (constraint or True) feasible among c, not c"""
        if type(c) is bool:
            return c
        c = T.simp(c)
        if type(c) is bool:
            return c
        m = self.get_model(st)
        v = z3.is_true(m.eval(c, model_completion=True))
        other = T.b_not(c) if v else c
        r = self.solver.check(st.pc, other)
        if r == 'unsat':
            return v
        if r == 'unknown':
            raise Abort('unknown on a branch')
        return c, v, self.solver.last

    # ------------------------------------------------------------------ run
    def run(self, st0, entry=None):
        """explore all paths from st0; yields (state, outcome): outcome 'ret' | Bug | Abort"""
        if entry is not None:
            st0.rip = entry
        work = [st0]
        while work:
            st = work.pop()
            if self.deadline and time.time() > self.deadline:
                yield st, Abort('time limit')
                return
            self.paths += 1
            if self.paths > self.max_paths:
                yield st, Abort('path limit')
                return
            try:
                out = self._run_path(st, work)
            except Bug as b:
                out = b
            except Abort as b:
                out = b
            except Stop:
                out = 'stop'
            yield st, out

    def _run_path(self, st, work):
        hooks = self.hooks
        cache = self.cache
        cnt = 0
        base = st.steps
        while True:
            rip = st.rip
            if rip == RET:
                st.steps = base + cnt
                self.steps += cnt
                return 'ret'
            try:
                h = hooks.get(rip)
                if h is not None:
                    h(self, st)
                    cnt += 1
                    continue
                f = cache.get(rip)
                if f is None:
                    f = self.decode(st, rip)
                st.rip = rip + f.len
                f(st)
            except Fork as fk:
                st.rip = rip
                if DEBUG:
                    print('FORK', hex(rip), len(fk.alts), [str(a[0])[:300] for a in fk.alts[:2]])
                first = True
                alts = []
                for c, t, v in fk.alts:
                    alts.append((c, t, v))
                for c, t, v in alts[1:]:
                    n = st.clone()
                    n.pc.append(c)
                    n.model = None
                    n.steps = base + cnt
                    if t is not None:
                        n.conc[t.get_id()] = (t, v)
                    if self.solver.check(n.pc) == 'sat':
                        n.model = self.solver.last
                        work.append(n)
                c, t, v = alts[0]
                st.pc.append(c)
                st.model = None
                if t is not None:
                    st.conc[t.get_id()] = (t, v)
                continue
            except _Jcc as j:
                n = st.clone()
                c, v = j.c, j.v
                if DEBUG:
                    print('JCC', hex(rip), str(c)[:300])
                # the current model follows v; the other side has its own model
                other = T.b_not(c) if v else c
                n.pc.append(T.toz3b(other))
                n.model = j.m
                n.rip = j.no if v else j.yes
                n.steps = base + cnt
                work.append(n)
                st.pc.append(T.toz3b(c if v else T.b_not(c)))
                st.rip = j.yes if v else j.no
            except Bug as b:
                st.rip = rip
                b.rip = rip
                self.steps += cnt
                raise
            cnt += 1
            if cnt & 63 == 0 and self.deadline and time.time() > self.deadline:
                self.steps += cnt
                raise Abort('time limit')
            if base + cnt > self.max_steps:
                self.steps += cnt
                raise Abort('step limit %d' % self.max_steps)

    def code_bytes(self, st, rip):
        """(bytes, written since the snapshot, {position: (term, byte index)} of symbolic bytes)"""
        out = bytearray()
        dirty = False
        sy = None
        n = 16
        a = rip
        while n:
            no, o = divmod(a, PG)
            p = st.pages.get(no)
            if p is None:
                b = self._base(no)
                if b[0] is None or b[2] is not None:
                    break
                p = b[0]
            else:
                dirty = True
            if no in self.written:
                dirty = True
            k = min(n, PG - o)
            s = st.syms.get(no)
            if s:
                for i in range(k):
                    if o + i in s:
                        sy = sy or {}
                        sy[len(out) + i] = s[o + i]
            out += p[o:o + k]
            a += k
            n -= k
        return bytes(out), dirty, sy

    def decode(self, st, rip):
        code, dirty, sy = self.code_bytes(st, rip)
        if sy:
            return self.decode_sym(st, rip, bytearray(code), sy)
        if dirty:
            f = self.bcache.get((rip, code))
            if f is not None:
                return f
        n, text = self.dis.one(code, rip)
        if n == 0:
            raise Bug('code', 'invalid instruction at 0x%x: %s' % (rip, code.hex()))
        f = build(self, rip, n, text)
        if dirty:
            self.bcache[(rip, code)] = f
        else:
            self.cache[rip] = f
            for no in {rip // PG, (rip + n - 1) // PG}:
                self.pcode.setdefault(no, []).append(rip)
        return f

    FILL = bytes.fromhex('5b39a7c6d1824e7395ea2d616fb48c17')

    def decode_sym(self, st, rip, code, sy):
        """instruction whose immediate or displacement bytes are symbolic; symbolic opcode bytes fork"""
        sy = dict(sy)
        for i, (t, j) in list(sy.items()):
            x = T.ext(t.size(), t, 8 * j + 7, 8 * j)
            e = (None, x) if type(x) is int else st.conc.get(x.get_id())
            if e is not None:
                code[i] = e[1]
                del sy[i]
        if not sy:
            n, text = self.dis.one(bytes(code), rip)
            if n == 0:
                raise Bug('code', 'invalid instruction at 0x%x: %s' % (rip, code.hex()))
            return build(self, rip, n, text)
        first = min(sy)
        n, text = self.dis.one(bytes(code[:first]), rip)
        if n and n <= first:
            n2, text2 = self.dis.one(bytes(code[:n]), rip)
            if n2 == n:
                return build(self, rip, n, text)
        for i in sy:
            code[i] = self.FILL[i]
        n, text = self.dis.one(bytes(code), rip)
        if n == 0:
            return self.pick_code(st, rip, sy[first], text)
        mine = sorted(i for i in sy if i < n)
        if not mine:
            return build(self, rip, n, text)

        def field(o, k):
            """term of k code bytes at o"""
            parts = []
            for i in range(o + k - 1, o - 1, -1):
                if i in sy:
                    t, j = sy[i]
                    parts.append((8, T.ext(t.size(), t, 8 * j + 7, 8 * j)))
                else:
                    parts.append((8, code[i]))
            return T.concat(parts)

        def sx(b):
            return int.from_bytes(b, 'little', signed=True)
        mn, pre, ops = parse(text)
        got = set()
        for q, op in enumerate(ops):
            if type(op) is tuple and op[0] == 'i':
                for k in (8, 4, 2, 1):
                    if k < n and any((sx(code[n - k:n]) - op[1]) % (1 << w) == 0 for w in (64, 32, 16) if w >= 8 * k) or \
                            k == 1 and (sx(code[n - k:n]) - op[1]) % 256 == 0:
                        if mine[0] >= n - k:
                            ops[q] = ('I', field(n - k, k), 8 * k)
                            got |= set(range(n - k, n))
                        break
            elif type(op) is tuple and op[0] == 'm' and op[5]:
                for o in range(1, n):
                    for k in (4, 1):
                        if o + k <= n and sx(code[o:o + k]) == op[5] and any(o <= i < o + k for i in mine):
                            ops[q] = op[:5] + (T.sext(8 * k, 64, field(o, k)),) + op[6:]
                            got |= set(range(o, o + k))
                            break
                    else:
                        continue
                    break
        if not set(mine) <= got:
            return self.pick_code(st, rip, sy[first], text)
        return build(self, rip, n, text, (mn, pre, ops))

    def pick_code(self, st, rip, b, text):
        t, j = b
        m, self.maxenum = self.maxenum, 16
        try:
            x = T.ext(t.size(), t, 8 * j + 7, 8 * j)
            st.conc[x.get_id()] = (x, self.resolve_any(st, x))
        except Abort as e:
            raise Abort('symbolic instruction bytes in %s: %s' % (text, e))
        finally:
            self.maxenum = m
        return self.decode(st, rip)

    # ------------------------------------------------------------------ helpers for hooks
    def ret(self, st, val=None):
        sp = st.r[4]
        st.rip = self.load(st, sp, 8)
        st.r[4] = T.add(64, sp, 8)
        if val is not None:
            st.r[0] = val

    def push(self, st, v):
        st.r[4] = T.sub(64, st.r[4], 8)
        self.store(st, st.r[4], 8, v)


class _Jcc(Exception):
    def __init__(self, c, v, m, yes, no):
        self.c, self.v, self.m, self.yes, self.no = c, v, m, yes, no


# ---------------------------------------------------------------------- flags
def CF(fl):
    k = fl[0]
    if k == 'sub':
        return T.ult(fl[1], fl[2], fl[3])
    if k == 'add':
        return T.ult(fl[1], fl[4], fl[2])
    if k == 'log':
        return False
    if k == 'ex':
        return _need(fl[1], 'CF')
    if k == 'inc' or k == 'dec':
        return CF(fl[3])
    if k == 'sh':
        return _need(fl[3], 'CF')
    if k == 'ite':
        return T.b_ite(fl[1], CF(fl[2]), CF(fl[3]))
    if k == 'imul':
        return OF(fl)
    if k == 'adc':
        w, a, b, c = fl[1:5]
        t = T.add(w + 1, T.add(w + 1, T.zext(w, w + 1, a), T.zext(w, w + 1, b)), T.zext(1, w + 1, T.b2v(1, c)))
        return T.eq(1, T.ext(w + 1, t, w, w), 1)
    if k == 'sbb':
        w, a, b, c = fl[1:5]
        return T.b_or(T.ult(w, a, b), T.b_and(c, T.eq(w, a, b)))
    raise Abort('CF of ' + k)


def _need(v, n):
    if v is None:
        raise Abort('undefined flag %s used' % n)
    return v


def RES(fl):
    k = fl[0]
    if k in ('sub', 'add'):
        return fl[1], fl[4]
    if k in ('log', 'inc', 'dec', 'sh'):
        return fl[1], fl[2]
    if k in ('adc', 'sbb'):
        return fl[1], fl[5]
    return None


def ZF(fl):
    k = fl[0]
    if k == 'sub':
        return T.eq(fl[1], fl[2], fl[3])
    if k == 'ex':
        return _need(fl[2], 'ZF')
    if k == 'ite':
        return T.b_ite(fl[1], ZF(fl[2]), ZF(fl[3]))
    w, r = RES(fl)
    return T.eq(w, r, 0)


def SF(fl):
    k = fl[0]
    if k == 'ex':
        return _need(fl[3], 'SF')
    if k == 'ite':
        return T.b_ite(fl[1], SF(fl[2]), SF(fl[3]))
    w, r = RES(fl)
    return T.slt(w, r, 0)


def OF(fl):
    k = fl[0]
    if k == 'ex':
        return _need(fl[4], 'OF')
    if k == 'log':
        return False
    if k == 'ite':
        return T.b_ite(fl[1], OF(fl[2]), OF(fl[3]))
    if k == 'sh':
        return _need(fl[4], 'OF')
    if k == 'imul':
        w, a, b, r = fl[1:5]
        full = T.mul(2 * w, T.sext(w, 2 * w, a), T.sext(w, 2 * w, b))
        return T.b_not(T.eq(2 * w, full, T.sext(w, 2 * w, r)))
    w, r = RES(fl)
    if k == 'inc':
        return T.eq(w, r, 1 << (w - 1))
    if k == 'dec':
        return T.eq(w, r, (1 << (w - 1)) - 1)
    a, b = fl[2], fl[3]
    if k in ('add', 'adc'):
        x = T.and_(w, T.xor(w, a, r), T.xor(w, b, r))
    else:
        x = T.and_(w, T.xor(w, a, b), T.xor(w, a, r))
    return T.slt(w, x, 0)


def PF(fl):
    k = fl[0]
    if k == 'ex':
        return _need(fl[5], 'PF')
    if k == 'ite':
        return T.b_ite(fl[1], PF(fl[2]), PF(fl[3]))
    w, r = RES(fl)
    b = T.ext(w, r, 7, 0)
    x = 0
    for i in range(8):
        x = T.xor(1, x, T.ext(8, b, i, i))
    return T.eq(1, x, 0)


def cond(cc, fl):
    k = fl[0]
    if k == 'sub':
        w, a, b = fl[1:4]
        if cc in ('b', 'c', 'nae'):
            return T.ult(w, a, b)
        if cc in ('ae', 'nb', 'nc'):
            return T.b_not(T.ult(w, a, b))
        if cc in ('be', 'na'):
            return T.b_not(T.ult(w, b, a))
        if cc in ('a', 'nbe'):
            return T.ult(w, b, a)
        if cc == 'l':
            return T.slt(w, a, b)
        if cc == 'ge':
            return T.b_not(T.slt(w, a, b))
        if cc == 'le':
            return T.b_not(T.slt(w, b, a))
        if cc == 'g':
            return T.slt(w, b, a)
    if cc in ('e', 'z'):
        return ZF(fl)
    if cc in ('ne', 'nz'):
        return T.b_not(ZF(fl))
    if cc == 's':
        return SF(fl)
    if cc == 'ns':
        return T.b_not(SF(fl))
    if cc == 'o':
        return OF(fl)
    if cc == 'no':
        return T.b_not(OF(fl))
    if cc in ('p', 'pe'):
        return PF(fl)
    if cc in ('np', 'po'):
        return T.b_not(PF(fl))
    if cc in ('b', 'c'):
        return CF(fl)
    if cc in ('ae', 'nc', 'nb'):
        return T.b_not(CF(fl))
    if cc in ('be', 'na'):
        return T.b_or(CF(fl), ZF(fl))
    if cc in ('a', 'nbe'):
        return T.b_not(T.b_or(CF(fl), ZF(fl)))
    if cc in ('l', 'nge'):
        return T.b_xor(SF(fl), OF(fl))
    if cc in ('ge', 'nl'):
        return T.b_not(T.b_xor(SF(fl), OF(fl)))
    if cc in ('le', 'ng'):
        return T.b_or(ZF(fl), T.b_xor(SF(fl), OF(fl)))
    if cc in ('g', 'nle'):
        return T.b_not(T.b_or(ZF(fl), T.b_xor(SF(fl), OF(fl))))
    raise Abort('condition ' + cc)


CCS = {'a', 'ae', 'b', 'be', 'c', 'e', 'g', 'ge', 'l', 'le', 'na', 'nae', 'nb', 'nbe', 'nc', 'ne', 'ng', 'nge', 'nl',
       'nle', 'no', 'np', 'ns', 'nz', 'o', 'p', 'pe', 'po', 's', 'z'}

from isa import build  # noqa: E402
