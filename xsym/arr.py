"""Byte arrays over 64-bit addresses as persistent chains of writes over an SMT array variable."""
import z3
import term as T


class Arr:
    __slots__ = ('kind', 'up', 'a', 'n', 'v', 's', 'base', 'memo')

    def __init__(self, kind, up=None, a=None, n=None, v=None, s=None, base=None):
        self.kind, self.up, self.a, self.n, self.v, self.s, self.base = kind, up, a, n, v, s, base
        self.memo = {}

    @staticmethod
    def var(name):
        return Arr('base', base=z3.Array(name, z3.BitVecSort(64), z3.BitVecSort(8)))

    @staticmethod
    def zero():
        return Arr('const', v=0)

    def store(self, addr, n, v):
        """n <= 8 bytes of v, little endian"""
        return Arr('st', self, T.simp(addr), n, v)

    def fill(self, addr, n, v):
        """n (hybrid, 64 bit) bytes of value v (8 bit)"""
        if type(n) is int and n == 0:
            return self
        return Arr('fill', self, T.simp(addr), T.simp(n), v)

    def copy(self, addr, n, src, saddr):
        if type(n) is int and n == 0:
            return self
        return Arr('copy', self, T.simp(addr), T.simp(n), T.simp(saddr), src)

    def load(self, addr, n):
        addr = T.simp(addr)
        k = (addr if type(addr) is int else addr.get_id(), n)
        m = self.memo.get(k)
        if m is not None:
            return m[1]
        x = self
        # whole-word hit
        while x.kind == 'st':
            d = _diff(addr, x.a)
            if type(d) is int:
                if d == 0 and x.n == n:
                    self.memo[k] = (addr, x.v)
                    return x.v
                if d < (1 << 63) and d + n <= x.n:
                    r = T.ext(8 * x.n, x.v, 8 * (d + n) - 1, 8 * d)
                    self.memo[k] = (addr, r)
                    return r
                if (d < (1 << 63) and d >= x.n) or (d >= (1 << 63) and (d - (1 << 64)) + n <= 0):
                    x = x.up
                    continue
            break
        parts = [(8, x.byte(T.simp(T.add(64, addr, i)))) for i in range(n - 1, -1, -1)]
        r = T.concat(parts)
        self.memo[k] = (addr, r)
        return r

    def byte(self, addr):
        """addr simplified"""
        k = addr if type(addr) is int else addr.get_id()
        m = self.memo.get(k)
        if m is not None:
            return m[1]
        r = self._byte(addr)
        self.memo[k] = (addr, r)
        return r

    def _byte(self, addr):
        if self.kind == 'base':
            return T.norm(z3.Select(self.base, T.bv(64, addr)))
        if self.kind == 'const':
            return self.v
        d = _diff(addr, self.a)
        if self.kind == 'st':
            n = self.n
            if type(d) is int:
                if d < n:
                    return T.ext(8 * n, self.v, 8 * d + 7, 8 * d)
                return self.up.byte(addr)
            r = self.up.byte(addr)
            for i in range(n):
                r = T.ite(T.eq(64, d, i), 8, T.ext(8 * n, self.v, 8 * i + 7, 8 * i), r)
            return r
        c = T.simp(T.ult(64, d, self.n))
        if self.kind == 'fill':
            if c is True:
                return self.v
            if c is False:
                return self.up.byte(addr)
            return T.ite(c, 8, self.v, self.up.byte(addr))
        if c is False:
            return self.up.byte(addr)
        v = self.s.byte(T.simp(T.add(64, self.v, d)))
        if c is True:
            return v
        return T.ite(c, 8, v, self.up.byte(addr))

    def touched(self):
        """number of writes above the base"""
        n, x = 0, self
        while x.up is not None:
            n += 1
            x = x.up
        return n


def _diff(a, b):
    if type(a) is int and type(b) is int:
        return (a - b) & T.MASK[64]
    return T.simp(T.sub(64, a, b))
