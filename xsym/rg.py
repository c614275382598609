"""Random well-typed programs: nested control flow, locals, calls, globals, memory, references."""
import random
from gen import *

BIN = {'i': ['i32.add', 'i32.sub', 'i32.xor', 'i32.and', 'i32.or', 'i32.shl', 'i32.shr_u', 'i32.mul'],
       'I': ['i64.add', 'i64.sub', 'i64.xor', 'i64.and', 'i64.or', 'i64.shl', 'i64.shr_s', 'i64.mul'],
       'f': ['f32.copysign'], 'F': ['f64.copysign']}
UN = {'i': ['i32.extend8_s', 'i32.extend16_s'], 'I': ['i64.extend32_s', 'i64.extend16_s'], 'f': ['f32.neg', 'f32.abs'], 'F': ['f64.neg', 'f64.abs']}
CVT = {'i': [('I', 'i32.wrap_i64'), ('f', 'i32.reinterpret_f32')], 'I': [('i', 'i64.extend_i32_u'), ('i', 'i64.extend_i32_s'), ('F', 'i64.reinterpret_f64')],
       'f': [('i', 'f32.reinterpret_i32')], 'F': [('I', 'f64.reinterpret_i64')]}
CMP = {'i': ['i32.eq', 'i32.ne', 'i32.lt_s', 'i32.lt_u', 'i32.gt_s', 'i32.ge_u', 'i32.le_s'], 'I': ['i64.eq', 'i64.ne', 'i64.lt_s', 'i64.gt_u', 'i64.le_u']}


class RG:
    def __init__(self, rnd, params=None, locals_=None, results=None, branches=5, calls=2, mem=True, globs=True, funcs=None, size=40,
                 refs=False, loops=1, heavy=0, hosts=True, mems=('m0',), tail=False, dense=False, loopy=False):
        self.r, self.b = rnd, FB()
        self.br, self.calls, self.loops = branches, calls, loops
        self.mem, self.globs, self.hosts, self.mems, self.tail = mem, globs, hosts, mems, tail
        self.size = size
        self.dense, self.loopy = dense, loopy
        self.funcs = funcs or []            # callable local functions: (index offset, params, results)
        self.T = list('iiIIfF') + (['r'] if refs else [])
        self.P = [self.b.p(t) for t in (params if params is not None else self.types(0, 5))]
        self.Lo = [self.b.l(t) for t in (locals_ if locals_ is not None else self.types(0, 7))]
        self.results = results if results is not None else ''.join(self.types(0, 3))
        self.labels = []                    # innermost last: result type string, or None for loops
        self.depth = 0
        self.junk = heavy
        self.stackn = 0
        self.counter = []

    def gname(self, t, write):
        return self.b.glo(t, self.r.randint(0, 1))

    def types(self, a, b):
        return [self.r.choice(self.T) for _ in range(self.r.randint(a, b))]

    def var(self, t):
        c = [x for x in self.P if self.b.params[x[1]] == t] + [x for x in self.Lo if self.b.locals[x[1]] == t and x not in self.counter]
        return self.r.choice(c) if c else None

    def const(self, t):
        if t == 'r':
            return [('ref.null', 'r')]
        return [(CONST[t], self.r.choice(EDGE[t]))]

    def expr(self, t, d):
        """instructions leaving one value of type t"""
        self.size -= 1
        self.stackn += 1
        try:
            return self._expr(t, d)
        finally:
            self.stackn -= 1

    def _expr(self, t, d):
        r = self.r
        v = self.var(t)
        if t == 'r' and getattr(self, 'rgl', None) and r.random() < .3:
            return [('global.get', r.choice(self.rgl))]
        if d <= 0 or self.size <= 0 or self.stackn > 20:
            if v and r.random() < .8:
                return [('local.get', v)]
            return self.const(t)
        if self.br > 0 and self.stackn > 1 and r.random() < .06:
            return self.stmts(1, d - 1) + self.expr(t, d - 1)     # statement over pending operands
        if self.dense and v:
            k = r.random()
            if k < .25:
                return [('local.get', v)]
            if k < .45:
                return self.expr(t, d - 1) + [('local.tee', v)]
            if k < .5:
                return [('local.get', v)] + self.expr1(t, d - 1) + [('local.set', v)]
        if self.loopy and self.loops > 0 and self.br > 0 and self.stackn > 1 and r.random() < .15:
            pre, code = self.counted(d + 1, r.randint(2, 3))
            return pre + [('loop', t, code + self.expr(t, d - 1))]
        k = r.random()
        if t == 'r':
            if getattr(self, 'rgl', None) and r.random() < .5:
                return [('global.get', r.choice(self.rgl))]
            if k < .6 and v:
                return [('local.get', v)]
            if k < .7:
                return self.const(t)
            if self.br > 0 and k < .85:
                return self.blockexpr(t, d)
            return [('local.get', v)] if v else self.const(t)
        if k < .22:
            return [('local.get', v)] if v else self.const(t)
        if k < .27:
            return self.const(t)
        if k < .47:
            return self.expr(t, d - 1) + self.expr1(t, d - 1) + [(r.choice(BIN[t]),)]
        if k < .52:
            return self.expr(t, d - 1) + [(r.choice(UN[t]),)]
        if k < .58:
            s, op = r.choice(CVT[t])
            return self.expr(s, d - 1) + [(op,)]
        if k < .63 and t == 'i':
            s = r.choice('iI')
            return self.expr(s, d - 1) + self.expr1(s, d - 1) + [(r.choice(CMP[s]),)]
        if k < .67 and v:
            return self.expr(t, d - 1) + [('local.tee', v)]
        if k < .72 and self.globs:
            return [('global.get', self.gname(t, False))]
        if k < .77 and self.mem:
            return [('i32.const', 0x100 + 8 * r.randint(0, 3))] + [(LOAD[t], r.choice([0, 8, 0x70]), self.b.mem(r.choice(self.mems)))]
        if k < .82 and self.calls > 0 and (self.hosts or self.funcs):
            return self.callexpr(t, d)
        if k < .87:
            return self.expr(t, d - 1) + self.expr1(t, d - 1) + self.expr1('i', d - 1, 2) + [('select', t)]
        if self.br > 0:
            return self.blockexpr(t, d)
        return self.expr(t, d - 1) + self.expr1(t, d - 1) + [(r.choice(BIN[t]),)]

    def expr1(self, t, d, n=1):
        """expression evaluated on top of n pending operands"""
        self.stackn += n
        e = self.expr(t, d)
        self.stackn -= n
        return e

    def callexpr(self, t, d):
        r = self.r
        self.calls -= 1
        c = [f for f in self.funcs if f[2] == t]
        if c and (r.random() < .6 or not self.hosts):
            k, p, _ = r.choice(c)
            return self.args(p, d) + [('call', ('F', k))]
        if not self.hosts:
            return self.const(t)
        p = ''.join(r.choice('iIfF') for _ in range(r.randint(0, 4)))
        return self.args(p, d) + [('call', self.b.host(p, t))]

    def args(self, p, d):
        out = []
        for k, t in enumerate(p):
            out += self.expr1(t, d - 1, k)
        return out

    def cond(self, d):
        return self.expr('i', min(d, 2))

    def enter(self, res, sn):
        self.labels.append((res, sn))

    def leave(self):
        self.labels.pop()

    def brval(self, t, d):
        """an optional conditional or unconditional branch with the value for some enclosing label; returns (code, dead)"""
        r = self.r
        c = [k for k in range(len(self.labels)) if self.labels[-1 - k][0] == t]
        if not c or self.br <= 0:
            return [], False
        k = r.choice(c)
        self.br -= 1
        if r.random() < .75:
            # value, condition, br_if, drop
            junk, n = self.junkvals()
            return junk + self.expr1(t, d - 1, n) + self.expr1('i', 1, n + 1) + [('br_if', k)] + [('drop',)] * (n + 1), False
        junk, n = self.junkvals()
        return junk + self.expr1(t, d - 1, n) + [('br', k)], True

    def junkvals(self):
        n = self.r.choice([0, 0, 1, 2]) + self.junk
        out = []
        for k in range(n):
            out += self.expr1(self.r.choice('iIF'), 1, k)
        return out, n

    def blockexpr(self, t, d):
        r = self.r
        self.br -= 1
        k = r.random()
        if k < .45:
            self.enter(t, 0)
            pre, dead = self.brval(t, d)
            if dead:
                pre = [('if', '', self.shift(pre, 1))] if False else []
            code = self.stmts(r.randint(0, 1), d - 1) + pre + self.expr(t, d - 1)
            self.leave()
            return [('block', t, code)]
        if k < .9:
            c = self.cond(d)
            self.enter(t, 0)
            br = []
            for _ in range(2):
                pre, dead = self.brval(t, d) if r.random() < .4 else ([], False)
                if dead:
                    br.append(self.stmts(r.randint(0, 1), d - 1) + pre)
                else:
                    br.append(self.stmts(r.randint(0, 1), d - 1) + pre + self.expr(t, d - 1))
            self.leave()
            return c + [('if', t, br[0], br[1])]
        if self.loops > 0 and r.random() < .7:                    # iterating loop with a result
            pre, code = self.counted(d, r.randint(2, 3))
            return pre + [('loop', t, code + self.expr(t, d - 1))]
        self.enter(None, 0)
        code = self.stmts(r.randint(0, 2), d - 1) + self.expr(t, d - 1)
        self.leave()
        return [('loop', t, code)]

    def counted(self, d, n):
        """initialisation and body of a loop that runs n times"""
        self.loops -= 1
        L = self.b.l('i')
        self.counter.append(L)
        self.enter(None, 0)
        body = self.stmts(self.r.randint(1, 2) + self.loopy, d - 1)
        self.leave()
        return [('i32.const', 0), ('local.set', L)], body + [('local.get', L), ('i32.const', 1), ('i32.add',), ('local.tee', L), ('i32.const', n),
                                                             ('i32.lt_u',), ('br_if', 0)]

    def stmts(self, n, d):
        out = []
        for _ in range(n):
            if self.size <= 0:
                break
            out += self.stmt(d)
        return out

    def stmt(self, d):
        r = self.r
        self.size -= 1
        k = r.random()
        if k < .34:
            t = r.choice(self.T)
            v = self.var(t)
            if v:
                return self.expr(t, d) + [('local.set', v)]
        if k < .42 and self.globs:
            t = r.choice('iIfF')
            return self.expr(t, d) + [('global.set', self.gname(t, True))]
        if k < .50 and self.mem:
            t = r.choice('iIfF')
            return [('i32.const', 0x100 + 8 * r.randint(0, 3))] + self.expr1(t, d, 1) + [(STORE[t], r.choice([0, 8, 0x70]), self.b.mem(r.choice(self.mems)))]
        if k < .56 and self.calls > 0 and self.hosts:
            self.calls -= 1
            p = ''.join(r.choice('iIfF') for _ in range(r.randint(0, 3)))
            return self.args(p, d) + [('call', self.b.host(p, ''))]
        if k < .62:
            t = r.choice(self.T)
            return self.expr(t, d) + [('drop',)]
        if d <= 0 or self.br <= 0:
            return [('nop',)]
        self.br -= 1
        if k < .72:
            c = self.cond(d)
            self.enter('', 0)
            a = self.stmts(r.randint(1, 2), d - 1)
            b = self.stmts(r.randint(1, 2), d - 1) if r.random() < .6 else None
            self.leave()
            return c + [('if', '', a) + ((b,) if b is not None else ())]
        if k < .82:
            self.enter('', 0)
            a = self.stmts(r.randint(0, 2), d - 1) + self.cond(d) + [('br_if', self.vlabel())] + self.stmts(r.randint(1, 2), d - 1)
            self.leave()
            return [('block', '', a)]
        if k < .88:                               # br_table over nested void blocks
            n = r.randint(1, 4)
            for _ in range(n):
                self.enter('', 0)
            tgt = [r.randint(0, n - 1) for _ in range(r.randint(0, 4))]
            code = self.expr('i', 1) + [('br_table', tgt, r.randint(0, n - 1))]
            for j in range(n):
                self.leave()
                code = [('block', '', code)] + self.stmts(1, d - 1)
            return code
        if k < .94 and self.loops > 0:
            pre, code = self.counted(d, r.randint(1, 3))
            return pre + [('loop', '', code)]
        if k < .97:                               # conditional return
            c = self.cond(d)
            return c + [('if', '', self.rets(1) + [('return',)])]
        c = self.cond(d)
        return [] if self.results else self.cond(d) + [('br_if', len(self.labels))]

    def vlabel(self):
        c = [k for k in range(len(self.labels)) if self.labels[-1 - k][0] == '']
        return self.r.choice(c)

    def rets(self, d):
        out = []
        for k, t in enumerate(self.results):
            out += self.expr1(t, d, k)
        return out

    def finish(self, n=4, d=3):
        """function body with n statements and the results"""
        r = self.r
        body = self.stmts(n, d)
        if len(self.results) == 1 and r.random() < .3:      # value carried to the function level
            body += self.expr(self.results, 2) + self.cond(1) + [('br_if', 0), ('drop',)]
        body += self.rets(2)
        z = r.random()
        if z < .15:
            body += [('return',)]
        elif z < .25 and len(self.results) <= 1:
            body += [('br', 0)]
        self.b.body = body
        return self.b

    def module(self, n=4, d=3):
        b = self.finish(n, d)
        b.results = self.results
        return b


def fixcalls(body, base, gbase=0):
    out = []
    for ins in body:
        if ins[0] in ('call', 'return_call', 'ref.func') and type(ins[1]) is tuple:
            out.append((ins[0], base + ins[1][1]) + tuple(ins[2:]))
        elif ins[0] in ('global.get', 'global.set') and type(ins[1]) is tuple:
            out.append((ins[0], gbase + ins[1][1]))
        elif ins[0] in ('block', 'loop'):
            out.append((ins[0], ins[1], fixcalls(ins[2], base, gbase)))
        elif ins[0] == 'if':
            out.append((ins[0], ins[1]) + tuple(fixcalls(x, base, gbase) for x in ins[2:]))
        else:
            out.append(ins)
    return out


def simple(rnd, **kw):
    """one-function module"""
    g = RG(rnd, **kw)
    n = rnd.randint(1, 5)
    b = g.finish(n, rnd.randint(2, 4))
    return b.done(g.results)
