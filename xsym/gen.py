"""Building blocks for generated wasm programs."""
import random
from wasm import Module, Func, NUM, LOADS, STORES, W

EDGE = {'i': [0, 1, 0xffffffff, 0x7fffffff, 0x80000000, 31, 32, 33, 0x80, 0xff, 0x8000, 0xffff, 0x12345678, 0xfffffffe, 0x80000001],
        'I': [0, 1, 0xffffffffffffffff, 0x7fffffffffffffff, 0x8000000000000000, 63, 64, 32, 0x80000000, 0xffffffff, 0x7fffffff,
              0x100000000, 0xffffffff80000000, 0xffffffff7fffffff, 0x123456789abcdef0, 0xff, 0x8000],
        'f': [0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 1, 0x807fffff, 0x4b000001,
              0x3f000000, 0x4effffff],
        'F': [0, 0x8000000000000000, 0x3ff0000000000000, 0xbff0000000000000, 0x7ff0000000000000, 0xfff0000000000000,
              0x7ff8000000000000, 0x7ff0000000000001, 1, 0x800fffffffffffff, 0x4330000000000001, 0x3fe0000000000000,
              0x41dfffffffc00000]}
CONST = {'i': 'i32.const', 'I': 'i64.const', 'f': 'f32.const', 'F': 'f64.const'}
LOAD = {'i': 'i32.load', 'I': 'i64.load', 'f': 'f32.load', 'F': 'f64.load'}
STORE = {'i': 'i32.store', 'I': 'i64.store', 'f': 'f32.store', 'F': 'f64.store'}
TS = 'iIfF'


class FB:
    """function builder: params and locals are created on demand, numbered at the end"""

    def __init__(self, mem='m0'):
        self.m = Module()
        self.dmem = mem
        self.params, self.locals = [], []
        self.pre = []
        self.body = []
        self.results = ''
        self.memk = {}
        self.glob = {}
        self.hosts = {}
        self.imports = {'func': [], 'memory': [], 'global': [], 'table': []}
        self.consts = 0

    def p(self, t):
        self.params.append(t)
        return ('P', len(self.params) - 1)

    def l(self, t):
        self.locals.append(t)
        return ('L', len(self.locals) - 1)

    def mem(self, name=None, is64=False):
        name = name or self.dmem
        if name not in self.memk:
            assert not self.m.memories
            if name == 'native':
                self.imports['memory'].append(('env', name, 'memory', (0, None, True)))
                self.memk[name] = len(self.memk)
                return self.memk[name]
            mx = None if name in ('m0', 'm1', 'm4', 'm6') else 65536
            self.imports['memory'].append(('env', name, 'memory', (0, mx, is64)))
            self.memk[name] = len(self.memk)
        return self.memk[name]

    def own(self, name, init, mx, is64=False):
        """own memory (after every imported one)"""
        self.m.memories.append((init, mx, is64))
        self.memk[name] = len(self.memk)
        return self.memk[name]

    def glo(self, t, k=0):
        key = (t, k)
        if key not in self.glob:
            n = len(self.glob)
            self.imports['global'].append(('env', 'g%d' % n, 'global', (t, True)))
            self.glob[key] = n
        return self.glob[key]

    def host(self, p, r):
        key = (p, r)
        if key not in self.hosts:
            n = len(self.hosts)
            self.imports['func'].append(('env', 'h%d:%s:%s' % (n, p, r), 'func', (p, r)))
            self.hosts[key] = n
        return self.hosts[key]

    def xfunc(self, mod, field, p, r):
        """function imported from another generated module"""
        key = ('x', mod, field)
        if key not in self.hosts:
            n = len(self.hosts)
            self.imports['func'].append((mod, field, 'func', (p, r)))
            self.hosts[key] = n
        return self.hosts[key]

    def resolve(self, body):
        out = []
        np_ = len(self.params)
        for ins in body:
            if ins[0] in ('local.get', 'local.set', 'local.tee') and type(ins[1]) is tuple:
                k, n = ins[1]
                out.append((ins[0], n if k == 'P' else np_ + n))
            elif ins[0] in ('block', 'loop'):
                out.append((ins[0], ins[1], self.resolve(ins[2])))
            elif ins[0] == 'if':
                out.append((ins[0], ins[1], self.resolve(ins[2])) + ((self.resolve(ins[3]),) if len(ins) > 3 and ins[3] is not None else ()))
            else:
                out.append(ins)
        return out

    def done(self, results=None):
        if results is not None:
            self.results = results
        for k in ('func', 'table', 'memory', 'global'):
            self.m.imports += self.imports[k]
        self.m.funcs.insert(0, Func(''.join(self.params), self.results, ''.join(self.locals), self.resolve(self.pre + self.body)))
        return self.m

    # ---- operands: instruction lists that leave one value of type t
    def operand(self, kind, t, c=None):
        get = lambda: [('local.get', self.p(t))]
        if kind == 'p':
            return get()
        if kind == 'c':
            return [(CONST[t], c)]
        if kind == 'l':
            L = self.l(t)
            self.pre += get() + [('local.set', L)]
            return [('local.get', L)]
        if kind == 't':
            return get() + self.mix(t)
        if kind == 'm':
            self.consts += 8
            return [('i32.const', 0x1000 + self.consts), (LOAD[t], 8, self.mem())]
        if kind == 'M':                      # load through a symbolic index
            return [('local.get', self.p('i')), (LOAD[t], 4, self.mem())]
        if kind == 'g':
            return [('global.get', self.glo(t))]
        if kind == 'k':
            return get() + [('call', self.host(t, t))]
        if kind == 's':                      # temporary pushed below more values than there are registers
            out = get() + self.mix(t)
            return out + self.pressure('i' if t in 'iI' else 'F', 14 if t in 'iI' else 17)
        if kind == 'b':                      # value of a block
            return [('block', t, get() + self.mix(t))]
        if kind == 'F':                      # comparison flag
            return [('local.get', self.p('i')), ('local.get', self.p('i')), ('i32.lt_s',)]
        if kind == 'Z':
            return [('local.get', self.p('I')), ('i64.eqz',)]
        if kind == 'D':
            return [('local.get', self.p('F')), ('local.get', self.p('F')), ('f64.lt',)]
        raise ValueError(kind)

    def mix(self, t):
        """changes a value bijectively, leaving it in a temporary"""
        return {'i': [('i32.const', 0x13579bdf), ('i32.add',)], 'I': [('i64.const', 0x13579bdf02468ace), ('i64.add',)],
                'f': [('f32.neg',)], 'F': [('f64.neg',)]}[t]

    def pressure(self, t, n):
        a = self.p(t)
        out = []
        for k in range(n):
            out += [('local.get', a)] + self.mix(t)
        op = {'i': 'i32.xor', 'F': 'f64.add', 'I': 'i64.xor', 'f': 'f32.add'}[t]
        return out + [(op,)] * (n - 1) + [('drop',)]

    # ---- consumers of one value of type t on top of the operand stack: body(list) -> None, sets results
    def consume(self, kind, t, val):
        """val: instruction list producing the value"""
        if kind == 'ret':
            self.body += val
            return self.done(t)
        if kind == 'set':
            L = self.l(t)
            self.body += val + [('local.set', L), ('local.get', L)]
            return self.done(t)
        if kind == 'pset':                   # assign to a parameter, read it back twice
            P = self.p(t)
            self.body += val + [('local.set', P), ('local.get', P), ('local.get', P)]
            return self.done(t + t)
        if kind == 'tee':
            L = self.l(t)
            self.body += val + [('local.tee', L), ('drop',), ('local.get', L)]
            return self.done(t)
        if kind == 'store':
            self.body += [('i32.const', 64)] + val + [(STORE[t], 12, self.mem())]
            return self.done('')
        if kind == 'gset':
            self.body += val + [('global.set', self.glo(t, 9))]
            return self.done('')
        if kind == 'arg':
            h = self.host('I' + t + 'i', 'i')
            self.body += [('i64.const', 77)] + val + [('i32.const', 5), ('call', h)]
            return self.done('i')
        if kind == 'two':                    # value stays on the stack below another result
            self.body += val + self.operand('t', 'I')
            return self.done(t + 'I')
        if kind == 'if':
            self.body += val + [('if', 'i', [('i32.const', 11)], [('i32.const', 22)])]
            return self.done('i')
        if kind == 'brif':
            self.body += [('block', '', val + [('br_if', 0), ('i32.const', 7), ('global.set', self.glo('i', 9))])]
            return self.done('')
        if kind == 'sel':
            a, b = self.operand('p', 'I'), self.operand('t', 'I')
            self.body += a + b + val + [('select',)]
            return self.done('I')
        if kind == 'fsel':
            a, b = self.operand('p', 'F'), self.operand('t', 'F')
            self.body += a + b + val + [('select',)]
            return self.done('F')
        if kind == 'eqz':
            self.body += val + [('i32.eqz' if t == 'i' else 'i64.eqz',)]
            return self.done('i')
        if kind == 'chain':
            self.body += val + {'i': self.operand('p', 'i') + [('i32.add',)], 'I': self.operand('p', 'I') + [('i64.sub',)],
                                'f': self.operand('p', 'f') + [('f32.lt',)], 'F': self.operand('p', 'F') + [('f64.lt',)]}[t]
            return self.done('i' if t in 'fF' else t)
        if kind == 'rchain':                 # value as right operand under a live left operand
            self.body += self.operand('t', t) + val + {'i': [('i32.sub',)], 'I': [('i64.sub',)], 'f': [('f32.gt',)], 'F': [('f64.gt',)]}[t]
            return self.done('i' if t in 'fF' else t)
        if kind == 'addr':                   # value as address
            self.body += val + [('i64.load', 4, self.mem())]
            return self.done('I')
        if kind == 'wrap':
            self.body += val + [('i64.extend_i32_u',) if t == 'i' else ('i32.wrap_i64',)]
            return self.done('I' if t == 'i' else 'i')
        raise ValueError(kind)
