"""Which programs each property is decided on."""
import json
import os
import random
import subprocess
import sys
import time
import tv
from tv import Prog
from gen import *
import rg
from wasm import Module, Func, NUM, LOADS, STORES, W, uleb

CFGS = [(s, m) for s in (1, 0) for m in (2, 3, 0, 1)]
DEF = (1, 2)
INT_OPS = [n for n, (op, sig) in NUM.items() if not set(sig) & set('fF') and n not in
           ('i32.wrap_i64', 'i64.extend_i32_s', 'i64.extend_i32_u')]
FLT_OPS = [n for n, (op, sig) in NUM.items() if set(sig.split(':')[0]) <= set('fF') and n[0] == 'f' and
           'promote' not in n and 'demote' not in n and 'reinterpret' not in n and 'convert' not in n]
CVT_OPS = [n for n in NUM if n not in INT_OPS and n not in FLT_OPS]
BITWISE = lambda n: n.split('.')[1] in ('neg', 'abs', 'copysign') or 'reinterpret' in n
EXACT = lambda n: BITWISE(n) or NUM[n][1][-1] in 'iI'


class TVFamily:
    level = 'translation_validation'
    want = 'value'
    batch = 20
    budget = {'quick': 20, 'thorough': 60}
    timeout_ms = {'quick': 8000, 'thorough': 30000}
    cap = {'quick': 100000, 'thorough': 1000000}

    def __init__(self, pid, gen, note=''):
        self.pid, self.gen, self.note = pid, gen, note

    def build(self, ctx):
        w = ctx['work']
        R = tv.REPO
        objs = [tv.compile_obj(w, R + '/pwart/pwart.c'), tv.compile_obj(w, R + '/sljit/sljit_src/sljitLir.c')]
        ctx['runner'] = tv.build(w, w + '/xrun', [tv.HERE + '/xrun.c', tv.HERE + '/xcore.c'], objs)
        ctx['syms'] = tv.symbols(ctx['runner'])

    def programs(self, ctx):
        rnd = random.Random(ctx['seed'])
        progs = list(self.gen(ctx['tier'] == 'thorough', rnd))
        if ctx['only']:
            progs = [p for p in progs if ctx['only'] in p.name]
        names = set()
        for p in progs:
            assert p.name not in names, p.name
            names.add(p.name)
        return progs

    def prepare(self, ctx):
        self.build(ctx)
        progs = self.programs(ctx)
        ctx['nprogs'] = len(progs)
        by = {}
        for p in progs:
            by.setdefault(p.cfg, []).append(p)
        B = []
        for c, ps in by.items():
            random.Random(5).shuffle(ps)
            n = max(1, min(self.batch, (len(ps) + 7) // 8))
            B += [[q for p in ps[i:i + n] for q in list(p.deps) + [p]] for i in range(0, len(ps), n)]
        random.Random(7).shuffle(B)
        ctx['batches'] = B
        ctx['njobs'] = len(B)
        return len(B)

    def names(self, ctx):
        return [p.name for b in ctx['batches'] for p in b]

    def run_job(self, ctx, k):
        w = os.path.join(ctx['work'], 'j%d' % k)
        os.makedirs(w, exist_ok=True)
        t0 = time.time()
        V = tv.Validator(ctx['runner'], ctx['syms'], w, 'b', self.timeout_ms[ctx['tier']], want=self.want)
        V.fp_timeout = 20000 if ctx['tier'] == 'quick' else 60000
        V.load(ctx['batches'][k])
        out = [self.row(r) for r in V.results]
        todo = [(p, c) for p, c in zip(V.progs, V.comp)]
        share = ctx.get('share') or 2.5 * max(0, ctx['deadline'] - 20 - t0) * 8 / (ctx['njobs'] - k + 8)
        for i, (p, c) in enumerate(todo):
            # fair share of the run: what earlier programs of this batch left over, at most a third of it for one program
            now = time.time()
            left = min(share - (now - t0), ctx['deadline'] - 12 - now)
            if left <= 0 and i:
                out.append(dict(name=p.name, status='inconclusive', notes=['out of time']))
                continue
            b = max(left / 3, left / (len(todo) - i), .5)
            out.append(self.row(V.check(p, c, min(self.budget[ctx['tier']], b))))
        st = V.solver.stats()
        st['instructions_executed'] = V.ex.steps if hasattr(V, 'ex') and hasattr(V.ex, 'steps') else 0
        return dict(results=out, stats=st)

    def row(self, r):
        return dict(name=r.name, status=r.status, paths=r.paths, refpaths=r.refpaths, excluded=r.excluded, cut=r.cut,
                    notes=[str(n) for n in r.notes], viol=r.viol, compared=r.compared, secs=getattr(r, 'secs', 0))

    def coverage(self, ctx, res):
        return dict(technique='symbolic execution of the machine code pwart generated for each program, compared with the '
                              'WebAssembly reference semantics by z3 for all inputs',
                    functions_encoded='every generated wasm function plus the runtime helpers it calls (executed from the machine '
                                      'code of /repo compiled in this run)',
                    programs_generated=ctx['nprogs'],
                    bounds='shapes of the listed programs; loops unrolled until the reference step bound; frame 1 MiB; %s' % self.note,
                    families=sorted({r['name'].rsplit('/', 1)[0] for r in res})[:60])

    def assumptions(self, ctx):
        return ['x86-64 Linux host build of the code generator (the only host here); x86 instruction semantics as modelled in xsym/isa.py',
                'IEEE operations are z3 floating-point theory or, when enough, uninterpreted functions shared by both sides',
                'accesses outside a memory, traps and out-of-range float-to-int conversions are excluded by the reference semantics',
                'libc functions are modelled (xsym/libc.py)', 'a host function is represented by one deterministic function that '
                'reads every argument, overwrites its frame and all caller-saved registers and mixes the results']

    def replay(self, d, work):
        """native replay of a recorded violation"""
        ctx = dict(work=work)
        self.build(ctx)
        from tv import Prog, encode_batch
        import struct
        wasm = bytes.fromhex(d['wasm'])
        mods = [(n, bytes.fromhex(h)) for n, h in d.get('deps', [])] + [('', wasm)]
        batch = struct.pack('<I', len(mods))
        for n, w in mods:
            batch += bytes(d['config']) + struct.pack('<I', len(n)) + n.encode() + struct.pack('<I', len(w)) + w + struct.pack('<I', 0)
        bf = os.path.join(work, 'r.batch')
        open(bf, 'wb').write(batch)
        lines = [('module %d' % (len(mods) - 1) if l.startswith('module ') else l) for l in d.get('replay', [])]
        open(os.path.join(work, 'r.txt'), 'w').write('\n'.join(lines) + '\n')
        r = subprocess.run([ctx['runner'], 'replay', bf, os.path.join(work, 'r.txt')], capture_output=True, text=True, timeout=60)
        print('program', d['program'], '-', d['what'])
        print('recorded native deviation:', d.get('native'))
        print('native run: exit', r.returncode)
        print(r.stdout[-3000:])
        return 1


# ============================================================================================== C01 C02 C03 numeric
def numeric(ops, srcs, consumers, consts, exact=EXACT):
    def gen(full, rnd):
        for n in ops:
            sig = NUM[n][1]
            ps, rt = sig.split(':')
            kinds1 = srcs(n, ps[0]) if n != 'i64.popcnt' or full else ['p', 't', 'c', 'k']
            combos = []
            if len(ps) == 1:
                combos = [(k,) for k in kinds1]
            else:
                combos = [(a, b) for a in kinds1 for b in srcs(n, ps[1])]
                if n.split('.')[1] in ('shl',) or True:
                    combos.append(('same',))
            cons = consumers(n, rt)
            for combo in combos:
                if full:
                    todo = [(c, g) for c in cons for g in CFGS[:4] + CFGS[4:5]]
                else:
                    cs = rnd.sample(cons, min(2 if rnd.random() < .25 or len(ps) == 1 else 1, len(cons)))
                    if 'ret' not in cs:
                        cs[0] = 'ret' if rnd.random() < .5 else cs[0]
                    todo = [(c, rnd.choice(CFGS)) for c in cs]
                cv = [None]
                if 'c' in combo:
                    k = combo.index('c')
                    ed = consts(ps[k])
                    cv = ed if full and todo else rnd.sample(ed, 3)
                for c, g in todo:
                    for v in cv:
                        b = FB()
                        if combo == ('same',):
                            L = b.l(ps[0])
                            b.pre += [('local.get', b.p(ps[0])), ('local.set', L)]
                            val = [('local.get', L), ('local.get', L), (n,)]
                        else:
                            val = []
                            for t, k in zip(ps, combo):
                                val += b.operand(k, t, v if v is not None else rnd.choice(consts(t)))
                            val.append((n,))
                        m = b.consume(c, rt, val)
                        nm = '%s/%s/%s/%d%d%s' % (n, '-'.join(combo), c, g[0], g[1], '' if v is None else '/%x' % v)
                        yield Prog(nm, m, g, exact=exact(n))
                    if not full:
                        cv = rnd.sample(consts(ps[combo.index('c')]), 2) if 'c' in combo else [None]
            # the operation on top of older live operands, which must come out unchanged
            for k in range(60 if full else 1 if n == 'i64.popcnt' else 8):
                U = rnd.choice(['I', 'i', 'II', 'iI', 'III', 'IiI', 'F', 'FI', 'IF', 'FfI', 'IIIIII', 'IFIFIF', 'IIIIIIIII'])
                g = rnd.choice(CFGS)
                b = FB()
                val, names = [], []
                for t in U:
                    val += b.operand(rnd.choice('tttgm'), t)
                for t in ps:
                    kd = rnd.choice([x for x in srcs(n, t) if x not in 'sb'] + ['t', 't', 'p', 'k'])
                    names.append(kd)
                    val += b.operand(kd, t, rnd.choice(consts(t)))
                b.body = val + [(n,)]
                yield Prog('%s/%s/under/%d%d/%s/%d' % ((n, '-'.join(names)) + g + (U, k)), b.done(U + rt), g, exact=exact(n))
    return dedupe(gen)


def dedupe(gen):
    def g(full, rnd):
        seen = set()
        for p in gen(full, rnd):
            if p.name not in seen:
                seen.add(p.name)
                yield p
    return g


def int_srcs(n, t):
    return 'p l t c m g s k b'.split() + (['F', 'Z', 'D'] if t == 'i' else [])


def int_cons(n, rt):
    c = ['ret', 'set', 'pset', 'tee', 'store', 'gset', 'arg', 'two', 'chain', 'rchain', 'eqz', 'wrap']
    if rt == 'i':
        c += ['if', 'brif', 'sel', 'fsel', 'addr']
    return c


def flt_srcs(n, t):
    return 'p l t c m g s k b'.split()


def flt_cons(n, rt):
    if rt == 'i':
        return ['ret', 'set', 'store', 'if', 'brif', 'sel', 'fsel', 'chain', 'eqz', 'gset', 'two', 'wrap']
    if BITWISE(n):
        return ['ret', 'set', 'pset', 'tee', 'store', 'gset', 'arg', 'two', 'chain']
    return ['ret', 'set', 'pset', 'tee', 'two', 'chain', 'rchain']


def cvt_cons(n, rt):
    if rt in 'iI':
        return [c for c in int_cons(n, rt) if c != 'addr' or NUM[n][1][0] in 'iI']
    return ['ret', 'set', 'pset', 'tee', 'two', 'chain'] + (['store', 'gset', 'arg'] if BITWISE(n) else [])


FAM = {}
FAM['C01'] = lambda: TVFamily('C01', numeric(INT_OPS, int_srcs, int_cons, lambda t: EDGE[t]))
FAM['C02'] = lambda: TVFamily('C02', numeric(FLT_OPS, flt_srcs, flt_cons, lambda t: EDGE[t]))
FAM['C03'] = lambda: TVFamily('C03', numeric(CVT_OPS, lambda n, t: int_srcs(n, t) if t in 'iI' else flt_srcs(n, t), cvt_cons,
                                           lambda t: EDGE[t]))


# ============================================================================================== C05 C06 random programs
def rprog(name, seed, cfg, **kw):
    rnd = random.Random(seed)
    g = rg.RG(rnd, **kw)
    n = rnd.randint(1, 5)
    b = g.finish(n, rnd.randint(2, 4))
    if not cfg[1] & 2:
        b.pre = [x for L in range(len(b.locals)) for x in (g.const(b.locals[L])[0], ('local.set', ('L', L)))] + b.pre
    return Prog(name, b.done(g.results), cfg, exact=True)


def locals_family(full, rnd):
    N = 8000 if full else 2000
    for k in range(N):
        seed = rnd.randint(0, 1 << 30)
        r = random.Random(seed)
        cfg = CFGS[k % 8]
        kw = dict(branches=r.choice([0, 0, 1]), calls=r.choice([0, 1, 3]), size=r.choice([20, 40, 70]), heavy=0, loops=0)
        z = k % 5
        T = 'iIfF'
        if z == 1:
            kw['locals_'] = [r.choice(T) for _ in range(r.randint(8, 20))]
        elif z == 2:
            kw['params'] = [r.choice(T) for _ in range(r.randint(5, 12))]
            kw['locals_'] = [r.choice('iI') for _ in range(r.randint(3, 9))]
        elif z == 3:
            kw['params'] = list('iIfF')
            kw['locals_'] = [r.choice('fF') for _ in range(r.randint(3, 12))]
        elif z == 4:
            kw['refs'] = True
        if k % 3 == 0:
            kw['dense'] = True
            if r.random() < .7:
                ty = r.choice(['i', 'I', 'F', 'iI', 'If', 'iF'])
                kw['params'] = [r.choice(ty) for _ in range(r.randint(1, 3))]
                kw['locals_'] = [r.choice(ty) for _ in range(r.randint(1, 4))]
        yield rprog('random/%d/%d%d' % ((k,) + cfg), seed, cfg, **kw)


def pending_prog(rnd, name, cfg, t, loc, depth, act):
    """a copy of a local waits on the operand stack under other entries while the local is assigned"""
    b = FB()
    others = {}
    if loc[0] == 'p':
        for _ in range(loc[1]):
            b.p(rnd.choice('iIfF'))
        L = b.p(t)
    else:
        for _ in range(loc[1]):
            x = b.l(t)
            b.pre += b.operand('p', t) + [('local.set', x)]
            others[x] = t
        L = b.l(t)
        b.pre += b.operand('p', t) + [('local.set', L)]
    body, res = [], ''
    n0 = rnd.choice([0, 0, 1, 2])

    def filler(n):
        nonlocal res
        out = []
        for _ in range(n):
            ft = rnd.choice([t, t, t, 'i', 'I', 'F', 'f'])
            k = rnd.choice('p p t t c l F Z L L'.split())
            if k in 'FZ':
                ft = 'i'
            if k == 'L':
                if others:
                    out.append(('local.get', rnd.choice(list(others))))
                else:
                    out.append(('local.get', L))
                res += t
                continue
            out += b.operand(k, ft, rnd.choice(EDGE[ft])) if k in 'ptclFZ' else []
            res += ft
        return out
    body += filler(n0)
    body += [('local.get', L)]
    res += t
    if rnd.random() < .3:
        body += filler(1) + [('local.get', L)]
        res += t
    body += filler(depth)
    val = b.operand(rnd.choice(['p', 't', 'c', 'l']), t, rnd.choice(EDGE[t])) if rnd.random() < .5 else [('local.get', L)] + b.mix(t)
    if act == 'set':
        body += val + [('local.set', L)]
    elif act == 'tee':
        body += val + [('local.tee', L)]
        res += t
    elif act == 'teedrop':
        body += val + [('local.tee', L), ('drop',)]
    elif act == 'teeset':
        x = rnd.choice(list(others)) if others else b.l(t)
        body += val + [('local.tee', L), ('local.set', x), ('local.get', x)]
        res += t
    elif act == 'block':
        body += [('block', '', val + [('local.set', L)] + b.operand('p', 'i') + [('br_if', 0)] + [('local.get', L)] + b.mix(t) + [('local.tee', L), ('drop',)])]
    elif act == 'if':
        e = [('local.get', L)] + b.mix(t) + b.mix(t) + [('local.set', L)]
        body += b.operand(rnd.choice('pF'), 'i') + [('if', '', val + [('local.set', L)], e if rnd.random() < .5 else [])]
    elif act == 'ifres':
        body += b.operand(rnd.choice('pF'), 'i') + [('if', t, val + [('local.tee', L)], [('local.get', L)])]
        res += t
    elif act == 'call':
        body += val + [('local.set', L), ('local.get', L), ('call', b.host(t, t))]
        res += t
    elif act == 'sel':
        body += [('local.get', L)] + val + [('local.tee', L)] + b.operand('p', 'i') + [('select',)]
        res += t
    body += [('local.get', L)]
    res += t
    for x in list(others)[-2:]:
        body += [('local.get', x)]
        res += t
    if cfg[1] & 2 == 0:
        for x in range(len(b.locals)):
            b.pre = [(CONST[b.locals[x]], 0), ('local.set', ('L', x))] + b.pre
    b.body = body
    return Prog(name, b.done(res), cfg, exact=True)


def pending_family(full, rnd):
    acts = 'set tee teedrop teeset block if ifres call sel'.split()
    locs = [('p', 0), ('p', 2), ('p', 5)] + [('l', k) for k in (0, 1, 2, 3, 5, 8)]
    for rep in range(4 if full else 1):
        for t in 'iIfF':
            for loc in locs:
                for act in acts:
                    for depth in (0, 1, 2, 3, 5, 8):
                        if not full and (depth in (1, 5) or loc[1] == 8) and rnd.random() < .6:
                            continue
                        cfg = rnd.choice(CFGS)
                        yield pending_prog(rnd, 'pending/%s/%s%d/%s/%d/%d/%d%d' % ((t,) + loc + (act, depth, rep) + cfg), cfg, t, loc, depth, act)


def many_family(full, rnd):
    """functions with far more locals or parameters than registers: a few are set, some of the others read"""
    for n in (30, 120, 254, 255, 256, 300, 1000, 3000):
        for np_ in (1, 3, 40):
            for cfg in rnd.sample(CFGS, 8 if full else 3):
                b = FB()
                ps = [b.p(rnd.choice('iIfF')) for _ in range(np_)]
                ls = [b.l(rnd.choice('iIfF')) for _ in range(n)]
                pick = sorted(set(rnd.sample(range(n), 5) + [0, n - 1]))
                setv = rnd.sample(pick, len(pick) - (2 if cfg[1] & 2 else 0))
                b.pre = []
                for k in setv:
                    t = b.locals[k]
                    src = [x for x, u in zip(ps, b.params) if u == t]
                    b.body += ([('local.get', rnd.choice(src))] if src else [(CONST[t], rnd.choice(EDGE[t]))]) + [('local.set', ('L', k))]
                rd = pick if cfg[1] & 2 else setv
                for k in rd:
                    b.body.append(('local.get', ('L', k)))
                yield Prog('many/%d/%d/%d%d' % ((n, np_) + cfg), b.done(''.join(b.locals[k] for k in rd)), cfg, exact=True)


def c05_family(full, rnd):
    yield from many_family(full, rnd)
    yield from pending_family(full, rnd)
    yield from locals_family(full, rnd)


def control_family(full, rnd):
    N = 8000 if full else 2000
    for k in range(N):
        seed = rnd.randint(0, 1 << 30)
        r = random.Random(seed)
        cfg = CFGS[k % 8]
        kw = dict(branches=r.choice([2, 4, 6]), calls=r.choice([0, 0, 1]), size=r.choice([25, 45, 60]), heavy=r.choice([0, 0, 0, 1]),
                  loops=r.choice([0, 1]), mem=r.random() < .3)
        if k % 4 == 0:
            kw['results'] = r.choice(['i', 'I', 'F', 'f'])
        if k % 4 == 1:
            kw.update(loopy=True, loops=r.choice([1, 2, 3]), branches=r.choice([3, 5]), size=r.choice([50, 80]))
            if r.random() < .6:
                kw['params'] = [r.choice('iI') for _ in range(r.randint(1, 3))]
        yield rprog('random/%d/%d%d' % ((k,) + cfg), seed, cfg, **kw)


FAM['C05'] = lambda: TVFamily('C05', c05_family)
FAM['C06'] = lambda: TVFamily('C06', control_family)


# ============================================================================================== C04 loads and stores
MEMS = {'m0': 0, 'm1': 0, 'm4': 0, 'm2': 0, 'm3': 0, 'm5': 0, 'm1q': 1, 'm3q': 1, 'native': 1, 'own': 0, 'ownfix': 0, 'ownq': 1, 'own1': 0}


def addmem(b, name):
    if name[0] == 'm' or name == 'native':
        return b.mem(name[:2] if name[0] == 'm' else name, name.endswith('q'))
    return b.own(name, *{'own': (1, 5, False), 'ownfix': (1, 1, False), 'ownq': (1, 4, True), 'own1': (2, None, False)}[name])


OFFS = [0, 1, 4, 7, 8, 127, 128, 4095, 0xffff, 0x10000, 0x7ffffff0, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffff0]
XOP = {'i': 'i32.add', 'I': 'i64.add'}


def memset(rnd, first=None):
    """an order of memories for one module: imported ones first"""
    ms = rnd.sample(['m0', 'm1', 'm2', 'm3', 'm4', 'm5', 'native', 'm1q', 'm3q'], rnd.randint(0, 2))
    ms += rnd.sample(['own', 'ownfix', 'ownq', 'own1'], rnd.choice([0, 0, 1, 2]))
    if first and first not in ms:
        k = rnd.randint(0, len(ms))
        ms.insert(k, first)
    ms.sort(key=lambda x: x[:3] == 'own')
    seen, out = set(), []
    for x in ms:
        if x[:2] not in seen or x[0] != 'm':
            seen.add(x[:2])
            out.append(x)
    if first and first not in out:
        out = [first] + [x for x in out if x[:2] != first[:2]] if first[0] == 'm' else out + [first]
        out.sort(key=lambda x: x[:3] == 'own')
    return out


def mem_family(full, rnd):
    ops = [(n, 'load') for n in LOADS] + [(n, 'store') for n in STORES]
    idxk = 'p l c t g k s b'.split()
    reps = 60 if full else 25
    for n, kind in ops:
        for mname in MEMS:
            for rep in range(reps):
                b = FB()
                ms = [mname] if rnd.random() < .3 else memset(rnd, mname)
                pos = {x: addmem(b, x) for x in ms}
                b.dmem = 'none'
                m, q = pos[mname], MEMS[mname]
                small = mname[:3] == 'own'
                off = rnd.choice([o for o in OFFS if not small or o < 0x10000])
                if mname == 'native':
                    off = rnd.choice([0, 1, 8, 127, 4096])
                it = 'I' if q else 'i'
                ks = idxk + (['F', 'Z', 'D'] if it == 'i' and mname != 'native' else [])
                ik = rnd.choice(ks)
                base = [0, 1, 0x100, 0xff00] if small else [0, 8, 0x7fff0000, 0xff] + ([0x80000000, 0xffff0000] if off < 0x8000 else [])
                if mname == 'native':
                    base = [tv.NATB + x for x in (0, 0x100, 0x7ffffff8)]
                cfg = rnd.choice(CFGS)
                if not cfg[1] & 1:
                    base = [x for x in base if x < 0x80000000 or it == 'I']
                idx = b.operand(ik, it, rnd.choice(base))
                if rnd.random() < .25 and ik != 'c':
                    # a live value below, computed from the same index
                    tail = [('drop',)] if rnd.random() < .3 else []
                nm = '%s/%s/%s/%x/%s' % (n, mname, '.'.join(ms), off, ik)
                al = rnd.choice([0, 0, 1, 2, 3])
                if kind == 'load':
                    _, t, nb, sg = LOADS[n]
                    c = rnd.choice('ret set pset tee gset arg two chain rchain'.split() + (['if', 'brif', 'sel', 'fsel', 'eqz', 'wrap'] if t in 'iI' and t == 'i' else []))
                    if t in 'fF' and c in ('chain', 'rchain'):
                        c = 'ret'
                    mod = b.consume(c, t, idx + [(n, off, m, min(al, nb.bit_length() - 1))])
                    yield Prog('%s/%s/%d%d/%d' % (nm, c, cfg[0], cfg[1], rep), mod, cfg, exact=True)
                else:
                    _, t, nb = STORES[n]
                    vk = rnd.choice('p l c t g k s b'.split() + (['F', 'Z', 'D'] if t == 'i' else []) + (['L'] if len(ms) else []))
                    if vk == 'L':                       # value loaded from a memory of the module
                        src = rnd.choice(ms)
                        st = 'I' if MEMS[src] else 'i'
                        val = b.operand('p', st) + [(LOAD[t], rnd.choice([0, 4]), pos[src])]
                    elif vk == 'x':
                        val = []
                    else:
                        val = b.operand(vk, t, rnd.choice(EDGE[t]))
                    code = idx + val + [(n, off, m, min(al, nb.bit_length() - 1))]
                    res = ''
                    z = rnd.random()
                    if z < .3:                          # live temporary below, returned
                        code = b.operand('t', 'I') + code
                        res = 'I'
                    elif z < .5:                        # read back through a load of the same memory
                        code = code + [('local.get', b.p(it)), (LOAD['I'], 0, m)]
                        res = 'I'
                    b.body = code
                    yield Prog('%s/%s/%d%d/%d' % (nm, vk, cfg[0], cfg[1], rep), b.done(res), cfg, exact=True)
    for k in range(3000 if full else 600):
        seed = rnd.randint(0, 1 << 30)
        r = random.Random(seed)
        cfg = CFGS[k % 8]
        yield rprog('random/%d/%d%d' % ((k,) + cfg), seed, cfg, branches=0, calls=r.choice([0, 1]), size=r.choice([30, 60]), loops=0,
                    mems=tuple(r.sample(['m0', 'm1', 'm2', 'm3', 'm4', 'm5'], r.randint(1, 4))))


FAM['C04'] = lambda: TVFamily('C04', mem_family)


# ============================================================================================== C07 calls
TY = 'iIfF'


class CallGen(rg.RG):
    """bodies made of calls whose results are consumed, with live values around them"""

    def setup(self, sigs, tail):
        self.sigs, self.tailok = sigs, tail       # (kind, id, params, results)

    def callcode(self, s, d, tail=False):
        kind, k, p, r = s
        code = []
        for j, t in enumerate(p):
            code += self.expr1(t, d, j)
        n = 'return_call' if tail else 'call'
        if kind == 'F':
            return code + [(n, ('F', k))]
        if kind == 'H':
            return code + [(n, self.b.host(p, r))]
        if kind == 'X':
            return code + [(n, self.b.xfunc(k[0], k[1], p, r))]
        return code + self.index(k) + [(n + '_indirect', p, r, 0)]

    def index(self, k):
        if type(k) is int:
            z = self.r.random()
            if z < .3:
                return [('i32.const', k)]
            if z < .5:
                return [('local.get', self.b.p('i'))]
            if z < .75:
                L = self.b.l('i')
                self.b.pre += [('i32.const', k), ('local.set', L)]
                return [('local.get', L)]
            return [('i32.const', k + 77), ('i32.const', 77), ('i32.sub',)]

    def consume(self, res):
        out = []
        for t in reversed(res):
            v = self.var(t)
            z = self.r.random()
            if v and z < .6:
                out += [('local.set', v)]
            elif z < .85 and t != 'r' and self.globs:
                out += [('global.set', self.b.glo(t, self.r.randint(0, 1)))]
            else:
                out += [('drop',)]
        return out

    def body(self, n, d):
        r = self.r
        out = []
        for _ in range(n):
            z = r.random()
            s = r.choice(self.sigs)
            jn = [r.choice(self.T) for _ in range(r.choice([0, 0, 1, 2, 3, 6]))]
            code = []
            for k, t in enumerate(jn):
                code += self.expr1(t, d, k)
            self.stackn += len(jn)
            code += self.callcode(s, d)
            self.stackn -= len(jn)
            out += code + self.consume(''.join(jn) + s[3])
            if self.tailok and z < .15:
                c = [s for s in self.sigs if s[3] == self.results]
                if c:
                    out += self.expr('i', 1) + [('if', '', self.callcode(r.choice(c), 1, True))]
        c = [s for s in self.sigs if s[3] == self.results]
        z = r.random()
        if c and self.tailok and z < .5:
            out += self.callcode(r.choice(c), d, True)
        elif c and z < .7:
            out += self.callcode(r.choice(c), d)
            if z < .55:
                out += [('return',)]
        else:
            out += self.rets(2)
        return out


def call_prog(name, seed, cfg, mixed=True):
    rnd = random.Random(seed)
    R = lambda a, b, T=TY: ''.join(rnd.choice(T) for _ in range(rnd.randint(a, b)))
    ref = rnd.random() < .2
    T = TY + ('r' if ref else '')
    results = R(0, 4, T)
    same = R(0, 5, T)                          # a signature several functions share
    sigs, funcs, deps = [], [], []
    init = not cfg[1] & 2

    def callee(avail, params, res, sub):
        g = rg.RG(rnd, params=params, locals_=R(0, 4, TY), results=res, branches=rnd.choice([0, 0, 1]), hosts=False, mem=False, globs=False,
                  refs=True, size=rnd.choice([10, 25]), loops=0, calls=0)
        b = g.finish(rnd.randint(0, 2), 2)
        if rnd.random() < .3 and len(res) > 1:   # parameters returned in another order
            pass
        pre = [x for L in range(len(b.locals)) for x in (g.const(b.locals[L])[0], ('local.set', ('L', L)))] if init else []
        return Func(params, res, ''.join(b.locals), b.resolve(pre + b.body))
    nf = rnd.randint(1, 4)
    for k in range(nf):
        p = same if rnd.random() < .4 else R(0, rnd.choice([2, 6, 12]), T)
        q = results if rnd.random() < .5 else R(0, 4, T)
        funcs.append(callee(sigs, p, q, k))
        sigs.append(('F', k, p, q))
    hs = []
    for k in range(rnd.randint(0, 2)):
        p = same if rnd.random() < .4 else R(0, rnd.choice([3, 8]), T)
        q = results if rnd.random() < .5 else R(0, 3, T)
        hs.append((p, q))
        sigs.append(('H', None, p, q))
    if rnd.random() < .4:                       # another module
        dm = Module()
        for k in range(rnd.randint(1, 2)):
            p, q = R(0, 6, T), (results if rnd.random() < .5 else R(0, 3, T))
            dm.funcs.append(callee([], p, q, 0))
        mn = name.replace('/', '_')
        deps = [Prog(name + '/dep', dm, cfg, fn=0, exact=True, modname=mn)]
        for k, f in enumerate(dm.funcs):
            sigs.append(('X', (mn, 'f%d' % k), f.params, f.results))
    table = []
    if rnd.random() < .7:
        for k in range(rnd.randint(1, 5)):
            j = rnd.randrange(len(sigs))
            table.append(sigs[j])
        sigs += [('T', k, s[2], s[3]) for k, s in enumerate(table)]
    g = CallGen(rnd, params=R(0, rnd.choice([2, 6]), T), locals_=R(0, rnd.choice([2, 9]), T), results=results, branches=rnd.choice([0, 1]),
                calls=0, mem=rnd.random() < .5, size=rnd.choice([20, 45]), loops=0, refs=ref)
    g.setup(sigs, rnd.random() < .7)
    b = g.b
    nl = len(b.locals)
    b.body = g.body(rnd.randint(1, 4), rnd.choice([0, 1, 2]))
    if init:
        b.pre = [x for L in range(nl) for x in (g.const(b.locals[L])[0], ('local.set', ('L', L)))] + b.pre
    b.m.funcs += funcs
    # everything in the table must exist in the index space
    idx = []
    for s in table:
        idx.append(b.host(s[2], s[3]) if s[0] == 'H' else b.xfunc(s[1][0], s[1][1], s[2], s[3]) if s[0] == 'X' else ('F', s[1]))
    m = b.done(results)
    base = m.nimp('func') + 1
    m.funcs[0].body = rg.fixcalls(m.funcs[0].body, base)
    if table:
        m.tables.append(('u', len(table) + rnd.randint(0, 1), None))
        idx = [base + x[1] if type(x) is tuple else x for x in idx]
        m.elems.append(b'\x00\x41\x00\x0b' + uleb(len(idx)) + b''.join(uleb(x) for x in idx))
    return Prog(name, m, cfg, exact=True, deps=deps, modname='')


def call_family(full, rnd):
    N = 8000 if full else 1800
    for k in range(N):
        cfg = CFGS[k % 8]
        yield call_prog('mix/%d/%d%d' % ((k,) + cfg), rnd.randint(0, 1 << 30), cfg)


FAM['C07'] = lambda: TVFamily('C07', call_family)


# ============================================================================================== C08 globals
class GlobGen(rg.RG):
    def setup(self, owned, imported):
        self.owned, self.imported = owned, imported

    def gname(self, t, write):
        c = [('G', k) for k, (tt, mut) in enumerate(self.owned) if tt == t and (mut or not write)]
        c += [k for k, tt in enumerate(self.imported) if tt == t]
        return self.r.choice(c)


def glob_prog(name, seed, cfg):
    rnd = random.Random(seed)
    owned = [(t, True) for t in 'iIfF'] + [(rnd.choice('iIfFr'), rnd.random() < .6) for _ in range(rnd.randint(0, 6))]
    rnd.shuffle(owned)
    imported = [rnd.choice('iIfF') for _ in range(rnd.randint(0, 5))]
    rs = [k for k, (t, m_) in enumerate(owned) if t == 'r']
    g = GlobGen(rnd, branches=rnd.choice([0, 1, 2]), calls=rnd.choice([0, 0, 2]), mem=rnd.random() < .2, size=rnd.choice([15, 30, 50]), loops=0,
                params=''.join(rnd.choice(TY + 'r' if rs else TY) for _ in range(rnd.randint(0, 5))), refs=bool(rs))
    g.setup(owned, imported)
    g.rgl = [('G', k) for k in rs]
    if rs and rnd.random() < .5:
        g.results += 'r'
    b = g.b
    for k, t in enumerate(imported):
        b.imports['global'].append(('env', 'g%d' % k, 'global', (t, True)))
    body = []
    for _ in range(rnd.randint(1, 4)):              # values read before later writes, in all orders
        ts = [rnd.choice('iIfF') for _ in range(rnd.randint(1, 3))]
        code, n = [], 0
        for t in ts:
            code += [('global.get', g.gname(t, False))] if rnd.random() < .7 else g.expr1(t, 1, n)
            n += 1
        g.stackn += n
        code += g.stmt(2)
        z = rnd.random()
        t = rnd.choice('iIfF')
        code += g.expr(t, 2) + [('global.set', g.gname(t, True))]
        if z < .3:
            t = rnd.choice('iIfF')
            code += [('global.get', g.gname(t, False)), ('global.set', g.gname(t, True))]
        g.stackn -= n
        for t in reversed(ts):
            code += [('global.set', g.gname(t, True))] if rnd.random() < .6 else [('drop',)]
        body += code
    for k in rs:
        if owned[k][1] and rnd.random() < .6:
            body += g.expr('r', 1) + [('global.set', ('G', k))]
    g.b.body = body + g.rets(2)
    if not cfg[1] & 2:
        b.pre = [x for L in range(len(b.locals)) for x in (g.const(b.locals[L])[0], ('local.set', ('L', L)))] + b.pre
    m = b.done(g.results)
    for t, mut in owned:
        m.globals.append((t, mut, [('ref.null', 'r')] if t == 'r' else [(CONST[t], rnd.choice(EDGE[t]))]))
    m.funcs[0].body = rg.fixcalls(m.funcs[0].body, 0, m.nimp('global'))
    return Prog(name, m, cfg, exact=True)


def glob_family(full, rnd):
    N = 6000 if full else 1600
    for k in range(N):
        cfg = CFGS[k % 8]
        yield glob_prog('mix/%d/%d%d' % ((k,) + cfg), rnd.randint(0, 1 << 30), cfg)


FAM['C08'] = lambda: TVFamily('C08', glob_family)


# ============================================================================================== C09 memory instructions
class MemGen(rg.RG):
    """statements and expressions over several memories: size, grow, fill, copy mixed with loads and stores"""

    def setup(self, mems, pos, grow):
        self.ms, self.pos, self.growleft = mems, pos, grow

    def ity(self, mn):
        return 'I' if MEMS2[mn] else 'i'

    def small(self, mn):
        return mn[:3] == 'own' or mn in ('m6', 'm7', 'm6q')

    def pvar(self, t):
        c = [x for x in self.P if self.b.params[x[1]] == t]
        return self.r.choice(c) if c and self.r.random() < .9 else self.var(t)

    def idx(self, mn, t=None):
        r, t = self.r, t or self.ity(mn)
        c = [0, 1, 0x100, 0x100, 0x3ff, 0xff00] if self.small(mn) else [0, 8, 0x7fff0000, 0x100]
        if mn == 'native':
            c = [tv.NATB + x for x in (0, 0x100, 0x7ffffff8)]
        z = r.random()
        v = self.pvar(t)
        if z < .45 and v:
            return [('local.get', v)]
        if z < .6:
            return [(CONST[t], r.choice(c))]
        if z < .8:
            return [('local.get', self.b.p(t))] + self.b.mix(t)
        return [(CONST[t], r.choice(c)), ('local.get', self.b.p(t)), (XOP[t],)]

    def cnt(self, t):
        r = self.r
        z = r.random()
        v = self.pvar(t)
        if z < .5 and v:
            return [('local.get', v)]
        if z < .75:
            return [(CONST[t], r.choice([0, 1, 2, 7, 8, 0x20, 0x100, 0x1000]))]
        return [('local.get', self.b.p(t))] + (self.b.mix(t) if r.random() < .5 else [])

    def delta(self, t):
        r = self.r
        z = r.random()
        if z < .5:
            return [(CONST[t], r.choice([0, 1, 1, 2, 3, 4, 70000, 0xffffffff, 0x80000000]))]
        return [('local.get', self.b.p(t))]

    def sized(self, mn):
        return self.small(mn) and self.pos[mn] is not None

    def growable(self):
        return [m for m in self.ms if mn_grow(m)]

    def stmt(self, d):
        r = self.r
        k = r.random()
        self.size -= 2
        if k < .3:
            mn = r.choice(self.ms)
            t = self.ity(mn)
            return self.idx(mn) + self.expr1('i', 1, 1) + self.cnt(t) + [('memory.fill', self.pos[mn])]
        if k < .6:
            a, b = r.choice(self.ms), r.choice(self.ms)
            t = 'I' if self.ity(a) == self.ity(b) == 'I' else 'i'
            return self.idx(a) + self.idx(b) + self.cnt(t) + [('memory.copy', self.pos[a], self.pos[b])]
        if k < .7:
            mn = r.choice(self.ms)
            t = r.choice('iIfF')
            return self.idx(mn) + self.expr1(t, 1, 1) + [(STORE[t], r.choice([0, 8]), self.pos[mn])]
        if k < .8:
            return self.memexpr('i', True)
        return rg.RG.stmt(self, d)

    def memexpr(self, t, drop=False):
        r = self.r
        c = [m for m in self.ms if self.sized(m) and (drop or self.ity(m) == t)]
        if not c:
            return self.const(t) if not drop else [('nop',)]
        mn = r.choice(c)
        it = self.ity(mn)
        if r.random() < .5 or self.growleft <= 0:
            code = [('memory.size', self.pos[mn])]
        else:
            self.growleft -= 1
            code = self.delta(it) + [('memory.grow', self.pos[mn])]
        return code + ([('drop',)] if drop else [])

    def _expr(self, t, d):
        z = self.r.random()
        if t in 'iI' and z < .25:
            return self.memexpr(t)
        if t in 'iIfF' and z < .4 and self.stackn < 18:
            mn = self.r.choice(self.ms)
            return self.idx(mn) + [(LOAD[t], self.r.choice([0, 8]), self.pos[mn])]
        return rg.RG._expr(self, t, d)


MEMS2 = dict(MEMS, m6=0, m7=0, m6q=1)


def mn_grow(m):
    return m in ('m6', 'm6q', 'own1')


def memops_prog(name, seed, cfg):
    rnd = random.Random(seed)
    n = rnd.choice([1, 1, 2, 2, 3])
    ms = rnd.sample(['m0', 'm2', 'm6', 'm7', 'native', 'm6q', 'm3q', 'm6', 'own1', 'own', 'ownfix', 'ownq'], n)
    ms = list(dict.fromkeys(ms))
    if 'm6' in ms and 'm6q' in ms:
        ms.remove('m6q')
    ms.sort(key=lambda x: x[:3] == 'own')
    sub = rnd.random() < .4                       # a function of the same module that works on the memories too
    g = MemGen(rnd, branches=rnd.choice([0, 0, 1]), calls=0, size=rnd.choice([8, 16, 24]), loops=0, mem=False, hosts=False,
               params=''.join(rnd.choice('iiI') for _ in range(rnd.randint(0, 4))),
               locals_=''.join(rnd.choice('iIF') for _ in range(rnd.choice([0, 2, 8]))), results=''.join(rnd.choice('iI') for _ in range(rnd.randint(0, 2))))
    b = g.b
    b.dmem = 'none'
    pos = {x: addmem(b, x) for x in ms}
    grows = rnd.choice([0, 1, 2])
    g.setup(ms, pos, grows)
    if sub:
        h = MemGen(rnd, branches=0, calls=0, size=8, loops=0, mem=False, hosts=False, globs=False, params=rnd.choice(['', 'i', 'I', 'ii']), locals_='',
                   results=rnd.choice(['', 'i', 'I']))
        h.b.dmem = 'none'
        h.setup(ms, pos, 1)
        h.b.pre = []
        hb = h.stmts(rnd.randint(1, 2), 1) + h.rets(1)
        hp, hr = h.b.params, h.results
        g.funcs = [(0, ''.join(hp), hr)]
        g.calls = 2
        b.m.funcs.append(Func(''.join(hp), hr, ''.join(h.b.locals), h.b.resolve(
            ([x for L in range(len(h.b.locals)) for x in (h.const(h.b.locals[L])[0], ('local.set', ('L', L)))] if not cfg[1] & 2 else []) + hb)))
    body = []
    if sub:
        body += g.stmts(rnd.randint(0, 1), 1)
        k, p, r_ = g.funcs[0]
        body += g.args(p, 1) + [('call', ('F', 0))] + [('drop',)] * len(r_)
    body += g.stmts(rnd.randint(1, 3), 1)
    b.body = body + g.rets(1)
    if not cfg[1] & 2:
        b.pre = [x for L in range(len(b.locals)) for x in (g.const(b.locals[L])[0], ('local.set', ('L', L)))] + b.pre
    m = b.done(g.results)
    m.funcs[0].body = rg.fixcalls(m.funcs[0].body, m.nimp('func') + 1)
    return Prog(name, m, cfg, exact=True, max_steps=300)


def bulk_prog(name, rnd, cfg, op):
    """one fill or copy with a constant length"""
    ms = list(dict.fromkeys(rnd.choice(['m0', 'm2', 'm6', 'm7', 'native', 'own1', 'own', 'ownfix']) for _ in range(rnd.choice([1, 1, 2]))))
    ms.sort(key=lambda x: x[:3] == 'own')
    b = FB()
    b.dmem = 'none'
    pos = {x: addmem(b, x) for x in ms}
    n = rnd.choice([0, 1, 2, 7, 8, 9, 16, 17, 31, 32, 33, 64])
    def idx(mn):
        t = 'I' if MEMS2[mn] else 'i'
        if rnd.random() < .75:
            return [('local.get', b.p(t))] + (b.mix(t) if rnd.random() < .3 else [])
        return [(CONST[t], (tv.NATB if mn == 'native' else 0) + rnd.choice([0, 0x100, 0x108, 0x104]))]
    d, s_ = rnd.choice(ms), rnd.choice(ms)
    if op == 'fill':
        t = 'I' if MEMS2[d] else 'i'
        b.body = idx(d) + [('local.get', b.p('i')), (CONST[t], n), ('memory.fill', pos[d])]
    else:
        t = 'I' if MEMS2[d] and MEMS2[s_] else 'i'
        b.body = idx(d) + idx(s_) + [(CONST[t], n), ('memory.copy', pos[d], pos[s_])]
    return Prog(name, b.done(''), cfg, exact=True, max_steps=300)


def memops_family(full, rnd):
    for k in range(1200 if full else 200):
        cfg = CFGS[k % 8]
        op = rnd.choice(['fill', 'copy', 'copy'])
        yield bulk_prog('bulk/%s/%d/%d%d' % ((op, k) + cfg), rnd, cfg, op)
    N = 5000 if full else 900
    for k in range(N):
        cfg = CFGS[k % 8]
        yield memops_prog('mix/%d/%d%d' % ((k,) + cfg), rnd.randint(0, 1 << 30), cfg)


FAM['C09'] = lambda: TVFamily('C09', memops_family)


# ============================================================================================== C10 tables and references
TSIZE = tv.TSIZE


class TabGen(rg.RG):
    """tabs: list of (table type, size); funcs: local functions a reference may name (offset, params, results)"""

    def setup(self, tabs, reffuncs, callable_=()):
        self.tabs, self.reffuncs, self.callable = tabs, reffuncs, callable_
        self.T = list('iIfF') + list('rruu')
        self.rgl, self.ugl = [], []

    def tab(self, t=None):
        c = [k for k, (tt, n) in enumerate(self.tabs) if t is None or tt == t]
        return self.r.choice(c) if c else None

    def index(self, k, d=1):
        """an index into table k"""
        r, n = self.r, self.tabs[k][1]
        z = r.random()
        v = [x for x in self.P if self.b.params[x[1]] == 'i']
        if z < .45:
            return [('i32.const', r.randrange(n))]
        if z < .6 and v:
            return [('local.get', r.choice(v))]
        if z < .75 and self.sym > 0:
            self.sym -= 1
            return [('local.get', self.b.p('i'))]
        if z < .8:
            m = 1
            while m * 2 <= n:
                m *= 2
            return self.expr('i', d) + [('i32.const', m - 1), ('i32.and',)]
        if z < .9 and n > 1:
            return [('table.size', k), ('i32.const', r.randint(1, n)), ('i32.sub',)]
        if z < .95:
            return [('i32.const', 1), ('local.get', self.b.p('i')), ('i32.and',)] if n > 1 else [('i32.const', 0)]
        return [('i32.const', r.randrange(n))]

    def cnt(self, n):
        r = self.r
        z = r.random()
        if z < .6:
            return [('i32.const', r.randint(0, n))]
        if z < .75:
            return [('local.get', self.b.p('i')), ('i32.const', 3), ('i32.and',)]
        if z < .9:
            return [('i32.const', 0)] if n < 2 else [('i32.const', r.randint(1, n - 1)), ('local.get', self.b.p('i')), ('i32.const', 1),
                                                      ('i32.and',), ('i32.add',)]
        return [('local.get', self.b.p('i'))]

    def near(self, n):
        r = self.r
        return [('i32.const', r.choice([0, 0, 1, n // 2]))] if r.random() < .8 else [('local.get', self.b.p('i')), ('i32.const', 1), ('i32.and',)]

    def const(self, t):
        if t in 'ru':
            return [('ref.null', t)]
        return rg.RG.const(self, t)

    def _expr(self, t, d):
        r = self.r
        z = r.random()
        if t in 'ru':
            v = self.var(t)
            k = self.tab(t)
            g = self.rgl if t == 'r' else self.ugl
            if z < .35 and k is not None and self.stackn < 18:
                return self.index(k, d - 1) + [('table.get', k)]
            if z < .5 and t == 'u' and self.reffuncs:
                return [('ref.func', ('F', r.choice(self.reffuncs)))]
            if z < .58 and g:
                return [('global.get', r.choice(g))]
            if z < .75 and v:
                return [('local.get', v)]
            if z < .82 and v and d > 0:
                return self.expr(t, d - 1) + [('local.tee', v)]
            if z < .9 and d > 0 and self.stackn < 18:
                return self.expr(t, d - 1) + self.expr1(t, d - 1) + self.expr1('i', d - 1, 2) + [('select_t', t)]
            if z < .95 and d > 0 and self.br > 0:
                return self.blockexpr(t, d)
            return self.const(t)
        if t == 'i' and z < .3 and d > 0:
            y = r.random()
            if y < .45:
                return self.expr(r.choice('ru'), d - 1) + [('ref.is_null',)]
            if y < .75:
                return [('table.size', self.tab())]
            k = self.tab()
            return self.expr(self.tabs[k][0], d - 1) + self.expr1('i', d - 1) + [('table.grow', k)]
        return rg.RG._expr(self, t, d)

    def stmt(self, d):
        r = self.r
        self.size -= 2
        z = r.random()
        if z < .25:
            k = self.tab()
            return self.index(k) + self.expr1(self.tabs[k][0], d) + [('table.set', k)]
        if z < .38:
            k = self.tab()
            n = self.tabs[k][1]
            return self.near(n) + self.expr1(self.tabs[k][0], d) + self.cnt(n // 2 if r.random() < .8 else n) + [('table.fill', k)]
        if z < .52:
            a = self.tab()
            b = self.tab(self.tabs[a][0])
            n, m_ = self.tabs[a][1], self.tabs[b][1]
            return self.near(n) + self.near(m_) + self.cnt(min(n, m_) // 2 if r.random() < .8 else min(n, m_)) + [('table.copy', a, b)]
        if z < .62 and self.callable:
            k = self.tab('u')
            if k is not None and self.tabs[k][1]:
                i = r.randrange(self.tabs[k][1])
                j, p, q = r.choice(self.callable)
                pre = [('i32.const', i), ('ref.func', ('F', j)), ('table.set', k)] if r.random() < .8 else []
                return pre + self.stmts(r.choice([0, 0, 1]), 0) + self.args(p, d) + [('i32.const', i), ('call_indirect', p, q, k)] + [('drop',)] * len(q)
        if z < .7 and (self.rgl or self.ugl):
            t = r.choice((['r'] if self.rgl else []) + (['u'] if self.ugl else []))
            return self.expr(t, d) + [('global.set', r.choice(self.rgl if t == 'r' else self.ugl))]
        if z < .75 and self.tabs:                        # a value read before a later write of the same slot
            k = self.tab()
            t = self.tabs[k][0]
            i = r.randrange(self.tabs[k][1])
            v = self.var(t)
            if v:
                return [('i32.const', i), ('table.get', k), ('i32.const', i)] + self.expr1(t, d, 2) + [('table.set', k), ('local.set', v)]
        return rg.RG.stmt(self, d)


def tab_prog(name, seed, cfg):
    rnd = random.Random(seed)
    imp, own = [], []
    for k in rnd.sample(range(4), rnd.choice([0, 0, 1, 1, 2])):
        imp.append((k, rnd.choice('ru')))
    for _ in range(rnd.randint(0 if imp else 1, 2)):
        own.append((rnd.choice('ru'), rnd.choice([1, 2, 3, 5])))
    tabs = [(t, TSIZE[k]) for k, t in imp] + own
    P = ''.join(rnd.choice('iIruF') for _ in range(rnd.randint(0, 4)))
    Lc = ''.join(rnd.choice('iruF') for _ in range(rnd.choice([0, 2, 4, 9])))
    g = TabGen(rnd, params=P, locals_=Lc, results=''.join(rnd.choice('iIru') for _ in range(rnd.randint(0, 2))), branches=rnd.choice([0, 0, 1]),
               calls=0, mem=rnd.random() < .15, globs=False, hosts=False, size=rnd.choice([8, 16, 30]), loops=0)
    funcs = []
    for k in range(rnd.randint(1, 3)):
        p, q = ''.join(rnd.choice('iIFr') for _ in range(rnd.randint(0, 3))), rnd.choice(['', 'i', 'r', 'I'])
        h = TabGen(rnd, params=p, locals_='', results=q, branches=0, calls=0, mem=False, globs=False, hosts=False, size=6, loops=0)
        h.sym = 0
        h.setup(tabs, [0], ())
        np_ = len(h.b.params)
        body = (h.stmts(1, 1) if rnd.random() < .4 else []) + h.rets(1)
        if len(h.b.params) != np_:
            body = h.rets(0) if len(h.b.params) == np_ else [y for t in q for y in h.const(t)]
            h.b.params = h.b.params[:np_]
        funcs.append(Func(p, q, '', h.b.resolve(body)))
    imph = rnd.random() < .4
    g.sym = rnd.choice([0, 1, 2])
    g.setup(tabs, list(range(len(funcs))), [(k, f.params, f.results) for k, f in enumerate(funcs)])
    glo = [rnd.choice('ru') for _ in range(rnd.choice([0, 0, 1, 2]))]
    g.rgl = [('G', k) for k, t in enumerate(glo) if t == 'r']
    g.ugl = [('G', k) for k, t in enumerate(glo) if t == 'u']
    b = g.b
    for k, t in imp:
        b.imports['table'].append(('env', 't%d' % k, 'table', (t, TSIZE[k], None)))
    if imph:
        b.host('iI', 'i')
    body = g.stmts(rnd.randint(1, 4), 2)
    b.body = body + g.rets(2)
    if not cfg[1] & 2:
        b.pre = [x for L in range(len(b.locals)) for x in (g.const(b.locals[L])[0], ('local.set', ('L', L)))] + b.pre
    b.m.funcs += funcs
    m = b.done(g.results)
    base = m.nimp('func') + 1
    for t, n in own:
        m.tables.append((t, n, rnd.choice([None, n, n + 4])))
    for t in glo:
        m.globals.append((t, True, [('ref.null', t)]))
    for f in m.funcs:
        f.body = rg.fixcalls(f.body, base, m.nimp('global'))
    for j, (t, n) in enumerate(tabs):
        if t == 'u' and rnd.random() < .5:
            o = rnd.randrange(n)
            idx = [base + rnd.randrange(len(funcs)) for _ in range(rnd.randint(1, n - o))]
            m.elems.append(b'\x02' + uleb(j) + b'\x41' + bytes([o]) + b'\x0b\x00' + uleb(len(idx)) + b''.join(uleb(x) for x in idx))
    return Prog(name, m, cfg, exact=True)


def tab_family(full, rnd):
    N = 6000 if full else 1400
    for k in range(N):
        cfg = CFGS[k % 8]
        yield tab_prog('mix/%d/%d%d' % ((k,) + cfg), rnd.randint(0, 1 << 30), cfg)


FAM['C10'] = lambda: TVFamily('C10', tab_family)


# ============================================================================================== C11 calling convention and footprint
class AbiFamily(TVFamily):
    want = 'abi'


def abi_family(full, rnd):
    n = 2000 if full else 450
    for pid in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10'):
        ps = list(FAM[pid]().gen(False, random.Random(rnd.randint(0, 1 << 30))))
        for p in rnd.sample(ps, min(n if pid not in ('C01', 'C02', 'C03') else n // 3, len(ps))):
            p.name = pid + '/' + p.name
            yield p


FAM['C11'] = lambda: AbiFamily('C11', abi_family)


# ============================================================================================== C harnesses
from hx import HarnessFamily  # noqa: E402


def pick15(nm, k, tier, seed):
    if nm == 'stack' or tier == 'thorough' or k < 2 * 155:
        return True
    return (k * 2654435761 + seed) % 97 < 12


FAM['C15'] = lambda: HarnessFamily('C15', 'c15.c', pick=pick15, what='pwart_rstack_put_*/get_*, pwart_allocate_stack, pwart_free_stack, '
    'pwart_call_wasm_function and the code generated for a function that returns its parameters in reverse order',
    bounds='signatures of 1..4 entries over all five types (all of length 1..3, in the quick tier an eighth of length 4), both stack layouts, '
    'any values; stack sizes 0..160 and 8 KiB..132 KiB')
def pick17(nm, k, tier, seed):
    h = (k * 2654435761 + seed * 977) % 1009
    return {'mixed4': h < (1009 if tier == 'thorough' else 60), 'mixed5': tier == 'thorough' and h < 250}.get(nm, True)


FAM['C17'] = lambda: HarnessFamily('C17', 'c17.c', pick=pick17, what='pwart_namespace_* and the module loader it runs',
    bounds='histories of at most 4 operations (5 in the thorough tier) followed by a lookup, over host modules and freshly compiled wasm modules; names of at most two arbitrary bytes (one from 4 operations on)')


def pick12(nm, k, tier, seed):
    if nm == 'memarg' and k < 40 and k % 10 > 4:
        return False            # a 32-bit offset has at most five bytes
    return tier == 'thorough' or nm not in ('dead', 'structure') or (k * 40503 + seed * 977) % 97 < 60


FAM['C12'] = lambda: HarnessFamily('C12', 'c12.c', pick=pick12, arrs=[('a0', 0x600000000000, 0x600200000000), ('a1', 0x600200000000, 0x600400000000)],
    what='the whole of pwart_compile on modules whose immediates are symbolic bytes, and the code generated from them',
    bounds='one symbolic immediate (two for instructions with two) per module, of every encoded length the format allows; numbers where the value '
    'selects an entity range over the entities of the module; address of a memory access below 2^33')


def pick13(nm, k, tier, seed):
    h = (k * 40503 + seed * 977) % 97
    return tier == 'thorough' or {'subset': h < 40, 'many': h < 30, 'custom': h < 60}.get(nm, True)


FAM['C13'] = lambda: HarnessFamily('C13', 'c13.c', pick=pick13,
    what='the whole of pwart_compile/load_module, pwart_get_export_*, pwart_get_start_function, pwart_inspect_module_state and the state accessors',
    bounds='three imports of every combination of kinds with two own definitions of every kind; an export, start or function index ranging over its '
    'whole index space; arbitrary two-byte import and export names, looked-up names of up to three bytes; names up to 255 bytes; up to 280 imports, '
    '250 functions and 250 exports; a custom section of 8 shapes (symbolic name and payload) at 13 positions; subsets of the optional sections')


def pick14(nm, k, tier, seed):
    h = (k * 40503 + seed * 977) % 97
    return tier == 'thorough' or {'elem': h < 40, 'deep': h < 40, 'global': h < 50, 'data': h < 60}.get(nm, True)


FAM['C14'] = lambda: HarnessFamily('C14', 'c14.c', pick=pick14, arrs=[('a0', 0x600000000000, 0x600200000000), ('a1', 0x600400000000, 0x600600000000)],
    what='the whole of pwart_compile/load_module with waexpr_run_const, and the code generated for global.get',
    bounds='constants and imported global values arbitrary; expression trees of depth up to 3 over the extended-const operators, chains of up to 40 '
    'pending operands; up to 3 data segments of up to 9 bytes (300 into an own memory) at any offset of two memories of 65535 pages; element segments of '
    'all 8 flag forms with up to 3 entries at any offset of a table of 8')


def pick_d01(nm, k, tier, seed):
    h = (k * 40503 + seed * 977) % 97
    return tier == 'thorough' or {'op2': h < 32, 'op1': h < 48, 'shift_into': h < 32}.get(nm, True)


FAM['D01'] = lambda: HarnessFamily('D01', 'd01.c', pick=pick_d01, pwart=False,
    what='sljit_emit_op0/op1/op2/op2r/shift_into and what they call in the x86-64 back end (executed with an arbitrary immediate), and the machine code they emit',
    bounds='one operation per function; operands: 5 registers covering the special encodings (rax, rcx, r8, rbp, r12), 9 memory forms (base, base r13, negative '
    'offset, scaled index, absolute, base that is also a destination, stack, 41-bit offset, base rcx), 18 immediates, and arbitrary immediates for 16 operations in '
    'both positions; two fixed and two varying destinations per pair of sources; any register and memory contents',
    assume=['div and idiv by zero or with an overflowing quotient, and unmasked shift counts outside the range, are excluded (documented as undefined)',
            'the upper half of a 32-bit result in a register is not compared (documented as undefined)'])


def pick_d02(nm, k, tier, seed):
    h = (k * 40503 + seed * 977) % 97
    return tier == 'thorough' or {'flags': h < 34, 'cmp': h < 60, 'opflags': h < 60}.get(nm, True)


FAM['D02'] = lambda: HarnessFamily('D02', 'd02.c', pick=pick_d02, pwart=False,
    what='sljit_emit_op2u/op2 with status flags, op_flags, select, jump, cmp, op2cmpz and the carry operations of the x86-64 back end, as the machine code they emit',
    bounds='20 pairs of an operation and a flag it sets, each with its negation, 32 and 64 bit; 13 operand forms (registers, memory, immediates of all encodings) on '
    'each side; destination absent, one of the sources or another place; the flag consumed by op_flags, select and a conditional jump in one function, or by a '
    'read-modify-write op_flags; all ten integer comparisons; two-word carry chains; any register and memory contents',
    assume=['unmasked shift counts outside the range are excluded; the upper half of a 32-bit result in a register is not compared (documented as undefined)',
            'the carry flag is not used after a select (sljit resets it there)'])


def pick_d03(nm, k, tier, seed):
    h = (k * 40503 + seed * 977) % 97
    return tier == 'thorough' or {'fcmp': h < 60, 'fselect': h < 50}.get(nm, True)


FAM['D03'] = lambda: HarnessFamily('D03', 'd03.c', pick=pick_d03, pwart=False,
    what='sljit_emit_fop1/fop2/fop2r/fset32/fset64/fcopy/fcmp/fselect and the conversions of the x86-64 back end, as the machine code they emit',
    bounds='one operation per function (a comparison, then its jump, flag or select); operands: registers of every encoding class including destination aliases, '
    'memory by base, by scaled index and with a 41-bit offset, immediates for integer sources; both precisions; every float condition with its negation; '
    'any register and memory contents, NaNs, infinities and signed zeros included',
    assume=['a float to integer conversion of a value outside the integer range is excluded (documented as implementation defined)',
            'any NaN is accepted for a NaN result of arithmetic or of a precision change',
            'conditions documented as unspecified for unordered operands are not compared on NaN',
            'the upper half of a 32-bit result in a register is not compared'])


def pick_d04(nm, k, tier, seed):
    h = (k * 40503 + seed * 977) % 97
    return tier == 'thorough' or {'base': h < 70}.get(nm, True)


FAM['D04'] = lambda: HarnessFamily('D04', 'd04.c', pick=pick_d04, pwart=False,
    what='emit_x86_instruction and the memory operand paths of sljit_emit_op1/op2/fop1/mem/fmem/atomic_load/atomic_store/get_local_base (base + offset executed '
    'with an arbitrary 64-bit offset), and the machine code they emit',
    bounds='34 kinds of access (13 widths and extensions loaded and stored, constants, floats, read-modify-write); every base register with any offset; every pair '
    'of base and index register with every scale and any index; 25 absolute addresses around 2^31, 2^32 and beyond; 13 locals of a frame of 40000 bytes; register '
    'pairs in 6 orders at 15 addresses; declared-unaligned accesses; compare-and-swap of 8 widths over 4 registers in every role',
    assume=['the upper half of a 32-bit result in a register is not compared', 'a single thread: atomicity itself is not decided'])


FAM['D05'] = lambda: HarnessFamily('D05', 'd05.c', pwart=False,
    what='sljit_emit_enter/return/return_void/return_to/call/icall/op_dst(GET_RETURN_ADDRESS, FAST_ENTER)/op_src(FAST_RETURN)/fast calls of the x86-64 back end, as '
    'the machine code they emit, called by and calling an assembly stub that fills or destroys every register the System V convention lets it',
    bounds='every list of up to 4 arguments of 8 kinds (4681 lists, each with its own register counts, local size and result); all 77 pairs of scratch and saved '
    'register counts at 13 local sizes up to 1 MB with a call, a tail call, the return address and set_context; 341 argument lists of calls by 20 kinds of target (every register), kept or in '
    'return position; register-argument functions with 0 to 3 kept registers, also through a tail call; fast calls with 12 places for the return address; any '
    'register, argument and stack contents',
    assume=['a call inside a call is not nested deeper than two frames', 'the upper half of a 32-bit value passed in a register is not compared',
            'the red zone below a C callee may be destroyed by it'])


def pick_d06(nm, k, tier, seed):
    h = (k * 40503 + seed * 977) % 97
    return tier == 'thorough' or {'layout': h < 50, 'const': h < 50}.get(nm, True)


FAM['D06'] = lambda: HarnessFamily('D06', 'd06.c', pick=pick_d06, pwart=False,
    what='label, jump, address and constant resolution of the x86-64 back end (sljit_generate_code and its size reduction, op_addr, emit_const, aligned labels, '
    'read-only buffers, rewritable jumps, set_jump_addr, set_const, serialize/deserialize) through the machine code it places',
    bounds='1600 generated functions of 3 to 12 blocks laid out in any order with up to 128 unreachable bytes between them, reached by 9 kinds of jump and 4 of fast '
    'call, with rewritten constants, some of them through serialize and deserialize once or twice half-way, with aligned labels and read-only buffers; 12 kinds of jump in '
    'both directions over 60 consecutive distances around the short-jump limits, with and without an aligned label between; 72 targets one byte apart at each exact 2 GB limit '
    'for 5 kinds of jump; 12 targets below 2^31, around 2^31 and 2^32, within and beyond 2 GB of the code and near the top of user memory, by 10 '
    'kinds of jump or call; addresses of 26 targets and labels into 8 places by 3 operations; constants of 5 operations in 9 places from 10 initial values, one of '
    'three rewritten to any value; any sequence of 3 redirections of two rewritable jumps of 6 kinds; every outcome of every condition and any accumulator',
    assume=['a function is at most a few kilobytes long', 'code is rewritten while it is not running'])


def pick_d08(nm, k, tier, seed):
    h = (k * 40503 + seed * 977) % 97
    return h < {'sizes': 6, 'long': 7, 'sizes5': 0, 'small': 60, 'nomap': 97}[nm] if tier == 'quick' else h < {'sizes5': 8}.get(nm, 97)


FAM['D08'] = lambda: HarnessFamily('D08', 'd08.c', pick=pick_d08, pwart=False, sljit=False,
    objs=[('$R/sljit/sljit_src/sljitLir.c', ['-Dmmap=h_mmap', '-Dmunmap=h_munmap'])],
    arrs=[('ar', 0x610000000000, 0x610000200000)], arrzero=True, oneshot=200,
    what='sljit_malloc_exec, sljit_free_exec, sljit_free_unused_memory_exec over an arena in place of mmap and munmap, every block address and header symbolic',
    bounds='every history (in quick, three in five) of 6 allocations and frees (one in fourteen of those of 7 in quick, all in thorough) with sizes of 16 to 271 bytes each, of 4 (one in sixteen of these in quick; in thorough all, and some of 5) with each size in one of '
    'four ranges (16..79, 32700..32763, 65400..65527, 130900..131027: around nothing, half a chunk, one chunk and two chunks left), one call of free_unused at one place in between, the rest '
    'then freed in one of three orders; the system may refuse the first or the second chunk; at most 8 blocks and 8 chunks live',
    assume=['sizes near 2^64, whose rounding wraps, are outside the bounds', 'single-threaded histories: the lock is not modelled',
            'the system hands out fresh zeroed chunks with unmapped gaps between them, in ascending order'])

def pick_d09(nm, k, tier, seed):
    return tier == 'thorough' or {'resize': k < 12, 'two': (k // 8 + k % 8) % 4 == 0}.get(nm, True)


FAM['D09'] = lambda: HarnessFamily('D09', 'd09.c', pick=pick_d09, oneshot=200, pwart=False, sljit=False,
    objs=[('$R/sljit/sljit_src/sljitLir.c', ['-Dmmap=h_mmap', '-Dmunmap=h_munmap', '-Dmadvise=h_madvise', '-Dposix_madvise=h_posix_madvise', '-Dsysconf=h_sysconf'])],
    what='sljit_allocate_stack, sljit_stack_resize, sljit_free_stack',
    bounds='any start and maximum size of 64 bits, any page aligned place of the area, 4 page sizes; up to 3 (thorough: 4) resizes of one stack, or 3 of two that are live at once, each to any '
    'address of 64 bits; memory refused at either allocation',
    assume=['mmap of nothing or of more than 2^46 bytes fails', 'what madvise drops is the pages it names and nothing else',
            'the stack of the default configuration (mmap), not SLJIT_UTIL_SIMPLE_STACK_ALLOCATION'])


def pick_e01(nm, k, tier, seed):
    h = (k * 40503 + seed * 977) % 97
    return h < ({'match': 12, 'split': 6, 'short': 7, 'reset': 8, 'longer': 0} if tier == 'quick' else {'match': 97, 'split': 60, 'short': 60, 'reset': 60, 'longer': 20})[nm]


FAM['E01'] = lambda: HarnessFamily('E01', 'e01.c', ['-I$R/sljit/regex_src'], pick=pick_e01, pwart=False, objs=[('$R/sljit/regex_src/regexJIT.c', [])],
    what='regex_compile and the matcher it generates, regex_begin_match, regex_continue_match, regex_reset_match, regex_get_result, regex_is_match_finished',
    bounds='1500 patterns generated from random syntax trees (characters, also above 0x7f and escaped; . ; classes with ranges in both orders, inverted or not; empty groups; alternation, sequences, * + ? {n} {n,} {,m} {n,m} to a nesting depth of 3; '
           'numbered alternatives {n!} at top level; ^ and $ in the pattern and REGEX_MATCH_BEGIN/END as flags; 200 with REGEX_NEWLINE, 100 with REGEX_MATCH_NON_GREEDY); for each: every string of 4 bytes (3 for the larger patterns), in one piece and cut in two, every string of 1 or 2 bytes, '
           'and every string of 2 bytes after a reset that follows 2 (1) arbitrary ones; thorough: more of the patterns and strings of 5 (4) bytes. Begin, end, identifier and the finality of is_match_finished are compared with a set simulation of the syntax tree; quick samples the patterns by seed',
    assume=['the pattern is compiled natively before the symbolic run: the generated matcher, begin, continue, reset and get_result are what is executed symbolically',
            'an identifier is compared only where a single alternative matches the reported range; identifiers inside groups, {0,0} and invalid patterns are not covered',
            '8 bit characters (REGEX_USE_8BIT_CHARS), the default'])


FAM['F01'] = lambda: HarnessFamily('F01', 'f01.c', ['-I$R/pwart_syslib'],
    what='the functions of the libuv and libffi modules of pwart_syslib with their callback adapters, pwart_call_wasm_function',
    bounds='arbitrary arguments and arbitrary results of the library; signature strings of up to 3 arguments of any of 7 letters with every form of result; ffix_call with up to 4 arguments; callbacks of both kinds with up to 3 '
    'arguments of all 5 sizes and types, arbitrary values, called up to 3 times; one thread, whose function runs after uv_thread_create has returned; the whole neighbourhood of the stack slots is arbitrary and compared',
    assume=['libuv and libffi are replaced by stand-ins that record their arguments, return arbitrary values and keep nothing', 'functions of the value stack that run as callbacks are host functions',
            'the WASI module is not part of it: uvwasi is not installed'])


def get(pid):
    return FAM[pid]()
