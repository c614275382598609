"""Translation validation of compiled wasm functions: the machine code the code under test generated for a module is
executed symbolically and compared, path by path and for all inputs, with the reference semantics."""
import json
import os
import re
import struct
import subprocess
import sys
import time
import z3
import term as T
import exe as X
import libc
from arr import Arr
from wasm import Module, Func, Ref, RefState, W, VT, layout, Trap, Limit

REPO = os.environ.get('PWART_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
MEMB = lambda k: 0x600000000000 + k * 0x1000000000
NATB = 0x500000000000
GROWB = lambda mem, n: 0x100000000000 + (mem * 16 + n) * 0x200000000      # base of memory `mem` after its n-th move
SMALL = {6: (2, 5, 0), 7: (1, 4, 1)}        # imported memories with few pages: pages, maximum, fixed
FRAMEB = 0x7d0000000000
FRAMESZ = 1 << 20
FRAME = FRAMEB + FRAMESZ // 2
TSIZE = (16, 4, 3, 6)         # slots of the imported tables t0..t3 (xrun.c)
CFLAGS = ('-O1 -g0 -w -fno-pie -no-pie -static -fno-tree-vectorize -fno-jump-tables -fcf-protection=none '
          '-fno-stack-protector -fno-delete-null-pointer-checks -U_FORTIFY_SOURCE -fno-builtin').split()
BUILTIN_OK = ['-fbuiltin-signbit']
WRAPS = ('malloc calloc realloc free memcpy memmove memset memcmp strlen strcmp strncmp strcpy strncpy mmap munmap mprotect '
         'madvise posix_madvise sysconf puts printf fprintf exit abort ceilf floorf truncf rintf nearbyintf roundf sqrtf '
         'fminf fmaxf ceil floor trunc rint nearbyint round sqrt fmin fmax pthread_mutex_lock pthread_mutex_unlock '
         'fopen fclose fread fwrite __assert_fail').split()


def build(work, out, srcs, objs=(), extra=(), libs=()):
    """compile with the code under test; srcs are files in /verif"""
    cmd = ['gcc'] + CFLAGS + list(extra) + ['-I' + REPO + '/include', '-I' + REPO + '/sljit/sljit_src', '-I' + HERE,
                                            '-I' + REPO] + \
          ['-Wl,--wrap=' + w for w in WRAPS] + list(srcs) + list(objs) + ['-o', out] + list(libs) + ['-lm', '-lpthread']
    r = subprocess.run(cmd, cwd=work, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('build failed: ' + r.stderr[-3000:])
    return out


def compile_obj(work, src, extra=()):
    o = os.path.join(work, os.path.basename(src).replace('.c', '.o'))
    cmd = ['gcc', '-c'] + [c for c in CFLAGS if c not in ('-no-pie', '-static')] + list(extra) + \
        ['-I' + REPO + '/include', '-I' + REPO + '/sljit/sljit_src', '-I' + HERE, src, '-o', o]
    r = subprocess.run(cmd, cwd=work, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('build failed: ' + r.stderr[-3000:])
    return o


def symbols(exe):
    out = subprocess.run(['nm', exe], capture_output=True, text=True).stdout
    d = {}
    for l in out.splitlines():
        f = l.split()
        if len(f) == 3:
            d.setdefault(f[2], int(f[0], 16))
    return d


class Prog:
    """one function to validate"""

    def __init__(self, name, mod, cfg=(1, 2), fn=0, exact=False, args=None, pre=None, max_steps=400, mem_limit=None,
                 group=None, machine_paths=600, modname=None, deps=()):
        self.name, self.mod, self.cfg, self.fn = name, mod, cfg, fn
        self.exact = exact
        self.args = args            # optional list: None = symbolic, int = concrete
        self.pre = pre              # function(list of arg terms) -> list of constraints
        self.max_steps = max_steps
        self.mem_limit = mem_limit
        self.group = group or name.split('/')[0]
        self.machine_paths = machine_paths
        self.modname = modname or ''
        self.deps = deps


def queries(p):
    m = p.mod
    q = []
    nif = m.nimp('func')
    for i, f in enumerate(m.funcs):
        f.export = 'f%d' % (nif + i)
    have = {(k, n) for n, k, i in m.exports}
    for i in range(len(m.memories)):
        if ('memory', 'M%d' % i) not in have:
            m.exports.append(('M%d' % i, 'memory', m.nimp('memory') + i))
    for i in range(len(m.globals)):
        if ('global', 'G%d' % i) not in have:
            m.exports.append(('G%d' % i, 'global', m.nimp('global') + i))
    for i in range(len(m.tables)):
        if ('table', 'T%d' % i) not in have:
            m.exports.append(('T%d' % i, 'table', m.nimp('table') + i))
    K = {'func': 0, 'table': 1, 'memory': 2, 'global': 3}
    for f in m.funcs:
        q.append((0, f.export))
    for n, k, i in m.exports:
        if n[0] in 'MGT' and n[1:].isdigit():
            q.append((K[k], n))
    return q


def encode_batch(progs):
    out = struct.pack('<I', len(progs))
    for p in progs:
        q = queries(p)
        b = p.mod.encode() if not isinstance(p.mod, bytes) else p.mod
        p.bytes = b
        nm = p.modname.encode()
        out += bytes(p.cfg) + struct.pack('<I', len(nm)) + nm + struct.pack('<I', len(b)) + b
        out += struct.pack('<I', len(q))
        for k, n in q:
            out += bytes([k]) + struct.pack('<I', len(n)) + n.encode()
    return out


class Compiled:
    def __init__(self):
        self.err = None
        self.sym = {}
        self.slots = {}
        self.gbuf = None
        self.ctx = None


def run_compile(runner, batchfile, snapfile, n, timeout=120):
    """returns list of Compiled (None where the process died)"""
    try:
        r = subprocess.run([runner, 'compile', batchfile, snapfile], capture_output=True, text=True, timeout=timeout,
                           stdin=subprocess.DEVNULL)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b'').decode(errors='replace'), 'timeout'
    res = []
    for l in out.splitlines():
        f = l.split()
        if not f:
            continue
        if f[0] == 'mod':
            res.append(Compiled())
        elif f[0] == 'err':
            res[-1].err = l[4:]
        elif f[0] == 'slot':
            res[-1].slots[f[2]] = int(f[1])
        elif f[0] == 'sym':
            res[-1].sym[(int(f[1]), f[2])] = int(f[3], 16)
        elif f[0] == 'gbuf':
            res[-1].gbuf = (int(f[1], 16), int(f[2]))
        elif f[0] == 'ctx':
            res[-1].ctx = int(f[1], 16)
    return res, (rc == 0 and out.rstrip().endswith('done')), rc


class Mismatch:
    def __init__(self, what, model, detail=''):
        self.what, self.model, self.detail = what, model, detail


class Result:
    def __init__(self, name):
        self.name = name
        self.status = 'ok'          # ok | violation | inconclusive | spurious
        self.paths = 0
        self.refpaths = 0
        self.excluded = 0
        self.cut = 0
        self.notes = []
        self.viol = None
        self.compared = 0


class Validator:
    """validates the programs of one compiled batch"""

    def __init__(self, runner, syms, work, tag, timeout_ms=20000, want='value'):
        self.want = want
        self.runner, self.syms, self.work, self.tag = runner, syms, work, tag
        self.solver = X.Solver(timeout_ms)
        self.fp_timeout = 60000
        self.steps = 0
        self.code = 0

    def load(self, progs, depth=0):
        """compile the batch; drops programs on which the compiler process dies (they become violations)"""
        self.results = []
        progs = list(progs)
        while True:
            bf, sf = os.path.join(self.work, self.tag + '.batch'), os.path.join(self.work, self.tag + '.snap')
            open(bf, 'wb').write(encode_batch(progs))
            comp, ok, rc = run_compile(self.runner, bf, sf, len(progs))
            if ok:
                break
            k = len(comp) - 1
            if k < 0 or depth > 20:
                raise RuntimeError('runner failed: rc=%s' % rc)
            p = progs.pop(k)
            open(bf, 'wb').write(encode_batch([p]))
            c1, ok1, rc1 = run_compile(self.runner, bf, sf, 1)
            r = Result(p.name)
            r.status = 'inconclusive' if ok1 else 'violation'
            r.viol = dict(program=p.name, what='compiling the module ends the process (exit %s)' % rc, wasm=p.bytes.hex(),
                          config=list(p.cfg))
            self.results.append(r)
            depth += 1
            if not progs:
                self.progs, self.comp = [], []
                return
        self.progs, self.comp = progs, comp
        self.snap = X.Snapshot(sf)
        os.unlink(sf)
        self.batchfile = bf
        self.ex = X.Exe(self.snap, solver=self.solver)
        libc.install(self.ex, self.syms)
        self.ex.garbage = [(FRAMEB, FRAMEB + FRAMESZ, 'frame'), (X.STACK_HI - X.STACK_SZ, X.STACK_HI, 'stk')]

    # ------------------------------------------------------------------------------------------ initial state
    def setup(self, p, c, conc=None):
        """reference state and, unless conc (dict of concrete inputs), machine state"""
        m, ex = p.mod, self.ex
        st = ex.new_state()
        rs = RefState()
        arrs = []
        inputs = []         # (replay location, offset, nbytes, term)
        growable = {}
        im = [i for i in m.imports if i[2] == 'memory']
        for k in range(len(im) + len(m.memories)):
            if k < len(im):
                d = im[k][3]
                if im[k][1] == 'native':
                    M = dict(base=NATB, size=1 << 32, pages=0x7fffffff, max=0x7fffffff, is64=True, native=True, loc='n')
                else:
                    j = int(im[k][1][1])
                    pg, mx, fx = SMALL.get(j, (65536, 65536, j in (2, 3, 5)))
                    M = dict(base=MEMB(j), size=pg * 65536, pages=pg, max=mx, is64=d[2], loc='m%d' % j, fixed=bool(fx),
                             struct=self.syms['xmem'] + 32 * j)
            else:
                j = k - len(im)
                a = c.sym[(2, 'M%d' % j)]
                init, mx, pages = (self.snap.u32(a + o) for o in (0, 4, 8))
                base = self.snap.u64(a + 16)
                M = dict(base=base, size=m.memories[j][0] * 65536, pages=m.memories[j][0], max=mx, is64=m.memories[j][2],
                         loc='M' + 'M%d' % j, struct=a, fixed=bool(self.snap.u8(a + 24)), own=True)
            if p.mem_limit:
                M['size'] = min(M['size'], p.mem_limit)
            nm = 'mem%d' % k
            M['name'] = nm
            M['arr'] = Arr.var(nm)
            M['bases'] = [M['base']]
            M['k'] = k
            if M['size']:
                arrs.append(X.ArrRegion(nm, M['base'], M['base'] + M['size']))
                st.arr[nm] = M['arr']
            if 'struct' in M and not M.get('fixed') and M['max'] - M['pages'] > 0:
                growable[M['base']] = k
                for n in range(1, 4):
                    arrs.append(X.ArrRegion('%s+%d' % (nm, n), GROWB(k, n), GROWB(k, n) + (16 << 16)))
            rs.mems.append(M)
        ex.arrs = arrs
        ex.growable = growable
        st.user['grow'] = 0
        im = [i for i in m.imports if i[2] == 'global']
        self.gaddr = []
        for k in range(len(im) + len(m.globals)):
            if k < len(im):
                t = im[k][3][0]
                j = int(im[k][1][1:])
                a = self.syms['gbuf'] + 8 * j
                loc = 'g%d' % j
                mut = True
            else:
                j = k - len(im)
                t, mut, _ = m.globals[j]
                a = c.sym[(3, 'G%d' % j)]
                loc = 'GG%d' % j
            self.gaddr.append((a, t))
            if mut:
                v = z3.BitVec('glob%d' % k, W[t])
                ex.store(st, a, W[t] // 8, v)
                inputs.append((loc, 0, W[t] // 8, v))
            else:
                v = ex.load(st, a, W[t] // 8)
            rs.globals.append(v)
        im = [i for i in m.imports if i[2] == 'table']
        self.taddr = []
        for k in range(len(im) + len(m.tables)):
            if k < len(im):
                t = im[k][3][0]
                j = int(im[k][1][1])
                a, n = self.syms['tent'] + 16 * 8 * j, TSIZE[j]
                loc = 't%d' % j
            else:
                j = k - len(im)
                t = m.tables[j][0]
                s = c.sym[(1, 'T%d' % j)]
                a, n = self.snap.u64(s + 16), m.tables[j][1]
                loc = 'TT%d' % j
            self.taddr.append((a, n))
            tab = []
            for i in range(n):
                if t == 'r':
                    v = z3.BitVec('tab%d_%d' % (k, i), 64)
                    ex.store(st, a + 8 * i, 8, v)
                    inputs.append((loc, 8 * i, 8, v))
                else:
                    v = ex.load(st, a + 8 * i, 8)
                tab.append(v)
            rs.tables.append(tab)
        # host function slots
        hostk = {}
        fi = 0
        for i in m.imports:
            if i[2] == 'func':
                if i[0] == 'env':
                    sig = i[1].split(':', 1)[1]
                    hostk[fi] = c.slots[sig]
                else:
                    hostk[fi] = self.cross(p, i)
                fi += 1
        for sig, k in c.slots.items():
            for o, b in enumerate(sig.encode() + b'\0'):
                ex.store(st, self.syms['hsig'] + 40 * k + o, 1, b)
        ex.store(st, self.syms['host_logn'], 8, 0)
        self.hostk = hostk
        # (all programs of a batch share one global configuration, which is in force in the snapshot)
        faddr = {}
        nif = m.nimp('func')
        for i in range(len(m.funcs)):
            faddr[c.sym[(0, 'f%d' % (nif + i))]] = nif + i
        for i, k in hostk.items():
            faddr[self.syms['hs%d' % k] if type(k) is int else k.addr] = i
        self.faddr = faddr
        # arguments
        params, results = m.fsig(nif + p.fn)
        offs, _ = layout(params, p.cfg[0] & 1)
        args = []
        for k, (t, o) in enumerate(zip(params, offs)):
            if p.args and p.args[k] is not None:
                v = p.args[k]
            else:
                v = z3.BitVec('p%d' % k, W[t])
                inputs.append(('f', o, W[t] // 8, v))
            if p.args and type(p.args[k]) is int:
                inputs.append(('f', o, W[t] // 8, v))
            args.append(v)
            ex.store(st, FRAME + o, W[t] // 8, v)
        for r in range(16):
            st.r[r] = z3.BitVec('reg%d' % r, 64)
            st.x[r] = (z3.BitVec('xmm%dl' % r, 64), z3.BitVec('xmm%dh' % r, 64))
        sp = X.STACK_HI - 4 * X.PG - 8
        st.r[4] = sp
        ex.store(st, sp, 8, X.RET)
        st.r[7] = c.sym[(0, 'f%d' % (nif + p.fn))]
        st.r[6] = FRAME
        st.rip = self.syms['pwart_call_wasm_function']
        return st, rs, args, results, inputs, params

    def cross(self, p, imp):
        """reference behaviour of a function imported from another module of the batch (one that has no state)"""
        k = [i for i, q in enumerate(self.progs) if q.modname == imp[0]][0]
        q, qc = self.progs[k], self.comp[k]
        fidx = int(imp[1][1:])

        def call(ref, args):
            m, h = ref.mod, ref.hostk
            ref.mod, ref.hostk = q.mod, {}
            r = ref.invoke(fidx, args)
            ref.mod, ref.hostk = m, h
            return r
        call.addr = qc.sym.get((0, imp[1]), 0)
        return call

    # ------------------------------------------------------------------------------------------ one program
    def check(self, p, c, budget=60.0):
        r = Result(p.name)
        if c.err is not None:
            r.status = 'violation'
            r.viol = dict(program=p.name, what='valid module rejected: ' + c.err, wasm=p.bytes.hex(), config=list(p.cfg))
            return r
        missing = [k for k, v in c.sym.items() if v == 0]
        if missing:
            r.status = 'violation'
            r.viol = dict(program=p.name, what='export missing: %s' % (missing,), wasm=p.bytes.hex(), config=list(p.cfg))
            return r
        ex = self.ex
        t0 = time.time()
        ex.deadline = self.solver.deadline = t0 + budget
        st0, rs, args, results, inputs, params = self.setup(p, c)
        pre = [T.toz3b(x) for x in p.pre(args)] if p.pre else []
        nif = p.mod.nimp('func')
        ref = Ref(p.mod, rs, self.solver, self.faddr, pre, p.max_steps, self.hostk, zero_init=bool(p.cfg[1] & 2), ext_index=bool(p.cfg[1] & 1))
        base_pages = dict(st0.pages)
        st0.own = set()
        st0.symown = set()
        init_syms = {k: dict(v) for k, v in st0.syms.items()}
        init_pages = {k: bytes(v) for k, v in st0.pages.items()}
        roffs, _ = layout(results, p.cfg[0] & 1)
        for pc, rres, rfin in ref.paths(nif + p.fn, args):
            r.refpaths += 1
            st = st0.clone()
            st.pc = [c_ for c_ in pc]
            st.model = None
            ex.paths = 0
            ex.max_paths = p.machine_paths
            for fin, out in ex.run(st):
                r.paths += 1
                if isinstance(out, X.Abort):
                    r.status = 'inconclusive'
                    r.notes.append(str(out))
                    if out.witness() and len(r.notes) <= 3 and self.solver.check(fin.pc) == 'sat' and \
                            self.report(r, p, c, str(out), self.solver.last, inputs, rs, params, results, roffs):
                        return self.fin(r, ref, t0)
                    continue
                if isinstance(out, X.Bug):
                    if isinstance(out.cond, bool):
                        res = self.solver.check(fin.pc)
                    else:
                        res = self.solver.check(fin.pc, out.cond)
                    if res != 'sat':
                        r.status = 'inconclusive'
                        r.notes.append('unresolved ' + str(out))
                        continue
                    if not self.report(r, p, c, str(out), self.solver.last, inputs, rs, params, results, roffs):
                        continue
                    return self.fin(r, ref, t0)
                viol = self.compare(p, fin, rfin, rres, results, roffs, st0, init_pages, init_syms, r)
                if viol is not None:
                    what, model = viol
                    if self.report(r, p, c, what, model, inputs, rs, params, results, roffs):
                        return self.fin(r, ref, t0)
            if time.time() - t0 > budget:
                r.notes.append('time budget')
                r.status = 'inconclusive' if r.status == 'ok' else r.status
                break
        return self.fin(r, ref, t0)

    def fin(self, r, ref, t0):
        r.excluded, r.cut = ref.excluded, ref.cut
        r.secs = time.time() - t0
        if r.status == 'ok' and not r.compared:
            r.status = 'vacuous'
        return r

    def compare(self, p, fin, rfin, rres, results, roffs, st0, init_pages, init_syms, r):
        ex = self.ex
        diffs = []           # (what, bool)
        for k, (t, o) in enumerate(zip(results, roffs)):
            v = ex.load(fin, FRAME + o, W[t] // 8)
            self.ne(diffs, 'result %d' % k, t, v, rres[k], p.exact)
        if self.want == 'abi':
            diffs = []
        for i in (3, 5, 12, 13, 14, 15) if self.want != 'value' else ():
            self.ne(diffs, 'callee-saved register %d' % i, 'I', fin.r[i], st0.r[i], True)
        if self.want != 'value':
            self.ne(diffs, 'stack pointer', 'I', fin.r[4], T.add(64, st0.r[4], 8), True)
            w = self.footprint(fin, init_pages, init_syms, rfin)
            if w is not None:
                diffs.append((w, True))
        if self.want == 'abi':
            return self.decide(p, fin, diffs, r)
        for k, M in enumerate(rfin.mems):
            A = fin.arr.get(M['name'])
            if A is None or type(A) is str:
                if 'grown' in M:
                    diffs.append(('memory %d growth' % k, True))
                continue
            if A is not M['arr'] and (A.up is not None or M['arr'].up is not None):
                q = ex.freshbv('q', 64)
                a, b = A.byte(q), M['arr'].byte(q)
                if type(a) is int or type(b) is int or not a.eq(b):
                    diffs.append(('memory %d contents' % k, T.b_and(T.ule(64, M['base'], q),
                                  T.ult(64, q, M['base'] + M['size']), T.b_not(T.eq(8, a, b)))))
            if 'struct' in M:
                self.ne(diffs, 'memory %d page count' % k, 'i', ex.load(fin, M['struct'] + 8, 4), M['pages'], True)
                self.ne(diffs, 'memory %d base' % k, 'I', ex.load(fin, M['struct'] + 16, 8), M['base'], True)
        for k, (a, t) in enumerate(self.gaddr):
            self.ne(diffs, 'global %d' % k, t, ex.load(fin, a, W[t] // 8), rfin.globals[k], True)
        for k, (a, n) in enumerate(self.taddr):
            for i in range(n):
                self.ne(diffs, 'table %d slot %d' % (k, i), 'I', ex.load(fin, a + 8 * i, 8), rfin.tables[k][i], True)
        if self.hostk:
            n = ex.load(fin, self.syms['host_logn'], 8)
            if type(n) is not int or n != len(rfin.log):
                diffs.append(('host calls', True))
            else:
                for i, v in enumerate(rfin.log[:250]):
                    self.ne(diffs, 'argument received by host function', 'I', ex.load(fin, self.syms['host_log'] + 8 * i, 8),
                            v, True)
        return self.decide(p, fin, diffs, r)

    def decide(self, p, fin, diffs, r):
        r.compared += 1
        live = [(w, T.simp(d)) for w, d in diffs]
        live = [(w, d) for w, d in live if d is not False]
        if not live:
            return None
        goal = T.b_or(*[d for w, d in live])
        res = self.solver.check(fin.pc, goal)
        if res == 'unsat':
            return None
        if res == 'sat' and not any(type(d) is not bool and T.has_uf(d) for w, d in live) and \
                not any(type(c) is not bool and T.has_uf(c) for c in fin.pc):
            m = self.solver.last
            return self.which(live, m), m
        # interpret the floating-point functions; array reads first as fresh variables (sound when that is unsat)
        t = time.time()
        tmo = self.fp_timeout
        if self.solver.deadline is not None:
            tmo = int(max(1000, min(tmo, 1000 * (self.solver.deadline + 3 - t))))
        fs = [T.real(c) for c in fin.pc if c is not True] + [T.real(T.toz3b(goal))]
        gs, n = noselect(fs)
        res2 = ''
        if n:
            s = z3.Solver()
            s.set('timeout', tmo)
            s.add(*gs)
            res2 = str(s.check())
        if res2 != 'unsat':
            s = z3.Solver()
            s.set('timeout', tmo)
            s.add(*fs)
            res2 = str(s.check())
        self.solver.queries += 1
        self.solver.time += time.time() - t
        if res2 == 'unsat':
            self.solver.unsat += 1
            return None
        if res2 == 'sat':
            self.solver.sat += 1
            m = s.model()
            return self.which([(w, T.real(d)) for w, d in live], m), m
        self.solver.unknown += 1
        r.status = 'inconclusive'
        r.notes.append('solver unknown on the comparison (%s)' % ', '.join(w for w, d in live[:4]))
        if res == 'sat':
            # a candidate from the uninterpreted abstraction: only native replay can confirm it
            self.solver.check(fin.pc, goal)
            return 'candidate: ' + self.which(live, self.solver.last), self.solver.last
        return None

    def which(self, live, m):
        out = []
        for w, d in live:
            if d is True or (type(d) is not bool and z3.is_true(m.eval(d, model_completion=True))):
                out.append(w)
        return ', '.join(dict.fromkeys(out)) or live[0][0]

    def ne(self, diffs, what, t, a, b, exact):
        w = W[t]
        if type(a) is int and type(b) is int:
            if a == b:
                return
        elif type(a) is not int and type(b) is not int and a.eq(b):
            return
        d = T.b_not(T.eq(w, a, b))
        if t in 'fF' and not exact:
            d = T.b_and(d, T.b_not(T.b_and(T.f_isnan(w, a), T.f_isnan(w, b))))
        if d is not False:
            diffs.append((what, d))

    def footprint(self, fin, init_pages, init_syms, rfin=None):
        """name of memory written outside what the function owns, or None"""
        ex = self.ex
        spg = (X.STACK_HI - 4 * X.PG) // X.PG
        fpg = FRAME // X.PG
        allowed = [(a, a + W[t] // 8) for a, t in self.gaddr] + [(a, a + 8 * n) for a, n in self.taddr]
        allowed += [(self.syms['host_log'], self.syms['host_log'] + 2048), (self.syms['host_logn'], self.syms['host_logn'] + 8)]
        allowed += [(M['struct'] + o, M['struct'] + o + n) for M in rfin.mems if M.get('grown') for o, n in ((8, 4), (16, 8))]
        for no, pg in fin.pages.items():
            a = no * X.PG
            if X.STACK_HI - X.STACK_SZ <= a < X.STACK_HI and no < spg:
                continue
            if FRAMEB <= a < FRAMEB + FRAMESZ and no >= fpg:
                continue
            if X.HEAP_LO <= a < X.STACK_HI - X.STACK_SZ:
                continue
            ip = init_pages.get(no)
            sy = fin.syms.get(no) or {}
            if ip is None:
                b = ex._base(no)
                ip = b[0]
                isy = ex._garbage_page(None, no) if b[2] is not None else {}
            else:
                isy = init_syms.get(no) or {}
            if bytes(pg) == ip and sy == isy:
                continue
            for o in range(X.PG):
                if any(lo <= a + o < hi for lo, hi in allowed):
                    continue
                e, f = sy.get(o), isy.get(o)
                if e is None and f is None:
                    if pg[o] != ip[o]:
                        return 'write outside the data the function owns at 0x%x' % (a + o)
                elif e is None or f is None or e[1] != f[1] or not (e[0] is f[0] or e[0].eq(f[0])):
                    return 'write outside the data the function owns at 0x%x' % (a + o)
        return None

    # ------------------------------------------------------------------------------------------ replay
    def report(self, r, p, c, what, model, inputs, rs, params, results, roffs):
        """replay the model natively; True if the real code deviates from the reference on it"""
        ev = lambda t: t if type(t) is int else model.eval(t, model_completion=True).as_long()
        conc = {}
        lines = ['module %d' % self.progs.index(p), 'config %d %d' % tuple(p.cfg)]
        for sig, k in c.slots.items():
            lines.append('slot %d %s' % (k, sig))
        sub = {}
        for loc, off, n, t in inputs:
            v = ev(t)
            if type(t) is not int:
                sub[t.get_id()] = v
            lines.append('set %s %d %s' % (loc, off, v.to_bytes(n, 'little').hex()))
        cv = lambda t: t if type(t) is int else sub[t.get_id()]
        # concrete reference run
        cs = RefState()
        for M in rs.mems:
            D = dict(M)
            D['arr'] = DictArr.from_model(model, M['name'])
            cs.mems.append(D)
        cs.globals = [cv(g) if type(g) is not int else g for g in rs.globals]
        cs.tables = [[cv(v) for v in t] for t in rs.tables]
        base = [dict(D['arr'].d) for D in cs.mems]
        arrs0 = [D['arr'] for D in cs.mems]
        nif = p.mod.nimp('func')
        args = []
        offs, _ = layout(params, p.cfg[0] & 1)
        for k, t in enumerate(params):
            if p.args and type(p.args[k]) is int:
                args.append(p.args[k])
            else:
                args.append(ev(z3.BitVec('p%d' % k, W[t])))
        cs.grow_ok = {n: z3.is_true(model.eval(z3.Bool('growok%d' % n), model_completion=True)) for n in range(8)}
        for n, ok in cs.grow_ok.items():
            if not ok:
                lines.append('growfail %d' % n)
        ref = Ref(p.mod, cs, self.solver, self.faddr, [], 100000, self.hostk, zero_init=bool(p.cfg[1] & 2), ext_index=bool(p.cfg[1] & 1))
        got = list(ref.paths(nif + p.fn, args))
        if len(got) != 1:
            r.notes.append('replay: reference excluded the input')
            r.status = 'inconclusive'
            return False
        _, rres, rfin = got[0]
        for D in arrs0:
            for a, v in sorted(D.d.items()):
                M = [x for x in rs.mems if x['name'] == D.name][0]
                if M['base'] <= a < M['base'] + M['size']:
                    lines.append('set %s %d %02x' % (M['loc'], a - M['base'], v))
        lines.append('call f%d 0' % (nif + p.fn))
        want = []
        for k, (t, o) in enumerate(zip(results, roffs)):
            lines.append('get f %d %d' % (o, W[t] // 8))
            want.append(('result %d' % k, t, rres[k], p.exact))
        glocs = [(l, o, n) for l, o, n, t in inputs if l[0] in 'gG']
        im = [i for i in p.mod.imports if i[2] == 'global']
        for k, (a, t) in enumerate(self.gaddr):
            loc = 'g' + im[k][1][1:] if k < len(im) else 'GG%d' % (k - len(im))
            lines.append('get %s 0 %d' % (loc, W[t] // 8))
            want.append(('global %d' % k, t, rfin.globals[k], True))
        im = [i for i in p.mod.imports if i[2] == 'table']
        for k, (a, n) in enumerate(self.taddr):
            loc = 't' + im[k][1][1] if k < len(im) else 'TT%d' % (k - len(im))
            if k < len(im) and im[k][3][0] != 'r' or k >= len(im) and p.mod.tables[k - len(im)][0] != 'r':
                continue
            for i in range(n):
                lines.append('get %s %d 8' % (loc, 8 * i))
                want.append(('table %d slot %d' % (k, i), 'I', rfin.tables[k][i], True))
        for i, v in enumerate(rfin.log[:250]):
            lines.append('get h %d 8' % (8 * i))
            want.append(('host call log %d' % i, 'I', v, True))
        for D, M, M0 in zip(rfin.mems, rs.mems, arrs0):
            qs = set(M0.d)
            x = D['arr']
            while getattr(x, 'kind', None) in ('st', 'fill', 'copy'):
                if x.kind == 'st':
                    qs.update(range(x.a, x.a + x.n))
                else:
                    qs.update(range(x.a - 2, x.a + min(x.n, 64) + 2))
                    qs.update(range(x.a + x.n - 2, x.a + x.n + 2))
                x = x.up
            for d in model.decls():
                if d.name().startswith('q!'):
                    qs.add(model[d].as_long())
            qs = {q - b for q in qs for b in D['bases'] if b <= q < b + D['size']}
            if 'grown' in D:
                qs |= {M['size'] - 1, M['size'], D['size'] - 1, D['size'] - 4096}
            if 'struct' in M:
                lines.append('get P%s 8 4' % (M['loc'].replace('m', 'x') if M['loc'][0] == 'm' else M['loc'][1:]))
                want.append(('memory %s page count' % M['loc'], 'i', D['pages'], True))
            for q in sorted(qs)[:4000]:
                lines.append('get %s %d 1' % (M['loc'], q))
                want.append(('memory %s byte %d' % (M['loc'], q), 'b', D['arr'].byte(q + D['base']), True))
        rf = os.path.join(self.work, self.tag + '.replay')
        open(rf, 'w').write('\n'.join(lines) + '\n')
        try:
            o = subprocess.run([self.runner, 'replay', self.batchfile, rf], capture_output=True, text=True, timeout=30,
                               stdin=subprocess.DEVNULL)
            out, rc = o.stdout, o.returncode
        except subprocess.TimeoutExpired as e:
            out, rc = (e.stdout or b'').decode(errors='replace'), 'timeout'
        bad = []
        if rc != 0:
            bad.append('the call ended with %s' % ('a time-out' if rc == 'timeout' else 'signal %d' % -rc if rc < 0 else 'exit %d' % rc))
        else:
            vals = [l.split() for l in out.splitlines() if l.startswith('val ')]
            called = [l.split()[1] for l in out.splitlines() if l.startswith('called ')]
            if called != ['1']:
                bad.append('a callee-saved register was not restored')
            for (w, t, v, ex_), f in zip(want, vals):
                g = int.from_bytes(bytes.fromhex(f[3]), 'little')
                if type(v) is not int:
                    continue
                if g != v:
                    if t in 'fF' and not ex_ and T.f_isnan(W[t], g) is True and T.f_isnan(W[t], v) is True:
                        continue
                    bad.append('%s is 0x%x, must be 0x%x' % (w, g, v))
        desc = dict(program=p.name, what=what, inputs={'%s+%d' % (l, o): hex(ev(t)) for l, o, n, t in inputs[:40]},
                    expected=[hex(v) if type(v) is int else str(v) for v in rres], native=bad[:6],
                    config=list(p.cfg), wasm=p.bytes.hex(), replay=lines[:400])
        if p.deps:
            desc['deps'] = [[q.modname, q.bytes.hex()] for q in p.deps]
        if bad:
            r.status = 'violation'
            r.viol = desc
            return True
        if what.startswith('write outside'):
            # natively invisible in results: confirmed by the executor only
            r.status = 'violation'
            desc['native'] = ['the write is not observable through the native interface; executor trace only']
            r.viol = desc
            return True
        if r.status == 'ok' or r.status == 'inconclusive':
            r.status = 'spurious' if not what.startswith('candidate') else 'inconclusive'
        r.notes.append('not reproduced natively: %s %s' % (what, json.dumps(desc['inputs'])[:300]))
        return False


def noselect(fs):
    """formulas with every array read replaced by a fresh variable, and the number of reads"""
    seen, subs = set(), []

    def walk(t):
        st = [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_select(x):
                subs.append((x, z3.BitVec('sel!%d' % len(subs), x.size())))
                continue
            st.extend(x.children())
    for f in fs:
        walk(f)
    return ([z3.substitute(f, *subs) for f in fs], len(subs)) if subs else (fs, 0)


class DictArr(Arr):
    __slots__ = ('d', 'default', 'name')

    def __init__(self, name):
        Arr.__init__(self, 'dict')
        self.d = {}
        self.default = 0
        self.name = name

    @staticmethod
    def from_model(model, name):
        A = DictArr(name)
        t = model.eval(z3.Array(name, z3.BitVecSort(64), z3.BitVecSort(8)), model_completion=True)
        while z3.is_store(t):
            a, i, v = t.arg(0), t.arg(1), t.arg(2)
            A.d.setdefault(i.as_long(), v.as_long())
            t = a
        if z3.is_K(t):
            A.default = t.arg(0).as_long()
        return A

    def _byte(self, addr):
        if addr not in self.d:
            self.d[addr] = self.default
        return self.d[addr]
