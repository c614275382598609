"""C harnesses over the code under test: each harness function is executed symbolically from a snapshot of the real process;
its inputs come from sym_bytes, its property is in sym_assert."""
import json
import os
import subprocess
import time
import z3
import term as T
import exe as X
import libc
import tv
from arr import Arr

HDIR = os.path.join(os.path.dirname(tv.HERE), 'harness')
SP0 = X.STACK_HI - 4 * X.PG - 8


class HarnessFamily:
    level = 'model_checking'
    tasks = 400
    budget = {'quick': 60, 'thorough': 300}
    timeout_ms = {'quick': 10000, 'thorough': 30000}

    def __init__(self, pid, src, extra=(), pwart=True, sljit=True, what='', bounds='', assume=(), objs=(), maxenum=300, hooks=None,
                 pick=None, arrs=(), arrzero=False, oneshot=0):
        self.pid, self.src, self.extra, self.pwart, self.sljit = pid, src, list(extra), pwart, sljit
        self.what, self.bounds, self.assume, self.objs, self.maxenum = what, bounds, list(assume), objs, maxenum
        self.hooks = hooks or {}
        self.pick = pick          # function(name, arg, tier, seed) -> bool
        self.arrs, self.arrzero, self.oneshot = list(arrs), arrzero, oneshot

    def build(self, ctx, san=False):
        w, R = ctx['work'], tv.REPO
        objs = []
        if self.pwart:
            objs.append(tv.compile_obj(w, R + '/pwart/pwart.c'))
        if self.sljit:
            objs.append(tv.compile_obj(w, R + '/sljit/sljit_src/sljitLir.c'))
        for o, ex in self.objs:
            objs.append(tv.compile_obj(w, o.replace('$R', R), [e.replace('$R', R) for e in ex]))
        src = [os.path.join(HDIR, s) for s in ([self.src] if type(self.src) is str else self.src)]
        exe = tv.build(w, w + '/xh', src + [tv.HERE + '/hmain.c', tv.HERE + '/xcore.c'], objs,
                       [e.replace('$R', R) for e in self.extra] + ['-I' + HDIR])
        ctx['xh'] = exe
        ctx['syms'] = tv.symbols(exe)
        return exe

    def asan(self, ctx):
        """the same harness with the code under test under AddressSanitizer, for replay of memory errors"""
        w, R = ctx['work'], tv.REPO
        out = w + '/xh_asan'
        if not os.path.exists(out):
            src = [os.path.join(HDIR, s) for s in ([self.src] if type(self.src) is str else self.src)]
            src += [tv.HERE + '/hmain.c', tv.HERE + '/xcore.c']
            if self.pwart:
                src.append(R + '/pwart/pwart.c')
            if self.sljit:
                src.append(R + '/sljit/sljit_src/sljitLir.c')
            ex = []
            for o, e in self.objs:
                src.append(o.replace('$R', R))
                ex += [x.replace('$R', R) for x in e]
            cmd = ['gcc', '-O1', '-g', '-w', '-fsanitize=address', '-fno-omit-frame-pointer', '-I' + R + '/include', '-I' + R + '/sljit/sljit_src',
                   '-I' + tv.HERE, '-I' + R, '-I' + HDIR] + [e.replace('$R', R) for e in self.extra] + ex + \
                ['-Wl,--wrap=' + x for x in tv.WRAPS] + src + ['-o', out + '.%d' % os.getpid(), '-lm', '-lpthread']
            r = subprocess.run(cmd, cwd=w, capture_output=True, text=True)
            if r.returncode:
                return None
            os.rename(out + '.%d' % os.getpid(), out)
        return out

    def prepare(self, ctx):
        self.build(ctx)
        sf = ctx['work'] + '/snap'
        try:
            r = subprocess.run([ctx['xh'], 'snap', sf], capture_output=True, text=True, timeout=120, stdin=subprocess.DEVNULL)
            ok = r.returncode == 0 and 'ready' in r.stdout
            why = 'exit %d: %s' % (r.returncode, (r.stdout + r.stderr)[-300:])
        except subprocess.TimeoutExpired:
            ok, why = False, 'time-out'
        ctx['jobs'] = []
        if not ok:
            ctx['setup_failed'] = why
            ctx['njobs'] = 1
            return 1
        snap = X.Snapshot(sf)
        a = ctx['syms']['harnesses']
        ctx['sf'] = sf
        while snap.u64(a):
            nm, fn, n = snap.cstr(snap.u64(a)).decode(), snap.u64(a + 8), snap.u64(a + 16)
            for k in range(max(n, 1)):
                if ctx['only'] and ctx['only'] not in '%s/%d' % (nm, k):
                    continue
                if self.pick and not self.pick(nm, k, ctx['tier'], ctx['seed']):
                    continue
                ctx['jobs'].append((nm, fn, k))
            a += 24
        ctx['njobs'] = len(ctx['jobs'])
        import random
        random.Random(3).shuffle(ctx['jobs'])
        return ctx['njobs']

    def names(self, ctx):
        return ['%s/%d' % (j[0], j[2]) for j in ctx['jobs']]

    def engine(self, ctx):
        if 'ex' not in self.__dict__:
            self.snap = X.Snapshot(ctx['sf'])
            self.solver = X.Solver(self.timeout_ms[ctx['tier']])
            self.ex = X.Exe(self.snap, solver=self.solver, max_steps=30000000, max_paths=1000000)
            libc.install(self.ex, ctx['syms'])
            for n, f in self.hooks.items():
                if n in ctx['syms']:
                    self.ex.hooks[ctx['syms'][n]] = f
            self.ex.garbage = [(X.STACK_HI - X.STACK_SZ, X.STACK_HI, 'stk')]
            self.ex.maxenum = self.maxenum
            self.ex.syms = ctx['syms']
            self.ex.alias = self.arrzero
            self.solver.oneshot = self.oneshot
            self.ex.arrs = [X.ArrRegion(*a) for a in self.arrs]
        return self.ex

    def run_job(self, ctx, k):
        if ctx.get('setup_failed'):
            return dict(results=[dict(name='setup', status='violation', notes=[], viol=dict(program='setup', harness='setup', what=
                        'the native set-up of the harness (ordinary use of the library) fails: ' + ctx['setup_failed']))], stats={})
        nm, fn, arg = ctx['jobs'][k]
        ex = self.engine(ctx)
        so = self.solver
        t0 = time.time()
        q0, s0 = so.stats(), ex.steps
        share = 3 * max(0, ctx['deadline'] - 15 - t0) * 8 / (ctx['njobs'] - k + 8)
        ex.deadline = so.deadline = t0 + max(2, min(self.budget[ctx['tier']], share, ctx['deadline'] - 12 - t0))
        ex.paths = 0
        st = ex.new_state()
        for r in range(16):
            st.r[r] = z3.BitVec('reg%d' % r, 64)
            st.x[r] = (z3.BitVec('xmm%dl' % r, 64), z3.BitVec('xmm%dh' % r, 64))
        st.r[4] = SP0
        ex.store(st, SP0, 8, X.RET)
        st.r[7] = arg
        for R in ex.arrs:
            st.arr[R.name] = Arr.zero() if self.arrzero else Arr.var(R.name)
        name = '%s/%d' % (nm, arg)
        res = dict(name=name, status='ok', paths=0, compared=0, notes=[], viol=None, cut=0, excluded=0)
        reach = {}
        for fin, out in ex.run(st, fn):
            if out == 'stop':
                res['excluded'] += 1
                continue
            res['paths'] += 1
            for t in fin.user.get('reach', ()):
                reach[t] = reach.get(t, 0) + 1
            res['compared'] += fin.user.get('asserts', 0)
            if isinstance(out, X.Abort):
                res['status'] = 'inconclusive'
                res['notes'].append(str(out))
                if out.witness() and len(res['notes']) <= 3 and so.check(fin.pc) == 'sat':
                    b = X.Bug('path', str(out))
                    b.kind = 'assert'
                    if self.confirm(ctx, res, nm, arg, fin, b, so.last):
                        break
                if len(res['notes']) > 50:
                    break
                continue
            if isinstance(out, X.Bug):
                cond = () if isinstance(out.cond, bool) else (out.cond,)
                if so.check(fin.pc, *cond) != 'sat':
                    res['status'] = 'inconclusive'
                    res['notes'].append('unresolved ' + str(out))
                    continue
                m = getattr(out, 'model', None) or so.last
                if self.confirm(ctx, res, nm, arg, fin, out, m):
                    break
        res['reach'] = reach
        if res['status'] == 'ok' and not res['compared']:
            res['status'] = 'vacuous'
        res['secs'] = time.time() - t0
        q1 = so.stats()
        stats = {k_: (q1[k_] - q0[k_] if not k_.startswith('longest') else q1[k_]) for k_ in q1}
        stats['instructions_executed'] = ex.steps - s0
        return dict(results=[res], stats=stats)

    def confirm(self, ctx, res, nm, arg, fin, bug, m):
        """native replay; True when the real code shows the failure"""
        lines, ins = [], {}
        for n, k, vs in fin.user.get('inputs', ()):
            b = b''.join(int(m.eval(v, model_completion=True).as_long()).to_bytes(v.size() // 8, 'little') for v in vs)
            lines.append('%s %s' % (n, b.hex()))
            ins[n] = b.hex()
        rf = os.path.join(ctx['work'], 'replay.%d' % os.getpid())
        open(rf, 'w').write('\n'.join(lines) + '\n')
        how = self.native(ctx['xh'], nm, arg, rf)
        if how is None and bug.kind != 'assert':
            a = self.asan(ctx)
            if a:
                how = self.native(a, nm, arg, rf)
        sy = sorted((v, k) for k, v in ctx['syms'].items() if v <= getattr(bug, 'rip', 0))
        where = ' in %s' % sy[-1][1] if sy and sy[-1][0] else ''
        d = dict(program='%s/%d' % (nm, arg), harness=nm, arg=arg, what=str(bug) + (where if bug.kind != 'assert' else ''), inputs=ins,
                 native=[how or 'not reproduced'], replay=lines)
        if how is None:
            res['status'] = 'spurious' if res['status'] == 'ok' else res['status']
            res['notes'].append('not reproduced natively: %s %s' % (d['what'], json.dumps(ins)[:1500]))
            return False
        res['status'] = 'violation'
        res['viol'] = d
        return True

    def native(self, exe, nm, arg, rf):
        try:
            r = subprocess.run([exe, 'replay', nm, str(arg), rf], capture_output=True, text=True, timeout=40, stdin=subprocess.DEVNULL,
                               errors='replace', env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
        except subprocess.TimeoutExpired:
            return 'the native run did not end'
        if 'assume-false' in r.stdout:
            return None
        for l in r.stdout.splitlines():
            if l.startswith('REPLAY assert-failed'):
                return l[7:]
        if 'REPLAY end' in r.stdout and r.returncode == 0:
            return None
        if 'AddressSanitizer' in r.stderr:
            return [l for l in r.stderr.splitlines() if 'AddressSanitizer' in l][0][:200]
        return 'the native run ended with %s' % ('signal %d' % -r.returncode if r.returncode < 0 else 'exit %d' % r.returncode)

    def coverage(self, ctx, res):
        reach = {}
        for r in res:
            for t, n in (r.get('reach') or {}).items():
                reach[t] = reach.get(t, 0) + n
        return dict(technique='symbolic execution of the compiled C code of /repo from harness entry points; z3 decides every assertion on '
                              'every path', functions_encoded=self.what, bounds=self.bounds, reachability_witnesses=reach,
                    harnesses=sorted({r['name'] for r in res})[:200],
                    states=max(1, sum(r.get('paths', 0) for r in res)))

    def assumptions(self, ctx):
        return ['gcc -O1 x86-64 build of the sources in /repo; x86 instruction semantics as modelled in xsym/isa.py',
                'libc functions are modelled (xsym/libc.py); allocation succeeds unless the harness makes it fail'] + self.assume

    def replay(self, d, work):
        ctx = dict(work=work)
        self.build(ctx)
        rf = os.path.join(work, 'r.txt')
        open(rf, 'w').write('\n'.join(d.get('replay', [])) + '\n')
        print('harness', d['program'], '-', d['what'])
        print('recorded native failure:', d.get('native'))
        how = self.native(ctx['xh'], d['harness'], d.get('arg', 0), rf)
        if how is None:
            a = self.asan(ctx)
            how = a and self.native(a, d['harness'], d.get('arg', 0), rf)
        print('native run now:', how or 'no failure')
        return 1 if how else 0
