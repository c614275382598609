"""Models of the libc functions the code under test calls, attached to the __wrap_ call points."""
import term as T
import exe as X


def _arr(ex, a):
    a = a if type(a) is int else None
    if a is None:
        return None
    for R in ex.arrs:
        if R.lo <= a < R.hi:
            return R
    return None


def arr_of(ex, st, p, n):
    """array region holding [p, p+n), or None when p is concrete memory"""
    if not ex.arrs:
        return None
    if type(p) is int:
        return _arr(ex, p)
    s = T.simp(p)
    if type(s) is int:
        return _arr(ex, s)
    v = ex.get_model(st).eval(p, model_completion=True).as_long()
    for R in ex.arrs:
        if R.lo <= v <= R.hi:
            nn = T.simp(n)
            import z3
            # p in [lo, hi] and n <= hi - p
            bad = T.toz3b(T.b_not(T.b_and(T.ule(64, R.lo, p), T.ule(64, p, R.hi), T.ule(64, nn, T.sub(64, R.hi, p)))))
            r = ex.solver.check(st.pc, bad)
            if r == 'unsat':
                return R
            if r == 'unknown':
                raise X.Abort('unknown on a block bounds query')
            raise X.Bug('memory', 'block operation outside the memory it is addressed to', bad)
    return None


def memset(ex, st):
    d, c, n = st.r[7], T.ext(64, st.r[6], 7, 0), st.r[2]
    R = arr_of(ex, st, d, n)
    if R is not None:
        st.arr[R.name] = st.arr[R.name].fill(d, n, c)
        return ex.ret(st, d)
    n = ex.concretize(st, n)
    if n > 1 << 20:
        raise X.Abort('memset of %d bytes' % n)
    d0 = ex.concretize(st, d)
    k = 0
    c8 = c * 0x0101010101010101 if type(c) is int else T.concat([(8, c)] * 8)
    while k + 8 <= n:
        ex.store(st, d0 + k, 8, c8)
        k += 8
    while k < n:
        ex.store(st, d0 + k, 1, c)
        k += 1
    ex.ret(st, d)


def memmove(ex, st, overlap_ok=True):
    d, s, n = st.r[7], st.r[6], st.r[2]
    Rd, Rs = arr_of(ex, st, d, n), arr_of(ex, st, s, n)
    if Rd is not None and Rs is not None:
        if not overlap_ok and Rd is Rs:
            c = T.b_or(T.eq(64, n, 0), T.eq(64, d, s), T.ule(64, T.add(64, s, n), d), T.ule(64, T.add(64, d, n), s))
            bad = T.simp(T.b_not(c))
            if bad is True or (bad is not False and ex.solver.check(st.pc, bad) != 'unsat'):
                raise X.Bug('memory', 'memcpy on overlapping blocks', bad)
        st.arr[Rd.name] = st.arr[Rd.name].copy(d, n, st.arr[Rs.name], s)
        return ex.ret(st, d)
    n = ex.concretize(st, n)
    if n > 1 << 20:
        raise X.Abort('memmove of %d bytes' % n)
    if n:
        d0 = ex.concretize(st, d) if Rd is None else d
        s0 = ex.concretize(st, s) if Rs is None else s
        if not overlap_ok and type(d0) is int and type(s0) is int and d0 != s0 and abs(d0 - s0) < n:
            raise X.Bug('memory', 'memcpy on overlapping blocks')
        vals = []
        k = 0
        while k < n:
            c = 8 if k + 8 <= n else 1
            vals.append((k, c, ex.load(st, T.add(64, s0, k), c)))
            k += c
        for k, c, v in vals:
            ex.store(st, T.add(64, d0, k), c, v)
    ex.ret(st, d)


def memcpy(ex, st):
    memmove(ex, st, False)


def alloc(ex, st, n):
    """n concrete; guard gap between blocks"""
    a = (st.brk + 47) & ~15
    st.brk = (a + n + 4095) & ~4095 if n >= 4096 else a + n
    if st.brk > X.HEAP_LO + (1 << 30):
        raise X.Abort('heap model exhausted')
    st.allocs[a] = n
    return a


def _garb(ex, st, a, n):
    k = 0
    while k < n:
        c = min(8, n - k)
        ex.store(st, a + k, c, ex.freshbv('heap', 8 * c))
        k += c


def failing(st):
    k = st.user.get('failat')
    if k is None:
        return False
    st.user['failat'] = k - 1 if k else None
    return k == 0


def malloc(ex, st):
    if failing(st):
        return ex.ret(st, 0)
    n = ex.concretize(st, st.r[7])
    if n > 1 << 24:
        return ex.ret(st, 0)
    a = alloc(ex, st, n)
    if n <= 1 << 16:
        _garb(ex, st, a, n)
    ex.ret(st, a)


def calloc(ex, st):
    if failing(st):
        return ex.ret(st, 0)
    n = ex.concretize(st, T.mul(64, st.r[7], st.r[6]))
    if n > 1 << 24:
        return ex.ret(st, 0)
    ex.ret(st, alloc(ex, st, n))


def free(ex, st):
    p = ex.concretize(st, st.r[7])
    if p:
        _free(ex, st, p)
    ex.ret(st, 0)


def _free(ex, st, p):
    if p in st.allocs:
        st.freed = st.freed + ((p, st.allocs.pop(p)),)
    elif X.HEAP_LO <= p < X.STACK_HI - X.STACK_SZ:
        raise X.Bug('heap', 'free of 0x%x, which is not a live block' % p)


def realloc_mem(ex, st, p, k, old, n):
    """growth of a wasm memory: whether it succeeds is an input"""
    from arr import Arr
    import z3
    j = st.user['grow']
    ok = z3.Bool('growok%d' % j)
    t = ex.branch(st, ok)
    if t is not True and t is not False:
        raise X.Fork([(ok, None, None), (z3.Not(ok), None, None)])
    st.user['grow'] = j + 1
    if not t:
        return ex.ret(st, 0)
    c = st.user.get('moves%d' % k, 0) + 1
    if c > 3 or n > 16 << 16:
        raise X.Abort('memory moved too often or too large')
    st.user['moves%d' % k] = c
    nm, base = 'mem%d+%d' % (k, c), 0x100000000000 + (k * 16 + c) * 0x200000000
    A = Arr.var(nm)
    if old is not None:
        sz = n if old.hi - old.lo > n else old.hi - old.lo
        if c > 1:
            sz = min(n, st.user['size%d' % k])
        A = A.copy(base, sz, st.arr[old.name], old.lo)
        st.arr[old.name] = 'moved'
    st.arr[nm] = A
    st.user['size%d' % k] = n
    ex.ret(st, base)


def realloc(ex, st):
    p, n = ex.concretize(st, st.r[7]), ex.concretize(st, st.r[6])
    if p in ex.growable:
        return realloc_mem(ex, st, p, ex.growable[p], _arr(ex, p), n)
    R = _arr(ex, p)
    if R is not None and p == R.lo and '+' in R.name:
        return realloc_mem(ex, st, p, int(R.name[3:].split('+')[0]), R, n)
    if n > 1 << 24:
        return ex.ret(st, 0)
    a = alloc(ex, st, n)
    if n <= 1 << 16:
        _garb(ex, st, a, n)
    if p:
        old = st.allocs.get(p)
        if old is None:
            if X.HEAP_LO <= p < X.STACK_HI - X.STACK_SZ:
                raise X.Bug('heap', 'realloc of 0x%x, which is not a live block' % p)
            old = ex.snap.u64(p - 8) & ~15      # glibc chunk size of a block made before the snapshot
            old -= 8
        for k in range(0, min(n, old), 8):
            c = min(8, min(n, old) - k)
            ex.store(st, a + k, c, ex.load(st, p + k, c))
        if p in st.allocs:
            _free(ex, st, p)
    ex.ret(st, a)


def _str(ex, st, p, lim=4096):
    """bytes of the string at p as hybrid values, forking on the position of the terminator"""
    p = ex.concretize(st, p)
    out = []
    while True:
        b = ex.load(st, p + len(out), 1)
        if type(b) is not int:
            r = ex.branch(st, T.eq(8, b, 0))
            if r is not True and r is not False:
                import z3
                c = r[0]
                raise X.Fork([(T.toz3b(T.eq(8, b, 0)), None, None), (T.toz3b(T.b_not(T.eq(8, b, 0))), None, None)])
            b = 0 if r else b
        if type(b) is int and b == 0:
            return out
        out.append(b)
        if len(out) > lim:
            raise X.Abort('string too long')


def strlen(ex, st):
    ex.ret(st, len(_str(ex, st, st.r[7])))


def strcmp(ex, st):
    a, b = ex.concretize(st, st.r[7]), ex.concretize(st, st.r[6])
    _cmp(ex, st, a, b, None)


def strncmp(ex, st):
    a, b = ex.concretize(st, st.r[7]), ex.concretize(st, st.r[6])
    _cmp(ex, st, a, b, ex.concretize(st, st.r[2]))


def _cmp(ex, st, a, b, n):
    i = 0
    while n is None or i < n:
        x, y = ex.load(st, a + i, 1), ex.load(st, b + i, 1)
        e = T.eq(8, x, y)
        t = ex.branch(st, e)
        if t is not True and t is not False:
            raise X.Fork([(T.toz3b(e), None, None), (T.toz3b(T.b_not(e)), None, None)])
        if not t:
            return ex.ret(st, T.ext(64, T.sub(64, T.zext(8, 64, x), T.zext(8, 64, y)), 63, 0))
        z = ex.branch(st, T.eq(8, x, 0))
        if z is not True and z is not False:
            raise X.Fork([(T.toz3b(T.eq(8, x, 0)), None, None), (T.toz3b(T.b_not(T.eq(8, x, 0))), None, None)])
        if z:
            break
        i += 1
        if i > 4096:
            raise X.Abort('string too long')
    ex.ret(st, 0)


def memcmp(ex, st):
    a, b, n = ex.concretize(st, st.r[7]), ex.concretize(st, st.r[6]), ex.concretize(st, st.r[2])
    for i in range(n):
        x, y = ex.load(st, a + i, 1), ex.load(st, b + i, 1)
        e = T.eq(8, x, y)
        t = ex.branch(st, e)
        if t is not True and t is not False:
            raise X.Fork([(T.toz3b(e), None, None), (T.toz3b(T.b_not(e)), None, None)])
        if not t:
            return ex.ret(st, T.sub(64, T.zext(8, 64, x), T.zext(8, 64, y)))
    ex.ret(st, 0)


def strcpy(ex, st):
    d, s = st.r[7], st.r[6]
    v = _str(ex, st, s)
    d0 = ex.concretize(st, d)
    for i, b in enumerate(v + [0]):
        ex.store(st, d0 + i, 1, b)
    ex.ret(st, d)


def _round(mode, w):
    def f(ex, st):
        lo, hi = st.x[0]
        v = T.fround(mode, w, T.ext(64, lo, w - 1, 0)) if mode != 'sqrt' else T.fsqrt(w, T.ext(64, lo, w - 1, 0))
        X_set(st, w, v)
        ex.ret(st)
    return f


def X_set(st, w, v):
    st.x[0] = (T.zext(w, 64, v), 0)


def _minmax(mn, w):
    def f(ex, st):
        a, b = T.ext(64, st.x[0][0], w - 1, 0), T.ext(64, st.x[1][0], w - 1, 0)
        lt = T.f_lt(w, a, b) if mn else T.f_lt(w, b, a)
        r = T.ite(T.f_isnan(w, a), w, b, T.ite(T.f_isnan(w, b), w, a, T.ite(lt, w, a, T.ite(
            T.b_or(T.f_lt(w, a, b), T.f_lt(w, b, a)), w, b, T.ite(T.f_sign(w, ex.freshbv('z', w)), w, a, b)))))
        X_set(st, w, r)
        ex.ret(st)
    return f


def sysconf(ex, st):
    n = ex.concretize(st, T.ext(64, st.r[7], 31, 0))
    if n == 30:
        return ex.ret(st, 4096)
    raise X.Abort('sysconf(%d)' % n)


def ret0(ex, st):
    ex.ret(st, 0)


def die(ex, st):
    raise X.Bug('exit', 'the code under test ended the process')


def sym_clobber(ex, st):
    for i in (0, 1, 2, 6, 7, 8, 9, 10, 11):
        st.r[i] = ex.freshbv('clob', 64)
    for i in range(16):
        st.x[i] = (ex.freshbv('clobx', 64), ex.freshbv('clobx', 64))
    st.fl = ('ex', None, None, None, None, None)
    ex.ret(st)


def cstr(ex, st, p):
    out = b''
    while True:
        b = ex.load(st, p + len(out), 1)
        if type(b) is not int:
            raise X.Abort('symbolic name')
        if b == 0:
            return out.decode()
        out += bytes([b])


# ---------------------------------------------------------------------- harness interface
def sym_bytes(ex, st):
    import z3
    p, n = ex.concretize(st, st.r[7]), ex.concretize(st, st.r[6])
    nm = cstr(ex, st, ex.concretize(st, st.r[2]))
    ins = st.user.setdefault('inputs', [])
    if any(i[0] == nm for i in ins):
        raise X.Abort('input name %s used twice' % nm)
    if n in (1, 2, 4, 8):
        v = z3.BitVec('in_' + nm, 8 * n)
        ex.store(st, p, n, v)
        ins.append((nm, n, (v,)))
    else:
        vs = tuple(z3.BitVec('in_%s_%d' % (nm, i), 8) for i in range(n))
        for i, v in enumerate(vs):
            ex.store(st, p + i, 1, v)
        ins.append((nm, n, vs))
    ex.ret(st)


def _b(st):
    return T.b_not(T.eq(32, T.ext(64, st.r[7], 31, 0), 0))


def sym_assume(ex, st):
    c = T.simp(_b(st))
    if c is not True:
        if c is False or not ex.assume(st, c):
            raise X.Stop()
    ex.ret(st)


def sym_assert(ex, st):
    c = T.simp(_b(st))
    st.user['asserts'] = st.user.get('asserts', 0) + 1
    if c is not True:
        what = cstr(ex, st, ex.concretize(st, st.r[6]))
        if c is False:
            raise X.Bug('assert', what)
        bad = T.toz3b(T.b_not(c))
        r = ex.solver.check(st.pc, bad)
        if r == 'sat' and (T.has_uf(bad) or any(type(q) is not bool and T.has_uf(q) for q in st.pc)):
            import z3
            s = z3.Solver()
            s.set('timeout', 20000)
            s.add(*[T.real(q) for q in st.pc if q is not True])
            s.add(T.real(bad))
            r = str(s.check())
            if r == 'sat':
                b = X.Bug('assert', what, bad)
                b.model = s.model()
                raise b
        if r == 'sat':
            raise X.Bug('assert', what, bad)
        if r == 'unknown':
            raise X.Abort('unknown on assertion ' + what)
    ex.ret(st)


def sym_reach(ex, st):
    st.user.setdefault('reach', []).append(cstr(ex, st, ex.concretize(st, st.r[7])))
    ex.ret(st)


def sym_note(ex, st):
    ex.ret(st)


def sym_pick(ex, st):
    ex.ret(st, ex.concretize(st, st.r[7]))


def sym_alloc_size(ex, st):
    p = ex.concretize(st, st.r[7])
    ex.ret(st, st.allocs.get(p, 0))


def sym_live(ex, st):
    ex.ret(st, len(st.allocs) - len(st.user.get('maps', ())))


def sym_maps(ex, st):
    ex.ret(st, len(st.user.get('maps', ())))


def sym_mapped(ex, st):
    """1 when [p, p+n) lies in one live mapping"""
    p, n = ex.concretize(st, st.r[7]), ex.concretize(st, st.r[6])
    ex.ret(st, int(any(lo <= p and p + n <= lo + sz for lo, sz in st.user.get('maps', {}).items())))


def sym_region(ex, st):
    """[p, p+n) of the array region becomes accessible or stops being so"""
    p, n, on = (ex.concretize(st, st.r[k]) for k in (7, 6, 2))
    av = st.user.get('arvalid', ())
    st.user['arvalid'] = av + ((p, p + n),) if on else tuple(x for x in av if x != (p, p + n))
    ex.ret(st)


def sym_fail(ex, st):
    """the next k-th allocation (0 = next) fails"""
    st.user['failat'] = ex.concretize(st, st.r[7])
    ex.ret(st)


def mmap(ex, st):
    n = ex.concretize(st, st.r[6])
    if st.user.get('nomap'):
        return ex.ret(st, X.M64)
    n = (n + 4095) & ~4095
    if n > 1 << 24:
        raise X.Abort('mmap of %d bytes' % n)
    st.brk = (st.brk + 8191) & ~4095
    a = alloc(ex, st, n + 4096)
    del st.allocs[a]
    a = (a + 4095) & ~4095
    st.brk = a + n + 4096
    st.allocs[a] = n
    m = dict(st.user.get('maps', {}))
    m[a] = n
    st.user['maps'] = m
    ex.ret(st, a)


def munmap(ex, st):
    p, n = ex.concretize(st, st.r[7]), ex.concretize(st, st.r[6])
    n = (n + 4095) & ~4095
    m = dict(st.user.get('maps', {}))
    for lo, sz in list(m.items()):
        if p < lo + sz and lo < p + n:
            del m[lo]
            del st.allocs[lo]
            if lo < p:
                m[lo] = st.allocs[lo] = p - lo
            if p + n < lo + sz:
                m[p + n] = st.allocs[p + n] = lo + sz - p - n
            st.freed = st.freed + ((max(lo, p), min(lo + sz, p + n) - max(lo, p)),)
    if p & 4095:
        raise X.Bug('heap', 'munmap of an unaligned address')
    st.user['maps'] = m
    ex.ret(st, 0)


HOOKS = dict(memset=memset, memmove=memmove, memcpy=memcpy, malloc=malloc, calloc=calloc, realloc=realloc, free=free,
             strlen=strlen, strcmp=strcmp, strncmp=strncmp, memcmp=memcmp, strcpy=strcpy, sysconf=sysconf, printf=ret0,
             fprintf=ret0, puts=ret0, exit=die, abort=die, pthread_mutex_lock=ret0, pthread_mutex_unlock=ret0,
             madvise=ret0, posix_madvise=ret0, mprotect=ret0, mmap=mmap, munmap=munmap, __assert_fail=die)
for _n, _m in (('ceil', 'rtp'), ('floor', 'rtn'), ('trunc', 'rtz'), ('rint', 'rne'), ('nearbyint', 'rne'), ('sqrt', 'sqrt')):
    HOOKS[_n] = _round(_m, 64)
    HOOKS[_n + 'f'] = _round(_m, 32)
HOOKS['fmin'], HOOKS['fmax'], HOOKS['fminf'], HOOKS['fmaxf'] = _minmax(1, 64), _minmax(0, 64), _minmax(1, 32), _minmax(0, 32)


def install(ex, syms):
    for n, f in HOOKS.items():
        a = syms.get('__wrap_' + n)
        if a is not None:
            ex.hooks[a] = f
    for n in ('clobber', 'bytes', 'assume', 'assert', 'reach', 'note', 'pick', 'alloc_size', 'live', 'maps', 'mapped', 'fail', 'region'):
        ex.hooks[syms['sym_' + n]] = globals()['sym_' + n]
