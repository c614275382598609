#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--list] [--only SUBSTR]
Decides one property by symbolic execution of the code under /repo (see DESIGN.md)."""
import argparse
import hashlib
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'xsym'))
sys.setrecursionlimit(20000)
QUICK_S, THOROUGH_S = 330, 780


def known():
    """known findings: lines 'known: property=<id> key=<key> <text>' (suppress) and 'fixed: ...' (suppress nothing)"""
    d = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            f = l.split()
            if l.startswith('known: '):
                d[(f[1].split('=', 1)[1], f[2].split('=', 1)[1])] = ' '.join(f[3:])
    return d


def source_id():
    h = hashlib.sha256()
    import tv
    for base in ('pwart', 'include', 'sljit/sljit_src', 'sljit/regex_src', 'pwart_syslib'):
        for r, ds, fs in os.walk(os.path.join(tv.REPO, base)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.c', '.h')):
                    h.update(open(os.path.join(r, f), 'rb').read())
    return h.hexdigest()[:16]


# ------------------------------------------------------------------------------------------------- workers
_G = {}


def _init(fam, ctx):
    _G['fam'], _G['ctx'] = fam, ctx
    _G['n'] = 0


def _job(k):
    fam, ctx = _G['fam'], _G['ctx']
    try:
        return fam.run_job(ctx, k)
    except Exception:
        return dict(job=k, error=traceback.format_exc(), results=[])


def run_jobs(fam, ctx, njobs, deadline, nproc=8):
    out, left = [], 0
    mpc = mp.get_context('fork')
    with mpc.Pool(nproc, _init, (fam, ctx), maxtasksperchild=getattr(fam, 'tasks', 6)) as pool:
        hs = [pool.apply_async(_job, (k,)) for k in range(njobs)]
        for h in hs:
            t = deadline - time.time()
            try:
                out.append(h.get(max(t, 0.05)))
            except mp.TimeoutError:
                left += 1
        pool.terminate()
    return out, left


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--only', default='')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = ap.parse_args()
    import families
    pid = a.prop
    work = tempfile.mkdtemp(prefix='xsym_%s_' % pid)
    t0 = time.time()
    rc = 0
    try:
        rc = go(a, pid, work, families, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def go(a, pid, work, families, t0):
    fam = families.get(pid)
    if a.replay:
        return fam.replay(json.load(open(a.replay)), work)
    limit = THOROUGH_S if a.tier == 'thorough' else QUICK_S
    ctx = dict(work=work, tier=a.tier, seed=a.seed, only=a.only, pid=pid, deadline=t0 + limit)
    njobs = fam.prepare(ctx)
    if a.list:
        for n in fam.names(ctx):
            print(n)
        return 0
    jobs, left = run_jobs(fam, ctx, njobs, t0 + limit)
    ev = dict(property=pid, tier=a.tier, seed=a.seed)
    res = [r for j in jobs for r in j['results']]
    errors = [j['error'] for j in jobs if j.get('error')]
    kn = known()
    viols, knowns, seen = [], [], set()
    rd = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith(pid + '-'):
            os.unlink(os.path.join(rd, f))
    for r in sorted(res, key=lambda r: r['name']):
        if a.v or (a.only and r['status'] != 'ok'):
            print(r['name'], r['status'], r.get('paths'), '%.2f' % r.get('secs', 0), r.get('notes'), (r.get('viol') or {}).get('what'),
                  (r.get('viol') or {}).get('native'), (r.get('viol') or {}).get('inputs'))
        if r['status'] != 'violation':
            continue
        key = r.get('key') or r['name']
        if (pid, key) in kn:
            if key not in seen:
                knowns.append((key, kn[(pid, key)]))
            seen.add(key)
            continue
        viols.append(r)
    st = {}
    for r in res:
        st[r['status']] = st.get(r['status'], 0) + 1
    for key, txt in knowns:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, key, txt))
    vlist = []
    for i, r in enumerate(viols[:10]):
        p = os.path.join(rd, '%s-%d.json' % (pid, i))
        v = dict(r['viol'])
        v['property'] = pid
        v['replay_command'] = 'python3-vt %s/check.py %s --replay %s' % (HERE, pid, p)
        json.dump(v, open(p, 'w'), indent=1)
        vlist.append(dict(what=str(v.get('what'))[:300], program=r['name'], replay=p))
        if i < 5:
            print('VIOLATION property=%s replay=%s' % (pid, p))
            print('  %s: %s %s' % (r['name'], v.get('what'), v.get('native') or ''))
    if len(viols) > 5:
        print('  ... %d violating programs in total' % len(viols))
    tot = {}
    for j in jobs:
        for k, x in (j.get('stats') or {}).items():
            tot[k] = max(tot.get(k, 0), x) if k.startswith('longest') else round(tot.get(k, 0) + x, 3)
    bad = [r for r in res if r['status'] in ('inconclusive', 'spurious', 'vacuous')]
    cov = fam.coverage(ctx, res)
    cov.update(dict(programs=len(res), by_status=st, disagreements_checked=sum(r.get('compared', 0) for r in res),
                    machine_paths=sum(r.get('paths', 0) for r in res), reference_paths=sum(r.get('refpaths', 0) for r in res),
                    inputs_excluded_paths=sum(r.get('excluded', 0) for r in res),
                    paths_cut_at_bound=sum(r.get('cut', 0) for r in res),
                    programs_not_reached_in_time=left, worker_errors=len(errors), solver=tot,
                    not_decided=[dict(program=r['name'], status=r['status'], why=[str(n)[:200] for n in r.get('notes', [])[:2]])
                                 for r in bad[:40]],
                    samples=[dict(program=r['name'], paths=r.get('paths'), secs=round(r.get('secs', 0), 3)) for r in
                             random.Random(a.seed).sample(res, min(8, len(res)))],
                    source_sha=source_id()))
    cov['violation_list'] = vlist
    if errors:
        cov['first_error'] = errors[0][-600:]
    level = fam.level
    if level == 'model_checking':
        cov.setdefault('states', max(1, cov['machine_paths']))
        cov.setdefault('transitions', max(1, cov['disagreements_checked']))
        cov.setdefault('traces_validated_against_impl', max(1, cov['machine_paths']))
    ev.update(level=level, coverage=cov, assumptions=fam.assumptions(ctx), violations=len(viols), wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %s; %d paths, %d queries, solver %.1fs, wall %.1fs%s' % (
        pid, a.tier, ' '.join('%s=%d' % x for x in sorted(st.items())), cov['machine_paths'], tot.get('queries', 0), tot.get('solver_s', 0),
        time.time() - t0, '; %d jobs out of time' % left if left else ''))
    if errors:
        print('worker errors: %d\n%s' % (len(errors), errors[0][-1500:]))
    if viols:
        return 1
    if not st.get('ok') and not knowns:
        print('nothing could be decided')
        return 2
    return 0


if __name__ == '__main__':
    main()
