"""Runs the units of a property, decides the outcome, replays failures, writes evidence."""
import importlib
import json
import math
import multiprocessing
import os
import pickle
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'vc'))
sys.path.insert(0, os.path.join(HERE, 'contracts'))
sys.setrecursionlimit(100000)

import term as tm
import prove
import build
import replay
from unit import UNITS, CONTRACTS, Unit, verify, flat, UF
from prove import MP
import properties as props


def child(rec, mod, path, tier, seed, limit):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        u = Unit(rec, tier, seed)
        r = verify(u, mod, time.time() + limit * 0.9)
        d = r.as_dict()
    except Exception as e:
        d = dict(name=rec['name'], error='internal: ' + traceback.format_exc()[-1500:], failed=[], undecided=[], obligations=0,
                 discharged=0, paths=0, by={}, functions={}, contracts={}, trusted=[], assumed=[], wall=0, z3_s=0, notes=[])
    with open(path, 'wb') as f:
        pickle.dump(d, f)
    os._exit(0)


def closure(names):
    """units of a property plus the units that discharge the in-repo contracts they may use"""
    return list(dict.fromkeys(names))


def schedule(todo, mods, tmp, tier, seed, jobs=8):
    """run units in forked children with a wall limit"""
    results = {}
    running = {}
    queue = list(todo)
    ctx = multiprocessing.get_context('fork')
    while queue or running:
        while queue and len(running) < jobs:
            n = queue.pop(0)
            rec = UNITS[n]
            smp = rec.get('sampled') or (rec.get('quick_sampled') if tier == 'quick' else None)
            if smp:
                results[n] = dict(name=n, error='sampled stand-in: ' + smp, failed=[], undecided=[], obligations=0,
                                  discharged=0, paths=0, by={}, functions={}, contracts={}, trusted=[], assumed=[], wall=0,
                                  z3_s=0, notes=[])
                continue
            limit = rec.get('limit', 120 if tier == 'quick' else 900)
            if tier != 'quick':
                limit *= 4
            path = os.path.join(tmp, n + '.pkl')
            p = ctx.Process(target=child, args=(rec, mods[rec['cpp']], path, tier, seed, limit))
            p.start()
            running[n] = (p, path, time.time() + limit)
        for n, (p, path, dl) in list(running.items()):
            if not p.is_alive() or time.time() > dl:
                if p.is_alive():
                    p.kill()
                p.join()
                del running[n]
                if os.path.exists(path):
                    results[n] = pickle.load(open(path, 'rb'))
                else:
                    results[n] = dict(name=n, error='time or memory limit of the unit', failed=[], undecided=[], obligations=0,
                                      discharged=0, paths=0, by={}, functions={}, contracts={}, trusted=[], assumed=[], wall=0,
                                      z3_s=0, notes=[])
        time.sleep(0.02)
    return results


# ------------------------------------------------------------------ numeric evaluation of the contract on native results
class NotANumber:
    """stands for a NaN result in an oracle: any use but the test x != x is refused, as comparisons with NaN would hold by accident"""
    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True

    def __hash__(self):
        return 0

    def __repr__(self):
        return 'nan'


def _refuse(*_):
    raise ValueError('the result is not a number')


for _n in ('add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow neg pos abs lt le gt ge float int index '
           'bool round trunc floor ceil divmod').split():
    setattr(NotANumber, '__%s__' % _n, _refuse)
NOTNUM = NotANumber()


def contract_holds(u, env, inp, got):
    """None if the native result satisfies the contract, otherwise a description of the first broken clause"""
    import z3
    import struct
    from symex import Cond
    if got['status'] in ('crash', 'timeout'):
        return 'the call ended with %s' % got['status']
    e = dict(env)
    for n in u.ghosts:
        e[n] = float('nan')
    ev = tm.NumEval(e, MP, UF)
    if got['status'] == 'throw':
        if u.throw_may:
            return None
        if u.throw_if is None:
            return 'the call threw an exception'
        r = prove.cond_eval(u.throw_if, ev, 0)
        return 'the call threw an exception where the contract forbids it' if r is False else None
    if u.throw_if is not None and prove.cond_eval(u.throw_if, ev, 0) is True:
        return 'the call returned where the contract requires an exception'
    bad = {}
    for i, v in enumerate(got['out']):
        e['out!%d' % i] = v
        if v != v or v in (float('inf'), float('-inf')):
            bad['out!%d' % i] = v
    isub = []
    for i, v in enumerate(got['iout']):
        isub.append((z3.BitVec('iout!%d' % i, 64), z3.BitVecVal(v, 64)))
    for n in getattr(u, 'iins_s', {}):
        isub.append((z3.BitVec(n, 64), z3.BitVecVal(env[n], 64)))

    def ctruth(c, tol):
        if c.k == 'bv':
            r = z3.simplify(z3.substitute(c.a, *isub))
            return True if z3.is_true(r) else False if z3.is_false(r) else None
        if c.k == 'and':
            rs = [ctruth(x, tol) for x in c.a]
            return False if any(x is False for x in rs) else (None if None in rs else True)
        if c.k == 'or':
            rs = [ctruth(x, tol) for x in c.a]
            return True if any(x is True for x in rs) else (None if None in rs else False)
        v = ev(c.a)
        if v != v:
            return None
        t = tol
        return {'lt': v < t, 'le': v <= t, 'eq': abs(v) <= t, 'ne': True}[c.k]
    for name, f in u.oracles:
        try:
            why = f(env, inp, [NOTNUM if v != v else v for v in got['out']], got['iout'])
        except (ValueError, ZeroDivisionError, OverflowError, IndexError, TypeError) as ex:
            why = 'the result lies outside the domain of the oracle (%s)' % ex
        if why:
            return '%s: %s' % (name, why)
    for ob in u.obs:
        # a guard counts only when it holds with a margin
        if any(strict_false(c, ev, isub) for c in ob.when):
            continue
        tol = ob.tol if ob.tol is not None else u.tol
        if ob.kind == 'eq':
            used = [n for n in tm.free_vars([ob.a, ob.b]) if n in bad]
            y = ev(ob.b)
            if used:
                if y == y and not MP.isinf(y):
                    return '%s: the result is %s, the contract requires %s' % (ob.name, bad[used[0]], MP.nstr(y, 12))
                continue
            x = ev(ob.a)
            if x != x or y != y:
                continue
            if abs(x - y) > tol * (1 + abs(y) + in_scale(inp)):
                return '%s: the result is %s, the contract requires %s' % (ob.name, MP.nstr(x, 15), MP.nstr(y, 15))
        else:
            from unit import conds_terms
            used = [n for n in tm.free_vars(conds_terms(ob.a)) if n in bad]
            if used:
                return '%s: the result is %s' % (ob.name, bad[used[0]])
            if ctruth(ob.a, tol * (1 + in_scale(inp))) is False:
                return '%s does not hold' % ob.name
    return None


def in_scale(inp):
    return 0.0


def strict_false(c, ev, isub):
    import z3
    if c.k == 'bv':
        return not z3.is_true(z3.simplify(z3.substitute(c.a, *isub)))
    if c.k == 'and':
        return any(strict_false(x, ev, isub) for x in c.a)
    if c.k == 'or':
        return all(strict_false(x, ev, isub) for x in c.a)
    v = ev(c.a)
    if v != v:
        return True
    if c.k in ('lt', 'le'):
        return not v < -1e-9
    if c.k == 'eq':
        return not abs(v) < 1e-30
    return not abs(v) > 1e-9


def native_search(u, so, envs):
    """first env whose native result breaks the contract: (env, inputs, got, why)"""
    nat = replay.Native(so)
    cases = []
    keep = []
    for e in envs:
        try:
            d = u.env_inputs(e)
            if any(x != x for x in d):
                continue
            cases.append((d, u.env_iinputs(e)))
            keep.append(e)
        except Exception:
            continue
    got = nat.call(u.rec['entry'], cases, len(u.out), len(u.iout))
    for e, (d, iv), g in zip(keep, cases, got):
        # the contract is evaluated at the exact binary inputs
        why = contract_holds(u, e, d, g)
        if why:
            return e, d, iv, g, why
    return None


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-replay', action='store_true')
    ap.add_argument('--native', action='store_true', help='also compare every contract with native runs')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    pid = a.property
    props.load(pid)
    names = closure(props.units_of(pid))
    if a.only:
        names = [n for n in UNITS if re.search(a.only, n)]
    tmp = tempfile.mkdtemp(prefix='vc_')
    try:
        rc = run_property(pid, names, tmp, a, seed, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc


def run_property(pid, names, tmp, a, seed, t0):
    tier = a.tier
    cpps = sorted({UNITS[n]['cpp'] for n in names})
    mods, berr = {}, {}

    def comp(c):
        try:
            ents = sorted({UNITS[n]['entry'] for n in UNITS if UNITS[n]['cpp'] == c})
            return c, build.load_module(build.ir(c, ents, tmp)), None
        except build.BuildError as e:
            return c, None, str(e)
    with ThreadPoolExecutor(8) as tp:
        for c, m, e in tp.map(comp, cpps):
            if e:
                berr[c] = e
            else:
                mods[c] = m
    for c in [c for c in berr if all(UNITS[n].get('optional') for n in UNITS if UNITS[n]['cpp'] == c)]:
        # invariants over representation details that this tree no longer has: the black-box units decide alone
        print('not available on this tree: %s' % c)
        names = [n for n in names if UNITS[n]['cpp'] != c]
        del berr[c]
    if berr:
        for c, e in berr.items():
            sys.stderr.write('cannot compile %s against /repo:\n%s\n' % (c, e))
        return 2
    bt = time.time() - t0
    order = sorted(names, key=lambda n: -UNITS[n].get('cost', 1))
    kf = props.known_findings(pid)
    # the same sources, compiled natively, for replay and for comparing the model with the running code
    npool = ThreadPoolExecutor(4)
    sos = {c: npool.submit(build.native, c, tmp) for c in {UNITS[n]['cpp'] for n in names}} if not a.no_replay else {}

    def so_of(c):
        return sos[c].result()
    res = schedule(order, mods, tmp, tier, seed)
    compared = {}
    violations = []
    known_hit = []
    bounded = {}
    for n in names:
        r = res[n]
        if a.v:
            print('%-34s paths %3d  obl %4d ok %4d  fail %d und %d assumed %d  %.1fs %s' % (
                n, r['paths'], r['obligations'], r['discharged'], len(r['failed']), len(r['undecided']), len(r['assumed']),
                r['wall'], r['error'] or ''))
            for f in r['failed'][:6]:
                print('    FAILED %s: %s  env=%s' % (f['name'], f['reason'], {k: (round(v, 4) if isinstance(v, float) else v) for k, v in list((f['env'] or {}).items())[:14]}))
            for f in r['undecided'][:6]:
                print('    UNDECIDED %s: %s' % (f['name'], f['reason']))
            for f in r['assumed'][:4]:
                print('    ASSUMED %s: %s %s' % (f['name'], f['reason'], f['env'] and {k: (round(v, 4) if isinstance(v, float) else v) for k, v in list(f['env'].items())[:8]}))
            for f in r['notes']:
                print('    note', f)
        need = r['failed'] or r['undecided'] or r['error'] or any(x['env'] for x in r['assumed'])
        if a.no_replay:
            continue
        u = Unit(UNITS[n], tier, seed)
        # directed replay: refuting points first, then sampled points of the contract's domain
        rng = random.Random(seed * 31 + len(n))
        refuting = [f['env'] for f in r['failed'] if f['env'] and u.pre_ok(f['env'], 1e-6, False)]
        envs = [f['env'] for f in r['assumed'] if f['env']]
        envs += [f['env'] for f in r['undecided'] if f.get('env')]
        envs = refuting + [e for e in envs if u.pre_ok(e, 1e-6)]
        hard = bool(r['failed'])
        nsamp = u.nsamp * (1 if tier == 'quick' else 12)
        if not need and tier == 'quick' and not a.native:
            nsamp = max(20, nsamp // 4)    # proved: the native run only guards the model against the compiled code
        envs += u.pool(nsamp, rng) if nsamp else []
        compared[n] = len(envs)
        try:
            bad = native_search(u, so_of(UNITS[n]['cpp']), envs)
        except build.BuildError as e:
            sys.stderr.write(str(e))
            return 2
        if bad:
            k = props.match_known(kf, n, r, bad)
            if k:
                known_hit.append(k)
                continue
            violations.append((n, r, bad))
        elif hard:
            k = props.match_known(kf, n, r, None)
            if k:
                known_hit.append(k)
                continue
            violations.append((n, r, None))
        if (r['undecided'] or r['error']) and not bad and not hard:
            bounded[n] = len(envs)
    # ---- outcome
    for k in dict.fromkeys(known_hit):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    rdir = os.path.join(HERE, 'evidence', 'replay')
    rc = 0
    for n, r, bad in violations:
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, '%s_%s.json' % (pid, n))
        d = dict(property=pid, unit=n, failed_obligations=r['failed'][:20], undecided=r['undecided'][:20], error=r['error'],
                 functions=sorted(r['functions'])[:60])
        if bad:
            e, inp, iv, g, why = bad
            d['replay'] = dict(entry=UNITS[n]['entry'], contract_file=UNITS[n]['cpp'], inputs=inp, int_inputs=iv, result=g, broken=why,
                               variables={k: v for k, v in e.items()})
        json.dump(d, open(p, 'w'), indent=1, default=str)
        if bad:
            print('unit %s: %s' % (n, bad[4]))
            print('VIOLATION property=%s replay=%s' % (pid, p))
        else:
            print('unit %s: obligation failed: %s' % (n, '; '.join('%s (%s)' % (f['name'], f['reason']) for f in r['failed'][:3])))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
        rc = 1
    evidence(pid, names, res, tier, seed, t0, bt, violations, bounded, known_hit, mods, compared)
    tot = sum(r['obligations'] for r in res.values())
    dis = sum(r['discharged'] for r in res.values())
    print('%s: %d units, %d obligations, %d discharged, %d bounded units, %d violations, %.1f s' % (
        pid, len(names), tot, dis, len(bounded), len(violations), time.time() - t0))
    return rc


def evidence(pid, names, res, tier, seed, t0, bt, violations, bounded, known_hit, mods, compared):
    if os.environ.get('VC_NO_EVIDENCE'):
        return
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    fns = {}
    by = {}
    trusted = set()
    assumed = []
    contracts = {}
    for n in names:
        r = res[n]
        for k in r['functions']:
            if 'Ubitrack' in k and 'operator()' not in k[:0]:
                fns.setdefault(re.sub(r'\s+', ' ', k)[:200], []).append(n)
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
        trusted |= set(r['trusted'])
        contracts.update(r['contracts'])
        for x in r['assumed']:
            assumed.append('%s: %s (not discharged: %s)' % (n, x['name'], x['reason']))
    tot = sum(r['obligations'] for r in res.values())
    dis = sum(r['discharged'] for r in res.values())
    ass = list(props.GLOBAL_ASSUMPTIONS)
    ass += ['in-repo callee represented by its contract at call sites: %s (%s), discharged by unit(s) %s' % (
        k, v[:120], ', '.join(CONTRACTS[k].proved_by)) for k, v in sorted(contracts.items())]
    ass += sorted(set(assumed))[:120]
    if trusted:
        ass.append('trusted external contracts: ' + ', '.join(sorted(t.strip('@') for t in trusted))[:3000])
    bnd = {n: UNITS[n]['bounded'] for n in names if UNITS[n].get('bounded')}
    bnd.update({n: 'contract checked on sampled inputs only (%s)' % UNITS[n]['sampled'] for n in names if UNITS[n].get('sampled')})
    if tier == 'quick':
        bnd.update({n: 'contract checked on sampled inputs only in the quick tier (%s)' % UNITS[n]['quick_sampled'] for n in names if UNITS[n].get('quick_sampled')})
    for n, b in bnd.items():
        ass.append('bounded unit %s: %s' % (n, b))
    lvl = 'other' if pid in props.BOUNDED else 'proof'
    cov = dict(obligations=tot, discharged=dis, checker_cmd='python3-vt /verif/check.py %s --tier %s' % (pid, tier),
               trusted_base=['clang 18 front end and the LLVM passes sroa/early-cse/simplifycfg/instcombine',
                             'the VC generator and term rewriting in /verif/vc', 'z3', 'cvc5', 'mpmath (refutation and replay only)'],
               units={n: dict(paths=res[n]['paths'], obligations=res[n]['obligations'], discharged=res[n]['discharged'],
                              undecided=len(res[n]['undecided']), error=res[n]['error'], wall_s=round(res[n]['wall'], 2),
                              bounded=bnd.get(n)) for n in names},
               backends=by, solver_s=round(sum(r['z3_s'] for r in res.values()), 2), extraction_s=round(bt, 2),
               functions_executed=len(fns), functions={k: v[:4] for k, v in sorted(fns.items())[:150]},
               undecided_units_checked_by_sampling={n: c for n, c in bounded.items()},
               native_comparisons=sum(compared.values()), known_findings=sorted(set(known_hit)))
    if lvl == 'other':
        cov['explanation'] = props.BOUNDED[pid]
    d = dict(property=pid, tier=tier, seed=seed, level=lvl, coverage=cov, assumptions=ass, wall_s=round(time.time() - t0, 2),
             violations=len(violations))
    json.dump(d, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
