#!/usr/bin/env python3-vt
"""Which results of the contract entries does no clause look at?  audit.py PROP [REGEX]
Every native result is disturbed in one place; a place where no sample then breaks the contract is reported."""
import os, random, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(H, 'vc'), os.path.join(H, 'contracts')]
import runner
pid, rx = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else '.'
real = runner.native_search


def search(u, so, envs):
    import replay
    nat = replay.Native(so)
    cases, keep = [], []
    for e in envs[:30]:
        try:
            d = u.env_inputs(e)
            cases.append((d, u.env_iinputs(e))); keep.append(e)
        except Exception:
            pass
    got = nat.call(u.rec['entry'], cases, len(u.out), len(u.iout))
    free = []
    for kind, n in (('out', len(u.out)), ('iout', len(u.iout))):
        for i in range(n):
            hit = seen = 0
            for e, (d, iv), g in zip(keep, cases, got):
                if g['status'] != 'return' or g[kind][i] != g[kind][i] or (kind == 'iout' and g[kind][i] == -0x7ead):
                    continue
                seen += 1
                v = g[kind][i]
                for w in ([v + 0.01 * (1 + abs(v)), v - 0.01 * (1 + abs(v))] if kind == 'out' else [v + 1, v - 1]):
                    h = dict(g); h[kind] = list(g[kind]); h[kind][i] = w
                    if runner.contract_holds(u, e, d, h):
                        hit = 1
                        break
                if hit:
                    break
            if seen and not hit:
                free.append('%s[%d]' % (kind, i))
    print('AUDIT %-28s %s' % (u.rec['name'] if 'name' in u.rec else u.rec['entry'], ' '.join(free) if free else 'ok'), flush=True)
    return None


runner.native_search = search
sys.argv = ['check.py', pid, '--only', rx]
os.environ['VC_NO_EVIDENCE'] = '1'
src = open(os.path.join(H, 'check.py')).read()
exec(compile(src, os.path.join(H, 'check.py'), 'exec'), {'__name__': '__main__', '__file__': os.path.join(H, 'check.py')})
