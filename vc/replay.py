"""Runs contract entry points natively (real compiled code) on concrete inputs, in a child process."""
import ctypes
import json
import os
import subprocess
import sys


class Native:
    def __init__(self, so):
        self.so = so

    def call(self, entry, cases, nout, niout, timeout=60):
        """cases: list of (doubles, ints); returns list of dict(status, out, iout)"""
        res = []
        i = 0
        while i < len(cases):
            job = json.dumps(dict(so=self.so, entry=entry, cases=cases[i:], nout=nout, niout=niout))
            p = subprocess.Popen([sys.executable, os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL)
            try:
                o, _ = p.communicate(job.encode(), timeout=timeout)
                st = p.returncode
            except subprocess.TimeoutExpired:
                p.kill()
                o, _ = p.communicate()
                st = 'timeout'
            n = 0
            for ln in o.decode(errors='replace').splitlines():
                if ln.startswith('R '):
                    res.append(json.loads(ln[2:]))
                    n += 1
            i += n
            if i < len(cases):
                if st == 0 and n == 0:
                    break
                res.append(dict(status='crash' if st != 'timeout' else 'timeout', out=None, iout=None, code=st))
                i += 1
                if len(res) > 40 and sum(1 for r in res if r['status'] != 'return') > 20:
                    break
        return res


def main():
    ctypes.CDLL(None).prctl(1, 9)   # PR_SET_PDEATHSIG: never outlive the check
    job = json.loads(sys.stdin.read())
    lib = ctypes.CDLL(job['so'], mode=os.RTLD_LAZY)
    f = getattr(lib, 'vcn_' + job['entry'])
    f.restype = ctypes.c_int
    for d, iv in job['cases']:
        a = (ctypes.c_double * max(1, len(d)))(*[float(x) for x in d])
        o = (ctypes.c_double * max(1, job['nout']))(*[float('nan')] * max(1, job['nout']))
        ia = (ctypes.c_longlong * max(1, len(iv)))(*iv)
        io = (ctypes.c_longlong * max(1, job['niout']))(*[-0x7ead] * max(1, job['niout']))
        st = f(a, o, ia, io)
        print('R ' + json.dumps(dict(status='return' if st == 0 else 'throw', out=list(o)[:job['nout']],
                                     iout=list(io)[:job['niout']])), flush=True)


if __name__ == '__main__':
    main()
