"""Extraction: compiles the contract entry points together with /repo's current sources, to LLVM IR and to native code."""
import os
import re
import subprocess

from ir import Module

REPO = os.environ.get('VC_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMPAT = '/opt/vp/cmake/compat'


def incs():
    r = []
    for d in (os.path.join(HERE, 'contracts'), COMPAT, REPO + '/src', REPO + '/3rd/boost-bindings',
              REPO + '/3rd/log4cpp/include', REPO + '/3rd/tinyxml'):
        r += ['-I', d]
    return r


DEFS = ['-DHAVE_LAPACK', '-DCOMPILER_USE_CXX11', '-DHAVE_MSGPACK', '-DNDEBUG', '-DVC_REPO=' + REPO]


class BuildError(Exception):
    pass


def run(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise BuildError(' '.join(cmd[:3]) + ' ...: ' + p.stdout.decode(errors='replace')[-3000:])


def ir(cpp, entries, out, defs=()):
    src = os.path.join(HERE, 'contracts', cpp)
    ll = os.path.join(out, cpp + '.ll')
    run(['clang++-18', '-std=gnu++14', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-math-errno', '-ffp-contract=off', '-w',
         '-include', 'ctime'] + DEFS + list(defs) + incs() + ['-S', '-emit-llvm', src, '-o', ll])
    ol = os.path.join(out, cpp + '.opt.ll')
    run(['opt-18', '-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>),globaldce',
         '-internalize-public-api-list=' + ','.join(entries), '-S', ll, '-o', ol])
    os.unlink(ll)
    return ol


def load_module(path):
    m = Module(open(path).read())
    names = set(m.funcs) | set(m.decls)
    lst = sorted(names)
    txt = '\n'.join(n.strip('@').strip('"') for n in lst)
    p = subprocess.run(['llvm-cxxfilt-18'], input=txt.encode(), stdout=subprocess.PIPE)
    dem = p.stdout.decode().split('\n')
    tab = dict(zip(lst, dem))
    m.demtab = tab
    m.demangle = lambda n: tab.get(n, n)
    return m


def native(cpp, out, defs=()):
    src = os.path.join(HERE, 'contracts', cpp)
    so = os.path.join(out, cpp + '.so')
    run(['g++', '-std=gnu++14', '-O2', '-DNDEBUG', '-fPIC', '-shared', '-w', '-include', 'ctime'] + DEFS + list(defs) + incs() +
        [src, os.path.join(HERE, 'contracts', 'stubs.cc'), '-o', so, '-llapack', '-lblas', '-lboost_serialization',
         '-lboost_filesystem', '-lboost_regex', '-lboost_system', '-lboost_thread', '-lpthread',
         '-Wl,--unresolved-symbols=ignore-all'])
    return so
