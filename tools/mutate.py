#!/usr/bin/env python3
"""Random single-token mutants of the files a property is anchored in, to find out what its check misses.
mutate.py PROP[,PROP...] N FILE...   (works on a scratch clone, reports survivors)"""
import os, random, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
import threading
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def strip(t):
    """comments blanked, same length"""
    def f(m):
        return re.sub(r'[^\n]', ' ', m.group(0))
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(\\.|[^"\n])*"', f, t, flags=re.S)


OPS = [
    (r'(?<=[\w\)\]]) \+ (?=[\w\(])', [' - ']), (r'(?<=[\w\)\]]) - (?=[\w\(])', [' + ']),
    (r'(?<=[\w\)\]])\+(?=[\w\(])', ['-']), (r'(?<=[\w\)\]])-(?=[\w\(])', ['+']),
    (r'(?<=[\w\)\]]) \* (?=[\w\(])', [' + ', ' / ']), (r'(?<=[\w\)\]])\*(?=[\w\(])', ['+', '/']), (r'(?<=[\w\)\]]) ?/ ?(?=[\w\(])', ['*']),
    (r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r' <= ', [' < ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']),
    (r'&&', ['||']), (r'\|\|', ['&&']),
    (r'(?<=[\[\(,] )[0-5](?= ?[\]\),])', ['0', '1', '2', '3']), (r'(?<=[\[\(,])[0-5](?=[\]\),])', ['0', '1', '2', '3']),
    (r'(?<=[=(,] )-(?=[\w\(])', ['']), (r'(?<=[=(,])-(?=[\w\(])', ['']),
    (r'\+=', ['-=']), (r'-=', ['+=']), (r'\bi\b', ['j']), (r'\bj\b', ['i']),
    (r'\bx\(', ['y(']), (r'\by\(', ['z(']), (r'\bz\(', ['w(']), (r'\bw\(', ['x(']),
    (r'(?<![\w.])2(?![\w.\]])', ['1', '3']), (r'0\.5\b', ['1.0']), (r'(?<![\w.])1\.0?(?![\w])', ['2.0']), (r'(?<![\w.])2\.0?(?![\w])', ['1.0']),
    (r'\bsin\b', ['cos']), (r'\bcos\b', ['sin']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\btrans\(', ['(']),
]


def mutants(path, text):
    c = strip(text)
    out = []
    for rx, reps in OPS:
        for m in re.finditer(rx, c):
            ln = c[c.rfind('\n', 0, m.start()) + 1:c.find('\n', m.end())]
            if re.match(r'\s*(#|template|typedef|using|namespace|class|struct|static const|UBITRACK|LOG4|BOOST)', ln) or 'assert' in ln or 'LOG4' in ln or '<<' in ln:
                continue
            for r in reps:
                if r != m.group(0):
                    out.append((m.start(), m.end(), r))
    # statement deletion
    for m in re.finditer(r'(?m)^[ \t]+[\w\(][^;{}\n]*[+*-]?=[^;{}\n]*;[ \t\r]*$', c):
        if not re.match(r'\s*(const|typedef|static|using|double|int|T |bool|float|for|return|if)', m.group(0)):
            out.append((m.start(), m.end(), ''))
    return out


def main():
    pid, n = sys.argv[1], int(sys.argv[2])
    files = sys.argv[3:]
    rng = random.Random(int(os.environ.get('MSEED', '7')))
    allm = []
    for f in files:
        t = open('/repo/' + f, encoding='latin1', newline='').read()
        allm += [(f,) + m for m in mutants(f, t)]
    rng.shuffle(allm)
    allm = allm[:n]
    base = '/tmp/w/mut'
    W = int(os.environ.get('MW', '3'))
    pool = []
    for i in range(W):
        d = '%s%d_%d' % (base, os.getpid(), i)
        subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
        pool.append(d)
    lock = threading.Lock()
    stat = {}

    def go(m):
        f, a, b, r = m
        with lock:
            d = pool.pop()
        p = os.path.join(d, f)
        t = open(p, encoding='latin1', newline='').read()
        try:
            open(p, 'w', encoding='latin1', newline='').write(t[:a] + r + t[b:])
            try:
                for x in pid.split(','):
                    q = subprocess.run(['python3-vt', 'check.py', x], cwd=H, stdout=-1, stderr=subprocess.STDOUT, text=True, timeout=900,
                                       env=dict(os.environ, VC_REPO=d, VC_NO_EVIDENCE='1'))
                    rc, o = q.returncode, q.stdout
                    if rc:
                        break
            except subprocess.TimeoutExpired:
                rc, o = 9, ''
        finally:
            open(p, 'w', encoding='latin1', newline='').write(t)
            with lock:
                pool.append(d)
        ln = t.count('\n', 0, a) + 1
        line = t[t.rfind('\n', 0, a) + 1:t.find('\n', b)].strip()
        k = {0: 'SURVIVED', 1: 'caught', 2: 'nocompile'}.get(rc, 'rc%d' % rc)
        if rc == 1 and 'no-failing-input-found' in o and not re.search(r'VIOLATION [^\n]*json\n', o):
            k = 'caught-noinput'
        with lock:
            stat[k] = stat.get(k, 0) + 1
            if k not in ('caught', 'nocompile'):
                print('%s %s:%d  %r -> %r   | %s' % (k, f, ln, t[a:b].strip(), r, line[:140]), flush=True)
    with ThreadPoolExecutor(W) as tp:
        list(tp.map(go, allm))
    print(pid, 'mutants', len(allm), stat)
    for d in pool:
        shutil.rmtree(d)


main()
