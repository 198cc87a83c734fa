#!/usr/bin/env python3
"""Tests of the loop rule: small loops, each with what the rule has to say about it.

usage: looptest.py        (exit 0 if every loop is judged as expected)
"""
import os
import shutil
import sys
import tempfile

PY = '/opt/venv/bin/python'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('PVC_CHILD') != '1':
    d = tempfile.mkdtemp(prefix='looptest')
    shutil.copytree('/repo/arboris', os.path.join(d, 'arboris'))
    env = dict(os.environ, PVC_CHILD='1', PVC_REPO=d, PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED='0')
    rc = os.spawnve(os.P_WAIT, PY, [PY, __file__] + sys.argv[1:], env)
    shutil.rmtree(d)
    sys.exit(rc)
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from pvc import run as R   # noqa: E402

# the elements: light ones (m = 0) and heavy ones (m > 0, position p)
TESTS = []


def test(ok, src, spec):
    TESTS.append((ok, src, spec))


def total_m(C, es, r):
    C.eq('sum', r, es.total(lambda e: e.m))


def total_mp(C, es, r):
    C.eq('sum', r, es.total(lambda e: e.m * e.p))


# ---- plain sums
test(True, '''
def f(es):
    r = 0.
    for e in es:
        r += e.m
    return r
''', total_m)
test(False, '''
def f(es):
    r = 0.
    for e in es:
        r = e.m
    return r
''', total_m)
test(True, '''
def f(es):
    return sum([e.m*e.p for e in es if e.m > 0])
''', total_mp)
test(False, '''
def f(es):
    return sum([e.m*e.p for e in es if e.p > 0])
''', total_mp)
# ---- the elements before the last one matter
test(False, '''
def f(es):
    r = 0.
    last = 0.
    for e in es:
        r += e.m
        if last > 1.:
            r += 1.
        last = e.m
    return r
''', total_m)
# ---- mixed kinds: a light element after a heavy one
test(False, '''
def f(es):
    r = 0.
    heavy = 0
    for e in es:
        r += e.m
        if e.m == 0:
            if heavy >= 2:
                r += 1.
        else:
            heavy += 1
    return r
''', total_m)
test(True, '''
def f(es):
    r = 0.
    heavy = 0
    for e in es:
        r += e.m
        if e.m == 0:
            if heavy >= 2:
                r += 0.
        else:
            heavy += 1
    return r
''', total_m)


# ---- mixed kinds: two sums that agree for each kind taken alone
def swapped(C, es, r):
    a = es.total(lambda e: e.m if e.heavy else 0)
    b = es.total(lambda e: 0 if e.heavy else e.p)
    C.eq('product', r[0] * r[1], a * b)


test(True, '''
def f(es):
    a, b = 0., 0.
    for e in es:
        if e.m > 0:
            a += e.m
        else:
            b += e.p
    return a, b
''', swapped)


def either(C, es, r):
    a = es.total(lambda e: e.m)
    C.eq('square', r[0] * r[1], a * a)


# a = b for light elements (both 0); a = -b or so for heavy ones is not
test(False, '''
def f(es):
    a, b = 0., 0.
    for e in es:
        a += e.m
        if e.p > 0:
            b += e.m
        else:
            b -= e.m
    return a, b
''', either)


def shuffled(C, es, r):
    a = es.total(lambda e: e.m)
    b = es.total(lambda e: e.p)
    C.eq('sum', r[0] + r[1], a + b)
    C.eq('product', r[0] * r[1], a * b)


# (a, b) is (M, P) for elements of one kind, (P, M) for the other: the product differs when mixed
test(False, '''
def f(es):
    a, b = 0., 0.
    for e in es:
        if e.p > 0:
            a += e.m
            b += e.p
        else:
            a += e.p
            b += e.m
    return a, b
''', shuffled)
test(True, '''
def f(es):
    a, b = 0., 0.
    for e in es:
        if e.p > 0:
            a += e.m
            b += e.p
        else:
            b += e.p
            a += e.m
    return a, b
''', shuffled)


# ---- what one kind only changes stays arbitrary after the loop
def flagged(C, es, r):
    C.eq('sum', r, es.total(lambda e: e.m))


test(False, '''
def f(es):
    r = 0.
    seen = False
    for e in es:
        r += e.m
        if e.m == 0:
            seen = True
    if seen:
        r += 0.
    if seen and r > 7.:
        r += 1.
    return r
''', flagged)
test(True, '''
def f(es):
    r = 0.
    seen = False
    for e in es:
        r += e.m
        if e.m == 0:
            seen = True
    if seen:
        return r
    return r*1.
''', flagged)


# ---- containers
def listed(C, es, r):
    n = es.total(lambda e: e.m if e.heavy else 0)
    C.eq('sum', r, n)


test(True, '''
def f(es):
    l = []
    for e in es:
        if e.m > 0:
            l.append(e)
    r = 0.
    for e in l:
        r += e.m
    return r
''', listed)
test(False, '''
def f(es):
    l = []
    for e in es:
        if e.m > 0 and len(l) < 3:
            l.append(e)
    r = 0.
    for e in l:
        r += e.m
    return r
''', listed)
test(False, '''
def f(es):
    l = []
    for e in es:
        if e.m > 0:
            l.append(e)
    r = 0.
    for e in l:
        r += e.m
        if e is l[0]:
            r += 1.
    return r
''', listed)
test(False, '''
def f(es):
    l = []
    for e in es:
        if e.m > 0:
            for o in l:
                if o.m == e.m:
                    break
            else:
                l.append(e)
    r = 0.
    for e in l:
        r += e.m
    return r
''', listed)
test(False, '''
def f(es):
    l = []
    add = l.append
    for e in es:
        if e.m > 0 and not (len(l) > 4):
            add(e)
    r = 0.
    for e in l:
        r += e.m
    return r
''', listed)
test(True, '''
class Box(object):
    pass
def f(es):
    b = Box()
    b.r = 0.
    b.l = []
    for e in es:
        b.l.append(e.m)
    for m in b.l:
        b.r += m
    return b.r
''', total_m)


# ---- leaving the loop
def found(C, es, r):
    if es.left:
        C.true('found', r is es.x and r.m == 7)
    elif es.first.m == 7:
        C.true('first', r is es.first)
    else:
        C.true('none', r is None and not es.x.m == 7)


test(True, '''
def f(es):
    for e in es:
        if e.m == 7:
            return e
''', found)
test(False, '''
def f(es):
    for e in es:
        if e.m >= 7:
            return e
''', found)
test(False, '''
def f(es):
    k = 0
    for e in es:
        k += 1
        if e.m == 7 and k < 5:
            return e
''', found)
test(False, '''
def f(es):
    r = None
    for e in es:
        if e.m == 7:
            r = e
    return r
''', found)
test(True, '''
def f(es):
    r = None
    for e in es:
        if e.m == 7:
            r = e
            break
    else:
        r = None
    return r
''', found)
# a loop cut short
test(False, '''
def f(es):
    r = 0.
    for e in es:
        if r > 10.:
            break
        r += e.m
    return r
''', lambda C, es, r: C.true('left', False) if es.left else total_m(C, es, r))
test(False, '''
def f(es):
    r = 0.
    try:
        for e in es:
            r += e.m
            if r > 10.:
                raise ValueError
    except ValueError:
        pass
    return r
''', total_m)
test(True, '''
def f(es):
    r = 0.
    for e in es:
        if e.m == 0:
            continue
        r += e.m
    return r
''', total_m)


# ---- changes to the elements, hidden state
test(False, '''
def f(es):
    r = 0.
    for e in es:
        r += e.m
        e.m = 0.
    return r
''', total_m)
test(False, '''
S = [0.]
def g(e):
    S[0] += 1.
    return e.m if S[0] < 5. else 0.
def f(es):
    S[0] = 0.
    r = 0.
    for e in es:
        r += g(e)
    return r
''', total_m)
test(False, '''
class Box(object):
    n = 0
def f(es):
    r = 0.
    Box.n = 0
    for e in es:
        Box.n += 1
        r += e.m if Box.n < 5 else 0.
    return r
''', total_m)
test(False, '''
def count():
    k = 0
    while True:
        k += 1
        yield k
def f(es):
    c = count()
    r = 0.
    for e in es:
        if next(c) < 5:
            r += e.m
    return r
''', total_m)
test(False, '''
def f(es):
    k = [0]
    def g(e):
        k[0] += 1
        return e.m if k[0] < 5 else 0.
    r = 0.
    for e in es:
        r += g(e)
    return r
''', total_m)
test(False, '''
def f(es):
    k = 0
    def g(e):
        nonlocal k
        k += 1
        return e.m if k < 5 else 0.
    return sum([g(e) for e in es])
''', total_m)
test(False, '''
def g(e, memo=[]):
    memo.append(e)
    return e.m if len(memo) < 5 else 0.
def f(es):
    r = 0.
    for e in es:
        r += g(e)
    return r
''', total_m)
test(False, '''
import numpy
def f(es):
    r = 0.
    n = numpy.zeros(2, dtype=int)
    for e in es:
        n[0] += 1
        r += e.m if n[0] < 5 else 0.
    return r
''', total_m)
test(False, '''
def f(es):
    r = 0.
    s = set()
    for e in es:
        s.add(e)
        r += e.m if len(s) < 5 else 0.
    return r
''', total_m)
test(False, '''
def f(es):
    r = 0.
    s = ''
    for e in es:
        s += 'a'
        r += e.m if s != 'aaaaa' else 0.
    return r
''', total_m)
test(False, '''
from itertools import count
def f(es):
    r = 0.
    c = count()
    for e in es:
        if next(c) < 5:
            r += e.m
    return r
''', total_m)
test(False, '''
def f(es):
    r = 0.
    c = iter(range(4))
    for e in es:
        if next(c, None) is not None:
            r += e.m
    return r
''', total_m)


def contract(src, spec):
    def body(C):
        class E(object):
            pass

        def make(tag):
            e = E()
            e.p = C.real('p_' + tag)
            e.heavy = C.choice('heavy_' + tag, [False, True])
            e.m = C.real('m_' + tag, 0, 9, strict=True) if e.heavy else C.const(0)
            return e
        es = C.any_number('es', make)
        spec(C, es, C.mod('looptest').f(es.seq()))
    return R.Contract('T', 't', body, loops=True)


def main():
    bad = 0
    f = os.path.join(os.environ['PVC_REPO'], 'arboris', 'looptest.py')
    for n, (ok, src, spec) in enumerate(TESTS):
        with open(f, 'w') as fh:
            fh.write(src)
        r = R.run_sym(contract(src, spec), 1, 'quick')
        why = r['unsupported'] + ['%s: %s' % (o['name'], o['detail'][-300:])
                                  for o in r['refuted'] + r['unknown']]
        got = not why and r['obligations'] > 0
        if got != ok:
            bad += 1
            print('test %d: %s' % (n, 'accepted' if got else 'not accepted'), src, why[:2])
        elif '-v' in sys.argv:
            print(n, 'accepted' if got else 'rejected: %s' % (why[:1] or '?'))
    print('%d loops, %d judged wrong' % (len(TESTS), bad))
    return bad


sys.exit(1 if main() else 0)
