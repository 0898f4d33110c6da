"""C07: a thread computes what its Python function computes.

Every program of a bounded grammar is compiled by veriloggen, run for every
input valuation, and its complete print trace compared with CPython running
the very same source."""
import importlib.util
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import *
import rtl
import iv

import veriloggen as vg
import veriloggen.thread as vthread

Q = tier() == 'quick'
NX = 8           # values of the path input


# ---------------------------------------------------------------------------
# control skeletons
def blocks(n, loop, memo={}):
    """all statement blocks with n nodes; loop: inside a loop"""
    k = (n, loop)
    if k in memo:
        return memo[k]
    out = [] if n else [()]
    for first in range(1, n + 1):
        for s in stmts(first, loop):
            for rest in blocks(n - first, loop):
                if s[0] in 'BCR' and rest:
                    continue
                out.append((s,) + rest)
    memo[k] = out
    return out


def stmts(n, loop, memo={}):
    k = (n, loop)
    if k in memo:
        return memo[k]
    out = []
    if n == 1:
        out = [('L',), ('R',)] + ([('B',), ('C',)] if loop else [])
    else:
        out += [('I', b) for b in blocks(n - 1, loop)]
        for a in range(1, n - 1):
            for b1 in blocks(a, loop):
                for b2 in blocks(n - 1 - a, loop):
                    out.append(('IE', b1, b2))
        out += [('W', b) for b in blocks(n - 1, True)]
        out += [('F', b) for b in blocks(n - 1, True)]
    memo[k] = out
    return out


class Gen(object):
    def __init__(self, pid, variant=0):
        self.pid, self.v = pid, variant
        self.k = 0
        self.lines = []

    def nid(self):
        self.k += 1
        return self.k

    def block(self, b, ind):
        for s in b:
            self.stmt(s, ind)

    def emit(self, ind, t):
        self.lines.append('    ' * ind + t)

    def cond(self, j):
        forms = ('(x ^ t) & %d' % (1 << (j % 3)), '((x + t) >> %d) & 1 == 1' % (j % 3),
                 'not (x + t) & %d' % (1 << (j % 3)), '(x & %d) and (t & 1) == 0 or t > 50' % (1 << (j % 3)),
                 '0 < (x + t) %% 4 <= %d' % (1 + j % 2))
        return forms[(j + self.v) % len(forms)]

    def stmt(self, s, ind):
        k = self.nid()
        p = self.pid
        if s[0] == 'L':
            f = (k + self.v) % 4
            if f == 0:
                self.emit(ind, 't = (t * 2 + %d) & 63' % k)
            elif f == 1:
                self.emit(ind, 't = h%d(t, %d)' % (p, k))
            elif f == 2:
                self.emit(ind, 't += %d' % k)
                self.emit(ind, 't &= 63')
            else:
                self.emit(ind, 't, x = (t + x) & 63, (x + 1) & 7')
            self.emit(ind, "print('T%d %d %%d %%d' %% (t, x))" % (p, k))
        elif s[0] == 'R':
            self.emit(ind, 'return t + %d' % k)
        elif s[0] == 'B':
            self.emit(ind, 'break')
        elif s[0] == 'C':
            self.emit(ind, 'continue')
        elif s[0] == 'I':
            self.emit(ind, 'if %s:' % self.cond(k))
            self.block(s[1], ind + 1)
        elif s[0] == 'IE':
            self.emit(ind, 'if %s:' % self.cond(k))
            self.block(s[1], ind + 1)
            if len(s[2]) == 1 and s[2][0][0] in ('I', 'IE') and self.v % 2:
                at = len(self.lines)
                self.stmt(s[2][0], ind)
                self.lines[at] = '    ' * ind + 'el' + self.lines[at].lstrip()
            else:
                self.emit(ind, 'else:')
                self.block(s[2], ind + 1)
        elif s[0] == 'W':
            self.emit(ind, 'w%d = 0' % k)
            self.emit(ind, 'while w%d < %s:' % (k, '3' if (k + self.v) % 2 else '1 + (x & 1)'))
            self.emit(ind + 1, 'w%d += 1' % k)
            self.block(s[1], ind + 1)
        elif s[0] == 'F':
            r = ('range(2)', 'range(1, 4)', 'range(0, 5, 2)', 'range(3, 0, -1)', '(3, 1)', 'range(1 + (X & 1))')[(k + self.v) % 6]
            self.emit(ind, 'for i%d in %s:' % (k, r))
            self.emit(ind + 1, 't = (t + i%d) & 63' % k)
            self.block(s[1], ind + 1)


def skeleton_source(pid, b, variant):
    g = Gen(pid, variant)
    g.block(b, 1)
    return '\n'.join(['def h%d(a, n):' % pid, '    if a & 1:', '        return (a + n) & 63',
                      '    s = 0', '    while True:', '        s += 1', '        if s > n & 3:', '            return (a ^ s) & 63', '',
                      'def b%d(x):' % pid, '    t = x'] + g.lines + ['    return t', '',
                      'def p%d():' % pid, '    r = b%d(X)' % pid, "    print('T%d 999 %%d 0' %% r)" % pid, '    o%d.value = 1' % pid, ''])


# ---------------------------------------------------------------------------
# expressions: every typed tree of two operators over signed variables
AR = ['+', '-', '*', '&', '|', '^', '<<', '>>', '//', '%', '**']
CMP = ['==', '!=', '<', '<=', '>', '>=']
LIM = 1 << 30


class Out(Exception):
    pass


def ev(e, env):
    """reference value; Out when the operation is outside the supported domain"""
    if isinstance(e, int):
        return e
    if isinstance(e, str):
        return env[e]
    op = e[0]
    if op == 'neg':
        return -ev(e[1], env)
    if op == 'inv':
        return ~ev(e[1], env)
    if op == 'pos':
        return ev(e[1], env)
    if op == 'not':
        return int(not ev(e[1], env))
    if op == 'ife':
        return ev(e[2], env) if ev(e[1], env) else ev(e[3], env)
    if op == 'chain':
        a, b, c = ev(e[2], env), ev(e[4], env), ev(e[6], env)
        return int(CMPF[e[3]](a, b) and CMPF[e[5]](b, c))
    a, b = ev(e[1], env), ev(e[2], env)
    if op in CMPF:
        return int(CMPF[op](a, b))
    if op == 'and':
        return int(bool(a) and bool(b))
    if op == 'or':
        return int(bool(a) or bool(b))
    if op in ('<<', '>>'):
        if b < 0 or b > 12:
            raise Out()
        r = a << b if op == '<<' else a >> b
    elif op in ('//', '%'):
        if b <= 0 or a < 0:
            raise Out()
        r = a // b if op == '//' else a % b
    elif op == '**':
        if b < 0 or b > 8 or abs(a) > 40:
            raise Out()
        r = a ** b
    else:
        r = {'+': a + b, '-': a - b, '*': a * b, '&': a & b, '|': a | b, '^': a ^ b}[op]
    if not -LIM < r < LIM:
        raise Out()
    return r


CMPF = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b,
        '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}


def text(e):
    if isinstance(e, int):
        return str(e) if e >= 0 else '(%d)' % e
    if isinstance(e, str):
        return e
    op = e[0]
    if op == 'neg':
        return '(-%s)' % text(e[1])
    if op == 'pos':
        return '(+%s)' % text(e[1])
    if op == 'inv':
        return '(~%s)' % text(e[1])
    if op == 'not':
        return '(not %s)' % text(e[1])
    if op == 'ife':
        return '(%s if %s else %s)' % (text(e[2]), text(e[1]), text(e[3]))
    if op == 'chain':
        return '(%s %s %s %s %s)' % (text(e[2]), e[3], text(e[4]), e[5], text(e[6]))
    return '(%s %s %s)' % (text(e[1]), op, text(e[2]))


def exprs():
    out = []
    seen = set()

    def isbool(e):
        return isinstance(e, tuple) and (e[0] in CMPF or e[0] in ('not', 'chain') or e[0] in ('and', 'or') and isbool(e[1]) and isbool(e[2]))

    def add(e):
        if isinstance(e, tuple) and e[0] in ('and', 'or') and not isbool(e):
            e = ('ife', e, 1, 0)     # only the truth of "and"/"or" over integers is compared
        t = text(e)
        if t not in seen:
            seen.add(t)
            out.append(e)
    atoms1 = ['a', 'b', 3, 0, 1, -2]
    for op in AR + CMP:
        for x in atoms1:
            for y in atoms1:
                if isinstance(x, int) and isinstance(y, int):
                    try:
                        ev((op, x, y), {})
                    except Out:
                        continue
                add((op, x, y))
    un = ['neg', 'inv', 'pos']
    for u in un:
        add((u, 'a'))
        for op in AR + CMP:
            add((op, (u, 'a'), 'b'))
            add((op, 'a', (u, 'b')))
            if op not in CMP:
                add((u, (op, 'a', 'b')))
    for op in AR:
        for op2 in AR + CMP:
            add((op2, (op, 'a', 'b'), 'c'))
            add((op2, 'c', (op, 'a', 'b')))
            add((op2, (op, 'a', 2), 'c'))
            add((op2, (op, 2, 'a'), 3))
            add((op2, (op, 'a', 'b'), (op, 'b', 'c')))
            if not Q:
                for op3 in AR[:8]:
                    add((op3, (op2, (op, 'a', 'b'), 'c'), 'b'))
    bools = [(c, 'a', 'b') for c in CMP] + [('==', 'c', 1), 'c']
    for x in bools:
        add(('not', x))
        add(('ife', x, 'a', 'b'))
        add(('ife', x, 3, 'b'))
        add(('ife', x, -3, 7))
        add(('ife', x, ('+', 'a', 'c'), ('*', 'b', 2)))
        add(('+', ('ife', x, 'a', -5), 'b'))
        add(('<', ('ife', x, 'a', -5), 'b'))
        for y in bools:
            add(('and', x, y))
            add(('or', x, y))
            add(('and', x, ('not', y)))
            add(('not', ('or', x, y)))
            add(('or', ('and', x, y), ('not', x)))
            add(('ife', ('and', x, y), 'a', ('ife', x, 'b', 'c')))
    for c1 in CMP:
        for c2 in CMP:
            add(('chain', 0, 'a', c1, 'b', c2, 'c'))
            add(('chain', 0, 0, c1, 'b', c2, 2))
            add(('chain', 0, 1, c1, 0, c2, 'b'))
            add(('chain', 0, 1, c1, 2, c2, 'b'))
    for e in (('+', ('*', 2, 3), 'a'), ('-', ('-', 5, 3), 'a'), ('>>', -7, 1), ('>>', ('-', 0, 9), 2), ('*', ('>>', -7, 1), 'a'),
              ('+', ('>>', ('neg', 7), 1), 'a'), ('+', ('//', 7, 2), 'b'), ('%', 7, 4), ('**', 2, 5), ('+', ('**', 3, 2), 'a'),
              ('<', ('-', 2, 5), 'a'), ('==', ('inv', 0), 'a'), ('&', ('inv', 6), 'b'), ('|', ('<<', 1, 4), 'b'), ('+', ('<', 1, 2), 'a'),
              ('ife', ('<', 2, 1), 'a', 'b'), ('ife', ('<', 1, 2), 'a', 'b'), ('and', ('<', 1, 2), ('<', 'a', 'b')), ('or', ('<', 2, 1), ('<', 'a', 'b')),
              ('not', 0), ('not', 3), ('and', 3, 'a'), ('or', 0, 'a'), ('ife', 'a', ('ife', 'b', 1, 2), ('ife', 'c', 3, 4))):
        add(e)
    return out


ENVS = [dict(a=a, b=b, c=c) for a in (-3, -1, 0, 1, 2, 5) for b in (-4, -1, 0, 1, 2, 3) for c in (-1, 0, 2)]


def expr_source(pid, es):
    body = []
    for i, e in enumerate(es):
        body.append('    r = %s' % text(e))
        body.append("    print('T%d %d %%d 0' %% r)" % (pid, i))
    return '\n'.join(['def p%d():' % pid, '    a = A', '    b = B', '    c = C'] + body +
                     ["    print('T%d 999 0 0')" % pid, '    o%d.value = 1' % pid, ''])


# ---------------------------------------------------------------------------
# language features: (name, source with @ for the program id, replacement source for CPython or None)
FEATURES = [
 ('default args', '''
def f@(a, b=3, c=5):
    return a + b * c
def p@():
    P(1, f@(X)); P(2, f@(X, 1)); P(3, f@(X, c=2)); P(4, f@(X, 2, 4)); P(5, f@(b=X, a=1)); P(6, f@(X, c=X, b=X + 1))
'''),
 ('keyword order', '''
def f@(a, b, c):
    return a * 100 + b * 10 + c
def p@():
    P(1, f@(c=1, a=X, b=3)); P(2, f@(X, c=4, b=X))
'''),
 ('default expression', '''
def f@(a, b=2 + 3, c=-1):
    return a * b + c
def p@():
    P(1, f@(X)); P(2, f@(X, X)); P(3, f@(X, c=X))
'''),
 ('nested calls', '''
def inc@(a):
    return a + 1
def dbl@(a):
    return inc@(a) + inc@(a + 1)
def p@():
    P(1, dbl@(inc@(X))); x = X
    x = inc@(x) * dbl@(x) + x
    P(2, x); P(3, inc@(inc@(inc@(x))))
'''),
 ('call by value', '''
def f@(a):
    a = a + 5
    return a * 2
def p@():
    x = X
    y = f@(x)
    P(1, x); P(2, y); x = f@(x); P(3, x)
'''),
 ('scopes', '''
def f@(t):
    x = t + 1
    y = x * 2
    return y
def p@():
    x = 7
    y = f@(X)
    P(1, x); P(2, y)
    t = f@(y)
    P(3, t); P(4, x)
'''),
 ('local defined in branches', '''
def p@():
    if X & 1:
        y = 3
        z = X
    else:
        y = 4
        z = X + 9
    P(1, y); P(2, z)
    for i in range(2):
        q = y + i
    P(3, q)
'''),
 ('early return', '''
def f@(x):
    if x > 5:
        return 1
    if x > 3:
        if x == 4:
            return 2
        return 3
    for i in range(3):
        for j in range(3):
            if i * 3 + j == x:
                return i * 10 + j
    return 99
def p@():
    P(1, f@(X)); P(2, f@(X - 3)); P(3, f@(X - 9) + f@(X))
'''),
 ('return in while', '''
def f@(x):
    n = 0
    while True:
        n += 1
        while n & 1:
            n += 1
            if n > x:
                return n * 10
        if n > x + 2:
            return n
def p@():
    P(1, f@(X)); P(2, f@(0))
'''),
 ('nested loops with break and continue', '''
def p@():
    t = 0
    for i in range(4):
        for j in range(4):
            if j == X:
                continue
            if i + j == 5:
                break
            t += i * 4 + j
            P(1, t)
        if t > 40:
            break
        n = 0
        while n < 3:
            n += 1
            if n == X & 1:
                continue
            if n == 2:
                break
            t += 1
        P(2, t)
    P(3, t)
'''),
 ('for over tuple and list', '''
def p@():
    t = 0
    x = X
    for v in (3, x, 5):
        if v == 4:
            continue
        t = t * 3 + v
        P(1, v)
    for v in [x, x + 1]:
        t += v
        for w in (1, 2):
            t = t * 2 + w
            if t > 100:
                break
    P(2, t)
'''),
 ('tuple assignment', '''
def p@():
    a, b, c = X, X + 1, 7
    a, b = b, a
    P(1, a); P(2, b)
    (a, b), c = (c, a), b
    P(3, a); P(4, b); P(5, c)
    p = q = a + b
    P(6, p); P(7, q)
'''),
 ('tuple return through arguments', '''
def f@(a, b):
    a, b = b, a + b
    return a * 10 + b
def p@():
    P(1, f@(X, 3))
    a, b = 0, 1
    for i in range(X):
        a, b = b, a + b
    P(2, a)
'''),
 ('augmented assignment', '''
def p@():
    x = X
    x += 3
    P(1, x); x -= X * 2
    P(2, x); x *= 3
    P(3, x); x <<= 2
    P(4, x); x >>= 1
    P(5, x); x |= 5
    P(6, x); x &= 14
    P(7, x); x ^= 3
    P(8, x); x //= 2
    P(9, x); x %= 4
    P(10, x); x **= 2
    P(11, x)
'''),
 ('call in while condition', '''
def f@(a):
    return a * 2
def p@():
    n = 0
    while f@(n) < X:
        n += 1
        if n == 2:
            continue
        P(1, n)
    P(2, n)
    while f@(n) < 20 and n != 7:
        n += 1
        P(3, n)
        if n == 9:
            break
'''),
 ('call in if and for', '''
def f@(a):
    if a & 1:
        return a + 1
    return a - 1
def p@():
    if f@(X) > 3:
        P(1, 1)
    elif f@(X + 1) > 3:
        P(1, 2)
    else:
        P(1, 3)
    for i in range(f@(X), f@(X) + 3):
        P(2, i)
    for v in (f@(X), f@(2)):
        P(3, v)
    P(4, 5 if f@(X) > 2 else f@(3))
'''),
 ('loop else', '''
def p@():
    n = 0
    while n < 3:
        n += 1
        if n == X:
            break
    else:
        P(1, n)
    P(2, n)
    for i in range(3):
        if i == X:
            break
        P(3, i)
    else:
        P(4, 1)
    P(5, 0)
'''),
 ('range forms', '''
def p@():
    x = X
    for i in range(x):
        P(1, i)
    for i in range(x, 6):
        P(2, i)
    for i in range(0, x, 3):
        P(3, i)
    for i in range(x, -1, -2):
        P(4, i)
    for i in range(5, x, -1):
        P(5, i)
    s = 2 if x & 1 else -2
    for i in range(x, 4, s):
        P(6, i)
    for i in range(3, 3):
        P(7, i)
    for i in range(-2, 2):
        P(8, i)
'''),
 ('variable length arguments', '''
def g@(a, *rest):
    t = a
    for r in rest:
        t = t * 4 + r
    return t + len(rest)
def p@():
    P(1, g@(X, 1, 2)); P(2, g@(1, X)); P(3, g@(X, X + 1, 3, X))
'''),
 ('no return value', '''
def f@(x):
    P(1, x)
    if x > 3:
        return
    P(2, x)
def p@():
    f@(X); f@(X + 2)
'''),
 ('while true and nested break', '''
def p@():
    n = X
    while True:
        n += 3
        while True:
            n -= 1
            P(1, n)
            if n % 4 == 0:
                break
            if n == 5:
                n += 20
                continue
        if n > 8:
            break
        n += 2
    P(2, n)
'''),
 ('pass and constants', '''
def p@():
    x = X
    if x == 1:
        pass
    elif x == 2:
        x = 9
    else:
        pass
    P(1, x)
    b = True
    c = False
    if b and not c:
        P(2, 1)
    d = None
    while c:
        P(3, 1)
    if 0:
        P(4, 1)
    else:
        P(5, 1)
    if 1:
        P(6, 1)
'''),
 ('int and abs value', '''
def p@():
    P(1, int(X + 3)); y = int(X) * 2
    P(2, y)
'''),
 ('boolean variables', '''
def p@():
    a = X > 3
    b = X & 1 == 1
    c = X & 2 == 2
    if a and (b or not c):
        P(1, 1)
    if not (a or b) and c:
        P(2, 2)
    d = a == b
    if d:
        P(3, 3)
    if a != b and 2 < X < 6:
        P(4, 4)
'''),
 ('shadowed loop variable', '''
def f@(i):
    for i in range(i, i + 2):
        P(9, i)
    return 5
def p@():
    for i in range(3):
        P(1, f@(i) + i)
'''),
 ('same function twice in one expression', '''
def m@(a, b):
    if a > b:
        return a
    return b
def p@():
    P(1, m@(m@(X, 3), m@(4, X - 1))); P(2, m@(X, 1) * 10 + m@(2, X))
'''),
 ('negative numbers', '''
def p@():
    x = X - 4
    P(1, x); P(2, -x); P(3, x * -3); P(4, x >> 1); P(5, x << 2); P(6, ~x); P(7, x & 5); P(8, x | -8); P(9, x ^ -1)
    if x < 0:
        P(10, 1)
    if -2 <= x <= 1:
        P(11, 1)
    y = -1
    while y > x:
        y -= 1
    P(12, y)
'''),
 ('print forms', '''
def p@():
    print('T@ 1 %d %d' % (X, X + 1))
    print('T@', 2, X, X * 2)
    print(f'T@ 3 {X} {X + 5}')
    print('T@ 4', X, 0)
    print('T@ 5 %d' % X, 7)
'''),
 ('method call', '''
class K@(object):
    def __init__(self, k):
        self.k = k
    def add(self, a, b=2):
        if a > 3:
            return a + self.k
        return a * b + self.k
    def twice(self, a):
        return self.add(a) + self.add(a, 1)
k@ = K@(11)
def p@():
    P(1, k@.add(X)); P(2, k@.add(X, 5)); P(3, k@.twice(X)); P(4, k@.k + X)
'''),
 ('module constants', '''
N@ = 6
L@ = (4, 9, 2)
def p@():
    t = 0
    for i in range(N@):
        t += i
        if i == X:
            P(1, t)
    for v in L@:
        t = t * 2 + v
    P(2, t); P(3, N@ * X + len(L@)); P(4, L@[1] + X)
'''),
 ('bit access', '''
def p@():
    x = X
    x = x + 4
    P(1, x[0]); P(2, x[1] + x[2] * 2)
    if x[1]:
        P(3, 1)
    i = 2
    P(4, x[i])
''', '''
def p@():
    x = X
    x = x + 4
    P(1, x & 1); P(2, (x >> 1 & 1) + (x >> 2 & 1) * 2)
    if x >> 1 & 1:
        P(3, 1)
    i = 2
    P(4, x >> i & 1)
'''),
 ('deep nesting', '''
def p@():
    t = 0
    for i in range(2):
        if X & 1:
            for j in range(2):
                if X & 2:
                    while t & 3 != 3:
                        t += 1
                        if X & 4:
                            P(1, t)
                            continue
                        t += 1
                        if t > 9:
                            break
                    else:
                        t += 5
                elif j == 1:
                    t += 7
                    break
                t += 2
                P(2, t)
        else:
            t += 1
            if i == 1:
                break
        P(3, t)
    P(4, t)
'''),
 ('loop variable after the loop', '''
def p@():
    for i in range(3):
        P(1, i)
    P(2, i)
'''),
 ('range end changed in the body', '''
def p@():
    n = 2
    for i in range(n):
        if n < 4:
            n += 1
        P(1, i)
'''),
 ('loop variable changed in the body', '''
def p@():
    for i in range(3):
        i += 1
        P(1, i)
'''),
]


def feature_source(pid, f):
    def mk(s):
        s = re.sub(r'P\((\d+), ((?:[^()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))*)\)', lambda q: "print('T@ %s %%d 0' %% (%s))" % (q.group(1), q.group(2)), s)
        s = s.replace('def p@():', 'def q@():')
        # split "a; b" statements: the compiler takes one per line anyway
        return s.replace('@', str(pid))
    tail = '\ndef p%d():\n    q%d()\n    print(\'T%d 999 0 0\')\n    o%d.value = 1\n' % (pid, pid, pid, pid)
    a = mk(f[1]) + tail
    return a, (mk(f[2]) + tail) if len(f) > 2 else a


# ---------------------------------------------------------------------------
class Box(object):
    value = 0


class Halt(Exception):
    pass


def load(path, name):
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def py_trace(mod, pid, **inp):
    out = []

    def pr(*a):
        out.append(' '.join(str(x if not isinstance(x, bool) else int(x)) for x in a))
        if len(out) > 3000:
            raise Halt()
    for k, v in inp.items():
        setattr(mod, k, v)
    setattr(mod, 'o%d' % pid, Box())
    mod.print = pr
    try:
        getattr(mod, 'p%d' % pid)()
    finally:
        del mod.print
    r = []
    for l in out:
        f = [int(bool(x == 'True')) if x in ('True', 'False') else int(x) for x in l.split()[1:]]
        r.append(tuple(f))
    return r


def compile_thread(m, clk, rst, mod, pid, modes):
    """modes: dict of Thread keyword arguments"""
    o = m.Reg('o%d' % pid, initval=0)
    setattr(mod, 'o%d' % pid, o)
    p = getattr(mod, 'p%d' % pid)
    th = vthread.Thread(m, 'th%d' % pid, clk, rst, p, **modes)
    for n in dir(mod):
        f = getattr(mod, n)
        if callable(f) and re.fullmatch(r'[a-zA-Z]+%d' % pid, n) and n[0] not in 'pK' and hasattr(f, '__code__'):
            th.add_function(f)
    mod.start(th)
    return o


def batch(res, it):
    tag, progs = it
    # progs: (pid, label, source, pysource, kind, payload)
    pre = 'def start(th):\n    th.start()\n\n'
    src = pre + '\n'.join(p[2] for p in progs)
    psrc = pre + '\n'.join(p[3] for p in progs)
    for n, s in (('hw', src), ('sw', psrc)):
        with open('%s_%s.py' % (n, tag), 'w') as f:
            f.write(s)
    hw, sw = load('hw_%s.py' % tag, 'hw_' + tag), load('sw_%s.py' % tag, 'sw_' + tag)
    expr = tag.startswith('e')
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    if expr:
        for n in 'ABC':
            setattr(hw, n, m.Input(n, 8, signed=True))
        inputs = [(e['a'], e['b'], e['c']) for e in ENVS]
    else:
        hw.X = m.Input('X', 8, signed=True)
        inputs = [(x,) for x in range(NX)]
    ok = []
    for p in progs:
        try:
            o = compile_thread(m, clk, rst, hw, p[0], p[6])
            ok.append((p, o))
        except Exception:
            res['violations'].append(('reject:' + p[1], 'legal program rejected: %s\n%s\n%s' % (p[1], exc_text(), p[2]), p[2]))
    if not ok:
        return
    m.Output('done').assign(vg.Ands(*[o for _, o in ok]))
    tb = ['module tb; reg CLK=0, RST=0; wire done; integer i,k,n; reg signed [31:0] v [0:%d];' % (len(inputs) * 3)]
    if expr:
        tb.append('reg signed [7:0] A,B,C; top u(.CLK(CLK),.RST(RST),.A(A),.B(B),.C(C),.done(done));')
    else:
        tb.append('reg signed [7:0] X; top u(.CLK(CLK),.RST(RST),.X(X),.done(done));')
    tb.append('initial begin')
    for i, v in enumerate(inputs):
        for j, x in enumerate(v):
            tb.append(' v[%d]=%d;' % (i * 3 + j, x))
    tb.append(' for(i=0;i<%d;i=i+1) begin' % len(inputs))
    tb.append('  A=v[i*3]; B=v[i*3+1]; C=v[i*3+2];' if expr else '  X=v[i*3];')
    tb += ['  RST=1; #1 CLK=1; #1 CLK=0; #1 CLK=1; #1 CLK=0; RST=0; $display("I %0d",i); n=0; k=0;',
           '  while(n<6000 && k<6) begin #1 CLK=1; #1 CLK=0; n=n+1; if(done===1) k=k+1; end',
           '  $display("N %0d",n); end', ' $finish; end endmodule']
    verilog = m.to_verilog()
    try:
        out = iv.simulate(verilog + '\n' + '\n'.join(tb), tag=tag)
    except iv.Reject as e:
        res['violations'].append(('invalid:' + tag, 'emitted text rejected: %s' % str(e)[:600], verilog))
        return
    got = {}
    cur, cyc = None, 0
    for l in out.splitlines():
        f = l.replace('T ', 'T').split()
        if not f:
            continue
        if f[0] == 'I':
            cur = int(f[1])
        elif f[0] == 'N':
            cyc += int(f[1])
        elif f[0][0] == 'T':
            got.setdefault((int(f[0][1:]), cur), []).append(tuple(int(x) if x.lstrip('-').isdigit() else x for x in f[1:]))
    res['transitions'] += cyc
    for p, _ in ok:
        bad = None
        for i, v in enumerate(inputs):
            if p[4] == 'expr':
                exp = []
                for j, e in enumerate(p[5]):
                    try:
                        exp.append((j, ev(e, ENVS[i]), 0))
                    except Out:
                        exp.append((j, None, 0))
                exp.append((999, 0, 0))
                g = got.get((p[0], i), [])
                if len(g) == len(exp):
                    g = [q if e[1] is not None else (q[0], None, 0) for q, e in zip(g, exp)]
                inp = dict(zip('abc', v))
            else:
                exp = py_trace(sw, p[0], X=v[0])
                g = got.get((p[0], i), [])
                inp = dict(X=v[0])
            res['states'] += len(exp)
            res['traces'] += 1
            if g != exp:
                at = next((q for q in range(min(len(g), len(exp))) if g[q] != exp[q]), min(len(g), len(exp)))
                gv = g[at] if at < len(g) else 'nothing (stopped or hung)'
                evv = exp[at] if at < len(exp) else 'nothing'
                what = text(p[5][at]) if p[4] == 'expr' and at < len(p[5]) else ''
                bad = 'inputs %s: print %d is %s, CPython gives %s %s' % (inp, at, gv, evv, what)
                break
        if bad:
            res['violations'].append(('prog:' + p[1], '%s: %s\n%s' % (p[1], bad, p[2]), p[2]))


@rtl.guarded
def one(res, it):
    batch(res, it)


def main():
    c = Check('C07')
    its = []
    pid = 0
    maxn = 5 if Q else 6
    sk = []
    for n in range(1, maxn + 1):
        for b in blocks(n, False):
            for v in ((0, 1, 3) if n <= 3 else ((len(sk)) % 6,)):
                sk.append((b, v))
    c.count('control skeletons', len(sk))
    progs = []
    for b, v in sk:
        s = skeleton_source(pid, b, v)
        lab = 'skeleton %s/%d' % (str(b).replace("'", '').replace(' ', ''), v)
        progs.append((pid, lab, s, s, 'prog', None, dict(fsm_as_module=(pid % 5 == 4))))
        pid += 1
    for i, ch in enumerate(chunks(progs, 60)):
        its.append(('s%d' % i, ch))
    es = exprs()
    c.count('expressions', len(es))
    progs = []
    for ch in chunks(es, 12):
        s = expr_source(pid, ch)
        progs.append((pid, 'expressions %s ..' % text(ch[0]), s, s, 'expr', ch, {}))
        pid += 1
    for i, ch in enumerate(chunks(progs, 8)):
        its.append(('e%d' % i, ch))
    for mi, modes in enumerate((dict(), dict(fsm_as_module=True), dict(datawidth=20))):
        progs = []
        for f in FEATURES:
            a, b = feature_source(pid, f)
            progs.append((pid, 'feature %s%s' % (f[0], ('', ' (fsm_as_module)', ' (datawidth 20)')[mi]), a, b, 'prog', None, modes))
            pid += 1
        for i, ch in enumerate(chunks(progs, 9)):
            its.append(('f%d_%d' % (mi, i), ch))
    c.count('programs', pid)
    for r in pmap(one, its, 'c07'):
        c.absorb(r)
    c.assumptions = ['states = printed events compared, traces = (program, input) runs; CPython is the reference for statements, '
                     'division, modulo and shifts are compared on the non-negative domain where Verilog and Python agree; Icarus executes the emitted text']
    c.finish()


if __name__ == '__main__':
    main()
