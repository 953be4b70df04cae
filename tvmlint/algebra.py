"""Values of numerical code, as rational expressions.

A route of a function (see flow.Engine) is replayed on polynomials with rational
coefficients: vectors are followed one generic component at a time, comparisons
are decided by the sign of the difference of their operands, and whatever the
route leaves open (a sign, a flag, an enumerator) is enumerated.  The result is
what the route stores, as a normal form, for every way of deciding what it
tests; no value is ever substituted for a quantity of the program.
"""
from fractions import Fraction
from .flow import *

EIG = 'Eigen::'


class Need(Exception):
    """The outcome depends on `key`, one of `dom`."""

    def __init__(self, key, dom):
        self.key, self.dom = key, dom


class Unknown(Exception):
    pass


# ---------------------------------------------------------------- polynomials

def const(c):
    return {(): Fraction(c)} if c else {}


def var(a):
    return {((a, 1),): Fraction(1)}


def add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def neg(p):
    return {m: -c for m, c in p.items()}


def sub(p, q):
    return add(p, q, -1)


def _mono(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=repr))


def mul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = _mono(m, n)
            r[k] = r.get(k, 0) + c * d
            if not r[k]:
                del r[k]
    return r


def key(p):
    return tuple(sorted(p.items(), key=repr))


def lead(p):
    """p = c * q with the first coefficient of q equal to 1: (c, q)."""
    m = min(p, key=repr)
    c = p[m]
    return c, {k: v / c for k, v in p.items()}


def inv(p):
    if not p:
        raise Unknown('division by zero')
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple(sorted(((x, -e) for x, e in m), key=repr)): 1 / c}
    c, q = lead(p)
    return {((('sum', key(q)), -1),): 1 / c}


def div(p, q):
    return mul(p, inv(q))


def powhalf(p):
    return var(('sqrt', key(p)))


def single(p):
    """The atom p consists of, or None."""
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def showp(p):
    if isinstance(p, bool) or not isinstance(p, dict):
        return str(p)

    def at(a):
        if isinstance(a, tuple) and a and a[0] == 'sum':
            return '(%s)' % showp(dict(a[1]))
        if isinstance(a, tuple) and a and a[0] == 'sqrt':
            return 'sqrt(%s)' % showp(dict(a[1]))
        return '.'.join(str(x) for x in a) if isinstance(a, tuple) else str(a)
    out = []
    for m, c in sorted(p.items(), key=repr):
        s = '*'.join(at(a) + ('' if e == 1 else '^%d' % e) for a, e in m)
        out.append(('%s*%s' % (c, s) if c != 1 else s) if s else str(c))
    return ' + '.join(out) or '0'


SAME = {'array', 'matrix', 'noalias', 'eval', 'asDiagonal', 'derived', 'col', 'get', 'forward', 'move'}
BIN = {'operator+': add, 'operator-': sub, 'operator*': mul, 'operator/': div, 'cwiseProduct': mul,
       'cwiseQuotient': div}
CMP = {'operator<': '<', 'operator<=': '<=', 'operator>': '>', 'operator>=': '>=', 'operator==': '==',
       'operator!=': '!='}
SIGNS = (-1, 0, 1)


def base(q):
    """Unqualified, untemplated name of a callee."""
    d = 0
    out = []
    for i, c in enumerate(q):
        if c == '<' and not q[:i].endswith('operator') and not q[:i].endswith('operator<'):
            d += 1
        elif c == '>' and d:
            d -= 1
        elif not d:
            out.append(c)
    return ''.join(out).rsplit('::', 1)[-1]


class Alg:
    """One replay.  `names` maps terms to atoms before anything else."""

    def __init__(self, prog, assign, names=None, params=None):
        self.prog = prog
        self.assign = assign
        self.names = names or (lambda t, A: None)
        self.params = params or {}
        self.env = {}
        self.trans = {}
        self.idx = []
        self.comp = None
        self.early = False
        self.calls = []
        self.alts = lambda m: (0, 1, 2)   # alternatives of a variant

    # -- decisions
    def ask(self, k, dom):
        if self.comp is not None:
            k = k + (self.comp,)
        if k not in self.assign:
            raise Need(k, dom)
        return self.assign[k]

    def sgn(self, p):
        if not p:
            return 0
        if set(p) == {()}:
            return 1 if p[()] > 0 else -1
        c, q = lead(p)
        s = self.ask(('s', key(q)), SIGNS)
        return s if c > 0 else -s

    # -- terms
    def atom(self, t):
        p = self.P(t)
        if isinstance(p, bool):
            return p
        a = single(p)
        return a if a is not None else ('val', key(p))

    def look(self, name):
        return self.env[name] if name in self.env else var(name)

    def P(self, t):
        n = self.names(t, self)
        if n is not None:
            return n
        k = t[0]
        if k == 'lit':
            s = str(t[1])
            if s in ('true', 'false'):
                return s == 'true'
            try:
                return const(Fraction(s.rstrip('fFlLuU')))
            except (ValueError, ZeroDivisionError):
                try:
                    return const(Fraction(float(s)))
                except ValueError:
                    return var(('lit', s))
        if k == 'enum':
            return var(('enum', t[1]))
        if k == 'fld':
            if t[1] == ('this',):
                return self.look(t[2])
            o = strip(t[1])
            if o[0] == 'ctor' and 'std::pair<' in o[1] and len(o[2]) == 2 and t[2] in ('first', 'second'):
                return self.P(o[2][t[2] == 'second'])
            return var((str(self.atom(o)), t[2]))
        if k == 'param':
            return self.params.get(t[1], var(t[1]))
        if k == 'this':
            return var('this')
        if k == 'loopvar':
            return var(('lv', t[1]))
        if k == 'var':
            return self.look(t)
        if k == 'obj':
            return self.env[('obj', t[2])] if ('obj', t[2]) in self.env else self.P(t[3])
        if k == 'index':
            i = t[2]
            if i[0] in ('idx', 'elem'):
                self.idx.append(i)
                return self.P(t[1])
            c = self.P(t[1])
            a = single(c) if isinstance(c, dict) else None
            kk = self.P(i)
            if kk == const(0) and a is not None and self.assign.get(self._k1(a)) == 0:
                return c
            return var(('at', a if a is not None else ('val', key(c)), showp(kk)))
        if k == 'idx':
            return var(('i', t[1]))
        if k == 'elem':   # an element of what a range loop runs over
            self.idx.append(t)
            return self.P(t[1])
        if k == 'op':
            return self.op(t)
        if k == 'ctor':
            a = [x for x in t[2] if not (x[0] == 'global' and 'in_place' in x[1])]
            a = [x for x in a if not (x[0] == 'ctor' and 'allocator' in x[1])]
            if len(a) == 1 or (a and t[1].startswith('Eigen::Ref<')):
                return self.P(a[0])
            return var(('ctor', t[1]) + tuple(self.atom(x) for x in a))
        if k == 'call':
            return self.call(t)
        return var(('t', t))

    def _k1(self, a):
        c, q = lead(sub(var(('size', a)), const(1)))
        return ('s', key(q))

    def op(self, t):
        o = t[1]
        if len(t) == 3:
            if o == '!':
                return not self.truth(t[2])
            p = self.P(t[2])
            return {'-': neg, '+': lambda x: x, '*': lambda x: x, '&': lambda x: x}[o](p) if o in '-+*&' else var(('t', t))
        if o in ('==', '!=', '<', '<=', '>', '>=', '&&', '||'):
            return self.truth(t)
        f = {'+': add, '-': sub, '*': mul, '/': div}.get(o)
        if f:
            r = self.P(t[2])
            for x in t[3:]:
                r = f(r, self.P(x))
            return r
        return var(('t', t))

    def call(self, t):
        q, o, a = t[1], t[2], t[3]
        n = base(q)
        if n in SAME:
            return self.P(o if o is not None else a[0])
        if n in BIN:
            xs = ([o] if o is not None else []) + list(a)
            if len(xs) == 1 and n == 'operator-':
                return neg(self.P(xs[0]))
            if len(xs) == 2:
                return BIN[n](self.P(xs[0]), self.P(xs[1]))
        if n == 'operator()' and o is not None:
            return var(('()', self.atom(o)) + tuple(self.atom(x) for x in a))
        if n in CMP or n in ('any', 'all'):
            return self.truth(t)
        if n in ('cwiseInverse', 'inverse') and o is not None:
            return inv(self.P(o))
        if n in ('sqrt', 'cwiseSqrt'):
            return powhalf(self.P(o if o is not None else a[0]))
        if n in ('abs', 'cwiseAbs', 'fabs'):
            p = self.P(o if o is not None else a[0])
            return p if self.sgn(p) >= 0 else neg(p)
        if n in ('min', 'max', 'cwiseMin', 'cwiseMax', 'fmin', 'fmax'):
            xs = ([o] if o is not None else []) + list(a)
            if len(xs) == 2:
                p, r = self.P(xs[0]), self.P(xs[1])
                s = self.sgn(sub(p, r))
                return (p if s <= 0 else r) if 'in' in n.lower().replace('cwise', '') else (p if s >= 0 else r)
        if n == 'select' and o is not None:
            return self.P(a[0] if self.truth(o) else a[1])
        if n == 'Constant':
            return self.P(a[-1])
        if n == 'Ones':
            return const(1)
        if n == 'Zero':
            return const(0)
        if n == 'value_or':
            return var(('value_or', self.atom(o), showp(self.P(a[0]))))
        if o is not None and not a:
            x = self.P(o)
            s = single(x) if isinstance(x, dict) else None
            return var((n, s if s is not None else ('val', key(x))))
        return var((n,) + ((self.atom(o),) if o is not None else ()) + tuple(self.atom(x) for x in a))

    # -- conditions
    def truth(self, t):
        n = self.names(t, self)
        if isinstance(n, bool):
            return n
        k = t[0]
        if k == 'lit':
            return str(t[1]) not in ('false', '0', 'nullptr')
        if k == 'op' and t[1] == '!' and len(t) == 3:
            return not self.truth(t[2])
        if k == 'op' and t[1] == '&&':
            return all(self.truth(x) for x in t[2:])
        if k == 'op' and t[1] == '||':
            return any(self.truth(x) for x in t[2:])
        if k == 'op' and len(t) == 4 and t[1] in ('==', '!=', '<', '<=', '>', '>='):
            return self.compare(t[1], t[2], t[3])
        if k == 'call':
            n = base(t[1])
            if n in CMP:
                xs = ([t[2]] if t[2] is not None else []) + list(t[3])
                return self.compare(CMP[n], xs[0], xs[1])
            if n in ('any', 'all') and t[2] is not None:
                r = []
                for c in (0, 1):
                    old, self.comp = self.comp, c
                    try:
                        r.append(self.truth(t[2]))
                    finally:
                        self.comp = old
                    if r[-1] == (n == 'any'):
                        return r[-1]
                return r[-1]
        v = self.P(t)
        if isinstance(v, bool):
            return v
        if set(v) <= {()}:
            return bool(v)
        return self.ask(('b', key(v)), (True, False))

    def number(self, t):
        """('e', atom, enum) for an expression of enumeration type."""
        if t[0] == 'enum':
            q, n = t[1].rsplit('::', 1)
            return q, n
        return None

    def compare(self, o, a, b):
        ea, eb = self.number(a), self.number(b)
        if ea or eb:
            q = (ea or eb)[0]
            vals = self.prog.enums[q]['vals']
            num = {x['n']: int(x['v']) for x in vals} if isinstance(vals[0], dict) else {x[0]: int(x[1]) for x in vals}

            def val(e, t):
                if e:
                    return num[e[1]]
                v = self.P(t)
                s = single(v) if isinstance(v, dict) else None
                if isinstance(s, tuple) and s and s[0] == 'enum':
                    return num[s[1].rsplit('::', 1)[1]]
                return num[self.ask(('e', key(v)), tuple(num))]
            x, y = val(ea, a), val(eb, b)
        else:
            for u, w, flip in ((a, b, False), (b, a, True)):
                if u[0] == 'call' and base(u[1]) in ('minCoeff', 'maxCoeff') and u[2] is not None:
                    oo = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(o, o) if flip else o
                    mn = base(u[1]) == 'minCoeff'
                    return self.extreme(mn, oo, u[2], w)
            p, r = self.P(a), self.P(b)
            if isinstance(p, bool) or isinstance(r, bool):
                if not isinstance(p, bool):
                    p = self.truth(a)
                if not isinstance(r, bool):
                    r = self.truth(b)
                return (p == r) if o == '==' else (p != r)
            for u in (p, r):
                s = single(u)
                if isinstance(s, tuple) and s[:1] == ('index',):
                    w = r if u is p else p
                    v = self.ask(('i', s), self.alts(s[1]))
                    x, y = (v, w.get((), 0)) if u is p else (w.get((), 0), v)
                    break
            else:
                x, y = self.sgn(sub(p, r)), 0
        return {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[o]

    def extreme(self, mn, o, vec, w):
        r = []
        for c in (0, 1):
            old, self.comp = self.comp, c
            try:
                r.append(self.compare(o, vec, w))
            finally:
                self.comp = old
        if o in ('<', '<='):
            return any(r) if mn else all(r)
        if o in ('>', '>='):
            return all(r) if mn else any(r)
        raise Unknown('equality with an extreme coefficient')

    # -- routes
    def target(self, t):
        while True:
            if t[0] == 'call' and base(t[1]) in SAME and t[2] is not None:
                t = t[2]
            elif t[0] == 'index' and t[2][0] in ('idx', 'elem'):
                self.idx.append(t[2])
                t = t[1]
            elif t[0] == 'op' and len(t) == 3 and t[1] == '*':
                t = t[2]
            else:
                break
        if t[0] == 'fld' and t[1] == ('this',):
            return t[2]
        if t[0] == 'obj':
            return ('obj', t[2])
        if t[0] == 'loopvar':
            return ('lv', t[1])
        if t[0] == 'var':
            return ('lv', t[2])
        return None

    def holds(self, hist):
        return all(self.truth(c) == v for c, v in hist.items() if c[0] != 'prev')

    def assign_(self, name, op, term, deflt=None):
        v = self.P(term)
        if op not in ('=', 'init', None):
            f = {'+=': add, '-=': sub, '*=': mul, '/=': div}.get(op)
            if f is None:
                raise Unknown('operator ' + str(op))
            old = self.env.get(name, var(name))
            v = f(old, v)
        self.env[name] = v

    def replay(self, events, loops=True):
        for e in events:
            if e.kind in ('write', 'lwrite'):
                n = self.target(e.a)
                if n is None or e.b is None:
                    continue
                if isinstance(n, tuple) and n[0] == 'lv' and n not in self.env:
                    self.env[n] = var(n)
                if e.op == 'init' and isinstance(n, tuple):
                    try:
                        self.assign_(n, e.op, e.b)
                    except Need:
                        pass   # a condition kept for later: decided where it is used
                else:
                    self.assign_(n, e.op, e.b)
            elif e.kind == 'call':
                n = base(e.a)
                self.calls.append((n, e))
                x = self.target(e.b) if e.b is not None else None
                if x is None:
                    if e.b == ('this',) and n == 'updateValue':
                        self.env['value_'] = var('inner')
                    continue
                if n in ('operator=', 'emplace', 'setConstant', 'fill') and e.c:
                    self.assign_(x, '=', e.c[-1])
                elif n in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
                    self.assign_(x, n[8:], e.c[0])
                elif n == 'setOnes':
                    self.env[x] = const(1)
                elif n == 'setZero':
                    self.env[x] = const(0)
            elif e.kind == 'loop':
                self.loop(e)

    def loop(self, e):
        keep = {k: v for k, v in self.env.items() if isinstance(k, tuple) and k[0] == 'lv'}
        for k in keep:
            self.env[k] = var(k)
        hit = [i for i in range(len(e.c)) if self.holds(e.bh[i] or {})]
        if len(hit) > 1:
            raise Unknown('several ways through a loop body')
        if not hit:
            raise Unknown('no way through a loop body')
        if e.bx[hit[0]] == 'break':
            self.early = True
        self.replay(e.c[hit[0]])
        for k in list(self.env):
            if isinstance(k, tuple) and k[0] == 'lv':
                self.trans[k[1]] = self.env[k]
                self.env[k] = var(k)


def same(A, p, q):
    """p and q are the same value where the signs decided on hold."""
    if p == q or isinstance(p, bool) or isinstance(q, bool) or not isinstance(p, dict) or not isinstance(q, dict):
        return p == q
    k = ('s', key(lead(sub(p, q))[1]))
    return A.assign.get(k) == 0 or (A.comp is not None and A.assign.get(k + (A.comp,)) == 0)


def strip(t):
    while t is not None and t[0] == 'ctor' and len(t[2]) == 1:
        t = t[2][0]
    return t


def branches(run, assign=None, limit=20000):
    """Every way of deciding what `run(assign)` asks."""
    todo = [dict(assign or {})]
    n = 0
    while todo:
        a = todo.pop()
        n += 1
        if n > limit:
            raise Unknown('too many cases')
        try:
            r = run(a)
        except Need as x:
            for v in reversed(x.dom):
                todo.append(dict(a, **{}) | {x.key: v})
            continue
        yield a, r
