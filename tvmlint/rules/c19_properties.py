"""C19: what is deduced about a matrix from its declared properties holds for every such matrix."""
import itertools
from ..q import *
from ..tables import Tables, Thrown, rec, get

EXPLANATION = ('The declared properties form a finite domain (8 shapes, 7 positiveness values, constness and invertibility flags, given or not, in any order). The decision tables of the constructors, predicates and '
               'operators are composed from the path summaries of every function involved and compared, for every combination, with what the declared properties mean: each property is interpreted by the set of '
               '2x2 matrices of a fixed family that have it. A property is reported when some matrix of the family contradicts it, and is expected when every matrix has it.')
ASSUMPTIONS = ['2x2 matrices with entries in -2..2 are enough to tell the declared properties apart (the family is a witness set: what it refutes is false, what is lost is only precision)',
               'an explicit negative flag is a claim that is only checked for contradiction, as documented']
MP = 'tvm::internal::MatrixProperties'
P = MP + '::'
SH = ['GENERAL', 'LOWER_TRIANGULAR', 'UPPER_TRIANGULAR', 'DIAGONAL', 'MULTIPLE_OF_IDENTITY', 'IDENTITY', 'MINUS_IDENTITY', 'ZERO']
PO = ['NA', 'POSITIVE_SEMIDEFINITE', 'POSITIVE_DEFINITE', 'NEGATIVE_SEMIDEFINITE', 'NEGATIVE_DEFINITE', 'INDEFINITE', 'NON_ZERO_INDEFINITE']
CONST = {'IDENTITY', 'MINUS_IDENTITY', 'ZERO'}

# ------------------------------------------------ meaning of the properties on 2x2 matrices (a b / c d)
FAMILY = [m for m in itertools.product((-2, -1, 0, 1, 2), repeat=4)]
SMALL = [m for m in FAMILY if max(map(abs, m)) < 2 or m in ((2, 0, 0, 2), (-2, 0, 0, -2), (2, 0, 0, 1), (1, 0, 0, -2), (2, 1, 1, 1), (-2, 1, 1, -1), (2, 0, 0, 0), (1, 2, 2, 1))]


def facts(m):
    a, b, c, d = m
    sym, det, tr = b == c, a * d - b * c, a + d
    f = {'GENERAL', 'NA'}
    low, up = b == 0, c == 0
    f |= {x for x, y in (('LOWER_TRIANGULAR', low), ('UPPER_TRIANGULAR', up), ('DIAGONAL', low and up), ('MULTIPLE_OF_IDENTITY', low and up and a == d), ('IDENTITY', m == (1, 0, 0, 1)),
                         ('MINUS_IDENTITY', m == (-1, 0, 0, -1)), ('ZERO', m == (0, 0, 0, 0)), ('inv', det != 0), ('triangular', low or up)) if y}
    if sym:
        psd, nsd = det >= 0 and a >= 0 and d >= 0, det >= 0 and a <= 0 and d <= 0
        f |= {x for x, y in (('INDEFINITE', True), ('POSITIVE_SEMIDEFINITE', psd), ('POSITIVE_DEFINITE', psd and det != 0), ('NEGATIVE_SEMIDEFINITE', nsd), ('NEGATIVE_DEFINITE', nsd and det != 0),
                             ('NON_ZERO_INDEFINITE', det != 0)) if y}
    return frozenset(f)


FACTS = {m: facts(m) for m in FAMILY}
PRED = {'isInvertible': 'inv', 'isTriangular': 'triangular', 'isLowerTriangular': 'LOWER_TRIANGULAR', 'isUpperTriangular': 'UPPER_TRIANGULAR', 'isDiagonal': 'DIAGONAL', 'isMultipleOfIdentity': 'MULTIPLE_OF_IDENTITY',
        'isIdentity': 'IDENTITY', 'isMinusIdentity': 'MINUS_IDENTITY', 'isZero': 'ZERO', 'isSymmetric': 'INDEFINITE', 'isPositiveSemiDefinite': 'POSITIVE_SEMIDEFINITE', 'isPositiveDefinite': 'POSITIVE_DEFINITE',
        'isNegativeSemidefinite': 'NEGATIVE_SEMIDEFINITE', 'isNegativeDefinite': 'NEGATIVE_DEFINITE', 'isIndefinite': 'INDEFINITE', 'isNonZeroIndefinite': 'NON_ZERO_INDEFINITE'}


def having(*fs, family=FAMILY):
    return [m for m in family if all(f in FACTS[m] for f in fs)]


def common(ms):
    """Facts shared by all the matrices."""
    r = None
    for m in ms:
        r = FACTS[m] if r is None else r & FACTS[m]
    return r or frozenset()


def E(n):
    return ('enum', P + n)


def domain(prog, rep):
    ok = all([v['n'] for v in prog.enums[P + k]['vals']] and {v['n'] for v in prog.enums[P + k]['vals']} == set(w) for k, w in (('Shape', SH), ('Positiveness', PO)))
    if not ok:
        raise AnalysisBroken('the vocabulary of MatrixProperties changed')


def wrap(T, kind, b):
    return T.construct(P + kind, [b])


def predicates(prog, T):
    return {n: prog.find(P + n, 0)[0] for n in list(PRED) + ['isConstant', 'shape', 'positiveness', 'constness', 'invertibility']}


def told(T, preds, m):
    """What the predicates say of the properties m."""
    return {n: T.call(f, m, ())[0] for n, f in preds.items()}


SOURCES = (('Shape', SH), ('Positiveness', PO), ('Constness', (True, False)), ('Invertibility', (True, False)))


def kinds_of(f):
    ks = [p['t'].replace('const ', '').rstrip('& ').split('::')[-1] for p in f['params']]
    return tuple(ks) if ks and all(k in dict(SOURCES) for k in ks) and len(set(ks)) == len(ks) else None


def expected(a):
    """Given arguments {kind: value} -> None when they are contradictory, else (facts, constant)."""
    s, p = a.get('Shape', 'GENERAL'), a.get('Positiveness', 'NA')
    ms = having(s, p)
    if not ms:
        return None
    if a.get('Constness') is False and s in CONST:
        return None
    if a.get('Invertibility') is False and all('inv' in FACTS[m] for m in ms):
        return None
    if a.get('Invertibility'):
        ms = [m for m in ms if 'inv' in FACTS[m]]
    if not ms:
        return None
    return common(ms), bool(a.get('Constness')) or s in CONST


def built(prog, T):
    """Every way to build properties: (arguments {kind: value}, kinds in order, constructor, result or None when refused)."""
    for f in prog.find(P + 'MatrixProperties'):
        ks = kinds_of(f)
        if ks is None and f['params']:
            continue
        for vals in itertools.product(*[dict(SOURCES)[k] for k in ks or ()]):
            args = [E(v) if isinstance(v, str) else wrap(T, k, v) for k, v in zip(ks or (), vals)]
            try:
                r = T.construct(MP, args) if f['params'] else rec(MP, T.call(f, rec(MP, {}), ())[1])
            except Thrown:
                r = None
            yield dict(zip(ks or (), vals)), ks or (), f, r


def name(a):
    return ', '.join('%s' % v if isinstance(v, str) else '%s(%s)' % (k, str(v).lower()) for k, v in a.items()) or 'nothing'


def rule_build(prog, rep):
    R = 'C19.deductions'
    rep.rule(R, 'for every combination and order of declared properties, what the predicates say is what holds for all the matrices that have these properties, and contradictory declarations are refused')
    domain(prog, rep)
    T = Tables(prog)
    preds = predicates(prog, T)
    n = 0
    for a, ks, f, r in built(prog, T):
        want = expected(a)
        n += 1
        inst = '(%s)' % name(a)
        if want is None or r is None:
            rep.ob(R, inst, (want is None) == (r is None), loc(f), 'a contradictory declaration is accepted' if want is None else 'a consistent declaration is refused')
            continue
        got = told(T, preds, r)
        for p, fact in PRED.items():
            if got[p] != (fact in want[0]):
                rep.bad(R, inst, loc(preds[p]), '%s() gives %s, but %s matrix with these properties %s' % (p, str(got[p]).lower(), 'not every' if got[p] else 'every', 'is such'))
                break
        else:
            rep.good(R, inst, loc(f))
        rep.ob(R, inst + ' constness', got['isConstant'] == want[1] and get(got['constness'], 'b_') in (want[1], None), loc(f), 'constant is %s' % got['isConstant'])
        s, p = T.text(got['shape']), T.text(got['positiveness'])
        rep.ob(R, inst + ' shape() and positiveness()', s in want[0] and p in want[0] and T.call(prog.find(P + 'Invertibility::operator bool', 0)[0], got['invertibility'])[0] == got['isInvertible']
               and T.call(prog.find(P + 'Constness::operator bool', 0)[0], got['constness'])[0] == got['isConstant'], loc(f), 'the accessors give %s, %s' % (s, p))
    rep.floor(R, 1000)
    rep.funcs |= T.used


def rule_copy(prog, rep):
    R = 'C19.copies'
    rep.rule(R, 'a copy of properties says the same as the original')
    domain(prog, rep)
    T = Tables(prog)
    rs = {r for a, ks, f, r in built(prog, T) if r is not None}
    cs = [f for f in prog.find(P + 'MatrixProperties', 1) if f['params'][0]['t'].replace('const ', '').rstrip('& ').endswith('MatrixProperties')]
    if not cs:
        raise AnalysisBroken('no copy of MatrixProperties')
    for f in cs:
        for r in rs:
            got = rec(MP, T.call(f, rec(MP, {}), (r,))[1])
            if not got[2]:
                # delegates to another constructor
                d = [e for p in T.summary(f) for e in p.ev if e.kind == 'call' and e.op in ('basector', 'delegate')]
                ok = bool(d) and all(root(e.c[0]) == ('param', f['params'][0]['n']) for e in d)
            else:
                ok = got == r
            rep.ob(R, '%s of %s' % (f['fid'].split('::')[-1], T.text(r)), ok, loc(f), 'the copy is %s' % T.text(got))
    for f in prog.find(P + 'operator='):
        if f['params'][0]['t'].replace('const ', '').rstrip('& ').endswith('MatrixProperties'):
            for r in rs:
                w = T.call(f, rec(MP, {}), (r,))[1]
                rep.ob(R, 'assignment of %s' % T.text(r), rec(MP, w) == r, loc(f), 'the copy is %s' % T.text(rec(MP, w)))
    rep.floor(R, 20)
    rep.funcs |= T.used


# ------------------------------------------------ operators
def mul(m, n):
    return (m[0] * n[0] + m[1] * n[2], m[0] * n[1] + m[1] * n[3], m[2] * n[0] + m[3] * n[2], m[2] * n[1] + m[3] * n[3])


def f_of(m):
    if m not in FACTS:
        FACTS[m] = facts(m)
    return FACTS[m]


OPS = {'+': lambda m, n: tuple(x + y for x, y in zip(m, n)), '-': lambda m, n: tuple(x - y for x, y in zip(m, n)), '*': mul}


def meaning(T, r):
    """The facts stated by the properties r."""
    s, p = T.text(get(r, 'shape_')), T.text(get(r, 'positiveness_'))
    return tuple(sorted({s, p} | ({'inv'} if get(r, 'invertible_') else set())))


def stated(T, preds, r):
    g = told(T, preds, r)
    return {fact for p, fact in PRED.items() if g[p]} | {T.text(g['shape']), T.text(g['positiveness'])}, g['isConstant'], (T.text(g['shape']), T.text(g['positiveness']), g['isInvertible'])


def shared(ms):
    r = None
    for m in ms:
        r = f_of(m) if r is None else r & f_of(m)
    return r


def rule_operators(prog, rep):
    R = 'C19.operators'
    rep.rule(R, 'for all properties that can be built, the properties of the opposite, of the product by a scalar, of the sum, of the difference and of the product never throw, hold for every matrix obtained from matrices '
             'with the operand properties, and are at least what the shapes alone, the positiveness values alone and the flags alone determine')
    domain(prog, rep)
    T = Tables(prog)
    preds = predicates(prog, T)
    rs = sorted({r for a, ks, f, r in built(prog, T) if r is not None}, key=repr)
    ns = 'tvm::internal::operator'
    say = {r: stated(T, preds, r) for r in rs}
    cache = {}

    def best(op, keys):
        """Facts shared by all the results of op on matrices having the facts of the keys."""
        k = (op, keys)
        if k not in cache:
            if op in OPS:
                cache[k] = shared({OPS[op](m, n) for m in having(*keys[0], family=SMALL) for n in having(*keys[1], family=SMALL)})
            else:
                d = -1 if op == 'neg' else op
                cache[k] = shared({tuple(d * x for x in m) for m in having(*keys[0])})
        return cache[k] or frozenset()

    def text(r):
        return ' '.join([x for x in say[r][2][:2] if x not in ('NA',)] + ['invertible'] * say[r][2][2] + ['constant'] * say[r][1])

    def judge(inst, where, op, a, res):
        ks = [say[x][2] for x in a]
        keys = tuple(tuple(sorted({s, p} | ({'inv'} if i else set()))) for s, p, i in ks)
        if res is None:
            rep.bad(R, inst, where, 'throws on valid operands %s' % ' and '.join(text(x) for x in a))
            return
        got, const, g3 = stated(T, preds, res)
        true = best(op, keys)
        wrong = sorted(got - true)
        if wrong:
            rep.bad(R, inst, where, 'the result for %s is said %s: some result is not' % (' and '.join(text(x) for x in a), wrong[0]))
            return
        low = best(op, tuple((s,) for s, p, i in ks))
        if op != '*':   # the product of symmetric matrices is not symmetric in general
            low = low | best(op, tuple((p,) for s, p, i in ks))
        if (op == '*' or op == 'neg' or isinstance(op, (int, float)) and op != 0) and all(i for s, p, i in ks):
            low = low | {'inv'}
        miss = sorted(f for p, f in PRED.items() if f in low and f not in got)
        if miss:
            rep.bad(R, inst, where, 'the result for %s is not said %s although it is implied' % (' and '.join(text(x) for x in a), miss[0]))
            return
        shape = g3[0]
        wc = all(say[x][1] for x in a) or shape in CONST
        rep.ob(R, inst, const == wc, where, 'the result for %s is said %sconstant' % (' and '.join(text(x) for x in a), '' if const else 'non '))

    def run(f, args):
        try:
            return T.call(f, None, tuple(args))[0]
        except Thrown:
            return None
    neg = T.overload(ns + '-', [rs[0]])
    for r in rs:
        judge('-(%s)' % text(r), loc(neg), 'neg', (r,), run(neg, (r,)))
    sc = T.overload(ns + '*', [1.5, rs[0]])
    for d in (-2, -1, -0.5, 0, 0.5, 1, 2):
        for r in rs:
            judge('%s*(%s)' % (d, text(r)), loc(sc), d, (r,), run(sc, (float(d) if d not in (0, 1, -1) else d, r)))
    for op in '+-*':
        f = T.overload(ns + op, [rs[0], rs[0]])
        if f is None:
            raise AnalysisBroken('operator%s of MatrixProperties not found' % op)
        for a, b in itertools.product(rs, rs):
            judge('(%s)%s(%s)' % (text(a), op, text(b)), loc(f), op, (a, b), run(f, (a, b)))
    rep.floor(R, 1000)
    rep.funcs |= T.used


RULES = [rule_build, rule_copy, rule_operators]
