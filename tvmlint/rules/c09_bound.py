"""C09: which constraints are treated as bounds, and which tasks a scheme accepts."""
from ..q import *

EXPLANATION = ('Decision tables of the bound classification and of the scheme abilities: every combination of number of variables, linearity, matrix properties, conventions, substitution of the variable, levels and abilities '
               'is evaluated on the routes of the functions and compared with the documented table.')
ASSUMPTIONS = ['the properties of the matrices are those declared', 'the product of the properties of two matrices is what MatrixProperties computes']
NS = 'tvm::scheme::internal::'
TYPES = ['EQUAL', 'GREATER_THAN', 'LOWER_THAN', 'DOUBLE_SIDED']
TY = 'tvm::constraint::Type::'


def who(t, c):
    """Which jacobian (of the constraint, of the substitution, their product) a term is about."""
    k = has(t, lambda y: lastname(y) == 'jacobian' and isparam(y[2], c))
    s = has(t, lambda y: lastname(y) == 'jacobian' and has(y[2], lambda z: z[0] == 'param' and z[1] == 'xsub' or lastname(z) == 'variableSubstitutions'))
    if k and s:
        return 'prod' if has(t, lambda y: lastname(y) == 'operator*') else None
    return 'c' if k else 's' if s else None


def isparam(t, c):
    while isinstance(t, tuple) and t and t[0] in ('deref', 'addr') or lastname(t) in ('get', 'operator*', 'operator->'):
        t = t[1] if t[0] in ('deref', 'addr') else t[2]
    return t == c


def prop(c, name, of):
    return lambda t, v: v if lastname(t) == name and who(t[2], c) == of else None


def count(c, sub):
    def m(t, v):
        n = lastname(t)
        if n in ('numberOfVariables', 'size', 'empty') and has_call(t[2], 'variables'):
            s = has(t[2], lambda z: z[0] == 'param' and z[1] == 'xsub' or lastname(z) == 'variableSubstitutions')
            k = has(t[2], lambda z: lastname(z) == 'variables' and isparam(z[2], c))
            if (s if sub else k and not s) and not has_call(t[2], 'substitutions'):
                return v == 0 if n == 'empty' else v
        return None
    return m


def isfirst(t, c):
    """t is the (first) variable of the constraint."""
    return has(t, lambda y: (lastname(y) in ('operator[]', 'front', 'begin') and has(y[2], lambda z: lastname(z) == 'variables' and isparam(z[2], c))))


def found(c):
    """The variable is one of the substituted ones / shares space with one of them."""
    def m(t, v):
        n = lastname(t)
        X = lambda y: has(y, lambda z: z == ('param', 'x') or lastname(z) == 'variables' and z[2] == ('param', 'subs'))
        if t[0] == 'op' and t[1] == '==' and len(t) == 4:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if lastname(b) == 'end' and X(b) and a[0] == 'call' and X(a):
                    if has_call(a, 'intersects') and isfirst(a, c):
                        return v == 'no'
                    if lastname(a) == 'find' and isfirst(a[3][-1], c):
                        return v != 'exact'
                    if lastname(a) == 'find_if' and isfirst(a, c):
                        return v != 'exact'
        if n == 'any_of' and X(t) and has_call(t, 'intersects') and isfirst(t, c):
            return v != 'no'
        if n == 'none_of' and X(t) and has_call(t, 'intersects') and isfirst(t, c):
            return v == 'no'
        if n == 'count' and X(t) and isfirst(t[3][-1], c):
            return 1 if v == 'exact' else 0
        if n == 'intersects' and (isfirst(t[2], c) or isfirst(t[3][0], c)) and X(t):
            return v != 'no'
        return None
    return m


def isenum(t, who_):
    return lambda: None


def conv(term, c):
    """comparison of a type with enumerators"""
    def m(t, v):
        if term == 'target' and t == ('param', 'targetConvention'):
            return ('enum', TY + v)
        if term == 'type' and lastname(t) == 'type' and isparam(t[2], c):
            return ('enum', TY + v)
        if term == 'type' and lastname(t) == 'isEquality' and isparam(t[2], c):
            return v == 'EQUAL'
        return None
    return m


def routes(prog, rep, f, names):
    eng = Engine(prog, inline=lambda g, o: shortq(g['q']) in names, maxpaths=6000, fine=True)
    ps = eng.run(f)
    rep.used(eng, ps)
    return ps


def decide(rep, R, f, what, ps, atoms, want, skip=None):
    n = 0
    for asg, sel in table(ps, atoms, skip):
        w = want(asg)
        got = {evalterm(p.ret, env) if p.exit == 'ret' else p.exit for p, env in sel}
        if not sel:
            continue
        n += 1
        d = ', '.join('%s: %s' % kv for kv in asg.items())
        rep.ob(R, '%s (%s)' % (what, d), got == {w}, loc(f), 'answers %s instead of %s' % (sorted(map(str, got)), w))
    return n


def rule_bound(prog, rep):
    R = 'C09.bound'
    rep.rule(R, 'a constraint is a bound iff it is linear with an invertible diagonal matrix on exactly one variable, this variable shares nothing with the substituted ones or is exactly replaced by an invertible diagonal function of exactly one variable')
    B = NS + 'isBound'
    fs = prog.find(B)
    inl = (B, NS + 'canBeUsedAsBound')
    one = [f for f in fs if len(f['params']) == 1][0]
    c = ('param', one['params'][0]['n'])
    base = [('variables', [0, 1, 2], count(c, False)), ('linear', [True, False], lambda t, v: v if lastname(t) == 'linearIn' and isparam(t[2], c) and isfirst(t[3][0], c) else None),
            ('diagonal', [True, False], prop(c, 'isDiagonal', 'c')), ('invertible', [True, False], prop(c, 'isInvertible', 'c'))]
    plain = lambda a: a['variables'] == 1 and a['linear'] and a['diagonal'] and a['invertible']
    n = decide(rep, R, one, 'is a bound', routes(prog, rep, one, ()), base, plain)
    subs = [('substituted', ['no', 'part', 'exact'], None), ('sub variables', [0, 1, 2], count(c, True)), ('sub diagonal', [True, False], prop(c, 'isDiagonal', 's')), ('sub invertible', [True, False], prop(c, 'isInvertible', 's'))]
    three = [f for f in fs if len(f['params']) == 3][0]
    c3 = ('param', three['params'][0]['n'])
    if c3 != c or [p['n'] for p in three['params'][1:]] != ['x', 'xsub']:
        raise AnalysisBroken('parameters of isBound renamed')
    subs[0] = ('substituted', ['no', 'part', 'exact'], found(c))
    full = lambda a: plain(a) and (a['substituted'] == 'no' or a['substituted'] == 'exact' and a['sub variables'] == 1 and a['sub diagonal'] and a['sub invertible'])
    irr = lambda a: a['substituted'] != 'exact' and (a['sub variables'] != 1 or not a['sub diagonal'] or not a['sub invertible'])
    ps = routes(prog, rep, three, inl)
    n += decide(rep, R, three, 'is a bound', ps, base + subs, full, irr)
    index(rep, R, three, ps, c)
    forward(prog, rep, R, fs, B)
    rep.floor(R, 60)


def index(rep, R, f, ps, c):
    """the substitution looked at is that of the variable"""
    seen = 0
    for p in ps:
        ts = [y for e in p.flat() for t in (e.b,) + tuple(e.c if isinstance(e.c, tuple) else ()) if isinstance(t, tuple) for y in sub_terms(t) if isinstance(y, tuple) and y and y[0] in ('index', 'elem') and y[1] == ('param', 'xsub')]
        for y in ts:
            seen += 1
            ok = y[0] == 'index' and (has(y[2], lambda z: lastname(z) in ('find', 'find_if') and isfirst(z, c)) and has(y[2], lambda z: lastname(z) == 'begin' and z[2] == ('param', 'x')) or searched(y[2], p, None))
            rep.ob(R, 'substitution looked at is the one of the variable', ok, loc(f), 'it is %s' % show(y))
    rep.ob(R, 'substitutions are looked at', seen > 0, loc(f), 'ignored')


def forward(prog, rep, R, fs, name):
    for f in fs:
        ps_ = [x['n'] for x in f['params']]
        if 'subs' in ps_:
            for p in Engine(prog, inline=lambda g, o: False).run(f):
                r = p.ret
                ok = r is not None and r[0] == 'call' and shortq(r[1]) == name and r[3][0] == ('param', 'c') and lastname(r[3][1]) == 'variables' and lastname(r[3][2]) == 'variableSubstitutions' and r[3][1][2] == r[3][2][2] == ('param', 'subs') and r[3][3:] == tuple(('param', x) for x in ps_[2:])
                rep.ob(R, 'with the substitutions of the problem: same answer as with their variables and functions', ok, loc(f), 'answers %s' % show(r))


def rule_used(prog, rep):
    R = 'C09.convention'
    rep.rule(R, 'a bound can be used with a target convention iff the target is double-sided, or both are one-sided and the sign of the matrix (times that of the substitution) keeps or reverses the direction accordingly')
    Q = NS + 'canBeUsedAsBound'
    fs = prog.find(Q)
    f = [g for g in fs if len(g['params']) == 4][0]
    if [p['n'] for p in f['params']] != ['c', 'x', 'xsub', 'targetConvention']:
        raise AnalysisBroken('parameters of canBeUsedAsBound renamed')
    c = ('param', 'c')
    ps = routes(prog, rep, f, (Q,))
    sgn = {'isPositiveDefinite': 'pd', 'isNegativeDefinite': 'nd'}

    def definite(of):
        def m(t, v):
            n = lastname(t)
            if n in sgn and who(t[2], c) == of:
                return sgn[n] == v
            if n == 'isIndefinite' and who(t[2], c) == of:
                return v == 'none'
            return None
        return m
    atoms = [('bound', [True, False], lambda t, v: v if lastname(t) == 'isBound' and isparam(t[3][0], c) and len(t[3]) > 1 else None),
             ('target', TYPES, conv('target', c)), ('type', TYPES, conv('type', c)), ('substituted', ['no', 'exact'], found(c)),
             ('matrix', ['pd', 'nd', 'none'], definite('c')), ('product', ['pd', 'nd', 'none'], definite('prod'))]

    def want(a):
        if not a['bound'] or a['target'] == 'EQUAL':
            return False
        if a['target'] == 'DOUBLE_SIDED':
            return True
        if a['type'] not in ('GREATER_THAN', 'LOWER_THAN'):
            return False
        s = a['matrix'] if a['substituted'] == 'no' else a['product']
        return s == ('pd' if a['type'] == a['target'] else 'nd')
    decide(rep, R, f, 'can be used as bound', ps, atoms, want, lambda a: (a['product'] != 'none' if a['substituted'] == 'no' else a['matrix'] != 'none'))
    index(rep, R, f, ps, c)
    for p in ps:
        for e in p.flat():
            if e.kind == 'call' and cname(e) == 'isBound':
                rep.ob(R, 'bound classification accounts for the substitutions', e.c == (c, ('param', 'x'), ('param', 'xsub')), loc(f), 'called with %s' % [show(y) for y in e.c])
    forward(prog, rep, R, fs, Q)
    rep.floor(R, 60)


def rule_abilities(prog, rep):
    R = 'C09.abilities'
    rep.rule(R, 'a scheme without scalarization refuses levels beyond its hierarchy; with it, they get the abilities of the last level; other levels get their own abilities, or the general ones; a level refuses inequalities it cannot handle and violation evaluations it does not list')
    C = NS + 'SchemeAbilities::check'
    for f in prog.find(C):
        if f.get('body') is None:
            continue
        P = [('param', x['n']) for x in f['params']]
        ps = routes(prog, rep, f, ())
        lvl = lambda t: lastname(t) == 'value' and has_call(t, 'priorityLevel') and has(t, lambda y: y == P[1])
        key = lambda t: t[3][0] if lastname(t) in ('find', 'at', 'count') and t[2] == fld('abilities_') else None

        def fnd(t, v):
            if t[0] == 'op' and t[1] == '==' and len(t) == 4:
                for a, b in ((t[2], t[3]), (t[3], t[2])):
                    if lastname(a) == 'find' and a[2] == fld('abilities_') and b == ('call', b[1], fld('abilities_'), ()) and lastname(b) == 'end':
                        return not v
            if lastname(t) == 'count' and t[2] == fld('abilities_'):
                return 1 if v else 0
            return None
        atoms = [('levels', [-1, 1, 2, 3], lambda t, v: v if t == fld('numberOfLevels_') else None), ('level', [0, 1, 2, 3, 4], lambda t, v: v if lvl(t) else None),
                 ('scalarization', [True, False], lambda t, v: v if t == fld('scalarization_') else None), ('has its own abilities', [True, False], fnd)]
        gen = lambda t: evalterm(t, lambda y: -1 if y[0] in ('global', 'enum') and y[1].split('::')[-1] in ('GeneralLevel', 'NoLimit') else None)
        for a, sel in table(ps, atoms):
            over = a['levels'] > 0 and a['level'] >= a['levels']
            for p, env in sel:
                d = ', '.join('%s: %s' % kv for kv in a.items())
                k = [e for e in p.flat() if e.kind == 'call' and cname(e) == 'check' and 'LevelAbilities' in e.a]
                if over and not a['scalarization']:
                    rep.ob(R, 'refused (%s)' % d, p.exit == 'throw' and not k, loc(f), 'accepted')
                    continue
                ok = p.exit == 'ret' and len(k) == 1 and k[0].c[0] == P[0] and k[0].c[1] == P[1]
                if ok:
                    ks = [key(y) for y in sub_terms(k[0].b) if isinstance(y, tuple) and y and y[0] == 'call' and key(y) is not None] + [y[2] for y in sub_terms(k[0].b) if isinstance(y, tuple) and y and y[0] == 'index' and y[1] == fld('abilities_')]
                    w = (a['levels'] - 1 if over else a['level']) if a['has its own abilities'] else -1
                    ok = bool(ks) and {gen(y) if gen(y) is not None else evalterm(y, env) for y in ks} == {w}
                rep.ob(R, 'abilities of the right level are checked (%s)' % d, ok, loc(f), 'checks %s' % [show(e.b) for e in k])
    # a level
    for f in prog.find(NS + 'LevelAbilities::check'):
        if f.get('body') is None:
            continue
        c, req = [('param', x['n']) for x in f['params'][:2]]
        ps = routes(prog, rep, f, ())

        def inlist(t, v):
            if t[0] == 'op' and t[1] == '==' and len(t) == 4:
                for a, b in ((t[2], t[3]), (t[3], t[2])):
                    if lastname(b) == 'end' and b[2] == fld('evaluationTypes_') and a[0] == 'call' and lastname(a) in ('find', 'find_if') and has_field(a, 'evaluationTypes_') and has_call(a, 'violationEvaluation'):
                        return not v
            if lastname(t) in ('count', 'any_of') and has_field(t, 'evaluationTypes_') and has_call(t, 'violationEvaluation'):
                return v
            return None
        atoms = [('type', TYPES, conv('type', c)), ('inequalities handled', [True, False], lambda t, v: v if t == fld('inequalities_') else None), ('evaluation listed', [True, False], inlist)]
        for a, sel in table(ps, atoms):
            d = ', '.join('%s: %s' % kv for kv in a.items())
            w = 'throw' if (a['type'] != 'EQUAL' and not a['inequalities handled']) or not a['evaluation listed'] else 'ret'
            got = {p.exit for p, env in sel}
            rep.ob(R, '%s (%s)' % ('accepted' if w == 'ret' else 'refused', d), got == {w}, loc(f), 'it is not')
    # constructor
    f = [g for g in prog.find(NS + 'SchemeAbilities::SchemeAbilities') if len(g['params']) == 3][0]
    P = [('param', x['n']) for x in f['params']]
    ps = [p for p in routes(prog, rep, f, ())]
    isgen = lambda t: t in (('lit', '-1'), ('op', '-', ('lit', '1'))) or t[0] in ('global', 'enum') and t[1].split('::')[-1] in ('GeneralLevel', 'NoLimit')

    def cnt(t, v):
        if lastname(t) in ('count', 'contains') and t[2] in (P[1], fld('abilities_')) and isgen(t[3][0]):
            return 1 if v else 0
        if t[0] == 'op' and t[1] == '==' and lastname(t[2]) == 'find' and isgen(t[2][3][0]):
            return not v
        return None
    atoms = [('levels', [-2, -1, 0, 2], lambda t, v: v if t in (P[0], fld('numberOfLevels_')) else -1 if isgen(t) else None), ('general abilities', [True, False], cnt)]
    for a, sel in table(ps, atoms):
        d = ', '.join('%s: %s' % kv for kv in a.items())
        ex = {p.exit for p, env in sel}
        if a['levels'] == -2 or a['levels'] == -1 and not a['general abilities']:
            rep.ob(R, 'incoherent abilities are refused (%s)' % d, ex == {'throw'}, loc(f), 'accepted')
        elif a['general abilities'] or a['levels'] == 0:
            rep.ob(R, 'coherent abilities are accepted (%s)' % d, 'ret' in ex and (ex == {'ret'} or a['levels'] == 0), loc(f), 'refused')
        else:
            lp = [e for p, env in sel for e in p.flat() if e.kind == 'loop']
            ok = bool(lp) and any(bx == 'throw' or p.exit == 'throw' for p, env in sel for e in p.flat() if e.kind == 'loop' for bx in e.bx or ()) or 'throw' in ex
            ok &= all(e.b[0] != 'range' or e.b[1] == ('lit', '0') and e.b[2] in (P[0], fld('numberOfLevels_')) for e in lp)
            rep.ob(R, 'abilities of every level are required (%s)' % d, ok and 'ret' in ex, loc(f), 'they are not')
    for p in ps:
        if p.exit == 'ret':
            w = {e.a: e.b for e in p.flat() if e.kind == 'write'}
            ok = all(w.get(fld(x)) == y for x, y in (('numberOfLevels_', P[0]), ('scalarization_', P[2]), ('abilities_', P[1])))
            rep.ob(R, 'abilities are those given', ok, loc(f), 'they are not')
    rep.floor(R, 60)


def leaves(n):
    if isinstance(n, dict):
        if n.get('k') == 'lit':
            yield n.get('cv') or n.get('v')
            return
        if 'cv' in n:
            yield n['cv']
            return
        if n.get('k') == 'ref':
            yield n['n']
            return
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from leaves(v)
    elif isinstance(n, list):
        for x in n:
            yield from leaves(x)


def rule_declared(prog, rep):
    R = 'C09.declared'
    rep.rule(R, 'the weighted scheme declares two levels, inequalities at level 0 only, L2 violations, and scalarization; the hierarchical scheme declares no limit of levels, inequalities, L2 violations, and no scalarization')
    for cls, want in (('WeightedLeastSquares', ['2', '0', 'true', 'L2', '1', 'false', 'L2', 'true']), ('HierarchicalLeastSquares', ['NoLimit', 'NoLimit', 'true', 'L2', 'false'])):
        g = prog.globals.get('tvm::scheme::%s::abilities_' % cls)
        if not g or 'init' not in g:
            raise AnalysisBroken('anchor vanished: abilities of %s' % cls)
        got = ['NoLimit' if x in ('GeneralLevel', 'NoLimit', '-1') else x for x in leaves(g['init'])]
        rep.ob(R, '%s: abilities' % cls, got == want, '%s:%s' % (g['file'], g['l']), 'declares %s' % got)


def rule_checked(prog, rep):
    R = 'C09.checked'
    rep.rule(R, 'the abilities are checked on the constraint and requirements of every task not used by a substitution, before anything is derived from it')
    for cls, fn in (('tvm::scheme::WeightedLeastSquares', 'processProblem'), ('tvm::scheme::HierarchicalLeastSquares', 'processProblem'), ('tvm::scheme::WeightedLeastSquares', 'addTask')):
        for f in prog.find(cls + '::' + fn):
            if f.get('body') is None:
                continue
            eng = Engine(prog, inline=lambda g, o: shortq(g['q']).startswith(cls + '::') and 'Memory' not in g['q'], maxpaths=6000)
            ps = eng.run(f)
            rep.used(eng, ps)
            n = 0
            for p in ps:
                if p.exit == 'throw':
                    continue
                lists = [list(walk(b, h)) for e in p.flat() if e.kind == 'loop' and e.b is not None for b, h in zip(e.c, e.bh)] if fn == 'processProblem' else [list(pwalk(p))]
                for bl in lists:
                    ck = [i for i, (e, l, h) in enumerate(bl) if e.kind == 'call' and cname(e) == 'check' and has_field(e.b, 'abilities_') or e.kind == 'call' and cname(e) == 'check' and 'SchemeAbilities' in e.a]
                    av = [i for i, (e, l, h) in enumerate(bl) if e.kind == 'call' and cname(e) in ('canBeUsedAsBound',)]
                    if not av:
                        continue
                    n += 1
                    k = bl[av[0]][0].c[0]
                    ok = bool(ck) and ck[0] < av[0] and norm(bl[ck[0]][0].c[0]) == norm(k) and has_name(bl[ck[0]][0].c[1], 'requirements')
                    rep.ob(R, '%s::%s: abilities checked for each task' % (cls.split('::')[-1], fn), ok, loc(f), 'checks: %s' % [[show(y) for y in bl[i][0].c] for i in ck])
            rep.ob(R, '%s::%s: tasks are classified' % (cls.split('::')[-1], fn), n > 0, loc(f), 'none is')
    rep.floor(R, 4)


RULES = [rule_bound, rule_used, rule_abilities, rule_declared, rule_checked]
