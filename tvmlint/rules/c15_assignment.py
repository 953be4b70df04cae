"""C15: conventions, weights and refresh of the assignments."""
import itertools
from ..q import *
from ..flow import tmplargs

EXPLANATION = ('Decision tables of the assignment builders: for every combination of source type, target type, right-hand side conventions, requested sign and weights, the atomic assignments created on the routes of the functions are '
               'composed and compared with the documented convention (direction of the inequality, side, sign); min/max compositions of bounds are decided on all orderings of the operands (lattice polynomials).')
ASSUMPTIONS = ['an atomic assignment does what its template arguments say (to = / += / -= / min / max weight * from * mult)', 'the properties of the matrices are those declared']
NS = 'tvm::scheme::internal::'
AS = NS + 'Assignment::'
AT = NS + 'AssignmentTarget::'
TYPES = ['EQUAL', 'GREATER_THAN', 'LOWER_THAN', 'DOUBLE_SIDED']
RHSS = ['ZERO', 'AS_GIVEN', 'OPPOSITE']
TY = 'tvm::constraint::Type::'
RH = 'tvm::constraint::RHS::'
CONTRACT = {AS + x for x in ('createAssignment', 'createMultiplicationAssignment', 'addVectorAssignment', 'addMatrixAssignment', 'addMatrixSubstitutionAssignments', 'addVectorSubstitutionAssignments', 'addZeroAssignment',
                             'build', 'checkTarget', 'checkBounds', 'processRequirements', 'run', 'onUpdatedTarget', 'onUpdatedMapping', 'onUpdateWeights')}
FULL = {'addAssignments': 7, 'addBounds': 6, 'addBound': 3}


def inl(extra=()):
    def p(g, o):
        n = shortq(g['q'])
        if n in CONTRACT or g.get('ctor'):
            return False
        b = n.rsplit('::', 1)[-1]
        if n.startswith(AS) and b in FULL and len(g['params']) == FULL[b]:
            return n in extra
        return n.startswith(AS) or g.get('file', '').endswith(('scheme/Assignment.cpp', 'internal/Assignment.hpp')) or n in extra
    return p


def routes(prog, rep, f, extra=(), **kw):
    eng = Engine(prog, inline=inl(extra), fine=True, maxpaths=20000, **kw)
    ps = eng.run(f)
    rep.used(eng, ps)
    return ps


def enumatom(name, owner, getter, vals, pre):
    """Atom for the enumerator answered by owner's getter."""
    return (name, vals, lambda t, v: ('enum', pre + v) if lastname(t) == getter and top_field(t[2]) == owner else None)


def boolp(name):
    return (name, [False, True], lambda t, v: v if t == ('param', name) else None)


def targs(t):
    """Enumerator template arguments in the name of a call."""
    n = t[1] if isinstance(t, tuple) else t
    return [x.strip() for x in n[n.rindex('<') + 1:-1].split(',')] if n.endswith('>') else []


def strip(t):
    while isinstance(t, tuple) and t:
        if t[0] == 'ctor' and ('Eigen::Ref' in t[1]) and len(t[2]) >= 1:
            t = t[2][0]
        elif t[0] == 'obj' and len(t) > 3 and isinstance(t[3], tuple):
            t = t[3]
        elif t[0] in ('addr', 'deref'):
            t = t[1]
        elif lastname(t) in ('get', 'matrix') and not t[3]:
            t = t[2]
        else:
            break
    return t


def value(t, evs):
    """Value of a wrapper given to a container: the last one assigned to the local, or its initial one."""
    r = t
    if isinstance(t, tuple) and t and t[0] == 'obj':
        for e in evs:
            if e.kind == 'call' and cname(e) == 'operator=' and e.b == t:
                r = e.c[0]
    return strip(r)


def pushed(evs, cont):
    """Elements put in the member container: [arguments]"""
    out = []
    for i, e in enumerate(evs):
        if e.kind == 'call' and cname(e) in ('push_back', 'emplace_back') and top_field(e.b) == cont:
            a = e.c
            if cname(e) == 'push_back' and len(a) == 1:
                b = a[0]
                if b[0] == 'obj' and len(b) > 3:
                    b = b[3]
                a = b[2] if b[0] in ('init', 'ctor') else (b,)
            out.append((tuple(a), evs[:i]))
    return out


def slot(t):
    """(kind, selector, args) of a target: ('member', pm, args) for (target_.*pm)(args), ('vec', term)."""
    t = strip(t)
    if t[0] == 'call' and t[1] == '->*':
        b = t[2]
        if b[0] == 'fld' and top_field(b) in ('target_', 'source_'):
            return ('member', top_field(b), b[2], t[3])
    return ('term', t)


def rule_leaf(prog, rep):
    R = 'C15.weights'
    rep.rule(R, 'an atomic assignment uses no multiplier (resp. minus) when both weights are the default ones, the stored scalar weight (resp. its opposite) when only the anisotropic one is, the stored anisotropic weight (resp. its opposite) otherwise')
    n = 0
    for name in ('createAssignment', 'createMultiplicationAssignment'):
        for f in prog.find(AS + name):
            own = [a.rsplit('::', 1)[-1] for a in tmplargs(f['fid']) if a in prog.enumerators]
            mult = own[1] if name != 'createAssignment' else 'IDENTITY'
            src = 'CONSTANT' if f['params'][0]['t'].replace('const', '').replace('&', '').strip() == 'double' else 'EXTERNAL'
            pn = [p['n'] for p in f['params']]
            flip = pn[-1]
            atoms = [('anisotropic weight is default', [True, False], lambda t, v: v if top_field(t) == 'useDefaultAnisotropicWeight_' else None),
                     ('scalar weight is default', [True, False], lambda t, v: v if top_field(t) == 'useDefaultScalarWeight_' else None), boolp(flip)]
            for asg, sel in table(routes(prog, rep, f), atoms):
                an, sc, fl = asg['anisotropic weight is default'], asg['scalar weight is default'], asg[flip]
                W = ('MINUS' if fl else 'NONE') if an and sc else 'SCALAR' if an else 'DIAGONAL'
                wt = None if an and sc else ('minusScalarWeight_' if fl else 'scalarWeight_') if an else ('minusAnisotropicWeight_' if fl else 'anisotropicWeight_')
                ok = bool(sel)
                for p, env in sel:
                    r = p.ret
                    good = r is not None and lastname(r) == 'make' and targs(r) == [own[0], W, mult, src] and r[3][:2] == (('param', pn[1]), ('param', pn[0]))
                    if good:
                        rest = list(r[3][2:])
                        if wt:
                            good = bool(rest) and rest[0][0] == 'fld' and rest[0][2] == wt and top_field(rest[0]) == 'data_'
                            rest = rest[1:]
                        good = good and (rest == [('param', pn[2])] if name != 'createAssignment' else rest == [])
                    ok = ok and good
                n += 1
                rep.ob(R, '%s<%s> (%s)' % (name, ', '.join(own), ', '.join('%s: %s' % kv for kv in asg.items())), ok, loc(f), 'creates %s' % sorted({show(p.ret)[:150] for p, e in sel}))
    rep.floor(R, 8 * 10)


def members(prog, t):
    return t


def rule_vector(prog, rep):
    R = 'C15.rhs'
    rep.rule(R, 'a right-hand side is copied with a change of sign iff exactly an odd number of these hold: a change is requested, the source is OPPOSITE (if it applies), the target is OPPOSITE (if it applies); a source without right-hand side sets the target to zero, if it has one')
    for f in prog.find(AS + 'addVectorAssignment'):
        own = [a.rsplit('::', 1)[-1] for a in tmplargs(f['fid']) if a in prog.enumerators][0]
        pt = [p['t'] for p in f['params']]
        pn = [p['n'] for p in f['params']]
        D = 'Ref<const' in pt[2]
        k = 3 if D else 2
        flip = pn[k]
        const = pt[0].strip() == 'double'
        direct = 'Ref<const' in pt[0] and '::*' not in pt[0]
        totarget = '::*' not in pt[1]
        ps = routes(prog, rep, f)
        atoms = [enumatom('source rhs', 'source_', 'rhs', RHSS, RH), enumatom('target rhs', 'target_', 'constraintRhs', RHSS, RH), boolp(flip)]
        atoms += [boolp(pn[k + 2])] if const else [boolp(pn[k + 1]), boolp(pn[k + 2])]
        lab = '%s to %s' % ('constant' if const else 'vector' if direct else 'side of the source', 'vector' if totarget else 'side of the target') + (', by the inverse of a diagonal matrix' if D else '')
        for asg, sel in table(ps, atoms):
            so, ta, fl = asg['source rhs'], asg['target rhs'], asg[flip]
            if const:
                sign = fl ^ (ta == 'OPPOSITE' and asg[pn[k + 2]])
            else:
                sign = fl ^ (so == 'OPPOSITE' and asg[pn[k + 1]]) ^ (ta == 'OPPOSITE' and asg[pn[k + 2]])
            useful = const or direct or so != 'ZERO'
            ok, why = bool(sel), 'no route'
            for p, env in sel:
                if p.exit != 'ret':
                    ok, why = False, 'throws'
                    continue
                pu = pushed(p.flat(), 'vectorAssignments_')
                if not useful and ta == 'ZERO':
                    good, why2 = not pu, 'creates an assignment'
                else:
                    good, why2 = len(pu) == 1, 'creates %d assignments' % len(pu)
                    if good:
                        a, before = pu[0]
                        w = value(a[0], before)
                        tm = a[-1]
                        good = tm == (('lit', 'nullptr') if totarget else ('param', pn[1])) or totarget and tm == ('nullptr',)
                        why2 = 'target selector %s' % show(tm)
                        if good and useful:
                            nm = lastname(w)
                            good = nm == ('createMultiplicationAssignment' if D else 'createAssignment') and targs(w)[0] == own and (not D or targs(w)[1] == ('GENERAL' if const else 'INVERSE_DIAGONAL'))
                            why2 = 'creates %s' % show(w)[:160]
                            if good:
                                sf, st_ = slot(w[3][0]), slot(w[3][1])
                                good = sf == (('term', ('param', pn[0])) if const or direct else ('member', 'source_', pn[0], ())) and st_ == (('term', ('param', pn[1])) if totarget else ('member', 'target_', pn[1], ())) \
                                    and (not D or strip(w[3][2]) == ('param', pn[2]))
                                fv = w[3][3 if D else 2] if len(w[3]) > (3 if D else 2) else ('lit', 'false')
                                s = evalterm(fv, env)
                                good = good and s == sign
                                why2 = 'from %s to %s, change of sign: %s instead of %s' % (show(w[3][0]), show(w[3][1]), s, sign)
                        elif good:
                            st_ = slot(w[3][0]) if lastname(w) == 'make' else None
                            good = lastname(w) == 'make' and targs(w) == [own, 'NONE', 'IDENTITY', 'ZERO'] and st_ == (('term', ('param', pn[1])) if totarget else ('member', 'target_', pn[1], ()))
                            why2 = 'creates %s' % show(w)[:160]
                if not good:
                    ok, why = False, why2
            rep.ob(R, 'addVectorAssignment<%s>, %s (%s)' % (own, lab, ', '.join('%s: %s' % kv for kv in asg.items())), ok, loc(f), why)
    rep.floor(R, 500)



def bodies(p, env):
    """Loops of the route with their body routes compatible with the known values: [(loop, [(events, decisions)])]"""
    out = []

    def go(evs):
        for e in evs:
            if e.kind == 'loop':
                bs = [(b, h) for b, h in zip(e.c, e.bh or [{}] * len(e.c)) if consistent(h, env)]
                out.append((e, bs))
                for b, h in bs:
                    go(b)
    go(p.ev)
    return out


def flatb(evs):
    return [e for e in flat_(evs)]


def flat_(evs):
    for e in evs:
        yield e
        if e.kind == 'loop':
            for b in e.c:
                yield from flat_(b)


def iselem(t, rng):
    """t is the current element of a loop over a range accepted by rng."""
    t = strip(t)
    return t is not None and (t[0] == 'elem' and rng(t[1]) or t[0] == 'index' and rng(t[1]) or lastname(t) in ('operator[]', 'at') and rng(t[2]))


def prop(of, name):
    """Atom matcher: property of a matrix accepted by of."""
    return lambda t, v: v if lastname(t) == name and lastname(t[2]) == 'properties' and of(strip(t[2][2])) else None


def mapping(t, x, variables):
    """t is the range of x in the vector of variables."""
    t = strip(t)
    return lastname(t) == 'getMappingIn' and strip(t[2]) == strip(x) and t[3] == (variables,)


def block(t, M, rng):
    """t is the block of the target selected by M for the columns rng."""
    k = slot(t)
    if k[0] != 'member' or k[1] != 'target_' or k[2] != M or len(k[3]) != 2:
        return False
    a, b = k[3]
    f = lambda y, n: y[0] == 'fld' and y[2] == n and norm(strip(y[1])) == norm(strip(rng))
    return f(a, 'start') and f(b, 'dim')


def total(w, env, what):
    """(sign, form) of an additive assignment: True for minus; form: 'plain' or 'product'"""
    nm = lastname(w)
    if nm not in ('createAssignment', 'createMultiplicationAssignment'):
        return None
    ta = targs(w)
    if ta[0] not in ('ADD', 'SUB') or nm != 'createAssignment' and ta[1:] != ['GENERAL']:
        return None
    k = 2 if nm == 'createAssignment' else 3
    fl = evalterm(w[3][k], env) if len(w[3]) > k else False
    if not isinstance(fl, bool):
        return None
    return (ta[0] == 'SUB') ^ fl, 'plain' if nm == 'createAssignment' else 'product'


def rule_matrix(prog, rep):
    R = 'C15.blocks'
    rep.rule(R, 'the matrix of each variable goes to the columns of that variable in the target, with the requested sign; replacing a variable adds the product of the matrices to the columns of each replacing variable, and moves the constant to the right-hand side with the sign of its convention')
    jac = lambda t, x: lastname(t) == 'jacobian' and top_field(t[2]) == 'source_' and t[3] == (x,)
    for f in prog.find(AS + 'addMatrixAssignment') + prog.find(AS + 'addZeroAssignment'):
        zero = shortq(f['q']).endswith('addZeroAssignment')
        pn = [p['n'] for p in f['params']]
        P = [('param', n) for n in pn]
        for p in routes(prog, rep, f):
            pu = pushed(p.flat(), 'matrixAssignments_')
            ok = len(pu) == 1 and len(pu[0][0]) == 4 and p.exit == 'ret'
            if ok:
                a, before = pu[0]
                w = value(a[0], before)
                ok = strip(a[1]) == P[0] and strip(a[2]) == P[2] and a[3] == P[1]
                if zero:
                    ok = ok and lastname(w) == 'make' and targs(w) == ['COPY', 'NONE', 'IDENTITY', 'ZERO'] and block(w[3][0], pn[1], P[2])
                else:
                    ok = ok and lastname(w) == 'createAssignment' and targs(w) == ['COPY'] and jac(strip(w[3][0]), P[0]) and block(w[3][1], pn[1], P[2]) and w[3][2] == P[3]
            rep.ob(R, '%s: one assignment to the block of the variable' % shortq(f['q']).split('::')[-1], ok, loc(f), 'creates %s' % [show(x) for a, b in pu for x in a])
    for f in prog.find(AS + 'addMatrixSubstitutionAssignments'):
        pn = [p['n'] for p in f['params']]
        P = [('param', n) for n in pn]
        ps = routes(prog, rep, f)
        rng = lambda t: lastname(strip(t)) == 'variables' and strip(t)[2] == P[3]
        isJ = lambda t: jac(t, P[1])
        atoms = [('identity', [True, False], prop(isJ, 'isIdentity')), ('minus identity', [True, False], prop(isJ, 'isMinusIdentity')), boolp(pn[4])]
        for asg, sel in table(ps, atoms, lambda a: a['identity'] and a['minus identity']):
            ok, why = bool(sel), 'no route'
            for p, env in sel:
                n = 0
                for lp, bs in bodies(p, env):
                    for b, h in bs:
                        pu = pushed(flatb(b), 'matrixSubstitutionAssignments_')
                        if len(pu) != 1 or len(pu[0][0]) != 4:
                            ok, why = False, '%d assignments for a variable' % len(pu)
                            continue
                        n += 1
                        a, before = pu[0]
                        x, w = a[1], value(a[0], before)
                        good = iselem(x, rng) and mapping(a[2], x, P[0]) and a[3] == P[2]
                        tt = total(w, env, None) if good else None
                        if tt:
                            Ai = lambda t: lastname(strip(t)) == 'jacobian' and strip(t)[2] == P[3] and strip(strip(t)[3][0]) == strip(x)
                            good = block(w[3][1], pn[2], a[2])
                            if tt[1] == 'plain':
                                good = good and Ai(w[3][0]) and (asg['identity'] or asg['minus identity']) and tt[0] == (asg[pn[4]] ^ asg['minus identity'])
                            else:
                                good = good and isJ(strip(w[3][0])) and Ai(w[3][2]) and tt[0] == asg[pn[4]]
                        if not (good and tt):
                            ok, why = False, 'creates %s' % show(w)[:200]
                if n == 0:
                    ok, why = False, 'no assignment'
            rep.ob(R, 'matrix of a replaced variable (%s)' % ', '.join('%s: %s' % kv for kv in asg.items()), ok, loc(f), why)
    for f in prog.find(AS + 'addVectorSubstitutionAssignments'):
        pn = [p['n'] for p in f['params']]
        P = [('param', n) for n in pn]
        ps = routes(prog, rep, f)
        isJ = lambda t: jac(t, P[2])
        isb = lambda t: lastname(t) == 'b' and t[2] == P[0]
        atoms = [('constant', [True, False], prop(isb, 'isConstant')), ('zero', [True, False], prop(isb, 'isZero')), enumatom('target rhs', 'target_', 'constraintRhs', RHSS, RH),
                 ('identity', [True, False], prop(isJ, 'isIdentity')), ('minus identity', [True, False], prop(isJ, 'isMinusIdentity')), boolp(pn[3])]
        for asg, sel in table(ps, atoms, lambda a: a['identity'] and a['minus identity'] or a['target rhs'] == 'ZERO' and not (a['constant'] and a['zero'])):
            ok, why = bool(sel), 'no route'
            for p, env in sel:
                pu = pushed(p.flat(), 'vectorSubstitutionAssignments_')
                if asg['constant'] and asg['zero']:
                    if pu:
                        ok, why = False, 'creates an assignment'
                    continue
                if len(pu) != 1:
                    ok, why = False, 'creates %d assignments' % len(pu)
                    continue
                a, before = pu[0]
                w = value(a[0], before)
                tt = total(w, env, None)
                good = tt is not None and len(a) == 2 and a[1] == P[1] and isb(strip(w[3][0])) and slot(w[3][1]) == ('member', 'target_', pn[1], ())
                if good:
                    s = asg[pn[3]] ^ (asg['target rhs'] == 'AS_GIVEN')
                    good = tt[0] == (s ^ asg['minus identity']) and (asg['identity'] or asg['minus identity']) if tt[1] == 'plain' else tt[0] == s and isJ(strip(w[3][2]))
                if not good:
                    ok, why = False, 'creates %s' % show(w)[:200]
            rep.ob(R, 'constant of a replaced variable (%s)' % ', '.join('%s: %s' % kv for kv in asg.items()), ok, loc(f), why)
    rep.floor(R, 50)


def rule_split(prog, rep):
    R = 'C15.split'
    rep.rule(R, 'each non-empty part of the variables of the source is assigned once: replaced (matrix and right-hand sides) if it is a substituted variable, copied otherwise; the columns of the replacing variables absent from the source are zeroed; the right-hand sides of the source are assigned once each')
    fs = [f for f in prog.find(AS + 'addAssignments') if len(f['params']) == 7]
    for f in fs:
        pn = [p['n'] for p in f['params']]
        V, M, f1, v1, f2, v2, fl = [('param', n) for n in pn]
        ps = routes(prog, rep, f)
        xs = fld('substitutedVariables_')
        isxc = lambda t: lastname(strip(t)) == 'variables' and top_field(strip(t)[2]) == 'source_'

        def isxcp(t, fl_):
            t = strip(t)
            if not (t[0] == 'ctor' and 'VariableVectorPartition' in t[1] and len(t[2]) == 2 and isxc(t[2][0])):
                return False
            pt = t[2][1]
            ad = [strip(e.c[0]) for e in fl_ if e.kind == 'call' and cname(e) == 'add' and e.b == pt]
            return any(isxc(a) for a in ad) and xs in ad and strip(pt)[0] == 'ctor' and strip(pt)[2][:1] == (('lit', 'true'),)
        idx = lambda t: lastname(t) in ('indexOf', 'contains') and t[2] == xs

        def sub(t, x):
            t = strip(t)
            if lastname(t) in ('operator[]', 'at') and top_field(t[2]) == 'variableSubstitutions_':
                i = t[3][0]
            elif t[0] == 'index' and top_field(t[1]) == 'variableSubstitutions_':
                i = t[2]
            else:
                return False
            return lastname(i) == 'indexOf' and i[2] == xs and strip(i[3][0]) == strip(x)
        atoms = [('two sides', [True, False], lambda t, v: v if t == f2 else (not v) if t == ('op', '==', f2, ('lit', 'nullptr')) else None),
                 ('substituted', [True, False], lambda t, v: (0 if v else -1) if lastname(t) == 'indexOf' and t[2] == xs else v if lastname(t) == 'contains' and t[2] == xs else None),
                 ('in the source', [True, False], lambda t, v: v if lastname(t) == 'contains' and isxc(t[2]) else None),
                 ('empty', [True, False], lambda t, v: (0 if v else 3) if lastname(t) == 'size' and t[2][0] == 'elem' else None)]
        names = {'addMatrixSubstitutionAssignments', 'addVectorSubstitutionAssignments', 'addZeroAssignment', 'addMatrixAssignment', 'addVectorAssignment'}
        for asg, sel in table(ps, atoms):
            ok, why = bool(sel), 'no route'
            for p, env in sel:
                fl_ = p.flat()
                top = [e for e in p.ev if e.kind == 'call' and cname(e) in names]
                rhs = sorted((show(e.c[0]), show(e.c[1]), show(e.c[2]), len(e.c) < 4 or e.c[3:] == (('lit', 'true'),) * 2, tuple(targs(e.a))) for e in top if cname(e) == 'addVectorAssignment')
                want = sorted([(show(f1), show(v1), show(fl), True, ('COPY',))] + ([(show(f2), show(v2), show(fl), True, ('COPY',))] if asg['two sides'] else []))
                if rhs != want or len(top) != len(want):
                    ok, why = False, 'right-hand sides: %s' % (rhs,)
                got = {k: 0 for k in ('copy', 'matrix', 'v1', 'v2', 'zero', 'other')}
                into = []
                for lp, bs in bodies(p, env):
                    src = isxcp(lp.b, fl_)
                    for b, h in bs:
                        for e in b:
                            if e.kind != 'call':
                                continue
                            c, n = e.c, cname(e)
                            if n == 'add' and e.b[0] == 'obj' and src and asg['substituted']:
                                t = strip(c[0])
                                if lastname(t) == 'variables' and sub(t[2], ('elem', lp.b, None)) or lastname(t) == 'variables' and has_call(t, 'indexOf') and has_field(t, 'variableSubstitutions_'):
                                    into.append(e.b)
                            if n not in names:
                                continue
                            k = 'other'
                            el = lambda y: strip(y)[0] == 'elem' and strip(y)[1] == lp.b or iselem(y, lambda r: r == lp.b or strip(r) == strip(lp.b))
                            if n == 'addMatrixAssignment' and src and el(c[0]) and c[1] == M and mapping(c[2], c[0], V) and c[3] == fl:
                                k = 'copy'
                            elif n == 'addMatrixSubstitutionAssignments' and src and c[0] == V and el(c[1]) and c[2] == M and sub(c[3], c[1]) and c[4] == fl:
                                k = 'matrix'
                            elif n == 'addVectorSubstitutionAssignments' and src and sub(c[0], c[2]) and el(c[2]) and c[3] == fl:
                                k = 'v1' if c[1] == v1 else 'v2' if c[1] == v2 else 'other'
                            elif n == 'addZeroAssignment' and not src and c[1] == M and mapping(c[2], c[0], V) and el(c[0]) and \
                                    (lp.b in into or lastname(strip(lp.b)) == 'variables' and has_field(lp.b, 'variableSubstitutions_') or lp.b[0] == 'obj' and not asg['substituted']):
                                k = 'zero'
                            got[k] += 1
                s_, e_ = asg['substituted'], asg['empty']
                w = dict(copy=int(not s_), matrix=int(s_), v1=int(s_), v2=int(s_ and asg['two sides']), zero=int(not asg['in the source']), other=0)
                for k in w:
                    if k == 'zero' and not s_:
                        continue   # no replacing variable
                    if e_ and got[k] == 0 and k in ('copy', 'matrix', 'v1', 'v2'):
                        continue   # nothing to assign
                    if got[k] != w[k]:
                        ok, why = False, '%d %s assignment(s) instead of %d' % (got[k], k, w[k])
            rep.ob(R, 'assignments of a part of the variables (%s)' % ', '.join('%s: %s' % kv for kv in asg.items()), ok, loc(f), why)
    rep.floor(R, 16)


def pmname(t):
    """Last name of a pointer to member."""
    t = t[1] if isinstance(t, tuple) and t and t[0] in ('addr',) else t
    return shortq(t[1]).split('::')[-1] if isinstance(t, tuple) and t and t[0] in ('fun', 'global') else None


def isnull(t):
    return t in (('lit', 'nullptr'), ('nullptr',))


def big(t, env):
    """+1 / -1 for +/- big_, None otherwise."""
    if t[0] == 'op' and t[1] in ('-', '+') and len(t) == 3:
        b = big(t[2], env)
        return None if b is None else -b if t[1] == '-' else b
    return 1 if t[0] == 'global' and t[1].endswith('::big_') else None


SIDE = {'l': '>=', 'u': '<=', 'e': '='}
OPP = {'>=': '<=', '<=': '>=', '=': '='}


def rule_table(prog, rep):
    R = 'C15.conventions'
    rep.rule(R, 'each side of the source goes to the side of the target that bounds the same way once the requested change of sign is applied, each row block of the matrix with its right-hand side; the side of the target the source has not is set to the infinity of that side; '
                'an equality is not assigned to a one-sided target, nor an inequality to an equality target')
    f = [g for g in prog.find(AS + 'build') if len(g['params']) == 1]
    if len(f) != 1:
        raise AnalysisBroken('anchor vanished: %sbuild(variables)' % AS)
    f = f[0]
    V = ('param', f['params'][0]['n'])
    ps = routes(prog, rep, f)
    atoms = [enumatom('source', 'source_', 'type', TYPES, TY), enumatom('target', 'target_', 'constraintType', TYPES, TY)]
    for asg, sel in table(ps, atoms):
        so, ta = asg['source'], asg['target']
        bad = (so == 'EQUAL') != (ta == 'EQUAL') and not (so == 'EQUAL' and ta == 'DOUBLE_SIDED')
        ok, why = bool(sel), 'no route'
        for p, env in sel:
            if p.exit != 'ret' and not bad:
                ok, why = False, 'the combination is refused'
                continue
            if bad:
                continue
            es = []
            slots, srcs, mats = {}, [], []
            for e in p.flat():
                if e.kind != 'call' or e.inl:
                    continue
                n = cname(e)
                if n == 'addAssignments' and len(e.c) == 7:
                    if e.c[0] != V:
                        es.append('other variables')
                    M, fl = pmname(e.c[1]), evalterm(e.c[6], env)
                    if not isinstance(fl, bool):
                        es.append('undecided change of sign')
                        continue
                    mats.append((M, fl))
                    for g, v in ((e.c[2], e.c[3]), (e.c[4], e.c[5])):
                        if isnull(g) and isnull(v):
                            continue
                        g, v = pmname(g), pmname(v)
                        d = SIDE.get(g)
                        if d is None or v is None:
                            es.append('unknown side')
                            continue
                        d = OPP[d] if fl else d
                        want = {'b': SIDE.get({'EQUAL': 'e', 'GREATER_THAN': 'l', 'LOWER_THAN': 'u'}.get(ta)), 'bFirstHalf': 0, 'bSecondHalf': 0, 'l': '>=', 'u': '<='}.get(v)
                        if want == 0:
                            want = SIDE.get({'GREATER_THAN': 'l', 'LOWER_THAN': 'u'}.get(ta))
                        if d not in ('=', want) or want is None:
                            es.append('%s%s goes to %s (%s)' % ('-' if fl else '', g, v, want))
                        if (M or '')[1:] != (v[1:] if v.startswith('b') else ''):
                            es.append('%s with %s' % (M, v))
                        if v in slots:
                            es.append('%s assigned twice' % v)
                        slots[v] = g
                        srcs.append(g)
                elif n == 'addVectorAssignment':
                    b, v = big(e.c[0], env), pmname(e.c[1])
                    fl = evalterm(e.c[2], env) if len(e.c) > 2 else False
                    if any(a != ('lit', 'true') for a in e.c[3:]):
                        es.append('the convention of the target is ignored')
                    if b is None or not isinstance(fl, bool) or targs(e.a)[:1] != ['COPY']:
                        es.append('unknown constant')
                        continue
                    b = -b if fl else b
                    if (b, v) not in ((1, 'u'), (-1, 'l')):
                        es.append('%s set to %sinfinity' % (v, '-' if b < 0 else '+'))
                    if v in slots:
                        es.append('%s assigned twice' % v)
                    slots[v] = 'inf'
                elif n in CONTRACT_ADD:
                    es.append('calls %s' % n)
            need = {'l', 'u'} if ta == 'DOUBLE_SIDED' else {'bFirstHalf', 'bSecondHalf'} if so == 'DOUBLE_SIDED' else {'b'}
            if set(slots) != need:
                es.append('sides of the target assigned: %s' % sorted(slots))
            if set(srcs) != {'EQUAL': {'e'}, 'GREATER_THAN': {'l'}, 'LOWER_THAN': {'u'}, 'DOUBLE_SIDED': {'l', 'u'}}[so]:
                es.append('sides of the source used: %s' % sorted(set(srcs)))
            if sorted({m for m, _ in mats}) != sorted({'A'} if 'bFirstHalf' not in need else {'AFirstHalf', 'ASecondHalf'}) or len({m for m, _ in mats}) != len(mats):
                es.append('matrices assigned: %s' % mats)
            if es:
                ok, why = False, '; '.join(es)
        rep.ob(R, 'source %s, target %s' % (so, ta), ok, loc(f), why)
    rep.floor(R, 16)


CONTRACT_ADD = {'addMatrixAssignment', 'addZeroAssignment', 'addMatrixSubstitutionAssignments', 'addVectorSubstitutionAssignments'}


def rule_bounds(prog, rep):
    R = 'C15.bounds'
    rep.rule(R, 'a bound constraint D x in [l, u] (D = I, -I or diagonal of any sign) gives the variable the bounds min/max(D^-1 l, D^-1 u): copied for the first constraint on the variable, and the tightest of the old and new ones otherwise')
    fs = [f for f in prog.find(AS + 'addBounds') if len(f['params']) == 6] + [f for f in prog.find(AS + 'addBound') if len(f['params']) == 3]
    if len(fs) < 2:
        raise AnalysisBroken('anchor vanished: %saddBounds' % AS)
    for f in fs:
        pn = [p['n'] for p in f['params']]
        P = [('param', n) for n in pn]
        double = len(pn) == 6
        if any('Eigen::Ref' in p['t'] and '::*' not in p['t'] for p in f['params'][3:5]):
            continue   # into the temporaries of a replaced variable: refused for bounds
        num = [p['t'].strip() == 'double' for p in f['params']]
        ps = routes(prog, rep, f)
        isJ = lambda t: lastname(t) == 'jacobian' and top_field(t[2]) == 'source_'
        atoms = [('J', ['I', '-I', 'diagonal'], lambda t, v: None if lastname(t) not in ('isIdentity', 'isMinusIdentity', 'isDiagonal') or lastname(t[2]) != 'properties' or not isJ(strip(t[2][2])) else
                  v == {'isIdentity': 'I', 'isMinusIdentity': '-I'}.get(lastname(t)) or lastname(t) == 'isDiagonal'), boolp(pn[-1]), ('sign', [True, False], lambda t, v: None), enumatom('source rhs', 'source_', 'rhs', RHSS, RH)]
        if not double:
            atoms += [enumatom('target', 'target_', 'constraintType', ['GREATER_THAN', 'LOWER_THAN'], TY), ('replaced', [False, True], lambda t, v: v if lastname(t) == 'contains' and top_field(t[2]) == 'substitutedVariables_' else None)]
        src = []
        skip = lambda a: a['J'] == 'I' and not a['sign'] or a['J'] == '-I' and a['sign']
        for asg, sel in table(ps, atoms, skip):
            d = {'I': 1., '-I': -1.}.get(asg['J'], 2. if asg['sign'] else -4.)
            first = asg[pn[-1]]
            sF = -1. if asg['source rhs'] == 'OPPOSITE' else 1.
            ok, why = bool(sel), 'no route'
            for p, env in sel:
                if not double and asg['replaced']:
                    continue
                # decisions on the type of the source are those of the constructor's checks
                if not double:
                    want_src = asg['target'] if d > 0 else {'GREATER_THAN': 'LOWER_THAN', 'LOWER_THAN': 'GREATER_THAN'}[asg['target']]
                    st = cases_of(p.hist, lambda t: lastname(t) == 'type' and top_field(t[2]) == 'source_', TYPES)
                    if want_src not in st or any(c[0] == 'op' and c[1] == '==' and v is not (asg['target'] == want_src) for c, v in p.hist.items() if len(c) == 4 and {lastname(c[2]), lastname(c[3])} == {'type', 'constraintType'}):
                        continue
                if p.exit != 'ret':
                    ok, why = False, 'throws'
                    continue
                inf = float('inf')
                for L, U in ([(1., 5.), (-3., 8.)] if asg['source rhs'] != 'ZERO' else [(0., 0.)]):
                    for ol, ou in ((-100., 100.), (0.1, 0.2), (90., 95.), (-90., -80.)):
                        if double:
                            lo, up = (-inf if num[1] else L), (inf if num[2] else U)
                            val = {P[1]: lo if num[1] else sF * L, P[2]: up if num[2] else sF * U, P[3]: ol, P[4]: ou}
                            if P[1] == P[2]:
                                pass
                            a, b = sorted((lo / d, up / d))
                            want = {P[3]: a if first else max(ol, a), P[4]: b if first else min(ou, b)}
                        else:
                            bt = ('bt',)
                            val = {P[1]: sF * L, bt: ol}
                            x = L / d
                            want = {bt: x if first else max(ol, x) if asg['target'] == 'GREATER_THAN' else min(ol, x)}
                        sized = set()
                        try:
                            for e in p.flat():
                                if e.kind != 'call' or e.inl:
                                    continue
                                n = cname(e)
                                if n == 'resize':
                                    sized.add(e.b)
                                if n != 'addVectorAssignment':
                                    continue
                                ta = targs(e.a)[0]
                                c = list(e.c)
                                D = None
                                if len(c) > 2 and isJ(strip(c[2])):
                                    D = c.pop(2)
                                fl, uF, uT = [evalterm(x, env) for x in (c[2:5] + [('lit', x) for x in ('false', 'true', 'true')][len(c) - 2:])]
                                fr, to = strip(c[0]), strip(c[1])
                                if not double and pmname(to) == 'b':
                                    to = ('bt',)
                                if fr not in val or to not in val and top_field(to) != 'data_':
                                    raise KeyError('from %s to %s' % (show(fr), show(to)))
                                for x in (fr, to):
                                    if top_field(x) == 'data_' and x not in sized:
                                        raise KeyError('%s used before it has its size' % show(x))
                                v = val[fr]
                                const = double and (fr == P[1] and num[1] or fr == P[2] and num[2])
                                if D is not None:
                                    v = v * d if const else v / d
                                v *= (-1. if fl else 1.) * (sF if uF and not const else 1.)
                                val[to] = v if ta == 'COPY' else max(val[to], v) if ta == 'MAX' else min(val[to], v) if ta == 'MIN' else None
                            got = {k: val[k] for k in want}
                            if got != want:
                                ok, why = False, 'bounds [%g, %g] with D = %g, old ones [%g, %g]: %s instead of %s' % (L, U, d, ol, ou, [got[k] for k in got], [want[k] for k in want])
                        except (KeyError, TypeError, IndexError) as x:
                            ok, why = False, str(x)
            rep.ob(R, '%s(%s) (%s)' % (shortq(f['q']).split('::')[-1], ', '.join('constant' if n else 'side' for n in num[1:3]) if double else 'side', ', '.join('%s: %s' % kv for kv in asg.items() if kv[0] != 'sign' or asg['J'] == 'diagonal')), ok, loc(f), why)
    g = [f for f in prog.find(AS + 'build') if len(f['params']) == 2]
    if len(g) != 1:
        raise AnalysisBroken('anchor vanished: %sbuild(variable, first)' % AS)
    f = g[0]
    x, first = [('param', p['n']) for p in f['params']]
    atoms = [enumatom('source', 'source_', 'type', TYPES, TY), enumatom('target', 'target_', 'constraintType', TYPES[1:], TY), ('replaced', [False], lambda t, v: v if lastname(t) == 'contains' and top_field(t[2]) == 'substitutedVariables_' else None)]
    skip = lambda a: a['target'] != 'DOUBLE_SIDED' and a['source'] in ('EQUAL', 'DOUBLE_SIDED')
    for asg, sel in table(routes(prog, rep, f), atoms, skip):
        ok, why = bool(sel), 'no route'
        for p, env in sel:
            es = [e for e in p.flat() if e.kind == 'call' and not e.inl and cname(e) in ('addBounds', 'addBound', 'addVectorAssignment')]
            tok = lambda t: pmname(t) or {1: '+inf', -1: '-inf'}.get(big(t, env))
            good = len(es) == 1 and p.exit == 'ret' and es[0].c[0] == x and es[0].c[-1] == first
            if good:
                e = es[0]
                if asg['target'] == 'DOUBLE_SIDED':
                    good = cname(e) == 'addBounds' and [tok(t) for t in e.c[1:-1]] == list({'EQUAL': 'ee', 'DOUBLE_SIDED': 'lu', 'GREATER_THAN': ('l', '+inf'), 'LOWER_THAN': ('-inf', 'u')}[asg['source']]) + ['l', 'u']
                else:
                    good = cname(e) == 'addBound' and tok(e.c[1]) == {'GREATER_THAN': 'l', 'LOWER_THAN': 'u'}[asg['source']]
            if not good:
                ok, why = False, 'calls %s' % [show(('call', e.a, None, e.c))[:150] for e in es]
        rep.ob(R, 'bound source %s, target %s' % (asg['source'], asg['target']), ok, loc(f), why)
    rep.floor(R, 60)


def valenv(env, values):
    """Numeric evaluation of weights: values = {term predicate: number}"""
    def g(t):
        r = env(t) if env else None
        if r is not None:
            return r
        for m, v in values:
            if m(t):
                return v
        if t[0] == 'call' and lastname(t) in ('sqrt', 'cwiseSqrt'):
            v = evalterm(t[3][0] if lastname(t) == 'sqrt' else t[2], g)
            return None if v is None else v ** 0.5
        if t[0] == 'call' and lastname(t) in ('operator-', 'operator*'):
            ops = ([t[2]] if t[2] is not None else []) + list(t[3])
            v = [evalterm(o, g) for o in ops]
            if None in v:
                return None
            return -v[0] if lastname(t) == 'operator-' and len(v) == 1 else v[0] * v[1] if lastname(t) == 'operator*' and len(v) == 2 else None
        if t[0] == 'obj' and len(t) > 3 and isinstance(t[3], tuple):
            return evalterm(t[3], g)
        if t[0] == 'ctor' and len(t[2]) == 1:
            return evalterm(t[2][0], g)
        return None
    return g


def weights(p, env, values, state):
    """Final numeric values of the weight data on the route."""
    st = dict(state)

    def rd(t):
        return st.get(t[2]) if t[0] == 'fld' and t[2] in st and top_field(t) == 'data_' else None
    g = valenv(lambda t: rd(t) if rd(t) is not None else env(t), values)
    for e in p.flat():
        a, b = None, None
        if e.kind == 'write':
            a, b, o = e.a, e.b, e.op
        elif e.kind == 'call' and not e.inl and cname(e) in ('operator=', 'operator*='):
            a, b, o = e.b, e.c[0] if e.c else None, cname(e)[8:]
        else:
            continue
        if a[0] == 'fld' and top_field(a) in ('data_', 'useDefaultScalarWeight_', 'useDefaultAnisotropicWeight_'):
            v = evalterm(b, g)
            k = a[2]
            st[k] = v if o in ('=', 'init') else st[k] * v if o == '*=' and v is not None and st.get(k) is not None else None
    return st


def req(name, getter):
    return lambda t: lastname(t) == getter and lastname(t[2]) == name and top_field(t[2][2]) == 'requirements_'


def rule_requirements(prog, rep):
    R = 'C15.requirements'
    rep.rule(R, 'the scalar weight used is sqrt(weight) * scalarization weight and the anisotropic one sqrt(anisotropic weight) * scalar weight, with their opposites, at creation and after a change; they are declared default only when neutral; changing a weight compiled as neutral is refused, as are the evaluations other than L2')
    f = prog.find(AS + 'processRequirements')[0]
    VE = 'tvm::requirements::ViolationEvaluationType::'
    atoms = [('requirements', [True, False], lambda t, v: v if t == fld('requirements_') else (not v) if t == ('op', '==', fld('requirements_'), ('lit', 'nullptr')) else None),
             ('evaluation', ['L1', 'L2', 'LINF'], lambda t, v: ('enum', VE + v) if req('violationEvaluation', 'value')(t) else None),
             ('default weight', [True, False], lambda t, v: v if req('weight', 'isDefault')(t) else (1. if v else 4.) if req('weight', 'value')(t) else None),
             ('default anisotropic', [True, False], lambda t, v: v if req('anisotropicWeight', 'isDefault')(t) else 9. if req('anisotropicWeight', 'value')(t) and not v else None),
             ('scalarization', [1., 10.], lambda t, v: v if t == fld('scalarizationWeight_') else None)]
    init = {'scalarWeight_': 1., 'minusScalarWeight_': -1., 'anisotropicWeight_': None, 'minusAnisotropicWeight_': None}
    for asg, sel in table(routes(prog, rep, f), atoms, lambda a: not a['requirements'] and (a['evaluation'] != 'L2' or not a['default weight'] or not a['default anisotropic'])):
        ok, why = bool(sel), 'no route'
        for p, env in sel:
            if asg['requirements'] and asg['evaluation'] != 'L2':
                if p.exit == 'ret':
                    ok, why = False, 'the evaluation is accepted'
                continue
            if p.exit != 'ret':
                ok, why = False, 'throws'
                continue
            st = weights(p, env, [], init)
            if not asg['requirements']:
                good = st.get('useDefaultScalarWeight_') is True and st.get('useDefaultAnisotropicWeight_') is True
            else:
                W = (1. if asg['default weight'] else 2.) * asg['scalarization']
                us, ua = st.get('useDefaultScalarWeight_'), st.get('useDefaultAnisotropicWeight_')
                good = us in (True, False) and ua in (True, False) and (W == 1. and asg['default weight'] if us else True) and (asg['default anisotropic'] if ua else not asg['default anisotropic'])
                good = good and st['scalarWeight_'] == W and st['minusScalarWeight_'] == -W and (ua or st['anisotropicWeight_'] == 3. * W and st['minusAnisotropicWeight_'] == -3. * W)
            if not good:
                ok, why = False, 'weights: %s' % {k: v for k, v in st.items()}
        rep.ob(R, 'weights at creation (%s)' % ', '.join('%s: %s' % kv for kv in asg.items()), ok, loc(f), why)
    f = prog.find(AS + 'onUpdateWeights')[0]
    pn = [p['n'] for p in f['params']]
    sizes = lambda t: lastname(t) in ('size', 'rows') and req('anisotropicWeight', 'value')(t[2])
    atoms = [boolp(pn[0]), boolp(pn[1]),
             ('scalar compiled as neutral', [True, False], lambda t, v: v if t == fld('useDefaultScalarWeight_') else None),
             ('anisotropic compiled as neutral', [True, False], lambda t, v: v if t == fld('useDefaultAnisotropicWeight_') else None),
             ('weight', [1., 4.], lambda t, v: v if req('weight', 'value')(t) else None),
             ('anisotropic', ['default', 'one', 'other', 'size'], lambda t, v: (v == 'default') if req('anisotropicWeight', 'isDefault')(t) else (v == 'one') if lastname(t) == 'isConstant' and req('anisotropicWeight', 'value')(t[2]) else
              (9. if v == 'other' else 1.) if req('anisotropicWeight', 'value')(t) else (2 if v in ('size', 'default') else 3) if sizes(t) else None),
             ('size', [3], lambda t, v: v if lastname(t) == 'size' and top_field(t[2]) in ('target_', 'source_') else None),
             ('scalarization', [10.], lambda t, v: v if t == fld('scalarizationWeight_') else None)]
    for asg, sel in table(routes(prog, rep, f), atoms):
        s, v = asg[pn[0]], asg[pn[1]]
        us, ua = asg['scalar compiled as neutral'], asg['anisotropic compiled as neutral']
        w, a = asg['weight'], asg['anisotropic']
        scz = 1. if us else 10.
        must = s and us and w != 1 or v and a == 'size' or v and ua and a == 'other'
        may = must or a == 'size' and s
        ok, why = bool(sel), 'no route'
        for p, env in sel:
            if (p.exit != 'ret') and not may or p.exit == 'ret' and must:
                ok, why = False, 'refused' if p.exit != 'ret' else 'accepted'
            if p.exit != 'ret' or may:
                continue
            st = weights(p, lambda t: scz if t == fld('scalarizationWeight_') else env(t), [], {'scalarWeight_': 7., 'minusScalarWeight_': -7., 'anisotropicWeight_': 11., 'minusAnisotropicWeight_': -11.})
            W = w ** .5 * scz if s else 7.
            A = {'one': 1., 'other': 3.}.get(a, None)
            good = st['scalarWeight_'] == W and st['minusScalarWeight_'] == -W
            if not ua and a != 'default':
                good = good and (st['anisotropicWeight_'] == A * W and st['minusAnisotropicWeight_'] == -A * W if s or v else st['anisotropicWeight_'] == 11.)
            if not good:
                ok, why = False, 'weights: %s' % st
        rep.ob(R, 'change of weights (%s)' % ', '.join('%s: %s' % kv for kv in asg.items() if kv[0] not in ('size', 'scalarization')), ok, loc(f), why)
    for n, u in (('changeScalarWeightIsAllowed', 'useDefaultScalarWeight_'), ('changeVectorWeightIsAllowed', 'useDefaultAnisotropicWeight_')):
        f = prog.find(AS + n)[0]
        for asg, sel in table(routes(prog, rep, f), [('neutral', [True, False], lambda t, v: v if t == fld(u) else None)]):
            ok = bool(sel) and all(p.exit == 'ret' and p.ret is not None and evalterm(p.ret, env) is (not asg['neutral']) for p, env in sel)
            rep.ob(R, '%s (weight compiled as neutral: %s)' % (n, asg['neutral']), ok, loc(f), 'returns %s' % [show(p.ret) for p, e in sel])
    rep.floor(R, 80)


def accum(p, lv, seqs, env0):
    """Values the boolean accumulator lv of a loop may have at the end, the elements of the loop being described by environments."""
    lp = [e for e in p.flat() if e.kind == 'loop' and any(has(x, lambda y: y == lv) for bh in (e.bh or ()) for x in bh) or e.kind == 'loop' and any(w.kind == 'lwrite' for b in e.c for w in b)]
    out = set()
    for seq in seqs:
        cur = {(evalterm(lv[3], lambda t: None), False)}
        for el in seq:
            nxt = set()
            for v, done in cur:
                if done:
                    nxt.add((v, True))
                    continue
                env = lambda t: v if t == lv else el(t) if el(t) is not None else env0(t)
                for l in lp:
                    for b, bh, bx in zip(l.c, l.bh, l.bx):
                        if consistent(bh, env):
                            w = [e for e in b if e.kind == 'lwrite' and isinstance(e.a, tuple) and e.a[0] == 'var' and e.a[2] == lv[1]]
                            nv = v if not w else evalterm(w[-1].b, env)
                            nxt.add((nv, bx in ('break', 'ret')))
            cur = nxt
        out |= {v for v, d in cur}
    return out


def rule_check(prog, rep):
    R = 'C15.checks'
    rep.rule(R, 'an assignment whose conventions or sizes do not match is refused, and only those; the checks and the weights come before the atomic assignments; reprocessing gives the same source, requirements, target and weight')
    f = prog.find(AS + 'checkTarget')[0]
    isb = lambda t: lastname(t) == 'b' and has_field(t[2], 'variableSubstitutions_')
    el = lambda z: lambda t: z if lastname(t) in ('isZero', 'isConstant') and lastname(t[2]) == 'properties' and isb(strip(t[2][2])) else None
    atoms = [enumatom('source', 'source_', 'type', TYPES, TY), enumatom('target', 'target_', 'constraintType', TYPES, TY), enumatom('source rhs', 'source_', 'rhs', RHSS, RH), enumatom('target rhs', 'target_', 'constraintRhs', RHSS, RH),
             ('substituted constant', [False, True], lambda t, v: None), ('target size', [3, 6, 4], lambda t, v: v if lastname(t) == 'size' and top_field(t[2]) == 'target_' else 3 if lastname(t) == 'size' and top_field(t[2]) == 'source_' else None)]
    bad, n = {}, 0
    for asg, sel in table(routes(prog, rep, f), atoms):
        so, ta, nz = asg['source'], asg['target'], asg['substituted constant']
        why = []
        if (so == 'EQUAL') != (ta == 'EQUAL') and not (so == 'EQUAL' and ta == 'DOUBLE_SIDED'):
            why.append('types')
        if (asg['source rhs'] != 'ZERO' or nz) and asg['target rhs'] == 'ZERO':
            why.append('right-hand sides')
        if asg['target size'] != (6 if so == 'DOUBLE_SIDED' and ta != 'DOUBLE_SIDED' else 3):
            why.append('sizes')
        keep = []
        for p, env in sel:
            feas = True
            for c, v in p.hist.items():
                if c and c[0] == 'loopvar' and isinstance(v, bool):
                    z, y = el(True), el(False)
                    vals = accum(p, c, [[y], [z, y], [y, z]] if nz else [[], [z], [z, z]], env)
                    feas = feas and (v in vals or None in vals)
                elif lastname(c) == 'any_of' and isinstance(v, bool):
                    feas = feas and v == nz
            if feas:
                keep.append(p)
        n += 1
        ex = {p.exit for p in keep}
        k = '%s -> %s' % (so, ta)
        bad.setdefault(k, [])
        if ex != ({'throw'} if why else {'ret'}):
            bad[k].append('%s: %s' % (', '.join('%s: %s' % kv for kv in asg.items()), 'not refused (%s)' % ', '.join(why) if why else 'refused'))
    for k in sorted(bad):
        rep.ob(R, 'conventions and sizes accepted for %s (all right-hand sides, sizes)' % k, not bad[k], loc(f), bad[k][0] if bad[k] else '')
    for f in prog.find(AS + 'Assignment'):
        if f.get('body') is None or len(f['params']) < 4:
            continue
        pn = [p['n'] for p in f['params']]
        bound = len(pn) == 4
        for p in Engine(prog, inline=lambda g, o: False, fine=True).run(f):
            if p.exit != 'ret':
                continue
            ix = {}
            for i, e in enumerate(p.ev):
                if e.kind == 'call' and cname(e) in ('checkTarget', 'processRequirements', 'build', 'checkBounds'):
                    ix.setdefault(cname(e), (i, e))
                if e.kind == 'write' and top_field(e.a):
                    ix.setdefault(e.a[2], (i, e))
            b = ix.get('build')
            es = []
            if not b:
                es.append('nothing built')
            else:
                need = ['checkBounds', 'useDefaultScalarWeight_', 'useDefaultAnisotropicWeight_'] if bound else ['checkTarget', 'processRequirements', 'scalarizationWeight_', 'substitutedVariables_', 'variableSubstitutions_']
                for k in need + ['source_', 'target_', 'data_']:
                    if k not in ix or ix[k][0] > b[0]:
                        es.append('%s missing before build' % k)
                if 'source_' in ix and strip(ix['source_'][1].b) != ('param', pn[0]) or 'target_' in ix and strip(ix['target_'][1].b) != ('param', pn[1 if bound else 2]):
                    es.append('other source or target')
                if tuple(strip(x) for x in b[1].c) != tuple(('param', n) for n in pn[2 if bound else 3:][:2 if bound else 1]):
                    es.append('built with %s' % [show(x) for x in b[1].c])
                if bound:
                    for k in need[1:]:
                        if k in ix and ix[k][1].b != ('lit', 'true'):
                            es.append('%s = %s' % (k, show(ix[k][1].b)))
                else:
                    if 'requirements_' not in ix or strip(ix['requirements_'][1].b) != ('param', pn[1]) or 'scalarizationWeight_' in ix and ix['scalarizationWeight_'][1].b != ('param', pn[5]):
                        es.append('other requirements or weight')
                    S = ('param', pn[4])
                    null = p.hist.get(S) is False or p.hist.get(('op', '==', S, ('lit', 'nullptr'))) is True
                    for k, m in (('substitutedVariables_', 'variables'), ('variableSubstitutions_', 'variableSubstitutions')):
                        if k in ix and not null and not has(ix[k][1].b, lambda t: lastname(t) == m and t[2] == S):
                            es.append('%s = %s' % (k, show(ix[k][1].b)))
            rep.ob(R, 'constructor%s: %s' % (' (bounds)' if bound else '', p.condstr()[:60] or 'always'), not es, loc(f), '; '.join(es))
    f = prog.find(AS + 'checkBounds')[0]
    call = lambda t: lastname(t) == 'canBeUsedAsBound'
    for asg, sel in table(routes(prog, rep, f), [('usable', [True, False], lambda t, v: v if call(t) else None)]):
        ok = bool(sel) and {p.exit for p, e in sel} == {'ret' if asg['usable'] else 'throw'}
        for p, e in sel:
            cs = [c for c in p.flat() if c.kind == 'call' and cname(c) == 'canBeUsedAsBound']
            ok = ok and len(cs) == 1 and top_field(cs[0].c[0]) == 'source_' and top_field(cs[0].c[1]) == 'substitutedVariables_' and top_field(cs[0].c[2]) == 'variableSubstitutions_' and lastname(cs[0].c[3]) == 'constraintType' and top_field(cs[0].c[3]) == 'target_'
        rep.ob(R, 'bound refused iff it is not usable as bound (usable: %s)' % asg['usable'], ok, loc(f), 'exits %s' % sorted({p.exit for p, e in sel}))
    for f in prog.find(AS + 'reprocess'):
        pn = [p['n'] for p in f['params']]
        o = lambda n: ('fld', ('param', pn[0]), n)
        want = (o('source_'), o('target_'), ('param', pn[1]), ('param', pn[2])) if f['params'][2]['t'].strip() == 'bool' else (o('source_'), o('requirements_'), o('target_'), ('param', pn[1]), ('param', pn[2]), o('scalarizationWeight_'))
        for p in Engine(prog, inline=lambda g, ob: False, fine=True).run(f):
            r = p.ret
            while isinstance(r, tuple) and r[0] == 'obj' and len(r) > 3:
                r = r[3]
            ok = r is not None and r[0] == 'ctor' and tuple(strip(x) for x in r[2]) == want
            rep.ob(R, 'reprocess(%s)' % pn[1], ok, loc(f), 'returns %s' % show(p.ret))
    rep.floor(R, 22)


RUNS = ['matrixAssignments_', 'matrixSubstitutionAssignments_', 'vectorAssignments_', 'vectorSubstitutionAssignments_']


def rule_refresh(prog, rep):
    R = 'C15.refresh'
    rep.rule(R, 'running an assignment runs all its atomic assignments, the additions of the substitutions after the copies, in the order of creation; a change of target (resp. of mapping) is given to all those writing in the target (resp. in its matrix)')

    def each(p, env=None):
        """container -> [(position, events, decisions)] of the whole loops over it"""
        out = {}
        for i, e in enumerate(p.ev):
            if e.kind == 'loop':
                c = top_field(e.b) if e.b is not None and e.b[0] == 'fld' and e.b[1] == THIS else None
                if c is None:
                    continue
                for b, h, x in zip(e.c, e.bh, e.bx):
                    out.setdefault(c, []).append((i, list(flat_(b)), h, x))
        return out
    own = lambda g, o: shortq(g['q']).startswith(AS) and shortq(g['q']).split('::')[-1] not in ('run', 'onUpdatedTarget', 'onUpdatedMapping')

    def elem(t, c):
        return t[0] == 'elem' and t[1] == fld(c) or t[0] == 'index' and t[1] == fld(c)
    for name in ('run', 'onUpdatedTarget', 'onUpdatedMapping'):
        f = prog.find(AS + name)[0]
        cs = RUNS if name != 'onUpdatedMapping' else RUNS[:2]
        pn = [('param', p['n']) for p in f['params']]
        for p in Engine(prog, inline=own, fine=True).run(f):
            es = []
            if p.exit != 'ret':
                es.append('throws')
            ea = each(p)
            for c in cs:
                if c not in ea:
                    es.append('%s is skipped' % c)
                    continue
                for i, b, h, x in ea[c]:
                    if x in ('break', 'ret'):
                        es.append('%s is left early' % c)
                    cl = [e for e in b if e.kind == 'call' and not e.inl]
                    if name == 'run':
                        good = sum(cname(e) == 'run' and e.b[0] == 'fld' and e.b[2] == 'assignment' and elem(e.b[1], c) for e in cl) == 1
                    elif name == 'onUpdatedMapping':
                        good = any(cname(e) == 'updateMapping' and elem(e.b, c) and e.c == (pn[0], fld('target_'), pn[1]) for e in cl)
                    elif c in RUNS[:2]:
                        good = any(cname(e) == 'updateTarget' and elem(e.b, c) and e.c == (fld('target_'),) for e in cl)
                    else:
                        null = any(t[0] == 'fld' and t[2] == 'getTargetVector' and v is False or t[0] == 'op' and t[1] == '==' and v is True and t[2][0] == 'fld' and t[2][2] == 'getTargetVector' and isnull(t[3]) for t, v in h.items() if t)
                        to = [e for e in cl if cname(e) == 'to' and e.b[0] == 'fld' and e.b[2] == 'assignment' and elem(e.b[1], c)]
                        tgt = lambda t: t[0] == 'call' and t[1] == '->*' and t[2][0] == 'fld' and t[2][1] == fld('target_') and 'getTargetVector' in t[2][2] and t[3] == ()
                        good = not to if null and c == 'vectorAssignments_' else len(to) == 1 and tgt(strip(to[0].c[0]))
                        if c == 'vectorAssignments_' and not null and not any('getTargetVector' in show(t) for t in h):
                            good = False   # assignments to temporaries have no target
                    if not good:
                        es.append('%s: an assignment is not %s' % (c, 'run' if name == 'run' else 'updated'))
            if name == 'run' and not es:
                pos = {c: sorted({x[0] for x in ea[c]}) for c in RUNS}
                for a, b in ((0, 1), (2, 3)):
                    if pos[RUNS[a]][-1] > pos[RUNS[b]][0]:
                        es.append('%s is run before %s' % (RUNS[b], RUNS[a]))
                if any(len(v) > 1 for v in pos.values()):
                    es.append('assignments run twice')
            rep.ob(R, '%s covers every atomic assignment' % name, not es, loc(f), '; '.join(sorted(set(es))))
    MA = NS + 'MatrixAssignment::'
    f = prog.find(MA + 'updateTarget')[0]
    for p in Engine(prog, inline=lambda g, o: False, fine=True).run(f):
        es = [e for e in p.flat() if e.kind == 'call' and cname(e) == 'to' and e.b == fld('assignment')]
        cr = fld('colRange')
        ok = len(es) == 1 and p.exit == 'ret'
        if ok:
            t = strip(es[0].c[0])
            ok = t[0] == 'call' and t[1] == '->*' and t[2][0] == 'fld' and t[2][1] == ('param', f['params'][0]['n']) and 'getTargetMatrix' in show(t) and t[3] == (('fld', cr, 'start'), ('fld', cr, 'dim'))
        rep.ob(R, 'MatrixAssignment::updateTarget gives the columns of the variable in the target', ok, loc(f), 'gives %s' % [show(e.c[0]) for e in es])
    f = prog.find(MA + 'updateMapping')[0]
    V, T, U = [('param', p['n']) for p in f['params']]
    cr = fld('colRange')
    new = lambda t: lastname(strip(t)) == 'getMappingIn' and strip(strip(t)[2]) == fld('x') and strip(t)[3] == (V,)
    atoms = [('present', [True, False], lambda t, v: v if lastname(t) == 'contains' and t[2] == V and strip(t[3][0]) == fld('x') else None), boolp(f['params'][2]['n'])]
    for asg, sel in table(Engine(prog, inline=lambda g, o: False, fine=True).run(f), atoms):
        ok, why = bool(sel), 'no route'
        for p, env in sel:
            if not asg['present']:
                if p.exit == 'ret':
                    ok, why = False, 'accepted'
                continue
            same = any(lastname(t) in ('operator!=', 'operator==') and v is (lastname(t) == 'operator==') and (new(t[2]) and t[3] == (cr,) or t[2] == cr and new(t[3][0])) for t, v in p.hist.items() if t)
            wi = [i for i, e in enumerate(p.ev) if (e.kind == 'call' and cname(e) == 'operator=' and e.b == cr and new(e.c[0])) or e.kind == 'write' and e.a == cr and new(e.b)]
            ui = [i for i, e in enumerate(p.ev) if e.kind == 'call' and cname(e) == 'updateTarget' and e.c == (T,)]
            if p.exit != 'ret' or not (same or wi) or bool(ui) != asg[f['params'][2]['n']] or ui and wi and ui[0] < wi[-1]:
                ok, why = False, 'columns %s, target %s' % ('kept or set' if same or wi else 'not refreshed', 'updated' if ui else 'not updated')
        rep.ob(R, 'MatrixAssignment::updateMapping (%s)' % ', '.join('%s: %s' % kv for kv in asg.items()), ok, loc(f), why)
    rep.floor(R, 8)


def rule_target(prog, rep):
    R = 'C15.target'
    rep.rule(R, 'a target gives the rows of its range (all, first or second half) of its own matrices and vectors, with the conventions given at creation; changing its data replaces the matrices and vectors given')
    rng = lambda t, v: v if t == fld('range_', 'start') else None
    env = lambda t: 10 if t == fld('range_', 'start') else 6 if t == fld('range_', 'dim') else None

    def num(t):
        def g(x):
            r = env(x)
            if r is not None:
                return r
            if x[0] == 'op' and x[1] == '/' and len(x) == 4:
                a, b = evalterm(x[2], g), evalterm(x[3], g)
                return None if None in (a, b) else a // b
            if x[0] == 'obj' and len(x) > 3:
                return evalterm(x[3], g)
            return None
        return evalterm(t, g)
    for n, m, r, k in (('A', 'A_', 10, 6), ('AFirstHalf', 'A_', 10, 3), ('ASecondHalf', 'A_', 13, 3), ('l', 'l_', 10, 6), ('u', 'u_', 10, 6), ('b', 'b_', 10, 6), ('bFirstHalf', 'b_', 10, 3), ('bSecondHalf', 'b_', 13, 3)):
        f = prog.find(AT + n)[0]
        pn = [('param', p['n']) for p in f['params']]
        for p in Engine(prog, inline=lambda g, o: shortq(g['q']).startswith(AT), fine=True).run(f):
            t = strip(p.ret) if p.ret else None
            a = None
            if lastname(t) == 'block' and strip(t[2]) == fld(m) and len(t[3]) == 4:
                a = (num(t[3][0]), num(t[3][2]), t[3][1], t[3][3])
            elif lastname(t) in ('segment', 'middleRows') and strip(t[2]) == fld(m) and len(t[3]) == 2:
                a = (num(t[3][0]), num(t[3][1]))
            rep.ob(R, 'AssignmentTarget::%s' % n, a == ((r, k) + tuple(pn)), loc(f), 'returns %s' % show(p.ret))
    for n, m in (('Q', 'Q_'), ('q', 'q_'), ('constraintType', 'cstrType_'), ('constraintRhs', 'constraintRhs_'), ('targetType', 'targetType_')):
        f = prog.find(AT + n)[0]
        for p in Engine(prog, inline=lambda g, o: False).run(f):
            rep.ob(R, 'AssignmentTarget::%s' % n, p.ret is not None and strip(p.ret) == fld(m), loc(f), 'returns %s' % show(p.ret))
    f = prog.find(AT + 'size')[0]
    for p in Engine(prog, inline=lambda g, o: False).run(f):
        rep.ob(R, 'AssignmentTarget::size', p.ret == fld('range_', 'dim'), loc(f), 'returns %s' % show(p.ret))

    def final(p):
        st = {}
        for e in p.flat():
            if e.kind == 'write' and e.a[0] == 'fld' and e.a[1] == THIS:
                ref = e.a[2] in ('A_', 'Q_', 'l_', 'u_', 'b_', 'q_') and e.op != 'init' and not (isinstance(e.node, dict) and e.node.get('place'))
                st[e.a[2]] = 'copied' if ref else strip(e.b)   # assigning a Ref copies the values
            elif e.kind == 'call' and not e.inl and e.b is not None and e.b[0] == 'fld' and e.b[1] == THIS and cname(e) == 'operator=':
                st[e.b[2]] = 'copied'   # assigning a Ref copies the values
        return st
    for c in 'AQlubq':
        f = prog.find(AT + 'set' + c)[0]
        for p in Engine(prog, inline=lambda g, o: shortq(g['q']).startswith(AT), fine=True).run(f):
            if p.exit == 'ret':
                st = final(p)
                rep.ob(R, 'AssignmentTarget::set%s' % c, st == {c + '_': ('param', f['params'][0]['n'])}, loc(f), 'sets %s' % {k: show(v) if isinstance(v, tuple) else v for k, v in st.items()})
    for f in prog.find(AT + 'changeData'):
        pn = [p['n'] for p in f['params']]
        quad = len(pn) == 2 and 'Stride' in f['params'][0]['t'] and 'OuterStride' in f['params'][0]['t']
        P = [('param', n) for n in pn]
        for p in Engine(prog, inline=lambda g, o: shortq(g['q']).startswith(AT), fine=True).run(f):
            if p.exit != 'ret':
                continue
            st = final(p)
            h = cases_of(p.hist, lambda t: t == fld('targetType_'), ['Linear', 'Quadratic'])
            if len(pn) == 3:
                ok = st == {'A_': P[0], 'l_': P[1], 'u_': P[2]}
            elif quad:
                ok = bool(h) and all(st == ({'A_': P[0], 'b_': P[1]} if x == 'Linear' else {'Q_': P[0], 'q_': P[1]}) for x in h)
            else:
                ok = st == {'l_': P[0], 'u_': P[1]}
            rep.ob(R, 'AssignmentTarget::changeData(%s)%s' % (', '.join(pn), ' %s' % h if quad else ''), ok, loc(f), 'sets %s' % {k: show(v) if isinstance(v, tuple) else v for k, v in st.items()})
    for f in prog.find(AT + 'AssignmentTarget'):
        ts = [(('param', q['n']), q['t']) for q in f['params']]
        if len(ts) < 3 or f.get('body') is None:
            continue
        mats = [t for t, y in ts if 'OuterStride' in y]
        vecs = [t for t, y in ts if 'InnerStride' in y]
        cts = [t for t, y in ts if y.endswith('constraint::Type')]
        crs = [t for t, y in ts if y.endswith('constraint::RHS')]
        rg = [t for t, y in ts if 'Range' in y]
        for p in Engine(prog, fine=True, inline=lambda g, o: g.get('ctor') and shortq(g['q']).startswith(AT)).run(f):
            if p.exit != 'ret':
                continue
            st = final(p)
            want = {'targetType_': ('enum', NS + 'TargetType::' + ('Linear' if rg else 'Quadratic'))}
            if rg:
                want['range_'] = rg[0]
                want['cstrType_'] = cts[0] if cts else ('enum', TY + 'DOUBLE_SIDED')
                want['constraintRhs_'] = crs[0] if crs else ('enum', RH + ('ZERO' if mats else 'AS_GIVEN'))
            else:
                want['constraintRhs_'] = crs[0]
            if mats:
                want['A_' if rg else 'Q_'] = mats[0]
            for n, v in zip(['l_', 'u_'] if len(vecs) == 2 else ['b_'] if rg else ['q_'], vecs):
                want[n] = v
            bad = {k: v for k, v in want.items() if st.get(k) != v}
            rep.ob(R, 'AssignmentTarget(%s)' % ', '.join(t[1] for t, y in ts), not bad, loc(f), 'stores %s' % {k: show(st.get(k)) for k in bad})
    rep.floor(R, 30)


RULES = [rule_leaf, rule_vector, rule_matrix, rule_split, rule_table, rule_bounds, rule_requirements, rule_check, rule_refresh, rule_target]
