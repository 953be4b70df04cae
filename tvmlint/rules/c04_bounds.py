"""C04: the type of a task or constraint alone decides which bounds exist, where each bound value goes, and what is refused."""
from ..q import *
from ..q import cases as q_cases

EXPLANATION = ('Finite-domain evaluation of the type/convention dispatch: every route of the constructors, operators, setters and accessors is classified by the constraint type (and right-hand-side '
               'convention) it is taken for, and the bound vectors it creates, writes, returns, enables or refuses are compared with the table EQUAL->e, GREATER_THAN->l, LOWER_THAN->u, DOUBLE_SIDED->l,u.')
ASSUMPTIONS = []
TYPES = ('EQUAL', 'GREATER_THAN', 'LOWER_THAN', 'DOUBLE_SIDED')
USES = {'EQUAL': 'e', 'GREATER_THAN': 'l', 'LOWER_THAN': 'u', 'DOUBLE_SIDED': 'lu'}
TQ = 'tvm::constraint::Type::'
RV = 'tvm::constraint::internal::RHSVectors::'
CS = 'tvm::constraint::abstract::Constraint::'
BL = 'tvm::constraint::BasicLinearConstraint::'
LTC = 'tvm::constraint::internal::LinearizedTaskConstraint::'
RQ = 'tvm::constraint::RHS::'


def cases(hist, t, enum=TYPES, pref=TQ):
    return q_cases(hist, t, enum)


def consistent(hist, want):
    """Routes pinned to enumerators: all ('eq'/'ne', term) facts on terms accepted by pred agree with value."""
    for t, v in enumfacts(hist).items():
        if t[0] in ('eq', 'ne') and v:
            vs = [v] if t[0] == 'eq' else v
            for x in vs:
                if x[0] == 'enum' and x[1].startswith(TQ):
                    same = x[1].split('::')[-1] == want
                    if same != (t[0] == 'eq'):
                        if t[0] == 'eq' or same:
                            return False
    return True


def written(path, bases=('l', 'u', 'e')):
    """Bound letters written through vectors_ (l_/u_/e_)."""
    out = {}
    for e, l, ls, h in mutators(path):
        if e.kind == 'call' and cname(e) not in ('operator=', 'noalias', 'setZero', 'setConstant', 'resize', 'operator+=', 'operator-='):
            continue
        for b in bases:
            if has_field(l, b + '_') or has_call(l, b + 'Ref') or (has_call(l, b) and has_field(l, 'vectors_')):
                if b in out and not ls and e.kind == out[b].kind == 'write' and e.op in ('+=', '-='):
                    # built in several steps
                    e = Ev('write', e.a, ('op', e.op[0], out[b].b, e.b), op='=', file=e.file, line=e.line, node=e.node, fn=e.fn, depth=e.depth)
                out[b] = e
    return out


def rule_vectors(prog, rep):
    R = 'C04.vectors'
    rep.rule(R, 'a constraint of a given type and convention uses exactly the bound vectors of that type (none for the zero convention); unused ones are neither sized nor exposed as outputs')
    f, eng, ps = runq(prog, rep, RV + 'RHSVectors', 2)
    ct, cr = [('param', x['n']) for x in f['params']]
    for p in ps:
        val = {e.a[2]: e.b for e in p.flat() if e.kind == 'write' and e.a[0] == 'fld' and e.a[2].startswith('use_')}
        for t in cases(p.hist, ct):
            for r in cases(p.hist, cr, ('AS_GIVEN', 'OPPOSITE', 'ZERO'), RQ):
                for b in 'lue':
                    want = ('lit', 'true') if b in USES[t] and r != 'ZERO' else ('lit', 'false')
                    rep.ob(R, 'uses of %s for (%s, %s)' % (b, t, 'ZERO' if r == 'ZERO' else 'non-zero'), val.get('use_%s_' % b) == want, loc(f), 'vector %s is marked %s for type %s and convention %s' % (b, show(val.get('use_%s_' % b)), t, r))
    f, eng, ps = runq(prog, rep, RV + 'resize')
    n = ('param', f['params'][0]['n'])
    for p in ps:
        rs = {e.b[2][0]: e for e in calls(p, ('resize', 'setZero', 'conservativeResize')) if e.b and e.b[0] == 'fld'}
        for b in 'lue':
            u = p.hist.get(fld('use_%s_' % b))
            if u is True:
                rep.ob(R, 'resize: %s is sized when used' % b, b in rs and n in rs[b].c, loc(f), 'bound %s keeps its old size' % b)
    for b in 'lue':
        for q, want in ((RV + b, '%s_' % b), (CS + b, None), (CS + b + 'Ref', None), (RV + 'use_' + b, 'use_%s_' % b)):
            for f, eng, ps in runq(prog, rep, q, one=False):
                want2 = want or b + '_'
                ok = all(p.exit != 'ret' or has_field(p.ret, want2) or (p.ret[0] == 'lit' and any(has_field(t, want2) for t in p.hist)) for p in ps)
                rep.ob(R, '%s returns its own vector/flag' % q.split('tvm::constraint::')[1], ok, loc(f), '%s does not return %s' % (q, want2))
    for f, eng, ps in runq(prog, rep, RV + 'rhs', one=False):
        t = ('param', f['params'][0]['n'])
        for p in ps:
            for c in cases(p.hist, t):
                if c == 'DOUBLE_SIDED':
                    rep.ob(R, 'rhs(DOUBLE_SIDED) refused', p.exit == 'throw', loc(f), 'a single bound is returned for a double-sided type')
                else:
                    rep.ob(R, 'rhs(%s) is %s' % (c, USES[c]), p.exit == 'ret' and p.ret == fld(USES[c] + '_'), loc(f), 'returns %s' % show(p.ret))
    # Constraint constructor: outputs
    f = prog.find(CS + 'Constraint', 3)[0]
    ct, cr = [('param', x['n']) for x in f['params'][:2]]
    kw = dict(inline=lambda g, o: shortq(g['q']).startswith(CS), opaque=(CS + 'resizeCache',))
    terms = {TQ: {ct, fld('cstrType_')}, RQ: {cr, fld('constraintRhs_')}}
    allps = []
    for (t, r), ps in bycase(prog, rep, f, [(TQ, TYPES), (RQ, ('AS_GIVEN', 'OPPOSITE', 'ZERO'))], terms=terms, **kw):
        bad = t == 'DOUBLE_SIDED' and r == 'ZERO'
        if bad:
            rep.ob(R, 'constructor refuses double-sided zero constraints', all(p.exit == 'throw' for p in ps), loc(f), 'a double-sided constraint with zero convention is accepted')
        else:
            rep.ob(R, 'constructor refuses only double-sided zero constraints', all(p.exit != 'throw' for p in ps), loc(f), '(%s, %s) is refused' % (t, r))
            allps += ps
    for p in allps:
        dis = {}
        for e in calls(p, 'disableOutput'):
            for a in e.c:
                for b in 'LUE':
                    if has_name(a, b):
                        dis[b] = e
        for b in 'lue':
            use = [v for t, v in p.hist.items() if (t[0] == 'call' and shortq(t[1]).endswith('use_' + b)) or (t[0] == 'fld' and t[2] == 'use_%s_' % b)]
            if use:
                rep.ob(R, 'output %s exposed exactly when the vector is used' % b.upper(), (b.upper() in dis) == (use[0] is False), loc(f), 'output %s %s although the vector is %s' % (b.upper(), 'disabled' if b.upper() in dis else 'enabled', 'used' if use[0] else 'unused'))
            else:
                rep.ob(R, 'output %s exposed exactly when the vector is used' % b.upper(), b.upper() not in dis and False, loc(f), 'use of %s is not consulted on a route' % b)
        for n, a in (('vectors_', (ct, cr)), ('cstrType_', (ct,)), ('constraintRhs_', (cr,))):
            w = [e for e in p.flat() if e.kind == 'write' and e.a == fld(n)]
            rep.ob(R, 'constructor keeps the given type and convention (%s)' % n, bool(w) and all(has(w[-1].b, lambda x, y=y: x == y) for y in a), loc(f), '%s does not hold the given type/convention' % n)
    f, eng, ps = runq(prog, rep, CS + 'resizeCache', inline=lambda g, o: shortq(g['q']) == CS + 'resizeCache')
    ok = all(any(top_field(e.b) == 'vectors_' for e in calls(p, 'resize')) for p in ps)
    rep.ob(R, 'resizing a constraint resizes its bounds', ok, loc(f), 'bound vectors keep a stale size')
    f, eng, ps = runq(prog, rep, CS + 'isEquality')
    for p in ps:
        if p.ret in (('lit', 'true'), ('lit', 'false')):
            c = cases(p.hist, fld('cstrType_'))
            rep.ob(R, 'isEquality is true exactly for EQUAL', (p.ret == ('lit', 'true')) == ('EQUAL' in c) and ('EQUAL' not in c or c == ['EQUAL']), loc(f), 'wrong for %s' % c)
        else:
            rep.ob(R, 'isEquality is true exactly for EQUAL', p.ret[0] == 'op' and p.ret[1] == '==' and has_name(p.ret, 'EQUAL') and has_field(p.ret, 'cstrType_'), loc(f), 'returns %s' % show(p.ret))
    for n, a in (('type', 'cstrType_'), ('rhs', 'constraintRhs_')):
        f, eng, ps = runq(prog, rep, CS + n)
        rep.ob(R, '%s() reports the construction value' % n, all(p.ret == fld(a) for p in ps), loc(f), '%s() does not return %s' % (n, a))
    rep.floor(R, 25)


def sized(hist, a, what=('size',)):
    """Some size of argument a was compared on the route and found right."""
    return [t for t, v in hist.items() if t[0] == 'op' and t[1] == '==' and v is True and has(t, lambda x: x == a) and any(has_call(t, w) for w in what)]


def plain(t):
    """Drop copies and evaluation wrappers."""
    while isinstance(t, tuple) and t and ((t[0] == 'ctor' and len(t[2]) == 1) or (t[0] == 'call' and t[2] is not None and not t[3] and shortq(t[1]).split('::')[-1] in ('eval', 'derived', 'matrix', 'noalias'))):
        t = t[2][0] if t[0] == 'ctor' else t[2]
    return t


def rule_linear(prog, rep):
    R = 'C04.linear'
    rep.rule(R, 'setting a bound of a linear constraint writes the vector of its type only, after checking type, convention and size')
    spec = {'b': None, 'l': ('l',), 'u': ('u',)}
    for m in spec:
        fs = [f for f in prog.find(BL + m, 1)]
        f = fs[0]
        eng = Engine(prog, inline=lambda g, o: shortq(g['q']).startswith((BL, CS, RV)))
        ps = eng.run(f)
        rep.used(eng, ps)
        a = ('param', f['params'][0]['n'])
        tt = [fld('cstrType_')]
        for p in ps:
            w = written(p)
            cs = set(TYPES)
            for t in enumfacts(p.hist):
                if t[0] in ('eq', 'ne') and (has_field(t[1], 'cstrType_') or has_call(t[1], 'type')):
                    cs &= set(cases(p.hist, t[1]))
            rh = {'AS_GIVEN', 'OPPOSITE', 'ZERO'}
            for t in enumfacts(p.hist):
                if t[0] in ('eq', 'ne') and (has_field(t[1], 'constraintRhs_') or has_call(t[1], 'rhs')):
                    rh &= set(cases(p.hist, t[1], ('AS_GIVEN', 'OPPOSITE', 'ZERO'), RQ))
            if p.exit == 'throw':
                rep.ob(R, '%s: a refused value changes nothing' % m, not w, loc(f), 'the bound is modified before being refused')
                continue
            ok = {'b': cs <= {'EQUAL', 'GREATER_THAN', 'LOWER_THAN'}, 'l': cs == {'DOUBLE_SIDED'}, 'u': cs == {'DOUBLE_SIDED'}}[m]
            rep.ob(R, '%s: refused for the wrong type' % m, ok, loc(f), 'accepted for types %s' % sorted(cs))
            rep.ob(R, '%s: refused for the zero convention' % m, 'ZERO' not in rh, loc(f), 'accepted for a constraint with zero right-hand side')
            rep.ob(R, '%s: size checked' % m, bool(sized(p.hist, a)), loc(f), 'a vector of the wrong size is accepted')
            for c in cs:
                want = set(USES[c]) if m == 'b' else {m}
                rep.ob(R, '%s: writes the bound of type %s' % (m, c), set(w) == want, loc(f), 'writes %s instead of %s' % (sorted(w) or 'nothing', sorted(want)))
                for b, e in w.items():
                    val = e.b if e.kind == 'write' else (e.c[0] if e.c else None)
                    rep.ob(R, '%s: stores the given value' % m, plain(val) == a, loc(f), 'stores %s' % show(val))
    # matrix setter
    for f in prog.find(BL + 'A', 3):
        eng = Engine(prog, inline=lambda g, o: shortq(g['q']).startswith(BL))
        ps = eng.run(f)
        rep.used(eng, ps)
        A, x, pr = [('param', y['n']) for y in f['params']]
        for p in ps:
            if p.exit == 'ret':
                eqs = [t for t, v in p.hist.items() if t[0] == 'op' and t[1] == '==' and v is True]
                ok = any(has_call(t, 'rows') and has(t, lambda y: y == A) for t in eqs) and any(has_call(t, 'cols') and has(t, lambda y: y == A) and has(t, lambda y: y == x) for t in eqs)
                rep.ob(R, 'A: matrix size checked', ok, loc(f), 'a matrix of the wrong size is accepted')
                pc = [e for e in p.flat() if e.kind == 'call' and cname(e) == 'properties' and pr in e.c and has(e.b, lambda y: y == x)]
                rep.ob(R, 'A: given properties attached to the matrix of that variable', bool(pc), loc(f), 'properties are lost or attached to another matrix')
    # constructors
    seen = set()
    for f in prog.find(BL + 'BasicLinearConstraint'):
        if f.get('body') is None or f.get('implicit') or 'BasicLinearConstraint' in f['params'][0]['t']:
            continue
        names = [y['n'] for y in f['params']]
        vec = f['params'][0]['t'].startswith('const std::vector')
        if not vec:
            continue
        eng = Engine(prog, inline=lambda g, o: shortq(g['q']).startswith(BL), opaque=(BL + 'add', BL + 'b', BL + 'l', BL + 'u'))
        ps = eng.run(f)
        rep.used(eng, ps)
        P = {y['n']: ('param', y['n']) for y in f['params']}
        two = 'l' in P and 'u' in P
        one = 'b' in P
        name = 'constructor(%s)' % ('Ax, l, u' if two else 'Ax, b' if one else 'Ax')
        seen.add(name)
        for p in ps:
            if p.exit != 'ret':
                continue
            tp = next((P[y['n']] for y in f['params'] if y['t'].endswith('constraint::Type')), None)
            if not two:
                rep.ob(R, name + ': double-sided refused', tp is not None and 'DOUBLE_SIDED' not in cases(p.hist, tp), loc(f), 'a double-sided constraint is built from one bound')
            rp = next((P[y['n']] for y in f['params'] if y['t'].endswith('constraint::RHS')), None)
            if two or one:
                rep.ob(R, name + ': zero convention refused', rp is not None and 'ZERO' not in cases(p.hist, rp, ('AS_GIVEN', 'OPPOSITE', 'ZERO'), RQ), loc(f), 'a bound is accepted with the zero convention')
            A, x = ('param', names[0]), ('param', names[1])
            rep.ob(R, name + ': as many matrices as variables', any(t[0] == 'op' and t[1] == '==' and v is True and has(t, lambda y: y == A) and has(t, lambda y: y == x) for t, v in p.hist.items()), loc(f), 'mismatching numbers of matrices and variables are accepted')
            for n in ('b', 'l', 'u'):
                if n in P and (two or n == 'b'):
                    rep.ob(R, name + ': bound %s is stored' % n, any(e.c and has(e.c[0], lambda y: y == P[n]) for e in calls(p, q=BL + n)), loc(f), 'the given bound %s is not stored' % n)
                    chk = sized(p.hist, P[n])
                    rep.ob(R, name + ': size of %s checked' % n, bool(chk) or any(True for e in calls(p, q=BL + n)), loc(f), 'size unchecked')
            adds = [e for e, ls, h in pwalk(p) if e.kind == 'call' and shortq(e.a) == BL + 'add']
            rep.ob(R, name + ': every matrix is added with its variable', bool(adds) and all(any(has(a, lambda y: y == A) for a in e.c[:1]) and has(e.c[1], lambda y: y == x) for e in adds), loc(f), 'a matrix is not added with its variable')
            base = [e for e in p.flat() if e.kind == 'write' and e.a == fld('cstrType_')]
            if base:
                rep.ob(R, name + ': has the right type', (base[0].b == tp) if tp else has_name(base[0].b, 'DOUBLE_SIDED'), loc(f), 'constraint built with type %s' % show(base[0].b))
    f, eng, ps = runq(prog, rep, BL + 'add', opaque=())
    A, x = [('param', y['n']) for y in f['params']]
    for p in ps:
        if p.exit == 'ret':
            eqs = [t for t, v in p.hist.items() if t[0] == 'op' and t[1] == '==' and v is True]
            ok = any(has_call(t, 'rows') and has(t, lambda y: y == A) for t in eqs) and any(has_call(t, 'cols') and has(t, lambda y: y == A) and has(t, lambda y: y == x) for t in eqs)
            rep.ob(R, 'add: matrix size checked', ok, loc(f), 'a matrix of the wrong size is accepted')
    rep.floor(R, 25)


def rule_task(prog, rep):
    R = 'C04.task'
    rep.rule(R, 'a task gets one dynamics per bound, of the direction and value of that bound; double-sided exactly with two bounds')
    done = set()
    for f in prog.find('tvm::Task::Task'):
        if f.get('body') is None or f.get('implicit') or f['params'][0]['t'].startswith(('const tvm::Task', 'tvm::Task &')):
            continue
        eng = Engine(prog, inline=lambda g, o: shortq(g['q']).startswith('tvm::Task::'))
        ps = eng.run(f)
        rep.used(eng, ps)
        P = [('param', y['n']) for y in f['params']]
        pt = f['params'][0]['t']
        proto = 'ProtoTaskCommon' in pt
        name = 'Task(%s)' % ('proto ' + next(t for t in TYPES if t in pt) if proto else '%d args, %s' % (len(P), 'vector' if 'Eigen' in f['params'][-1]['t'] else 'scalar' if f['params'][-1]['t'] == 'double' else 'no bound'))
        done.add(name)
        rep.ob(R, name + ': can succeed', any(p.exit == 'ret' for p in ps), loc(f), 'never succeeds')
        for p in ps:
            if p.exit != 'ret':
                continue
            wr = {}
            for e in p.flat():
                if e.kind == 'write' and e.a[0] == 'fld' and e.a[1] == THIS:
                    wr[e.a[2]] = e.b
            ty = wr.get('type_')
            td, td2 = wr.get('td_'), wr.get('td2_')
            cs = [next(t for t in TYPES if t in pt)] if proto else cases(p.hist, ty) if ty and ty[0] == 'param' else [ty[1].split('::')[-1]] if ty and ty[0] == 'enum' else list(TYPES)
            if proto:
                rep.ob(R, name + ': type of the task is that of the proto task', ty is not None and has_name(ty, cs[0]), loc(f), 'task has type %s' % show(ty))
            two = (proto and cs == ['DOUBLE_SIDED']) or (not proto and len(P) == 5)
            one_none = td is not None and td2 is not None
            if two:
                rep.ob(R, name + ': double-sided only', cs == ['DOUBLE_SIDED'], loc(f), 'two bounds accepted for %s' % cs)
                lo, up = (('fld', P[0], 'l_'), ('fld', P[0], 'u_')) if proto else (P[3], P[4])
                rep.ob(R, name + ': first dynamics is for the lower bound', td is not None and has_name(td, 'GREATER_THAN') and has(td, lambda x: x == lo) and not has(td, lambda x: x == up), loc(f), 'first dynamics is %s' % show(td))
                rep.ob(R, name + ': second dynamics is for the upper bound', td2 is not None and has_name(td2, 'LOWER_THAN') and has(td2, lambda x: x == up) and not has(td2, lambda x: x == lo), loc(f), 'second dynamics is %s' % show(td2))
            else:
                rep.ob(R, name + ': not for double-sided types', 'DOUBLE_SIDED' not in cs, loc(f), 'a double-sided task is built with one bound')
                rep.ob(R, name + ': no second dynamics', td2 in (None, ('null',), ('lit', 'nullptr')) or show(td2) == 'nullptr', loc(f), 'second dynamics is %s' % show(td2))
                want = ('enum', TQ + cs[0]) if proto else P[1]
                ok = td is not None and has(td, lambda x: x == want or x == ty)
                bound = ('fld', P[0], 'rhs_') if proto else (P[3] if len(P) > 3 else None)
                ok = ok and (has(td, lambda x: x == bound) if bound else has_call(td, 'Zero'))
                rep.ob(R, name + ': dynamics is for the type and bound of the task', ok, loc(f), 'dynamics is %s' % show(td))
            eu = [v for t, v in p.hist.items() if t[0] == 'call' and shortq(t[1]).endswith('isEuclidean')]
            rep.ob(R, name + ': non-Euclidean functions refused', bool(eu) and all(eu), loc(f), 'a function into a non-Euclidean space is accepted')
            fw = wr.get('f_')
            rep.ob(R, name + ': keeps the given function', fw == (('fld', P[0], 'f_') if proto else P[0]), loc(f), 'function is %s' % show(fw))
    for n, a in (('function', 'f_'), ('type', 'type_'), ('taskDynamics', 'td_'), ('secondBoundTaskDynamics', 'td2_')):
        f, eng, ps = runq(prog, rep, 'tvm::Task::' + n, 0)
        rep.ob(R, 'Task::%s returns what the task was built with' % n, all(p.ret == fld(a) for p in ps), loc(f), 'returns %s' % [show(p.ret) for p in ps])
    rep.floor(R, 20)


def rule_proto(prog, rep):
    R = 'C04.operator'
    rep.rule(R, 'f >= b and b <= f denote a lower bound, f <= b and b >= f an upper bound, == an equality, whatever the kind of expression; l <= f <= u keeps l below u')
    n = 0
    for fid, f in sorted(prog.funcs.items()):
        if not f['q'].startswith('operator') or not f['file'].endswith('ProtoTask.h') or len(f['params']) != 2 or f.get('body') is None:
            continue
        op = f['n'].replace('operator', '')
        if op not in ('==', '>=', '<='):
            continue
        t0, t1 = f['params'][0]['t'], f['params'][1]['t']
        eng = Engine(prog, inline=lambda g, o: shortq(g['q']).startswith('tvm::utils::ProtoTaskCommon') or shortq(g['q']).startswith('operator'))
        ps = eng.run(f)
        rep.used(eng, ps)
        if 'ProtoTaskCommon' in t0:
            have = next(t for t in TYPES if t in t0)
            a, r = ('param', f['params'][0]['n']), ('param', f['params'][1]['n'])
            low, up = (r, ('fld', a, 'rhs_')) if have == 'LOWER_THAN' else (('fld', a, 'rhs_'), r)
            for p in ps:
                if p.exit != 'ret':
                    continue
                n += 1
                args = ctor_args(p.ret)
                fields = {e.a[2]: e.b for e in p.flat() if e.kind == 'write' and e.a[0] == 'fld' and e.a[2] in ('l_', 'u_')}
                ok = (args is not None and len(args) == 3 and args[1] == low and args[2] == up) or (fields.get('l_') == low and fields.get('u_') == up)
                rep.ob(R, 'second bound on %s with %s' % (have, op), ok, loc(f), 'bounds are (%s)' % ', '.join(show(x) for x in (args or ())))
                rep.ob(R, 'second bound on %s with %s: direction' % (have, op), (op == '>=') == (have == 'LOWER_THAN'), loc(f), 'operator %s adds a second bound to %s' % (op, have))
            continue
        rev = 'internal::RHS' in t0
        k = t1 if rev else t0
        kind = 'variable' if 'tvm::Variable>' in k and 'Expr' not in k else 'affine expression' if 'AffineExpr' in k else 'linear expression' if 'LinearExpr' in k else 'function'
        want = 'EQUAL' if op == '==' else 'GREATER_THAN' if (op == '>=') != rev else 'LOWER_THAN'
        n += 1
        rep.ob(R, '%s: %s' % (kind, ('b %s f' if rev else 'f %s b') % op), want in f['rt'], loc(f), '%s yields %s' % (fid[:120], f['rt'][:90]))
    # storage in the proto tasks
    for f in prog.find('tvm::utils::ProtoTaskCommon::ProtoTaskCommon'):
        if f.get('body') is None or f.get('implicit') or len(f['params']) < 2:
            continue
        eng = Engine(prog)
        ps = eng.run(f)
        rep.used(eng, ps)
        P = [('param', y['n']) for y in f['params']]
        names = ('l_', 'u_') if len(P) == 3 else ('rhs_',)
        for p in ps:
            if p.exit != 'ret':
                continue
            wr = {e.a[2]: e.b for e in p.flat() if e.kind == 'write' and e.a[0] == 'fld' and e.a[1] == THIS}
            for i, nm in enumerate(names):
                rep.ob(R, 'proto task stores %s' % nm, wr.get(nm) == P[i + 1] or has(wr.get(nm), lambda x: x == P[i + 1]), loc(f), '%s holds %s' % (nm, show(wr.get(nm))))
                isv = enumfacts(p.hist).get(('eq', ('fld', P[i + 1], 'type_')))
                if isv is not None and isv[1].endswith('Vector'):
                    rep.ob(R, 'proto task checks the size of %s' % nm, any(t[0] == 'op' and t[1] == '==' and v is True and has(t, lambda x: x == ('fld', P[i + 1], 'v_')) for t, v in p.hist.items()), loc(f), 'a vector bound of the wrong size is accepted')
    f, eng, ps = runq(prog, rep, 'tvm::utils::internal::RHS::toVector')
    for p in ps:
        c = enumfacts(p.hist).get(('eq', fld('type_')))
        if c is None or p.exit != 'ret':
            continue
        c = c[1].split('::')[-1]
        want = {'Zero': lambda t: has_call(t, 'Zero'), 'Double': lambda t: has_call(t, 'Constant') and has_field(t, 'd_'), 'Vector': lambda t: has_field(t, 'v_')}.get(c)
        if want:
            rep.ob(R, 'bound given as %s' % c, want(p.ret), loc(f), 'converts to %s' % show(p.ret))
    rep.floor(R, 20)


def ctor_args(t):
    while t is not None and t[0] in ('ctor', 'init') and len(t[2]) == 1 and t[2][0][0] in ('ctor', 'init'):
        t = t[2][0]
    return t[2] if t is not None and t[0] in ('ctor', 'init') else None


def rule_ltc(prog, rep):
    R = 'C04.task2cstr'
    rep.rule(R, 'the linear constraint derived from a task has the task\'s type and feeds the bound(s) of that type from the dynamics of that bound')
    f = prog.find(LTC + 'LinearizedTaskConstraint', 1)[0]
    seen = set()
    upd = updates(prog, rep)
    for (c, o), ps in ltc_cases(prog, rep, f):
        rep.ob(R, '%s: accepted for order %s' % (c, o), any(p.exit == 'ret' for p in ps), loc(f), 'every route throws')
        for p in ps:
            if p.exit != 'ret':
                continue
            base = [e for e in p.flat() if e.kind == 'write' and e.a == fld('cstrType_')]
            rep.ob(R, 'constraint has the type of the task', bool(base) and has_field(base[0].b, 'type_') or not base, loc(f), 'constraint type is %s' % (show(base[0].b) if base else '?'))
            regs = {}
            for e in calls(p, 'registerUpdates'):
                for i in range(0, len(e.c) - 1, 2):
                    regs[show(e.c[i])] = e.c[i + 1]
            fed = {}
            for e in calls(p, 'addOutputDependency'):
                for b in 'LUE':
                    if show(e.c[0]).split('::')[-1] == b:
                        fed[b.lower()] = regs.get(show(e.c[1]))
            seen.add(c)
            rep.ob(R, '%s: outputs fed are the bounds of the type' % c, set(fed) == set(USES[c]), loc(f), 'feeds %s' % sorted(fed))
            for b, fn in fed.items():
                nm = fnname(fn)
                body = upd.get(nm)
                if body is None:
                    rep.ob(R, '%s: bound %s has an update' % (c, b), False, loc(f), 'no update registered')
                    continue
                want = 'td2_' if c == 'DOUBLE_SIDED' and b == 'u' else 'td_'
                other = 'td_' if want == 'td2_' else 'td2_'
                for q in body:
                    w = written(q)
                    src = [v for e in w.values() for v in ([e.b] if e.kind == 'write' else list(e.c))]
                    ok = set(w) == {b} and any(has_field(s, want) for s in src) and not any(has_field(s, other) for s in src)
                    rep.ob(R, '%s: bound %s comes from its own dynamics' % (c, b), ok, loc(f), 'update %s writes %s from %s' % (nm.split('::')[-1], sorted(w), '; '.join(show(s) for s in src)[:120]))
    rep.ob(R, 'all four task types are handled', seen == set(TYPES), loc(f), 'types handled: %s' % sorted(seen))
    rep.floor(R, 9)


def updates(prog, rep):
    upd = {}
    for g in prog.funcs.values():
        if shortq(g['q']).startswith(LTC) and not g['params'] and g.get('body') is not None:
            e2 = Engine(prog)
            upd[shortq(g['q'])] = e2.run(g)
            rep.used(e2, upd[shortq(g['q'])])
    return upd


def ltc_cases(prog, rep, f):
    """Routes of the constructor for every task type and derivative order (both dynamics of the same order)."""
    return bycase(prog, rep, f, [(TQ, TYPES), ('tvm::task_dynamics::Order::', ('Zero', 'One', 'Two'))],
                  inline=lambda g, o: shortq(g['q']).startswith((LTC, 'tvm::Task::', CS + 'type')), maxpaths=6000)


def fnname(t):
    if t is None:
        return ''
    for x in sub_terms(t):
        if isinstance(x, tuple) and len(x) > 1 and isinstance(x[1], str) and x[1].startswith('tvm::'):
            return shortq(x[1])
    return ''


RULES = [rule_vectors, rule_linear, rule_task, rule_proto, rule_ltc]
