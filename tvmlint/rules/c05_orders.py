"""C05: a task is turned into a linear constraint on the derivatives of its variables whose order is that of its dynamics, and that order is the same everywhere."""
from ..q import *
from .c04_bounds import LTC, TQ, TYPES, updates, ltc_cases, fnname, written

EXPLANATION = ('Finite-domain evaluation of the construction of a linearized task constraint and of its accessors for every task type and derivative order, plus the order declared by every task '
               'dynamics descriptor against the order given to the implementation it creates: derivation depth of the variables, presence of the normal acceleration term, Jacobian lookup depth and linearity '
               'requirement are read from the summaries and compared with the order.')
ASSUMPTIONS = ['the derivative of a variable is obtained through tvm::dot and its antiderivative through Variable::primitive/basePrimitive']
OQ = 'tvm::task_dynamics::Order::'
ORDERS = ('Zero', 'One', 'Two')
TDI = 'tvm::task_dynamics::abstract::TaskDynamicsImpl'
TD = 'tvm::task_dynamics::abstract::TaskDynamics'


def depth(t, eng_lits=True):
    """(base term, number of derivations) of a variable term; None when unknown."""
    d = 0
    while isinstance(t, tuple) and t and t[0] == 'call' and shortq(t[1]).split('::')[-1] == 'dot':
        a = t[3]
        if not a:
            return None
        n = 1
        if len(a) > 1:
            if a[1][0] != 'lit' or not a[1][1].lstrip('-').isdigit():
                return None
            n = int(a[1][1])
        d += n
        t = a[0]
    return t, d


def prim(t):
    """(base term, number of antiderivations)."""
    d = 0
    while isinstance(t, tuple) and t and t[0] == 'call' and shortq(t[1]).split('::')[-1] == 'primitive':
        m = t[1].rsplit('<', 1)
        d += int(m[1].rstrip('>').split(',')[0]) if len(m) > 1 else 1
        t = t[2]
    return t, d


def rule_ltc(prog, rep):
    R = 'C05.linearize'
    rep.rule(R, 'a task of order k constrains the k-th derivative of each of its variables: variables added, bound expression and Jacobian lookup all use the same k; order 0 requires linearity')
    f = prog.find(LTC + 'LinearizedTaskConstraint', 1)[0]
    upd = updates(prog, rep)
    for (c, o), ps in ltc_cases(prog, rep, f):
        k = ORDERS.index(o)
        for p in ps:
            if p.exit != 'ret':
                continue
            n = 0
            for e, loops, hist in pwalk(p):
                if e.kind != 'call' or cname(e) != 'addVariable' or e.inl:
                    continue
                n += 1
                b = depth(e.c[0])
                ok = b is not None and b[1] == k and b[0][0] == 'elem' and has_call(b[0], 'variables') and has_field(b[0], 'f_')
                rep.ob(R, '%s, order %s: variables are the derivatives of that order of the variables of the function' % (c, o), ok, e.where(), 'adds %s' % show(e.c[0]))
                rep.ob(R, '%s, order %s: every variable of the function' % (c, o), len(loops) == 1, e.where(), 'variables are not added for each variable of the function')
                rep.ob(R, '%s, order %s: constraint is linear in its variables' % (c, o), len(e.c) > 1 and e.c[1] == ('lit', 'true'), e.where(), 'the variable is not declared linear')
                if k == 0:
                    lin = [v for t, v in hist.items() if t[0] == 'call' and shortq(t[1]).endswith('::linearIn') and has(t, lambda x: x == b[0])]
                    rep.ob(R, '%s, order Zero: refused unless linear in each variable' % c, lin == [True], e.where(), 'a non linear function is accepted at order zero')
            rep.ob(R, '%s, order %s: variables added' % (c, o), n == 1 or n > 0 and False or n == 1, loc(f), '%d addVariable effects' % n)
            regs = {}
            for e in calls(p, 'registerUpdates'):
                for i in range(0, len(e.c) - 1, 2):
                    regs[show(e.c[i])] = e.c[i + 1]
            for e in calls(p, 'addOutputDependency'):
                b = show(e.c[0]).split('::')[-1]
                if b not in 'LUE':
                    continue
                body = upd.get(fnname(regs.get(show(e.c[1]))))
                if body is None:
                    raise AnalysisBroken('update of output %s not found' % b)
                for q in body:
                    w = written(q)
                    for x in w.values():
                        val = x.b if x.kind == 'write' else x.c[0]
                        na = has_call(val, 'normalAcceleration') or has_field(val, 'normalAcceleration_')
                        rep.ob(R, '%s, order %s: bound %s subtracts the normal acceleration exactly at order two' % (c, o, b), na == (k == 2), x.where(), 'bound is %s' % show(val))
                        if na and k == 2:
                            ok = subtracted(val)
                            rep.ob(R, '%s: bound %s is dynamics value minus normal acceleration' % (c, b), ok, x.where(), 'bound is %s' % show(val))
    # different orders refused
    eng = Engine(prog, inline=lambda g, o: shortq(g['q']).startswith((LTC, 'tvm::Task::', 'tvm::constraint::abstract::Constraint::type')), maxpaths=6000)
    ps = eng.run(f)
    rep.used(eng, ps)
    for p in ps:
        if p.exit == 'ret' and 'DOUBLE_SIDED' in cases_of(p.hist, lambda t: has_field(t, 'type_') or has_field(t, 'cstrType_'), TYPES):
            same = [v for t, v in p.hist.items() if t[0] == 'op' and t[1] == '==' and has_field(t, 'td_') and has_field(t, 'td2_')]
            rep.ob(R, 'double-sided: both dynamics have the same order', same == [True] or not both(p), loc(f), 'dynamics of different orders are accepted')
    g = prog.find(LTC + 'jacobian', 1)[0]
    x = ('param', g['params'][0]['n'])
    seen = set()
    for (o,), ps in bycase(prog, rep, g, [(OQ, ORDERS)], inline=lambda g, o: shortq(g['q']).startswith(LTC)):
        for p in ps:
            if p.exit != 'ret':
                continue
            r = p.ret
            ok = r is not None and r[0] == 'call' and shortq(r[1]).endswith('::jacobian') and has_field(r[2], 'f_') and len(r[3]) == 1 and prim(r[3][0]) == (x, ORDERS.index(o))
            seen.add(o)
            rep.ob(R, 'Jacobian at order %s is that of the function w.r.t. the primitive of that order' % o, ok, loc(g), 'returns %s' % show(r))
    rep.ob(R, 'Jacobian available for all orders', seen == set(ORDERS), loc(g), 'orders handled: %s' % sorted(seen))
    h = prog.find('tvm::constraint::abstract::LinearConstraint::updateValue', 0)[0]
    eng = Engine(prog, inline=lambda g, o: False)
    for p in eng.run(h):
        acc = [(e, ls) for e, ls, hi in pwalk(p) if e.kind in ('write', 'call') and (e.a if e.kind == 'write' else e.b) == fld('value_') and (e.op == '+=' or cname(e) == 'operator+=')]
        ok = len(acc) == 1 and len(acc[0][1]) == 1 and has_call(acc[0][1][0].b, 'variables')
        if ok:
            v = acc[0][0].b if acc[0][0].kind == 'write' else acc[0][0].c[0]
            js = [t for t in sub_terms(v) if isinstance(t, tuple) and t and t[0] == 'call' and shortq(t[1]).endswith('::jacobian')]
            vs = [t for t in sub_terms(v) if isinstance(t, tuple) and t and t[0] == 'call' and shortq(t[1]).endswith('Variable::value')]
            ok = len(js) == 1 and len(vs) == 1 and js[0][3][0] == vs[0][2] and vs[0][2][0] == 'elem'
        rep.ob(R, 'value of a linear constraint sums Jacobian times value over each variable', ok, loc(h), 'accumulates %s' % [show(a[0].b if a[0].kind == 'write' else a[0].c[0]) for a in acc])
        zero = [i for i, (e, ls, hi) in enumerate(pwalk(p)) if e.kind == 'call' and cname(e) == 'setZero' and e.b == fld('value_') and not ls or e.kind == 'write' and e.a == fld('value_') and e.op == '=' and not ls]
        rep.ob(R, 'value of a linear constraint starts from zero', bool(zero), loc(h), 'the previous value is accumulated')
    rep.used(eng)
    rep.floor(R, 40)


def both(p):
    """The route builds a second bound dynamics."""
    return any(e.kind == 'write' and e.a == fld('td2_') for e in p.flat())


def subtracted(v):
    """v is  value() - normalAcceleration()."""
    def sign(t, s):
        if isinstance(t, tuple) and t:
            if t[0] == 'op' and t[1] == '-' and len(t) == 4:
                yield from sign(t[2], s); yield from sign(t[3], -s); return
            if t[0] == 'op' and t[1] == '-' and len(t) == 3:
                yield from sign(t[2], -s); return
            if t[0] == 'op' and t[1] == '+':
                for x in t[2:]:
                    yield from sign(x, s)
                return
            if t[0] == 'call' and shortq(t[1]).split('::')[-1] == 'operator-':
                a = ([t[2]] if t[2] is not None else []) + list(t[3])
                if len(a) == 2:
                    yield from sign(a[0], s); yield from sign(a[1], -s)
                else:
                    yield from sign(a[0], -s)
                return
            if t[0] == 'call' and shortq(t[1]).split('::')[-1] == 'operator+':
                for x in ([t[2]] if t[2] is not None else []) + list(t[3]):
                    yield from sign(x, s)
                return
        yield t, s
    parts = list(sign(v, 1))
    na = [s for t, s in parts if has_call(t, 'normalAcceleration') or has_field(t, 'normalAcceleration_')]
    va = [s for t, s in parts if not (has_call(t, 'normalAcceleration') or has_field(t, 'normalAcceleration_')) and (has_field(t, 'td_') or has_field(t, 'td2_'))]
    return len(parts) == 2 and na == [-1] and va == [1]


def descriptors(prog):
    for c in sorted(prog.all_derived(TD)):
        yield c


def rule_orders(prog, rep):
    R = 'C05.order'
    rep.rule(R, 'the order declared by a task dynamics is the order of the implementation it creates, and the implementation is given the task\'s function, type and bound')
    n = 0
    for c in descriptors(prog):
        oi = prog.resolve_virtual(TD + '::order_() const', c)
        im = [f for f in prog.methods(c) if f['q'].split('::')[-1] == 'impl_' and len(f['params']) == 3 and not f.get('tmpl') and '<' not in f['fid'].split('::impl_')[-1].split('(')[0]]
        if oi is None or not im:
            continue
        for f in im:
            eng = Engine(prog, dyn=c)
            ps = eng.run(f)
            rep.used(eng, ps)
            P = [('param', y['n']) for y in f['params']]
            for p in ps:
                if p.exit != 'ret' or p.ret is None or p.ret[0] != 'new':
                    if p.exit == 'ret':
                        raise AnalysisBroken('implementation created by %s not understood' % f['q'])
                    continue
                T = p.ret[1].replace('std::unique_ptr<', '')
                icls = clsof(prog, p.ret[1])
                ctors = [g for g in prog.funcs.values() if g.get('ctor') and g.get('cls') == icls and len(g['params']) == len(p.ret[2]) and g.get('body') is not None and not copyctor(g, icls)]
                ctors = pick(ctors, p.ret[2], eng)
                if not ctors:
                    raise AnalysisBroken('constructor of %s not found' % icls)
                for g in ctors:
                    e2 = Engine(prog, dyn=icls, opaque=(TDI + '::setFunction',), inline=lambda h, o: h.get('ctor') or 'Impl' in h['q'])
                    qs = e2.run(g, args=list(p.ret[2]), init={t: v for t, v in p.conds.items()})
                    rep.used(e2, qs)
                    e3 = Engine(prog, dyn=c)
                    want = {norm(r.ret) for r in e3.run(oi, init=dict(p.conds)) if r.exit == 'ret'}
                    rep.used(e3)
                    got = set()
                    for q in qs:
                        wr = {e.a[2]: e.b for e in q.flat() if e.kind == 'write' and e.a[0] == 'fld' and e.a[1] == THIS}
                        if 'order_' in wr:
                            got.add(norm(wr['order_']))
                        if q.exit == 'ret':
                            for fn, i in (('type_', 1), ('rhs_', 2)):
                                rep.ob(R, '%s: implementation gets the task\'s %s' % (nm(c), fn.strip('_')), wr.get(fn) == P[i], loc(g), '%s holds %s' % (fn, show(wr.get(fn))))
                            sf = [e for e in calls(q, 'setFunction')]
                            rep.ob(R, '%s: implementation gets the task\'s function' % nm(c), bool(sf) and all(e.c[0] == P[0] for e in sf), loc(g), 'function of the implementation is %s' % [show(e.c[0]) for e in sf])
                    n += 1
                    rep.ob(R, '%s: declared order is the implemented one' % nm(c), len(want) == 1 and want == got, loc(f), 'declared %s, implemented %s (route: %s)' % (sorted(map(show, want)), sorted(map(show, got)), p.condstr()[:80]))
    rep.floor(R, 20)


def nm(c):
    return c.replace('tvm::task_dynamics::', '')


def copyctor(g, cls):
    return len(g['params']) == 1 and cls in g['params'][0]['t']


def clsof(prog, t):
    t = t.replace('const ', '').strip()
    for pre in ('std::unique_ptr<', 'std::shared_ptr<'):
        if t.startswith(pre):
            t = t[len(pre):]
    d = 0
    for i, ch in enumerate(t):
        if ch == '<':
            d += 1
        elif ch == '>':
            if d == 0:
                return t[:i].strip()
            d -= 1
        elif ch == ',' and d == 0:
            return t[:i].strip()
    return t.strip()


def pick(ctors, args, eng):
    """Prefer the overloads whose parameter types match those of the arguments."""
    if len(ctors) < 2:
        return ctors
    def base(t):
        return t.replace('const ', '').replace('&', '').strip()
    def score(g):
        return sum(1 for a, p in zip(args, g['params']) if base(eng.types.get(a, '?')) == base(p['t']))
    best = max(score(g) for g in ctors)
    return [g for g in ctors if score(g) == best][:1]


RULES = [rule_ltc, rule_orders]
