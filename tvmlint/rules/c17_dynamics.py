"""C17: task dynamics compute the value of their law, from the gains and parameters in force, and refuse unusable ones."""
from ..q import *
from ..algebra import *
from ..algebra import base as bn

EXPLANATION = ('Every updateValue() of a task dynamics is replayed on polynomials (one generic component of the vectors, signs of comparisons enumerated) and the result is compared, as a normal form, '
               'with the law of the documentation. Constructors, gain setters and factories are replayed the same way to show what they store and for which parameters they refuse.')
ASSUMPTIONS = ['Eigen operators have their usual meaning and vectors of one expression have the same size (checked at construction)',
               'mpark::get<T> is called with the type of the alternative in force (otherwise it throws)',
               'floating-point rounding is not modelled']
T = 'tvm::task_dynamics::'
IMPL = T + 'abstract::TaskDynamicsImpl'
N = var('n')
F, V, R = var('f'), var('v'), var('r')


def isf(t):
    """The function of the dynamics."""
    while t is not None and t[0] == 'op' and len(t) == 3 and t[1] == '*':
        t = t[2]
    if t is None:
        return False
    if t[0] == 'call' and bn(t[1]) in ('function', 'operator*', 'operator->', 'get'):
        return (t[1].startswith(IMPL) and t[2] == ('this',)) or (t[2] is not None and isf(t[2]))
    return t == ('param', 'f') or t == ('fld', ('this',), 'f_')


def names(t, A):
    if t == ('param', 'f'):
        return A.params.get('f', var('fun'))
    if t[0] == 'call':
        n, o, a = bn(t[1]), t[2], t[3]
        if n == 'get' and t[1].startswith('mpark') and len(a) == 1:
            return A.P(a[0])
        if isf(o) and not a:
            if n in ('value', 'velocity', 'size', 'b'):
                return {'value': F, 'velocity': V, 'size': N, 'b': var('b')}[n]
        if o == ('this',) and not a and t[1].startswith(IMPL):
            if n in ('rhs', 'type', 'order', 'value'):
                return A.look(n + '_') if n in ('value',) else A.env.get(n + '_', R if n == 'rhs' else var(n))
        if n == 'size' and o is not None and not a:
            p = A.P(o)
            if isinstance(p, dict):
                s = single(p)
                if s == 'value_' or (s in ('d_', 'f', 'v', 'r') and A.upd):
                    return N
                if len(p) > 1 and A.upd:
                    return N
                return var(('size', s if s is not None else ('val', key(p))))
        if n == 'operator()' and o is not None and o[0] == 'fld' and o[2] == 'feedForward_':
            return var('ff')
        if n in ('value', 'b') and o is not None and not a:
            s = o
            while s[0] == 'op' and len(s) == 3:
                s = s[2]
            if s[0] == 'fld':
                return var((n, s[2]))
    if t[0] == 'fld' and t[1] == ('this',) and t[2] == 'rhs_' and 'rhs_' not in A.env:
        return R
    if t == ('fld', ('this',), 'order_') and 'order_' not in A.env:
        return var('order')
    if t == ('fld', ('this',), 'type_') and 'type_' not in A.env:
        return var('type')
    return None


def alg(prog, assign, upd=False, params=None):
    A = Alg(prog, assign, names, params)
    A.upd = upd
    A.alts = lambda m: (0, 1) if m in ('min', 'max', 'min_', 'max_') else (0, 1, 2)
    return A


def helper(cls):
    """Methods of the class itself and helpers local to a file."""
    def inl(g, o):
        q = shortq(g['q'])
        if q.startswith((cls + '::', (cls[:-6] if cls.endswith('::Impl') else cls) + '::')) and lastname(g['q']) != 'updateValue':
            return True
        if q.startswith(IMPL + '::'):
            return lastname(g['q']) not in ('function', 'rhs', 'type', 'order', 'value', 'updateValue')
        return q.startswith(T) and g['file'].endswith('.cpp') and 'parent' not in g and ('anonymous' in g['q'] or q.rsplit('::', 1)[0] in (T[:-2],))
    return inl


def replays(prog, f, ps, assign=None, upd=False, params=None, law=None):
    """(assignment, path, Alg, what the law says) for every route and every way of deciding what is tested."""
    for p in ps:
        def run(a):
            A = alg(prog, a, upd, params)
            A.replay(e for e in p.ev if e.kind == 'write' and e.op == 'init')
            if not A.holds(p.hist):
                return None
            if p.exit != 'throw':
                A.replay(p.ev)
            L = law(A) if law else None
            return A, L
        for a, r in branches(run, assign):
            if r is not None:
                wrong_alternative(r[0], p, a)
                yield a, p, r[0], r[1]


def wrong_alternative(A, p, a):
    """Members of a variant are read as the alternative it holds."""
    for e in p.flat():
        if e.kind == 'call' and e.a.startswith('mpark::get<') or e.kind == 'call' and shortq(e.a) == 'mpark::get':
            k = kind(e.node.get('t', '')) if e.node else None
            if k is None or len(e.c) != 1:
                continue
            try:
                s = single(A.P(e.c[0]))
            except Need:
                continue
            i = a.get(('i', ('index', s)))
            if i is not None and 'SDM'[i] != k:
                raise Unknown('%s is read as %s where it holds %s' % (s, NAMES[k], NAMES['SDM'[i]]))


NAMES = {'S': 'a number', 'D': 'a vector', 'M': 'a matrix'}


def case(a):
    out = []
    for k, v in sorted(a.items(), key=repr):
        kind = k[0]
        w = showp(dict(k[1])) if kind in ('s', 'b', 'e') else str(k[1])
        c = '[%s]' % k[2] if len(k) > 2 else ''
        out.append('%s%s %s' % (w, c, {1: '> 0', 0: '= 0', -1: '< 0'}[v] if kind == 's' else '= %s' % v))
    return ', '.join(out) or 'always'


def S(p):
    return ('s', key(lead(p)[1]))


def law_rule(prog, rep, rule, q, law, fields, pick=None, assign=None, feasible=None, upd=True, inline=None, cls=None, what=None):
    """Every returning route of `q` leaves in `fields` what `law(A)` says."""
    fs = [f for f in prog.find(q, must=True) if f.get('body') is not None and (not pick or pick(f))]
    if not fs:
        raise AnalysisBroken('anchor vanished: ' + q)
    n = 0
    for f in fs:
        eng = Engine(prog, inline=inline or helper(cls or shortq(f['q']).rsplit('::', 1)[0]), fine=True)
        ps = eng.run(f)
        rep.used(eng, ps)
        try:
            for a, p, A, L in replays(prog, f, ps, assign, upd, law=law):
                if feasible and not feasible(A):
                    continue
                n += 1
                if p.exit == 'throw':
                    ok = L == 'throw'
                    rep.ob(rule, '%s: %s' % (what or shortq(f['q']), case(a)), ok, loc(f), 'refused although the law defines it' if not ok else 'refused')
                    continue
                if L == 'throw':
                    rep.bad(rule, '%s: %s' % (what or shortq(f['q']), case(a)), loc(f), 'accepted, must be refused')
                    continue
                if L is None:
                    continue
                for x in fields:
                    got, want = A.env.get(x, var(x)), L[x]
                    ok = same(A, got, want) and not A.early
                    rep.ob(rule, '%s, %s: %s' % (what or shortq(f['q']), x, case(a)), ok, loc(f),
                           'a loop over the components stops early' if A.early else '%s is %s, expected %s' % (x, showp(got), showp(want)))
        except Unknown as x:
            rep.bad(rule, '%s: %s' % (what or shortq(f['q']), x), loc(f), 'the computation cannot be followed: %s' % x)
    return n


# ------------------------------------------------------------------ the laws

def laws(prog, rep):
    R1 = 'C17.law'
    rep.rule(R1, 'Each updateValue() stores the value of its documented law, in every case it distinguishes, from the members in force')
    n = 0
    kp, kv = var('kp_'), var('kv_')
    n += law_rule(prog, rep, R1, T + 'Proportional::Impl::updateValue', lambda A: {'value_': mul(kp, sub(R, F))}, ['value_'])
    n += law_rule(prog, rep, R1, T + 'ProportionalDerivative::Impl::updateValue', lambda A: {'value_': sub(mul(kp, sub(R, F)), mul(kv, V))}, ['value_'])
    n += law_rule(prog, rep, R1, T + 'Constant::Impl::updateValue', lambda A: {'value_': R}, ['value_'])
    n += law_rule(prog, rep, R1, T + 'None::Impl::updateValue', lambda A: {'value_': sub(R, var(('b', 'lf_')))}, ['value_'])
    n += law_rule(prog, rep, R1, T + 'Reference::Impl::updateValue', lambda A: {'value_': var(('value', 'ref_'))}, ['value_'])

    def order(A):
        return A.ask(('e', key(var('order'))), tuple(v['n'] for v in prog.enums[T + 'Order']['vals']))

    def onestep(A):
        dt = var('dt_')
        v = div(sub(R, F), dt)
        if order(A) == 'Zero':
            return None   # refused at construction
        return {'value_': v if order(A) == 'One' else mul(sub(v, V), div(const(2), dt))}
    n += law_rule(prog, rep, R1, T + 'OneStepToZero::Impl::updateValue', onestep, ['value_'])

    def ff(A):
        return {'value_': add(var('inner'), var('ff'))}
    n += law_rule(prog, rep, R1, T + 'FeedForward::Impl::updateValue', ff, ['value_'])

    TYPES = [v['n'] for v in prog.enums['tvm::constraint::Type']['vals']]

    def damper(A):
        t = A.ask(('e', key(var('type'))), tuple(TYPES))
        if t not in ('GREATER_THAN', 'LOWER_THAN'):
            return None   # a damper is for inequalities
        lower = t == 'LOWER_THAN'
        d = sub(R, F) if lower else sub(F, R)
        s = const(-1 if lower else 1)
        di, ds, a, big, dt = var('di_'), var('ds_'), var('a_'), var('big_'), var('dt_')
        far = A.sgn(sub(d, di)) > 0
        ax, act = var('axsi_'), None
        if A.ask(('b', key(var('autoXsi_'))), (True, False)):
            act = A.ask(('b', key(var('active_'))), (True, False))
            if not far and not act:
                ax = mul(a, add(div(mul(mul(s, V), sub(ds, di)), sub(d, ds)), var('xsiOff_')))
            act = not far
            # only the transitions matter: an untouched flag keeps its value
            if A.env.get('active_', None) is None:
                A.env['active_'] = A.ask(('b', key(var('active_'))), (True, False))
        e = mul(sub(d, ds), ax)
        if order(A) == 'Zero':
            return None   # cannot be built
        if order(A) == 'Two':
            e = div(sub(e, mul(s, V)), dt)
        near = neg(e) if lower else e
        r = {'value_': (big if lower else neg(big)) if far else near, 'axsi_': ax}
        r['active_'] = act if act is not None else var('active_')
        return r

    n += law_rule(prog, rep, R1, T + 'VelocityDamper::Impl::updateValue', damper, ['value_', 'axsi_', 'active_'])

    # the clamp
    def clamp(A):
        x, mx, mn = var('inner'), var('max_'), var('min_')
        lv = {a[1] for m in A.env.get('value_', {}) for a, _ in m if isinstance(a, tuple) and a[0] == 'lv'}
        if len(lv) != 1:
            raise Unknown('the scaling factor is not accumulated over one loop')
        lv = lv.pop()
        s = var(('lv', lv))
        if A.sgn(sub(x, mx)) > 0:
            q = div(mx, x)
        elif A.sgn(sub(x, mn)) < 0:
            q = div(mn, x)
        else:
            q = None
        want = s if q is None or A.sgn(sub(s, q)) <= 0 else q
        A.env['scale'] = A.trans.get(lv, s)
        return {'value_': mul(x, s), 'scale': want}

    def bounded(A):
        k1, k2 = S(sub(var('inner'), var('max_'))), S(sub(var('inner'), var('min_')))

        def sg(p):
            v = A.assign.get(S(p))
            return None if v is None else (v if lead(p)[0] > 0 else -v)
        up, lo = sg(sub(var('inner'), var('max_'))), sg(sub(var('inner'), var('min_')))
        return not (up == 1 and lo in (-1, 0) and True) and not (up == 0 and lo == -1)
    n += law_rule(prog, rep, R1, T + 'Clamped::Impl::updateValue', clamp, ['value_', 'scale'], feasible=bounded)
    rep.floor(R1, 40)


def loops(prog, rep):
    R2 = 'C17.components'
    rep.rule(R2, 'Where a law is evaluated component by component, the loop runs over all the components, from the first, and starts the accumulated factor at 1')
    n = 0
    for q in ('VelocityDamper::Impl::updateValue', 'Clamped::Impl::updateValue'):
        for f in prog.find(T + q):
            if f.get('body') is None:
                continue
            eng = Engine(prog, inline=helper(shortq(f['q']).rsplit('::', 1)[0]), fine=True)
            ps = eng.run(f)
            rep.used(eng, ps)
            seen = set()
            for p in ps:
                for t in allterms(p):
                    if t[0] == 'idx' and t not in seen:
                        seen.add(t)
                        A = alg(prog, {}, True)
                        try:
                            lo, hi = A.P(t[2]), A.P(t[3])
                        except Need:
                            lo = hi = None
                        n += 1
                        rep.ob(R2, '%s: loop' % shortq(f['q']), lo == const(0) and (hi == N or (single(hi or {}) or ('',))[0] == 'size'), loc(f),
                               'the loop over the components runs from %s to %s' % (showp(lo), showp(hi)))
                    if t[0] == 'elem' and t not in seen:
                        seen.add(t)
                        n += 1
                        rep.ob(R2, '%s: loop' % shortq(f['q']), t[1][0] in ('fld', 'obj', 'call') and A_size(prog, t[1]), loc(f), 'the loop over the components runs over %s' % show(t[1]))
                    if t[0] == 'loopvar' and t not in seen and 'Clamped' in f['q']:
                        seen.add(t)
                        rep.ob(R2, '%s: factor' % shortq(f['q']), t[3] in (('lit', '1'), ('lit', '1.0'), ('lit', '1.')), loc(f), 'the scaling factor starts at %s' % show(t[3]))
                        n += 1
    rep.floor(R2, 3)


def A_size(prog, t):
    """t has one element per component of the function."""
    try:
        return t[0] != 'call' and alg(prog, {}, True).P(('call', 'size', t, ())) == N or bn(t[1] if t[0] == 'call' else '') in ('velocity', 'value', 'rhs') or t[:1] == ('fld',) and t[2] in ('active_', 'ds_', 'di_', 'a_', 'axsi_')
    except Need:
        return False


def allterms(p):
    for e in p.flat():
        for x in (e.a, e.b, e.c):
            if isinstance(x, tuple):
                yield from subterms(x)


def subterms(x):
    if isinstance(x, tuple):
        if x and isinstance(x[0], str):
            yield x
        for y in x:
            if isinstance(y, tuple):
                yield from subterms(y)


# ------------------------------------------------------------------ gains

def kind(t):
    t = t.replace('const ', '').replace('&', '').strip()
    return 'S' if t == 'double' else 'D' if t.startswith('Eigen::Matrix<double, -1, 1') or t.endswith('VectorXd') else 'M' if t.startswith('Eigen::Matrix<double, -1, -1') or t.endswith('MatrixXd') else None


def okgain(A, name, k, n=N):
    """Decided: the gain `name` of kind k fits a function of size n."""
    if k == 'S':
        return True
    if k == 'D':
        return A.sgn(sub(var(('size', name)), n)) == 0
    return A.sgn(sub(var(('rows', name)), n)) == 0 and A.sgn(sub(var(('cols', name)), n)) == 0


def chain(t):
    """(coefficient, factors in order) of a product of matrices."""
    if t[0] == 'lit':
        return Fraction(t[1]), []
    if t[0] == 'call':
        n, o, a = bn(t[1]), t[2], t[3]
        if n == 'operator*':
            xs = ([o] if o is not None else []) + list(a)
            c, fs = Fraction(1), []
            for x in xs:
                d, g = chain(x)
                c, fs = c * d, fs + g
            return c, fs
        if n in SAME:
            return chain(o if o is not None else a[0])
        if n == 'operator-' and not a:
            c, fs = chain(o)
            return -c, fs
    if t[0] == 'op' and t[1] == '*' and len(t) > 3:
        c, fs = Fraction(1), []
        for x in t[2:]:
            d, g = chain(x)
            c, fs = c * d, fs + g
        return c, fs
    if t[0] == 'ctor' and len(t[2]) == 1:
        return chain(t[2][0])
    if t[0] == 'obj' and not t[3][1].startswith('Eigen::RealSchur'):
        return chain(t[3])
    return Fraction(1), [t]


def schur(t, name, arg):
    """t is dec.<name>() for a real Schur (or symmetric eigen) decomposition of arg."""
    if t[0] == 'call' and bn(t[1]) == name and t[2] is not None and not t[3]:
        o = t[2]
        if o[0] == 'obj':
            o = o[3]
        return o[0] == 'ctor' and ('RealSchur' in o[1] or 'SelfAdjointEigenSolver' in o[1]) and o[2] and o[2][0] == arg
    return False


def critical(t, arg):
    """t = 2 U sqrt(D) U' for arg = U D U'."""
    c, fs = chain(t)
    if c != 2 or len(fs) != 3:
        return False

    def isU(x):
        return schur(x, 'matrixU', arg) or schur(x, 'eigenvectors', arg)

    def isUt(x):
        return x[0] == 'call' and bn(x[1]) in ('transpose', 'adjoint') and isU(x[2])

    def isD(x):
        while x[0] == 'call' and bn(x[1]) in SAME and x[2] is not None:
            x = x[2]
        if x[0] == 'call' and bn(x[1]) in ('cwiseSqrt', 'sqrt') and x[2] is not None:
            d = x[2]
            while d[0] == 'call' and bn(d[1]) in SAME and d[2] is not None:
                d = d[2]
            return schur(d, 'eigenvalues', arg) or (d[0] == 'call' and bn(d[1]) == 'diagonal' and schur(d[2], 'matrixT', arg))
        return False
    return isU(fs[0]) and isD(fs[1]) and isUt(fs[2])


def stored(p, x):
    """Term of the last value stored in the variant member x."""
    r = None
    for e in p.flat():
        if e.kind == 'write' and e.a == ('fld', ('this',), x):
            r = e.b
        elif e.kind == 'call' and e.b == ('fld', ('this',), x) and bn(e.a) in ('operator=', 'emplace') and e.c:
            r = e.c[-1]
    while r is not None and r[0] == 'ctor' and ('variant' in r[1] or 'Matrix' in r[1]):
        xs = [y for y in r[2] if y[0] != 'global']
        if len(xs) != 1:
            break
        r = xs[0]
    return r


def gains(prog, rep):
    R3 = 'C17.gains'
    rep.rule(R3, 'Each gain setter and constructor stores exactly the gains it is given (critical damping kv = 2 sqrt(kp) when only the stiffness is), setters refuse gains that do not fit the function, and a refusal changes nothing')
    n = 0
    for q, members in (('Proportional::Impl::gain', ['kp_']), ('ProportionalDerivative::Impl::gains', ['kp_', 'kv_']),
                       ('Proportional::Proportional', ['kp_']), ('ProportionalDerivative::ProportionalDerivative', ['kp_', 'kv_'])):
        cls = T + q.rsplit('::', 1)[0]
        for f in prog.find(T + q, must=True):
            if f.get('body') is None or not f['params'] or any(kind(a['t']) is None for a in f['params']):
                continue
            ks = [kind(a['t']) for a in f['params']]
            terms = Engine(prog).param_terms(f['params'])
            ctor = 'Impl' not in q
            inst = '%s(%s)' % (shortq(f['q']), ', '.join(ks))
            eng = Engine(prog, inline=helper(cls), fine=True)
            ps = eng.run(f)
            rep.used(eng, ps)

            def law(A):
                for t, k in zip(terms, ks):
                    if not ctor and not okgain(A, t[1], k):
                        return 'throw'
                return 'ok'
            try:
                for a, p, A, L in replays(prog, f, ps, law=law):
                    n += 1
                    i = '%s: %s' % (inst, case(a))
                    if p.exit == 'throw':
                        ch = [e for e in p.flat() if (e.kind == 'write' and root(e.a) == ('this',)) or
                              (e.kind == 'call' and e.b is not None and e.b[0] == 'fld' and e.b[1] == ('this',) and bn(e.a) in ('operator=', 'emplace'))]
                        rep.ob(R3, i, L == 'throw' and not ch, loc(f), 'a valid gain is refused' if L != 'throw' else 'a member is changed before the refusal' if ch else 'refused')
                        continue
                    if L == 'throw':
                        rep.bad(R3, i, loc(f), 'a gain that does not fit the function is accepted')
                        continue
                    for j, m in enumerate(members):
                        s = stored(p, m)
                        if j < len(terms):
                            rep.ob(R3, i + ' ' + m, s is not None and peel(s) == terms[j], loc(f), '%s receives %s, expected the argument' % (m, show(s) if s else 'nothing'))
                        else:
                            if ks[0] == 'M':
                                ok = s is not None and critical(s, terms[0])
                            else:
                                try:
                                    A2 = alg(prog, a)
                                    ok = s is not None and A2.P(s) == mul(const(2), powhalf(var(terms[0][1])))
                                except (Need, Unknown):
                                    ok = False
                            rep.ob(R3, i + ' ' + m, ok, loc(f), '%s receives %s, which is not the critical damping of kp' % (m, show(s)[:200] if s else 'nothing'))
            except Unknown as x:
                rep.bad(R3, inst, loc(f), 'cannot be followed: %s' % x)
    rep.floor(R3, 40)


def peel(t):
    while t[0] == 'ctor' and len(t[2]) == 1:
        t = t[2][0]
    return t


# ------------------------------------------------------------------ parameters

def ctor_rule(prog, rep, rule, q, pick, law, fields, assign=None, feasible=None, tag=''):
    """A constructor refuses exactly what `law` refuses and stores what it says."""
    n = 0
    fs = [f for f in prog.find(q, must=True) if f.get('body') is not None and pick(f)]
    if not fs:
        raise AnalysisBroken('anchor vanished: %s %s' % (q, tag))
    for f in fs:
        inst = '%s(%s)' % (shortq(f['q']), ', '.join(a['n'] for a in f['params']))
        eng = Engine(prog, inline=helper(shortq(f['q']).rsplit('::', 1)[0]), fine=True)
        ps = eng.run(f)
        rep.used(eng, ps)
        try:
            for a, p, A, L in replays(prog, f, ps, assign, law=lambda A: law(A, f)):
                if L is None or (feasible and not feasible(a)):
                    continue
                n += 1
                i = '%s: %s' % (inst, case(a))
                if p.exit == 'throw' or L == 'throw':
                    rep.ob(rule, i, p.exit == 'throw' and L == 'throw', loc(f), 'valid parameters are refused' if p.exit == 'throw' else 'unusable parameters are accepted')
                    continue
                for x in fields:
                    if x in L:
                        got = A.env.get(x)
                        rep.ob(rule, i + ' ' + x, got == L[x], loc(f), '%s is %s, expected %s' % (x, showp(got) if got is not None else 'left unset', showp(L[x])))
        except Unknown as x:
            rep.bad(rule, inst, loc(f), 'cannot be followed: %s' % x)
    return n


def pnames(f):
    return [a['n'] for a in f['params']]


def parameters(prog, rep):
    R4 = 'C17.parameters'
    rep.rule(R4, 'Constructors store the parameters they are given and refuse the ones for which the law is meaningless: sizes that do not match the function, non-positive time steps or bounds, di <= ds, negative distances or dampings, mixed automatic damping, bounds of the wrong sign, unsupported orders')
    ND = T + 'VelocityDamper::'

    terms = {}

    def nth(f, i):
        if f['fid'] not in terms:
            terms[f['fid']] = Engine(prog).param_terms(f['params'])
        return var(terms[f['fid']][i][1])

    # VelocityDamper::Config
    def config(A, f):
        di, ds, xsi, off = (nth(f, i) for i in range(4))
        if A.sgn(sub(di, ds)) <= 0 or A.sgn(ds) < 0 or A.sgn(xsi) < 0 or A.sgn(off) < 0:
            return 'throw'
        return {'di_': di, 'ds_': ds, 'xsi_': xsi, 'xsiOff_': off}
    ctor_rule(prog, rep, R4, ND + 'Config::Config', lambda f: len(f['params']) == 4, config, ['di_', 'ds_', 'xsi_', 'xsiOff_'])

    # VelocityDamper::AnisotropicConfig
    def aniso(A, f):
        di, ds, xsi = (nth(f, i) for i in range(3))
        off = var(('value_or', single(nth(f, 3)), '0'))

        def size(p):
            return var(('size', single(p)))
        if any(A.sgn(sub(size(di), size(x))) != 0 for x in (ds, xsi, off)):
            return 'throw'

        def some(test):
            for c in (0, 1):
                old, A.comp = A.comp, c
                r = test()
                A.comp = old
                if r:
                    return True
            return False

        def both(test):
            return not some(lambda: not test())
        if some(lambda: A.sgn(sub(di, ds)) <= 0) or some(lambda: A.sgn(ds) < 0) or some(lambda: A.sgn(xsi) < 0):
            return 'throw'
        if some(lambda: A.sgn(xsi) == 0) and not both(lambda: A.sgn(xsi) == 0):
            return 'throw'
        if some(lambda: A.sgn(off) < 0):
            return 'throw'
        return {'di_': di, 'ds_': ds, 'xsi_': xsi, 'xsiOff_': off}
    ctor_rule(prog, rep, R4, ND + 'AnisotropicConfig::AnisotropicConfig', lambda f: len(f['params']) == 4, aniso, ['di_', 'ds_', 'xsi_', 'xsiOff_'])

    def scalar(A, f):
        c = single(nth(f, 0))
        A.done = True
        return {x: var((str(c), x)) for x in ('di_', 'ds_', 'xsi_')}

    def one(a):   # the vectors have one and the same component
        sizes = [k for k in a if k[0] == 's' and any('size' in str(x) for x in k[1])]
        return all(a[k] == 0 for k in sizes) and all(a.get(k[:-1] + (1 - k[-1],), a[k]) == a[k] for k in a if len(k) == 3)

    def scalar_ok(A, f):
        c = str(single(nth(f, 0)))
        return {x: var((c, x)) for x in ('di_', 'ds_', 'xsi_')}
    fs = [f for f in prog.find(ND + 'AnisotropicConfig::AnisotropicConfig') if len(f['params']) == 1 and f.get('body') is not None and 'AnisotropicConfig' not in f['params'][0]['t']]
    for f in fs:
        eng = Engine(prog, inline=helper(ND + 'AnisotropicConfig'), fine=True)
        ps = eng.run(f)
        rep.used(eng, ps)
        c = str(single(nth(f, 0)))
        hit = False
        for p in ps:
            if p.exit == 'throw':
                continue
            hit = True
            A = alg(prog, {})
            A.replay(p.ev)
            for x in ('di_', 'ds_', 'xsi_'):
                rep.ob(R4, 'AnisotropicConfig(Config) ' + x, A.env.get(x) == var((c, x)), loc(f), '%s is %s' % (x, showp(A.env.get(x))))
            g = A.env.get('xsiOff_')
            s = single(g) if isinstance(g, dict) else None
            rep.ob(R4, 'AnisotropicConfig(Config) xsiOff_', s in ((c, 'xsiOff_'), ('value_or', (c, 'xsiOff_'), '0')), loc(f), 'xsiOff_ is %s' % showp(g))
        rep.ob(R4, 'AnisotropicConfig(Config)', hit, loc(f), 'no way of returning')
    rep.ob(R4, 'AnisotropicConfig(Config) exists', bool(fs), '', 'vanished')

    # VelocityDamper
    def conf(A, i, f):
        nth(f, i)
        return str(single(A.P(terms[f['fid']][i])))

    def damper(A, f):
        k = len(f['params']) - 2
        c = conf(A, k, f)
        if k:
            dt = nth(f, 0)
            if A.sgn(dt) <= 0:
                return 'throw'
        else:
            dt = const(0)
        big = nth(f, k + 1)
        if A.sgn(big) <= 0:
            return 'throw'
        auto = A.sgn(var(('at', (c, 'xsi_'), '0'))) == 0
        return {'dt_': dt, 'big_': big, 'autoXsi_': auto, 'di_': var((c, 'di_')), 'ds_': var((c, 'ds_')), 'xsi_': var((c, 'xsiOff_' if auto else 'xsi_'))}
    ctor_rule(prog, rep, R4, ND + 'VelocityDamper', lambda f: len(f['params']) in (2, 3) and 'Config' in f['params'][-2]['t'], damper, ['dt_', 'big_', 'autoXsi_', 'di_', 'ds_', 'xsi_'])

    def base(A, f, order=None):
        """What every implementation checks and stores."""
        if A.sgn(sub(N, var(('size', 'rhs')))) != 0:
            return 'throw'
        if not A.ask(('b', key(var(('isEuclidean', ('imageSpace', 'fun'))))), (True, False)):
            return 'throw'
        return {'type_': var('t'), 'rhs_': var('rhs'), 'f_': var('fun')}
    FUN = {('b', key(var('fun'))): True}
    ENUM = prog.enums[T + 'Order']['vals']

    def fits(A, x, strict=True):
        """The parameter x is a single value or has the size of the function."""
        return A.sgn(sub(var(('size', x)), const(1))) == 0 or A.sgn(sub(var(('size', x)), N)) == 0

    def damperimpl(A, f):
        b = base(A, f)
        if b == 'throw':
            return b
        ns = pnames(f)
        di, ds, xsi, auto = 'di', 'ds', 'xsi', 'autoXsi'
        if not all(fits(A, x) for x in (ds, di, xsi)):
            return 'throw'
        b.update({'di_': var(di), 'ds_': var(ds), 'big_': var('big'), 'a_': neg(inv(sub(var(di), var(ds)))), 'dt_': var('dt') if 'dt' in ns else const(0),
                  'order_': var(('enum', T + 'Order::' + ('Two' if 'dt' in ns else 'One'))), 'autoXsi_': var(auto)})
        if A.truth(('param', auto)):
            b['xsiOff_'] = var(xsi)
            b['axsi_'] = const(1)
        else:
            b['axsi_'] = mul(b['a_'], var(xsi))
        return b
    ctor_rule(prog, rep, R4, ND + 'Impl::Impl', lambda f: len(f['params']) >= 8, damperimpl,
              ['f_', 'type_', 'rhs_', 'di_', 'ds_', 'a_', 'big_', 'dt_', 'order_', 'autoXsi_', 'xsiOff_', 'axsi_'], FUN)

    def variant(A, m):
        i = A.ask(('i', ('index', m)), (0, 1, 2))
        return okgain(A, m, 'SDM'[i])

    def pimpl(A, f):
        b = base(A, f)
        if b == 'throw' or not variant(A, 'kp'):
            return 'throw'
        return dict(b, kp_=var('kp'), order_=var(('enum', T + 'Order::One')))
    ctor_rule(prog, rep, R4, T + 'Proportional::Impl::Impl', lambda f: len(f['params']) == 4, pimpl, ['f_', 'type_', 'rhs_', 'kp_', 'order_'], FUN)

    def pdimpl(A, f):
        b = base(A, f)
        if b == 'throw' or not variant(A, 'kp') or not variant(A, 'kv'):
            return 'throw'
        return dict(b, kp_=var('kp'), kv_=var('kv'), order_=var(('enum', T + 'Order::Two')))
    ctor_rule(prog, rep, R4, T + 'ProportionalDerivative::Impl::Impl', lambda f: len(f['params']) == 5, pdimpl, ['f_', 'type_', 'rhs_', 'kp_', 'kv_', 'order_'], FUN)

    # OneStepToZero
    def stepok(A, d, dt):
        o = A.ask(('e', key(var(d))), tuple(v['n'] for v in ENUM))
        return o in ('One', 'Two') and A.sgn(var(dt)) > 0

    def step(A, f):
        d, dt = (single(nth(f, i)) for i in (0, 1))
        return {'d_': var(d), 'dt_': var(dt)} if stepok(A, d, dt) else 'throw'
    ctor_rule(prog, rep, R4, T + 'OneStepToZero::OneStepToZero', lambda f: len(f['params']) == 2, step, ['d_', 'dt_'])

    def stepimpl(A, f):
        d, dt = (single(nth(f, i)) for i in (3, 4))
        b = base(A, f)
        if b == 'throw' or not stepok(A, d, dt):
            return 'throw'
        return dict(b, dt_=var(dt), order_=var(d))
    ctor_rule(prog, rep, R4, T + 'OneStepToZero::Impl::Impl', lambda f: len(f['params']) == 5, stepimpl, ['f_', 'type_', 'rhs_', 'order_', 'dt_'], FUN)

    # Reference
    def refimpl(A, f):
        o, r = (single(nth(f, i)) for i in (3, 4))
        b = base(A, f)
        if b == 'throw' or not A.ask(('b', key(var(r))), (True, False)):
            return 'throw'
        return dict(b, order_=var(o), ref_=var(r))
    ctor_rule(prog, rep, R4, T + 'Reference::Impl::Impl', lambda f: len(f['params']) == 5, refimpl, ['f_', 'type_', 'rhs_', 'order_', 'ref_'], FUN)
    for q, o in (('ReferenceVelocity', 'One'), ('ReferenceAcceleration', 'Two')):
        ctor_rule(prog, rep, R4, T + q + '::' + q, lambda f: len(f['params']) == 1 and q not in f['params'][0]['t'],
                  lambda A, f, o=o: {'refOrder_': var(('enum', T + 'Order::' + o)), 'ref_': nth(f, 0)}, ['refOrder_', 'ref_'])
    ctor_rule(prog, rep, R4, T + 'Reference::Reference', lambda f: len(f['params']) == 2, lambda A, f: {'refOrder_': nth(f, 0), 'ref_': nth(f, 1)}, ['refOrder_', 'ref_'])

    # Constant, None
    ctor_rule(prog, rep, R4, T + 'Constant::Impl::Impl', lambda f: len(f['params']) == 3,
              lambda A, f: (lambda b: b if b == 'throw' else dict(b, value_=var('rhs'), order_=var(('enum', T + 'Order::Zero'))))(base(A, f)), ['f_', 'type_', 'rhs_', 'value_', 'order_'], FUN)

    # Clamped, FeedForward
    def clamped(A, f):
        a0 = f['params'][0]
        p0 = single(nth(f, 0))
        if 'pair' in a0['t']:
            mn, mx = var((p0, 'first')), var((p0, 'second'))
        else:
            mx = var(p0)
            mn = neg(mx)
        scal = 'double' in a0['t'] and 'Matrix' not in a0['t']
        if not scal:
            def size(p):
                s = single(p)
                return var(('size', s if s is not None else ('val', key(p))))
            if A.sgn(sub(size(mn), size(mx))) != 0:
                return 'throw'
        for c in ((None,) if scal else (0, 1)):
            old, A.comp = A.comp, c
            bad = A.sgn(mn) > 0 or A.sgn(mx) < 0
            A.comp = old
            if bad:
                return 'throw'
        return {'min_': mn, 'max_': mx}
    fs = [f for f in prog.find(T + 'Clamped::Clamped') if f['params'] and 'Clamped' not in f['params'][0]['t']]
    ctor_rule(prog, rep, R4, T + 'Clamped::Clamped', lambda f: f in fs, clamped, ['min_', 'max_'])

    def inner(a, ff=True):   # the dynamics that is wrapped accepts its own arguments
        def fill(m):   # a scalar bound is expanded to the size of the function
            return a.get(S(sub(var(('size', m)), N)), 0) == 0 or a.get(('i', ('index', m)), 1) == 1
        return fill('min') and fill('max') and all(v == 0 for k, v in a.items() if k[0] == 's' and ("'args" in repr(k) or ff and "'ff'" in repr(k)))

    def clampedimpl(A, f):
        b = base(A, f)
        if b == 'throw':
            return b
        mn, mx = single(nth(f, 3)), single(nth(f, 4))
        for m in (mn, mx):
            i = A.ask(('i', ('index', m)), (0, 1))
            if i == 1 and A.sgn(sub(var(('size', m)), N)) != 0:
                return 'throw'
        for c in (0, 1):
            old, A.comp = A.comp, c
            bad = A.sgn(var(mn)) > 0 or A.sgn(var(mx)) < 0
            A.comp = old
            if bad:
                return 'throw'
        return dict(b, min_=var(mn), max_=var(mx))
    ctor_rule(prog, rep, R4, T + 'Clamped::Impl::Impl', lambda f: len(f['params']) >= 6, clampedimpl, ['f_', 'type_', 'rhs_', 'min_', 'max_'], FUN, inner)

    def ffimpl(A, f):
        b = base(A, f)
        if b == 'throw':
            return b
        if A.sgn(sub(var(('size', 'ff')), N)) != 0:
            return 'throw'
        return dict(b, feedForward_=nth(f, 3))
    ctor_rule(prog, rep, R4, T + 'FeedForward::Impl::Impl', lambda f: len(f['params']) >= 6, ffimpl, ['f_', 'type_', 'rhs_', 'feedForward_'], FUN, lambda a: inner(a, False))
    rep.floor(R4, 150)


# ------------------------------------------------------------------ factories

#: what the implementation keeps <- what the descriptor keeps
KEEP = {'Proportional': {'kp_': 'kp_'}, 'ProportionalDerivative': {'kp_': 'kp_', 'kv_': 'kv_'}, 'OneStepToZero': {'order_': 'd_', 'dt_': 'dt_'},
        'Reference': {'order_': 'refOrder_', 'ref_': 'ref_'}, 'Constant': {}, 'None': {},
        'VelocityDamper': {'di_': 'di_', 'ds_': 'ds_', 'big_': 'big_', 'autoXsi_': 'autoXsi_'},
        'Clamped': {'min_': 'min_', 'max_': 'max_'}, 'FeedForward': {'feedForward_': 'feedForward_'}}


def factories(prog, rep):
    R5 = 'C17.factory'
    rep.rule(R5, 'impl_() of a task dynamics, called directly or through a composed one, builds an implementation for the function, type and right-hand side it is given, that holds the parameters of the descriptor, and of the order the descriptor announces')
    n = 0
    for d, keep in KEEP.items():
        q = T + d
        for f in prog.find(q + '::impl_', must=True):
            if f.get('body') is None:
                continue
            inst = '%s -> ' % shortq(f['q'])
            eng = Engine(prog, inline=helper(q), fine=True)
            ps = eng.run(f)
            rep.used(eng, ps)
            for p in ps:
                r = p.ret
                while r is not None and r[0] in ('ctor', 'obj') and r[0] == 'ctor' and len(r[2]) == 1:
                    r = r[2][0]
                if p.exit == 'throw':
                    rep.bad(R5, inst, loc(f), 'the factory throws')
                    continue
                if r is not None and r[0] == 'call' and bn(r[1]) == 'impl_':   # a composed dynamics: passed to the wrapped one, after the members of this one
                    args = list(r[3])
                    terms = Engine(prog).param_terms(f['params'])
                    want = [t for t in terms] + [('fld', ('this',), m) for m in OWN.get(d, ())]
                    n += 1
                    rep.ob(R5, inst + shortq(r[1]) + ' ' + f['fid'][-60:], args == want and r[2] == ('this',), loc(f),
                           'hands over (%s), expected (%s)' % (', '.join(show(x) for x in args), ', '.join(show(x) for x in want)))
                    continue
                if r is None or r[0] != 'new':
                    rep.bad(R5, inst, loc(f), 'does not build an implementation: %s' % show(r)[:200] if r else 'returns nothing')
                    continue
                n += built(prog, rep, R5, d, f, p, r, inst)
    # composed dynamics keep the order of the one they wrap; others announce the order of their implementation
    for d, keep in KEEP.items():
        if d in OWN:
            continue
        for f in prog.find(T + d + '::order_', must=True):
            eng = Engine(prog, fine=True)
            ps = eng.run(f)
            rep.used(eng, ps)
            for p in ps:
                A = alg(prog, {})
                r = p.ret
                want = ORDER[d]
                if callable(want):
                    want = want(p)
                n += 1
                rep.ob(R5, '%s::order_' % d, r == want, loc(f), 'announces %s, its implementation is of order %s' % (show(r), show(want) if want else '?'))
    for d in ('Clamped', 'FeedForward'):
        own = [f for f in prog.find(T + d + '::order_', must=False) if f.get('body') is not None]
        rep.ob(R5, '%s::order_' % d, not own, loc(own[0]) if own else '', 'a composed dynamics has the order of the one it wraps')
    rep.floor(R5, 40)


OWN = {'Clamped': ('min_', 'max_'), 'FeedForward': ('feedForward_', 'addProviderDependency_')}


def _o(n):
    return ('enum', T + 'Order::' + n)


def _damper(p):
    for c, v in p.hist.items():
        if c == ('op', '<', ('lit', '0'), ('fld', ('this',), 'dt_')):
            return _o('Two' if v else 'One')
    return ('cond?',)


ORDER = {'Proportional': _o('One'), 'ProportionalDerivative': _o('Two'), 'OneStepToZero': ('fld', ('this',), 'd_'), 'Reference': ('fld', ('this',), 'refOrder_'),
         'Constant': _o('Zero'), 'None': _o('Zero'), 'VelocityDamper': _damper}


def built(prog, rep, rule, d, f, p, r, inst):
    """The implementation built by term r on route p holds the parameters of the descriptor d."""
    cls = r[1].split(', std::default_delete')[0].strip()
    args = list(r[2])
    ctors = [g for g in prog.find(cls.split('<')[0] + ('::Impl' if '<' in cls else '') + '::Impl') if g.get('body') is not None]
    ctors = [g for g in ctors if g['q'].rsplit('::', 1)[0].replace(' ', '') == cls.replace(' ', '') and len(g['params']) == len(args)]
    terms = Engine(prog).param_terms(f['params'])
    if len(ctors) > 1:   # overloads: by the types of the members
        def fits(g):
            for a, t in zip(g['params'], args):
                if t[0] == 'fld' and t[1] == ('this',):
                    m = next((x for x in prog.record(T + d)['fields'] if x['n'] == t[2]), None)
                    if m and kind(m['t']) and kind(a['t']) and kind(m['t']) != kind(a['t']):
                        return False
            return True
        ctors = [g for g in ctors if fits(g)]
    i = inst + shortq(cls)
    if not ctors:
        rep.bad(rule, i, loc(f), 'no constructor of %s takes these %d arguments' % (cls, len(args)))
        return 1
    g = ctors[0]
    eng = Engine(prog, inline=helper(shortq(g['q']).rsplit('::', 1)[0]), fine=True)
    gs = eng.run(g)
    rep.used(eng, gs)
    gt = Engine(prog).param_terms(g['params'])
    n = 0
    seen = set()
    first = alg(prog, {})
    params = {}
    for t, a in zip(gt, args):
        # the members of the descriptor are the quantities here
        params[t[1]] = var(('own', a[2])) if a[0] == 'fld' and a[1] == ('this',) else first.P(a)
    wants = {x: var(('own', m)) for x, m in KEEP[d].items()}
    wrapped = [k for k in OWN if T + k + '<' in cls]
    for ex in (('f_', 0), ('type_', 1), ('rhs_', 2)):
        wants[ex[0]] = first.P(terms[ex[1]])
    if len(terms) > 3 and wrapped:   # parameters of the dynamics wrapped around this one, outermost first
        outer = cls[len(T):].split('<')[0]
        for x, t in zip(OWN[outer], terms[3:]):
            if x in ('min_', 'max_', 'feedForward_'):
                wants[x] = var(t[1])
    for gp in gs:
        if gp.exit == 'throw':
            continue

        def run(a):
            A = alg(prog, a, False, params)
            A.replay(e for e in gp.ev if e.kind == 'write' and e.op == 'init')
            if not A.holds(gp.hist):
                return None
            A.replay(gp.ev)
            return A
        try:
            for a, A in branches(run, {('b', key(first.P(terms[0]))): True}):
                if A is None:
                    continue
                if d == 'VelocityDamper':
                    if A.truth(('param', gt[[x['n'] for x in g['params']].index('autoXsi')][1])):
                        wants['xsiOff_'], wants['axsi_'] = var(('own', 'xsi_')), const(1)
                    else:
                        wants.pop('xsiOff_', None)
                        wants['axsi_'] = mul(neg(inv(sub(var(('own', 'di_')), var(('own', 'ds_'))))), var(('own', 'xsi_')))
                    two = any(c == ('op', '<', ('lit', '0'), ('fld', ('this',), 'dt_')) and v for c, v in p.hist.items())
                    wants['dt_'] = var(('own', 'dt_')) if two else const(0)
                    wants['order_'] = var(_o('Two' if two else 'One'))
                elif 'order_' not in wants and d in ORDER:
                    wants['order_'] = var(ORDER[d])
                for x, w in wants.items():
                    n += 1
                    k = (x, showp(A.env.get(x)), case(a))
                    if k in seen:
                        continue
                    seen.add(k)
                    rep.ob(rule, '%s %s: %s' % (i, x, case(a)), A.env.get(x) == w, loc(f), '%s holds %s, expected %s' % (x, showp(A.env.get(x)), showp(w)))
        except Unknown as x:
            rep.bad(rule, i, loc(f), 'cannot be followed: %s' % x)
    rep.ob(rule, i, n > 0, loc(f), 'no way of building it')
    return n


RULES = [laws, loops, gains, parameters, factories]
