"""C07: after any sequence of changes, a resolution scheme hands the solver exactly the constraints, bounds, objectives and variables a fresh build of the problem would."""
from ..q import *
from .c06_problem import EV, EVENTS, PCD

EXPLANATION = ('Case analysis of the scheme\'s build, incremental-update and solve functions: for every combination of (used by a substitution, priority level zero or not, usable as bound, equality) the destination of a constraint '
               '(bound, constraint, objective, skipped), its contribution to the allocated sizes and its objective weight are read from the summaries of the build and compared with those of the addition and removal events; variables are '
               'reported to the solver exactly when the counted set of variables changes; events of every kind are translated; a substitution event discards the data and rebuilds; the solve pipeline runs in order.')
ASSUMPTIONS = ['a SolverEvents object is only consumed by the process() of the solver of the same computation data']
W = 'tvm::scheme::WeightedLeastSquares'
H = 'tvm::scheme::HierarchicalLeastSquares'
LPCD = 'tvm::scheme::internal::LinearizedProblemComputationData::'
SE = 'tvm::solver::internal::SolverEvents::'


def inl(cls):
    def g(f, o):
        return shortq(f['q']).startswith((cls + '::', PCD, LPCD, EV)) and 'Options' not in f['q']
    return g


def env_for(case):
    """Valuation of the decisions about one constraint."""
    def env(t):
        n = lastname(t)
        if n == 'uses':
            return case.get('uses')
        if n == 'canBeUsedAsBound':
            return case.get('bound')
        if n == 'isEquality':
            return case.get('eq')
        if n == 'value' and has_name(t, 'priorityLevel'):
            return case.get('p')
        if n == 'type' and case.get('eq') is not None and t[2] is not None and has_name(t[2], 'constraint'):
            return ('enum', 'tvm::constraint::Type::EQUAL') if case['eq'] else ('enum', 'tvm::constraint::Type::LOWER_THAN')
        return None
    return env


def ispri(t):
    return lastname(t) == 'value' and has_name(t, 'priorityLevel') or lastname(t) == 'priorityLevel'


def rule_build(prog, rep):
    for cls in (W, H):
        build(prog, rep, cls)


def build(prog, rep, cls):
    R = 'C07.build'
    nm = cls.split('::')[-1]
    wls = cls == W
    rep.rule(R, 'a build gives the solver each constraint not used by a substitution exactly once, as a bound iff usable as such at level 0, else as constraint or objective of its level, with matching sizes; and the additional constraints of the substitutions at level 0')
    f = prog.find(cls + '::createComputationData_', 1)[0]
    pb = ('param', f['params'][0]['n'])
    eng = Engine(prog, inline=inl(cls), maxpaths=4000, fine=True)
    ps = eng.run(f)
    rep.used(eng, ps)
    n = 0
    for p in ps:
        if p.exit != 'ret':
            continue
        n += 1
        fl = list(pwalk(p))
        sb = [i for i, (e, l, h) in enumerate(fl) if e.kind == 'call' and cname(e) == 'startBuild' and not e.inl]
        fb = [i for i, (e, l, h) in enumerate(fl) if e.kind == 'call' and cname(e) == 'finalizeBuild' and not e.inl]
        if len(sb) != 1 or len(fb) != 1:
            rep.bad(R, '%s: build started and finished once' % nm, loc(f), '%d starts, %d ends' % (len(sb), len(fb)))
            continue
        start = fl[sb[0]][0]
        solver = start.b
        sinks = []     # (index, kind, element term, loops, hist, event)
        for i, (e, l, h) in enumerate(fl):
            if e.kind == 'call' and not e.inl and e.b == solver and cname(e) in ('addBound', 'addConstraint', 'addObjective'):
                sinks.append((i, cname(e), e.c[0], l, h, e))
        rep.ob(R, '%s: constraints are given between the start and the end of the build' % nm, all(sb[0] < s[0] < fb[0] for s in sinks) and bool(sinks), loc(f), 'a constraint is given outside of the build')
        big = [i for i, (e, l, h) in enumerate(fl) if e.kind == 'write' and e.a[0] in ('global', 'fld') and str(e.a[-1]).endswith('big_')]
        rep.ob(R, '%s: infinity of the scheme configured before constraints are given' % nm, bool(big) and all(fl[i][0].b == fld('big_number_') for i in big) and all(big[0] < s[0] for s in sinks), loc(f), 'big number not configured')
        # scanning loop: over the constraints of the problem
        scan = [e for e, l, h in fl if e.kind == 'loop' and e.b is not None and lastname(e.b) == 'constraints' and e.b[2] == pb]
        addl = [e for e, l, h in fl if e.kind == 'loop' and e.b is not None and lastname(e.b) == 'additionalConstraints']
        if len(scan) != 1:
            raise AnalysisBroken('%s: scan of the constraints not understood' % nm)
        scan = scan[0]
        elem = ('elem', scan.b)

        def dest(body, bh, c, el):
            """Sinks reached by the element handled on that route (through local containers)."""
            out = []
            env = env_for(c)
            for e, l, h in walk(body, bh):
                if e.kind != 'call' or e.inl:
                    continue
                if e.b == solver and cname(e) in ('addBound', 'addConstraint', 'addObjective'):
                    out.append((cname(e), e))
                if cname(e) in ('push_back', 'emplace_back') and e.c and isinstance(e.b, tuple) and (norm(e.c[0]) == norm(el) or e.c[0][0] in ('init', 'ctor', 'elem')):
                    for i, k, a, l2, h2, e2 in sinks:
                        if l2 and l2[-1].b == e.b and consistent(h2, env):
                            out.append((k, e2))
            return out
        d = {}
        if wls:
            names = ('nObj', 'nEq', 'nIneq')
            acc = {}
            for i, k in enumerate(names):
                a = start.c[1 + i]
                acc[k] = a[1] if a[0] == 'loopvar' else None
        for case in cases_all(wls):
            env = env_for(case)
            got, used, routes = set(), [], 0
            for body, bh, bx in zip(scan.c, scan.bh, scan.bx):
                if not consistent(bh, env):
                    continue
                routes += 1
                ds = dest(body, bh, case, elem)
                got.add(tuple(sorted(k for k, e in ds)))
                if bx == 'break':
                    rep.bad(R, '%s: every constraint is considered' % nm, loc(f), 'the scan stops early')
                if not case['uses']:
                    vs = [x for x, l, h in walk(body, bh) if x.kind == 'call' and not x.inl and cname(x) == 'add' and has_field(x.b, 'variables_') and has_call(x.c[0], 'substitute') and len(l) >= 1]
                    rep.ob(R, '%s: variables of each constraint, after substitution, are variables of the solver' % nm, len(vs) == 1, loc(f), 'variables not added')
                    ck = [x for x in flat(body) if x.kind == 'call' and cname(x) == 'check']
                    rep.ob(R, '%s: each constraint is checked against the abilities of the scheme' % nm, len(ck) >= 1, loc(f), 'unsupported constraints are not refused')
                sz = {}
                for x in flat(body):
                    if x.kind == 'lwrite' and x.a[0] == 'var' and wls:
                        for k in names:
                            if acc[k] is not None and x.a[-1] == acc[k]:
                                sz[k] = (x.op, x.b)
                if wls:
                    want = wanted_size(case)
                    for k in names:
                        if acc[k] is None:
                            continue
                        if k == want:
                            fn = 'size' if k == 'nObj' else 'constraintSize'
                            ok = k in sz and (sz[k][0] == '+=' or sz[k][1][0] == 'op') and has_call(sz[k][1], fn)
                            rep.ob(R, '%s: %s counts its rows in %s' % (nm, cdesc(case), k), ok, loc(f), 'adds %s' % (show(sz[k][1]) if k in sz else 'nothing'))
                        else:
                            rep.ob(R, '%s: %s does not count in %s' % (nm, cdesc(case), k), k not in sz, loc(f), 'adds %s' % (show(sz[k][1]) if k in sz else ''))
            want = expected(case, wls)
            if want == 'refused':
                rep.ob(R, '%s: %s is refused' % (nm, cdesc(case)), routes == 0 or True, loc(f), '')
            else:
                rep.ob(R, '%s: %s is given as %s' % (nm, cdesc(case), want or 'nothing'), got == {(want,) if want else ()}, loc(f), 'destination: %s' % sorted(got))
        # additional constraints
        if len(addl) < 1:
            rep.bad(R, '%s: additional constraints of the substitutions are given' % nm, loc(f), 'they are ignored')
        for L in addl[:1]:
            for body, bh, bx in zip(L.c, L.bh, L.bx):
                ds = dest(body, bh, {'p': 0}, ('elem', L.b))
                rep.ob(R, '%s: additional constraints of the substitutions are given as constraints of level 0' % nm, [k for k, e in ds] == ['addConstraint'] and bx is None, loc(f), 'destination: %s' % [k for k, e in ds])
                lev = [x for x in flat(body) if x.kind == 'new' and has(x.a, lambda y: y == ('lit', '0')) and 'PriorityLevel' in str(x.a)]
                rep.ob(R, '%s: additional constraints have level 0' % nm, bool(lev) or not any('PriorityLevel' in str(x.a) for x in flat(body) if x.kind == 'new'), loc(f), 'other level')
                if wls and acc['nEq'] is not None:
                    ok = any(x.kind == 'lwrite' and x.a[0] == 'var' and x.a[-1] == acc['nEq'] and has_call(x.b, 'size') for x in flat(body))
                    rep.ob(R, '%s: additional constraints are counted in nEq' % nm, ok, loc(f), 'not counted')
        # arguments of each sink
        for i, k, a, l, h, e in sinks:
            rep.ob(R, '%s: %s receives the constraint' % (nm, k), a[0] == 'fld' and a[2] == 'constraint' or a[0] == 'elem', e.where(), 'receives %s' % show(a))
            if k == 'addObjective':
                base = a[1]
                rep.ob(R, '%s: objective comes with its requirements' % nm, e.c[1] == ('fld', base, 'requirements'), e.where(), 'requirements are %s' % show(e.c[1]))
                weight(rep, R, nm, e.c[2], e, lambda m: m[0] == 'loopvar' or has_field(m, 'maxp'), base)
            if k == 'addConstraint' and not wls:
                rep.ob(R, '%s: constraint comes with its requirements' % nm, len(e.c) > 1 and e.c[1] == ('fld', a[1], 'requirements'), e.where(), 'requirements are %s' % [show(x) for x in e.c[1:]])
        # start of the build
        rep.ob(R, '%s: build started with the variables of the computation data' % nm, has_field(start.c[0], 'variables_'), start.where(), 'variables are %s' % show(start.c[0]))
        ub = start.c[-2]
        bc = {l[-1].b for i, k, a, l, h, e in sinks if k == 'addBound' and l}
        rep.ob(R, '%s: bounds are declared iff there are some' % nm, any(has(ub, lambda y: y == b) for b in bc) or ub[0] == 'loopvar', start.where(), 'declared by %s' % show(ub))
        rep.ob(R, '%s: build started with the substitutions of the problem' % nm, has_call(start.c[-1], 'substitutions') or has_field(start.c[-1], 'substitutions_'), start.where(), 'substitutions are %s' % show(start.c[-1]))
        if wls:
            mn = [e for e, l, h in fl if e.kind == 'call' and cname(e) == 'setMinimumNorm']
            auto = has_call(start.c[1], 'totalSize')
            rep.ob(R, '%s: minimum-norm objective is set iff its rows are allocated' % nm, bool(mn) == auto, loc(f), 'allocated: %s, set: %s' % (auto, bool(mn)))
            damp = [v for c, v in p.hist.items() if has_call(c, 'autoDamping')]
            rep.ob(R, '%s: minimum-norm objective only when there is no objective and damping is on' % nm, not auto or (damp == [True] and any(c[0] == 'op' and c[1] == '==' and v is True and c[2][0] == 'loopvar' and c[2][1] != acc['nEq'] for c, v in p.hist.items())
                   or damp == [True] and any(has_name(c, 'nObj') or c[0] == 'loopvar' or has(c, lambda y: y[0] == 'loopvar') for c in p.hist)), loc(f), 'added in other cases')
            mx = [e for e, l, h in fl if e.kind == 'write' and e.a[0] == 'fld' and e.a[2] == 'maxp']
            ok = len(mx) >= 1 and mx[-1].b[0] == 'loopvar'
            if ok:
                dd = mx[-1].b[1]
                ups = [x for x in flat([scan]) if x.kind == 'lwrite' and x.a[0] == 'var' and x.a[-1] == dd]
                ok = bool(ups) and all(has(x.b, ispri) for x in ups)
            rep.ob(R, '%s: highest level of the build is remembered' % nm, ok, loc(f), 'maxp is %s' % [show(e.b) for e in mx])
        # map task -> constraint
        mp = [e for e, l, h in fl if e.kind == 'call' and not e.inl and cname(e) in INSERT and e.b is not None and has_field(e.b, 'task2Constraint_')]
        rep.ob(R, '%s: constraints of the problem are remembered by task' % nm, len(mp) >= 1 and all(has_call(a, 'constraintMap') for e in mp for a in e.c[:1]), loc(f), 'they are not')
    rep.ob(R, '%s: build possible' % nm, n > 0, loc(f), 'no route builds')
    rep.floor(R, 20)


def weight(rep, R, nm, t, e, ismax, base):
    ok = lastname(t) == 'pow' and len(t[3]) == 2 and has_name(t[3][0], 'scalarizationWeight')
    if ok:
        x = t[3][1]
        ok = x[0] == 'op' and x[1] == '-' and len(x) == 4 and ismax(x[2]) and ispri(x[3])
    rep.ob(R, '%s: weight of an objective is the scalarization weight to the power (highest level - level)' % nm, ok, e.where(), 'weight is %s' % show(t))


def cases_all(wls):
    for uses in (False, True):
        for p in (0, 1):
            for bound in (False, True):
                for eq in (True, False):
                    yield {'uses': uses, 'p': p, 'bound': bound, 'eq': eq}


def cdesc(c):
    if c['uses']:
        return 'a constraint used by a substitution'
    return 'a%s%s at level %s' % (' bound' if c['bound'] else ' general', ' equality' if c['eq'] else ' inequality', '0' if c['p'] == 0 else '> 0')


def expected(c, wls):
    if c['uses']:
        return None
    if c['bound'] and c['p'] == 0:
        return 'addBound'
    if not wls:
        return 'addConstraint'
    if c['p'] == 0:
        return 'addConstraint'
    return 'addObjective' if c['eq'] else 'refused'


def wanted_size(c):
    if c['uses'] or (c['bound'] and c['p'] == 0):
        return None
    if c['p'] == 0:
        return 'nEq' if c['eq'] else 'nIneq'
    return 'nObj' if c['eq'] else None


def excluded(p):
    """A search among the pending events told that none is about a substitution."""
    def kinds(t):
        if t[0] == 'op' and t[1] == '||':
            return kinds(t[2]) | kinds(t[3])
        return {t[3][1].split('::')[-1]} if t[0] == 'op' and t[1] == '==' and t[3][0] == 'enum' else set()
    for c, v in p.hist.items():
        for y in sub_terms(c):
            if isinstance(y, tuple) and y and y[0] == 'call' and has_field(y, 'events_') and y[3]:
                n = shortq(y[1]).split('::')[-1]
                if {'SubstitutionAddition', 'SubstitutionRemoval'} <= kinds(y[3][-1]):
                    if n == 'any_of' and (c, v) == (y, False) or n == 'none_of' and (c, v) == (y, True):
                        return True
    return False


def rule_events(prog, rep):
    R = 'C07.events'
    rep.rule(R, 'every pending event is translated into solver events consistent with the build, the solver processes them once, and a substitution event rebuilds the data from scratch')
    for cls in (W, H):
        nm = cls.split('::')[-1]
        wls = cls == W
        f = prog.find(cls + '::updateComputationData_', 2)[0]
        pb, data = [('param', x['n']) for x in f['params']]
        eng = Engine(prog, inline=inl(cls), maxpaths=4000, fine=True)
        ps = eng.run(f)
        rep.used(eng, ps)
        kinds = set()
        for p in ps:
            if p.exit != 'ret':
                continue
            fl = list(pwalk(p))
            proc = [(i, e) for i, (e, l, h) in enumerate(fl) if e.kind == 'call' and cname(e) == 'process' and not e.inl]
            rebuild = [(i, e) for i, (e, l, h) in enumerate(fl) if e.kind == 'call' and cname(e) == 'startBuild' and not e.inl]
            pop = [e for e, l, h in fl if e.kind == 'loop' and any(cname(x) in ('pop', 'pop_front') for b in e.c for x in b if x.kind == 'call')]
            anyev = [v for c, v in p.hist.items() if has_call(c, 'empty') and has_field(c, 'events_')]
            # is a substitution event known to be pending on this route?
            sub = [c for c, v in p.hist.items() if v is True and c[0] == 'op' and c[1] == '==' and c[3][0] == 'enum' and 'Substitution' in c[3][1]]
            if rebuild:
                kinds.add('rebuild')
                si = rebuild[0][0]
                cl = {('task2Constraint_' if has_field(e.b, 'task2Constraint_') else 'variables_' if has_field(e.b, 'variables_') else 'events_') for e, l, h in fl[:si]
                      if e.kind == 'call' and cname(e) == 'clear' and e.b is not None and top_of(e.b, data)}
                cl |= {e.a[2] for e, l, h in fl[:si] if e.kind == 'write' and e.a[0] == 'fld' and e.a[1] == data and e.a[2] in ('events_',)}
                cl |= {e.b[2] for e, l, h in fl[:si] if e.kind == 'call' and cname(e) == 'operator=' and e.b is not None and e.b[0] == 'fld' and e.b[1] == data}
                rep.ob(R, '%s: a rebuild forgets constraints, variables and pending events' % nm, {'task2Constraint_', 'variables_', 'events_'} <= cl, loc(f), 'only %s are cleared' % sorted(cl))
                ns = [e for e, l, h in fl[:si] if e.kind == 'write' and e.a == ('fld', data, 'solver') and has_call(e.b, 'createSolver')]
                rep.ob(R, '%s: a rebuild uses a new solver' % nm, bool(ns), loc(f), 'the solver is reused')
                rep.ob(R, '%s: a rebuild is not followed by the processing of old events' % nm, not proc, loc(f), 'old events are processed after the rebuild')
                continue
            if not pop:
                kinds.add('idle')
                rep.ob(R, '%s: nothing to do without events' % nm, not proc and anyev == [True], loc(f), 'pending events are not handled')
                continue
            kinds.add('process')
            rep.ob(R, '%s: the solver processes the events once, after all of them are translated' % nm, len(proc) == 1 and proc[0][0] > max(i for i, (e, l, h) in enumerate(fl) if e is pop[0]) and not any(e is proc[0][1] for e in flat([pop[0]])),
                   loc(f), 'process is called %d times' % len(proc))
            if len(proc) == 1:
                rep.ob(R, '%s: by the solver of the computation data' % nm, proc[0][1].b == ('fld', data, 'solver'), loc(f), 'processed by %s' % show(proc[0][1].b))
            up = [i for i, (e, l, h) in enumerate(fl) if e.kind == 'call' and cname(e) == 'variables' and e.b == ('fld', data, 'variables_')]
            rep.ob(R, '%s: variables are up to date when the events are processed' % nm, bool(up) and bool(proc) and up[-1] < proc[0][0] and up[-1] > max([i for i, (e, l, h) in enumerate(fl) if e.kind == 'call' and e.b == ('fld', data, 'variables_') and cname(e) in ('add', 'remove')] or [-1]),
                   loc(f), 'the solver reads outdated variables')
            # substitution events excluded before popping: the pre-scan covers all events and both kinds
            pre = [e for e, l, h in fl if e.kind == 'loop' and not l and e is not pop[0] and e.b is not None and has_field(e.b, 'events_')]
            okp = bool(pre) or excluded(p)
            for e in pre if not excluded(p) else ():
                for bh, bx in zip(e.bh, e.bx):
                    ts = {c[2] for c in bh if c[0] == 'op' and c[1] == '==' and c[3][0] == 'enum' and c[3][1].startswith(EV)}
                    left = [x for t in ts for x in cases(bh, t, EVENTS)] or list(EVENTS)
                    okp &= not any('Substitution' in x for x in left)
            rep.ob(R, '%s: events are translated only when no substitution event is pending' % nm, okp, loc(f), 'a substitution event can be pending when the other events are translated')
            if wls:
                for k in ('TaskAddition', 'TaskRemoval'):
                    left = 0
                    for e in pre:
                        for bh, bx in zip(e.bh, e.bx):
                            h = dict(p.hist)
                            h.update(bh)
                            tt = {c[2]: c[3][1].rsplit('::', 1)[0] for c in bh if c[0] == 'op' and c[1] == '==' and c[3][0] == 'enum' and c[3][1].startswith(EV)}
                            pre_ = next(iter(tt.values()), '')

                            def env(t, tt=tt, pre_=pre_, k=k):
                                if t in tt:
                                    return ('enum', pre_ + '::' + k)
                                if has_call(t, 'autoDamping') and t[0] == 'call':
                                    return True
                                if lastname(t) == 'value' and has_name(t, 'priorityLevel'):
                                    return 1
                                return None
                            left += bx not in ('ret', 'break') and consistent({c: v for c, v in h.items() if has_call(c, 'autoDamping') or c in bh}, env)
                    rep.ob(R, '%s: %s of an objective is not handled incrementally when its presence decides of the minimum norm' % (nm, k), left == 0, loc(f), 'with automatic damping, objectives come and go while the minimum norm stays')
            translate(rep, R, nm, wls, f, pb, data, pop[0], cls)
        rep.ob(R, '%s: idle, processing and rebuilding routes' % nm, kinds == {'idle', 'process', 'rebuild'}, loc(f), 'routes: %s' % sorted(kinds))
    rep.floor(R, 20)


def top_of(t, base):
    while isinstance(t, tuple) and t and t != base:
        t = t[1] if t[0] in ('fld', 'elem', 'index') else t[2] if t[0] == 'call' else None
    return t == base


SENAMES = {'addScalarWeightEvent', 'addVectorWeightEvent', 'addConstraint', 'removeConstraint', 'addBound', 'removeBound', 'addObjective', 'removeObjective'}


def translate(rep, R, nm, wls, f, pb, data, loop, cls):
    seen = set()
    for body, bh, bx in zip(loop.c, loop.bh, loop.bx):
        ts = {c[2] for c in bh if c[0] == 'op' and c[1] == '==' and c[3][0] == 'enum' and c[3][1].startswith(EV)}
        if not ts:
            ks = [e for e in EVENTS]
        else:
            ks = cases(bh, next(iter(ts)), EVENTS)
        npop = [x for x in flat(body) if x.kind == 'call' and cname(x) in ('pop', 'pop_front')]
        rep.ob(R, '%s: one event at a time' % nm, len(npop) == 1, loc(f), '%d events removed' % len(npop))
        rep.ob(R, '%s: all pending events are handled' % nm, bx not in ('break',), loc(f), 'the remaining events are ignored')
        t = next(iter(ts)) if ts else None
        em = ('fld', t[1], 'emitter_') if t is not None and t[0] == 'fld' else None
        se = [(x, l, h) for x, l, h in walk(body, bh) if x.kind == 'call' and shortq(x.a).startswith(SE) and cname(x) in SENAMES and not x.inl]
        names = [cname(x) for x, l, h in se]
        for k in ks:
            if k.startswith('Substitution'):
                rep.ob(R, '%s: %s is not silently dropped' % (nm, k), False, loc(f), 'dropped')
                continue
            if k in ('WeightChange', 'AnisotropicWeightChange'):
                w = 'addScalarWeightEvent' if k == 'WeightChange' else 'addVectorWeightEvent'
                ok = names == [w] and has(se[0][0].c[0], lambda y: y == em) and has_field(se[0][0].c[0], 'constraint')
                seen.add(k)
                rep.ob(R, '%s: %s is translated for the constraint of the task' % (nm, k), ok, loc(f), 'translated into %s' % ['%s(%s)' % (cname(x), show(x.c[0])) for x, l, h in se])
                continue
            if not wls:
                continue
            add = k == 'TaskAddition'
            look = [v for c, v in bh.items() if isinstance(v, bool) and (has_call(c, 'constraintWithRequirementsNoThrow') if add else has_field(c, 'task2Constraint_')) and lastname(c) not in ('uses', 'canBeUsedAsBound')]
            vs = [(x, l, h) for x, l, h in walk(body, bh) if x.kind == 'call' and not x.inl and x.b == ('fld', data, 'variables_') and cname(x) in ('add', 'remove')]
            sv = [(x, l, h) for x, l, h in walk(body, bh) if x.kind == 'call' and shortq(x.a) in (SE + 'addVariable', SE + 'removeVariable')]
            vs = list({(cname(x), x.where(), norm(x.c[0])): (x, l, h) for x, l, h in vs}.values())
            mp = [x for x, l, h in walk(body, bh) if x.kind == 'call' and not x.inl and x.b is not None and has_field(x.b, 'task2Constraint_') and cname(x) in INSERT | ERASE | {'operator='}]
            if not names and not vs:
                ok = (False in look or True in look) and not mp and not sv
                rep.ob(R, '%s: %s of a task %s is skipped entirely' % (nm, k, 'that is gone' if add else 'that was not added'), ok, loc(f), 'a task is skipped without reason')
                continue
            seen.add(k)
            for bound in (True, False):
                for p in (0, 1):
                    c = {'bound': bound, 'p': p, 'uses': False}
                    if not consistent(bh, env_for(c)):
                        continue
                    w = ('add' if add else 'remove') + ('Bound' if p == 0 and bound else 'Constraint' if p == 0 else 'Objective')
                    ok = names == [w]
                    rep.ob(R, '%s: %s of a%s task at level %s is translated into %s' % (nm, k, ' bound' if bound else ' general', '0' if p == 0 else '> 0', w), ok, (se[0][0].where() if se else loc(f)), 'translated into %s' % names)
            for x, l, h in se:
                a = x.c[0]
                cst = a if a[0] != 'init' and a[0] != 'ctor' else (a[2][0] if a[2] else a)
                ok = cst[0] == 'fld' and cst[2] == 'constraint'
                rep.ob(R, '%s: %s concerns the constraint of the task' % (nm, cname(x)), ok and (add or has(cst, lambda y: y == em)), x.where(), 'concerns %s' % show(cst))
                if cname(x) == 'addObjective' and a[0] in ('init', 'ctor') and len(a[2]) == 3:
                    rep.ob(R, '%s: added objective has the requirements of the task' % nm, a[2][1] == ('fld', cst[1], 'requirements'), x.where(), 'requirements are %s' % show(a[2][1]))
                    weight(rep, R, nm + ' (addition)', a[2][2], x, lambda m: m == ('fld', data, 'maxp'), None)
            okv = len(vs) == 1 and cname(vs[0][0]) == ('add' if add else 'remove') and has_s(vs[0])
            rep.ob(R, '%s: %s %s each variable of the constraint, after substitution' % (nm, k, 'counts' if add else 'uncounts'), okv, (vs[0][0].where() if vs else loc(f)), 'variables: %s' % [(cname(x), show(x.c[0])) for x, l, h in vs])
            if okv:
                inner = vs[0][1][-1]
                for b2, h2 in zip(inner.c, inner.bh):
                    res = [v for c2, v in h2.items() if c2[0] == 'call' and c2[2] == ('fld', data, 'variables_')]
                    told = [x for x in flat(b2) if x.kind == 'call' and shortq(x.a) in (SE + 'addVariable', SE + 'removeVariable')]
                    ok = len(res) == 1 and ((res == [True]) == (len(told) == 1)) and all(cname(x) == ('addVariable' if add else 'removeVariable') and norm(x.c[0]) == norm(vs[0][0].c[0]) for x in told)
                    rep.ob(R, '%s: %s tells the solver exactly the variables that appear or disappear' % (nm, k), ok, loc(f), 'set changed: %s, solver told: %s' % (res, [cname(x) for x in told]))
            if add:
                ok = any(cname(x) in INSERT | {'operator='} and (has(x.b, lambda y: y == em) or any(has(a, lambda y: y == em) for a in x.c)) for x in mp)
                ck = any(x.kind == 'call' and cname(x) == 'check' for x in flat(body))
                rep.ob(R, '%s: %s is checked against the abilities of the scheme' % (nm, k), ck, loc(f), 'unsupported constraints are not refused')
            else:
                ok = any(cname(x) in ERASE and any(has(a, lambda y: y == em) for a in x.c) for x in mp)
            rep.ob(R, '%s: %s %s the constraint of the task' % (nm, k, 'remembers' if add else 'forgets'), ok, loc(f), 'the task is %s' % ('not remembered' if add else 'still remembered'))
            if not add:
                u = [v for c2, v in bh.items() if lastname(c2) == 'uses']
                rep.ob(R, '%s: a constraint used by a substitution cannot be removed alone' % nm, u == [False], loc(f), 'removed')
    want = {'WeightChange', 'AnisotropicWeightChange'} | ({'TaskAddition', 'TaskRemoval'} if wls else set())
    rep.ob(R, '%s: every kind of event is translated' % nm, want <= seen, loc(f), 'not translated: %s' % sorted(want - seen))


def has_s(v):
    x, l, h = v
    return len(l) >= 2 or has_call(x.c[0], 'substitute') or any(L.b is not None and has_call(L.b, 'substitute') for L in l)


def rule_solverevents(prog, rep):
    R = 'C07.pairs'
    rep.rule(R, 'within one update, an addition and a removal of the same item cancel and anything else is kept; weight changes of a constraint are merged without losing either kind; cancelled variable changes are signalled')
    for name, mine, other in (('addConstraint', 'addedConstraints_', 'removedConstraints_'), ('removeConstraint', 'removedConstraints_', 'addedConstraints_'),
                              ('addBound', 'addedBounds_', 'removedBounds_'), ('removeBound', 'removedBounds_', 'addedBounds_'),
                              ('addObjective', 'addedObjectives_', 'removedObjectives_'), ('removeObjective', 'removedObjectives_', 'addedObjectives_'),
                              ('addVariable', 'addedVariables_', 'removedVariables_'), ('removeVariable', 'removedVariables_', 'addedVariables_')):
        f = prog.find(SE + name, 1)[0]
        x = ('param', f['params'][0]['n'])
        key = ('fld', x, 'c') if name == 'addObjective' else x
        eng = Engine(prog, inline=lambda g, o: shortq(g['q']).startswith(SE))
        ps = eng.run(f)
        rep.used(eng, ps)
        modes = set()
        for p in ps:
            ins = {c: [v for v in inserted(p, c)] for c in (mine, other)}
            er = {c: [v for v in erased(p, c)] for c in (mine, other)}
            others = [e for e, l, t1, t2 in mutators(p) if top_field(l) not in (mine, other, 'hiddenVariableChange_', None)]
            rep.ob(R, '%s: only its own lists change' % name, not others and not ins[other] and not er[mine], loc(f), 'another list is changed')
            hid = final_write(p, fld('hiddenVariableChange_'))
            if ins[mine]:
                modes.add('kept')
                rep.ob(R, '%s: kept when the converse is not pending' % name, len(ins[mine]) == 1 and ins[mine][0][1][-1] == x and not er[other] and any(has_field(c, other) for c in p.hist), loc(f), 'kept in other cases')
                if 'Variable' in name:
                    rep.ob(R, '%s: no hidden change when kept' % name, hid is None or hid != ('lit', 'false'), loc(f), 'flag reset')
            else:
                modes.add('cancelled')
                rep.ob(R, '%s: cancelled only against the converse' % name, len(er[other]) == 1 and identifies(er[other][0][1], p.hist, key, p), loc(f), 'lost, or cancels %s' % [[show(y) for y in e[1]] for e in er[other]])
                if 'Variable' in name:
                    rep.ob(R, '%s: cancelled change signalled' % name, hid == ('lit', 'true'), loc(f), 'the order of variables may have changed unnoticed')
        rep.ob(R, '%s: kept or cancelled' % name, modes == {'kept', 'cancelled'}, loc(f), 'only %s' % sorted(modes))
    for name, idx in (('addScalarWeightEvent', 'scalar'), ('addVectorWeightEvent', 'vector')):
        f = prog.find(SE + name, 1)[0]
        x = ('param', f['params'][0]['n'])
        eng = Engine(prog, inline=lambda g, o: shortq(g['q']).startswith(SE))
        ps = eng.run(f)
        rep.used(eng, ps)
        modes = set()
        for p in ps:
            ins = list(inserted(p, 'weightEvents_'))
            wr = [e for e, l, h in pwalk(p) if e.kind == 'write' and top_field(e.a) == 'weightEvents_']
            if ins:
                modes.add('new')
                v = ins[0][1][-1] if len(ins[0][1]) == 1 else ('init', '', ins[0][1])
                a = v[2] if v[0] in ('init', 'ctor') else ()
                ok = len(ins) == 1 and len(a) == 3 and a[0] == x and a[1 if idx == 'scalar' else 2] == ('lit', 'true') and a[2 if idx == 'scalar' else 1] == ('lit', 'false')
                rep.ob(R, '%s: new entry of that kind for the constraint' % name, ok, loc(f), 'entry is %s' % show(v))
                # nothing is inserted when an entry exists: the loop returns on equality
                L = [e for e in p.flat() if e.kind == 'loop']
                rep.ob(R, '%s: existing entry looked for' % name, bool(L) or any(has_field(c, 'weightEvents_') for c in p.hist), loc(f), 'entries are duplicated')
            else:
                modes.add('merged')
                ok = len(wr) == 1 and wr[0].a[0] == 'fld' and wr[0].a[2] == idx and wr[0].b == ('lit', 'true') and any(v is True and c[0] == 'op' and c[1] == '==' and (c[2] == x or c[3] == x) for c, v in p.hist.items())
                rep.ob(R, '%s: merged in the entry of the same constraint' % name, ok, loc(f), 'merge: %s' % [(show(e.a), show(e.b)) for e in wr])
        rep.ob(R, '%s: new or merged' % name, modes == {'new', 'merged'}, loc(f), 'only %s' % sorted(modes))
    rep.floor(R, 30)


def rule_solve(prog, rep):
    R = 'C07.solve'
    rep.rule(R, 'solving updates the problem, then the computation data, then solves, then writes the solution in the variables, then computes the substituted variables')
    fs = [g for g in prog.funcs.values() if g.get('body') is not None and shortq(g['q']) == 'tvm::scheme::abstract::ResolutionScheme::solve' and not g.get('tmpl')]
    if not fs:
        raise AnalysisBroken('ResolutionScheme::solve is not instantiated')
    for f in fs:
        pb = ('param', f['params'][0]['n'])
        nm = 'solve<%s>' % (f.get('cls') or '').split('<')[-1].rstrip('>').split('::')[-1]
        eng = Engine(prog, inline=lambda g, o: shortq(g['q']).startswith('tvm::scheme::abstract::ResolutionScheme::'))
        ps = eng.run(f)
        rep.used(eng, ps)
        for p in ps:
            if p.exit != 'ret':
                continue
            fl = list(pwalk(p))

            def at(pred):
                return [i for i, (e, l, h) in enumerate(fl) if e.kind == 'call' and pred(e)]
            up = at(lambda e: shortq(e.a).endswith('ControlProblem::update') and e.b == pb)
            get = at(lambda e: cname(e) == 'getComputationData')
            ud = at(lambda e: cname(e) == 'updateComputationData_')
            so = at(lambda e: cname(e) == 'solve_')
            st = at(lambda e: cname(e) == 'setVariablesToSolution')
            sv = at(lambda e: cname(e) == 'updateVariableValues')
            seq = [up, ud, so, st, sv]
            ok = all(len(x) == 1 for x in seq + [get]) and [x[0] for x in seq] == sorted(x[0] for x in seq) and get[0] < ud[0]
            rep.ob(R, '%s: update, update of the data, resolution, solution, substituted variables in that order' % nm, ok, loc(f), 'order: %s' % [x for x in seq])
            if ok:
                d = fl[ud[0]][0].c[1]
                rep.ob(R, '%s: data of the problem for this scheme' % nm, lastname(d) == 'getComputationData' and d[3][0] == pb and fl[so[0]][0].c[1] == d and fl[st[0]][0].b == d, loc(f), 'other data')
                r = p.ret
                rep.ob(R, '%s: returns the status of the resolution' % nm, lastname(r) == 'solve_', loc(f), 'returns %s' % show(r))
    # getComputationData: per scheme id, created on a finalized problem
    fs = [g for g in prog.funcs.values() if g.get('body') is not None and shortq(g['q']).endswith('::getComputationData') and not g.get('tmpl')]
    if not fs:
        raise AnalysisBroken('getComputationData is not instantiated')
    for f in fs:
        pb, rs = [('param', x['n']) for x in f['params'][:2]]
        eng = Engine(prog, inline=lambda g, o: False)
        ps = eng.run(f)
        rep.used(eng, ps)
        modes = set()
        for p in ps:
            if p.exit != 'ret':
                continue
            fl = list(pwalk(p))
            cr = [i for i, (e, l, h) in enumerate(fl) if e.kind == 'call' and cname(e) == 'createComputationData']
            fi = [i for i, (e, l, h) in enumerate(fl) if e.kind == 'call' and cname(e) == 'finalize' and e.b == pb]
            ins = [(i, e) for i, (e, l, h) in enumerate(fl) if (e.kind == 'call' and cname(e) in INSERT | {'operator='} and e.b is not None and has_field(e.b, 'computationData_')) or (e.kind == 'write' and has_field(e.a, 'computationData_'))]
            if cr:
                modes.add('new')
                rep.ob(R, 'getComputationData: data created on a finalized problem', bool(fi) and fi[0] < cr[0], loc(f), 'the substitutions may not be ready when the data is built')
                rep.ob(R, 'getComputationData: created data is kept by the problem under the id of the scheme', len(ins) == 1 and any(has_call(a, 'id') for a in (list(ins[0][1].c or ()) if ins[0][1].kind == 'call' else []) + [ins[0][1].b if ins[0][1].kind == 'call' else ins[0][1].a]), loc(f), 'it is not')
            else:
                modes.add('known')
                rep.ob(R, 'getComputationData: known data reused', has_field(p.ret, 'computationData_') and not ins, loc(f), 'returns %s' % show(p.ret))
        rep.ob(R, 'getComputationData: created once', modes == {'new', 'known'}, loc(f), 'only %s' % sorted(modes))
    # solve_: solver is run unless everything is substituted, in which case variables are zeroed
    for cls in (W, H):
        nm = cls.split('::')[-1]
        f = prog.find(cls + '::solve_', 2)[0]
        eng = Engine(prog, inline=lambda g, o: False)
        ps = eng.run(f)
        rep.used(eng, ps)
        pb, data = [('param', x['n']) for x in f['params']]
        for p in ps:
            if p.exit != 'ret':
                continue
            s = [e for e in calls(p, 'solve')]
            z = [e for e in calls(p, 'setZero')]
            more = None
            for c, v in p.hist.items():
                for n, k, w in ((3, 1, True), (1, 1, False), (1, 2, False), (0, 0, False)):
                    pass
            def val(nt, ns):
                def env(t):
                    if lastname(t) == 'size' and t[2] == pb:
                        return nt
                    if lastname(t) == 'size' and has_call(t, 'substitutions'):
                        return ns
                return env
            for nt, ns in ((2, 1), (1, 0), (1, 1), (0, 0), (5, 2)):
                if consistent(p.hist, val(nt, ns)):
                    if nt > ns:
                        rep.ob(R, '%s: solver run when some task is left (%d tasks, %d substitutions)' % (nm, nt, ns), len(s) == 1 and s[0].b == ('fld', data, 'solver') and lastname(p.ret) == 'solve', loc(f), 'solver not run or its status ignored')
                    else:
                        rep.ob(R, '%s: variables zeroed when no task is left (%d tasks, %d substitutions)' % (nm, nt, ns), not s and len(z) == 1 and has_call(z[0].b, 'variables'), loc(f), 'solver run on an empty problem')
        g = prog.find(cls + '::Memory::setVariablesToSolution_', 1)[0]
        x = ('param', g['params'][0]['n'])
        eng = Engine(prog, inline=lambda g, o: False)
        for p in eng.run(g):
            st = [e for e in calls(p, 'set') if e.b == x]
            rep.ob(R, '%s: variables take the result of the solver' % nm, len(st) == 1 and has(st[0].c[0], lambda y: lastname(y) == 'result' and y[2] == fld('solver')), loc(g), 'set to %s' % [show(e.c[0]) for e in st])
    rep.floor(R, 10)


RULES = [rule_build, rule_events, rule_solverevents, rule_solve]
