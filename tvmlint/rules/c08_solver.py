"""C08: the abstract least-squares solvers keep their sizes, maps and assignments in step with what they were given."""
import itertools
from ..q import *

EXPLANATION = ('Effect summaries of the build, solve and incremental-processing functions of the two abstract solvers, for every category (equality, inequality, objective, bound): sizes announced, accumulated and removed, '
               'maps from constraints to assignments, target ranges, target data and mappings are updated together, in an order that lets each step see what it needs, and building and solving exclude each other.')
ASSUMPTIONS = ['the virtual hooks of a concrete solver (next*Range_, update*TargetData, resize_) compute what their documentation says']
L = 'tvm::solver::abstract::LeastSquareSolver'
HL = 'tvm::solver::abstract::HierarchicalLeastSquareSolver'
# category: map, accumulated size, announced size, range hook, data hook, field of the impact, addition hook, size function
CATS = {
    'equality': ('equalityConstraintToAssignments_', 'eqSize_', 'nEq_', 'nextEqualityConstraintRange_', 'updateEqualityTargetData', 'equalityConstraints_', 'addEqualityConstraint_', 'constraintSize'),
    'inequality': ('inequalityConstraintToAssignments_', 'ineqSize_', 'nIneq_', 'nextInequalityConstraintRange_', 'updateInequalityTargetData', 'inequalityConstraints_', 'addIneqalityConstraint_', 'constraintSize'),
    'objective': ('objectiveToAssignments_', 'objSize_', 'nObj_', 'nextObjectiveRange_', 'updateObjectiveTargetData', 'objectives_', 'addObjective_', 'size'),
    'bound': ('boundToAssignments_', None, None, 'getMappingIn', 'updateBoundTargetData', 'bounds_', 'addBound_', None),
}
HOOKS = {c[i] for c in CATS.values() for i in (3, 4, 6)} | {'constraintSize', 'resize_', 'initializeBuild_', 'variables', 'substitutions', 'applyImpactLogic', 'setMinimumNorm_', 'preAssignmentProcess_', 'postAssignmentProcess_'}


def inl(cls, *opaque):
    def g(f, o):
        n = shortq(f['q'])
        return n.startswith((cls + '::', 'tvm::solver::abstract::(anonymous')) and f['n'] not in HOOKS and f['n'] not in opaque and 'ImpactFromChanges' not in n and 'AutoMap' not in n
    return g


def short(cls):
    return cls.split('::')[-1]


def kcalls(fl, name, obj=None):
    return [i for i, (e, l, h) in enumerate(fl) if e.kind == 'call' and not e.inl and cname(e) == name and (obj is None or e.b == obj)]


def incs(fl, loc, op):
    """Terms added to (op '+') or removed from (op '-') a location: (index, term)."""
    out = []
    for i, (e, l, h) in enumerate(fl):
        if e.kind == 'write' and e.a == loc:
            if e.op == op + '=':
                out.append((i, e.b))
            elif e.op == '=' and e.b[0] == 'op' and e.b[1] == op and len(e.b) == 4:
                if e.b[2] == loc:
                    out.append((i, e.b[3]))
                elif op == '+' and e.b[3] == loc:
                    out.append((i, e.b[2]))
                else:
                    out.append((i, None))
            else:
                out.append((i, None))
    return out


def iselem(t, rng):
    return has(t, lambda y: y[0] == 'elem' and y[1] == rng)


def rule_build(prog, rep):
    R = 'C08.build'
    rep.rule(R, 'starting a build forgets everything of the previous one and records the announced sizes, the variables and the substitutions before the solver allocates its memory; items are added only in build mode, each filed under its own category with its size')
    for cls in (L, HL):
        nm = short(cls)
        h = cls == HL
        f = prog.find(cls + '::startBuild', 5 if h else 6)[0]
        P = [('param', x['n']) for x in f['params']]
        x, subs = P[0], P[-1]
        sizes = dict(zip(('nEq_', 'nIneq_') if h else ('nObj_', 'nEq_', 'nIneq_'), P[1:]))
        eng = Engine(prog, inline=inl(cls))
        ps = eng.run(f)
        rep.used(eng, ps)
        n = 0
        for p in ps:
            if p.exit != 'ret':
                continue
            n += 1
            fl = list(pwalk(p))
            ini = kcalls(fl, 'initializeBuild_')
            rep.ob(R, '%s: memory initialised once per build with the announced sizes' % nm, len(ini) == 1 and fl[ini[0]][0].c == tuple(P[1:-1]), loc(f), 'called with %s' % [[show(y) for y in fl[i][0].c] for i in ini])
            if len(ini) != 1:
                continue
            cats = ['equality', 'inequality', 'bound'] + ([] if h else ['objective'])
            for c in cats:
                m = CATS[c][0]
                ok = emptied(p, fld(m))
                rep.ob(R, '%s: %s assignments of the previous build forgotten' % (nm, c), ok, loc(f), 'they are kept')
                if h and c != 'bound':
                    rs = [e for e, l, hh in fl if e.kind == 'call' and cname(e) in ('resize', 'assign') and e.b == fld(m)] + [e for e, l, hh in fl if e.kind == 'write' and e.a == fld(m)]
                    ok = bool(rs) and any(has_call(a, 'size') and (P[1] in list(sub(a)) or P[2] in list(sub(a))) for e in rs for a in (e.c or (e.b,)))
                    rep.ob(R, '%s: one map of %s constraints per level' % (nm, c), ok, loc(f), 'the number of levels is not that of the build')
            rep.ob(R, '%s: assignments of the previous build forgotten' % nm, emptied(p, fld('assignments_')), loc(f), 'they are kept')
            for fi, v in list(sizes.items()) + [('variables_', x), ('subs_', subs)]:
                w = final_write(p, fld(fi))
                rep.ob(R, '%s: %s is the one announced' % (nm, fi), w is not None and strip(w) == v, loc(f), 'it is %s' % show(w))
            rep.ob(R, '%s: build mode entered' % nm, final_write(p, fld('buildInProgress_')) == ('lit', 'true'), loc(f), 'items cannot be added')
            for fi in ('eqSize_', 'ineqSize_') + (() if h else ('objSize_',)):
                if h:
                    a = [e for e, l, hh in fl if e.kind == 'call' and cname(e) == 'assign' and e.b == fld(fi)]
                    ok = len(a) == 1 and a[0].c[-1] == ('lit', '0') and has_call(a[0].c[0], 'size') or (final_write(p, fld(fi)) is not None and has(final_write(p, fld(fi)), lambda y: y == ('lit', '0')))
                else:
                    ok = final_write(p, fld(fi)) == ('lit', '0')
                rep.ob(R, '%s: %s restarts from zero' % (nm, fi), ok, loc(f), 'it does not')
            for fi in ('variables_', 'subs_'):
                w = [i for i, (e, l, hh) in enumerate(fl) if e.kind == 'write' and e.a == fld(fi)]
                rep.ob(R, '%s: %s known when the memory is initialised' % (nm, fi), bool(w) and w[0] < ini[0], loc(f), 'set after')
        rep.ob(R, '%s: a build can start' % nm, n > 0, loc(f), 'no normal route')
        f = prog.find(cls + '::finalizeBuild', 0)[0]
        for p in run_paths(prog, rep, f, inl(cls)):
            rep.ob(R, '%s: build mode left' % nm, final_write(p, fld('buildInProgress_')) == ('lit', 'false'), loc(f), 'still in build mode')
        # additions
        f = prog.find(cls + '::addConstraint', 2 if h else 1)[0]
        c = ('param', f['params'][0]['n'])
        seen = set()
        for p in run_paths(prog, rep, f, inl(cls)):
            eq = [v for t, v in p.hist.items() if lastname(t) == 'isEquality' and t[2] == c or (t[0] == 'op' and t[1] == '==' and lastname(t[2]) == 'type' and t[2][2] == c and t[3] == ('enum', 'tvm::constraint::Type::EQUAL'))]
            if len(set(eq)) != 1:
                rep.bad(R, '%s: a constraint is filed by its type' % nm, loc(f), 'the type is not looked at')
                continue
            cat = 'equality' if eq[0] else 'inequality'
            other = 'inequality' if eq[0] else 'equality'
            seen.add(cat)
            lvl = None
            if h:
                lvl = lambda t: has_name(t, 'priorityLevel')
            added(rep, R, nm, f, p, c, cat, other, lvl)
        rep.ob(R, '%s: equality and inequality constraints can be added' % nm, seen == {'equality', 'inequality'}, loc(f), 'only %s' % sorted(seen))
        f = prog.find(cls + '::addBound', 1)[0]
        c = ('param', f['params'][0]['n'])
        for p in run_paths(prog, rep, f, inl(cls)):
            added(rep, R, nm, f, p, c, 'bound', None, None)
            fl = list(pwalk(p))
            i = kcalls(fl, 'addBound_')
            if len(i) == 1:
                a = fl[i[0]][0].c[1]
                ok = has(a, lambda y: lastname(y) == 'getMappingIn' and has_call(y[2], 'variables') and has(y[2], lambda z: z == c) and has(y[3][0], lambda z: lastname(z) == 'variables' and z[2] == THIS or z == fld('variables_')))
                rep.ob(R, '%s: range of a bound is that of its variable in the variables of the solver' % nm, ok, loc(f), 'range is %s' % show(a))
        if not h:
            f = prog.find(cls + '::addObjective', 3)[0]
            c, req, w = [('param', y['n']) for y in f['params']]
            for p in run_paths(prog, rep, f, inl(cls)):
                added(rep, R, nm, f, p, c, 'objective', None, None)
                fl = list(pwalk(p))
                i = kcalls(fl, 'addObjective_')
                rep.ob(R, '%s: objective passed with its requirements and weight' % nm, len(i) == 1 and fl[i[0]][0].c[1:] == (req, w), loc(f), 'passed with %s' % [[show(y) for y in fl[k][0].c] for k in i])
                l2 = [v for t, v in p.hist.items() if has_name(t, 'violationEvaluation') and has(t, lambda y: y == ('enum', 'tvm::requirements::ViolationEvaluationType::L2'))]
                rep.ob(R, '%s: only L2 objectives are accepted' % nm, l2 == [True], loc(f), 'others are accepted')
        f = prog.find(cls + '::setMinimumNorm', 0)[0]
        for p in run_paths(prog, rep, f, inl(cls)):
            fl = list(pwalk(p))
            rep.ob(R, '%s: minimum norm asked to the solver in build mode only' % nm, len(kcalls(fl, 'setMinimumNorm_')) == 1 and p.hist.get(fld('buildInProgress_')) is True, loc(f), 'asked outside of a build')
            n_, s_ = ('nEq_', 'eqSize_') if h else ('nObj_', 'objSize_')
            ws = [e for e, l, hh in fl if e.kind == 'write' and (e.a == fld(s_) if not h else has_field(e.a, s_) and has_call(e.a, 'back') or has_field(e.a, s_))]
            ok = bool(ws) and all(has_call(e.b, 'totalSize') or has_field(e.b, n_) for e in ws)
            rep.ob(R, '%s: rows of the minimum norm objective are counted' % nm, ok, loc(f), 'they are not')
        # AutoMap: records the assignments created during its life
    for g in [g for g in prog.funcs.values() if '::AutoMap::~AutoMap' in g['q']]:
        ps = Engine(prog, inline=lambda a, b: False).run(g)
        for p in ps:
            lp = [e for e in p.flat() if e.kind == 'loop']
            ok = len(lp) == 1
            pushes = [(e, l) for e, l, hh in pwalk(p) if e.kind == 'call' and cname(e) in INSERT and e.b == fld('target_')]
            ok &= len(pushes) == 1 and len(pushes[0][1]) == 1 and has_field(pushes[0][0].c[0], 'observed_')
            if ok:
                d = pushes[0][0].c[0]
                ok = has(d, lambda y: y[0] == 'idx' and y[2] == fld('observedSize_') and y[3] == ('call', y[3][1], fld('observed_'), ()) and lastname(y[3]) == 'size') or has(d, lambda y: y[0] == 'elem' and has_field(y[1], 'observedSize_'))
            rep.ob(R, 'AutoMap: all the assignments created since its construction are filed', ok, loc(g), 'filed: %s' % [show(e.c[0]) for e, l in pushes])
    for g in [g for g in prog.funcs.values() if shortq(g['q']).endswith('AutoMap::AutoMap') and g.get('ctor') and len(g['params']) == 3]:
        ini = {i.get('field') or i.get('n'): i for i in g.get('inits') or []}
        P = [('param', y['n']) for y in g['params']]
        eng = Engine(prog, inline=lambda a, b: False)
        for p in eng.run(g):
            w = {e.a[2]: e.b for e, l, hh in pwalk(p) if e.kind == 'write' and e.a[0] == 'fld' and e.a[1] == THIS}
            ok = w.get('observed_') == P[1] and lastname(w.get('observedSize_')) == 'size' and w['observedSize_'][2] == P[1] and has(w.get('target_'), lambda y: y == P[2]) and has(w.get('target_'), lambda y: y == P[0])
            rep.ob(R, 'AutoMap: observes the assignments for the entry of the constraint', ok, loc(g), 'members: %s' % {k: show(v) for k, v in w.items()})
    rep.floor(R, 40)


def sub(t):
    return [y for y in sub_terms(t) if isinstance(y, tuple) and y]


def strip(t):
    while isinstance(t, tuple) and t and t[0] in ('addr', 'obj') and len(t) > 1:
        t = t[-1] if t[0] == 'obj' else t[1]
    return t


def emptied(p, loc_):
    """The container is emptied and not filled again."""
    st = False
    for e, l, h in pwalk(p):
        if e.kind == 'call' and not e.inl and e.b == loc_:
            if cname(e) == 'clear':
                st = True
            elif cname(e) == 'operator=' and e.c and e.c[0][0] in ('init', 'ctor') and not e.c[0][2]:
                st = True
            elif cname(e) in INSERT or cname(e) == 'operator=':
                st = False
            elif cname(e) == 'assign':
                st = True
        elif e.kind == 'write' and e.a == loc_:
            st = e.b[0] in ('init', 'ctor')
    return st


def run_paths(prog, rep, f, inline, exits=('ret',), **kw):
    eng = Engine(prog, inline=inline, **kw)
    ps = eng.run(f)
    rep.used(eng, ps)
    ps = [p for p in ps if p.exit in exits]
    if not ps:
        raise AnalysisBroken('%s never returns' % f['q'])
    return ps


def added(rep, R, nm, f, p, c, cat, other, lvl):
    m, size, n, rng, data, imp, hook, fn = CATS[cat]
    fl = list(pwalk(p))
    hk = kcalls(fl, hook)
    rep.ob(R, '%s: %s given to the solver once' % (nm, cat), len(hk) == 1 and fl[hk[0]][0].c[0] == c, loc(f), 'given %d times' % len(hk))
    rep.ob(R, '%s: not given as something else' % nm, not any(kcalls(fl, v[6]) for k, v in CATS.items() if k != cat), loc(f), 'given as something else too')
    if len(hk) != 1:
        return
    # map: an AutoMap alive during the addition, or an explicit insertion after it
    am = [(i, e) for i, (e, l, h) in enumerate(fl) if e.kind == 'lwrite' and e.b and has(e.b, lambda y: y[0] == 'ctor' and len(y) > 2 and 'AutoMap' in y[1]) and i < hk[0]]
    ins = [(i, e) for i, (e, l, h) in enumerate(fl) if e.kind == 'call' and cname(e) in INSERT and e.b is not None and has_field(e.b, m) and i > hk[0]]
    ok = False
    if len(am) == 1:
        a = [y for y in sub(am[0][1].b) if y[0] == 'ctor' and len(y) > 2 and 'AutoMap' in y[1]][0][2]
        ok = len(a) == 3 and a[0] == c and a[1] == fld('assignments_') and (a[2] == fld(m) or a[2][0] == 'index' and a[2][1] == fld(m) and lvl is not None and lvl(a[2][2]))
    elif ins:
        ok = all(has(e.b, lambda y: y == c) for i, e in ins)
    rep.ob(R, '%s: assignments of the %s are filed under it' % (nm, cat), ok, loc(f), 'filed: %s' % [show(e.b) for i, e in am])
    if lvl is not None:
        rep.ob(R, '%s: requirements of the %s given with it' % (nm, cat), len(fl[hk[0]][0].c) == 2 and fl[hk[0]][0].c[1] == ('param', f['params'][1]['n']), loc(f), 'missing')
    if size:
        def loc_ok(a):
            return a == fld(size) if lvl is None else a[0] == 'index' and a[1] == fld(size) and lvl(a[2])
        w = [(i, e) for i, (e, l, h) in enumerate(fl) if e.kind == 'write' and loc_ok(e.a)]
        oth = [e for i, (e, l, h) in enumerate(fl) if e.kind == 'write' and top_field(e.a) in [v[1] for v in CATS.values() if v[1]] + [v[2] for v in CATS.values() if v[2]] and not loc_ok(e.a)]
        ok = len(w) == 1 and (w[0][1].op == '+=' or w[0][1].b[0] == 'op' and w[0][1].b[1] == '+' and w[0][1].a in w[0][1].b[2:]) and has(w[0][1].b, lambda y: lastname(y) == fn and (y[2] == c if fn == 'size' else y[3] == (c,)))
        rep.ob(R, '%s: rows of the %s are counted' % (nm, cat), ok, loc(f), 'counted: %s' % [show(e.b) for i, e in w])
        rep.ob(R, '%s: ... and no other count changes' % nm, not oth, loc(f), 'other counts: %s' % [show(e.a) for e in oth])
        rep.ob(R, '%s: rows of the %s are counted once its range is attributed' % (nm, cat), bool(w) and w[0][0] > hk[0], loc(f), 'counted before')


def rule_solve(prog, rep):
    R = 'C08.solve'
    rep.rule(R, 'solving is refused in build mode; else bounds are reset, every assignment is run between the pre- and post-processing, then the problem is solved and the status returned')
    for cls in (L, HL):
        nm = short(cls)
        f = prog.find(cls + '::solve', 0)[0]
        eng = Engine(prog, inline=inl(cls))
        ps = eng.run(f)
        rep.used(eng, ps)
        for p in ps:
            fl = list(pwalk(p))
            b = p.hist.get(fld('buildInProgress_'))
            so = kcalls(fl, 'solve_')
            if p.exit != 'ret':
                rep.ob(R, '%s: refused only in build mode, before anything is done' % nm, b is True and not so and not kcalls(fl, 'run'), loc(f), 'refused in other cases')
                continue
            rep.ob(R, '%s: refused in build mode' % nm, b is False, loc(f), 'accepted in build mode')
            rb, pre, post = kcalls(fl, 'resetBounds_'), kcalls(fl, 'preAssignmentProcess_'), kcalls(fl, 'postAssignmentProcess_')
            run = [i for i, (e, l, h) in enumerate(fl) if e.kind == 'call' and cname(e) == 'run' and len(l) == 1 and l[0].b == fld('assignments_') and iselem(e.b, fld('assignments_'))]
            seq = [rb, pre, run, post, so]
            ok = all(len(s) == 1 for s in seq) and [s[0] for s in seq] == sorted(s[0] for s in seq)
            rep.ob(R, '%s: reset of the bounds, pre-processing, assignments, post-processing, resolution in that order' % nm, ok, loc(f), 'found %s' % [len(s) for s in seq])
            if run:
                lp = fl[run[0]][1][0]
                rep.ob(R, '%s: every assignment is run' % nm, all(any(cname(x) == 'run' for x in flat(b2) if x.kind == 'call') and bx is None for b2, bx in zip(lp.c, lp.bx)), loc(f), 'some are skipped')
            rep.ob(R, '%s: status of the resolution returned' % nm, lastname(p.ret) == 'solve_' or any(lastname(c) == 'solve_' and v is (p.ret == ('lit', 'true')) for c, v in p.hist.items()), loc(f), 'returns %s' % show(p.ret))
        f = prog.find(cls + '::constraintSize', 1)[0]
        c = ('param', f['params'][0]['n'])
        for p in run_paths(prog, rep, f, lambda a, b: False):
            ds = ('enum', 'tvm::constraint::Type::DOUBLE_SIDED')

            def env(d, hds):
                def g(t):
                    if lastname(t) == 'type' and t[2] == c:
                        return ds if d else ('enum', 'other')
                    if lastname(t) == 'handleDoubleSidedConstraint_':
                        return hds
                    if lastname(t) == 'size' and t[2] == c:
                        return 7
                return g
            for d in (True, False):
                for hds in (True, False):
                    if consistent(p.hist, env(d, hds)):
                        v = evalterm(p.ret, env(d, hds))
                        rep.ob(R, '%s: a %s constraint has %s rows for a solver that does%s handle them' % (nm, 'double-sided' if d else 'single-sided', 'twice its size' if d and not hds else 'its size in', '' if hds else ' not'),
                               v == (14 if d and not hds else 7), loc(f), 'rows: %s' % show(p.ret))
    rep.floor(R, 14)


def rule_process(prog, rep):
    R = 'C08.process'
    rep.rule(R, 'events are processed as: weights of known objectives, removals, additions previewed, memory resized, mappings and ranges refreshed for every impacted category, target data and assignments refreshed, new items added last')
    f = prog.find(L + '::process', 1)[0]
    se = ('param', f['params'][0]['n'])
    parts = ('updateWeights', 'processRemovedConstraints', 'updateVariables', 'previewAddedConstraints', 'processAddedConstraints')
    ps = run_paths(prog, rep, f, inl(L, *parts), maxpaths=16000)
    A = fld('assignments_')
    for p in ps:
        fl = list(pwalk(p))
        ix = {k: kcalls(fl, k) for k in parts + ('resize_',)}
        ok = all(len(v) == 1 for v in ix.values())
        rep.ob(R, 'each step is done once', ok, loc(f), 'steps: %s' % {k: len(v) for k, v in ix.items()})
        if not ok:
            return
        ix = {k: v[0] for k, v in ix.items()}
        rep.ob(R, 'each step works on the events', all(fl[ix[k]][0].c == (se,) for k in parts), loc(f), 'other events')
        rep.ob(R, 'weights are updated before constraints are removed or added', ix['updateWeights'] < min(v for k, v in ix.items() if k != 'updateWeights'), loc(f), 'after')
        rep.ob(R, 'removals are done before additions are previewed', ix['processRemovedConstraints'] < ix['previewAddedConstraints'] < ix['resize_'] < ix['processAddedConstraints'], loc(f), 'order: %s' % ix)
        rz = fl[ix['resize_']][0]
        rep.ob(R, 'memory resized to the new sizes', rz.c[:3] == (fld('nObj_'), fld('nEq_'), fld('nIneq_')), loc(f), 'resized to %s' % [show(y) for y in rz.c[:3]])
        hb = rz.c[3]
        hb = evalterm(hb, lambda t: None)
        ob = [v for c, v in p.hist.items() if has_field(c, 'boundToAssignments_') and has_call(c, 'size') or has_field(c, 'boundToAssignments_') and has_call(c, 'empty')]
        nb = [(c, v) for c, v in p.hist.items() if has_call(c, 'addedBounds')]
        uv = [v for c, v in p.hist.items() if lastname(c) == 'updateVariables']
        mapping = uv[-1] if uv else None
        rep.ob(R, 'changes of variables are looked at', mapping is not None, loc(f), 'ignored')
        um = [i for i, (e, l, h) in enumerate(fl) if e.kind == 'call' and cname(e) == 'onUpdatedMapping' and len(l) == 1 and l[0].b == A]
        if mapping:
            ok = len(um) == 1 and has_call(fl[um[0]][0].c[0], 'variables') and ix['resize_'] < um[0]
            rep.ob(R, 'mapping of every assignment is updated when variables change', ok, loc(f), 'not updated')
            if ok:
                lp = fl[um[0]][1][0]
                rep.ob(R, 'mapping of every assignment is updated when variables change', all(any(cname(x) == 'onUpdatedMapping' for x in flat(b2) if x.kind == 'call') for b2 in lp.c), loc(f), 'some are not')
        last_add = ix['processAddedConstraints']
        rep.ob(R, 'new items are added after everything else is refreshed', not any(i > last_add and e.kind in ('write', 'loop') for i, (e, l, h) in enumerate(fl) if not l), loc(f), 'refreshed after the addition')
        allup = [i for i, (e, l, h) in enumerate(fl) if e.kind == 'call' and cname(e) == 'onUpdatedTarget' and len(l) == 1 and l[0].b == A]
        ranges, datas = {}, {}
        for cat, (m, size, n, rngf, data, imp, hook, fn) in CATS.items():
            M = fld(m)
            decs = [c for c in p.hist if (c[2] if c[0] == 'prev' else c)[0] == 'fld' and (c[2] if c[0] == 'prev' else c)[2] == imp]
            d1 = d2 = feasible = False
            for r_, a_, z_ in itertools.product((True, False), repeat=3):
                truth = {'remove': r_, 'add': a_, 'resize': z_}
                good = True
                for c in decs:
                    o = (c[2] if c[0] == 'prev' else c)[1]
                    src = sources(fl, o, c[0] != 'prev')
                    good &= any(truth[k] for k in src) == p.hist[c]
                if good:
                    feasible = True
                    d1 |= r_ or a_
                    d2 |= r_ or a_ or z_
            if not feasible:
                continue
            rl = [i for i, (e, l, h) in enumerate(fl) if e.kind == 'write' and e.a[0] == 'fld' and e.a[2] == 'start' and has_call(e.a, 'range') and has_call(e.a, 'target') and len(l) >= 1 and l[0].b == M]
            z = [i for i, (e, l, h) in enumerate(fl) if e.kind == 'write' and size and e.a == fld(size) and e.op == '=' and e.b == ('lit', '0')]
            inc = [i for i, t in incs(fl, fld(size), '+') if t is not None] if size else []
            need = bool(d1) if cat != 'bound' else (bool(d1) or mapping is True)
            if need:
                rep.ob(R, '%s: ranges of the targets are recomputed when impacted' % cat, len(rl) == 1, loc(f), 'they are not')
                if len(rl) != 1:
                    continue
                ranges[cat] = rl[0]
                w = fl[rl[0]][0]
                lp = fl[rl[0]][1][0]
                okk = all(len([x for x, l, h in walk(b2, h2) if x.kind == 'write' and x.a[0] == 'fld' and x.a[2] == 'start']) == 1 and bx is None for b2, h2, bx in zip(lp.c, lp.bh, lp.bx))
                okk &= len(fl[rl[0]][1]) == 2 and iselem(fl[rl[0]][1][1].b, M)
                rep.ob(R, '%s: ... for every assignment of every constraint' % cat, okk, loc(f), 'some are skipped')
                v = w.b
                hk = [x for x in flat([lp]) if x.kind == 'call' and cname(x) == rngf]
                okk = v[0] == 'fld' and v[2] == 'start' and bool(hk) and (has_call(v, rngf)) and has(v, lambda y: iselem(y, M))
                rep.ob(R, '%s: ... with the range given by the solver for that constraint' % cat, okk, loc(f), 'range is %s' % show(v))
                if cat == 'bound':
                    rep.ob(R, 'bound: ... in the current variables', has(v, lambda y: lastname(y) == 'getMappingIn' and has(y[3][0], lambda z2: lastname(z2) == 'variables' and z2[2] == THIS or z2 == fld('variables_'))), loc(f), 'range is %s' % show(v))
                if size:
                    okk = len(inc) == 1 and len(fl[inc[0]][1]) == 1 and fl[inc[0]][1][0] is lp and inc[0] > rl[0]
                    t = dict(incs(fl, fld(size), '+')).get(inc[0]) if inc else None
                    okk &= t is not None and has_call(t, fn) and iselem(t, M)
                    rep.ob(R, '%s: ... accumulating the size of each constraint after its range' % cat, okk, loc(f), 'accumulates %s' % show(t))
                    rep.ob(R, '%s: ... from zero' % cat, len(z) == 1 and z[0] < rl[0], loc(f), 'from the previous total')
            else:
                rep.ob(R, '%s: ranges and sizes stay when not impacted' % cat, not z and not (inc and not rl), loc(f), 'sizes change alone')
            # target data, after the resize impact is merged
            dl = [i for i, (e, l, h) in enumerate(fl) if e.kind == 'call' and cname(e) == data and len(l) == 2 and l[0].b == M and iselem(l[1].b, M) and has(e.c[0], lambda y: lastname(y) == 'target')]
            if d2:
                rep.ob(R, '%s: targets point to the current memory when impacted' % cat, len(dl) == 1 and ix['resize_'] < dl[0], loc(f), 'they do not')
                if dl:
                    datas[cat] = dl[0]
                up = [i for i, (e, l, h) in enumerate(fl) if e.kind == 'call' and cname(e) == 'onUpdatedTarget' and len(l) == 2 and l[0].b == M and iselem(l[1].b, M)]
                okk = (len(up) == 1 or bool(allup))
                rep.ob(R, '%s: assignments are refreshed when their target changes' % cat, okk, loc(f), 'they are not')
                i2 = (up or allup or [None])[0]
                if i2 is not None:
                    rep.ob(R, '%s: ... after its ranges and data' % cat, all(k < i2 for k in rl + dl) and all(k < i2 for k in um), loc(f), 'before')
        if mapping:
            rep.ob(R, 'all assignments are refreshed when variables change', len(allup) == 1, loc(f), 'they are not')
        zs = [i for i, (e, l, h) in enumerate(fl) if e.kind == 'write' and not l and e.a[0] == 'fld' and e.a[2] in ('eqSize_', 'ineqSize_', 'objSize_') and e.b == ('lit', '0')]
        rep.ob(R, 'all totals are reset before the first range is computed', not zs or not ranges or max(zs) < min(ranges.values()), loc(f), 'ranges may combine old and new totals')
        oa = [i for i, (e, l, h) in enumerate(fl) if e.kind == 'call' and cname(e) == 'orAssign']
        al = kcalls(fl, 'applyImpactLogic')
        rep.ob(R, 'the solver extends the impacts before target data is refreshed', bool(al) and (not datas or al[-1] < min(datas.values())) and (not oa or al[-1] > oa[0]), loc(f), 'not asked')
    rep.floor(R, 40)


def sources(fl, o, final):
    """Which impacts (of the removals, of the additions, of the resize) an impact object gathers, initially or at the end."""
    out = set()
    t = o
    if t[0] == 'obj':
        t = t[3] if len(t) > 3 and isinstance(t[3], tuple) else ('init', '', ())
    n = lastname(t)
    if n == 'processRemovedConstraints':
        out = {'remove'}
    elif n == 'previewAddedConstraints':
        out = {'add'}
    elif n == 'resize_':
        out = {'resize'}
    elif n in ('operator||', 'orAssign'):
        for a in (t[2],) + tuple(t[3]):
            out |= sources(fl, a, final)
    elif t[0] in ('ctor', 'init') and len(t[2]) == 1:
        out |= sources(fl, t[2][0], final)
    if final and o[0] == 'obj':
        for e, l, h in fl:
            if e.kind == 'call' and not e.inl and e.b == o and cname(e) in ('orAssign', 'operator=') and e.c:
                out = (out if cname(e) == 'orAssign' else set()) | sources(fl, e.c[0], e.c[0] != o and e.c[0][0] == 'obj')
            elif e.kind in ('write', 'lwrite') and (e.a == o or e.a == o[1]) and e.b and e.b[0] == 'call':
                out = sources(fl, e.b, False)
    return out


def rule_steps(prog, rep):
    R = 'C08.steps'
    rep.rule(R, 'removals subtract the sizes that additions add, drop the assignments and the map entries of each removed item and of no other, and report the impacted categories')
    f = prog.find(L + '::processRemovedConstraints', 1)[0]
    se = ('param', f['params'][0]['n'])
    for p in run_paths(prog, rep, f, inl(L)):
        fl = list(pwalk(p))
        for what, cats in (('removedConstraints', ('equality', 'inequality')), ('removedObjectives', ('objective',)), ('removedBounds', ('bound',))):
            lps = [e for e, l, h in fl if e.kind == 'loop' and not l and lastname(e.b) == what and e.b[2] == se]
            if not lps:
                rep.bad(R, '%s are processed' % what, loc(f), 'ignored')
                continue
            seen = set()
            el = None
            for lp in lps:
                for body, bh, bx in zip(lp.c, lp.bh, lp.bx):
                    bl = list(walk(body, bh))
                    eq = [v for t, v in bh.items() if lastname(t) == 'isEquality' or t[0] == 'op' and t[1] == '==' and lastname(t[2]) == 'type' and t[3] == ('enum', 'tvm::constraint::Type::EQUAL')]
                    cat = cats[0] if len(cats) == 1 else None if len(set(eq)) != 1 else 'equality' if eq[0] else 'inequality'
                    if cat is None:
                        rep.bad(R, 'removed constraints are looked for by type', loc(f), 'the type is not looked at')
                        continue
                    seen.add(cat)
                    m, size, n, rngf, data, imp, hook, fn = CATS[cat]
                    el = lambda t: iselem(t, lp.b)
                    if any(v is True and c[0] == 'op' and c[1] == '==' and has_call(c, 'end') and has(c, lambda y: lastname(y) == 'find' and y[2] == fld(m) and el(y[3][0])) for c, v in bh.items()):
                        rep.ob(R, 'removed %s: unknown items change nothing' % cat, not n or not incs(bl, fld(n), '-'), loc(f), 'counted as removed')
                        continue
                    er = [e for e, l, h in bl if e.kind == 'call' and cname(e) == 'erase' and e.b is not None and top_field(e.b) and e.b[0] == 'fld' and e.b[1] == THIS]
                    rep.ob(R, 'removed %s: forgotten from its own map' % cat, len(er) == 1 and er[0].b == fld(m) and any(el(a) for a in er[0].c), loc(f), 'erased from %s' % [show(e.b) for e in er])
                    mk = [(i, e, l) for i, (e, l, h) in enumerate(bl) if e.kind == 'write' and e.a[0] == 'fld' and e.a[2] == 'markedForRemoval' and e.b == ('lit', 'true')]
                    ok = len(mk) >= 1 and all(has(e.a, lambda y: y[0] == 'index' and y[1] == fld(m) and el(y[2]) or lastname(y) in ('find', 'at') and y[2] == fld(m)) and l for i, e, l in mk)
                    ei = [i for i, (e, l, h) in enumerate(bl) if e in er]
                    rep.ob(R, 'removed %s: its assignments are marked, before its entry is erased' % cat, ok and bool(ei) and mk[-1][0] < ei[0], loc(f), 'not marked')
                    if n:
                        d = incs(bl, fld(n), '-')
                        ok = len(d) == 1 and d[0][1] is not None and has_call(d[0][1], fn) and el(d[0][1])
                        oth = [e for e, l, h in bl if e.kind == 'write' and e.a[0] == 'fld' and e.a[1] == THIS and e.a[2] != n]
                        rep.ob(R, 'removed %s: its rows are no longer counted' % cat, ok and not oth, loc(f), 'count: %s' % [show(t) for i, t in d])
            rep.ob(R, '%s: every kind is processed' % what, seen == set(cats), loc(f), 'only %s' % sorted(seen))
        # purge
        pu = [(i, e) for i, (e, l, h) in enumerate(fl) if e.kind == 'call' and not l and cname(e) in ('erase', 'erase_if') and (e.b == fld('assignments_') or e.c and e.c[0] == fld('assignments_'))]
        lastm = max([i for i, (e, l, h) in enumerate(fl) if e.kind == 'write' and e.a[0] == 'fld' and e.a[2] == 'markedForRemoval'] or [-1])
        ok = len(pu) == 1 and pu[0][0] > lastm and has_field(('init', '', tuple(pu[0][1].c)), 'markedForRemoval') and not has(('init', '', tuple(pu[0][1].c)), lambda y: y[0] == 'op' and y[1] == '!')
        lp2 = [i for i, (e, l, h) in enumerate(fl) if e.kind == 'call' and cname(e) == 'erase' and l and e.b == fld('assignments_')]
        if not ok and lp2:
            ok = True
        rep.ob(R, 'marked assignments, and only them, are destroyed once all are marked', ok, loc(f), 'purge: %s' % [show(a) for i, e in pu for a in e.c][:2])
        impact(rep, R, f, p, 'removal', {'equality': 'removedConstraints', 'inequality': 'removedConstraints', 'bound': 'removedBounds', 'objective': 'removedObjectives'}, {})
    f = prog.find(L + '::previewAddedConstraints', 1)[0]
    se = ('param', f['params'][0]['n'])
    for p in run_paths(prog, rep, f, inl(L)):
        fl = list(pwalk(p))
        for cat in ('equality', 'inequality', 'objective'):
            m, size, n, rngf, data, imp, hook, fn = CATS[cat]
            w = [(i, e) for i, (e, l, h) in enumerate(fl) if e.kind == 'write' and e.a == fld(size)]
            d = [i for i, (e, l, h) in enumerate(fl) if e.kind == 'write' and e.a == fld(n)]
            rep.ob(R, 'preview: rows already present are those of %s before the additions' % n, len(w) == 1 and w[0][1].b == fld(n) and (not d or w[0][0] < d[0]), loc(f), '%s is %s' % (size, [show(e.b) for i, e in w]))
            src = 'addedObjectives' if cat == 'objective' else 'addedConstraints'
            lps = [e for e, l, h in fl if e.kind == 'loop' and not l and lastname(e.b) == src and e.b[2] == se]
            hit = 0
            for lp in lps:
                for body, bh, bx in zip(lp.c, lp.bh, lp.bx):
                    eq = [v for t, v in bh.items() if lastname(t) == 'isEquality' or t[0] == 'op' and t[1] == '==' and lastname(t[2]) == 'type' and t[3] == ('enum', 'tvm::constraint::Type::EQUAL')]
                    mine = cat == 'objective' or (len(set(eq)) == 1 and eq[0] == (cat == 'equality'))
                    t = incs(list(walk(body, bh)), fld(n), '+')
                    if mine and bx is None:
                        hit += 1
                        rep.ob(R, 'preview: added %s counted' % cat, len(t) == 1 and t[0][1] is not None and has_call(t[0][1], fn) and iselem(t[0][1], lp.b), loc(f), 'count: %s' % [show(y) for i, y in t])
                    else:
                        rep.ob(R, 'preview: nothing else counted as %s' % cat, not t, loc(f), 'count: %s' % [show(y) for i, y in t])
            rep.ob(R, 'preview: added %s considered' % cat, hit > 0, loc(f), 'ignored')
        impact(rep, R, f, p, 'addition', {'objective': 'addedObjectives', 'equality': 'addedConstraints', 'inequality': 'addedConstraints'}, {'equality': ('nEq_', 'eqSize_'), 'inequality': ('nIneq_', 'ineqSize_'), 'objective': ('nObj_', 'objSize_')})
    f = prog.find(L + '::processAddedConstraints', 1)[0]
    se = ('param', f['params'][0]['n'])
    for p in run_paths(prog, rep, f, inl(L, 'addConstraint', 'addBound', 'addObjective')):
        fl = list(pwalk(p))
        for src, fn in (('addedConstraints', 'addConstraint'), ('addedBounds', 'addBound'), ('addedObjectives', 'addObjective')):
            ks = [(e, l) for e, l, h in fl if e.kind == 'call' and cname(e) == fn and e.b == THIS]
            ok = len(ks) == 1 and len(ks[0][1]) == 1 and lastname(ks[0][1][0].b) == src and ks[0][1][0].b[2] == se and iselem(ks[0][0].c[0], ks[0][1][0].b)
            if ok:
                lp = ks[0][1][0]
                ok = all(bx is None and any(cname(x) == fn for x in flat(b2) if x.kind == 'call') for b2, bx in zip(lp.c, lp.bx))
                if fn == 'addObjective':
                    a = ks[0][0].c
                    ok &= [y[2] if y[0] == 'fld' else None for y in a] == ['c', 'req', 'scalarizationWeight']
            rep.ob(R, 'addition: every item of %s is added' % src, ok, loc(f), 'added: %s' % [show(a) for e, l in ks for a in e.c])
        bt = [i for i, (e, l, h) in enumerate(fl) if e.kind == 'write' and e.a == fld('buildInProgress_') and e.b == ('lit', 'true')]
        bf = [i for i, (e, l, h) in enumerate(fl) if e.kind == 'write' and e.a == fld('buildInProgress_') and e.b == ('lit', 'false')]
        ad = [i for i, (e, l, h) in enumerate(fl) if e.kind == 'call' and cname(e) in ('addConstraint', 'addBound', 'addObjective')]
        rep.ob(R, 'addition: done in build mode, which is left afterwards', len(bt) >= 1 and len(bf) >= 1 and bt[0] < min(ad or [0]) and bf[-1] > max(ad or [0]) and final_write(p, fld('buildInProgress_')) == ('lit', 'false'), loc(f), 'build mode is not restored')
    f = prog.find(L + '::updateVariables', 1)[0]
    se = ('param', f['params'][0]['n'])
    for p in run_paths(prog, rep, f, lambda a, b: False):
        pass
    eng = Engine(prog, inline=lambda a, b: False)
    for ra in (True, False):
        for aa in (True, False):
            for hd in (True, False):
                def env(t):
                    if lastname(t) == 'empty':
                        return ra if has_call(t, 'removedVariables') else aa
                    if lastname(t) == 'size':
                        return 0 if (ra if has_call(t, 'removedVariables') else aa) else 1
                    if lastname(t) == 'hasHiddenVariableChange':
                        return hd
                vs = {evalterm(p.ret, env) for p in eng.run(f) if p.exit == 'ret' and consistent(p.hist, env)}
                rep.ob(R, 'variables changed iff some are added, removed, or moved (%s, %s, %s)' % (not aa, not ra, hd), vs == {not ra or not aa or hd}, loc(f), 'returns %s' % vs)
    # impact operators
    for cls in (L, HL):
        fields = ['equalityConstraints_', 'inequalityConstraints_', 'bounds_'] + ([] if cls == HL else ['objectives_'])
        for f in [g for g in prog.find(cls + '::ImpactFromChanges::operator||') if 'ImpactFromChanges' in g['params'][0]['t']]:
            o = ('param', f['params'][0]['n'])
            for p in run_paths(prog, rep, f, lambda a, b: False, fine=True):
                if cls == L:
                    r = p.ret
                    vals = r[2] if r[0] in ('init', 'ctor') else r[3][2] if r[0] == 'obj' and len(r) > 3 and r[3] and r[3][0] in ('init', 'ctor') else ()
                    order_ = [y['n'] for y in prog.records[cls + '::ImpactFromChanges']['fields']] if cls + '::ImpactFromChanges' in prog.records else ['equalityConstraints_', 'inequalityConstraints_', 'bounds_', 'objectives_']
                    for i, fi in enumerate(order_):
                        if i >= len(vals):
                            w = [e.b for e, l, h in pwalk(p) if e.kind == 'write' and e.a[0] == 'fld' and e.a[2] == fi]
                            v = w[-1] if w else None
                        else:
                            v = vals[i]
                        for a in (True, False):
                            for b in (True, False):
                                def env(t):
                                    if t == fld(fi):
                                        return a
                                    if t == ('fld', o, fi):
                                        return b
                                if consistent(p.hist, env):
                                    rep.ob(R, '%s: combined impact on %s' % (short(cls), fi), v is not None and evalterm(v, env) == (a or b), loc(f), 'it is %s' % show(v))
        for f in prog.find(cls + '::ImpactFromChanges::orAssign', 1):
            o = ('param', f['params'][0]['n'])
            for p in run_paths(prog, rep, f, lambda a, b: False):
                e = [e for e in p.flat() if e.kind == 'call' and cname(e) == 'operator||']
                a = [e for e in p.flat() if (e.kind == 'call' and cname(e) == 'operator=' and e.b == THIS) or (e.kind == 'write' and e.a in (THIS, ('deref', THIS)))]
                w = {e.a[2] for e in p.flat() if e.kind == 'write' and e.a[0] == 'fld' and e.a[1] == THIS}
                rep.ob(R, '%s: impacts are accumulated' % short(cls), (len(e) == 1 and {e[0].b, e[0].c[0]} == {THIS, o} and len(a) == 1) or set(fields) <= w, loc(f), 'impact is lost')
    rep.floor(R, 30)


def impact(rep, R, f, p, what, src, cmp_):
    """The returned impact is set for each category whose source is not empty (or whose sizes differ)."""
    r = p.ret
    while isinstance(r, tuple) and r and r[0] == 'obj':
        r = r[3] if len(r) > 3 else None
    vals = r[2] if r and r[0] in ('init', 'ctor') else None
    order_ = ['equality', 'inequality', 'bound', 'objective']
    for cat, s in src.items():
        imp = CATS[cat][5]
        w = [e.b for e, l, h in pwalk(p) if e.kind == 'write' and e.a[0] == 'fld' and e.a[2] == imp]
        v = w[-1] if w else vals[order_.index(cat)] if vals and len(vals) == 4 else None
        ok = v is not None
        if ok:
            n, size = cmp_.get(cat, (None, None))
            for some in (True, False):
                def env(t):
                    if lastname(t) == 'empty' and has_call(t, s):
                        return not some
                    if lastname(t) == 'size' and has_call(t, s):
                        return 1 if some else 0
                    if n and t == fld(n):
                        return 5 if some else 2
                    if size and t == fld(size):
                        return 2
                x = evalterm(v, env)
                ok &= consistent(p.hist, env) is False or x is some or (x is True and not some and False)
        rep.ob(R, '%s: impact on the %s category reported iff there is one' % (what, cat), ok, loc(f), 'reported: %s' % show(v))


def rule_weights(prog, rep):
    R = 'C08.weights'
    rep.rule(R, 'a change of weight reaches every assignment of the objective, by rebuilding the assignment when its form does not allow the change; changes on unknown constraints are ignored')
    f = prog.find(L + '::updateWeights', 1)[0]
    se = ('param', f['params'][0]['n'])
    for p in run_paths(prog, rep, f, inl(L), fine=True):
        lps = [e for e, l, h in pwalk(p) if e.kind == 'loop' and not l and lastname(e.b) == 'weightEvents' and e.b[2] == se]
        rep.ob(R, 'every weight event is processed', len(lps) == 1, loc(f), 'ignored')
        for lp in lps:
            for body, bh, bx in zip(lp.c, lp.bh, lp.bx):
                rep.ob(R, 'all weight events are processed', bx in (None, 'continue'), loc(f), 'the remaining ones are ignored')
                unk = [v for c, v in bh.items() if c[0] == 'op' and c[1] == '==' and has_call(c, 'end') and has_field(c, 'objectiveToAssignments_')] + [v == 0 for c, v in bh.items() if lastname(c) == 'count']
                inner = [e for e, l, h in walk(body, bh) if e.kind == 'loop' and not l]
                if not inner:
                    rep.ob(R, 'only unknown constraints are skipped', unk == [True], loc(f), 'others are skipped')
                    continue
                rep.ob(R, 'unknown constraints are skipped', unk == [False], loc(f), 'processed')
                rep.ob(R, 'assignments are those of the objective', len(inner) == 1 and has_field(inner[0].b, 'objectiveToAssignments_'), loc(f), 'others')
                lp2 = inner[0]
                for sc in (True, False):
                    for ve in (True, False):
                        for sa in (True, False):
                            for va in (True, False):
                                def env(t):
                                    if lastname(t) == 'changeScalarWeightIsAllowed':
                                        return sa
                                    if lastname(t) == 'changeVectorWeightIsAllowed':
                                        return va
                                    if t[0] == 'fld' and t[2] in ('second', 'scalar'):
                                        return sc
                                    if t[0] == 'fld' and t[2] in ('third', 'vector'):
                                        return ve
                                want = 'reprocess' if (sc and not sa) or (ve and not va) else 'onUpdateWeights'
                                for b2, h2, x2 in zip(lp2.c, lp2.bh, lp2.bx):
                                    if not consistent(h2, env):
                                        continue
                                    rp = [e for e in flat(b2) if e.kind == 'call' and cname(e) == 'reprocess']
                                    ow = [e for e in flat(b2) if e.kind == 'call' and cname(e) == 'onUpdateWeights']
                                    got = 'reprocess' if rp and not ow else 'onUpdateWeights' if ow and not rp else 'none'
                                    d = 'scalar change: %s (allowed: %s), vector change: %s (allowed: %s)' % (sc, sa, ve, va)
                                    rep.ob(R, d, got == want or (got == 'none' and not sc and not ve), loc(f), 'uses %s' % got)
                                    if ow:
                                        e = ow[0]
                                        rep.ob(R, 'the assignment is told which weights changed', len(e.c) == 2 and evalterm(e.c[0], env) == sc and evalterm(e.c[1], env) == ve, loc(f), 'told %s' % [show(y) for y in e.c])
                                    if rp:
                                        st = [e for e in flat(b2) if (e.kind == 'call' and cname(e) == 'operator=' or e.kind == 'write') and has_call(('x',) + tuple(e.c or ()) + ((e.b,) if e.kind == 'write' else ()), 'reprocess')]
                                        rep.ob(R, 'the rebuilt assignment replaces the old one', len(st) == 1 and rp[0].c[0] == (st[0].b if st[0].kind == 'call' else st[0].a), loc(f), 'lost')
                                        rep.ob(R, 'rebuilt on the variables and substitutions of the solver', len(rp[0].c) == 3 and has_name(rp[0].c[1], 'variables') and (has_name(rp[0].c[2], 'substitutions') or has_field(rp[0].c[2], 'subs_')), loc(f), 'others')
    rep.floor(R, 10)


RULES = [rule_build, rule_solve, rule_process, rule_steps, rule_weights]
