"""C06: every change of a problem's definition is recorded once, reaches every computation data attached to the problem, and is taken into account by the next update."""
from ..q import *
from .c04_bounds import TYPES, TQ

EXPLANATION = ('Path summaries of every way to add or remove a task or a substitution, of the callbacks registered on the requirements, of finalize/update and of the event queue: on every route the set of '
               'effects (registration, callbacks, event emission to all computation data, invalidation of the finalized state, update-graph inputs) is complete and concerns the same task, and a refusal happens before any of them.')
ASSUMPTIONS = ['the creation of a LinearizedTaskConstraint is the only fallible step of the addition of a task besides memory exhaustion']
CP = 'tvm::ControlProblem::'
LCP = 'tvm::LinearizedControlProblem::'
EV = 'tvm::scheme::internal::ProblemDefinitionEvent'
EQ = EV + '::Type::'
PCD = 'tvm::scheme::internal::ProblemComputationData::'
EVENTS = ('WeightChange', 'AnisotropicWeightChange', 'TaskAddition', 'TaskRemoval', 'SubstitutionAddition', 'SubstitutionRemoval')
SSR = 'tvm::requirements::abstract::SingleSolvingRequirement'


def inl(g, o):
    q = shortq(g['q'])
    return q.startswith((CP, LCP, 'tvm::requirements::', EV)) and not q.startswith('tvm::graph')


def events(p, emitter=None):
    """Events emitted on the route: (event, type, emitter term, reaches all computation data)."""
    for e, loops, hist in pwalk(p):
        if e.kind == 'call' and cname(e) == 'addEvent' and not e.inl and e.c:
            a = e.c[0]
            ty = em = None
            if a[0] in ('ctor', 'init') and len(a[2]) == 2:
                ty = a[2][0][1].split('::')[-1] if a[2][0][0] == 'enum' else None
                em = a[2][1]
            allc = len(loops) >= 1 and loops[-1].b == fld('computationData_') and has(e.b, lambda x: x[0] == 'elem' and x[1] == fld('computationData_'))
            if loops:
                # every element: no route of the loop skips it or leaves early
                L = loops[-1]
                for body, bx in zip(L.c, L.bx or [None] * len(L.c)):
                    if not any(x.kind == 'call' and cname(x) == 'addEvent' for x in flat(body)) or bx == 'break':
                        allc = False
            yield e, ty, em, allc


def rule_tasks(prog, rep):
    R = 'C06.task'
    rep.rule(R, 'adding a task registers it once, hooks both weight callbacks, emits TaskAddition to all computation data and invalidates the finalized state; removing it does the converse')
    for q, cls in ((CP, 'tvm::ControlProblem'), (LCP, 'tvm::LinearizedControlProblem')):
        for f in prog.find(q + 'add'):
            if f.get('body') is None:
                continue
            if any('Substitution' in x['t'] for x in f['params']):
                continue
            nm = f['fid'].split('(')[0].replace('tvm::', '') + ('(ptr)' if 'shared_ptr<tvm::TaskWithRequirements>' in f['params'][0]['t'] else '(%s)' % f['params'][0]['t'].replace('tvm::', '')[:50])
            eng = Engine(prog, inline=inl, dyn=cls)
            ps = eng.run(f)
            rep.used(eng, ps)
            for p in ps:
                if p.exit == 'throw':
                    rep.ob(R, '%s: refusal changes nothing' % nm, not any(touches_this(e, prog) for e in p.flat()), loc(f), 'the problem is changed before a throw')
                    continue
                ins = list(inserted(p, 'tr_'))
                ok = len(ins) == 1 and not ins[0][2]
                rep.ob(R, '%s: task registered once' % nm, ok, loc(f), '%d registrations' % len(ins))
                if not ok:
                    continue
                t = ins[0][1][-1]
                if f['params'] and 'shared_ptr<tvm::TaskWithRequirements>' in f['params'][0]['t']:
                    rep.ob(R, '%s: the given task is registered' % nm, t == ('param', f['params'][0]['n']), ins[0][0].where(), 'registers %s' % show(t))
                elif len(f['params']) == 2 and f['params'][0]['t'].startswith('const tvm::Task &'):
                    rep.ob(R, '%s: registers the given task and requirements' % nm, t[0] == 'new' and t[2] == tuple(('param', x['n']) for x in f['params']), ins[0][0].where(), 'registers %s' % show(t))
                    rep.ob(R, '%s: returns the registered task' % nm, p.ret == t, loc(f), 'returns %s' % show(p.ret))
                evs = list(events(p))
                rep.ob(R, '%s: one TaskAddition event for that task to every computation data' % nm, len(evs) == 1 and evs[0][1] == 'TaskAddition' and evs[0][2] == t and evs[0][3],
                       (evs[0][0].where() if evs else loc(f)), 'emits %s' % [(x[1], show(x[2]), 'all data' if x[3] else 'not all data') for x in evs])
                rep.ob(R, '%s: invalidates the finalized state' % nm, final_write(p, fld('finalized_')) == ('lit', 'false'), loc(f), 'finalized_ is %s' % show(final_write(p, fld('finalized_'))))
                tok = list(inserted(p, 'callbackTokens_'))
                okt = bool(tok) and all(x[1][0] == t for x in tok)
                rep.ob(R, '%s: callback tokens kept for that task' % nm, okt, (tok[0][0].where() if tok else loc(f)), 'tokens stored under %s' % [show(x[1][0]) for x in tok])
                regs = [e for e, l, h in pwalk(p) if e.kind == 'call' and cname(e) == 'registerCallback']
                kinds = {}
                for e in regs:
                    w = [x for x in ('weight_', 'aWeight_', 'priority_', 'evalType_') if has_field(e.b, x)]
                    lam = e.c[0]
                    got = []
                    if lam[0] == 'lambda':
                        for q2 in eng.run_lambda(lam):
                            got.append([(x[1], x[2], x[3]) for x in events(q2)])
                    kinds[w[0] if w else show(e.b)] = (e, got, has(e.b, lambda y: y == t))
                    # the token must be stored in what ends in callbackTokens_
                for w, ty in (('weight_', 'WeightChange'), ('aWeight_', 'AnisotropicWeightChange')):
                    if w not in kinds:
                        rep.bad(R, '%s: %s emitted when the requirement changes' % (nm, ty), loc(f), 'no callback is registered on %s' % w)
                        continue
                    e, got, mine = kinds[w]
                    ok = mine and got and all(len(g) == 1 and g[0][0] == ty and g[0][1] == t and g[0][2] for g in got)
                    rep.ob(R, '%s: %s emitted when the requirement changes' % (nm, ty), ok, e.where(), 'the callback on %s emits %s' % (show(e.b), [[(a, show(b)) for a, b, c in g] for g in got]))
                    # handle kept
                    kept = any(has(x, lambda y: y[0] == 'call' and shortq(y[1]).endswith('registerCallback') and y[2] == e.b) for e2, l, h in pwalk(p) if e2.kind in ('call', 'write') and e2 is not e
                               for x in ((e2.c or ()) if e2.kind == 'call' else (e2.b,)))
                    rep.ob(R, '%s: token of %s kept' % (nm, ty), kept, e.where(), 'the token is dropped, which unregisters the callback')
        f = prog.find(q + 'remove', 1)
        f = [g for g in f if 'TaskWithRequirements' in g['params'][0]['t']][0]
        t = ('param', f['params'][0]['n'])
        nm = q.replace('tvm::', '') + 'remove'
        eng = Engine(prog, inline=inl, dyn=cls)
        ps = eng.run(f)
        rep.used(eng, ps)
        full = 0
        for p in ps:
            if p.exit == 'throw':
                rep.ob(R, '%s: refusal changes nothing' % nm, not any(touches_this(e, prog) for e in p.flat()), loc(f), 'the problem is changed before the removal is refused')
                continue
            er = list(erased(p, 'tr_'))
            evs = [x for x in events(p) if x[1] == 'TaskRemoval']
            tok = list(erased(p, 'callbackTokens_'))
            fin = final_write(p, fld('finalized_')) == ('lit', 'false')
            subs = [x for x in events(p) if x[1] == 'SubstitutionRemoval']
            if not er:
                rep.ob(R, '%s: unknown task ignored' % nm, not evs and not tok and any(has_field(c, 'tr_') or has_field(c, 'constraints_') for c in p.hist), loc(f),
                       'the task is kept but %s' % ('an event is emitted' if evs else 'its callbacks are dropped' if tok else 'it was not searched'))
            else:
                full += 1
                rep.ob(R, '%s: unregisters that task' % nm, len(er) == 1 and identifies(er[0][1], {**p.hist, **er[0][3]}, t, p), er[0][0].where(), 'erases %s' % [show(x) for x in er[0][1]])
                rep.ob(R, '%s: one TaskRemoval event for that task to every computation data' % nm, len(evs) == 1 and evs[0][2] == t and evs[0][3], loc(f), 'emits %s' % [(x[1], show(x[2]), 'all data' if x[3] else 'not all data') for x in evs])
                rep.ob(R, '%s: drops the callbacks of that task' % nm, len(tok) == 1 and identifies(tok[0][1], p.hist, t, p), loc(f), 'tokens erased: %s' % [[show(y) for y in x[1]] for x in tok])
                rep.ob(R, '%s: invalidates the finalized state' % nm, fin, loc(f), 'the problem stays finalized')
            if q == LCP:
                rule_lcp_remove(rep, R, nm, f, p, t, bool(er), subs)
        rep.ob(R, '%s: a registered task is removed' % nm, full > 0, loc(f), 'no route removes the task')
    rep.floor(R, 30)


def rule_lcp_remove(rep, R, nm, f, p, t, base, subs):
    er = list(erased(p, 'constraints_'))
    ri = [e for e in calls(p, 'removeInput') if not e.inl]
    utd = final_write(p, fld('updater_', 'upToDate_')) == ('lit', 'false')
    if not er:
        rep.ob(R, '%s: task without constraint leaves the constraints and the update graph' % nm, not ri and any(has_field(c, 'constraints_') for c in p.hist), loc(f), 'the input of the update graph is removed while the constraint is kept')
        return
    rep.ob(R, '%s: constraint of the task forgotten' % nm, identifies(er[0][1], p.hist, t, p), er[0][0].where(), 'erases %s' % [show(x) for x in er[0][1]])
    ok = len(ri) == 1 and has_field(ri[0].c[0], 'constraint') and identifies(ri[0].c[0], p.hist, t, p)
    rep.ob(R, '%s: constraint of the task is no longer an input of the update graph' % nm, ok and utd, (ri[0].where() if ri else loc(f)),
           'removes input %s%s' % ([show(e.c[0]) for e in ri], '' if utd else ', graph not invalidated'))
    if ok:
        rep.ob(R, '%s: input removed while the constraint is known' % nm, first(p, lambda e: e is ri[0]) < first(p, lambda e: e is er[0][0]) or holds(f, 'std::shared_ptr<'), ri[0].where(), 'the constraint is used after having been erased')
    # substitution using it
    g = [(c, v) for c, v in p.hist.items() if c[0] == 'call' and shortq(c[1]).endswith('getSubstitutionFor')]
    q = [e for e in calls(p, 'getSubstitutionFor')]
    rep.ob(R, '%s: the substitution using the constraint is looked for' % nm, bool(q) and all(identifies(e.c[0], p.hist, t, p) for e in q), loc(f), 'no lookup of the substitution')
    if g and g[0][1] is True:
        s = g[0][0]
        rm = [e for e in calls(p, 'remove') if e.b == fld('substitutions_')]
        rep.ob(R, '%s: the substitution using the constraint is removed' % nm, len(rm) == 1 and rm[0].c[0] == s and len(subs) == 1 and subs[0][3], loc(f), 'the substitution stays in the problem')
    rep.ob(R, '%s: the task itself is searched in the problem' % nm, base or any(has_field(c, 'tr_') for c in p.hist), loc(f), 'the constraint is removed but the task is kept')


def rule_linear(prog, rep):
    R = 'C06.constraint'
    rep.rule(R, 'each task of a linearized problem has exactly one constraint, built from that task with its requirements, and the Jacobian and the bounds of its type are inputs of the update graph')
    fs = [g for g in prog.find(LCP + 'add') if g.get('body') is not None and 'shared_ptr<tvm::TaskWithRequirements>' in g['params'][0]['t']]
    f = fs[0]
    t = ('param', f['params'][0]['n'])
    want = {'EQUAL': {'E'}, 'GREATER_THAN': {'L'}, 'LOWER_THAN': {'U'}, 'DOUBLE_SIDED': {'L', 'U'}}
    for (c,), ps in bycase(prog, rep, f, [(TQ, TYPES)], inline=inl, dyn='tvm::LinearizedControlProblem'):
        n = 0
        for p in ps:
            if p.exit != 'ret':
                continue
            n += 1
            ins = list(inserted(p, 'constraints_'))
            ok = len(ins) == 1 and ins[0][1][0] == t
            rep.ob(R, '%s: constraint recorded for the task' % c, ok, (ins[0][0].where() if ins else loc(f)), 'recorded under %s' % [show(x[1][0]) for x in ins])
            news = [i for i, (e, l, h) in enumerate(pwalk(p)) if e.kind == 'new' and 'LinearizedTaskConstraint' in str(e.a)]
            mut = first(p, lambda e: touches_this(e, prog))
            rep.ob(R, '%s: nothing is registered before the constraint is built' % c, bool(news) and (mut is None or news[0] < mut), loc(f), 'the problem is changed although the constraint may be refused')
            if not ok:
                continue
            val = ins[0][1][1] if len(ins[0][1]) > 1 else None
            W = {}
            for e in p.flat():
                if e.kind == 'write' and e.a[0] == 'fld' and e.a[1] == val:
                    W[e.a[2]] = e.b
            if val is not None and val[0] in ('init', 'ctor') and len(val[2]) == 3:
                W = dict(zip(('constraint', 'requirements', 'bound'), val[2]))
            con = W.get('constraint')
            rep.ob(R, '%s: constraint is the linearization of the task' % c, con is not None and con[0] == 'new' and 'LinearizedTaskConstraint' in con[1] and con[2] == (fld('task', base=t),), loc(f), 'constraint is %s' % show(con))
            r = W.get('requirements')
            rep.ob(R, '%s: requirements are those of the task' % c, r is not None and (r == t or r == fld('requirements', base=t) or has(r, lambda x: x == fld('requirements', base=t))), loc(f), 'requirements are %s' % show(r))
            b = W.get('bound')
            rep.ob(R, '%s: bound flag is that of the constraint' % c, b is not None and b[0] == 'call' and shortq(b[1]).endswith('::isBound') and b[3] in ((con,), (fld('constraint', base=val),)), loc(f), 'bound is %s' % show(b))
            outs = set()
            cc = {con, fld('constraint', base=val)}
            for e in calls(p, 'addInput'):
                if e.inl:
                    continue
                if e.c[0] in cc:
                    outs |= {show(x).split('::')[-1] for x in e.c[1:]}
                else:
                    rep.bad(R, '%s: inputs of the update graph belong to the constraint' % c, e.where(), 'input %s' % show(e.c[0]))
            rep.ob(R, '%s: Jacobian and bounds are inputs of the update graph' % c, outs == want[c] | {'Jacobian'}, loc(f), 'inputs: %s, needed: %s' % (sorted(outs), sorted(want[c] | {'Jacobian'})))
            rep.ob(R, '%s: update graph invalidated' % c, final_write(p, fld('updater_', 'upToDate_')) == ('lit', 'false'), loc(f), 'the update graph is not rebuilt')
        rep.ob(R, '%s: accepted' % c, n > 0, loc(f), 'tasks of this type are refused')
    # conversion from another problem
    for g in [x for x in prog.find(LCP + 'LinearizedControlProblem', 1) if x.get('body') is not None and 'const tvm::ControlProblem &' in x['params'][0]['t']]:
        eng = Engine(prog, inline=lambda h, o: inl(h, o) and shortq(h['q']) != LCP + 'add', dyn='tvm::LinearizedControlProblem')
        src = ('param', g['params'][0]['n'])
        for p in eng.run(g):
            adds = [(e, l) for e, l, h in pwalk(p) if e.kind == 'call' and shortq(e.a) == LCP + 'add']
            ok = len(adds) == 1 and len(adds[0][1]) == 1 and adds[0][1][0].b == fld('tr_', base=src) and adds[0][0].c[0] == ('elem', fld('tr_', base=src)) or \
                (len(adds) == 1 and len(adds[0][1]) == 1 and has_field(adds[0][1][0].b, 'tr_') and norm(adds[0][0].c[0])[0] == 'elem')
            rep.ob(R, 'conversion of a problem adds each of its tasks', ok, loc(g), 'adds %s' % [show(a[0].c[0]) for a in adds])
        rep.used(eng)
    # queries
    for name, np in (('variables', 0), ('constraints', 0)):
        g = prog.find(LCP + name, np)[0]
        eng = Engine(prog, inline=lambda h, o: False)
        for p in eng.run(g):
            L = [e for e in p.flat() if e.kind == 'loop' and e.b == fld('constraints_')]
            ok = len(L) == 1 and all(any(x.kind == 'call' and cname(x) in INSERT | {'add'} and any(has_field(a, 'second') for a in x.c) for x in flat(b) if x.kind == 'call') and bx != 'break' for b, bx in zip(L[0].c, L[0].bx))
            rep.ob(R, '%s() gathers those of every constraint' % name, ok, loc(g), 'some constraint is skipped')
        rep.used(eng)
    rep.floor(R, 30)


def rule_subs(prog, rep):
    R = 'C06.substitution'
    rep.rule(R, 'adding or removing a substitution updates the set of substitutions, emits the event to all computation data and invalidates the finalized state')
    for name, ev in (('add', 'SubstitutionAddition'), ('remove', 'SubstitutionRemoval')):
        fs = [g for g in prog.find(LCP + name) if g.get('body') is not None and 'hint::Substitution' in g['params'][0]['t']]
        if not fs:
            raise AnalysisBroken('LinearizedControlProblem::%s(Substitution) not found' % name)
        f = fs[0]
        s = ('param', f['params'][0]['n'])
        eng = Engine(prog, inline=inl, dyn='tvm::LinearizedControlProblem')
        for p in eng.run(f):
            if p.exit != 'ret':
                continue
            done = [i for i, (e, l, h) in enumerate(pwalk(p)) if e.kind == 'call' and e.b == fld('substitutions_') and cname(e) == name and e.c == (s,)]
            rep.ob(R, '%s: set of substitutions changed' % name, len(done) == 1, loc(f), '%d changes' % len(done))
            evs = list(events(p))
            rep.ob(R, '%s: one %s event to every computation data' % (name, ev), len(evs) == 1 and evs[0][1] == ev and evs[0][3], loc(f), 'emits %s' % [(x[1], x[3]) for x in evs])
            rep.ob(R, '%s: invalidates the finalized state' % name, final_write(p, fld('finalized_')) == ('lit', 'false'), loc(f), 'the problem stays finalized')
            if done:
                rep.ob(R, '%s: refusal changes nothing' % name, first(p, lambda e: touches_this(e, prog)) == done[0], loc(f), 'the problem is changed before the substitution is accepted')
        rep.used(eng)
    rep.floor(R, 6)


def rule_update(prog, rep):
    R = 'C06.update'
    rep.rule(R, 'update() finalizes if needed, then runs the update graph, then the derived update; finalizing rebuilds the graph from all the inputs whenever they changed')
    cls = 'tvm::LinearizedControlProblem'
    f = prog.find(CP + 'update', 0)[0]
    eng = Engine(prog, inline=inl, dyn=cls)
    ps = eng.run(f)
    rep.used(eng, ps)
    for p in ps:
        fin = [v for c, v in p.hist.items() if c == fld('finalized_')]
        utd = [v for c, v in p.hist.items() if c == fld('updater_', 'upToDate_')]
        run = [i for i, (e, l, h) in enumerate(pwalk(p)) if e.kind == 'call' and not e.inl and cname(e) == 'execute' and has_field(e.b, 'updateGraph_')]
        ups = [i for i, (e, l, h) in enumerate(pwalk(p)) if e.kind == 'call' and cname(e) == 'updateSubstitutions']
        rep.ob(R, 'update: runs the update graph once', len(run) == 1, loc(f), '%d runs' % len(run))
        rep.ob(R, 'update: substitutions updated after the graph has run', len(ups) == 1 and run and ups[0] > run[0], loc(f), 'substitutions use stale values')
        sf = [i for i, (e, l, h) in enumerate(pwalk(p)) if e.kind == 'call' and not e.inl and cname(e) == 'finalize' and e.b == fld('substitutions_')]
        if fin != [True]:
            rep.ob(R, 'update: a problem that changed is finalized before the graph is run', fin == [False] and sf and run and sf[0] < run[0] and final_write(p, fld('finalized_')) == ('lit', 'true'), loc(f),
                   'substitutions are not finalized')
            seq = [cname(e) for e, l, h in pwalk(p) if e.kind == 'call' and not e.inl and e.b == fld('updater_', 'updateGraph_') and cname(e) in ('clear', 'add', 'update', 'execute')]
            if utd != [True]:
                rep.ob(R, 'update: graph rebuilt from the inputs when they changed', utd == [False] and seq == ['clear', 'add', 'update', 'execute'] and final_write(p, fld('updater_', 'upToDate_')) == ('lit', 'true'), loc(f), 'graph operations: %s' % seq)
                ad = [e for e in calls(p, 'add') if e.b == fld('updater_', 'updateGraph_')]
                rep.ob(R, 'update: graph built on the inputs of the problem', len(ad) == 1 and ad[0].c[0] == fld('updater_', 'inputs_'), loc(f), 'graph built on %s' % [show(e.c[0]) for e in ad])
        else:
            rep.ob(R, 'update: an unchanged problem is not finalized again', not sf, loc(f), 'finalized at every update')
    for g in prog.find(CP + 'Updater::addInput') + prog.find(CP + 'Updater::removeInput'):
        if g.get('body') is None or g.get('tmpl'):
            continue
        e2 = Engine(prog, inline=inl)
        for p in e2.run(g):
            rep.ob(R, '%s invalidates the graph' % g['q'].split('::')[-1].split('<')[0], final_write(p, fld('upToDate_')) == ('lit', 'false'), loc(g), 'the graph is not rebuilt')
        rep.used(e2)
    rep.floor(R, 6)


def rule_queue(prog, rep):
    R = 'C06.queue'
    rep.rule(R, 'events are handled in the order of the changes; a removal discards exactly the pending events of its own task, and itself when the addition was still pending')
    f = prog.find(PCD + 'addEvent', 1)[0]
    eng = Engine(prog, inline=lambda g, o: shortq(g['q']).startswith((EV, PCD)))
    ps = eng.run(f)
    rep.used(eng, ps)
    e0 = ('param', f['params'][0]['n'])
    ty = fld('type_', base=e0)
    Q = fld('events_')
    for name in EVENTS:
        got = [p for p in ps if name in cases(p.hist, ty, EVENTS)]
        rep.ob(R, '%s: accepted' % name, bool(got), loc(f), 'no route')
        for p in got:
            if p.exit != 'ret':
                continue
            push = [e for e, l, h in pwalk(p) if e.kind == 'call' and not e.inl and cname(e) in INSERT and top_field(e.b) == 'events_']
            er = [e for e, l, h in pwalk(p) if e.kind == 'call' and not e.inl and cname(e) in ERASE and top_field(e.b) == 'events_']
            if name != 'TaskRemoval':
                rep.ob(R, '%s: appended' % name, len(push) == 1 and push[0].c == (e0,) and cname(push[0]) in ('push', 'push_back', 'emplace', 'emplace_back') and not er, loc(f), 'the event is %s' % ('dropped' if not push else 'not simply appended'))
                continue
            rep.ob(R, 'TaskRemoval: appended at most once', len(push) <= 1 and all(x.c == (e0,) for x in push), loc(f), '%d insertions' % len(push))
    # the removal loop
    rem = [p for p in ps if cases(p.hist, ty, EVENTS) == ['TaskRemoval']]
    rep.ob(R, 'TaskRemoval: may cancel a pending addition, may be recorded', {bool([e for e in calls(p, INSERT) if top_field(e.b) == 'events_']) for p in rem} == {True, False}, loc(f), 'the removal is always or never recorded')
    for p in rem:
        loops = [e for e in p.flat() if e.kind == 'loop']
        pushed = any(top_field(e.b) == 'events_' and not e.inl for e in calls(p, INSERT))
        flags = {c: v for c, v in p.hist.items() if c and c[0] == 'loopvar'}
        if len(loops) != 1:
            raise AnalysisBroken('event discarding not understood')
        L = loops[0]
        for same in (True, False):
            for pend in EVENTS:
                for body, bh, bx in zip(L.c, L.bh, L.bx):
                    ems = [v for c, v in bh.items() if c[0] == 'op' and c[1] == '==' and has_field(c, 'emitter_')]
                    if ems and ems[0] != same:
                        continue
                    its = {c[2] for c in bh if c[0] == 'op' and c[1] == '==' and c[2][0] == 'fld' and c[2][2] == 'type_' and c[2] != ty}
                    if its and pend not in cases(bh, next(iter(its)), EVENTS):
                        continue
                    dropped = any(x.kind == 'call' and cname(x) == 'erase' for x in body)
                    lw = {x.a: x.b for x in body if x.kind == 'lwrite'}
                    sup = [v for k, v in lw.items() if v in (('lit', 'false'), ('lit', 'true'))]
                    want = same and pend != 'TaskRemoval'
                    rep.ob(R, 'removal: pending %s of %s task %s' % (pend, 'the same' if same else 'another', 'discarded' if want else 'kept'), dropped == want and bx != 'break', '%s:%s' % (f['file'], f['l']), 'pending event is %s' % ('discarded' if dropped else 'kept'))
                    rep.ob(R, 'removal: pending %s of %s task %s the removal itself' % (pend, 'the same' if same else 'another', 'cancels' if want and pend == 'TaskAddition' else 'does not cancel'),
                           bool(sup) == (want and pend == 'TaskAddition'), loc(f), 'the removal is %s' % ('cancelled' if sup else 'recorded'))
        if len(flags) == 1:
            (c, v), = flags.items()
            init = c[-1] == ('lit', 'true')
            rep.ob(R, 'removal: recorded unless cancelled', pushed == (v == init), loc(f), 'the removal is %s' % ('recorded although cancelled' if pushed else 'lost'))
    # FIFO
    g = prog.find(PCD + 'popEvent', 0)[0]
    e2 = Engine(prog, inline=lambda h, o: False)
    for p in e2.run(g):
        if p.exit != 'ret':
            continue
        pops = [i for i, (e, l, h) in enumerate(pwalk(p)) if e.kind == 'call' and cname(e) in ('pop', 'pop_front')]
        rep.ob(R, 'oldest event first', p.ret is not None and has_call(p.ret, 'front') and has_field(p.ret, 'events_') and len(pops) == 1, loc(g), 'returns %s' % show(p.ret))
    rep.used(e2)
    h = prog.find(PCD + 'hasEvents', 0)[0]
    for p in Engine(prog).run(h):
        rep.ob(R, 'pending events reported', p.ret == ('op', '!', ('call', 'std::queue::empty', Q, ())) or has_call(p.ret, 'empty') and p.ret[0] == 'op' and p.ret[1] == '!' or has_call(p.ret, 'size') and not has_call(p.ret, 'empty'), loc(h), 'returns %s' % show(p.ret))
    rep.floor(R, 20)


def rule_requirement(prog, rep):
    R = 'C06.requirement'
    rep.rule(R, 'every way to change the value of a requirement attached to a task runs the registered callbacks after the value is stored')
    n = 0
    for f in prog.funcs.values():
        if f.get('body') is None or not shortq(f['q']).startswith(SSR + '::'):
            continue
        cls = f.get('cls') or ''
        if not cls.rstrip('>').rstrip().endswith('false'):
            continue
        nm = shortq(f['q']).split('::')[-1]
        if f.get('ctor') or nm not in ('value', 'operator='):
            continue
        if nm == 'value' and not f['params']:
            continue
        eng = Engine(prog, inline=lambda g, o: shortq(g['q']).startswith(SSR))
        for p in eng.run(f):
            if p.exit != 'ret':
                continue
            w = lastidx(p, lambda e: (e.kind == 'write' and e.a == fld('value_')) or (e.kind == 'call' and not e.inl and cname(e) == 'operator=' and e.b == fld('value_')))
            if w is None:
                continue
            r = lastidx(p, lambda e: e.kind == 'call' and shortq(e.a).endswith('CallbackManager::run'))
            n += 1
            T = cls[len(SSR) + 1:].split(',')[0]
            rep.ob(R, '%s<%s>(%s): callbacks run after the change' % (nm, T[:20], f['params'][0]['t'].split('<')[0].replace('tvm::requirements::abstract::', '')), r is not None and r > w, loc(f), 'the schemes are not told that the requirement changed')
            d = final_write(p, fld('default_'))
            rep.ob(R, '%s<%s>(%s): default flag updated' % (nm, T[:20], f['params'][0]['t'].split('<')[0].replace('tvm::requirements::abstract::', '')), d == ('lit', 'false') or (d is not None and has_name(d, 'isDefault')) or (d is not None and has_field(d, 'default_')), loc(f), 'default flag is %s' % show(d))
        rep.used(eng)
    # callbacks: only those whose token is alive, all of them
    f = prog.find('tvm::internal::CallbackManager::run', 0)[0]
    eng = Engine(prog, inline=lambda g, o: False)
    for p in eng.run(f):
        L = [e for e in p.flat() if e.kind == 'loop']
        ok = len(L) == 1
        if ok:
            for body, bh, bx in zip(L[0].c, L[0].bh, L[0].bx):
                alive = [v for c, v in bh.items() if has_call(c, 'isPaired') and isinstance(v, bool)]
                inv = any(x.kind == 'call' and (cname(x) in ('invoke', 'operator()')) for x in body)
                if not alive and not inv and not any(x.kind == 'call' and cname(x) == 'erase' for x in body):
                    continue
                rep.ob(R, 'callback run iff its token is alive', alive == [inv] and bx != 'break', loc(f), 'token %s, callback %s' % (alive, 'run' if inv else 'not run'))
    rep.used(eng)
    g = prog.find('tvm::internal::CallbackManager::registerCallback', 1)[0]
    eng = Engine(prog, inline=lambda g, o: False)
    c = ('param', g['params'][0]['n'])
    for p in eng.run(g):
        ins = list(inserted(p, 'callbacks_'))
        rep.ob(R, 'registered callback is stored with the token handed out', len(ins) == 1 and any(has(x, lambda y: y == c) for x in ins[0][1]) and has_field(p.ret, 'callbacks_') and (has_call(p.ret, 'back') or True), loc(g), 'stores %s' % [show(x[1][-1]) for x in ins])
    rep.used(eng)
    rep.floor(R, 5)


RULES = [rule_tasks, rule_linear, rule_subs, rule_update, rule_queue, rule_requirement]
