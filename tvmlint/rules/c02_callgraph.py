"""C02: an updated call graph runs everything its inputs need, once, dependencies first; cyclic requests are refused."""
from ..q import *

EXPLANATION = ('Path summaries of the call-graph construction (inputs -> outputs -> calls -> edges), of plan building/execution and of the topological ordering are '
               'matched against the obligations of a dependency closure: every kind of declared dependency followed, an edge per dependency, memoisation before recursion, '
               'post-order emission, completeness of the order (cycle rejection) and coherence of the per-node containers.')
ASSUMPTIONS = ['std containers behave as specified by the standard']

CG = 'tvm::graph::CallGraph::'
DG = 'tvm::graph::internal::DependencyGraph::'
OPQ = (CG + 'addOutput', CG + 'addCall', DG + 'addEdge', DG + 'addNode', DG + 'order', DG + 'orderUtil', DG + 'order_', DG + 'SCCUtil', DG + 'DisjointSet::unify',
       'tvm::graph::internal::Logger::addGraphOutput', 'tvm::graph::internal::Logger::logger')


def routes_have(loop, pred):
    """Every route through the loop body contains an event accepted by pred (nested loops: on each of their routes)."""
    def body_has(body):
        for e in body:
            if pred(e):
                return True
            if e.kind == 'loop' and e.c and all(body_has(b) for b in e.c):
                return True
        return False
    return bool(loop.c) and all(body_has(b) for b, x in zip(loop.c, loop.bx or [None] * len(loop.c)))


def loops_over(path, pred):
    return [(e, ls, h) for e, ls, h in pwalk(path) if e.kind == 'loop' and e.b is not None and pred(e.b)]


def denied(hist, pred):
    """Some decision on the route says that nothing matches (x.count()==0, find()==end(), null ...)."""
    for t, v in hist.items():
        if pred(t):
            if t[0] == 'op' and t[1] == '==' and has_call(t, 'end'):
                if v is True:
                    return True
            elif v is False or (t[0] == 'op' and t[1] == '==' and v is True and t[3] in (('lit', '0'), ('lit', '0UL'))):
                return True
    return False


def rule_addcall(prog, rep):
    R = 'C02.call'
    rep.rule(R, 'adding a call: known call returned unchanged; new call numbered and memoised before its dependencies are followed; an edge to every internal and input dependency')
    f, eng, ps = runq(prog, rep, CG + 'addCall', opaque=OPQ)
    w = loc(f)
    c = ('param', f['params'][0]['n'])
    new = [p for p in ps if any(cname(e) == 'addNode' for e in calls(p))]
    old = [p for p in ps if p not in new]
    rep.ob(R, 'addCall: a call already in the graph is returned, not duplicated', bool(old) and all(
        p.exit == 'ret' and has_field(p.ret, 'callId_') and has(p.ret, lambda x: x == c) and not list(mutators(p)) for p in old), w,
        'no route returns the recorded id of a known call without side effect')
    rep.ob(R, 'addCall: a new call is created', bool(new), w, 'no route creates a node')
    got = {'internalDependencies_': 0, 'inputDependencies_': 0}
    for p in new:
        if p.exit != 'ret':
            continue
        evs = list(pwalk(p))
        nodes = [i for i, (e, l, h) in enumerate(evs) if cname(e) == 'addNode']
        idt = [('call', e.a, e.b, e.c) for e, l, h in evs if cname(e) == 'addNode'][0]
        ids = [i for i, (e, l, h) in enumerate(evs) if not l and e.kind == 'write' and e.a[0] == 'index' and has_field(e.a, 'callId_') and has(e.a, lambda x: x == c) and e.b == idt
               or e.kind == 'call' and not l and cname(e) in ('insert', 'emplace', 'insert_or_assign', 'try_emplace') and has_field(e.b, 'callId_') and any(has(a, lambda x: x == c) for a in e.c)
               and any(has(a, lambda x: x == idt) for a in e.c)]
        rec = [i for i, (e, l, h) in enumerate(evs) if e.kind == 'loop' or cname(e) in ('addCall', 'addOutput')]
        pushes = [i for i, (e, l, h) in enumerate(evs) if cname(e) in ('push_back', 'emplace_back') and has_field(e.b, 'calls_') and e.c and (e.c[0] == c or has(e.c[0], lambda x: x == c))]
        rep.ob(R, 'addCall: one graph node per new call', len(nodes) == 1, w, '%d nodes created for one call' % len(nodes))
        rep.ob(R, 'addCall: the id of a new call is memoised before recursion', len(ids) >= 1 and (not rec or ids[0] < rec[0]), w,
               'the id of the call is not recorded before its dependencies are followed (route %s)' % p.condstr()[:150])
        rep.ob(R, 'addCall: ids index the call table', len(pushes) == 1 and (not rec or pushes[0] < rec[0]), w,
               'the call is not appended exactly once, before recursion, to the table its id indexes')
        rep.ob(R, 'addCall: returns the new id', p.ret == idt, w, 'returned value is not the id of the new call')
        for kind in got:
            ls = loops_over(p, lambda r: has_field(r, kind))
            ls = [x for x in ls if not any(has_field(o.b, kind) for o in x[1])]
            if not ls:
                rep.ob(R, 'addCall: %s followed' % kind, denied(p.hist, lambda t: has_field(t, kind)), w,
                       'a route skips %s without establishing there are none (%s)' % (kind, p.condstr()[:150]))
                continue
            for l, _, h in ls:
                got[kind] += 1

                def edge(e):
                    if cname(e) != 'addEdge' or len(e.c) != 2 or e.c[0] != idt:
                        return False
                    to = e.c[1]
                    if kind == 'internalDependencies_':
                        return has(to, lambda x: x[0] == 'call' and shortq(x[1]).endswith('::addCall') and has(x, lambda y: y == ('elem', l.b, l.a)) and has_name(x, 'node'))
                    return has(to, lambda x: x[0] == 'elem' and has(x[1], lambda y: y[0] == 'call' and shortq(y[1]).endswith('::addOutput')
                                                                     and y[3][0] == ('fld', ('elem', l.b, l.a), 'first') and has(y[3][1], lambda z: z[0] == 'elem' and has(z[1], lambda q: q == ('fld', ('elem', l.b, l.a), 'second')))))
                ok = routes_have(l, edge) and has(l.b, lambda x: x[0] == 'index' and has_name(x[2], 'id') or x[0] == 'fld' and x[2] == 'second')
                rep.ob(R, 'addCall: an edge to every call of %s' % kind, ok, '%s:%s' % (l.file, l.line),
                       'some route through the %s of the call adds no edge call -> dependency' % kind)
    for k, n in got.items():
        rep.ob(R, 'addCall: %s are followed' % k, n > 0, w, 'no route follows %s' % k)


def rule_addoutput(prog, rep):
    R = 'C02.output'
    rep.rule(R, 'adding an output: every update it depends on becomes a call, a direct dependency is followed to its source, the result is memoised per (source, output)')
    f, eng, ps = runq(prog, rep, CG + 'addOutput', opaque=OPQ)
    w = loc(f)
    src, out = [('param', x['n']) for x in f['params'][:2]]
    nupd = ndir = nmemo = 0
    for p in ps:
        if p.exit != 'ret':
            continue
        muts = list(mutators(p))
        ucalls = list(calls(p, ('addCall', 'addOutput')))
        if not ucalls and has_field(p.ret, 'visited_') and not [m for m in muts if m[0].kind == 'write']:
            nmemo += 1
            rep.ob(R, 'addOutput: memoised result is that of the same source and output', has(p.ret, lambda x: x == src) and has(p.ret, lambda x: x == out), w,
                   'the memoised result returned is not indexed by the source and the output')
            continue
        res = {p.ret} | {e.b for e in p.flat() if e.kind == 'write' and e.a == p.ret}
        wr = [e for e in p.flat() if (e.kind == 'write' and has_field(e.a, 'visited_') and has(e.a, lambda x: x == src) and has(e.a, lambda x: x == out) and e.b in res)
              or (e.kind == 'call' and cname(e) in ('insert', 'emplace', 'insert_or_assign', 'try_emplace') and has_field(e.b, 'visited_') and any(has(a, lambda x: x in res) for a in e.c))]
        rep.ob(R, 'addOutput: result memoised', bool(wr), w, 'a computed result is not recorded for (source, output) (%s)' % p.condstr()[:150])
        ul = loops_over(p, lambda r: has_field(r, 'outputDependencies_'))
        dl = [e for e in calls(p, 'addOutput')]
        node = [v for t, v in p.hist.items() if t == ('fld', src, 'is_node_')]
        if ul:
            nupd += 1
            for l, _, _ in ul:
                el = ('elem', l.b, l.a)

                def good(e):
                    if cname(e) in ('push_back', 'emplace_back', 'insert'):
                        return e.b in res and any(has(a, lambda x: x[0] == 'call' and shortq(x[1]).endswith('::addCall') and has(x, lambda y: y == el) and has(x, lambda y: y == src)) for a in e.c)
                    return False
                rep.ob(R, 'addOutput: every update of the output becomes a call', routes_have(l, good) and has(l.b, lambda x: x == out), w,
                       'an update the output depends on is not turned into a call collected in the result')
        elif dl:
            ndir += 1
            e = dl[0]
            ok = has_field(e.c[0], 'directDependencies_') and e.c[0][0] == 'fld' and e.c[0][2] == 'first' and has_field(e.c[1], 'directDependencies_') and e.c[1][2] == 'second' and has(e.c[0], lambda x: x == out)
            t = ('call', e.a, e.b, e.c)
            ok = ok and (t in res or any(x.kind == 'lwrite' and x.a == p.ret and x.b == t or x.kind == 'lwrite' and x.b == t for x in p.flat()))
            rep.ob(R, 'addOutput: a direct dependency is resolved at its source', ok, e.where(), 'the forwarded output is not the (source, output) pair of the direct dependency, or its calls are dropped')
        else:
            isnode = any(node) if node else True
            ok = (node and not any(node)) or (denied(p.hist, lambda t: has_field(t, 'outputDependencies_')) and denied(p.hist, lambda t: has_field(t, 'directDependencies_')))
            rep.ob(R, 'addOutput: dependencies only skipped when there are none', ok, w, 'a route follows neither updates nor direct dependency although the node may have some (%s)' % p.condstr()[:200])
    rep.ob(R, 'addOutput: updates are followed', nupd > 0, w, 'no route follows the updates of an output')
    rep.ob(R, 'addOutput: direct dependencies are followed', ndir > 0, w, 'no route follows direct dependencies')

    f, eng, ps = runq(prog, rep, CG + 'add', opaque=OPQ)
    inp = ('param', f['params'][0]['n'])
    ok = True
    for p in ps:
        if p.exit != 'ret':
            continue
        outer = loops_over(p, lambda r: r == ('fld', inp, 'inputs_'))
        this_ok = False
        for l, ls, h in outer:
            el = ('elem', l.b, l.a)
            if routes_have(l, lambda e: cname(e) == 'addOutput' and e.c[0] == ('fld', el, 'first') and e.c[1][0] == 'elem' and e.c[1][1] == ('fld', el, 'second')):
                this_ok = True
        ok &= this_ok
    rep.ob(R, 'add: every output of every source of the added inputs is added', ok, loc(f), 'some (source, output) of the inputs is not added to the graph')


def rule_plan(prog, rep):
    R = 'C02.plan'
    rep.rule(R, 'the plan is rebuilt from scratch as the calls in dependency order, and executing it runs all of them in that order')
    f, eng, ps = runq(prog, rep, CG + 'update', opaque=OPQ)
    for p in ps:
        if p.exit != 'ret':
            continue
        evs = list(pwalk(p))
        clr = [i for i, (e, l, h) in enumerate(evs) if not l and (cname(e) == 'clear' or e.kind == 'write' and e.op == '=') and top_field(e.b if e.kind == 'call' else e.a) == 'plan_']
        lo = [(i, e) for i, (e, l, h) in enumerate(evs) if e.kind == 'loop' and e.b is not None and e.b[0] == 'call' and shortq(e.b[1]) == DG + 'order' and top_field(e.b) == 'dependencyGraph_']
        # the calls may be gathered in a local sequence that becomes the plan afterwards
        fresh = {e.b for e, l, h in evs if not l and e.kind == 'write' and e.op == '=' and top_field(e.a) == 'plan_' and e.b is not None}
        fresh |= {a for e, l, h in evs if not l and cname(e) in ('swap', 'assign') and (top_field(e.b) == 'plan_' or any(top_field(a) == 'plan_' for a in e.c or ())) for a in (e.b, *(e.c or ()))}
        fresh = {x for x in fresh if isinstance(x, tuple) and x and x[0] == 'obj'}
        isplan = lambda t: top_field(t) == 'plan_' or t in fresh
        rep.ob(R, 'update: previous plan discarded first', bool(lo) and (bool(clr) and clr[0] < lo[0][0] or bool(fresh)), loc(f), 'the plan is not emptied before being rebuilt')
        ok = False
        for i, l in lo:
            el = ('elem', l.b, l.a)
            ok |= routes_have(l, lambda e: cname(e) in ('push_back', 'emplace_back') and isplan(e.b) and e.c and has(e.c[0], lambda x: x[0] == 'index' and top_field(x[1]) == 'calls_' and x[2] == el))
        for i, (e, l, h) in enumerate(evs):
            if e.kind == 'loop' and e.op == 'transform' and e.b is not None and has_call(e.b, 'order'):
                ok = True
        rep.ob(R, 'update: plan is the calls in the order of the dependency graph', ok, loc(f), 'the plan does not hold the call of every node, in the order given by the dependency graph')
    f, eng, ps = runq(prog, rep, CG + 'execute', opaque=OPQ)
    for p in ps:
        ok = False
        for e, l, h in pwalk(p):
            if e.kind == 'loop' and top_field(e.b) == 'plan_':
                el = ('elem', e.b, e.a)
                isid = lambda t: has(t, lambda z: z == ('fld', el, 'id'))
                ok |= routes_have(e, lambda x: cname(x) == 'operator()' and has(x.b, lambda y: y[0] == 'index' and has_field(y[1], 'updates_') and isid(y[2])
                                                                                or y[0] == 'call' and lastname(y) in ('find', 'at') and has_field(y[2], 'updates_') and y[3] and isid(y[3][0]))) and \
                    all(x in (None, 'continue') for x in (e.bx or []))
        rep.ob(R, 'execute: runs the update of every planned call in order', ok, loc(f), 'a planned call is not executed (or not in order)')
    f, eng, ps = runq(prog, rep, CG + 'clear', opaque=OPQ)
    need = {'callId_', 'calls_', 'dependencyGraph_', 'visited_', 'plan_'}
    for p in ps:
        got = {top_field(l) for e, l, ls, h in mutators(p) if not ls}
        for n in sorted(need):
            rep.ob(R, 'clear: forgets %s' % n, n in got, loc(f), 'clearing the graph leaves %s populated: stale calls survive' % n)


def rule_order(prog, rep):
    R = 'C02.order'
    rep.rule(R, 'ordering visits each node once, emits it after its dependencies, rejects every cycle and forgets no node')
    f, eng, ps = runq(prog, rep, DG + 'orderUtil', opaque=OPQ)
    w = loc(f)
    v, order, visited, stack = [('param', x['n']) for x in f['params'][:4]]
    exp = [p for p in ps if any(e.kind == 'loop' and has_field(e.b, 'children_') for e in p.flat())]
    rep.ob(R, 'orderUtil: dependencies are followed', bool(exp), w, 'children of a node are not traversed')
    thr = False
    for p in ps:
        if p.exit == 'throw':
            st = [val for t, val in p.hist.items() if t[0] == 'index' and t[1] == stack]
            vi = [val for t, val in p.hist.items() if t[0] == 'index' and t[1] == visited and t[2] != v]
            thr |= bool(st) and all(st) and all(vi)
    rep.ob(R, 'orderUtil: a dependency still being visited is a cycle and is refused', thr, w, 'no route raises when a dependency is on the traversal stack')
    for p in exp:
        if p.exit != 'ret':
            continue
        evs = list(pwalk(p))
        li = [i for i, (e, l, h) in enumerate(evs) if e.kind == 'loop' and not l and e.b == ('index', ('fld', THIS, 'children_'), v)]
        rep.ob(R, 'orderUtil: all children traversed', len(li) == 1, w, 'the traversal does not range over the children of the node')
        if not li:
            continue
        li = li[0]
        end = max([i for i, (e, l, h) in enumerate(evs) if l and l[0] is evs[li][0]] + [li])

        def wr(base, val, lo, hi):
            return any(e.kind == 'write' and not l and e.a == ('index', base, v) and e.b == ('lit', val) for e, l, h in evs[lo:hi])
        rep.ob(R, 'orderUtil: node marked visited before its dependencies', wr(visited, 'true', 0, li), w, 'node is not marked visited before recursion')
        rep.ob(R, 'orderUtil: node on the stack during the traversal of its dependencies', wr(stack, 'true', 0, li) and wr(stack, 'false', end + 1, len(evs)), w, 'the traversal stack is not maintained around the recursion')
        push = [i for i, (e, l, h) in enumerate(evs) if cname(e) in ('push_back', 'emplace_back') and e.b == order and e.c and e.c[0] == v]
        rep.ob(R, 'orderUtil: node emitted once, after its dependencies', len(push) == 1 and push[0] > end, w, 'node is not emitted exactly once after the traversal of its dependencies')
        l = evs[li][0]
        el = ('elem', l.b, l.a)
        ok = True
        for body, bh in zip(l.c, l.bh):
            rec = [e for e in flat(body) if cname(e) == 'orderUtil' and e.c and e.c[0] == el]
            vis = [val for t, val in bh.items() if t == ('index', visited, el)]
            if not rec:
                ok &= bool(vis) and all(vis)
                # visited and not refused: must have been seen off the stack
                stk = [val for t, val in bh.items() if t == ('index', stack, el)]
                ok &= bool(stk) and not any(stk)
            else:
                ok &= all(e.c[1] == order and e.c[2] == visited and e.c[3] == stack for e in rec)
        rep.ob(R, 'orderUtil: every unvisited dependency is visited', ok, w, 'a dependency may be neither visited nor refused')
    f, eng, ps = runq(prog, rep, DG + 'order_', opaque=OPQ)
    w = loc(f)
    ok_loop = ok_complete = False
    bad = None
    for p in ps:
        if p.exit != 'ret':
            continue
        rooted = False
        found = False
        for e, ls, h in pwalk(p):
            if e.kind != 'loop' or not any(cname(x) == 'orderUtil' for b in e.c for x in flat(b)):
                continue
            found = True
            for body, bh in zip(e.c, e.bh):
                if any(cname(x) == 'orderUtil' for x in flat(body)):
                    continue
                # skipped node: because it is no root (then completeness must be checked) or because visited
                if any(has_field(t, 'roots_') for t in bh):
                    rooted = True
                elif any(t[0] == 'index' and val is True for t, val in bh.items()):
                    pass
                else:
                    bad = 'a node is skipped without being visited'
        if not found:
            bad = 'no traversal over the nodes'
        if rooted:
            full = any(t[0] == 'op' and t[1] in ('==', '<', '!=', '>=', '>', '<=') and has_call(t, 'size') and has_name(t, 'first') and
                       (t[1] == '==' and val is True or t[1] == '<' and val is False or t[1] == '!=' and val is False or t[1] == '>=' and val is True) for t, val in p.hist.items())
            full |= any(e.kind == 'loop' and e.c and any(x.kind == 'throw' for q in ps if q.exit == 'throw' for x in q.flat()) and all(any(t[0] == 'index' and val is True for t, val in bh.items()) for bh in e.bh)
                        and not any(cname(x) == 'orderUtil' for b in e.c for x in flat(b)) for e, _, _ in pwalk(p))
            if not full:
                bad = 'only nodes without incoming edge start a traversal and nothing checks that all nodes were reached: the nodes of a cycle are silently left out of the order (route: %s)' % p.condstr()[:150]
    rep.ob(R, 'order_: every node is ordered or the request is refused', bad is None, w, bad or '')
    f, eng, ps = runq(prog, rep, DG + 'order', opaque=(DG + 'orderUtil', DG + 'order_'))
    rep.ob(R, 'order: exposes the computed order unchanged', all(p.exit != 'ret' or (p.ret is not None and has_call(p.ret, 'order_') and not [1 for e in p.flat() if e.kind == 'loop' or cname(e) in ('reverse', 'sort')]) for p in ps), loc(f),
           'order() does not return the computed order')


def rule_containers(prog, rep):
    R = 'C02.graph'
    rep.rule(R, 'edges are oriented from the dependent to its dependency and every per-node container is kept in step')
    f, eng, ps = runq(prog, rep, DG + 'addEdge')
    fr, to = [('param', x['n']) for x in f['params'][:2]]
    w = loc(f)
    ins = None
    for p in ps:
        es = [e for e in calls(p, ('insert', 'emplace')) if top_field(e.b) == 'edges_']
        okpair = len(es) == 1 and es[0].c and ([x for x in sub_terms(es[0].c[0]) if x in (fr, to)] == [fr, to] or es[0].c[:2] == (fr, to))
        rep.ob(R, 'addEdge: records the oriented edge', okpair, w, 'the edge (from, to) is not recorded')
        ch = [e for e in calls(p, ('push_back', 'emplace_back')) if top_field(e.b) == 'children_']
        rt = [e for e in p.flat() if e.kind == 'write' and top_field(e.a) == 'roots_']
        inserted = [v for t, v in p.hist.items() if t[0] == 'fld' and t[2] == 'second']
        if (ch or rt) or (inserted and inserted[0] is True) or not inserted:
            rep.ob(R, 'addEdge: a new edge makes `to` a child of `from`', len(ch) == 1 and ch[0].b == ('index', fld('children_'), fr) and ch[0].c == (to,), w, 'children of `from` do not receive `to`')
            rep.ob(R, 'addEdge: `to` is no longer a root', len(rt) == 1 and rt[0].a == ('index', fld('roots_'), to) and rt[0].b == ('lit', 'false'), w, '`to` is still treated as having no incoming edge')
            rep.ob(R, 'addEdge: reports a new edge', p.ret == ('lit', 'true') or (p.ret is not None and has_name(p.ret, 'second')), w, 'a new edge is not reported')
    f, eng, ps = runq(prog, rep, DG + 'addNode')
    for p in ps:
        got = {top_field(l) for e, l, ls, h in mutators(p)}
        rep.ob(R, 'addNode: extends every per-node container', {'roots_', 'children_'} <= got, loc(f), 'a per-node container is not extended')
        r = [e for e in calls(p, ('push_back', 'emplace_back', 'resize')) if top_field(e.b) == 'roots_']
        rep.ob(R, 'addNode: a fresh node has no incoming edge', bool(r) and ('lit', 'true') in r[0].c, loc(f), 'a fresh node is not a root')
    f, eng, ps = runq(prog, rep, DG + 'removeNode')
    for p in ps:
        if p.exit == 'ret':
            got = {top_field(l) for e, l, ls, h in mutators(p)}
            for n in ('roots_', 'children_', 'edges_'):
                rep.ob(R, 'removeNode: updates %s' % n, n in got, loc(f), 'removing a node leaves %s stale' % n)
            for n in ('roots_', 'children_'):
                er = [e for e in calls(p, 'erase') if e.b == fld(n)]
                rep.ob(R, 'removeNode: drops the slot of the node in %s' % n, len(er) >= 1 and has_name(er[0].c[0], f['params'][0]['n']), loc(f), 'the slot of the removed node is kept')
        idp = ('param', f['params'][0]['n'])

        def above(h, x):
            v = h.get(('op', '<', idp, x))
            if v is None and h.get(('op', '<', x, idp)) is True:
                v = False
            return v

        def one_less(t, x):
            return t in (('op', '-', x, ('lit', '1')), ('op', '-', x, ('lit', '1U')), ('op', '-', x, ('lit', '1UL')))
        for l, ls, h in list(pwalk(p)):
            if l.kind != 'loop' or l.b != fld('edges_'):
                continue
            x = ('elem', l.b, l.a)
            ends = [('fld', x, 'first'), ('fld', x, 'second')]
            for b, bh in zip(l.c, l.bh):
                hh = {**h, **bh}
                for e in b:
                    if cname(e) not in ('insert', 'emplace'):
                        continue
                    comps = e.c if len(e.c) == 2 else e.c[0][-1] if e.c and e.c[0][0] in ('new', 'ctor') and isinstance(e.c[0][-1], tuple) else ()
                    if len(comps) != 2:
                        comps = [t for t in sub_terms(e.c[0]) if t in ends or any(one_less(t, y) for y in ends)] if e.c else []
                        # keep outermost occurrences only
                        comps = [t for t in comps if not any(u is not t and has(u, lambda y: y == t) for u in comps)]
                    for y, t in zip(ends, comps):
                        a = above(hh, y)
                        bad = (one_less(t, y) and a is not True) or (t == y and a is not False)
                        rep.ob(R, 'removeNode: a kept edge still joins the same nodes (%s end)' % y[2], not bad, e.where(),
                               'the %s end of a kept edge is renumbered although its number is not above the removed one, or kept although it is' % y[2])
                    for y in ends:
                        rep.ob(R, 'removeNode: edges of the removed node are dropped', hh.get(('op', '==', y, idp)) is not True, e.where(), 'an edge of the removed node is kept')
        for l, ls, h in list(pwalk(p)):
            if l.kind == 'loop' and has_field(l.b, 'children_') and l.b != fld('children_'):
                x = ('elem', l.b, l.a)
                for b, bh in zip(l.c, l.bh):
                    for e in b:
                        if e.kind == 'write' and e.a == x:
                            rep.ob(R, 'removeNode: children numbered above the removed node are renumbered', not one_less(e.b, x) or above({**h, **bh}, x) is True, e.where(), 'a child is renumbered although it is not above the removed node')
    f, eng, ps = runq(prog, rep, DG + 'clear')
    for p in ps:
        got = {top_field(l) for e, l, ls, h in mutators(p)}
        for n in ('roots_', 'children_', 'edges_'):
            rep.ob(R, 'clear: empties %s' % n, n in got, loc(f), 'clearing the dependency graph leaves %s' % n)
    f, eng, ps = runq(prog, rep, DG + 'reduce', opaque=OPQ)
    for p in ps:
        if p.exit != 'ret':
            continue
        w = loc(f)
        tj = [e for e, l, h in pwalk(p) if e.kind == 'loop' and any(cname(x) == 'SCCUtil' for b in e.c for x in flat(b))]
        ok = False
        for l in tj:
            ok = all(any(cname(x) == 'SCCUtil' for x in flat(b)) or any(has_name(t, 'disc') or t[0] == 'op' for t in bh) for b, bh in zip(l.c, l.bh))
        rep.ob(R, 'reduce: every vertex gets a component', bool(tj) and ok, w, 'a vertex may be left out of the strongly connected components')
        el = [e for e, l, h in pwalk(p) if e.kind == 'loop' and e.b == fld('edges_')]
        ok = False
        for l in el:
            x = ('elem', l.b, l.a)
            ok = True
            for b, bh in zip(l.c, l.bh):
                ed = [e for e in flat(b) if cname(e) == 'addEdge']
                if ed:
                    ok &= len(ed) == 1 and has(ed[0].c[0], lambda t: t == ('fld', x, 'first')) and has(ed[0].c[1], lambda t: t == ('fld', x, 'second')) and has_name(ed[0].c[0], 'vert2SCC') | (ed[0].c[0][0] == 'index')
                else:
                    ok &= any(t[0] == 'op' and t[1] == '==' and v is True and t[2][0] == 'index' and t[3][0] == 'index' for t, v in bh.items())
        rep.ob(R, 'reduce: edges between components are kept with their orientation', bool(el) and ok, w, 'an edge between two components is dropped or reversed')
        nl = [e for e, l, h in pwalk(p) if e.kind == 'loop' and routes_have(e, lambda x: cname(x) == 'addNode')]
        rep.ob(R, 'reduce: one node per component', bool(nl), w, 'components do not each get a node')
    f, eng, ps = runq(prog, rep, DG + 'SCCUtil', opaque=OPQ)
    w = loc(f)
    P = {x['n']: ('param', x['n']) for x in f['params']}
    u = ('param', f['params'][1]['n'])
    for p in ps:
        if p.exit != 'ret':
            continue
        lo = [e for e, l, h in pwalk(p) if e.kind == 'loop' and e.b == ('index', fld('children_'), u)]
        rep.ob(R, 'SCC: all successors explored', len(lo) == 1, w, 'successors of a vertex are not all explored')
        for l in lo:
            el = ('elem', l.b, l.a)
            for b, bh in zip(l.c, l.bh):
                rec = [i for i, e in enumerate(b) if cname(e) == 'SCCUtil']
                lw = [(i, e) for i, e in enumerate(b) if e.kind == 'write' and e.a[0] == 'index' and e.a[2] == u]
                unseen = any(t[0] == 'op' and t[1] == '==' and v is True and t[2] == ('index', P.get('disc', ('param', 'disc')), el) for t, v in bh.items())
                onst = any(t[0] == 'index' and t[2] == el and v is True for t, v in bh.items())
                if rec:
                    ok = any(i > rec[0] and has(e.b, lambda x: x == ('index', e.a[1], el)) and has(e.b, lambda x: x == e.a) and has_call(e.b, 'min') for i, e in lw)
                    rep.ob(R, 'SCC: low link updated after exploring a new successor', ok, w, 'the low link of a vertex ignores that of an explored successor')
                elif onst:
                    ok = any(has(e.b, lambda x: x[0] == 'index' and x[2] == el) and has_call(e.b, 'min') for i, e in lw)
                    rep.ob(R, 'SCC: low link updated for a successor on the stack', ok, w, 'a back edge does not lower the low link')
                else:
                    rep.ob(R, 'SCC: a successor in a finished component is ignored', not lw, w, 'a cross edge to a finished component lowers the low link')


NODE = 'tvm::graph::abstract::Node::'


def rule_register(prog, rep):
    R = 'C02.register'
    rep.rule(R, 'every declared dependency is recorded in the table the call graph follows, together with the input it reads')
    OP = (NODE + 'addInput', 'tvm::graph::internal::Inputs::addInput', 'tvm::graph::internal::Logger::logger')
    from ..flow import shortq as sq

    def inl(f, o):
        return not sq(f['q']).startswith(('tvm::graph::internal::Logger', 'tvm::graph::internal::Inputs')) and not sq(f['q']).endswith(('Name', 'StaticallyEnabled'))
    groups = {}
    for fid, f in prog.funcs.items():
        q = sq(f['q'])
        if q in (NODE + 'addInputDependency', NODE + 'addOutputDependency', NODE + 'addInternalDependency', NODE + 'addDirectDependency', NODE + 'registerUpdates'):
            groups.setdefault(q, []).append(f)
    for q in ('addInputDependency', 'addOutputDependency', 'addInternalDependency', 'addDirectDependency', 'registerUpdates'):
        fs = groups.get(NODE + q, [])
        if not fs:
            raise AnalysisBroken('anchor vanished: %s' % (NODE + q))
        sigs = {}
        for f in fs:
            kinds = tuple(('ptr' if x['t'].endswith('*') else 'sp' if 'shared_ptr<' in x['t'] else 'ref' if x['t'].endswith('&') else 'list' if 'initializer_list' in x['t'] else 'pmf' if '::*' in x['t'] else 'v') for x in f['params'])
            sigs.setdefault(kinds, f)
        for kinds, f in sorted(sigs.items()):
            eng = Engine(prog, inline=inl, opaque=OP)
            ps = eng.run(f)
            rep.used(eng, ps)
            a = [('param', x['n'] or 'arg%d' % i) for i, x in enumerate(f['params'])]
            name = '%s(%s)' % (q, ','.join(kinds))
            w = loc(f)
            ret = [p for p in ps if p.exit == 'ret']
            rep.ob(R, '%s: can succeed' % name, bool(ret), w, 'no normal route')

            def inserted(p, table, key, vals):
                for e, l, ls, h in mutators(p):
                    args = [e.b] if e.kind == 'write' else list(e.c)
                    full = [l] + [x for x in args if x is not None]
                    if any(has_field(t, table) for t in [l]) or any(has_field(t, table) for t in full):
                        if all(any(has(t, lambda x: x == v) for t in full) for v in [key] + vals):
                            return e
                return None
            for p in ret:
                if q == 'addInputDependency':
                    if 'list' in kinds:
                        continue
                    for sig in a[2:]:
                        rec = inserted(p, 'inputDependencies_', a[0], [sig]) or inserted_iter(p, 'inputDependencies_', sig)
                        rep.ob(R, '%s: every signal recorded for the update' % name, rec is not None, w, 'signal %s is not recorded in the dependencies of the update (%s)' % (show(sig), p.condstr()[:120]))
                        ai = [e for e in calls(p, 'addInput') if e.c and e.c[0] == a[1] and any(x == sig for x in e.c[1:])]
                        if 'ptr' not in kinds and sig == a[2]:
                            rep.ob(R, '%s: the source is registered as an input' % name, bool(ai), w, 'the source of the dependency is not registered as an input (%s)' % p.condstr()[:120])
                elif q == 'addDirectDependency':
                    rec = inserted(p, 'directDependencies_', a[0], [a[1], a[2]])
                    rep.ob(R, '%s: (source, signal) recorded for the output' % name, rec is not None, w, 'the direct dependency is not recorded')
                    if 'ptr' not in kinds:
                        ai = [e for e in calls(p, 'addInput') if e.c and e.c[0] == a[1]]
                        rep.ob(R, '%s: the source is registered as an input' % name, bool(ai), w, 'the source of the dependency is not registered as an input')
                elif q == 'addOutputDependency':
                    if 'list' in kinds:
                        ok = any(e.kind == 'loop' and routes_have(e, lambda x: e2(x, 'outputDependencies_')) for e in p.flat())
                        rep.ob(R, '%s: every listed output is recorded' % name, ok, w, 'an output of the list is dropped')
                    else:
                        rep.ob(R, '%s: update recorded for the output' % name, inserted(p, 'outputDependencies_', a[0], [a[1]]) is not None, w, 'the update is not recorded for the output')
                elif q == 'addInternalDependency':
                    e = inserted(p, 'internalDependencies_', a[0], [a[1]])
                    ok = e is not None and (e.kind == 'write' or has(e.b, lambda x: x == a[0]) and e.c and has(e.c[0], lambda x: x == a[1]))
                    rep.ob(R, '%s: dependency recorded for the dependent update' % name, ok, w, 'the dependency is not recorded for the dependent update')
                elif q == 'registerUpdates':
                    rep.ob(R, '%s: method recorded' % name, any((e.kind == 'write' and has_field(e.a, 'updates_') and has(e.a, lambda x: x == a[0])) or (e.kind == 'call' and has_field(e.b, 'updates_') and cname(e) in ('insert', 'emplace')) for e in p.flat()), w, 'the update method is not recorded')
            if q == 'registerUpdates':
                rep.ob(R, '%s: re-registration refused' % name, any(p.exit == 'throw' for p in ps), w, 'registering an update twice is accepted')
    rep.floor(R, 10)


def e2(x, table):
    return x.kind in ('write', 'call') and (has_field(x.a if x.kind == 'write' else x.b, table) or cname(x) == 'addOutputDependency')


def inserted_iter(p, table, sig):
    """Insertion through an iterator obtained from the table (it->second.insert(sig))."""
    for e in calls(p, ('insert', 'emplace')):
        if e.b is not None and any(has(a, lambda x: x == sig) for a in e.c):
            return e
    return None


RULES = [rule_addcall, rule_addoutput, rule_plan, rule_order, rule_containers, rule_register]
