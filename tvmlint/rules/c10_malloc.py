"""C10: the permission to allocate memory is put back as it was found."""
from ..q import *

EXPLANATION = ('Pairing analysis: on every route of every function that overrides the allocation permission, overrides and restorations match like parentheses and none is pending when the function returns; '
               'effect summaries of the primitives: an override records the permission in force, a restoration puts the last recorded one back and forgets it.')
ASSUMPTIONS = ['debug configuration (the functions do nothing when NDEBUG is defined)', 'exceptions thrown by called functions are not considered exits']
U = 'tvm::utils::'
OV = {U + 'override_is_malloc_allowed', U + 'internal::override_is_malloc_allowed_'}
RE = {U + 'restore_is_malloc_allowed', U + 'internal::restore_is_malloc_allowed_'}


def mentions(n, names):
    if isinstance(n, dict):
        if n.get('k') in ('call', 'mcall') and n.get('f') and shortq(n['f']) in names:
            return True
        return any(mentions(v, names) for v in n.values() if isinstance(v, (dict, list)))
    if isinstance(n, list):
        return any(mentions(x, names) for x in n)
    return False


def guards(prog):
    """Classes whose constructor overrides and whose destructor restores."""
    out = {}
    for f in prog.funcs.values():
        if f.get('body') is None:
            continue
        n = shortq(f['q'])
        c = n.rsplit('::', 1)[0]
        if f.get('ctor') and mentions(f['body'], OV) and not mentions(f['body'], RE):
            out.setdefault(c, set()).add('o')
        if '::~' in n and mentions(f['body'], RE) and not mentions(f['body'], OV):
            out.setdefault(c, set()).add('r')
    return {c for c, s in out.items() if s == {'o', 'r'}}


def depth(p, gs):
    """Pending overrides along the route: [(event, depth before it)], minimum, final."""
    d = lo = 0
    out = []

    def go(evs, d, lo):
        for e in evs:
            out.append((e, d + g[0]))
            if e.kind == 'call' and not e.inl and shortq(e.a) in OV:
                d += 1
            elif e.kind == 'call' and not e.inl and shortq(e.a) in RE:
                d -= 1
                lo = min(lo, d)
            elif e.kind in ('lwrite', 'new') and e.b is not None and has(e.b if e.kind == 'lwrite' else e.a, lambda y: y[0] == 'ctor' and len(y) > 2 and any(c.split('::')[-1] == y[1].split('::')[-1] for c in gs)) and e.kind == 'lwrite':
                g[0] += 1
            elif e.kind == 'loop':
                for b in e.c:
                    d2, lo2 = go(b, d, 0)
                    if d2 != d:
                        lo = min(lo, -99)
                    lo = min(lo, lo2)
        return d, lo
    g = [0]
    d, lo = go(p.ev, 0, 0)
    return out, lo, d


def rule_pairs(prog, rep):
    R = 'C10.pairs'
    rep.rule(R, 'on every route through a function that overrides the permission to allocate, each override is followed by its restoration before the function returns')
    gs = guards(prog)
    n = 0
    for q, f in sorted(prog.funcs.items()):
        if f.get('body') is None or shortq(f['q']) in OV | RE or not mentions(f['body'], OV | RE):
            continue
        c = shortq(f['q']).rsplit('::', 1)[0]
        if c in gs and (f.get('ctor') or '::~' in f['q']):
            continue
        eng = Engine(prog, inline=lambda g, o: False)
        ps = eng.run(f)
        rep.used(eng, ps)
        for p in ps:
            ds, lo, d = depth(p, gs)
            n += 1
            rep.ob(R, '%s: nothing is restored that it did not override' % shortq(f['q']), lo >= 0, loc(f), 'restoration without override')
            if p.exit == 'ret':
                rep.ob(R, '%s: everything overridden is restored on return' % shortq(f['q']), d <= 0, loc(f), '%d override(s) pending' % d)
            else:
                rep.ob(R, '%s: everything overridden is restored before throwing' % shortq(f['q']), d <= 0, loc(f), '%d override(s) pending' % d)
    # statements after a return are dropped from the routes: the routes above are the executed ones
    rep.ob(R, 'permission is overridden somewhere', n > 0, 'src/', 'never')


def rule_steps(prog, rep):
    R = 'C10.allowed'
    rep.rule(R, 'the steps that have to allocate (creating and updating the computation data of a scheme, building a substitution, sizing a cached result) run with the allocations allowed')
    gs = guards(prog)
    RS = 'tvm::scheme::abstract::ResolutionScheme'
    todo = [(f, ('createComputationData_',)) for f in prog.find(RS + '::createComputationData')] + [(f, ('updateComputationData_',)) for f in prog.find(RS + '::updateComputationData')]
    todo += [(f, ('initializeMatrices', 'createFunctions')) for f in prog.find('tvm::hint::internal::SubstitutionUnit::SubstitutionUnit') if len(f['params']) == 3]
    todo += [(f, ('resizeLike',)) for f in prog.funcs.values() if shortq(f['q']).endswith('CachedResult::CachedResult') and mentions(f.get('body'), {U + 'override_is_malloc_allowed'})]
    n = 0
    for f, names in todo:
        if f.get('body') is None:
            continue
        eng = Engine(prog, inline=lambda g, o: False)
        ps = eng.run(f)
        rep.used(eng, ps)
        for p in ps:
            if p.exit != 'ret':
                continue
            ds, lo, d = depth(p, gs)
            for nm in names:
                k = [dd for e, dd in ds if e.kind == 'call' and cname(e) == nm]
                n += 1
                rep.ob(R, '%s: %s runs with the allocations allowed' % (shortq(f['q']), nm), bool(k) and min(k) > 0, loc(f), 'it does not')
            for e, dd in ds:
                if e.kind == 'call' and shortq(e.a) in OV:
                    rep.ob(R, '%s: the permission asked is to allocate' % shortq(f['q']), e.c == (('lit', 'true'),), loc(f), 'asks %s' % [show(y) for y in e.c])
    rep.floor(R, 6)


def rule_prims(prog, rep):
    R = 'C10.primitives'
    rep.rule(R, 'an override records the permission in force before changing it, a restoration puts back the last recorded permission and forgets it, and the permission of the caller\'s Eigen follows')
    st = lambda t: t is not None and t[0] == 'global' and 'malloc_is_allowed_override_' in t[1]
    cur = lambda t: lastname(t) == 'is_malloc_allowed'
    sets = lambda e: e.kind == 'call' and cname(e) == 'set_is_malloc_allowed' and 'Eigen' in e.a
    for f in prog.find(U + 'internal::override_is_malloc_allowed_'):
        for p in Engine(prog, inline=lambda g, o: False).run(f):
            fl = [e for e in p.flat()]
            pu = [i for i, e in enumerate(fl) if e.kind == 'call' and st(e.b) and cname(e) in ('push', 'push_back', 'emplace', 'emplace_back')]
            se = [i for i, e in enumerate(fl) if sets(e)]
            ca = [i for i, e in enumerate(fl) if e.kind == 'call' and cname(e) == 'is_malloc_allowed' and 'Eigen' in e.a]
            ok = len(pu) == 1 and len(se) == 1 and cur(fl[pu[0]].c[0]) and bool(ca) and ca[-1] < se[0] and fl[se[0]].c[0] == ('param', f['params'][0]['n'])
            rep.ob(R, 'override: permission in force recorded, then changed', ok, loc(f), 'it is not')
    for f in prog.find(U + 'internal::restore_is_malloc_allowed_'):
        for p in Engine(prog, inline=lambda g, o: False).run(f):
            fl = [e for e in p.flat()]
            po = [i for i, e in enumerate(fl) if e.kind == 'call' and st(e.b) and cname(e) in ('pop', 'pop_back')]
            tp = [i for i, e in enumerate(fl) if e.kind == 'call' and st(e.b) and cname(e) in ('top', 'back')]
            se = [i for i, e in enumerate(fl) if sets(e)]
            ok = len(po) == 1 and len(se) == 1 and len(tp) >= 1 and tp[-1] < po[0] and (lambda y: y[0] == 'call' and st(y[2]) and lastname(y) in ('top', 'back'))(fl[se[0]].c[0])
            rep.ob(R, 'restore: last recorded permission put back and forgotten', ok, loc(f), 'it is not')
    for f in prog.find(U + 'internal::set_is_malloc_allowed_'):
        for p in Engine(prog, inline=lambda g, o: False).run(f):
            se = [e for e in p.flat() if sets(e)]
            rep.ob(R, 'set: permission changed', len(se) == 1 and se[0].c[0] == ('param', f['params'][0]['n']), loc(f), 'it is not')
    for f in prog.find(U + 'internal::is_malloc_allowed_'):
        for p in Engine(prog, inline=lambda g, o: False).run(f):
            rep.ob(R, 'query: permission of Eigen', lastname(p.ret) == 'is_malloc_allowed', loc(f), 'answers %s' % show(p.ret))
    for n in ('set_is_malloc_allowed', 'override_is_malloc_allowed', 'restore_is_malloc_allowed'):
        for f in prog.find(U + n):
            for p in Engine(prog, inline=lambda g, o: False).run(f):
                fl = [cname(e) for e in p.flat() if e.kind == 'call']
                ok = n + '_' in fl and 'enforce_malloc_coherency' in fl[fl.index(n + '_'):]
                k = [e for e in p.flat() if e.kind == 'call' and cname(e) == n + '_']
                rep.ob(R, '%s: applies to the library and to the caller' % n, ok and len(k) == 1 and k[0].c == tuple(('param', x['n']) for x in f['params']), loc(f), 'it does not')
    for f in prog.find(U + 'internal::enforce_malloc_coherency'):
        for p in Engine(prog, inline=lambda g, o: False).run(f):
            se = [e for e in p.flat() if sets(e)]
            rep.ob(R, 'caller follows the library', len(se) == 1 and lastname(se[0].c[0]) == 'is_malloc_allowed_', loc(f), 'it does not')
    rep.floor(R, 7)


RULES = [rule_pairs, rule_steps, rule_prims]
