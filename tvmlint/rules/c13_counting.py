"""C13: a counting vector gives the variables that are currently counted."""
from ..q import *
from .c12_vectors import flat_sum, same_sum, allterms

EXPLANATION = ('Path summaries of VariableCountingVector and RangeCounting: every change of the counts invalidates what was computed from them, removals are refused before anything is changed, the results are rebuilt entirely and '
               'in step, and each elementary insertion in the list of limits rewrites it as the documented rules say (decided case by case on the local shapes of the list).')
ASSUMPTIONS = ['std containers behave as documented', 'a counted variable outlives its counts']
VC = 'tvm::internal::VariableCountingVector::'
SC = VC + 'SpaceRangeCounting::'
RC = 'tvm::internal::RangeCounting::'
LIM = fld('limits_')
T, F = ('lit', 'true'), ('lit', 'false')


def flat(b):
    for e in b:
        yield e
        if e.kind == 'loop':
            for x in e.c:
                yield from flat(x)


def final(p, loc_):
    w = [e for e, l, h in pwalk(p) if e.kind == 'write' and e.a == loc_]
    return w[-1] if w else None


def value(p, t, env=None):
    """Value of a boolean term on the route."""
    def known(x):
        if x in p.hist and isinstance(p.hist[x], bool):
            return p.hist[x]
        return env(x) if env else None
    return evalterm(t, known)


# ---------------------------------------------------------------- VariableCountingVector
def own(g, o):
    q = shortq(g['q'])
    return q.startswith(VC) and q[len(VC):] not in ('update', 'add', 'remove') and not q.startswith(SC) or q in (SC + 'empty', SC + 'maxCount')


def counted(e, name):
    """Call of SpaceRangeCounting::name on an entry of count_."""
    return e.kind == 'call' and shortq(e.a) == SC + name and has(e.b, lambda x: x == fld('count_'))


def key(t):
    """Key of the entry designated by t."""
    for x in sub_terms(t):
        if isinstance(x, tuple) and x and x[0] == 'index' and x[1] == fld('count_'):
            return x[2]
        if isinstance(x, tuple) and x and x[0] == 'call' and x[2] == fld('count_') and x[3] and lastname(x) in ('find', 'at', 'try_emplace', 'emplace', 'insert', 'operator[]'):
            a = x[3][0]
            while a[0] in ('ctor', 'init', 'call') and a[-1] and not (a[0] == 'call' and a[2] is not None):
                a = a[-1][0]
            return a
    return None


def step(e):
    """Increment done by a write."""
    if e.op in ('++', '--'):
        return 1 if e.op == '++' else -1
    if e.op in ('+=', '-='):
        v = evalterm(e.b, lambda t: None)
        return 99 if v is None else v if e.op == '+=' else -v
    s = [x for x in flat_sum(e.b) if x != (1, norm(e.a))]
    if e.op == '=' and len(s) == 1 and len(flat_sum(e.b)) == 2 and s[0][1][0] == 'lit':
        return s[0][0] * int(s[0][1][1])
    return 99


def rule_vector(prog, rep):
    R = 'C13.vector'
    rep.rule(R, 'every change of the counts is recorded for the right variable, in every space, and invalidates the variables computed from them')
    for name in ('add', 'remove'):
        fs = [f for f in prog.find(VC + name) if f.get('body') is not None]
        for f in fs:
            v = ('param', f['params'][0]['n'])
            if 'VariableVector' in f['params'][0]['t']:
                eng = Engine(prog, inline=own)
                ps = eng.run(f)
                rep.used(eng, ps)
                for p in ps:
                    Ls = [e for e in p.flat() if e.kind == 'loop' and e.b in (v, fld('variables_', base=v), ('call', 'tvm::VariableVector::variables', v, ()))]
                    ok = len(Ls) == 1 and Ls[0].c and all(x in (None, 'continue') for x in Ls[0].bx) and not any(e.kind == 'call' and cname(e) == name for e, l, h in pwalk(p) if not l) and all(sum(e.kind == 'call' and cname(e) == name and e.b == THIS and norm(e.c[0]) == ('elem', norm(Ls[0].b)) for e in flat(b)) == 1 for b in Ls[0].c)
                    rep.ob(R, '%s(vector): every variable' % name, bool(ok), loc(f), 'not every variable of the vector is processed')
                continue
            eng = Engine(prog, inline=own, fine=True)
            ps = eng.run(f)
            rep.used(eng, ps)
            sup = ('call', 'tvm::Variable::superVariable', v, ())
            for p in ps:
                if p.exit == 'throw':
                    rep.ob(R, '%s: refusal changes nothing' % name, not any(e.kind == 'write' or counted(e, name) for e in p.flat()), loc(f), 'changed before the throw')
                    continue
                cs = [(e, l) for e, l, h in pwalk(p) if counted(e, name)]
                other = [e for e, l, h in pwalk(p) if e.kind == 'call' and shortq(e.a).startswith(SC) and cname(e) in ('add', 'remove') and cname(e) != name]
                ok = len(cs) == 1 and not cs[0][1] and not other
                k = key(cs[0][0].b) if ok else None
                ok = ok and k is not None and (k == sup or k == ('call', 'std::shared_ptr::get', sup, ()))
                rep.ob(R, '%s: counts of the containing variable' % name, ok, loc(f), 'changes %s' % [repr(e)[:100] for e, l in cs])
                if not ok:
                    continue
                e = cs[0][0]
                want = (('call', 'tvm::Variable::spaceShift', v, ()), ('call', 'tvm::Variable::space', v, ()))
                rep.ob(R, '%s: place and dimension of the variable' % name, tuple(e.c) == want, e.where(), 'counts %s' % [show(x) for x in e.c])
                ch = ('call', e.a, e.b, e.c)
                rep.ob(R, '%s: tells whether something changed' % name, p.ret == ch or p.ret in (T, F) and any(norm(c) == norm(ch) and b == (p.ret == T) for c, b in p.hist.items()), loc(f), 'returns %s' % show(p.ret))
                changed = next((b for c, b in p.hist.items() if norm(c) == norm(ch) and isinstance(b, bool)), None)
                split = p.hist.get(fld('split_'))
                w = final(p, fld('upToDate_'))
                uv = value(p, w.b, lambda x: (changed if norm(x) == norm(ch) else None)) if w is not None else None
                order = lastidx(p, lambda x: x is e)
                late = lastidx(p, lambda x: x is w) if w is not None else None
                good = uv is False or (changed is False and split is False)
                rep.ob(R, '%s: what was computed is outdated after a change' % name, good and (w is None or uv is not True or p.hist.get(fld('upToDate_')) is True), loc(f), 'still up to date when %s' % p.condstr()[-200:])
                # changes of the number of pieces
                cnt = [x for x, l, h in pwalk(p) if x.kind == 'write' and x.a[0] == 'fld' and x.a[2] == 'second' and has(x.a, lambda y: y == fld('count_'))]
                er = [x for x, a, l, h in erased(p, 'count_')]
                emp = [b for c, b in p.hist.items() if isinstance(b, bool) and c[0] in ('call',) and lastname(c) == 'empty' and has(c, lambda y: y == fld('count_'))]
                if name == 'add':
                    rep.ob(R, 'add: one more piece exactly when something changed', sum(step(x) for x in cnt) == (1 if changed else 0) and not er, loc(f), 'changed=%s: %d increments' % (changed, len(cnt)))
                else:
                    if er:
                        ok = emp == [True] and len(er) == 1
                        ok = ok and (er[0].c[0] in (sup, ('call', 'std::shared_ptr::get', sup, ())) or has(er[0].c[0], lambda y: y == sup)) and lastidx(p, lambda x: x is er[0]) > order
                        rep.ob(R, 'remove: forgets a variable exactly when nothing is left of it', ok, er[0].where(), 'forgotten when %s' % p.condstr()[-150:])
                    else:
                        rep.ob(R, 'remove: forgets a variable exactly when nothing is left of it', changed is False or emp == [False], loc(f), 'kept when %s' % p.condstr()[-150:])
                        rep.ob(R, 'remove: a variable with a part removed is not simple any more', changed is not True or len(cnt) == 1 and cnt[0].op == '+=' and cnt[0].b[0] == 'lit' and int(cnt[0].b[1]) > 1, loc(f), 'pieces %s' % [repr(x)[:80] for x in cnt])
    f, eng, ps = runq(prog, rep, VC + 'clear', inline=own)
    for p in ps:
        w = final(p, fld('upToDate_'))
        rep.ob(R, 'clear: nothing is counted and what was computed is outdated', w is not None and w.b == F and any(cname(e) == 'clear' for e, a, l, h in erased(p, 'count_')), loc(f), 'not cleared or not invalidated')
    # nothing else changes the counts, or declares them up to date
    for f in prog.funcs.values():
        q = shortq(f['q'])
        if not q.startswith(VC) or f.get('body') is None or q in (VC + 'add', VC + 'remove', VC + 'clear', VC + 'VariableCountingVector') or q.startswith(SC) or '(' in q[len(VC):] or q[len(VC):].startswith(('~', 'operator=')):
            continue
        eng = Engine(prog, inline=lambda g, o: False)
        for p in eng.run(f):
            bad = [e for e, a, l, h in erased(p, 'count_')] + [e for e, a, l, h in inserted(p, 'count_')] + [e for e in p.flat() if counted(e, 'add') or counted(e, 'remove')]
            rep.ob(R, '%s: leaves the counts alone' % q[len(VC):], not bad, loc(f), 'changes the counts')
            up = [e for e in p.flat() if e.kind == 'write' and e.a == fld('upToDate_') and e.b != F]
            rep.ob(R, '%s: only the update declares the variables up to date' % q[len(VC):], not up or q == VC + 'update', loc(f), 'sets upToDate_')
    # the three spaces
    for name in ('add', 'remove'):
        f, eng, ps = runq(prog, rep, SC + name, inline=lambda g, o: False)
        st, dm = (('param', x['n']) for x in f['params'][:2])
        for p in ps:
            got = {}
            for e, l, h in pwalk(p):
                if e.kind == 'call' and shortq(e.a) == RC + name and e.b[0] == 'fld' and e.b[1] == THIS and not l:
                    got.setdefault(e.b[2], []).append(e)
            for m, acc in (('mSize_', 'size'), ('rSize_', 'rSize'), ('tSize_', 'tSize')):
                es = got.get(m, [])
                ok = len(es) == 1
                a = es[0].c[0] if ok else None
                ok = ok and a[0] in ('init', 'ctor') and len(a[2]) == 2 and all(x[0] == 'call' and shortq(x[1]) == 'tvm::Space::' + acc and x[2] == o for x, o in zip(a[2], (st, dm)))
                rep.ob(R, '%s: counts of the %s' % (name, {'mSize_': 'dimension', 'rSize_': 'representation', 'tSize_': 'tangent space'}[m]), ok, loc(f), 'got %s' % (show(a) if a else 'no call'))
            r = got.get('mSize_', [None])[0]
            rep.ob(R, '%s: tells whether the variables changed' % name, r is not None and norm(p.ret) == norm(('call', r.a, r.b, r.c)), loc(f), 'returns %s' % show(p.ret))
    for name in ('empty', 'maxCount'):
        f, eng, ps = runq(prog, rep, SC + name, inline=lambda g, o: False)
        for p in ps:
            rep.ob(R, '%s: as counted' % name, p.ret and p.ret[0] == 'call' and lastname(p.ret) == name and p.ret[2] in (fld('mSize_'), fld('rSize_'), fld('tSize_')), loc(f), 'returns %s' % show(p.ret))
    f, eng, ps = runq(prog, rep, VC + 'isDisjointUnion', inline=own, fine=True)
    for p in ps:
        mc = [(c, b) for c, b in p.hist.items() if isinstance(b, bool) and has_call(c, 'maxCount')]
        Ls = [e for e in p.flat() if e.kind == 'loop' and e.b == fld('count_')]
        if p.ret == F:
            ok = any(c[0] == 'op' and c[1] == '<' and c[2] == ('lit', '1') and b for c, b in mc)
        elif p.ret == T:
            ok = len(Ls) == 1 and all(any(c[0] == 'op' and c[1] == '<' and c[2] == ('lit', '1') and has_call(c[3], 'maxCount') and b is False for c, b in bh.items()) for bh in Ls[0].bh)
        else:
            fs = [x for x in sub_terms(p.ret) if isinstance(x, tuple) and x and x[0] == 'call' and lastname(x) in ('any_of', 'all_of', 'none_of') and x[2] == fld('count_')]
            ok = len(fs) == 1
        rep.ob(R, 'isDisjointUnion: no part counted twice', ok, loc(f), 'returns %s when %s' % (show(p.ret), p.condstr()[-100:]))
    rep.floor(R, 25)


def rule_update(prog, rep):
    R = 'C13.update'
    rep.rule(R, 'when outdated, the variables and their flags are rebuilt from all the counts, in step, before they are given')
    f, eng, ps = runq(prog, rep, VC + 'update', inline=lambda g, o: own(g, o) or shortq(g['q']) == VC + 'update', fine=True)
    VAR, SIM = fld('variables_'), fld('simple_')
    n = 0
    for p in ps:
        if p.hist.get(fld('upToDate_')) is True:
            rep.ob(R, 'update: nothing to do when up to date', not any(e.kind == 'write' for e in p.flat()), loc(f), 'changes something')
            continue
        n += 1
        ev = list(pwalk(p))
        L = [(i, e) for i, (e, l, h) in enumerate(ev) if e.kind == 'loop' and not l and e.b == fld('count_')]
        c1 = [i for i, (e, l, h) in enumerate(ev) if e.kind == 'call' and cname(e) == 'clear' and e.b == VAR and not l]
        c2 = [i for i, (e, l, h) in enumerate(ev) if e.kind == 'call' and cname(e) == 'clear' and e.b == SIM and not l]
        rep.ob(R, 'update: starts from nothing', len(L) == 1 and c1 and c2 and c1[0] < L[0][0] and c2[0] < L[0][0], loc(f), 'the previous variables or flags are kept')
        w = final(p, fld('upToDate_'))
        rep.ob(R, 'update: up to date afterwards', w is not None and w.b == T, loc(f), 'upToDate_ %s' % (w and show(w.b)))
        if not L:
            continue
        L = L[0][1]
        el = ('elem', fld('count_'))
        var = ('fld', el, 'first')
        rep.ob(R, 'update: every counted variable', all(x not in ('break', 'ret') for x in L.bx) and len(L.c) >= 3, loc(f), 'the loop stops early')

        def rng(m, t):
            """t is the list of the ranges of space m."""
            t = resolve(t)
            return t[0] == 'call' and shortq(t[1]) == RC + 'ranges' and t[3] == (fld('split_'),) and t[2][0] == 'fld' and t[2][2] == m and norm(t[2][1]) == ('fld', ('fld', el, 'second'), 'first')

        def resolve(t):
            while t is not None and t[0] == 'obj' and len(t) > 3 and t[3] is not None:
                t = t[3][2][0] if t[3][0] == 'ctor' and len(t[3][2]) == 1 else t[3]
            return t
        for b, bh in zip(L.c, L.bh):
            adds, sims = [], []

            def collect(evs, loops):
                for e in evs:
                    if e.kind == 'loop':
                        for x in e.c:
                            collect(x, loops + (e,))
                    elif e.kind == 'call' and e.b == VAR and cname(e) == 'add':
                        adds.append((e, loops))
                    elif e.kind == 'call' and e.b == SIM and cname(e) in ('push_back', 'emplace_back'):
                        sims.append((e, loops))
                    elif e.kind == 'call' and e.b == SIM and cname(e) in ('resize', 'insert', 'assign'):
                        sims.append((e, loops))
            collect(b, ())
            zero = any(c[0] == 'op' and c[1] == '==' and v is True and len(c) == 4 and any(lastname(x) == 'size' and any(rng(m, x[2]) for m in ('mSize_', 'rSize_', 'tSize_')) for x in c[2:] if x[0] == 'call') and ('lit', '0') in c[2:] for c, v in bh.items()) \
                or any(c[0] == 'call' and lastname(c) == 'empty' and v is True for c, v in bh.items())
            one = any(c[0] == 'op' and c[1] == '==' and v is True and len(c) == 4 and any(x[0] == 'call' and lastname(x) == 'size' and rng('mSize_', x[2]) for x in c[2:]) and ('lit', '1') in c[2:] for c, v in bh.items())
            if zero:
                rep.ob(R, 'update: nothing for a variable without range', not adds and not sims, loc(f), 'adds a variable for an empty count')
                continue
            ok = len(adds) == 1 and len(sims) == 1 and [x.a for x in adds[0][1]] == [x.a for x in sims[0][1]]
            rep.ob(R, 'update: one flag per variable', ok, loc(f), '%d variables, %d flags' % (len(adds), len(sims)))
            if not ok:
                continue
            s = sims[0][0].c[-1]
            nc = norm(('fld', ('fld', el, 'second'), 'second'))
            simple = s[0] == 'op' and s[1] == '==' and len(s) == 4 and any(norm(x) == nc and y[0] == 'call' and lastname(y) == 'size' and any(rng(m, y[2]) for m in ('mSize_', 'rSize_', 'tSize_')) for x, y in ((s[2], s[3]), (s[3], s[2])))
            if s in (T, F):
                simple = any(c[0] == 'op' and c[1] == '==' and v == (s == T) and any(norm(x) == nc for x in c[2:]) for c, v in bh.items())
            rep.ob(R, 'update: simple when there are as many ranges as pieces', simple, loc(f), 'flag %s' % show(s))
            a = adds[0][0].c[0]
            whole = has_call(a, 'shared_from_this')
            if whole:
                base = next((v for c, v in bh.items() if c[0] == 'call' and lastname(c) == 'isBasePrimitive' and norm(c[2]) == norm(var)), None)
                m = 'rSize_' if base else 'tSize_'
                full = any(c[0] == 'op' and c[1] == '==' and v is True and any(x[0] == 'fld' and x[2] == 'dim' and has(x, lambda y: y[0] == 'index' and y[2] == ('lit', '0') and rng(m, y[1]) or y[0] == 'call' and lastname(y) == 'front' and rng(m, y[2])) and y0[0] == 'call' and lastname(y0) == 'size' and norm(y0[2]) == norm(var) for x, y0 in ((c[2], c[3]), (c[3], c[2]))) for c, v in bh.items() if c[0] == 'op' and len(c) == 4)
                rep.ob(R, 'update: the variable itself when it is entirely counted', one and base is not None and full and norm(root(a)) == norm(root(var)) or one and full and base is not None and has(a, lambda y: norm(y) == norm(var)), loc(f), 'given entirely when %s' % {show(c)[:60]: v for c, v in bh.items()})
            else:
                sv = [x for x in sub_terms(a) if isinstance(x, tuple) and x and x[0] == 'call' and lastname(x) == 'subvariable' and norm(x[2]) == norm(var)]
                good = len(sv) == 1 and len(adds[0][1]) == 1
                msg = show(a)
                if good:
                    Li = adds[0][1][0]
                    sp = [x for x in sv[0][3] if x[0] in ('ctor', 'init') and x[1].endswith('Space')]
                    good = len(sp) == 2
                    for spc, fl in zip(sp, ('dim', 'start')):
                        good = good and len(spc[2]) == 3
                        for x, m in zip(spc[2], ('mSize_', 'rSize_', 'tSize_')):
                            def at(y, m=m):
                                if y[0] == 'index' and rng(m, y[1]):
                                    return y[2][0] in ('idx', 'loopvar')
                                return y[0] == 'elem' and rng(m, y[1])
                            good = good and x[0] == 'fld' and x[2] == fl and at(x[1])
                    r = Li.b
                    good = good and all(x not in ('break', 'ret', 'continue') for x in Li.bx) and (r is None or any(rng(m, r) for m in ('mSize_', 'rSize_', 'tSize_')) or r[0] == 'range' and r[1] == ('lit', '0'))
                rep.ob(R, 'update: one part of the variable per range, at its place in every space', good, loc(f), 'adds %s' % msg[:200])
    rep.ob(R, 'update: rebuilds when outdated', n > 0, loc(f), 'never rebuilds')
    for name, m in (('variables', VAR), ('simple', SIM)):
        f, eng, ps = runq(prog, rep, VC + name, inline=lambda g, o: False)
        for p in ps:
            if p.exit == 'throw':
                rep.ob(R, '%s: refused only when ranges are split' % name, name == 'simple' and p.hist.get(fld('split_')) is True, loc(f), 'throws when %s' % p.condstr())
                continue
            up = [e for e in p.flat() if e.kind == 'call' and shortq(e.a) == VC + 'update']
            rep.ob(R, '%s: up to date when given' % name, (bool(up) or p.hist.get(fld('upToDate_')) is True) and has(p.ret, lambda x: x == m), loc(f), 'returns %s without update' % show(p.ret))
            if name == 'simple':
                rep.ob(R, 'simple: refused when ranges are split', p.hist.get(fld('split_')) is False, loc(f), 'not refused')
    rep.floor(R, 12)


# ---------------------------------------------------------------- RangeCounting
def rinl(g, o):
    return shortq(g['q']) in (RC + 'recompute', RC + 'empty', 'tvm::Range::end')


def limit(t):
    """(value, type) of a limit."""
    if t[0] == 'obj' and len(t) > 3 and t[3] is not None:
        t = t[3]
    if t[0] in ('ctor', 'init') and t[1].endswith('Limit') and len(t[2]) == 2:
        return t[2][0], t[2][1][1].split('::')[-1] if t[2][1][0] == 'enum' else None
    return None, None


def isend(t, r):
    if t is None:
        return False
    return t[0] == 'call' and shortq(t[1]) == 'tvm::Range::end' and t[2] == r or same_sum(flat_sum(t), [(1, ('fld', r, 'start')), (1, ('fld', r, 'dim'))])


def mutates(e):
    """The event changes the list of limits."""
    if e.kind == 'call' and e.inl:
        return False
    if e.kind == 'call' and shortq(e.a) == RC + 'insert':
        return True
    if e.kind == 'call' and e.b == LIM and cname(e) in INSERT | ERASE | {'splice', 'merge', 'swap', 'sort', 'unique', 'remove', 'push_front', 'emplace_front'}:
        return True
    return e.kind == 'write' and has(e.a, lambda x: x == LIM) and e.a[0] == 'fld' and (e.a[2] in ('i_', 'type_') or e.a == LIM)


def rule_counting(prog, rep):
    R = 'C13.counting'
    rep.rule(R, 'adding or removing a range inserts its two limits, outdates what was computed, and tells whether the union changed; refusals come before any change')
    for name in ('add', 'remove'):
        f, eng, ps = runq(prog, rep, RC + name, inline=rinl, fine=True)
        r = ('param', f['params'][0]['n'])
        types = ('Lower', 'Upper') if name == 'add' else ('Upper', 'Lower')
        n = 0
        for p in ps:
            ev = [e for e, l, h in pwalk(p)]
            muts = [i for i, e in enumerate(ev) if mutates(e)]
            if p.exit == 'throw':
                rep.ob(R, '%s: refusal changes nothing' % name, not muts, loc(f), 'limits changed before the throw')
                if name == 'add':
                    rep.bad(R, 'add: no refusal', loc(f), 'throws when %s' % p.condstr()[-120:])
                continue
            mv = [i for i, e in enumerate(ev) if e.kind == 'call' and shortq(e.a) == RC + 'moveToFirstAfter']
            if name == 'remove':
                rep.ob(R, 'remove: every verification before any change', not muts or not mv or max(mv) < min(muts), loc(f), 'the list is changed before the last verification')
            zero = any(c[0] == 'op' and c[1] == '==' and v is True and set(c[2:]) == {('fld', r, 'dim'), ('lit', '0')} for c, v in p.hist.items())
            if zero:
                rep.ob(R, '%s: nothing for an empty range' % name, not muts and p.ret == F, loc(f), 'changes something for an empty range')
                continue
            n += 1
            ins = []
            for i, e in enumerate(ev):
                if e.kind == 'call' and (shortq(e.a) == RC + 'insert' and e.c or e.b == LIM and cname(e) in ('push_back', 'emplace_back')):
                    a = e.c if cname(e) == 'emplace_back' else (e.c[0],)
                    if len(a) == 2:
                        ins.append((a[0], a[1][1].split('::')[-1] if a[1][0] == 'enum' else None))
                    else:
                        ins.append(limit(a[0]))
            ok = len(ins) == 2 and ins[0][1] == types[0] and ins[1][1] == types[1] and ins[0][0] == ('fld', r, 'start') and isend(ins[1][0], r)
            rep.ob(R, '%s: inserts the two limits of the range' % name, ok, loc(f), 'inserts %s' % [(show(x) if x else None, y) for x, y in ins])
            w = final(p, fld('recomputeSplit_'))
            rep.ob(R, '%s: the split ranges are outdated' % name, w is not None and w.b == T, loc(f), 'recomputeSplit_ not set')
            # the union changes when the range starts or ends at depth 1, or separate ranges meet
            empty = any(c[0] == 'call' and lastname(c) == 'empty' and v is True for c, v in p.hist.items()) or any(c[0] == 'op' and c[1] == '==' and v is True and c[2][0] == 'unk' and c[3][0] == 'call' and lastname(c[3]) == 'end' for c, v in p.hist.items())
            d1 = [v for c, v in p.hist.items() if isinstance(v, bool) and c[0] == 'op' and c[1] == '==' and len(c) == 4 and c[3] == ('lit', '1') and c[2][0] in ('unk', 'var', 'loopvar')]
            j = [v for c, v in p.hist.items() if isinstance(v, bool) and c[0] == 'call' and lastname(c) == 'moveToFirstAfter' and c[3][3] == ('lit', '1')]
            ch = value(p, p.ret) if p.ret is not None else None
            if not empty:
                want = True if True in d1 or True in j else False if d1 and j and not any(d1 + j) else None
                rep.ob(R, '%s: tells whether the union changes' % name, want is not None and ch is want, loc(f), 'returns %s when depth one: %s, crossing: %s' % (show(p.ret), d1, j))
                vals = [limit(ev[i].c[0]) for i in mv]
                good = len(vals) == 2 and vals[0][0] == ('fld', r, 'start') and isend(vals[1][0], r) and (vals[0][1], vals[1][1]) == (('Lower', 'Cut') if name == 'add' else ('Cut', 'Lower'))
                rep.ob(R, '%s: searches the places of the limits' % name, good, loc(f), 'searches %s' % [(show(x) if x else None, y) for x, y in vals])
            else:
                rep.ob(R, '%s: tells whether the union changes' % name, ch is True, loc(f), 'returns %s for a separate range' % show(p.ret))
            w = final(p, fld('recompute_'))
            after = value(p, w.b, lambda x: None) if w is not None else p.hist.get(fld('recompute_'))
            rep.ob(R, '%s: the ranges are outdated when the union changes' % name, ch is not True or after is True, loc(f), 'recompute_ is %s' % after)
            rep.ob(R, '%s: outdated ranges stay so' % name, w is None or after is True or p.hist.get(fld('recompute_')) is False, loc(f), 'recompute_ reset')
            if name == 'remove':
                cl = [e for e in p.flat() if e.kind == 'loop' and any(x.kind == 'call' and cname(x) in ('erase', 'remove_if') and x.b == LIM for b in e.c for x in flat(b))]
                ok = False
                for e in cl:
                    for b, bh in zip(e.c, e.bh):
                        if any(x.kind == 'call' and cname(x) == 'erase' for x in flat(b)):
                            cut = any(c[0] == 'op' and c[1] == '==' and v is True and any(x[0] == 'fld' and x[2] == 'type_' for x in c[2:]) and any(x[0] == 'enum' and x[1].endswith('::Cut') for x in c[2:]) for c, v in bh.items())
                            d0 = any(c[0] == 'op' and c[1] == '==' and v is True and ('lit', '0') in c[2:] for c, v in bh.items())
                            ok = cut and d0
                            if not ok:
                                break
                rep.ob(R, 'remove: no cut outside of the ranges is left', ok, loc(f), 'cuts at depth 0 are kept')
        rep.ob(R, '%s: changes the counts' % name, n > 0, loc(f), 'never inserts anything')
    # removal of something absent
    f, eng, ps = runq(prog, rep, RC + 'remove', inline=rinl, fine=True)
    thr = [p for p in ps if p.exit == 'throw']
    emp = any(any(c[0] == 'call' and lastname(c) == 'empty' and v is True for c, v in p.hist.items()) for p in thr)
    d0 = any(any(c[0] == 'op' and c[1] == '==' and v is True and c[2][0] == 'unk' and c[3] == ('lit', '0') for c, v in p.hist.items()) for p in thr)
    rep.ob(R, 'remove: refuses a range that was not added', emp and d0, loc(f), 'accepted when nothing is counted: %s, at its start: %s' % (not emp, not d0))
    # search
    f, eng, ps = runq(prog, rep, RC + 'moveToFirstAfter', inline=lambda g, o: False, fine=True)
    val, it, dep, cut = (('param', x['n']) for x in f['params'][:4])
    for p in ps:
        Ls = [e for e in p.flat() if e.kind == 'loop']
        ok = len(Ls) == 1
        for b, bh in zip(Ls[0].c, Ls[0].bh) if ok else ():
            w = [e for e in flat(b) if e.kind in ('write', 'lwrite')]
            d = [e for e in w if e.a == dep]
            ok &= len(d) == 1 and (d[0].op == '-=' and d[0].b == ('fld', it, 'type_') or d[0].op == '=' and same_sum(flat_sum(d[0].b), [(1, dep), (-1, ('fld', it, 'type_'))]))
            i = [e for e in w if e.a == it]
            ok &= len(i) == 1 and i[0].op == '++' and lastidx2(b, i[0]) > lastidx2(b, d[0]) if ok else False
            hit = [c for c, v in bh.items() if v is True and c[0] == 'op' and c[1] == '==' and cut in c[2:]]
            h = [e for e in w if e.kind == 'lwrite' and e.b == T]
            ok = ok and bool(hit) == bool(h)
            ok = ok and any(c[0] == 'op' and c[1] == '==' and v is False and any(lastname(x) == 'end' for x in c[2:]) for c, v in bh.items()) and any(c[0] == 'call' and lastname(c) == 'operator<=' and c[3] == (val,) and v is True for c, v in bh.items())
        rep.ob(R, 'search: advances over the limits not after the given one, following the depth', ok, loc(f), 'the loop does not follow the depth')
        if p.exit == 'throw':
            rep.ob(R, 'search: refuses a depth below the given one', any(c[0] == 'op' and c[1] == '<' and c[3] == cut and v is True for c, v in p.hist.items()), loc(f), 'throws when %s' % p.condstr()[-100:])
        else:
            rep.ob(R, 'search: tells if the depth was reached', p.ret is not None and p.ret[0] == 'loopvar' and p.ret[3] == F or p.ret in (T, F), loc(f), 'returns %s' % show(p.ret))
    rep.ob(R, 'search: refuses invalid removals', any(p.exit == 'throw' for p in ps), loc(f), 'never throws')
    f, eng, ps = runq(prog, rep, RC + 'maxCount', inline=lambda g, o: False, fine=True)
    for p in ps:
        Ls = [e for e in p.flat() if e.kind == 'loop' and e.b == LIM]
        ok = len(Ls) == 1 and not any(x in ('break', 'ret') for x in Ls[0].bx)
        up = False
        for b, bh in zip(Ls[0].c, Ls[0].bh) if ok else ():
            dw = [e for e in flat(b) if e.kind == 'lwrite' and has(e.b, lambda x: x[0] == 'fld' and x[2] == 'type_')]
            rid = p.ret[1] if p.ret is not None and p.ret[0] == 'loopvar' else None
            dw = [e for e in dw if e.a[2] != rid]
            dw = [e for e in dw if e.op == '-=' or e.op == '=' and any(s == -1 and x[0] == 'fld' and x[2] == 'type_' for s, x in flat_sum(e.b))]
            ok &= bool(dw)
            gt = [v for c, v in bh.items() if c[0] == 'op' and c[1] == '<' and isinstance(v, bool)]
            mw = [e for e in flat(b) if e.kind == 'lwrite' and e.a[2] == rid]
            up |= bool(mw) and (gt == [True] or any(has_call(e.b, 'max') for e in mw))
            ok &= not mw or gt == [True] or any(has_call(e.b, 'max') for e in mw)
        rep.ob(R, 'maxCount: largest depth', ok and up and p.ret is not None and p.ret[0] == 'loopvar' and p.ret[3] == ('lit', '0'), loc(f), 'not the maximum of the depths')
    rep.floor(R, 20)


def lastidx2(b, e):
    l = [i for i, x in enumerate(flat(b)) if x is e]
    return l[-1] if l else -1


def rule_ranges(prog, rep):
    R = 'C13.ranges'
    rep.rule(R, 'the ranges given are those of the current limits, for the kind of split asked for')
    f, eng, ps = runq(prog, rep, RC + 'ranges', inline=rinl, fine=True)
    sp = ('param', f['params'][0]['n'])
    I = fld('intervals_')
    seen = set()
    for p in ps:
        rep.ob(R, 'ranges: the stored ranges', p.ret == I, loc(f), 'returns %s' % show(p.ret))
        muts = [e for e in p.flat() if e.kind == 'call' and e.b == I and cname(e) in ('clear', 'emplace_back', 'push_back', 'assign', 'resize', 'swap')] + [e for e in p.flat() if e.kind == 'write' and e.a == I]
        empty = any(c[0] == 'call' and lastname(c) == 'empty' and c[2] == LIM and v is True for c, v in p.hist.items())
        s = p.hist.get(sp)
        if not muts:
            seen.add('cached')
            a, b = p.hist.get(fld('recompute_')), p.hist.get(fld('recomputeSplit_'))
            ok = a is False and b is False or s is True and b is False or s is False and a is False
            rep.ob(R, 'ranges: not recomputed only when they are up to date', ok, loc(f), 'stored ranges returned when %s' % p.condstr())
            continue
        ev = [e for e, l, h in pwalk(p)]
        first_ = next(e for e in ev if e in muts)
        rep.ob(R, 'ranges: computed from nothing', cname(first_) == 'clear' if first_.kind == 'call' else False, loc(f), 'the previous ranges are kept')
        fin = {}
        for m in ('recompute_', 'recomputeSplit_'):
            w = final(p, fld(m))
            fin[m] = value(p, w.b) if w is not None else p.hist.get(fld(m))
        if empty:
            seen.add('empty')
            rep.ob(R, 'ranges: nothing for nothing counted', len([e for e in muts if cname(e) != 'clear']) == 0, loc(f), 'ranges although nothing is counted')
            continue
        seen.add(s)
        if s is True:
            ok = fin['recompute_'] is True
        else:
            ok = fin['recomputeSplit_'] is True
        rep.ob(R, 'ranges: the other kind of ranges is outdated', ok, loc(f), 'split=%s leaves recompute_=%s recomputeSplit_=%s' % (s, fin['recompute_'], fin['recomputeSplit_']))
        # content
        if s is False:
            Ls = [e for e in p.flat() if e.kind == 'loop' and e.b == LIM]
            ok = len(Ls) == 1 and not any(x in ('break', 'ret') for x in Ls[0].bx)
            put = False
            for b, bh in zip(Ls[0].c, Ls[0].bh) if ok else ():
                el = ('elem', LIM, Ls[0].a)
                d = [e for e in flat(b) if e.kind == 'lwrite' and (e.op == '-=' and e.b == ('fld', el, 'type_') or e.op == '=' and any(q[0] == -1 and q[1] == norm(('fld', el, 'type_')) for q in flat_sum(e.b)))]
                z = any(c[0] == 'op' and c[1] == '==' and v is True and ('lit', '0') in c[2:] and (has(c, lambda x: x[0] == 'loopvar')) for c, v in bh.items())
                em = [e for e in flat(b) if e.kind == 'call' and e.b == I and cname(e) in ('emplace_back', 'push_back')]
                ok &= len(d) == 1 and len(em) == (1 if z else 0)
                if em:
                    put = True
                    a = em[0].c if len(em[0].c) == 2 else em[0].c[0][2] if em[0].c[0][0] in ('ctor', 'init') else ()
                    st = a[0][1] if len(a) == 2 and a[0][0] == 'fld' and a[0][2] == 'i_' else None
                    ok &= st is not None and st[0] == 'loopvar' and same_sum(flat_sum(a[1]), [(1, norm(('fld', el, 'i_'))), (-1, norm(a[0]))])
                    adv = [e for e in flat(b) if e.kind == 'lwrite' and st is not None and e.a[0] == 'var' and e.a[2] == st[1]]
                    ok &= len(adv) == 1 and same_sum(flat_sum(adv[0].b), [(1, norm(el)), (1, ('lit', '1'))])
            rep.ob(R, 'ranges: from the opening of each group of limits to its closing', ok and put, loc(f), 'the loop over the limits does not give the ranges at depth 0')
        elif s is True:
            em = [e for e in p.flat() if e.kind == 'call' and e.b == I and cname(e) in ('emplace_back', 'push_back')]
            ok = bool(em)
            for e in em:
                a = e.c if len(e.c) == 2 else e.c[0][2] if e.c[0][0] in ('ctor', 'init') else ()
                ok &= len(a) == 2 and a[0][0] == 'fld' and a[0][2] == 'i_' and len(flat_sum(a[1])) == 2 and (-1, norm(a[0])) in flat_sum(a[1])
            rep.ob(R, 'ranges: each split range goes from its first limit to the next', ok, loc(f), 'ranges %s' % [show(x.c) for x in em])
    rep.ob(R, 'ranges: both kinds are computed', {True, False} <= seen, loc(f), '%s' % seen)
    rep.floor(R, 8)


# ---------------------------------------------------------------- elementary insertion, on the local shapes of the list
def rule_order(prog, rep):
    R = 'C13.order'
    rep.rule(R, 'limits are compared by value, then openings come before cuts and cuts before closings')
    import itertools, operator
    L = RC + 'Limit::'
    for name, op in (('operator==', operator.eq), ('operator<', operator.lt), ('operator<=', operator.le), ('operator>', operator.gt), ('operator>=', operator.ge)):
        f, eng, ps = runq(prog, rep, L + name, inline=lambda g, o: shortq(g['q']).startswith(L), fine=True)
        o = ('param', f['params'][0]['n'])
        for vals in itertools.product((0, 1), (-1, 0, 1), (0, 1), (-1, 0, 1)):
            k = dict(zip((fld('i_'), fld('type_'), fld('i_', base=o), fld('type_', base=o)), vals))
            a, b = vals[:2], vals[2:]
            got = set()
            for p in ps:
                if consistent(p.hist, k.get):
                    got.add(evalterm(p.ret, k.get))
            if got != {op(a, b)}:
                rep.bad(R, '%s: lexicographic' % name, loc(f), '(%d,%d) and (%d,%d) give %s' % (a + b + (got,)))
                break
        else:
            rep.ob(R, '%s: lexicographic' % name, True, loc(f))
    for e in prog.enums.values():
        if e['q'].endswith('RangeCounting::Limit::Type'):
            v = {x['n']: int(x['v']) for x in e['vals']}
            rep.ob(R, 'opening, cut and closing change the depth by 1, 0 and -1', v == {'Lower': -1, 'Cut': 0, 'Upper': 1}, '', '%s' % v)
    rep.floor(R, 5)


def rule_insert(prog, rep):
    R = 'C13.insert'
    rep.rule(R, 'the insertion of a limit rewrites the list as documented: (i,+)(i,-) and (i,+)(i,|)(i,-) become (i,|), any other limit is inserted at its place')
    f, eng, ps = runq(prog, rep, RC + 'insert', inline=lambda g, o: False, fine=True)
    val, it, dep = (('param', x['n']) for x in f['params'][:3])
    import itertools
    n = 0
    for vt, same, nb, nbnb in itertools.product(('Lower', 'Upper'), (True, False), ('Cut', 'X'), ('X', 'other', 'none')):
        # neighbour: it for a lower limit, prev(it) for an upper one; 'X' is the opposite type
        opp = 'Upper' if vt == 'Lower' else 'Lower'
        if vt == 'Lower':
            lst = ['N0', 'IT', 'NN'] if nbnb != 'none' else ['N0', 'IT']
            near, far = 'IT', 'NN'
        else:
            lst = ['NN', 'PV', 'IT'] if nbnb != 'none' else ['PV', 'IT']
            near, far = 'PV', 'NN'
        info = {'IT': (9, 'Upper'), 'PV': (1, 'Lower'), 'N0': (1, 'Lower'), 'NN': (2, 'Lower')}
        info[near] = (5 if same else (6 if vt == 'Lower' else 4), 'Cut' if nb == 'Cut' else opp)
        if nbnb == 'X':
            info[far] = (5, opp) if same and nb == 'Cut' else (8 if vt == 'Lower' else 2, opp)
        elif nbnb == 'other':
            info[far] = (8 if vt == 'Lower' else 2, opp)
        shape = '%s next to %s%s%s' % (vt, 'the same value ' if same else 'another value ', info[near][1], ' and %s' % (info[far],) if far in lst else '')

        def node(t):
            """Name of the node of the list designated by the iterator t."""
            if t == it:
                return 'IT'
            s = flat_sum(t)
            off = 0
            base = None
            for k, x in s:
                if x == it or norm(x) == it:
                    base = 'IT'
                elif x[0] == 'lit':
                    off += k * int(x[1])
                elif x[0] == 'call' and lastname(x) in ('end', 'cend') and x[2] == LIM:
                    base = 'END'
                elif x[0] == 'call' and lastname(x) in ('begin', 'cbegin') and x[2] == LIM:
                    base = lst[0]
                else:
                    return None
            if base is None:
                return None
            i = (lst + ['END']).index(base) + off
            return (lst + ['END'])[i] if 0 <= i <= len(lst) else None

        def env(t):
            if t[0] == 'fld' and t[2] in ('i_', 'type_'):
                if t[1] == val:
                    return 5 if t[2] == 'i_' else ('enum', 'tvm::internal::RangeCounting::Limit::' + vt)
                k = node(t[1])
                if k in info:
                    return info[k][0] if t[2] == 'i_' else ('enum', 'tvm::internal::RangeCounting::Limit::' + info[k][1])
                return None
            if t == dep:
                return 2
            if t[0] == 'op' and t[1] == '==' and len(t) == 4:
                a, b = node(t[2]), node(t[3])
                if a and b:
                    return a == b
            if t[0] == 'call' and lastname(t) in ('operator==', 'operator!=') and 'Limit' in t[1]:
                xs = ([t[2]] if t[2] is not None else []) + list(t[3])
                vs = []
                for x in xs:
                    k = node(x)
                    if k in info:
                        vs.append(info[k])
                    elif x == val:
                        vs.append((5, vt))
                    else:
                        v, ty = limit(x)
                        vs.append((evalterm(v, env), ty) if v is not None else None)
                if len(vs) == 2 and None not in vs:
                    return (vs[0] == vs[1]) == (lastname(t) == 'operator==')
            return None
        rs = [p for p in ps if p.exit != 'throw' and consistent(p.hist, env)]
        # expected local result
        cur = [(k, info[k][1]) for k in lst]
        delta = 1 if vt == 'Lower' else -1
        if same and info[near][1] == opp:
            exp = [(k, 'Cut' if k == near else t) for k, t in cur]
            d = 0 if vt == 'Lower' else -1
            fi = lst[lst.index('IT') + 1] if vt == 'Lower' and lst.index('IT') + 1 < len(lst) else 'END' if vt == 'Lower' else 'IT'
        elif same and nb == 'Cut' and nbnb == 'X':
            exp = [(k, t) for k, t in cur if k != far]
            d = 0 if vt == 'Lower' else -1
            fi = 'END' if vt == 'Lower' else 'IT'
        else:
            exp = list(cur)
            exp.insert([k for k, t in exp].index('IT'), ('VAL', vt))
            d = delta
            fi = 'IT'
        rep.ob(R, 'insert: %s: one outcome' % shape, len(rs) >= 1, loc(f), 'no route')
        for p in rs:
            n += 1
            got = list(cur)
            dd, pos, bad = 0, 'IT', None
            for e, l, h in pwalk(p):
                if l:
                    bad = 'loop'
                if e.kind == 'call' and e.b == LIM and cname(e) == 'erase':
                    k = node(e.c[0])
                    if k not in [x for x, t in got]:
                        bad = 'erases %s' % show(e.c[0])
                    got = [(x, t) for x, t in got if x != k]
                elif e.kind == 'call' and e.b == LIM and cname(e) in ('insert', 'emplace'):
                    k = node(e.c[0])
                    if k not in [x for x, t in got] or e.c[1] != val:
                        bad = 'inserts %s' % show(e.c)
                    else:
                        got.insert([x for x, t in got].index(k), ('VAL', vt))
                elif mutates(e) and e.kind == 'call':
                    bad = repr(e)[:80]
                elif e.kind == 'write' and e.a[0] == 'fld' and e.a[2] in ('i_', 'type_'):
                    k = node(e.a[1])
                    if e.a[2] == 'type_' and e.b[0] == 'enum' and k in [x for x, t in got]:
                        got = [(x, e.b[1].split('::')[-1] if x == k else t) for x, t in got]
                    else:
                        bad = 'writes %s' % show(e.a)
                elif e.kind == 'write' and e.a == dep:
                    dd += 1 if e.op == '++' else -1 if e.op == '--' else 99 if e.op not in ('+=', '-=') else (1 if e.op == '+=' else -1) * (evalterm(e.b, lambda t: None) or 99)
                elif e.kind == 'write' and e.a == it:
                    if e.op == '++':
                        i = (lst + ['END']).index(pos) + 1 if pos in lst else None
                        pos = (lst + ['END'])[i] if i else None
                    elif e.b is not None and e.b[0] == 'call' and lastname(e.b) == 'erase':
                        k = node(e.b[3][0])
                        i = lst.index(k) + 1 if k in lst else None
                        pos = (lst + ['END'])[i] if i is not None else None
                    else:
                        pos = node(e.b)
            ok = bad is None and got == exp and dd == d and pos == fi
            rep.ob(R, 'insert: %s' % shape, ok, loc(f), bad or 'gives %s (expected %s), depth %+d (expected %+d), position %s (expected %s)' % ([t for k, t in got], [t for k, t in exp], dd, d, pos, fi))
    rep.floor(R, 24)


RULES = [rule_vector, rule_update, rule_counting, rule_ranges, rule_order, rule_insert]
