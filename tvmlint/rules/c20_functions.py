"""C20: functions and linear constraints follow their variables: caches, sizes, slices, values."""
import re
from ..q import *
from ..algebra import base as bn

EXPLANATION = ('Path summaries of the addition and removal of variables, of the sizing of the caches, of the access by variable, of the value/velocity of linear functions and constraints and of their construction; '
               'every route is compared with the documented effect (which cache entry, which size, which columns, which sum).')
ASSUMPTIONS = ['VariableVector and Range behave as C11/C12 decide', 'Eigen operators have their usual meaning', 'the matrices of properties behave as C18 decides']
FOP = 'tvm::internal::FirstOrderProvider::'
FN = 'tvm::function::abstract::Function::'
LF = 'tvm::function::abstract::LinearFunction::'
BLF = 'tvm::function::BasicLinearFunction::'
BLC = 'tvm::constraint::BasicLinearConstraint::'
V = ('V',)
X = ('X',)
IMG = ('IMG',)


def none(g, o):
    return False


MAPS = ('jacobian_', 'JDot_', 'linear_')


def canon(t):
    """One form for the spellings of sizes, variables, caches."""
    if not isinstance(t, tuple) or not t:
        return t
    k = t[0]
    if k == 'obj' and t[3] is not None and (t[3][0] in ('call', 'index', 'fld', 'param', 'elem')):
        return canon(t[3])
    if k == 'fld':
        if t[1] == THIS and t[2] == 'variables_':
            return V
        if t[1] == THIS and t[2] == 'imageSpace_':
            return IMG
        b = canon(t[1])
        if t[2] in ('first', 'second') and b[0] == 'ENTRY':
            return X if t[2] == 'first' else ('index', b[1], X)
        if t[2] == 'second' and b[0] in ('call',) and bn(b[1]) == 'find' and b[2] in tuple(fld(m) for m in MAPS):
            return ('index', b[2], b[3][0])
        return ('fld', b, t[2])
    if k == 'elem':
        b = canon(t[1])
        if b == V:
            return X
        if b[0] == 'fld' and b[1] == THIS and b[2] in MAPS:
            return ('ENTRY', b)
        return ('elem', b)
    if k == 'idx':
        return ('idx',) + tuple(canon(x) for x in t[2:])
    if k == 'ctor' and len(t[2]) == 1 and ('shared_ptr' in t[1] or 'Ref<' in t[1] or t[1].startswith('const Eigen::Matrix<') or t[1].startswith('Eigen::Matrix<')):
        return canon(t[2][0])
    if k == 'ctor' and len(t[2]) == 2 and t[2][1] == ('lit', '0') and 'Ref<' in t[1]:
        return canon(t[2][0])
    if k == 'call':
        n = bn(t[1])
        o = canon(t[2]) if t[2] is not None else None
        a = tuple(canon(x) for x in t[3])
        if n in ('size', 'rSize', 'tSize') and not a:
            if o == THIS or o == IMG:
                return ('sz', n, IMG)
            if o is not None and o[0] == 'call' and bn(o[1]) == 'space':
                return ('sz', n, o[2])
            if t[1].startswith('tvm::Variable::'):
                return ('sz', n, o)
        if n == 'variables' and not a and o in (THIS, V):
            return V
        if n == 'imageSpace' and o == THIS:
            return IMG
        if n == 'operator[]' and o == V and a and (a[0][0] == 'idx' or a[0][0] == 'loopvar'):
            return X
        if n == 'jacobian' and o == THIS and len(a) == 1:
            return ('index', fld('jacobian_'), a[0])
        if n == 'at' and o is not None and o[0] == 'fld' and o[1] == THIS and o[2] in MAPS:
            return ('index', o, a[0])
        if n in ('noalias', 'eval') and o is not None:
            return o
        if n == 'operator*' and o is not None and len(a) == 1:
            return ('prod', o, a[0])
        if n == 'operator*' and o is None and len(a) == 2:
            return ('prod',) + a
        if n == 'dot' and o is None and (len(a) == 1 or a[1] == ('lit', '1')):
            return ('dot', a[0])
        if n == 'value' and t[1].startswith('tvm::Variable::') and not a:
            return ('val', o)
        return ('call', shortq(t[1]), o, a)
    if k == 'op' and t[1] == '*' and len(t) == 4:
        return ('prod', canon(t[2]), canon(t[3]))
    return tuple(canon(x) if isinstance(x, tuple) else x for x in t)


def events(p):
    """(kind, target, args, loops over all the variables?, hist, event) for the calls and writes of the route."""
    for e, loops, hist in pwalk(p):
        if e.kind == 'call' and not e.inl:
            yield bn(e.a), canon(e.b) if e.b is not None else None, tuple(canon(x) for x in e.c), loops, hist, e
        elif e.kind == 'write':
            yield 'write' + (e.op if e.op not in ('init', None) else '='), canon(e.a), (canon(e.b),), loops, hist, e


def overall(loops):
    """The loops are one loop over all the variables of the function (or all the entries of one of its caches)."""
    if len(loops) != 1:
        return False
    L = loops[0]
    b = canon(L.b) if isinstance(L.b, tuple) else L.b
    if any(x in ('break', 'ret') for x in (L.bx or ())):
        return False
    if b == V or (b is not None and b[0] == 'fld' and b[1] == THIS and b[2] in MAPS):
        return True
    return b is not None and b[0] == 'range' and V in list(sub_terms(b)) or L.op == 'for' and b == V


def resized(p, what, sizes, per=False):
    """The routes resizes `what`: to `sizes`."""
    out = []
    for n, t, a, loops, hist, e in events(p):
        if n in ('resize', 'conservativeResize', 'setZero') and t == what and a:
            out.append((a == sizes, overall(loops) if per else not loops))
        elif n in ('write=', 'operator=') and t == what and a and a[0][0] == 'call' and bn(a[0][1]) == 'Zero':
            out.append((a[0][3] == sizes, overall(loops) if per else not loops))
    return bool(out) and all(x and y for x, y in out)


# ------------------------------------------------------------------ caches

def changed(p, but=()):
    """Names of the things the route changes."""
    out = set()
    for n, t, a, loops, hist, e in events(p):
        if t is None:
            continue
        if n.startswith('write') and t[0] != 'obj':
            out.add(show(t)[:40])
        elif (n in ('resize', 'erase', 'insert', 'emplace', 'push_back', 'emplace_back', 'operator=', 'clear', 'remove', 'add', 'addVariable_', 'removeVariable_') and t != X) and n not in but:
            if t[0] == 'fld' or t[0] == 'index' or t in (V, THIS):
                out.add(n + ' ' + show(t)[:40])
    return out


def caches(prog, rep):
    R = 'C20.cache'
    rep.rule(R, 'adding a variable not yet used creates its entries in every cache with the right sizes, and nothing else changes otherwise; removing one forgets its entries; removing one that is not used is refused before anything changes')
    v = ('param', 'v')
    f, eng, ps = runq(prog, rep, FOP + 'addVariable', pick=lambda f: 'VariableVector' not in f['params'][0]['t'], inline=none)
    v, lin = [canon(x) for x in Engine(prog).param_terms(f['params'])]
    seen = set()
    for p in ps:
        if p.exit == 'throw':
            continue
        added = None
        for k, val in p.hist.items():
            c = canon(k)
            if c[0] == 'call' and bn(c[1]) == 'add' and c[2] == V and c[3] == (v,) and isinstance(val, bool):
                added = val
            elif c[0] == 'call' and bn(c[1]) == 'contains' and c[2] == V and c[3] == (v,) and isinstance(val, bool):
                added = not val if added is None else added
        evs = list(events(p))
        seen.add(added)
        if added:
            rep.ob(R, 'new variable: kept', any(n == 'add' and t == V and a == (v,) for n, t, a, *_ in evs), loc(f), 'the variable is not among the variables')
            rep.ob(R, 'new variable: jacobian', resized(p, ('index', fld('jacobian_'), v), (('sz', 'tSize', IMG), ('sz', 'tSize', v))), loc(f), 'the jacobian does not have the size of the tangent spaces')
            w = [a for n, t, a, *_ in evs if n == 'write=' and t == ('index', fld('linear_'), v)] + [a[1:] for n, t, a, *_ in evs if n in ('insert_or_assign',) and t == fld('linear_') and a[:1] == (v,)]
            rep.ob(R, 'new variable: linearity', bool(w) and w[-1] == (lin,), loc(f), 'the linearity recorded is not the one given')
            h = [i for i, (n, t, a, *_) in enumerate(evs) if n == 'addVariable_' and t == THIS]
            m = [i for i, (n, t, a, *_) in enumerate(evs) if n in ('resize', 'add') or n.startswith('write') and t[0] == 'index']
            rep.ob(R, 'new variable: derived classes told', len(h) == 1 and evs[h[0]][2] == (v,) and all(i < h[0] for i in m), loc(f), 'addVariable_ is not called once, after the caches are ready')
        elif added is False:
            ch = changed(p, but=('add',))
            rep.ob(R, 'variable already there', not ch, loc(f), 'changes %s' % ', '.join(sorted(ch)))
    rep.ob(R, 'both cases of addVariable', seen >= {True, False}, loc(f), 'the entry of a variable already there is not distinguished')
    f, eng, ps = runq(prog, rep, FOP + 'addVariable', pick=lambda f: 'VariableVector' in f['params'][0]['t'], inline=none)
    t = Engine(prog).param_terms(f['params'])
    for p in ps:
        ok = False
        for e, loops, hist in pwalk(p):
            if e.kind == 'call' and bn(e.a) == 'addVariable' and e.b == THIS and len(loops) == 1 and len(e.c) == 2:
                L = loops[0]
                r = L.b
                src = r is not None and any(x == t[0] for x in sub_terms(r))
                ok |= src and e.c[1] == t[1] and has(e.c[0], lambda y: y == t[0] or y[:1] == ('elem',)) and not any(x in ('break', 'ret') for x in L.bx or ())
        rep.ob(R, 'several variables', ok, loc(f), 'each of the variables is not added with the linearity given')
    # removal
    f, eng, ps = runq(prog, rep, FOP + 'removeVariable', inline=none)
    v = canon(Engine(prog).param_terms(f['params'])[0])
    for p in ps:
        there = None
        for k, val in p.hist.items():
            c = canon(k)
            if c[0] == 'op' and c[1] == '<' and c[2][0] == 'call' and bn(c[2][1]) == 'indexOf' and c[2][2] == V and c[3] == ('lit', '0'):
                there = val is False
            elif c[0] == 'op' and c[1] == '<' and c[3][0] == 'call' and bn(c[3][1]) == 'indexOf' and c[2] in (('lit', '-1'), ('op', '-', ('lit', '1'))):
                there = val is True
            elif c[0] == 'call' and bn(c[1]) == 'indexOf' and c[2] == V:
                there = None if not isinstance(val, tuple) else there
            elif c[0] == 'op' and c[1] == '==' and any(y[0] == 'call' and bn(y[1]) == 'indexOf' for y in c[2:]):
                there = val is False
            elif c[0] == 'call' and bn(c[1]) == 'remove' and c[2] == V and isinstance(val, bool):
                there = val
            elif c[0] == 'call' and bn(c[1]) == 'contains' and c[2] == V and isinstance(val, bool):
                there = None
        evs = list(events(p))
        if p.exit == 'throw':
            ch = changed(p)
            rep.ob(R, 'removal of a variable that is not used', not ch, loc(f), 'changes %s before refusing' % ', '.join(sorted(ch)))
            continue
        dec = there is True or any(has(canon(k), lambda y: y == V) and has(canon(k), lambda y: y == v) and not (canon(k)[0] == 'call' and bn(canon(k)[1]) == 'contains') for k in p.hist)
        rep.ob(R, 'removal: only a variable that is used', there is not False and dec, loc(f), 'a variable that is not used (or is only a part of one) is not refused')
        rem = [i for i, (n, t, a, *_) in enumerate(evs) if n == 'remove' and t == V]
        rep.ob(R, 'removal: variables', len(rem) == 1, loc(f), 'the variable is not removed from the variables once')
        keys = []
        for m in ('jacobian_', 'linear_'):
            k = [a[0] for n, t, a, *_ in evs if n == 'erase' and t == fld(m) and a]
            rep.ob(R, 'removal: %s' % m, len(k) == 1, loc(f), 'its entry is not forgotten')
            keys += k
        h = [a[0] for n, t, a, *_ in evs if n == 'removeVariable_' and t == THIS and a]
        rep.ob(R, 'removal: derived classes told', len(h) == 1, loc(f), 'removeVariable_ is not called once')
        for k in keys + h:
            rep.ob(R, 'removal: the object that was added', k != v and has(k, lambda y: y == V), loc(f), 'the entries of the object given are forgotten, while the caches are indexed by the one that was added')
        last = max([i for i, (n, t, a, *_) in enumerate(evs) if n in ('operator[]', 'find', 'begin', 'indexOf') and t == V], default=-1)
        if rem:
            rep.ob(R, 'removal: found first', last < rem[0], loc(f), 'the variable is looked for after it was removed')
    # Function
    f, eng, ps = runq(prog, rep, FN + 'addVariable_', inline=none)
    v = canon(Engine(prog).param_terms(f['params'])[0])
    for p in ps:
        if p.exit == 'throw':
            continue
        rep.ob(R, 'new variable of a function: JDot', resized(p, ('index', fld('JDot_'), v), (('sz', 'tSize', IMG), ('sz', 'tSize', v))), loc(f), 'JDot does not have the size of the tangent spaces')
        rep.ob(R, 'new variable of a function: derivative kept', any(n in ('push_back', 'emplace_back') and t == fld('variablesDot_') and a == (('dot', v),) for n, t, a, *_ in events(p)), loc(f), 'its derivative is not kept alive')
    f, eng, ps = runq(prog, rep, FN + 'removeVariable_', inline=none)
    v = canon(Engine(prog).param_terms(f['params'])[0])
    for p in ps:
        if p.exit == 'throw':
            continue
        rep.ob(R, 'removal from a function: JDot', any(n == 'erase' and t == fld('JDot_') and a == (v,) for n, t, a, *_ in events(p)), loc(f), 'its entry is not forgotten')
        er = [a for n, t, a, *_ in events(p) if n in ('erase', 'erase_if') and t in (fld('variablesDot_'), None)]
        rep.ob(R, 'removal from a function: derivative', len(er) == 1 and any(has(x, lambda y: y == ('dot', v)) for x in er[0]) or any(searched(x, p, ('call', 'tvm::dot', None, (('param', f['params'][0]['n']), ('lit', '1'), ('lit', 'false')))) for e in er for x in e), loc(f), 'its derivative is still kept')
    rep.floor(R, 15)


# ------------------------------------------------------------------ sizes

SIZED = [('FirstOrderProvider', 'value_', 'Value', ('rSize',)), ('FirstOrderProvider', 'jacobian_', 'Jacobian', ('tSize', 'tSize')),
         ('Function', 'velocity_', 'Velocity', ('tSize',)), ('Function', 'normalAcceleration_', 'NormalAcceleration', ('tSize',)), ('Function', 'JDot_', 'JDot', ('tSize', 'tSize'))]


def sizes(prog, rep):
    R = 'C20.size'
    rep.rule(R, 'the caches of the enabled outputs have the size of the representation (value) or of the tangent space (derivatives) of the image, and one column per dimension of the tangent space of the variable; resizing reaches them all')
    inl = lambda g, o: shortq(g['q']).startswith((FOP + 'resize', FN + 'resize', LF + 'resize'))
    for cls, q in (('FirstOrderProvider', FOP), ('Function', FN), ('LinearFunction', LF), ('Constraint', 'tvm::constraint::abstract::Constraint::')):
        f, eng, ps = runq(prog, rep, q + 'resizeCache', inline=inl)
        for p in ps:
            for c, m, o, sz in SIZED:
                if c == 'Function' and cls in ('FirstOrderProvider', 'Constraint'):
                    continue
                en = [val for k, val in p.hist.items() if k[0] == 'call' and bn(k[1]) == 'isOutputEnabled' and any(y[0] in ('enum', 'global') and y[1].endswith('Output::' + o) for y in sub_terms(k) if len(y) > 1 and isinstance(y[1], str))]
                if en and en[0] is False:
                    continue
                per = m.endswith('_') and m in MAPS
                if per:
                    ok = resized(p, ('index', fld(m), X), (('sz', sz[0], IMG), ('sz', sz[1], X)), per=True)
                else:
                    ok = resized(p, fld(m), (('sz', sz[0], IMG),))
                rep.ob(R, '%s::resizeCache: %s' % (cls, m), ok, loc(f), 'is not given the size %s' % ' x '.join(sz))
            evs = list(events(p))
            if cls == 'Constraint':
                rep.ob(R, 'Constraint::resizeCache: bounds', any(n == 'resize' and t == fld('vectors_') and a in ((('sz', 'size', IMG),), (('sz', 'rSize', IMG),), (('sz', 'tSize', IMG),)) for n, t, a, *_ in evs), loc(f), 'the bounds are not given the size of the constraint')
            if cls == 'LinearFunction':
                b = [i for i, (n, t, a, *_) in enumerate(evs) if n in ('resize',) and t == fld('b_')]
                z = [i for i, (n, t, a, *_) in enumerate(evs) if n == 'setDerivativesToZero']
                rz = [i for i, (n, t, a, *_) in enumerate(evs) if n == 'resize' and t != fld('b_')]
                rep.ob(R, 'LinearFunction::resizeCache: b', bool(b) and evs[b[0]][2] in ((('sz', k, IMG),) for k in ('size', 'rSize', 'tSize')), loc(f), 'b is not given the size of the function')
                rep.ob(R, 'LinearFunction::resizeCache: derivatives', bool(z) and all(i < z[-1] for i in rz), loc(f), 'the derivatives are not null after a change of size')
    # construction
    inl2 = lambda g, o: bn(g['q']).startswith('resize')
    for q, ms in ((FOP + 'FirstOrderProvider', ('value_',)), (FN + 'Function', ('value_', 'velocity_', 'normalAcceleration_'))):
        for f, eng, ps in runq(prog, rep, q, one=False, inline=inl2, pick=lambda f: len(f['params']) == 1 and 'Space' in f['params'][0]['t'] and '&' not in f['params'][0]['t']):
            for p in ps:
                for m in ms:
                    o = [s for s in SIZED if s[1] == m][0]
                    en = [val for k, val in p.hist.items() if k[0] == 'call' and bn(k[1]) == 'isOutputEnabled' and any(y[0] in ('enum', 'global') and y[1].endswith('Output::' + o[2]) for y in sub_terms(k) if len(y) > 1 and isinstance(y[1], str))]
                    if en and en[0] is False:
                        continue
                    rep.ob(R, '%s constructor: %s' % (bn(q), m), resized(p, fld(m), (('sz', o[3][0], IMG),)), loc(f), 'is not sized')
    f, eng, ps = runq(prog, rep, FOP + 'resize', inline=none)
    m = Engine(prog).param_terms(f['params'])[0]
    for p in ps:
        if p.exit == 'throw':
            continue
        evs = list(events(p))
        w = [i for i, (n, t, a, *_) in enumerate(evs) if n in ('operator=', 'write=') and t == IMG and a[0][0] == 'ctor' and a[0][2] == (m,)]
        c = [i for i, (n, t, a, *_) in enumerate(evs) if n == 'resizeCache' and t == THIS]
        rep.ob(R, 'resize', bool(w) and bool(c) and w[-1] < c[-1], loc(f), 'the image space is not changed before every cache is resized')
    for n in ('size', 'rSize', 'tSize'):
        f, eng, ps = runq(prog, rep, FOP + n, inline=none)
        for p in ps:
            rep.ob(R, '%s()' % n, p.ret == ('call', 'tvm::Space::' + n, fld('imageSpace_'), ()), loc(f), 'is %s' % show(p.ret))
    rep.floor(R, 20)


# ------------------------------------------------------------------ slices

def slices(prog, rep):
    R = 'C20.slice'
    rep.rule(R, 'what is asked of a variable is its entry; of a part of a variable, the part of the entry designated by the range of one in the other (tangent space for matrices of derivatives); of anything else, an exception')
    for cls, want in (('tvm::internal::FirstOrderProvider', {'jacobian_': 'true', 'linear_': None}), ('tvm::function::abstract::Function', {'JDot_': 'true'})):
        for x in prog.record(cls)['fields']:
            if x['n'] in want and want[x['n']]:
                rep.ob(R, '%s: ranges' % x['n'], x['t'].replace(' ', '').endswith(want[x['n']] + '>'), cls, 'its columns are designated by ranges in the variable instead of in its tangent space')
    n = 0
    for f in prog.find('tvm::utils::internal::MapWithVariableAsKey::at', must=True):
        if f.get('body') is None or len(f['params']) != 2:
            continue
        n += 1
        ts = f['q'].replace(' ', '').rsplit('::at', 1)[0].endswith('true>')
        rng = 'tSubvariableRange' if ts else 'subvariableRange'
        eng = Engine(prog, inline=none)
        ps = eng.run(f)
        rep.used(eng, ps)
        key = canon(Engine(prog).param_terms(f['params'])[0])
        nm = '%s map, %s access' % ('tangent' if ts else 'plain', 'constant' if f['q'] and f['fid'].endswith('const') else 'writable')
        E = ('elem', THIS)
        for p in ps:
            found = cont = eq = None
            for k, val in p.hist.items():
                c = canon(norm(k))
                s = list(sub_terms(c))
                if c[0] == 'op' and c[1] == '==' and any(y[0] == 'call' and bn(y[1]) == 'find' for y in c[2:]) and any(y[0] == 'call' and bn(y[1]) in ('end', 'cend') for y in c[2:]):
                    found = val is False
                elif c[0] == 'call' and bn(c[1]) in ('count', 'contains') and c[2] == THIS:
                    found = val
                elif c[0] == 'call' and bn(c[1]) == 'contains' and c[3] == (key,) and has(c[2], lambda y: y == ('fld', E, 'first')):
                    cont = val
                elif has(c, lambda y: y == key) and has(c, lambda y: y == ('fld', E, 'first')) and (c[0] == 'op' and c[1] == '==' or c[0] == 'call' and bn(c[1]) == 'operator=='):
                    eq = val
            r = canon(norm(p.ret)) if p.ret is not None else None
            if p.exit == 'throw':
                rep.ob(R, nm + ': refused', found is not True and cont is not True, loc(f), 'a variable that is there is refused')
                continue
            while r is not None and r[0] == 'ctor' and len(r[2]) == 1:
                r = r[2][0]
            if found:
                ok = r is not None and (r[0] == 'fld' and r[2] == 'second' and r[1][0] == 'call' and bn(r[1][1]) == 'find' and r[1][3] == (key,) or r == ('index', THIS, key))
                rep.ob(R, nm + ': its entry', ok, loc(f), 'gives %s' % show(r) if r else 'nothing')
            elif cont and eq:
                rep.ob(R, nm + ': an equal variable', r == ('fld', E, 'second'), loc(f), 'gives %s' % show(r) if r else 'nothing')
            elif cont:
                a = r[3] if r is not None and r[0] == 'call' and bn(r[1]) == 'get' else ()
                rg = a[1] if len(a) == 2 else None
                if rg is not None and rg[0] == 'obj':
                    w = [e.c[0] for e in p.flat() if e.kind == 'call' and bn(e.a) == 'operator=' and e.b is not None and canon(norm(e.b)) == rg] + [e.b for e in p.flat() if e.kind in ('lwrite', 'write') and canon(norm(e.a)) == rg and e.op == '=']
                    rg = canon(norm(w[-1])) if w else (rg[3] if len(rg) > 3 else rg)
                ok = len(a) == 2 and a[0] == ('fld', E, 'second') and rg is not None and rg[0] == 'call' and bn(rg[1]) == 'relativeRange' \
                    and rg[2] == ('call', 'tvm::Variable::' + rng, ('fld', E, 'first'), ()) and rg[3] == (('call', 'tvm::Variable::' + rng, key, ()),)
                rep.ob(R, nm + ': a part', ok, loc(f), 'gives %s' % (show(r) if r else 'nothing'))
            else:
                rep.bad(R, nm + ': nothing known', loc(f), 'an entry is given for a variable it was not compared with')
    for q, m in ((FOP + 'jacobian', 'jacobian_'), (FOP + 'linearIn', 'linear_'), (FN + 'JDot', 'JDot_')):
        f, eng, ps = runq(prog, rep, q, inline=none)
        x = canon(Engine(prog).param_terms(f['params'])[0])
        for p in ps:
            r = p.ret
            while r is not None and r[0] == 'ctor' and len(r[2]) in (1, 2) and 'Ref<' in r[1]:
                r = r[2][0]
            ok = r is not None and r[0] == 'call' and bn(r[1]) == 'at' and r[2] == fld(m) and canon(r[3][0]) == x and len(r[3]) == 2
            rep.ob(R, bn(q), ok, loc(f), 'is %s: parts of variables are not looked for' % (show(r) if r else None))
    for q, w in ((FN + 'slice_jdot::get', 'middleCols'),):
        for f, eng, ps in runq(prog, rep, q, one=False, inline=none):
            t = Engine(prog).param_terms(f['params'])
            for p in ps:
                r = p.ret
                while r is not None and r[0] == 'ctor' and len(r[2]) in (1, 2) and 'Ref<' in r[1]:
                    r = r[2][0]
                ok = r is not None and r[0] == 'call' and (bn(r[1]) == w and r[2] == t[0] and r[3] == (fld('start', base=t[1]), fld('dim', base=t[1])))
                rep.ob(R, 'columns of JDot', ok, loc(f), 'are %s' % (show(r) if r else None))
    # split of a matrix
    f, eng, ps = runq(prog, rep, FOP + 'splitJacobian', pick=lambda f: 'vector<' in f['params'][1]['t'], inline=none)
    J, vs, kp = Engine(prog).param_terms(f['params'])
    for p in ps:
        ok, why = False, 'no columns are given to the variables'
        for e, loops, hist in pwalk(p):
            if e.kind == 'call' and bn(e.a) in ('operator=', 'assignKeepProperties') and len(loops) == 1 and e.c and e.c[0][0] == 'call' and bn(e.c[0][1]) in ('middleCols', 'block') and e.c[0][2] == J:
                L = loops[0]
                a = e.c[0][3]
                el = norm(('elem', vs, 0))
                tgt = norm(e.b)
                kk = [y for y in sub_terms(tgt) if y[0] == 'call' and bn(y[1]) == 'keepProperties']
                who = [y for y in sub_terms(canon(norm(tgt))) if y[0] == 'index' and y[1] == fld('jacobian_')]
                s, n = a[1] if bn(e.c[0][1]) == 'block' else a[0], a[-1]
                whole = bn(e.c[0][1]) == 'middleCols' or len(a) == 4 and a[0] == ('lit', '0') and a[2] == ('call', a[2][1], J, ()) and bn(a[2][1]) == 'rows'
                nn = canon(norm(n))
                start = s[0] == 'loopvar' and s[3] == ('lit', '0')
                # the start moves by exactly that number of columns
                body = [b for b in L.c]
                step = [x for b in body for x in b if x.kind == 'lwrite' and x.a[0] in ('var', 'obj') and x.a[2] == s[1]] if start else []
                moves = len(step) == len(body) and all(x.op == '+=' and canon(norm(x.b)) == nn or x.op == '=' and canon(norm(x.b))[0] == 'op' and canon(norm(x.b))[1] == '+' and nn in canon(norm(x.b)) for x in step)
                ok = bool(kk) and kk[0][3] == (kp,) and bool(who) and who[0][2] == canon(el) and start and nn == ('sz', 'tSize', canon(el)) and moves and whole and L.b == vs
                why = 'the columns given to a variable are not the ones that follow those of the previous variable, in the number of its tangent space, or the choice on properties is not followed'
        rep.ob(R, 'split of a matrix among variables', ok, loc(f), why)
    f, eng, ps = runq(prog, rep, FOP + 'splitJacobian', pick=lambda f: 'VariableVector' in f['params'][1]['t'], inline=none)
    t = Engine(prog).param_terms(f['params'])
    for p in ps:
        ok = any(e.kind == 'call' and bn(e.a) == 'splitJacobian' and e.c == (t[0], ('call', 'tvm::VariableVector::variables', t[1], ()), t[2]) for e in p.flat())
        rep.ob(R, 'split among a variable vector', ok, loc(f), 'does not split the same way')
    rep.floor(R, 14)


# ------------------------------------------------------------------ laws

def addends(t, sign=1):
    t = canon(norm(t))
    if t[0] == 'call' and bn(t[1]) == 'operator+' and (t[2] is not None and len(t[3]) == 1 or t[2] is None and len(t[3]) == 2):
        return [y for x in (((t[2],) if t[2] is not None else ()) + tuple(t[3])) for y in addends(x, sign)]
    if t[0] == 'op' and t[1] == '+' and len(t) == 4:
        return addends(t[2], sign) + addends(t[3], sign)
    if t[0] == 'call' and bn(t[1]) in ('Zero',):
        return []
    return [(sign, t)]


def total(p, target):
    """What the route leaves in `target`: a list of ('one'|'each', sign, term); None if not written."""
    acc = None
    for e, loops, hist in pwalk(p):
        if e.kind == 'call' and not e.inl and e.b is not None and canon(norm(e.b)) == target:
            n = bn(e.a)
            if n in ('setZero',) and not loops:
                acc = []
                continue
            if n in ('fill', 'setConstant') and e.c and e.c[0] in (('lit', '0'), ('lit', '0.0'), ('lit', '0.')) and not loops:
                acc = []
                continue
            if n in ('operator=', 'operator+=', 'operator-='):
                op = n[8:]
            elif n in ('noalias', 'resize', 'size', 'rows', 'cols', 'data', 'begin', 'end') or (e.node or {}).get('const'):
                continue
            else:
                return None
            val = e.c[0]
        elif e.kind == 'write' and canon(norm(e.a)) == target and e.op != 'init':
            op, val = e.op, e.b
        else:
            continue
        if loops and not overall(loops):
            return None
        k = 'each' if loops else 'one'
        if op == '=' and acc is not None and (1, target) in addends(val):
            acc += [(k, s, t) for s, t in addends(val) if (s, t) != (1, target)]   # added to what it holds
            continue
        if op == '=':
            if loops:
                return None
            acc = []
        elif acc is None:
            return None
        acc += [(k, -s if op == '-=' else s, t) for s, t in addends(val)]
    return sorted(acc, key=repr) if acc is not None else None


def laws(prog, rep):
    R = 'C20.law'
    rep.rule(R, 'the value of a linear function is the sum of matrix times variable plus the constant term, its velocity the sum of matrix times derivative, its other derivatives are null; the identity function copies its variable')
    JX = ('index', fld('jacobian_'), X)
    for q, m, want in ((LF + 'updateValue_', 'value_', [('one', 1, fld('b_')), ('each', 1, ('prod', JX, ('val', X)))]),
                       (LF + 'updateVelocity_', 'velocity_', [('each', 1, ('prod', JX, ('val', ('dot', X))))]),
                       ('tvm::constraint::abstract::LinearConstraint::updateValue', 'value_', [('each', 1, ('prod', JX, ('val', X)))])):
        f, eng, ps = runq(prog, rep, q, inline=none)
        for p in ps:
            got = total(p, fld(m))
            rep.ob(R, shortq(f['q']), got == sorted(want, key=repr), loc(f), '%s receives %s' % (m, ' + '.join('%s%s%s' % ('sum of ' if k == 'each' else '', '-' if s < 0 else '', show(t)) for k, s, t in got) if got is not None else 'something else'))
    f, eng, ps = runq(prog, rep, LF + 'setDerivativesToZero', inline=none)
    for p in ps:
        rep.ob(R, 'null derivatives: normal acceleration', total(p, fld('normalAcceleration_')) == [], loc(f), 'it is not set to zero')
        z = [1 for n, t, a, loops, h, e in events(p) if (n == 'setZero' or n in ('operator=', 'write=') and a and a[0][0] == 'call' and bn(a[0][1]) == 'Zero') and t == ('index', fld('JDot_'), X) and overall(loops)]
        rep.ob(R, 'null derivatives: JDot', bool(z), loc(f), 'those of every variable are not set to zero')
    def first(t):
        t = canon(norm(t))
        return t

    for n, m, w in (('updateValue_', 'value_', lambda x: ('val', x)), ('updateVelocity_', 'velocity_', lambda x: ('val', ('dot', x)))):
        f, eng, ps = runq(prog, rep, 'tvm::function::IdentityFunction::' + n, inline=none)
        for p in ps:
            got = total(p, fld(m))
            one = [('call', 'tvm::VariableVector::operator[]', V, (('lit', '0'),)), X]
            one += [('call', 'std::vector::front', V, ()), ('call', 'std::vector::operator[]', V, (('lit', '0'),)), ('index', V, ('lit', '0'))]
            rep.ob(R, 'IdentityFunction::' + n, got is not None and len(got) == 1 and got[0][1] == 1 and got[0][2] in [w(x) for x in one] or got == [('one', 1, w(('call', 'tvm::VariableVector::begin', V, ())))], loc(f), '%s receives %s' % (m, got))
    # forwarding
    for q, to in ((LF + 'updateValue', 'updateValue_'), (LF + 'updateVelocity', 'updateVelocity_')):
        f, eng, ps = runq(prog, rep, q, inline=none)
        for p in ps:
            rep.ob(R, q[5:], sum(1 for e in p.flat() if e.kind == 'call' and bn(e.a) == to and e.b == THIS) == 1, loc(f), 'does not call %s' % to)
    rep.floor(R, 8)


# ------------------------------------------------------------------ building

def atoms(p):
    return {canon(norm(k)): v for k, v in p.hist.items()}


def agree(at, a, b):
    """True/False when the route knows whether sizes a (set of spellings) and b agree."""
    for k, v in at.items():
        if k[0] == 'op' and k[1] == '==' and len(k) == 4 and isinstance(v, bool) and ((k[2] in a and k[3] in b) or (k[2] in b and k[3] in a)):
            return v
    return None


def dim(n, m):
    return {('call', q + n, m, ()) for q in ('Eigen::EigenBase::', 'Eigen::MapBase::', 'Eigen::PlainObjectBase::', 'Eigen::Ref::', 'Eigen::DenseBase::', 'Eigen::CwiseNullaryOp::', 'Eigen::CwiseUnaryOp::', 'Eigen::CwiseBinaryOp::', 'Eigen::DiagonalWrapper::')}


def img(*k):
    return {('sz', x, IMG) for x in (k or ('size', 'rSize', 'tSize'))}


def building(prog, rep):
    R = 'C20.build'
    rep.rule(R, 'a matrix given for a variable is refused before anything changes when it does not fit the image or the variable or the variable is not Euclidean; otherwise it is stored if the variable is new and added to what is there if the variable (or one containing it) is already used')
    for q in (BLF + 'add', BLC + 'add'):
        fs = [f for f in prog.find(q, must=True) if f.get('body') is not None and len(f['params']) == 2 and 'Variable' in f['params'][1]['t']]
        if not fs:
            raise AnalysisBroken('anchor vanished: ' + q)
        for f in fs:
            eng = Engine(prog, inline=none)
            ps = eng.run(f)
            rep.used(eng, ps)
            A, x = [canon(y) for y in Engine(prog).param_terms(f['params'])]
            nm = f['cls'].split('::')[-1] + '::add'
            kinds = set()
            for p in ps:
                at = atoms(p)
                rows, cols = agree(at, dim('rows', A), img()), agree(at, dim('cols', A), {('sz', k, x) for k in ('size', 'rSize', 'tSize')})
                euc = next((v for k, v in at.items() if k[0] == 'call' and bn(k[1]) == 'isEuclidean' and has(k, lambda y: y == x)), None)
                prim = next((v for k, v in at.items() if k[0] == 'call' and bn(k[1]) == 'isBasePrimitive' and k[2] == x), None)
                ch = changed(p) | {show(t) for n, t, a, *_ in events(p) if n in ('operator+=', 'operator=', 'properties', 'addVariable')}
                if p.exit == 'throw':
                    rep.ob(R, nm + ': refused', not ch, loc(f), 'changes %s before refusing' % ', '.join(sorted(ch)))
                    rep.ob(R, nm + ': refused for a reason', rows is False or cols is False or euc is False and prim is not False, loc(f), 'a matrix that fits is refused')
                    continue
                rep.ob(R, nm + ': rows', rows is True, loc(f), 'the number of rows is not checked against the image')
                rep.ob(R, nm + ': columns', cols is True, loc(f), 'the number of columns is not checked against the variable')
                rep.ob(R, nm + ': Euclidean', euc is True or prim is False, loc(f), 'a variable of a non-Euclidean space is accepted')
                has_ = next((v for k, v in at.items() if k[0] == 'call' and bn(k[1]) == 'contains' and k[2] == V and k[3] == (x,)), None)
                kinds.add(has_)
                evs = list(events(p))
                J = ('index', fld('jacobian_'), x)
                ad = [i for i, (n, t, a, *_) in enumerate(evs) if n == 'addVariable' and t == THIS]
                if has_ is True:
                    w = [(n[-2:] if n.startswith('operator') else n[5:], a[0]) for n, t, a, *_ in evs if t == J and (n in ('operator=', 'operator+=', 'operator-=') or n.startswith('write')) and a]
                    sub = [e for n, t, a, l, h, e in evs if n == 'at' and t == fld('jacobian_') and a[:1] == (x,)]
                    rep.ob(R, nm + ': already used', w == [('+=', A)] and not ad, loc(f), 'the matrix is not added to the one that is there')
                    rep.ob(R, nm + ': already used, possibly as a part', bool(sub) and all(len(e.c) == 2 for e in sub) or any(n == 'jacobian' for n, *_ in evs), loc(f), 'the entry of a containing variable is not looked for')
                else:
                    w = [(i, a[0]) for i, (n, t, a, *_) in enumerate(evs) if t == J and n in ('operator=', 'write=', 'assignKeepProperties') and a]
                    rep.ob(R, nm + ': new', len(ad) == 1 and evs[ad[0]][2] == (x, ('lit', 'true')) and len(w) == 1 and w[0][1] == A and ad[0] < w[0][0], loc(f), 'the variable is not added as a linear one and given the matrix')
            rep.ob(R, nm + ': both cases', kinds >= {True, False}, loc(f), 'a variable already used is not distinguished')
    # setters
    for q in (BLF + 'A', BLC + 'A'):
        f, eng, ps = runq(prog, rep, q, 3, inline=none)
        A, x, pr = [canon(y) for y in Engine(prog).param_terms(f['params'])]
        nm = f['cls'].split('::')[-1] + '::A'
        for p in ps:
            at = atoms(p)
            rows, cols = agree(at, dim('rows', A), img()), agree(at, dim('cols', A), {('sz', k, x) for k in ('size', 'rSize', 'tSize')})
            ch = [n for n, t, a, *_ in events(p) if n in ('operator=', 'properties', 'operator+=') or n.startswith('write') and t[0] == 'index']
            if p.exit == 'throw':
                rep.ob(R, nm + ': refused', not ch and (rows is False or cols is False), loc(f), 'changes before refusing, or refuses a matrix that fits')
                continue
            J = ('index', fld('jacobian_'), x)
            w = [a[0] for n, t, a, *_ in events(p) if t == J and n in ('operator=', 'assignKeepProperties', 'write=') and a]
            pp = [a[0] for n, t, a, *_ in events(p) if t == J and n == 'properties' and a]
            rep.ob(R, nm, rows is True and cols is True and w == [A] and pp[-1:] == [pr], loc(f), 'does not check the sizes and store the matrix with its properties for the variable given')
        f, eng, ps = runq(prog, rep, q, 2, inline=none)
        A, pr = Engine(prog).param_terms(f['params'])
        for p in ps:
            c = [e for e in p.flat() if e.kind == 'call' and bn(e.a) == 'A' and e.b == THIS]
            one = [v for k, v in atoms(p).items() if has(k, lambda y: y[0] == 'call' and bn(y[1]) in ('numberOfVariables', 'size') and y[2] == V)]
            if p.exit == 'throw':
                rep.ob(R, nm + ' without variable: refused', not c, loc(f), 'changes before refusing')
            else:
                rep.ob(R, nm + ' without variable', len(c) == 1 and c[0].c[0] == A and c[0].c[2] == pr and has(canon(c[0].c[1]), lambda y: y == V) and bool(one), loc(f), 'does not set the matrix of the only variable')
    f, eng, ps = runq(prog, rep, BLF + 'b', inline=none)
    b, pr = [canon(y) for y in Engine(prog).param_terms(f['params'])]
    for p in ps:
        fit = agree(atoms(p), dim('size', b), img())
        w = [a[0] for n, t, a, *_ in events(p) if t == fld('b_') and n in ('operator=', 'assignKeepProperties', 'write=') and a]
        pp = [a[0] for n, t, a, *_ in events(p) if t == fld('b_') and n == 'properties' and a]
        if p.exit == 'throw':
            rep.ob(R, 'BasicLinearFunction::b: refused', fit is False and not w and not pp, loc(f), 'changes before refusing, or refuses a vector that fits')
        else:
            rep.ob(R, 'BasicLinearFunction::b', fit is True and w == [b] and pp[-1:] == [pr], loc(f), 'does not check the size and store the vector with its properties')
    # right hand sides of linear constraints
    CT, CR = 'tvm::constraint::Type', 'tvm::constraint::RHS'
    from ..ir import AnalysisBroken as AB
    tys, rhs = [v['n'] for v in prog.enums[CT]['vals']], [v['n'] for v in prog.enums[CR]['vals']]
    REF = {'EQUAL': 'eRef', 'GREATER_THAN': 'lRef', 'LOWER_THAN': 'uRef'}
    for n in ('b', 'l', 'u'):
        f, eng, ps = runq(prog, rep, BLC + n, inline=none)
        x = canon(Engine(prog).param_terms(f['params'])[0])
        for ty in tys:
            for cr in rhs:
                want = REF.get(ty) if n == 'b' else n + 'Ref' if ty == 'DOUBLE_SIDED' else None
                if cr == 'ZERO':
                    want = None
                hit = 0
                for p in ps:
                    if not possible(p, {'type': (ty, tys), 'rhs': (cr, rhs)}):
                        continue
                    fit = agree(atoms(p), dim('size', x), img())
                    w = [(bn(t[1]), a[0]) for nn, t, a, *_ in events(p) if nn in ('write=', 'operator=') and t is not None and t[0] == 'call' and a]
                    i = 'BasicLinearConstraint::%s for %s, %s' % (n, ty, cr)
                    if p.exit == 'throw':
                        rep.ob(R, i + ': refused', (want is None or fit is False) and not w, loc(f), 'refused while it is meaningful' if not w else 'changes before refusing')
                    else:
                        hit += 1
                        rep.ob(R, i, want is not None and fit is True and w == [(want, x)], loc(f), 'stores %s' % (w or 'nothing'))
                if want:
                    rep.ob(R, 'BasicLinearConstraint::%s for %s, %s: possible' % (n, ty, cr), hit > 0, loc(f), 'never accepted')
    # constructors of the basic classes
    for q in (BLF + 'BasicLinearFunction', BLC + 'BasicLinearConstraint'):
        for f in prog.find(q, must=True):
            ts = [a['t'] for a in f['params']]
            if f.get('body') is None or len(ts) < 2 or 'vector' not in ts[0]:
                continue
            T = Engine(prog).param_terms(f['params'])
            eng = Engine(prog, inline=none)
            ps = eng.run(f)
            rep.used(eng, ps)
            nm = '%s(%s)' % (f['cls'].split('::')[-1], ', '.join(a['n'] for a in f['params']))
            vecs = [a['n'] for a in f['params'][2:] if 'Matrix<double, -1, 1' in a['t']]
            for p in ps:
                at = atoms(p)
                fit = next((v for k, v in at.items() if k[0] == 'op' and k[1] == '==' and has(k, lambda y: y[0] == 'call' and bn(y[1]) == 'size' and y[2] == T[0]) and has(k, lambda y: y[0] == 'call' and bn(y[1]) == 'size' and y[2] == T[1])), None)
                evs = [(e, l) for e, l, h in pwalk(p) if e.kind == 'call']
                adds = [(e, l) for e, l in evs if bn(e.a) == 'add' and e.b == THIS and len(e.c) == 2]
                if p.exit == 'throw':
                    rep.ob(R, nm + ': refused', not adds, loc(f), 'refuses after variables have been added')
                    continue
                rep.ob(R, nm + ': as many matrices as variables', fit is True, loc(f), 'is not checked')
                def nth(t, v):
                    # loops in which t is the current element of v, in the order of v
                    full = lambda y: y[2] == ('lit', '0') and y[3] is not None and y[3][0] == 'call' and bn(y[3][1]) == 'size' and y[3][2] in T[:2]
                    return [y[2] for y in sub_terms(t) if isinstance(y, tuple) and y[:2] == ('elem', v) and len(y) > 2] + \
                           [y[2][1] for y in sub_terms(t) if isinstance(y, tuple) and y and y[0] == 'index' and y[1] == v and y[2][0] == 'idx' and full(y[2])]
                ok = len(adds) == 1 and len(adds[0][1]) == 1 and bool(nth(adds[0][0].c[0], T[0])) and not any(x in ('break', 'ret') for x in adds[0][1][0].bx or ())
                if ok:
                    e, (L,) = adds[0]
                    it = e.c[1]
                    if it[0] == 'loopvar':
                        st = [x for b in L.c for x in b if x.kind == 'lwrite' and x.a[2] == it[1]]
                        ok = it[3][0] == 'call' and bn(it[3][1]) in ('begin', 'cbegin') and it[3][2] == T[1] and len(st) == len(L.c) and all(x.op in ('++', '+=') or has(x.b, lambda y: y == it) for x in st)
                    else:
                        ok = nth(it, T[1])[:1] == nth(e.c[0], T[0])[:1]
                rep.ob(R, nm + ': every pair added', ok, loc(f), 'each matrix is not added with the variable of the same rank')
                for v in vecs:
                    c = [e for e, l in evs if bn(e.a) == v and e.b == THIS and e.c and e.c[0] == ('param', v)] or [e for e, l in evs if e.op == 'basector' and ('param', v) in e.c]
                    rep.ob(R, nm + ': ' + v, bool(c), loc(f), 'the vector is not stored')
                if 'Function' in q:
                    z = [e for e, l in evs if bn(e.a) == 'setDerivativesToZero' or e.op == 'basector' and e.a.endswith('BasicLinearFunction')]
                    rep.ob(R, nm + ': derivatives', bool(z), loc(f), 'the derivatives are not set to zero')
    # identity functions are not modified
    for n in ('A', 'b'):
        for f, eng, ps in runq(prog, rep, 'tvm::function::IdentityFunction::' + n, one=False, inline=none):
            for p in ps:
                rep.ob(R, 'IdentityFunction::' + n, p.exit == 'throw' and not changed(p), loc(f), 'changes the function')
    rep.floor(R, 60)


def possible(p, env):
    """The route can be taken when the accessors (type(), rhs()) have the values of env."""
    for a, (val, enum) in env.items():
        field = {'type': 'cstrType_', 'rhs': 'constraintRhs_'}[a]
        if val not in cases_of(p.hist, lambda t: t[0] == 'call' and bn(t[1]) == a and t[2] == THIS or t == fld(field), enum):
            return False
    return True


RULES = [caches, sizes, slices, laws, building]
