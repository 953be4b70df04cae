"""C11: variables, their derivatives and their subvariables share values and lifetimes as documented."""
import itertools
import operator
from ..q import *
from ..flow import tmplargs
from .c12_vectors import flat_sum, same_sum

EXPLANATION = ('Path summaries of every function of Variable, of dot, Space and Range, in the vocabulary of the public accessors: on every route the constructors allocate, share and initialise the memory as the kind of variable requires '
               'and the destructor frees exactly what was allocated, derivatives are created once and at the right level, subvariables are placed inside the base supervariable, and each pointer returned keeps alive the object that owns what it '
               'points to; the predicates and the arithmetic of ranges and spaces are compared with their tables. No other function changes the links between variables, and no pointer on a variable is made from a bare address.')
ASSUMPTIONS = ['variables are held by shared pointers', 'std::shared_ptr, std::unique_ptr and Eigen behave as documented']
VA = 'tvm::Variable::'
VAR = 'tvm::Variable'
FILES = ('src/Variable.cpp', 'include/tvm/Variable.h', 'src/Space.cpp', 'include/tvm/Space.h', 'include/tvm/Range.h')
VOC = {'space', 'spaceShift', 'size', 'value', 'set', 'setZero', 'derivativeNumber', 'isDerivativeOf', 'isPrimitiveOf', 'isBasePrimitive', 'primitive', 'primitiveNoCheck', 'basePrimitive', 'isSubvariable', 'superVariable', 'isSuperVariable',
       'isSuperVariableOf', 'subvariableRange', 'tSubvariableRange', 'contains', 'intersects', 'subvariable', 'getMappingIn', 'shared_from_this', 'rSize', 'tSize', 'type', 'isEuclidean', 'dot', 'createVariable', 'name', 'duplicate', 'end',
       'operator*', 'operator<=', 'operator==', 'operator!=', 'operator+', 'operator-', 'relativeRange', 'sizeAsString'}


def inl(g, o):
    return g['file'] in FILES and shortq(g['q']).split('::')[-1] not in VOC


def plain(q):
    return shortq(q)


def sem(t):
    """t in the vocabulary of the accessors."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'fld':
        x, n = sem(t[1]), t[2]
        k = {'space_': 'space', 'shift_': 'shift', 'derivativeNumber_': 'num', 'superVariable_': 'super', 'primitive_': 'prim', 'derivative_': 'deriv', 'value_': 'value', 'rSize_': 'r', 'tSize_': 't', 'mSize_': 'm', 'type_': 'type',
             'memory_': 'data', 'name_': 'name'}.get(n)
        return (k, x) if k else ('fld', x, n)
    if t[0] == 'call':
        q, o, a = t[1], t[2], t[3]
        n = plain(q).split('::')[-1]
        if n in ('size', 'rows') and o is not None and not a:
            s = sem(o)
            if s[0] in ('space', 'shift', 'prod') or plain(q) == 'tvm::Space::size':
                return ('m', s)
            return ('size', s[1]) if s[0] == 'value' else ('size', s)
        if q.startswith('tvm::') and o is not None and not a:
            k = {'space': 'space', 'spaceShift': 'shift', 'derivativeNumber': 'num', 'superVariable': 'super', 'basePrimitive': 'base', 'isSubvariable': 'issub', 'isBasePrimitive': 'isbase', 'rSize': 'r', 'tSize': 't', 'type': 'type',
                 'value': 'value', 'name': 'name', 'subvariableRange': 'srange', 'tSubvariableRange': 'trange', 'isEuclidean': 'iseuclid'}.get(n)
            if k:
                return (k, sem(o))
            if n == 'isSuperVariable':
                return ('op', '!', ('issub', sem(o)))
            if n == 'shared_from_this':
                return sem(o)
        if n == 'data' and o is not None:
            s = sem(o)
            if s[0] == 'value':
                return ('data', s[1])
        if plain(q) == 'tvm::dot' and o is None:
            return ('dot', sem(a[0]), sem(a[1]) if len(a) > 1 else ('lit', '1'))
        if plain(q).split('::')[-1] == 'operator*' and o is None and len(a) == 2:
            return ('prod',) + tuple(sorted((sem(a[0]), sem(a[1])), key=repr))
        return ('call', q, sem(o) if o is not None else None, tuple(sem(x) for x in a))
    if t[0] in ('own',):
        return ('own', sem(t[1]))
    if t[0] == 'op' and t[1] in ('==', '!=') and len(t) == 4:
        a, b = sem(t[2]), sem(t[3])
        for x, y in ((a, b), (b, a)):
            if y in (('lit', 'nullptr'), ('lit', '0')) and x[0] in ('super', 'prim', 'num'):
                r = ('op', '!', ('issub', x[1])) if x[0] == 'super' else ('isbase', x[1])
                if t[1] == '!=':
                    r = r[2] if r[0] == 'op' else ('op', '!', r)
                return r
        return (t[0], t[1], a, b)
    if t[0] == 'op' and t[1] == '<' and sem(t[2]) == ('lit', '0') and sem(t[3])[0] == 'num':
        return ('op', '!', ('isbase', sem(t[3])[1]))
    return tuple(sem(x) if isinstance(x, tuple) else x for x in t)


def boolean(t):
    """t used as a condition."""
    t = sem(t)
    if t[0] == 'super':
        return ('issub', t[1])
    if t[0] in ('num', 'prim'):
        return ('op', '!', ('isbase', t[1]))
    if t[0] == 'op' and t[1] == '!' and len(t) == 3:
        return ('op', '!', boolean(t[2]))
    return t


def facts_(h):
    for c, v in h.items():
        if isinstance(v, bool):
            b = boolean(c)
            while b[0] == 'op' and b[1] == '!' and len(b) == 3:
                b, v = b[2], not v
            yield b, v
        elif isinstance(v, tuple) and sem(c)[0] == 'num':
            # compared with literals
            yield ('isbase', sem(c)[1]), (v == ('lit', '0')) if v[0] != 'ne' and not isinstance(v[0], tuple) else False


def known(h, atom):
    for b, v in facts_(h):
        if b == atom:
            return v
    return None


def sums(t):
    return [(s, sem(x)) for s, x in flat_sum(t)]


def ptrmap(t):
    """(address, size) of a map on a vector."""
    while isinstance(t, tuple) and t and t[0] in ('ctor', 'init') and t[2]:
        if len(t[2]) >= 2 and 'Map<' in t[1].split('Ref<')[0] or len(t[2]) >= 3:
            return t[2][0], t[2][1]
        t = t[2][0]
    return None, None


def isnull(t):
    return t is None or t in (('lit', 'nullptr'), ('lit', '0')) or t[0] in ('init', 'ctor') and not t[2]


def ctors(prog, rep, eng=None):
    out = {}
    for f in prog.find(VA + 'Variable'):
        if f.get('body') is None or f.get('implicit'):
            continue
        ts = [x.get('t', '') for x in f['params']]
        if len(ts) >= 1 and 'make_shared_token' in ts[0]:
            k = 'sub'
        elif len(ts) >= 1 and 'Space' in ts[0]:
            k = 'new'
        elif len(ts) >= 1 and ts[0].replace('const ', '').replace(' ', '').endswith('Variable*'):
            k = 'der'
        else:
            continue
        e = Engine(prog, inline=inl, fine=True, maxpaths=2000)
        ps = e.run(f)
        rep.used(e, ps)
        out[k] = (f, e, ps)
    for k in ('new', 'der', 'sub'):
        if k not in out:
            raise AnalysisBroken('anchor vanished: constructor of Variable (%s)' % k)
    return out


def initof(p, name):
    """Last value written in the member on the route, its position."""
    r, at = None, -1
    for i, e in enumerate(p.flat()):
        if e.kind == 'write' and e.a == fld(name):
            r, at = e.b, i
    return r, at


def touches(p):
    """Events changing the coefficients of the variable under construction."""
    for e in p.flat():
        if e.kind == 'call' and e.b is not None and not e.inl:
            n = cname(e)
            if e.b == fld('value_') and isinstance(e.node, dict) and not e.node.get('const') and n not in READ_ACCESSORS or e.b == THIS and n in ('set', 'setZero', 'operator<<', 'value') and e.c is not None and (e.c or n == 'setZero'):
                yield e
        if e.kind == 'call' and not e.inl and cname(e) in ('fill', 'fill_n', 'memset', 'generate') and e.c and has(e.c[0] if e.c else None, lambda x: x in (fld('memory_'), fld('value_'))):
            yield e
        if e.kind == 'write' and e.op != 'init' and e.a is not None and root(e.a) == THIS and top_field(e.a) in ('value_', 'memory_') and e.a != fld('memory_') and not (isinstance(e.node, dict) and e.node.get('place')):
            yield e


def iszero(e):
    if e.kind == 'call':
        return cname(e) == 'setZero' or cname(e) in ('fill', 'fill_n', 'setConstant', 'memset') and any(x in (('lit', '0'), ('lit', '0.0'), ('lit', '0.')) for x in e.c)
    return e.kind == 'write' and e.b is not None and (has_call(e.b, 'Zero'))


def route_sub(p, v):
    """The route concerns a subvariable, according to the decisions on v; contradictory routes give 'no'."""
    a = known(p.hist, ('issub', v))
    b = known(p.hist, ('issub', THIS))
    w, _ = initof(p, 'superVariable_')
    w = None if w is None else not isnull(w)
    vals = {x for x in (a, b, w) if x is not None}
    if len(vals) > 1:
        return 'no' if a is not None and b is not None and a != b or b is not None and w is not None and b != w and a is None else 'mixed' if a is not None and w is not None and a != w else 'no'
    return vals.pop() if vals else None


def rule_memory(prog, rep):
    R = 'C11.memory'
    rep.rule(R, 'a variable owns a buffer of the size of its space; a subvariable uses the part of the buffer of its supervariable that starts at its shift; the derivative of a subvariable is that part of the derivative of the supervariable; '
                'creating a subvariable or its derivative changes no value; a buffer is freed once, by the variable that owns it')
    cs = ctors(prog, rep)
    nullsub = True
    for k, label in (('new', 'new variable'), ('der', 'derivative'), ('sub', 'subvariable')):
        f, eng, ps = cs[k]
        P = [('param', x['n']) for x in f['params']]
        n = 0
        for p in ps:
            if p.exit == 'throw':
                continue
            v = P[0] if k == 'der' else P[1] if k == 'sub' else None
            sub = False if k == 'new' else True if k == 'sub' else route_sub(p, v)
            if sub == 'no':
                continue
            if sub == 'mixed':
                rep.bad(R, '%s: a derivative is a subvariable iff its primitive is one' % label, loc(f), 'supervariable not in step with the primitive')
                continue
            if sub is None:
                rep.bad(R, '%s: distinguishes subvariables' % label, loc(f), 'the supervariable does not depend on the primitive')
                continue
            n += 1
            tag = label + (' of a subvariable' if k == 'der' and sub else '')
            mem, mat = initof(p, 'memory_')
            val, vat = initof(p, 'value_')
            sv, _ = initof(p, 'superVariable_')
            pr, _ = initof(p, 'primitive_')
            nb, _ = initof(p, 'derivativeNumber_')
            dv, _ = initof(p, 'derivative_')
            sp, _ = initof(p, 'space_')
            sh, _ = initof(p, 'shift_')
            addr, size = ptrmap(val)
            if addr is None:
                raise AnalysisBroken('the memory used by the values is not recognised in %s' % loc(f))
            S = {'new': P[0], 'der': ('space', P[0]), 'sub': P[2] if len(P) > 2 else None}[k]
            H = {'new': None, 'der': ('shift', P[0]), 'sub': P[4] if len(P) > 4 else None}[k]
            dim = 't' if k == 'der' else 'r'

            def res(t):
                t = sem(t)
                if t == ('space', THIS):
                    t = sem(sp)
                if t == ('shift', THIS):
                    t = sem(sh)
                if t[0] in ('r', 't', 'm'):
                    return (t[0], res(t[1]))
                return t
            rep.ob(R, '%s: has the size of its space' % tag, res(size) == (dim, S), loc(f), 'maps %s elements' % show(size))
            rep.ob(R, '%s: remembers its space' % tag, sem(sp) == S, loc(f), 'space %s' % show(sp))
            if H is not None:
                rep.ob(R, '%s: remembers its shift' % tag, sem(sh) == H, loc(f), 'shift %s' % show(sh))
            else:
                rep.ob(R, '%s: has no shift' % tag, isnull(sh) or sh[0] in ('ctor', 'init') and sh[2] == (('lit', '0'),), loc(f), 'shift %s' % show(sh))
            if not sub:
                ok = mem is not None and mem[0] == 'new' and mem[1].endswith('[]') and res(mem[2][0]) == (dim, S)
                rep.ob(R, '%s: allocates a buffer of the size of its space' % tag, ok, loc(f), 'memory is %s' % show(mem))
                rep.ob(R, '%s: uses its buffer' % tag, addr == fld('memory_') and mat < vat or addr == mem and mem[0] == 'new', loc(f), 'values at %s' % show(addr))
                z = [e for e in touches(p)]
                fresh = mem is not None and mem[0] == 'new' and any(isinstance(e.node, dict) and e.node.get('init') and e.kind == 'new' and e.a == mem for e in p.flat())
                rep.ob(R, '%s: starts at zero' % tag, bool(z) and iszero(z[-1]) or fresh and not z, loc(f), 'values not initialised to zero')
                rep.ob(R, '%s: has no supervariable' % tag, isnull(sv), loc(f), 'supervariable %s' % show(sv))
            else:
                sup = P[1] if k == 'sub' else ('dot', ('super', P[0]), ('lit', '1'))
                rep.ob(R, '%s: is linked to %s' % (tag, 'its supervariable' if k == 'sub' else 'the derivative of the supervariable'), sem(sv) == sup, loc(f), 'supervariable %s' % show(sv))
                want = [(1, ('data', sup)), (1, (dim, H))]

                def subst(t):
                    t = sem(t)
                    if t == ('data', ('super', THIS)):
                        return ('data', sem(sv))
                    return res(t)
                rep.ob(R, '%s: uses the memory of the supervariable from its shift' % tag, same_sum([(s, subst(x)) for s, x in flat_sum(addr)], want), loc(f), 'values at %s' % show(addr))
                if not isnull(mem):
                    nullsub = False
                rep.ob(R, '%s: allocates nothing' % tag, not any(e.kind == 'new' and e.op == 'new' and e.a[1].endswith('[]') for e in p.flat()), loc(f), 'allocates a buffer')
                z = [e for e in touches(p)]
                rep.ob(R, '%s: changes no value' % tag, not z, loc(f) if not z else '%s:%s' % (z[0].file, z[0].line), 'the values shared with the supervariable are changed')
            if k == 'der':
                rep.ob(R, '%s: is one order above its primitive' % tag, same_sum(sums(nb), [(1, ('num', P[0])), (1, ('lit', '1'))]), loc(f), 'order %s' % show(nb))
                rep.ob(R, '%s: is linked to its primitive' % tag, pr == P[0], loc(f), 'primitive %s' % show(pr))
            else:
                rep.ob(R, '%s: is a base primitive' % tag, nb == ('lit', '0') and isnull(pr), loc(f), 'order %s, primitive %s' % (show(nb), show(pr)))
            rep.ob(R, '%s: has no derivative yet' % tag, isnull(dv), loc(f), 'derivative %s' % show(dv))
        if n == 0:
            rep.bad(R, '%s: can be created' % label, loc(f), 'no complete route')
    # destructor
    f, eng, ps = runq(prog, rep, VA + '~Variable', inline=inl, fine=True, pick=lambda f: f.get('body') is not None)
    for p in ps:
        sub = known(p.hist, ('issub', THIS))
        own = [v for c, v in p.hist.items() if c == fld('memory_')]
        d = [e for e in p.flat() if e.kind == 'delete']
        for e in d:
            rep.ob(R, 'destructor: frees its buffer, as an array', e.a == fld('memory_') and isinstance(e.node, dict) and e.node.get('array'), loc(f), 'deletes %s' % show(e.a))
        if sub is False or sub is None and own != [False]:
            rep.ob(R, 'destructor: frees the buffer once', len(d) == 1, loc(f), '%d deletions' % len(d))
        if sub is True or sub is None:
            rep.ob(R, 'destructor: leaves the memory of the supervariable', not d or nullsub, loc(f), 'deletes the memory of the supervariable')
        if any(e.kind == 'write' and top_field(e.a) in ('memory_', 'superVariable_') and d and list(p.flat()).index(e) < list(p.flat()).index(d[0]) for e in p.flat()):
            rep.bad(R, 'destructor: frees what was allocated', loc(f), 'members changed before the deletion')
    rep.floor(R, 30)


LINKS = {'memory_', 'superVariable_', 'primitive_', 'derivativeNumber_', 'space_', 'shift_', 'derivative_'}


def rule_links(prog, rep):
    R = 'C11.links'
    rep.rule(R, 'the links of a variable with its primitive, its supervariable, its space and its memory are set when it is created and never change; its derivative is only set by dot; no pointer on a variable is made from a bare address')
    callers = {}
    fs = [f for f in prog.funcs.values() if f.get('body') is not None and f['file'].startswith(('src/', 'include/'))]
    for f in fs:
        for nd in nodes(f):
            if nd.get('k') == 'call' and nd.get('repo') and nd.get('fid'):
                callers.setdefault(nd['fid'], set()).add(f['fid'])
    dots = {f['fid'] for f in fs if plain(f['q']) == 'tvm::dot'}

    def fromdot(fid, seen=()):
        return fid in dots or fid in callers and fid not in seen and all(fromdot(c, seen + (fid,)) for c in callers[fid])
    n = 0
    for f in fs:
        isctor = bool(f.get('ctor')) and shortq(f['q']).startswith(VA)
        for nd in nodes(f):
            k = nd.get('k')
            tgt = None
            if k == 'asg':
                tgt = nd['a']
            elif k == 'un' and nd.get('op') in ('++', '--'):
                tgt = nd['e']
            elif k == 'call' and nd.get('n') in ('operator=', 'reset', 'swap', 'release'):
                tgt = nd.get('obj') or (nd.get('args') or [None])[0]
            elif k == 'new' and nd.get('place'):
                tgt = nd['place']
            while isinstance(tgt, dict) and (tgt.get('k') in ('cast', 'paren') or tgt.get('k') == 'un' and tgt.get('op') in ('&', '*')):
                tgt = tgt['e']
            if isinstance(tgt, dict) and tgt.get('k') == 'mem' and tgt.get('q', '').startswith(VA) and (tgt.get('n') in LINKS or tgt.get('n') == 'value_' and k == 'new'):
                n += 1
                rep.ob(R, '%s sets %s' % (plain(f['q']), tgt['n']), tgt['n'] == 'derivative_' and fromdot(f['fid']) or isctor, '%s:%s' % (f['file'], nd.get('l')), 'a link of an existing variable is changed')
            if k == 'new' and nd.get('t') == VAR and not nd.get('place'):
                n += 1
                q = plain(f['q'])
                rep.ob(R, '%s creates a variable' % q, q == 'tvm::Space::createVariable' or fromdot(f['fid']) or len((nd.get('init') or {}).get('args', [])) >= 4, '%s:%s' % (f['file'], nd.get('l')),
                       'variables are created by spaces, dot and subvariable only')
            if k == 'ctor' and nd.get('t', '').replace('const ', '') == 'std::shared_ptr<tvm::Variable>' and not nd.get('copy') and not nd.get('move') and len(nd.get('args', [])) == 1:
                a = nd['args'][0]
                while isinstance(a, dict) and a.get('k') in ('cast', 'paren') and not a.get('t', '').startswith('std::'):
                    a = a['e']
                t = a.get('t', '') if isinstance(a, dict) else ''
                n += 1
                rep.ob(R, '%s makes a pointer on a variable' % plain(f['q']), not t.endswith('*') or a.get('k') == 'new', '%s:%s' % (f['file'], nd.get('l')), 'a shared pointer is made from a bare address')
    rep.floor(R, 3)


def nodes(f):
    st = [f.get('body'), f.get('inits')]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'k' in x:
                yield x
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


def counter(L, limit):
    """(start, whether it goes up to limit unless it stops early) of the loop."""
    if L.b is not None and isinstance(L.b, tuple) and L.b[0] == 'range':
        return L.b[1], sem(L.b[2]) == limit
    start = None
    for bh, body in zip(L.bh or (), L.c):
        ok = False
        for c, v in bh.items():
            neg = False
            if c[0] == 'op' and c[1] == '<' and v is True and sem(c[3]) == limit:
                x = c[2]
            elif c[0] == 'op' and c[1] == '==' and v is False and limit in (sem(c[2]), sem(c[3])):
                x = c[2] if sem(c[3]) == limit else c[3]
            else:
                continue
            if x[0] == 'loopvar' and x[2] == L.a:
                w = [e.b for e in body if e.kind == 'lwrite' and e.a[-1] == x[1]]
                if w and same_sum(flat_sum(w[-1]), [(1, x), (1, ('lit', '1'))]):
                    start, ok = x[3], True
        if not ok:
            return None, False
    return start, start is not None


def descends(L, link):
    """The loop variable replaced by its `link` in each turn."""
    for body, bx in zip(L.c, L.bx or (None,) * len(L.c)):
        for e in body:
            if e.kind == 'lwrite' and sem(e.b)[0] == link and sem(e.b)[1][0] == 'loopvar' and sem(e.b)[1][2] == L.a and sem(e.b)[1][1] == e.a[-1]:
                return sem(e.b)[1]
    return None


def unit(k, t):
    """The sum k is t alone."""
    n = sum(s_ * int(x[1]) for s_, x in k if x[0] == 'lit')
    return n == 0 and same_sum([(s_, x) for s_, x in k if x[0] != 'lit'], [(1, t)])


def rule_dot(prog, rep):
    R = 'C11.derivatives'
    rep.rule(R, 'dot(x, n) walks n links down from x, creating exactly the derivatives that do not exist yet, and returns the last one; primitives walk the links up; the order of derivatives decides of the relations between variables')
    f, eng, ps = runq(prog, rep, 'tvm::dot', inline=inl, fine=True, alias=True, pick=lambda f: 'VariableVector' not in f['params'][0].get('t', ''))
    P = [('param', x['n']) for x in f['params']]
    n = 0
    for p in ps:
        if p.exit == 'throw':
            continue
        loops = [e for e in p.ev if e.kind == 'loop']
        cur, cnt, early, walked = P[0], ('lit', '0'), False, False
        for L in loops:
            lv = descends(L, 'deriv')
            if lv is None:
                continue
            walked = True
            n += 1
            start, upto = counter(L, P[1])
            rep.ob(R, 'dot: starts from the variable', sem(lv[3]) == cur, loc(f), 'the walk starts from %s' % show(lv[3]))
            rep.ob(R, 'dot: counts the orders', upto and (start == cnt or start is not None and start[0] == 'loopvar' and cnt == ('loopvar',)), loc(f), 'from %s up to the order required is not recognised' % show(start))
            guard = []
            stops = any(bx == 'break' for bx in L.bx or ())
            create = False
            for bh, body, bx in zip(L.bh, L.c, L.bx):
                has_ = None
                for c, v in bh.items():
                    if sem(c) == ('deriv', lv) and isinstance(v, bool):
                        has_ = v
                    elif c[0] == 'op' and c[1] == '==' and ('deriv', lv) in (sem(c[2]), sem(c[3])):
                        has_ = not v
                made = []
                for e in body:
                    if e.kind == 'new' and e.a[0] == 'new' and e.a[1] == VAR:
                        rep.ob(R, 'dot: creates the derivative of the current variable', e.a[2] and sem(e.a[2][0]) == lv, '%s:%s' % (e.file, e.line), 'derives %s' % show(e.a[2][0]))
                        made.append(e.a)
                stored = [e for e in body if e.kind == 'call' and cname(e) in ('reset', 'operator=') and sem(e.b) == ('deriv', lv) and e.c and e.c[0] in made or e.kind == 'write' and sem(e.a) == ('deriv', lv) and e.b in made]
                rep.ob(R, 'dot: keeps each derivative it creates', len(stored) == len(made), loc(f), 'a derivative is created and not kept')
                if made:
                    create = True
                    rep.ob(R, 'dot: creates only missing derivatives', has_ is False or has_ is None and early == 'null', loc(f), 'an existing derivative may be replaced')
                    rep.ob(R, 'dot: creates one derivative at a time', len(made) == 1, loc(f), '')
                w = [e.b for e in body if e.kind == 'lwrite' and e.a[-1] == lv[1]]
                if bx in (None, 'continue'):
                    rep.ob(R, 'dot: moves one order down at each turn', len(w) == 1 and sem(w[0]) == ('deriv', lv), loc(f), 'moves to %s' % [show(x) for x in w])
                    rep.ob(R, 'dot: only moves to derivatives that exist', bool(made) or has_ is True, loc(f), 'the derivative may not exist')
                elif bx == 'break':
                    rep.ob(R, 'dot: only stops on a missing derivative', has_ is False and not w, loc(f), 'stops early')
                guard.append((bx, has_))
            conds = [h for bx, h in guard if bx in (None, 'continue')]
            early = 'null' if stops or conds and all(h is True for h in conds) else False
            cur, cnt = lv, ('loopvar',)
        done = not early
        for c, v in p.hist.items():
            if c[0] == 'op' and c[1] in ('==', '<') and len(c) == 4:
                x, y = sem(c[2]), sem(c[3])
                lvi = [a for a in (x, y) if a[0] == 'loopvar']
                if lvi and P[1] in (x, y) and (c[1] == '==' and v is True or c[1] == '<' and v is False and y == P[1]):
                    done = True
        rep.ob(R, 'dot: returns the derivative of the order required', walked and done, loc(f), 'may return before the order is reached')
        r = p.ret
        ok = r is not None and (r[0] == 'alias' and sem(r[1]) == P[0] and sem(r[2]) == cur or r[0] == 'call' and lastname(r) == 'shared_from_this' and sem(r) == cur)
        rep.ob(R, 'dot: the pointer returned is on the last derivative and keeps the variable alive', ok, loc(f), 'returns %s' % show(r[2] if r and r[0] == 'alias' else r))
    rep.ob(R, 'dot: walks down the derivatives', n > 0, loc(f), 'no walk')
    # vectors of variables
    for f, eng, ps in runq(prog, rep, 'tvm::dot', inline=inl, fine=True, one=False, must=False, pick=lambda f: 'VariableVector' in f['params'][0].get('t', '')) or []:
        P = [('param', x['n']) for x in f['params']]
        for p in ps:
            add = [e for e, loops, h in pwalk(p) if e.kind == 'call' and cname(e) == 'add' and loops]
            ok = len(add) == 1 and sem(add[0].c[0])[0] == 'dot' and sem(add[0].c[0])[2] == P[1] and sem(add[0].c[0])[1][0] == 'elem' and add[0].b == p.ret
            rep.ob(R, 'dot of a vector: derives each variable, in order', ok, loc(f), 'adds %s' % [show(a.c[0]) for a in add])
    # up
    f, eng, ps = runq(prog, rep, VA + 'basePrimitive', inline=inl, fine=True, alias=True)
    for p in ps:
        b = known(p.hist, ('isbase', THIS))
        r = sem(p.ret)
        lps = [e for e in p.ev if e.kind == 'loop']
        why = 'returns %s' % show(p.ret)
        if b is True:
            ok = r == THIS
        else:
            lv = descends(lps[0], 'prim') if len(lps) == 1 else None
            ok = False
            off = {THIS: 0, ('prim', THIS): 1}.get(sem(lv[3])) if lv is not None else None
            if off is not None and (off == 0 or b is False):
                L = lps[0]
                lim = L.b[2] if L.b is not None and L.b[0] == 'range' else None
                if lim is not None and L.b[1] is not None:
                    k = flat_sum(lim) + flat_sum(L.b[1], -1)
                    k = [(s_, sem(x)) for s_, x in k]
                    k += [(1, ('lit', '1'))] * (off + (r == ('prim', lv)))
                    ok = r in (lv, ('prim', lv)) and unit(k, ('num', THIS))
                    ok = ok and not any(x == 'break' for x in L.bx)
                else:
                    g = [known(h, ('isbase', lv)) for h in L.bh]
                    ok = r == lv and g and all(x is False for x in g) or r == ('prim', lv) and all(known(h, ('isbase', ('prim', lv))) is False for h in L.bh) and b is False
                for body in L.c:
                    w = [e.b for e in body if e.kind == 'lwrite' and e.a[-1] == lv[1]]
                    ok = ok and len(w) == 1
            elif not lps and r[0] == 'base' and r[1] == ('prim', THIS) and b is False:
                ok = True
        rep.ob(R, 'base primitive: %s' % ('itself when not a derivative' if b else 'as many links up as the order'), bool(ok), loc(f), why)
    for f, eng, ps in runq(prog, rep, VA + 'primitive', inline=lambda g, o: False, fine=True, one=False, must=False) or []:
        if tmplarg(f) is None:
            continue
        k = ('lit', tmplarg(f))
        for num in range(0, 5):
            got = {p.exit == 'throw' for p in ps if consistent(p.hist, lambda t, num=num: num if sem(t) == ('num', THIS) else None)}
            rep.ob(R, 'primitive: refused iff there is no primitive of that order', got == {num < int(k[1])}, loc(f), 'order %d, primitive %s: %s' % (num, k[1], got))
        for p in ps:
            if p.exit != 'throw':
                r = p.ret
                rep.ob(R, 'primitive: the order required is the one given', r[0] == 'call' and lastname(r) == 'primitiveNoCheck' and r[2] == THIS and r[1].endswith('<%s>' % k[1]), loc(f), 'returns %s' % show(r))
    for f, eng, ps in runq(prog, rep, VA + 'primitiveNoCheck', inline=lambda g, o: False, fine=True, one=False, must=False, alias=True) or []:
        k = tmplarg(f)
        for p in ps:
            r = p.ret
            if k == '1':
                t = r[2] if r[0] == 'alias' else sem(r)
                rep.ob(R, 'first primitive: one link up', sem(t) == ('prim', THIS), loc(f), 'returns %s' % show(r))
            else:
                ok = r[0] == 'call' and lastname(r) in ('primitive', 'primitiveNoCheck') and sem(r[2]) == ('prim', THIS) and k is not None and r[1].endswith('<%d>' % (int(k) - 1))
                rep.ob(R, 'other primitives: one link up, one order less', ok, loc(f), 'returns %s' % show(r))
    # relations
    for name, op in (('isDerivativeOf', operator.gt), ('isPrimitiveOf', operator.lt)):
        f, eng, ps = runq(prog, rep, VA + name, inline=inl, fine=True)
        v = ('param', f['params'][0]['n'])
        for same, a, b in itertools.product((True, False), (0, 1, 2), (0, 1, 2)):
            def env(t):
                t = sem(t)
                if t == ('num', THIS):
                    return a
                if t == ('num', v):
                    return b
                if t[0] == 'op' and t[1] == '==' and {t[2], t[3]} == {('base', THIS), ('base', v)}:
                    return same
                return None
            got = {evalterm(p.ret, env) for p in ps if consistent(p.hist, env)}
            rep.ob(R, '%s: same base primitive and strict order' % name, got == {same and op(a, b)}, loc(f), 'orders %d and %d, %s base: %s' % (a, b, 'same' if same else 'other', got))
    preds(prog, rep, R, 'isBasePrimitive', [('order', (0, 1, 2), ('num', THIS))], lambda o: o == 0)
    f, eng, ps = runq(prog, rep, VA + 'derivativeNumber', inline=inl, fine=True)
    rep.ob(R, 'the order of a variable is the one set at its creation', all(sem(p.ret) == ('num', THIS) for p in ps), loc(f), '')
    rep.floor(R, 18)


def tmplarg(f):
    a = tmplargs(f['fid'])
    return a[0] if a else None


def preds(prog, rep, R, name, atoms, want, label=None):
    """Boolean function of `this` (and a parameter v) against its table. atoms: (name, values, term or function of the parameter)."""
    f, eng, ps = runq(prog, rep, VA + name, inline=inl, fine=True)
    v = ('param', f['params'][0]['n']) if f['params'] else None
    ats = [(n, vals, t(v) if callable(t) else t) for n, vals, t in atoms]
    for vals in itertools.product(*[a[1] for a in ats]):
        def env(t):
            b = boolean(t)
            for (n, _, a), x in zip(ats, vals):
                if b == a or sem(t) == a:
                    return x
                if a[0] == 'same' and b[0] == 'op' and b[1] == '==' and {b[2], b[3]} == {a[1], a[2]}:
                    return x
                if a[0] == 'num' and b == ('isbase', a[1]):
                    return x == 0
            return None
        got = set()
        for p in ps:
            if consistent({k: w for k, w in p.hist.items()}, env):
                r = evalterm(boolean(p.ret), env) if p.ret is not None else None
                got.add(bool(r) if r is not None else None)
        rep.ob(R, '%s: %s' % (name, label or 'table'), got == {bool(want(*vals))}, loc(f), '%s: answers %s' % (', '.join('%s=%s' % (a[0], x) for a, x in zip(ats, vals)), got))


def rule_sub(prog, rep):
    R = 'C11.subvariables'
    rep.rule(R, 'a subvariable that does not fit in its variable is refused; otherwise it is placed in the base supervariable at the accumulated shift, and derived as many times as its variable; positions, inclusions and intersections follow from the placement')
    f, eng, ps = runq(prog, rep, VA + 'subvariable', nparams=4, inline=inl, fine=True)
    sp, nm, sh, au = [('param', x['n']) for x in f['params']]
    fit = [('call', 'tvm::Space::operator<=')]
    n = 0
    for p in ps:
        ft = None
        for c, v in p.hist.items():
            if c[0] == 'call' and plain(c[1]).endswith('Space::operator<='):
                a, b = sem(c[2]), sem(c[3][0])
                if a == ('prod',) + tuple(sorted((sp, sh), key=repr)) and b == ('space', THIS):
                    ft = v
        if p.exit == 'throw':
            rep.ob(R, 'subvariable: only refused when it does not fit', ft is False, loc(f), 'refused otherwise')
            continue
        n += 1
        rep.ob(R, 'subvariable: refused when it does not fit', ft is True, loc(f), 'space and shift are not compared with the space of the variable')
        b = known(p.hist, ('isbase', THIS))
        r = sem(p.ret)
        order = None
        if r[0] == 'dot':
            order, r = r[2], r[1]
        ok = r[0] == 'new' and r[1] == VAR and len(r[2]) == 5
        if not ok:
            rep.bad(R, 'subvariable: returns the new variable', loc(f), 'returns %s' % show(p.ret))
            continue
        a = r[2]
        rep.ob(R, 'subvariable: belongs to the base supervariable', a[1] in (('base', ('super', THIS)), ('super', ('base', THIS))), loc(f), 'part of %s' % show(a[1]))
        rep.ob(R, 'subvariable: has the space required', a[2] == sp, loc(f), 'space %s' % show(a[2]))
        rep.ob(R, 'subvariable: is shifted after its variable', a[4] == ('prod',) + tuple(sorted((('shift', THIS), sh), key=repr)), loc(f), 'shift %s' % show(a[4]))
        rep.ob(R, 'subvariable: has the order of its variable', order == ('num', THIS) or order is None and b is True, loc(f), 'derived %s times' % show(order))
        if a[3] == nm:
            rep.ob(R, 'subvariable: named as required', known(p.hist, au) is False, loc(f), 'the name is not generated')
        else:
            ints = streamed(p)
            if len(ints) >= 2:
                st = [(1, ('r', ('shift', THIS))), (1, ('r', sh))]
                rep.ob(R, 'subvariable: named after its position in the supervariable', same_sum(exp(ints[0]), st), loc(f), 'starts at %s' % show(ints[0]))
                rep.ob(R, 'subvariable: named after its last coefficient', same_sum(exp(ints[1]), st + [(1, ('r', sp)), (-1, ('lit', '1'))]), loc(f), 'ends at %s' % show(ints[1]))
    rep.ob(R, 'subvariable: can be created', n > 0, loc(f), '')
    for k in (2, 3):
        f, eng, ps = runq(prog, rep, VA + 'subvariable', nparams=k, inline=inl, fine=True)
        P = [('param', x['n']) for x in f['params']]
        for p in ps:
            r = p.ret
            ok = r is not None and r[0] == 'call' and lastname(r) == 'subvariable' and r[2] == THIS and len(r[3]) == 4 and r[3][0] == P[0] and r[3][2] == P[-1] and (r[3][3] == ('lit', 'true') if k == 2 else r[3][3] == ('lit', 'false') and r[3][1] == P[1])
            rep.ob(R, 'subvariable: the public functions give the space, the name and the shift', ok, loc(f), 'returns %s' % show(r))
    issub = ('issub', THIS)
    preds(prog, rep, R, 'isSubvariable', [('sub', (True, False), issub)], lambda a: a)
    preds(prog, rep, R, 'isSuperVariable', [('sub', (True, False), issub)], lambda a: not a)
    preds(prog, rep, R, 'isSuperVariableOf', [('same', (True, False), lambda v: ('same', THIS, ('super', v)))], lambda a: a)
    for name in ('contains', 'intersects'):
        preds(prog, rep, R, name, [('same', (True, False), lambda v: ('same', ('super', THIS), ('super', v))), ('range', (True, False), lambda v, name=name: ('call', 'tvm::Range::' + name, ('srange', THIS), (('srange', v),)))],
              lambda a, b: a and b, 'same supervariable and %s ranges' % ('included' if name == 'contains' else 'overlapping'))
    f, eng, ps = runq(prog, rep, VA + 'superVariable', inline=inl, fine=True, alias=True)
    for p in ps:
        b = known(p.hist, issub)
        r = sem(p.ret)
        rep.ob(R, 'supervariable: %s' % ('the one it is a part of' if b else 'itself otherwise'), b is not None and r == (('super', THIS) if b else THIS), loc(f), 'returns %s' % show(p.ret))
    # positions
    for name, dim in (('subvariableRange', None), ('tSubvariableRange', 't')):
        f, eng, ps = runq(prog, rep, VA + name, inline=inl, fine=True)
        for p in ps:
            for sub, base in itertools.product((True, False), repeat=2):
                if known(p.hist, issub) in (None, sub) and known(p.hist, ('isbase', THIS)) in (None, base):
                    k = dim or ('r' if base else 't')
                    r = madeof(p, p.ret, ('start', 'dim'))
                    if sem(r) == ('srange', THIS) and dim:
                        ok = not base
                    elif sem(r) == ('trange', THIS):
                        ok = not base
                    elif r is not None and r[0] in ('ctor', 'init') and len(r[2]) == 2:
                        ok = same_sum(place(r[2][0], sub, base), place_want(k, sub)) and dimof(sem(r[2][1]), base) == (k, ('space', THIS))
                    else:
                        ok = False
                    rep.ob(R, '%s: position and size in the supervariable (%s%s)' % (name, 'base' if base else 'derivative', ', subvariable' if sub else ''), ok, loc(f), 'returns %s' % show(r))
    rep.floor(R, 22)


def madeof(p, r, names):
    """A local object that is returned, as the aggregate of what its fields were last given."""
    if r is None or r[0] != 'obj':
        return r
    v = r[3]
    if v is not None and v[0] in ('ctor', 'init') and len(v[2]) == len(names):
        vals = dict(zip(names, v[2]))
    elif v is not None:
        vals = {n: ('fld', v, n) for n in names}
    else:
        return r
    n = 0
    for e, loops, hist in pwalk(p):
        if e.kind == 'write' and e.a[0] == 'fld' and e.a[1] == r:
            if loops or e.a[2] not in vals or e.op not in ('=', '+=', '-='):
                return r
            vals[e.a[2]] = e.b if e.op == '=' else ('op', e.op[0], vals[e.a[2]], e.b)
            n += 1
    return ('init', 'aggregate', tuple(vals[x] for x in names)) if n or v[0] in ('ctor', 'init') else v


def dimof(t, base):
    if t == ('fld', ('srange', THIS), 'dim'):
        t = ('size', THIS)
    if t == ('size', THIS):
        return ('r' if base else 't', ('space', THIS))
    return t


def place(t, sub, base):
    """Position t as a sum of sizes of the shift."""
    out = []
    for s_, x in sums(t):
        if x == ('fld', ('srange', THIS), 'start'):
            out += [(s_, ('r' if base else 't', ('shift', THIS)))] if sub else []
        elif x[0] in ('r', 't') and x[1] == ('shift', THIS):
            out += [(s_, x)] if sub else []
        elif x == ('data', THIS):
            out += [(s_, ('data', ('super', THIS)))] + ([(s_, ('r' if base else 't', ('shift', THIS)))] if sub else [])
        else:
            out.append((s_, x))
    return out


def place_want(k, sub):
    return [(1, (k, ('shift', THIS)))] if sub else []


def exp(t):
    return sums(t)


def streamed(p):
    """Integers written in a stream or a string on the route, in order."""
    out = []
    for e in p.flat():
        if e.kind == 'call' and cname(e) == 'operator<<' and e.b is not None and e.c and (isinstance(e.node, dict) and 'ostream' in (e.node.get('f') or '')):
            out.append(e.c[0])
        elif e.kind == 'call' and cname(e) == 'to_string' and e.c:
            out.append(e.c[0])
    return out


def owned(p, t, this=THIS):
    """The pointer term t keeps alive what it points to."""
    if t is None:
        return False
    if t[0] == 'alias':
        o, x = sem(t[1]), sem(t[2])
        if not owned(p, t[1]) and not t[1][0] == 'param':
            return False
        while x[0] in ('deriv', 'loopvar'):
            x = x[1] if x[0] == 'deriv' else sem(x[3])
        return o == x or o == ('base', x) or o == ('prim', x) and known(p.hist, ('isbase', THIS)) is False or x[0] == 'prim' and o in (('base', x[1]), x)
    if t[0] == 'own':
        return sem(t[1]) == THIS and known(p.hist, ('isbase', THIS)) is True
    if t[0] == 'call':
        n = lastname(t)
        return n in ('shared_from_this', 'superVariable', 'basePrimitive', 'dot', 'createVariable', 'primitive', 'primitiveNoCheck', 'subvariable', 'duplicate', 'make_shared')
    if t[0] == 'fld':
        return t[2] == 'superVariable_'
    if t[0] == 'new':
        return True
    return t[0] in ('param', 'obj')


def rule_life(prog, rep):
    R = 'C11.lifetime'
    rep.rule(R, 'each pointer on a variable shares the ownership of the variable that owns what it points to: base primitives and subvariables own themselves, derivatives are owned by their base primitive, subvariables keep their supervariable')
    for name in ('tvm::dot', VA + 'shared_from_this', VA + 'basePrimitive', VA + 'superVariable', VA + 'primitiveNoCheck', VA + 'primitive', VA + 'subvariable', VA + 'duplicate', 'tvm::Space::createVariable'):
        for f, eng, ps in runq(prog, rep, name, inline=inl, fine=True, alias=True, one=False, pick=lambda f: 'VariableVector' not in (f['params'][0].get('t', '') if f['params'] else '')):
            for p in ps:
                if p.exit == 'throw':
                    continue
                rep.ob(R, '%s: returns a pointer that owns what it points to' % plain(f['q']), owned(p, p.ret), loc(f), 'returns %s' % show(p.ret if p.ret and p.ret[0] != 'alias' else p.ret[1:]))
                if name.endswith('shared_from_this'):
                    b = known(p.hist, ('isbase', THIS))
                    x = p.ret
                    x = sem(x[2]) if x[0] == 'alias' else sem(x[1]) if x[0] == 'own' else sem(x)
                    rep.ob(R, 'shared_from_this: a pointer on the variable itself', x == THIS, loc(f), 'points to %s' % show(x))
                    rep.ob(R, 'shared_from_this: owned by itself or by its base primitive', (p.ret[0] == 'own') if b else p.ret[0] == 'alias', loc(f), 'returns %s' % show(p.ret))
    rec = prog.record(VAR)
    ty = {x['n']: x.get('t', '') for x in rec['fields']}
    rep.ob(R, 'a subvariable shares the ownership of its supervariable', ty.get('superVariable_', '').startswith('std::shared_ptr<'), '', ty.get('superVariable_'))
    rep.ob(R, 'a variable owns its derivative', ty.get('derivative_', '').startswith(('std::unique_ptr<', 'std::shared_ptr<')), '', ty.get('derivative_'))
    rep.floor(R, 12)


def rule_values(prog, rep):
    R = 'C11.values'
    rep.rule(R, 'setting a value, a coefficient or a segment is refused, and changes nothing, when the sizes do not match or the indices are out of the variable; otherwise exactly the designated coefficients take the given values; '
                'two variables are equal when they designate the same coefficients; a duplicate has the space, the order and the value of its model')
    sz = ('size', THIS)
    for f, eng, ps in runq(prog, rep, VA + 'set', inline=inl, fine=True, one=False):
        P = [('param', x['n']) for x in f['params']]
        k = len(P)
        names = {1: (), 2: ('index',), 3: ('index', 'length')}[k]
        for vals in itertools.product(*([range(-2, 6)] * (k - 1) + ([range(0, 6)] if k != 2 else []))):
            size = 3
            at = dict(zip(P[:k - 1], vals))
            if k != 2:
                at[('size', P[-1])] = vals[-1]
            at[sz] = size
            ok = {1: lambda n: n == size, 2: lambda i: 0 <= i < size, 3: lambda i, l, n: i >= 0 and i + l <= size and n == l}[k](*vals)
            got = {p.exit != 'throw' for p in ps if consistent(p.hist, lambda t: at.get(sem(t)))}
            if got != {ok}:
                rep.bad(R, 'set (%d arguments): accepted iff the coefficients exist' % k, loc(f), '%s for a variable of size 3: %s instead of %s' % (vals, got, ok))
                break
        else:
            rep.ob(R, 'set (%d arguments): accepted iff the coefficients exist' % k, True, loc(f))
        for p in ps:
            w = [e for e in p.flat() if e.kind in ('write',) and root(e.a) == THIS or e.kind == 'call' and not e.inl and e.b is not None and (top_field(e.b) == 'value_' or top_field(e.b) is None and e.b[0] == 'call' and root(e.b) == THIS) and isinstance(e.node, dict) and not e.node.get('const') and cname(e) not in READ_ACCESSORS]
            if p.exit == 'throw':
                rep.ob(R, 'set: a refused value changes nothing', not w, loc(f), 'the variable is changed before the refusal')
                continue
            ok = len(w) == 1 and (w[0].kind == 'write' and w[0].op == '=' or w[0].kind == 'call' and cname(w[0]) == 'operator=')
            if ok:
                a, b = (w[0].a, w[0].b) if w[0].kind == 'write' else (w[0].b, w[0].c[0])
                ok = sem(b) == P[-1] and designates(a, P[:-1])
                ok = ok or onebyone(p, w[0], a, b, P)
            elif len(w) == 0 and k != 1:
                ok = any(e.kind == 'call' and cname(e) == 'set' and e.b == THIS for e in p.flat())
            rep.ob(R, 'set (%d arguments): writes the designated coefficients' % k, ok, loc(f), 'writes %s' % [repr(x)[:80] for x in w])
    f, eng, ps = runq(prog, rep, VA + 'setZero', inline=inl, fine=True)
    for p in ps:
        z = list(touches(p))
        rep.ob(R, 'setZero: all the coefficients', len(z) == 1 and iszero(z[0]), loc(f), '')
    for f, eng, ps in runq(prog, rep, VA + 'value', inline=inl, fine=True, one=False):
        for p in ps:
            if f['params']:
                c = [e for e in p.flat() if e.kind == 'call' and cname(e) == 'set' and e.b == THIS and sem(e.c[0]) == ('param', f['params'][0]['n'])]
                rep.ob(R, 'value(x): same as set(x)', len(c) == 1, loc(f), '')
            else:
                rep.ob(R, 'value: the coefficients', sem(p.ret) == ('value', THIS), loc(f), 'returns %s' % show(p.ret))
    f, eng, ps = runq(prog, rep, VA + 'size', inline=inl, fine=True)
    for p in ps:
        rep.ob(R, 'size: number of coefficients', sem(p.ret) == sz, loc(f), 'returns %s' % show(p.ret))
    for acc, k in (('space', 'space'), ('spaceShift', 'shift'), ('name', 'name')):
        f, eng, ps = runq(prog, rep, VA + acc, inline=inl, fine=True)
        for p in ps:
            rep.ob(R, '%s: the one of the variable' % acc, sem(p.ret) == (k, THIS), loc(f), 'returns %s' % show(p.ret))
    # equality
    for f, eng, ps in runq(prog, rep, 'tvm::operator==', inline=inl, fine=True, one=False, pick=lambda f: len(f['params']) == 2 and all(x.get('t', '').replace('const ', '').startswith('tvm::Variable &') for x in f['params'])):
        u, v = [('param', x['n']) for x in f['params']]
        for d, s_ in itertools.product((True, False), repeat=2):
            def env(t):
                t = sem(t)
                if t[0] == 'op' and t[1] == '==':
                    if {t[2], t[3]} == {('data', u), ('data', v)}:
                        return d
                    if {t[2], t[3]} == {('size', u), ('size', v)}:
                        return s_
                return None
            got = {evalterm(p.ret, env) for p in ps if consistent(p.hist, env)}
            rep.ob(R, 'equality: same coefficients', got == {d and s_}, loc(f), 'same address: %s, same size: %s, answers %s' % (d, s_, got))
    for f, eng, ps in runq(prog, rep, 'tvm::operator!=', inline=inl, fine=True, one=False, pick=lambda f: len(f['params']) == 2 and all(x.get('t', '').replace('const ', '').startswith('tvm::Variable &') for x in f['params'])):
        for b in (True, False):
            env = lambda t: b if t[0] == 'call' and lastname(t) == 'operator==' else None
            got = {evalterm(p.ret, env) for p in ps if consistent(p.hist, env)}
            rep.ob(R, 'inequality: negation of the equality', got == {not b}, loc(f), 'answers %s' % got)
    preds(prog, rep, R, 'isEuclidean', [('space', (True, False), ('iseuclid', ('space', THIS))), ('order', (0, 1, 2), ('num', THIS))], lambda e, o: e or o > 0, 'derivatives are')
    # duplicate
    f, eng, ps = runq(prog, rep, VA + 'duplicate', inline=inl, fine=True)
    for p in ps:
        r = sem(p.ret)
        b = known(p.hist, ('isbase', THIS))
        order = None
        x = r
        if r[0] == 'dot':
            order, x = r[2], r[1]
        rep.ob(R, 'duplicate: same space', x[0] == 'call' and plain(x[1]) == 'tvm::Space::createVariable' and x[2] == ('space', THIS), loc(f), 'made from %s' % show(p.ret))
        rep.ob(R, 'duplicate: same order', order == ('num', THIS) and b is False or order is None and b is True, loc(f), 'derived %s times' % show(order))
        st = [e for e in p.flat() if e.kind == 'call' and cname(e) == 'set' and len(e.c) == 1]
        rep.ob(R, 'duplicate: same value', len(st) == 1 and sem(st[0].b) == r and sem(st[0].c[0]) == ('value', THIS), loc(f), 'value not copied')
    rep.floor(R, 20)


def onebyone(p, w, a, b, P):
    """The write is that of every designated coefficient, in a loop over them."""
    Ls = [l for e, l, h in pwalk(p) if e is w]
    if len(P) == 2 or not Ls or len(Ls[0]) != 1:
        return False
    l = Ls[0][0]
    n = (P[1], ('size', P[-1])) if len(P) == 3 else (('size', THIS), ('size', P[-1]))
    if not (l.b and l.b[0] == 'range' and l.b[1] == ('lit', '0') and sem(l.b[2]) in n and all(x is None for x in l.bx)):
        return False

    def coef(t):
        return (sem(t[2]), t[3][0]) if t[0] == 'call' and t[2] is not None and lastname(t) in ('operator()', 'operator[]', 'coeffRef', 'coeff') and len(t[3]) == 1 else (sem(t[1]), t[2]) if t[0] == 'index' else (None, None)
    i = ('idx', l.a) + tuple(l.b[1:])
    ca, cb = coef(a), coef(b)
    return ca[0] == ('value', THIS) and cb == (P[-1], i) and same_sum(sums(ca[1]), [(1, norm(i))] + ([(1, P[0])] if len(P) == 3 else []))


def designates(a, idx):
    """a designates the coefficients idx (none: all, index, or index and length) of the value."""
    if not idx:
        return sem(a) == ('value', THIS)
    if a[0] == 'index' and len(idx) == 1:
        return sem(a[1]) == ('value', THIS) and a[2] == idx[0]
    if a[0] == 'call' and a[2] is not None and sem(a[2]) == ('value', THIS):
        n = lastname(a).split('<')[0]
        if len(idx) == 1:
            return n in ('operator()', 'operator[]', 'coeffRef') and a[3] == (idx[0],)
        return n in ('segment', 'middleRows') and a[3] == tuple(idx)
    return False


def rule_ranges(prog, rep):
    R = 'C11.ranges'
    rep.rule(R, 'ranges and spaces have the arithmetic of intervals of integers and of products of spaces')
    RG = 'tvm::Range::'
    il = lambda g, o: shortq(g['q']).startswith(RG)
    S, D = fld('start'), fld('dim')

    def run(name, pick=None):
        return runq(prog, rep, RG + name, inline=il, fine=True, pick=pick)

    def table_(name, f, ps, keys, doms, want, label, val=lambda r, env: evalterm(r, env), skip=None):
        for vals in itertools.product(*doms):
            if skip and skip(*vals):
                continue
            k = dict(zip(keys, vals))
            env = lambda t: k.get(t) if t in k else None
            got = {val(p.ret, env) for p in ps if p.exit != 'throw' and consistent(p.hist, env)}
            if got != {want(*vals)}:
                rep.bad(R, '%s: %s' % (name, label), loc(f), '%s gives %s instead of %s' % (vals, got, want(*vals)))
                return
        rep.ob(R, '%s: %s' % (name, label), True, loc(f))
    st, dm = range(-2, 4), range(0, 4)
    isint = lambda f: len(f['params']) == 1 and f['params'][0].get('t', '') == 'int'
    f, e, ps = run('contains', isint)
    i = ('param', f['params'][0]['n'])
    table_('contains(int)', f, ps, (S, D, i), (st, dm, range(-3, 8)), lambda s_, d, x: s_ <= x < s_ + d, 'start <= i < end')
    f, e, ps = run('end')
    table_('end', f, ps, (S, D), (st, dm), lambda s_, d: s_ + d, 'first integer after the range')
    for name in ('contains', 'intersects', 'operator==', 'operator!='):
        f, e, ps = run(name, lambda f: len(f['params']) == 1 and not isint(f))
        o = ('param', f['params'][0]['n'])
        want = {'contains': lambda a, b, c, d: a <= c and c + d <= a + b, 'intersects': lambda a, b, c, d: max(a, c) < min(a + b, c + d), 'operator==': lambda a, b, c, d: (a, b) == (c, d), 'operator!=': lambda a, b, c, d: (a, b) != (c, d)}[name]
        sk = (lambda a, b, c, d: b == 0 or d == 0) if name in ('contains', 'intersects') else None
        table_(name + ' (ranges)', f, ps, (S, D, fld('start', base=o), fld('dim', base=o)), (st, dm, st, dm), want, 'as intervals', skip=sk)
    pair = lambda r, env: tuple(evalterm(x, env) for x in r[2]) if r and r[0] in ('ctor', 'init') and len(r[2]) == 2 else None
    for name, sg in (('operator+', 1), ('operator-', -1)):
        f, e, ps = run(name)
        i = ('param', f['params'][0]['n'])
        table_(name, f, ps, (S, D, i), (st, dm, st), lambda s_, d, x: (s_ + sg * x, d), 'shifts the start', val=pair)
    f, e, ps = run('relativeRange')
    o = ('param', f['params'][0]['n'])
    table_('relativeRange', f, ps, (S, fld('start', base=o), fld('dim', base=o)), (st, st, dm), lambda a, c, d: (c - a, d), 'shift by the start', val=pair, skip=lambda a, c, d: c < a)
    # spaces
    SP = 'tvm::Space::'
    T = ('mSize_', 'rSize_', 'tSize_')
    for f in prog.find(SP + 'Space'):
        if f.get('body') is None or f.get('implicit') or not f['params'] or not f['params'][0].get('t', '').startswith(('int', 'tvm::Space::Type')):
            continue
        eng = Engine(prog, fine=True)
        ps = eng.run(f)
        rep.used(eng, ps)
        P = [('param', x['n']) for x in f['params']]
        if f['params'][0]['t'] == 'int':
            want = {1: (0, 0, 0), 2: (0, 1, 0), 3: (0, 1, 2)}[len(P)]
            for p in ps:
                if p.exit == 'throw':
                    continue
                got = [initof(p, x)[0] for x in T]
                rep.ob(R, 'space of %d sizes: size, representation and tangent' % len(P), got == [P[i] for i in want], loc(f), 'sizes %s' % [show(x) for x in got])
            for vals in itertools.product(range(0, 4), repeat=len(P)):
                m, r, t = [vals[i] for i in want]
                if r < m or t < m:
                    continue
                k = dict(zip(P, vals))
                got = {evalterm(initof(p, 'type_')[0], k.get) for p in ps if p.exit != 'throw' and consistent(p.hist, k.get)}
                rep.ob(R, 'space of %d sizes: Euclidean iff they are equal' % len(P), {str(x).split('::')[-1].rstrip("')") for x in got} == {'Euclidean' if m == r == t else 'Unspecified'}, loc(f), '%s: %s' % (vals, got))
        else:
            for tp, sz in (('SO3', (3, 4, 3)), ('SE3', (6, 7, 6)), ('Euclidean', None), ('Unspecified', 'throw')):
                E = ('enum', 'tvm::Space::Type::' + tp)
                rs = [p for p in ps if agrees(p.hist, P[0], E)]
                if sz == 'throw':
                    rep.ob(R, 'space of a type: refused for unspecified types', rs and all(p.exit == 'throw' for p in rs), loc(f), 'not refused')
                    continue
                got = {tuple(initof(p, x)[0] for x in T) for p in rs if p.exit != 'throw'}
                got = {tuple(chained(p, x) for p, x in zip([rs[0]] * 3, g)) for g in got} if rs else got
                w = {tuple(('lit', str(x)) for x in sz)} if sz else {(P[1],) * 3}
                rep.ob(R, 'space of a type: sizes of %s' % tp, got == w and not any(p.exit == 'throw' for p in rs), loc(f), 'sizes %s' % [[show(x) for x in g] for g in got])
                rep.ob(R, 'space of a type: remembers its type', all(initof(p, 'type_')[0] in (P[0], E) for p in rs), loc(f), '')
    for acc, fl in (('size', 'm'), ('rSize', 'r'), ('tSize', 't'), ('type', 'type')):
        f, e, ps = runq(prog, rep, SP + acc, inline=inl)
        rep.ob(R, 'space: %s' % acc, all(sem(p.ret) == (fl, THIS) for p in ps), loc(f), 'returns %s' % [show(p.ret) for p in ps])
    f, e, ps = runq(prog, rep, SP + 'isEuclidean', inline=inl, fine=True)
    for tp in ('Euclidean', 'SO3', 'SE3', 'Unspecified'):
        E = ('enum', 'tvm::Space::Type::' + tp)
        env = lambda t: E if sem(t) == ('type', THIS) else None
        got = {evalterm(p.ret, env) for p in ps if agrees(p.hist, ('type', THIS), E)}
        rep.ob(R, 'space: Euclidean by its type', got == {tp == 'Euclidean'}, loc(f), '%s: %s' % (tp, got))
    for name in ('operator<=', 'operator==', 'operator!='):
        f, e, ps = runq(prog, rep, SP + name, inline=lambda g, o: shortq(g['q']).startswith(SP), fine=True)
        o = ('param', f['params'][0]['n'])
        for vals in itertools.product((0, 1, 2), repeat=3):
            for ty in (True, False) if name != 'operator<=' else (True,):
                k = {}
                for x, v in zip(T, vals):
                    k[fld(x)] = 1
                    k[fld(x, base=o)] = v
                k[fld('type_')] = ('enum', 'a')
                k[fld('type_', base=o)] = ('enum', 'a' if ty else 'b')
                got = {evalterm(p.ret, k.get) for p in ps if consistent(p.hist, k.get)}
                w = all(v >= 1 for v in vals) if name == 'operator<=' else ((vals == (1, 1, 1)) and ty) == (name == 'operator==')
                rep.ob(R, 'space: %s compares all the sizes' % name, got == {w}, loc(f), '(1, 1, 1) and %s: %s' % (vals, got))
    f, e, ps = runq(prog, rep, 'tvm::operator*', inline=lambda g, o: False, fine=True, pick=lambda f: all('tvm::Space' in x.get('t', '') for x in f['params']))
    a, b = [('param', x['n']) for x in f['params']]
    for p in ps:
        r = p.ret
        while r is not None and r[0] == 'obj':
            r = r[3]
        ok = r is not None and r[0] in ('ctor', 'init') and len(r[2]) == 3 and all(same_sum(sums(x), [(1, (k, a)), (1, (k, b))]) for x, k in zip(r[2], ('m', 'r', 't')))
        rep.ob(R, 'product of spaces: sizes are added', ok, loc(f), 'gives %s' % show(r))
    for x, y in itertools.product(('Euclidean', 'SO3'), repeat=2):
        rs = [p for p in ps if agrees(p.hist, ('type', a), ('enum', 'tvm::Space::Type::' + x)) and agrees(p.hist, ('type', b), ('enum', 'tvm::Space::Type::' + y))]
        want = 'Euclidean' if x == y == 'Euclidean' else 'Unspecified'
        got = set()
        for p in rs:
            w = [e.b for e in p.flat() if e.kind == 'write' and e.a[0] == 'fld' and e.a[2] == 'type_']
            got.add(w[-1][1].split('::')[-1] if w and w[-1][0] == 'enum' else 'Euclidean?' if not w else None)
        rep.ob(R, 'product of spaces: Euclidean iff both are', got == {want}, loc(f), '%s and %s: %s' % (x, y, got))
    rep.floor(R, 25)


def chained(p, t):
    """Value of a member set from another one on the same route."""
    for _ in range(3):
        if t is not None and t[0] == 'fld' and t[1] == THIS:
            t = initof(p, t[2])[0]
    return t


def agrees(h, t, E):
    """The decisions of the route allow t to be the enumerator E."""
    for c, v in h.items():
        if t[0] == 'type' and sem(c) == ('iseuclid', t[1]) and isinstance(v, bool) and v != (E == ('enum', 'tvm::Space::Type::Euclidean')):
            return False
        if sem(c) == t and not isinstance(v, bool):
            if isinstance(v, tuple) and v and v[0] == 'enum':
                if v != E:
                    return False
            elif isinstance(v, tuple) and E in v:
                return False
        elif c[0] == 'op' and c[1] == '==' and isinstance(v, bool) and sem(c[2]) == t and c[3][0] == 'enum':
            if (c[3] == E) != v:
                return False
        elif c[0] == 'op' and c[1] == '==' and isinstance(v, bool) and sem(c[3]) == t and c[2][0] == 'enum':
            if (c[2] == E) != v:
                return False
    return True


RULES = [rule_memory, rule_links, rule_dot, rule_sub, rule_life, rule_values, rule_ranges]
