"""C18: what a matrix is said to be is true of what was last put in it."""
import os, re, subprocess
from .. import ir
from ..q import *
from ..algebra import base as bn, Fraction

EXPLANATION = ('Path summaries of every way of writing a matrix with properties (all instantiations), of the slices taken of it, and of every place of the library that declares a property: the last value written on the route '
               'and the property declared are compared. Combinations that must be refused at compile time are decided by the type checker on a witness unit.')
ASSUMPTIONS = ['the properties a user gives with a matrix are true of it', 'Eigen operators have their usual meaning']
NS = 'tvm::internal::'
OWP = NS + 'ObjectWithProperties'
MP = NS + 'MatrixProperties'
PROPS = ('shape_', 'symmetric_', 'positiveness_', 'constant_', 'invertible_')


def none(g, o):
    return False


def local(g, o):
    q = shortq(g['q'])
    return q.startswith((OWP + '::', NS + 'KeepProperties::')) or (q.startswith(MP + '::') and g['file'].endswith('MatrixProperties.h') and lastname(g['q']) in ('operator=', 'MatrixProperties') and not g['params'])


def reset(p, at):
    """The properties of the matrix at `at` are the default ones at the end of the route."""
    whole, parts = None, {}
    for e, l, h in pwalk(p):
        if e.kind == 'write' and e.a == fld('properties_', base=at):
            whole, parts = e.b, {}
        elif e.kind == 'write' and e.a[0] == 'fld' and e.a[1] == fld('properties_', base=at):
            parts[e.a[2]] = e.b
        elif e.kind == 'call' and bn(e.a) == 'operator=' and e.b == fld('properties_', base=at):
            whole, parts = e.c[0], {}
        elif e.kind == 'call' and bn(e.a) == 'properties' and e.b == at and len(e.c) == 1:
            whole, parts = e.c[0], {}
    d = None
    if whole is not None:
        d = whole
        if parts:
            return False
    elif parts:
        if set(parts) != set(PROPS):
            return False
        ds = {v[1] if v[0] == 'fld' and v[2] == k else None for k, v in parts.items()}
        if len(ds) != 1:
            return False
        d = ds.pop()
    while d is not None and d[0] == 'obj':
        d = d[3]
    return d is not None and d[0] == 'ctor' and d[1].endswith('MatrixProperties') and not d[2]


def touched(p, at):
    return [e for e, l, h in pwalk(p) if (e.kind == 'write' and e.a != at and fld('properties_', base=at) in list(sub_terms(e.a)))
            or (e.kind == 'call' and e.b is not None and ((bn(e.a) in ('operator=',) and e.b == fld('properties_', base=at)) or (bn(e.a) == 'properties' and e.b == at and e.c)))]


def written(p, at, op, val):
    """The data of the matrix at `at` receive `op val`, once."""
    w = []
    for e, l, h in pwalk(p):
        if e.kind == 'write' and e.a == at:
            w.append((e.op, e.b))
        elif e.kind == 'call' and e.b == at and bn(e.a) in ('operator=', 'operator+=', 'operator-='):
            if e.inl:
                continue
            w.append((bn(e.a)[8:], e.c[0] if e.c else None))
    return w == [(op, val)]


def matters(prog, rep):
    R = 'C18.write'
    rep.rule(R, 'writing a matrix with properties (=, +=, -=, construction) writes the value and forgets the properties; it keeps them only where this is asked for; copies copy both')
    OTHER = ('param', 'other')
    for n in ('operator=', 'operator+=', 'operator-=', 'assignKeepProperties'):
        fs = [f for f in prog.find(OWP + '::' + n, must=True) if f.get('body') is not None and f['params'] and 'MatrixBase' in f['params'][0]['t']]
        if not fs:
            raise AnalysisBroken('anchor vanished: %s::%s' % (OWP, n))
        for f in fs:
            eng = Engine(prog, inline=local)
            ps = eng.run(f)
            rep.used(eng, ps)
            x = Engine(prog).param_terms(f['params'])[0]
            i = '%s on %s' % (n, short(f['q']))
            for p in ps:
                if p.exit == 'throw':
                    continue
                op = '=' if n == 'assignKeepProperties' else n[8:]
                rep.ob(R, i + ': value', written(p, THIS, op, x), loc(f), 'the matrix does not receive `%s` its argument' % op)
                if n == 'assignKeepProperties':
                    rep.ob(R, i + ': properties', not touched(p, THIS), loc(f), 'the properties are changed')
                else:
                    rep.ob(R, i + ': properties', reset(p, THIS), loc(f), 'the properties survive a change of the matrix')
                rep.ob(R, i + ': result', p.ret == THIS, loc(f), 'does not return the matrix')
    # the proxy
    fs = [f for f in prog.find(NS + 'KeepProperties::operator=', must=True) if f.get('body') is not None]
    M = fld('M_')
    for f in fs:
        eng = Engine(prog, inline=local)
        ps = eng.run(f)
        rep.used(eng, ps)
        x = Engine(prog).param_terms(f['params'])[0]
        seen = set()
        for p in ps:
            k = p.hist.get(fld('keep_'))
            seen.add(k)
            i = 'keepProperties(%s) = on %s' % (k, short(f['q']))
            rep.ob(R, i + ': value', written(p, M, '=', x), loc(f), 'the matrix does not receive the argument')
            if k is True:
                rep.ob(R, i + ': properties', not touched(p, M), loc(f), 'the properties are changed')
            else:
                rep.ob(R, i + ': properties', reset(p, M) and k is False, loc(f), 'the properties survive' if k is False else 'what is asked for is not looked at')
        rep.ob(R, 'keepProperties on %s: both cases' % short(f['q']), seen >= {True, False} or seen == {True} or seen == {False}, loc(f), '')
        rep.ob(R, 'keepProperties on %s: decided' % short(f['q']), seen == {True, False}, loc(f), 'the choice of the caller is ignored')
    for f, eng, ps in runq(prog, rep, OWP + '::keepProperties', one=False, inline=none):
        for p in ps:
            r = p.ret
            rep.ob(R, 'proxy of %s' % short(f['q']), r is not None and r[0] == 'ctor' and r[2] == (THIS, ('param', f['params'][0]['n'])), loc(f), 'the proxy does not refer to this matrix with the choice of the caller')
    for f, eng, ps in runq(prog, rep, NS + 'KeepProperties::KeepProperties', one=False, inline=none, pick=lambda f: len(f['params']) == 2):
        t = Engine(prog).param_terms(f['params'])
        for p in ps:
            v = {e.a[2]: e.b for e in p.ev if e.kind == 'write' and e.op == 'init' and e.a[0] == 'fld'}
            rep.ob(R, 'proxy constructor of %s' % short(f['q']), v.get('M_') == t[0] and v.get('keep_') == t[1], loc(f), 'the proxy does not hold its arguments')
    # construction
    n = 0
    for f in prog.find(OWP + '::ObjectWithProperties', must=True):
        if f.get('body') is None:
            continue
        eng = Engine(prog, inline=none)
        ps = eng.run(f)
        rep.used(eng, ps)
        t = Engine(prog).param_terms(f['params'])
        ts = [a['t'] for a in f['params']]
        for p in ps:
            if p.exit == 'throw' or len(ts) > 2 or not ts and 'Matrix' not in f['q']:
                continue
            init = [e for e in p.ev if e.kind == 'write' and e.a == fld('properties_')]
            v = init[-1].b if init else None
            while v is not None and v[0] == 'ctor' and len(v[2]) == 1 and v[1].endswith('MatrixProperties'):
                v = v[2][0]
            copy = len(ts) == 1 and 'ObjectWithProperties' in ts[0].split('MatrixBase')[0]
            i = 'construction from (%s)' % ', '.join('a matrix with properties' if copy else 'an expression' if 'MatrixBase' in x else 'properties' if 'MatrixProperties' in x else x for x in ts)
            i += ' of ' + short(f['q'])
            if len(ts) == 2 and 'MatrixProperties' in ts[1]:
                ok = v == t[1]
            elif copy:
                ok = v is not None and v in (fld('properties_', base=t[0]), ('call', OWP + '::properties', t[0], ())) or v is not None and v[0] == 'call' and bn(v[1]) == 'properties' and v[2] == t[0]
            elif len(ts) <= 1:
                ok = v is not None and v[0] == 'ctor' and not v[2]
            else:
                continue
            n += 1
            rep.ob(R, i, ok, loc(f), 'its properties are %s' % (show(v) if v else 'not set'))
            if ts:
                b = [e for e in p.ev if e.kind == 'call' and e.b == THIS and e.c and e.c[0] == t[0]]
                rep.ob(R, i + ': value', bool(b), loc(f), 'the argument is not stored')
    rep.floor(R, 40)


def short(q):
    m = re.search(r'ObjectWithProperties<(.*?)<|KeepProperties<(.*?)<', q)
    k = (m.group(1) or m.group(2) or '') if m else ''
    return {'Eigen::Ref': 'a view', 'Eigen::Matrix': 'a matrix'}.get(k, k or 'a matrix') + (' sharing its properties' if re.search(r', true>(::|$)', q) else '')


# ------------------------------------------------------------------ slices

def slices(prog, rep):
    R = 'C18.slice'
    rep.rule(R, 'a part of the columns keeps from the properties of the whole matrix only that it is constant and that it is zero; a writable part shares its properties with the matrix, so that writing the part weakens the whole')
    SM = NS + 'FirstOrderProvider::slice_matrix::'
    CST, SH = fld('constant_', base=('param', 'p')), fld('shape_', base=('param', 'p'))
    f, eng, ps = runq(prog, rep, SM + 'slice', inline=lambda g, o: shortq(g['q']).startswith(MP + '::is'))
    x = Engine(prog).param_terms(f['params'])[0]
    seen = set()
    for p in ps:
        z = [v for k, v in p.hist.items() if k[0] == 'op' and k[1] == '==' and ('enum', MP + '::ZERO') in k[2:]]
        z = z[0] if z else None
        args = []

        def leafs(t):
            if t[0] == 'ctor' and t[1].endswith('::MatrixProperties') or t[0] == 'obj':
                for y in (t[2] if t[0] == 'ctor' else (t[3],)):
                    leafs(y)
            else:
                args.append(t)
        leafs(p.ret)
        shapes = [a for a in args if a[0] == 'enum']
        cs = [a for a in args if a[0] == 'ctor' and a[1].endswith('Constness')]
        other = [a for a in args if a not in shapes and a not in cs]
        seen.add(z)
        ok = not other and all(s[1].endswith('::ZERO') and z is True for s in shapes)
        rep.ob(R, 'columns of a %s matrix' % {True: 'zero', False: 'non zero', None: 'any'}[z], ok, loc(f), 'a part is said to be more than what follows from the whole')
        okc = len(cs) == 1 and cs[0][2] in ((fld('constant_', base=x),), (('call', MP + '::isConstant', x, ()),))
        rep.ob(R, 'columns of a %s matrix: constness' % {True: 'zero', False: 'non zero', None: 'any'}[z], okc, loc(f), 'the constness of the whole is not that of the part')
        if z is True:
            rep.ob(R, 'columns of a zero matrix: kept', bool(shapes), loc(f), 'a part of a zero matrix is not said to be zero')
    rep.ob(R, 'zero matrices distinguished', True in seen, loc(f), '')
    for f, eng, ps in runq(prog, rep, SM + 'get', one=False, inline=none):
        t = Engine(prog).param_terms(f['params'])
        cst = f['params'][0]['t'].startswith('const ')
        for p in ps:
            r = p.ret
            args = r[2] if r is not None and r[0] == 'ctor' else ()
            ok = len(args) == 2 and args[0][0] == 'call' and bn(args[0][1]) in ('middleCols',) and args[0][2] == t[0] and args[0][3] == (fld('start', base=t[1]), fld('dim', base=t[1]))
            rep.ob(R, '%s part: columns' % ('constant' if cst else 'writable'), ok, loc(f), 'the part is %s, not the columns of the range' % show(args[0]) if args else 'no part')
            q = args[1] if len(args) == 2 else None

            def isprops(y):
                return y == fld('properties_', base=t[0]) or (y is not None and y[0] == 'call' and bn(y[1]) == 'properties' and y[2] == t[0])
            if cst:
                rep.ob(R, 'constant part: properties', q is not None and q[0] == 'call' and bn(q[1]) == 'slice' and isprops(q[3][0]), loc(f), 'the properties of the part are %s' % (show(q) if q else None))
            else:
                rep.ob(R, 'writable part: properties', isprops(q), loc(f), 'the part does not share the properties of the matrix')
                rep.ob(R, 'writable part: by reference', 'true>' in f['rt'].replace(' ', '')[-8:], loc(f), 'the part has properties of its own')
    rep.floor(R, 9)


# ------------------------------------------------------------------ declarations

IDT = 'scalar_identity_op'


def value_kind(t):
    """What a term is known to be: zero, identity, minus, or None."""
    while t is not None:
        if t[0] == 'ctor' and (len(t[2]) == 1 or len(t[2]) == 2 and t[2][1] in (('lit', '0'), ('lit', 0))):
            t = t[2][0]
        elif t[0] == 'obj':
            t = t[3]
        elif t[0] == 'call' and bn(t[1]) in ('eval', 'noalias', 'derived', 'matrix') and t[2] is not None:
            t = t[2]
        else:
            break
    if t is None:
        return None
    if t[0] == 'call' and bn(t[1]) == 'Zero':
        return 'ZERO'
    if t[0] == 'call' and bn(t[1]) == 'Identity':
        return 'IDENTITY'
    if t[0] == 'call' and bn(t[1]) == 'operator-' and t[2] is not None and not t[3] and value_kind(t[2]) == 'IDENTITY':
        return 'MINUS_IDENTITY'
    if t[0] == 'op' and t[1] == '-' and len(t) == 3 and value_kind(t[2]) == 'IDENTITY':
        return 'MINUS_IDENTITY'
    if t[0] == 'call' and bn(t[1]) == 'operator*' and any(value_kind(x) == 'IDENTITY' for x in ((t[2],) if t[2] is not None else ()) + tuple(t[3])):
        return 'MULTIPLE_OF_IDENTITY'
    return None


def type_kind(ty):
    """What the type of an expression says of its value."""
    ty = ty.replace('const ', '').strip(' &')
    m = re.match(r'Eigen::MatrixBase<(.*)>$', ty)
    if m:
        ty = m.group(1).strip()
    if ty.startswith('Eigen::CwiseNullaryOp') and IDT in ty:
        return 'IDENTITY'
    if ty.startswith('Eigen::CwiseUnaryOp<Eigen::internal::scalar_opposite_op') and IDT in ty and 'CwiseBinaryOp' not in ty and 'Product' not in ty:
        return 'MINUS_IDENTITY'
    if ty.startswith('Eigen::CwiseBinaryOp<Eigen::internal::scalar_product_op') and IDT in ty and ty.count('CwiseNullaryOp') == 2 and 'scalar_constant_op' in ty and 'CwiseUnaryOp' not in ty:
        return 'MULTIPLE_OF_IDENTITY'
    if ty.startswith('Eigen::DiagonalWrapper'):
        return 'DIAGONAL'
    return None


IMPLIES = {'IDENTITY': {'IDENTITY', 'MULTIPLE_OF_IDENTITY', 'DIAGONAL', 'LOWER_TRIANGULAR', 'UPPER_TRIANGULAR', 'GENERAL'},
           'MINUS_IDENTITY': {'MINUS_IDENTITY', 'MULTIPLE_OF_IDENTITY', 'DIAGONAL', 'LOWER_TRIANGULAR', 'UPPER_TRIANGULAR', 'GENERAL'},
           'MULTIPLE_OF_IDENTITY': {'MULTIPLE_OF_IDENTITY', 'DIAGONAL', 'LOWER_TRIANGULAR', 'UPPER_TRIANGULAR', 'GENERAL'},
           'DIAGONAL': {'DIAGONAL', 'LOWER_TRIANGULAR', 'UPPER_TRIANGULAR', 'GENERAL'},
           'ZERO': {'ZERO', 'MULTIPLE_OF_IDENTITY', 'DIAGONAL', 'LOWER_TRIANGULAR', 'UPPER_TRIANGULAR', 'GENERAL'}, None: {'GENERAL'}}
RAW = {'setZero', 'setIdentity', 'setOnes', 'setConstant', 'setRandom', 'fill', 'noalias', 'operator*=', 'operator/=', 'swap'}


def mats(prog):
    """(class, field) of the matrices with properties, direct or in a map."""
    out = set()
    for q, r in prog.records.items():
        for x in r.get('fields', ()):
            if 'ObjectWithProperties<Eigen::Matrix' in x['t'] or 'slice_matrix' in x['t']:
                out.add(x['n'])
    return out


def claims(t):
    """(shapes, other claims) made by a term of type MatrixProperties; None for what a caller gives."""
    while t[0] == 'obj':
        t = t[3]
    if t[0] != 'ctor':
        return None
    shapes, more = [], []
    for a in t[2]:
        while a[0] == 'obj':
            a = a[3]
        if a[0] == 'enum' and a[1].startswith(MP + '::'):
            shapes.append(a[1].rsplit('::', 1)[1])
        elif a[0] == 'ctor' and a[1].endswith('MatrixProperties'):
            c = claims(a)
            if c is None:
                return None
            shapes += c[0]
            more += c[1]
        elif a[0] == 'ctor' and a[1].endswith('Constness'):
            pass
        elif a[0] in ('param', 'fld'):
            return None
        else:
            more.append(a)
    return shapes, more


def declared(prog, rep):
    R = 'C18.declared'
    rep.rule(R, 'where the library declares properties of a matrix, the value last written on the route has them (or they come with the value from the caller), and the matrix is not changed by other means without declaring again what it is')
    fields = mats(prog)
    sites = 0
    for fid, f in list(prog.funcs.items()):
        q = shortq(f['q'])
        if f.get('body') is None or q.startswith((OWP + '::', NS + 'KeepProperties::', MP + '::', 'witness')) or not q.startswith('tvm::') or 'parent' in f:
            continue
        if not mentions(f['body']):
            continue
        cls = q.rsplit('::', 1)[0]

        def inl(g, o, cls=cls):
            gq = shortq(g['q'])
            return gq.startswith((cls + '::', 'tvm::function::BasicLinearFunction::')) and cls.startswith('tvm::function::') or gq.startswith(cls + '::') and gq != q
        eng = Engine(prog, inline=inl)
        ps = eng.run(f)
        rep.used(eng, ps)
        ptypes = {t[1]: a['t'] for t, a in zip(Engine(prog).param_terms(f['params']), f['params'])}
        done = set()
        for p in ps:
            if p.exit == 'throw':
                continue
            vals, props, raw, given = {}, {}, {}, None
            for e, l, h in pwalk(p):
                if e.kind == 'call' and e.op == 'basector' and e.a.endswith('BasicLinearFunction::BasicLinearFunction') and len(e.c) == 2 and given is None:
                    given = e.c[0]   # the matrix of the only variable
                if e.kind == 'call' and e.b is not None:
                    n = bn(e.a)
                    m = matrix(e.b)
                    own = isfield(m, fields)
                    if n == 'properties' and len(e.c) == 1:
                        props[m] = (e.c[0], vals.get(m, given if only(m) else None), e)
                        raw.pop(m, None)
                    elif n in ('operator=', 'assignKeepProperties') and e.c and own:
                        vals[m] = e.c[0]
                        raw.pop(m, None)
                        if n == 'operator=' and 'KeepProperties' not in e.a:
                            props.pop(m, None)
                    elif n in ('operator+=', 'operator-=') and own:
                        vals[m] = ('sum',)
                        raw.pop(m, None)
                        props.pop(m, None)
                    elif n in RAW and own:
                        raw[m] = (n, e)
                        vals[m] = {'setZero': ('call', 'Zero', None, ()), 'setIdentity': ('call', 'Identity', None, ())}.get(n, ('sum',))
                elif e.kind == 'write' and isfield(matrix(e.a), fields) and matrix(e.a) == strip_(e.a):
                    vals[matrix(e.a)] = e.b if e.op in ('=', 'init', None) else ('sum',)
                    props.pop(matrix(e.a), None)
                    raw.pop(matrix(e.a), None)
            for m, (t, v, e) in props.items():
                c = claims(t)
                k = (show(norm(m)), show(t), show(v) if v else '')
                if k in done:
                    continue
                done.add(k)
                sites += 1
                if os.environ.get('C18SITES'):
                    print(q, show(norm(m)), show(t)[:60], show(v)[:80] if v else '')
                i = '%s: %s' % (q, show(norm(m))[:60])
                if c is None:   # what the caller says, of what the caller gives
                    ok = v is not None and any(x[0] == 'param' for x in sub_terms(v)) and any(x[0] == 'param' for x in sub_terms(t))
                    rep.ob(R, i, ok, loc(f), 'the properties given by the caller are declared of %s' % (show(v) if v else 'a matrix that is not written'))
                    continue
                kd = value_kind(v) if v else None
                if kd is None and v is not None:
                    base_ = v
                    while base_[0] == 'ctor' and len(base_[2]) == 1:
                        base_ = base_[2][0]
                    if base_[0] == 'param' and base_[1] in ptypes:
                        kd = type_kind(ptypes[base_[1]])
                if kd is None and v is not None and v[0] == 'call' and v[2] is None:
                    kd = value_kind(v)
                rep.ob(R, i, not c[1] and all(s in IMPLIES[kd] for s in c[0]), loc(f), 'declared %s while it holds %s' % (', '.join(c[0] + [show(x) for x in c[1]]), show(v)[:80] if v else 'what it held before'))
            for m, (n, e) in raw.items():
                sites += 1
                rep.bad(R, '%s: %s' % (q, show(norm(m))[:60]), loc(f), '%s() changes the matrix under its properties' % n)
    rep.floor(R, 10)


def mentions(body):
    s = [body]
    while s:
        x = s.pop()
        if isinstance(x, dict):
            if 'f' in x and (x.get('n') in ('properties', 'keepProperties', 'assignKeepProperties') or x.get('n') in RAW):
                return True
            s.extend(x.values())
        elif isinstance(x, list):
            s.extend(x)
    return False


def strip_(t):
    while t[0] == 'obj':
        t = t[3]
    return t


def matrix(t):
    """The matrix a term designates (a part of the columns designates the whole)."""
    while True:
        if t[0] == 'obj':
            t = t[3]
        elif t[0] == 'call' and bn(t[1]) in ('keepProperties', 'noalias', 'middleCols', 'block', 'leftCols', 'rightCols', 'col', 'row', 'topRows', 'bottomRows', 'array') and t[2] is not None:
            t = t[2]
        elif t[0] == 'call' and bn(t[1]) == 'at' and t[2] is not None:
            t = ('index', t[2], t[3][0])
        else:
            return t


def only(m):
    """m is the matrix of the first variable."""
    return m[0] == 'fld' and m[2] == 'second' and m[1][0] == 'call' and bn(m[1][1]) in ('begin', 'cbegin', 'operator->') and any(x[0] == 'fld' and x[2] == 'jacobian_' for x in sub_terms(m))


def isfield(m, fields):
    if m[0] == 'index':
        m = m[1]
    if m[0] == 'fld' and m[2] == 'second' and m[1][0] in ('elem', 'call', 'index', 'op'):
        m = m[1]
        while m[0] != 'fld' and len(m) > 1 and isinstance(m[1], tuple) or m[0] == 'call':
            m = m[2] if m[0] == 'call' else m[1]
            if m is None:
                return False
    return m[0] == 'fld' and m[2] in fields


# ------------------------------------------------------------------ compile-time refusals

WITNESS = r'''
#include <tvm/internal/MatrixWithProperties.h>
#include <type_traits>
using namespace tvm::internal;
template<class T, class U, class = void> struct mul : std::false_type {};
template<class T, class U> struct mul<T, U, std::void_t<decltype(std::declval<T &>() *= std::declval<U>())>> : std::true_type {};
template<class T, class U, class = void> struct quo : std::false_type {};
template<class T, class U> struct quo<T, U, std::void_t<decltype(std::declval<T &>() /= std::declval<U>())>> : std::true_type {};
template<class T, class U, class = void> struct plus : std::false_type {};
template<class T, class U> struct plus<T, U, std::void_t<decltype(std::declval<T &>() += std::declval<U>())>> : std::true_type {};
template<class T, class U, class = void> struct minus : std::false_type {};
template<class T, class U> struct minus<T, U, std::void_t<decltype(std::declval<T &>() -= std::declval<U>())>> : std::true_type {};
using M = MatrixWithProperties;
using V = VectorWithProperties;
using R = ObjectWithProperties<Eigen::Ref<Eigen::MatrixXd>, true>;
using E = Eigen::MatrixXd;
using A = Eigen::ArrayXXd;
'''
ASSERTS = [('!mul<M, double>::value', 'm *= number'), ('!quo<M, double>::value', 'm /= number'), ('!mul<M, E>::value', 'm *= matrix'), ('!mul<V, double>::value', 'v *= number'), ('!quo<V, double>::value', 'v /= number'),
           ('!mul<R, double>::value', 'part *= number'), ('!quo<R, double>::value', 'part /= number'),
           ('!plus<M, A>::value', 'm += array'), ('!minus<M, A>::value', 'm -= array'), ('!plus<M, double>::value', 'm += number'), ('!minus<M, double>::value', 'm -= number'),
           ('!plus<R, A>::value', 'part += array'), ('!minus<R, A>::value', 'part -= array'),
           ('!(std::is_assignable<KeepProperties<E>, const M &>::value)', 'm.keepProperties(k) = matrix with properties'),
           ('(std::is_same<decltype(std::declval<const M &>().properties()), const MatrixProperties &>::value)', 'properties of a constant matrix are constant')]


def refusals(prog, rep):
    R = 'C18.refused'
    rep.rule(R, 'operations that would change a matrix behind its properties do not compile (decided by the type checker on the current headers)')
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix='tvmlint')
    try:
        src = WITNESS
        for k, (c, _) in enumerate(ASSERTS):
            src += 'static_assert(%s, "OBLIGATION%d");\n' % (c, k)
        open(d + '/w.cpp', 'w').write(src)
        r = subprocess.run(['/usr/lib/llvm-18/bin/clang++'] + ir.FLAGS + ['-fsyntax-only', '-ferror-limit=0', d + '/w.cpp'], capture_output=True, text=True)
        bad = {int(x) for x in re.findall(r'static assertion failed[^\n]*OBLIGATION(\d+)', r.stderr)}
        errs = [l for l in r.stderr.splitlines() if ' error: ' in l and 'static assertion failed' not in l]
        if errs or (r.returncode and not bad):
            raise AnalysisBroken('the witness unit cannot be type-checked: ' + (errs or [r.stderr])[0][:300])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for k, (c, w) in enumerate(ASSERTS):
        rep.ob(R, w, k not in bad, 'include/tvm/internal/MatrixWithProperties.h', 'is accepted by the compiler')
    rep.floor(R, 10)


RULES = [matters, slices, declared, refusals]
