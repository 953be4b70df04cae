"""Queries over path summaries shared by the rules."""
from .flow import Engine, Ev, shortq, sub_terms, contains, show, flat, READ_ACCESSORS
from .ir import AnalysisBroken

THIS = ('this',)


def fld(*names, base=THIS):
    t = base
    for n in names:
        t = ('fld', t, n)
    return t


def norm(t):
    """Drop loop identities so that terms of different routes can be compared."""
    if isinstance(t, tuple):
        if t and t[0] == 'elem':
            return ('elem', norm(t[1]))
        if t and t[0] == 'idx':
            return ('idx', norm(t[2]), norm(t[3]))
        if t and t[0] == 'new':
            return t[:3]
        return tuple(norm(x) for x in t)
    return t


def walk(evs, hist=None, loops=()):
    """Every event with its enclosing loops and the decisions taken on its route: (event, loops, hist)."""
    hist = hist or {}
    for e in evs:
        yield e, loops, hist
        if e.kind == 'loop':
            for body, bh in zip(e.c, e.bh or [{}] * len(e.c)):
                yield from walk(body, {**hist, **bh}, loops + (e,))


def pwalk(path):
    return walk(path.ev, path.hist)


def calls(path, name=None, q=None, obj=None, pred=None):
    """Call events (loops flattened) by last name component or qualified name."""
    for e, loops, hist in pwalk(path):
        if e.kind != 'call':
            continue
        sq = shortq(e.a)
        if name is not None and sq.split('::')[-1] not in ((name,) if isinstance(name, str) else name):
            continue
        if q is not None and sq not in ((q,) if isinstance(q, str) else q):
            continue
        if obj is not None and e.b != obj:
            continue
        if pred is not None and not pred(e):
            continue
        yield e


def cname(e):
    return shortq(e.a).split('::')[-1] if e.kind == 'call' else None


def has(t, pred):
    return any(isinstance(x, tuple) and x and pred(x) for x in sub_terms(t)) if t is not None else False


def has_field(t, name):
    return has(t, lambda x: x[0] == 'fld' and x[2] == name)


def has_call(t, name):
    return has(t, lambda x: x[0] == 'call' and shortq(x[1]).split('::')[-1] == name)


def has_name(t, name):
    """t involves a field, parameter, call or enumerator called `name`."""
    return has(t, lambda x: (x[0] == 'fld' and x[2] == name) or (x[0] == 'param' and x[1] == name)
               or (x[0] in ('call', 'enum', 'global') and shortq(x[1]).split('::')[-1] == name))


def root(t):
    while isinstance(t, tuple) and t:
        if t[0] in ('fld', 'elem', 'index'):
            t = t[1]
        elif t[0] == 'call' and t[2] is not None:
            t = t[2]
        else:
            return t
    return t


def top_field(t):
    """First member of `this` on the access path of t (None when not rooted at this)."""
    last = None
    while isinstance(t, tuple) and t:
        if t == THIS:
            return last
        if t[0] == 'fld':
            last = t[2]; t = t[1]
        elif t[0] in ('elem', 'index'):
            t = t[1]
        elif t[0] == 'call' and t[2] is not None:
            t = t[2]
        else:
            return None
    return None


def mutators(path):
    """(event, location, loops, hist): direct writes and calls to mutating members on locations."""
    for e, loops, hist in pwalk(path):
        if e.kind == 'write':
            yield e, e.a, loops, hist
        elif e.kind == 'call' and not e.inl and e.b is not None and isinstance(e.node, dict) and not e.node.get('const') and not e.node.get('static'):
            if cname(e) not in READ_ACCESSORS:
                yield e, e.b, loops, hist


def touched_fields(paths, kinds=('write', 'call')):
    out = {}
    for p in paths:
        for e, loc, loops, hist in mutators(p):
            f = top_field(loc)
            if f:
                out.setdefault(f, e.where())
    return out


def fact(hist, t):
    """Decision recorded for term t (None when absent)."""
    return hist.get(t)


def facts(hist, pred):
    return [(t, v) for t, v in hist.items() if pred(t)]


def runq(prog, rep, qname, nparams=None, must=True, one=True, pick=None, **kw):
    """Summaries of function `qname`: [(function, engine, paths)]."""
    dyn = kw.pop('dyn', None)
    fs = prog.find(qname, nparams, must=must)
    if pick:
        fs = [f for f in fs if pick(f)]
        if must and not fs:
            raise AnalysisBroken('anchor vanished: %s (overload)' % qname)
    fs = [f for f in fs if f.get('body') is not None]
    if must and not fs:
        raise AnalysisBroken('anchor has no body: %s' % qname)
    res = []
    for f in fs:
        eng = Engine(prog, **kw)
        ps = eng.run(f, dyn=dyn)
        rep.used(eng, ps)
        res.append((f, eng, ps))
    if one:
        if len(res) > 1:
            raise AnalysisBroken('anchor %s is ambiguous (%d overloads)' % (qname, len(res)))
        return res[0] if res else None
    return res


def loc(f):
    return '%s:%s' % (f['file'], f['l'])


def same_class_inline(*prefixes):
    def inl(f, obj):
        return shortq(f['q']).startswith(prefixes)
    return inl


def enumfacts(hist):
    """hist plus ('eq', term) -> enumerator and ('ne', term) -> enumerators, derived from the recorded comparisons."""
    out = dict(hist)
    for t, v in hist.items():
        if t and t[0] == 'op' and t[1] == '==' and len(t) == 4 and isinstance(v, bool) and t[3][0] in ('enum', 'lit'):
            if v:
                out[('eq', t[2])] = t[3]
            else:
                out[('ne', t[2])] = tuple(sorted(set(out.get(('ne', t[2]), ())) | {t[3]}))
    return out


def cases(hist, t, enum):
    """Enumerators (short names) still possible for term t on the route."""
    h = enumfacts(hist)
    c = h.get(('eq', t))
    if c is not None and c[0] == 'enum':
        return [c[1].split('::')[-1]]
    no = {x[1].split('::')[-1] for x in h.get(('ne', t), ()) if x[0] == 'enum'}
    return [e for e in enum if e not in no]


def cases_of(hist, pred, enum):
    """Enumerators possible for every compared term accepted by pred (intersection)."""
    cs = list(enum)
    for t in {x[1] for x in enumfacts(hist) if x[0] in ('eq', 'ne') and len(x) == 2}:
        if pred(t):
            k = cases(hist, t, enum)
            cs = [c for c in cs if c in k]
    return cs


def compared(paths, prefix):
    """Terms compared with an enumerator of the enumeration `prefix` on some route."""
    out = set()
    for p in paths:
        for e, ls, h in list(pwalk(p)) + [(None, (), p.hist)]:
            for t in h:
                if t and t[0] == 'op' and t[1] == '==' and len(t) == 4 and t[3][0] == 'enum' and t[3][1].startswith(prefix):
                    out.add(t[2])
    return out


def bycase(prog, rep, f, enums, pred=None, this=THIS, args=None, **kw):
    """Evaluates f under every combination of enumerators: yields (combination, paths). enums: [(prefix, enumerators)];
    every term compared with that enumeration (accepted by pred) takes the same enumerator; contradictory routes are dropped."""
    import itertools
    dyn = kw.pop('dyn', None)
    terms = kw.pop('terms', None)
    if terms is None:
        eng = Engine(prog, **kw)
        ps = eng.run(f, this=this, args=args, dyn=dyn)
        terms = {pre: {t for t in compared(ps, pre) if pred is None or pred(pre, t)} for pre, vals in enums}
        # terms that only show up on pruned routes of a switch still carry the other enumerators
    for combo in itertools.product(*[v for _, v in enums]):
        init = {}
        for (pre, _), val in zip(enums, combo):
            for t in terms[pre]:
                init[('eq', t)] = ('enum', pre + val)
        eng = Engine(prog, **kw)
        ps = eng.run(f, this=this, args=args, dyn=dyn, init=init)
        keep = []
        for p in ps:
            ok = True
            for t, v in p.hist.items():
                if t and t[0] == 'op' and t[1] == '==' and len(t) == 4 and ('eq', t[2]) in init and t[3][0] == 'enum' and isinstance(v, bool):
                    if (t[3] == init[('eq', t[2])]) != v:
                        ok = False
            if ok:
                keep.append(p)
        rep.used(eng, keep)
        yield combo, keep


INSERT = {'push_back', 'emplace_back', 'insert', 'emplace', 'push', 'try_emplace', 'insert_or_assign', 'push_front', 'emplace_front'}
ERASE = {'erase', 'pop', 'pop_back', 'pop_front', 'clear', 'remove_if', 'remove'}


def inserted(path, cont):
    """(event, stored terms, loops, hist): insertions in the container `cont` (a field name of this, or a term)."""
    c = fld(cont) if isinstance(cont, str) else cont
    for e, loops, hist in pwalk(path):
        if e.kind == 'call' and not e.inl and cname(e) in INSERT and e.b == c:
            yield e, e.c, loops, hist
        elif e.kind == 'write' and e.a[0] == 'index' and e.a[1] == c:
            yield e, (e.a[2], e.b), loops, hist
        elif e.kind == 'call' and not e.inl and cname(e) == 'operator=' and e.b is not None and e.b[0] == 'index' and e.b[1] == c:
            yield e, (e.b[2],) + tuple(e.c), loops, hist
        elif e.kind == 'call' and not e.inl and cname(e) in INSERT and e.b is not None and e.b[0] == 'index' and e.b[1] == c:
            yield e, (e.b[2],) + tuple(e.c), loops, hist


def erased(path, cont):
    c = fld(cont) if isinstance(cont, str) else cont
    for e, loops, hist in pwalk(path):
        if e.kind == 'call' and not e.inl and cname(e) in ERASE and e.b == c:
            yield e, e.c, loops, hist
        elif e.kind == 'call' and not e.inl and cname(e) == 'erase_if' and e.c and e.c[0] == c:
            yield e, e.c, loops, hist


def searched(t, path, x):
    """t is a cursor moved by a loop of the route that goes on only while the cursor does not designate x."""
    lv = [y for y in sub_terms(t) if isinstance(y, tuple) and y and y[0] == 'loopvar']
    for e in path.flat():
        if e.kind != 'loop' or not lv:
            continue
        n = 0
        ok = True
        for bh, bx in zip(e.bh or (), e.bx or ()):
            eq = [v for c, v in bh.items() if c and c[0] == 'op' and c[1] == '==' and len(c) == 4 and isinstance(v, bool)
                  and (c[2] == x or c[3] == x) and (any(has(c, lambda z: z[:3] == y[:3]) for y in lv)
                  or e.b is not None and has(c, lambda z: z[:2] == ('elem', e.b)) and any(has(y, lambda z: z == e.b) for y in lv))]
            if bx in ('break', 'ret'):
                n += eq == [True]
                continue
            n += eq == [False]
            ok &= eq == [False]
        if ok and n:
            return True
    return False


def identifies(t, hist, x, path=None):
    """Term t designates x: it is built from x (key, lookup of x), or was compared equal to x on the route, or is the result of a search loop."""
    if path is not None and any(searched(y, path, x) for y in (t if t and isinstance(t[0], tuple) else (t,))):
        return True
    ts = t if isinstance(t, (list, tuple)) and (not t or isinstance(t[0], tuple)) else (t,)
    for t in ts:
        if has(t, lambda y: y == x):
            return True
        for c, v in hist.items():
            if v is True and c and c[0] == 'op' and c[1] == '==' and len(c) == 4:
                if c[2] == x and has(c[3], lambda y: has(t, lambda z: z == y)) and c[3] == t:
                    return True
                if c[3] == x and (c[2] == t or has(c[2], lambda y: y == t)):
                    return True
                if c[2] == x and has(c[3], lambda y: y == t):
                    return True
    return False


def final_write(path, loc):
    """Last value given to a location on the route (None when untouched); writes in loops count."""
    v = None
    for e, loops, hist in pwalk(path):
        if e.kind == 'write' and e.a == loc and e.op == '=':
            v = e.b
    return v


def order(path):
    """Events of the route in order with their index."""
    return list(enumerate(pwalk(path)))


def first(path, pred):
    for i, (e, loops, hist) in enumerate(pwalk(path)):
        if pred(e):
            return i
    return None


def lastidx(path, pred):
    r = None
    for i, (e, loops, hist) in enumerate(pwalk(path)):
        if pred(e):
            r = i
    return r


_pure = {}


def pure(prog, fid, depth=4):
    """The repo function `fid` changes no member of its receiver (its own body, callees included)."""
    k = (id(prog), fid)
    if k in _pure:
        return _pure[k]
    f = prog.funcs.get(fid)
    if f is None or f.get('body') is None or depth == 0:
        return False
    _pure[k] = False
    try:
        ps = Engine(prog, depth=3, maxpaths=400).run(f)
        r = not any(touches_this(e, prog, depth - 1) for p in ps for e in p.flat())
    except AnalysisBroken:
        r = False
    _pure[k] = r
    return r


def touches_this(e, prog=None, depth=4):
    """The event changes a member of `this` directly (with prog: non-const callees without effect on the receiver do not count)."""
    if e.kind == 'call' and prog is not None and isinstance(e.node, dict) and e.node.get('repo') and e.node.get('fid') and pure(prog, e.node['fid'], depth):
        return False
    if e.kind == 'write':
        return top_field(e.a) is not None
    if e.kind == 'call' and not e.inl and e.b is not None and isinstance(e.node, dict) and not e.node.get('const') and not e.node.get('static'):
        return cname(e) not in READ_ACCESSORS and top_field(e.b) is not None
    return False


def evalterm(t, env):
    """Value of term t when some of its parts have known values. env: callable term -> value or None (unknown)."""
    if not isinstance(t, tuple) or not t:
        return None
    v = env(t)
    if v is not None:
        return v
    if t[0] == 'lit':
        s = t[1]
        if s in ('true', 'false'):
            return s == 'true'
        try:
            return int(s)
        except ValueError:
            try:
                return float(s)
            except ValueError:
                return s
    if t[0] == 'enum':
        return t
    if t[0] == 'op':
        a = [evalterm(x, env) for x in t[2:]]
        o = t[1]
        if len(a) == 1:
            if a[0] is None:
                return None
            return (not a[0]) if o == '!' else -a[0] if o == '-' else a[0] if o == '+' else None
        if len(a) == 2:
            if o == '&&':
                return False if False in (a[0], a[1]) else True if a == [True, True] else None
            if o == '||':
                return True if True in (a[0], a[1]) else False if a == [False, False] else None
            if None in a:
                return None
            try:
                return {'==': lambda x, y: x == y, '!=': lambda x, y: x != y, '<': lambda x, y: x < y, '>': lambda x, y: x > y, '<=': lambda x, y: x <= y,
                        '>=': lambda x, y: x >= y, '+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y}[o](*a)
            except (KeyError, TypeError):
                return None
    return None


def consistent(hist, env):
    """The decisions of the route do not contradict the known values."""
    for c, v in hist.items():
        if isinstance(v, bool):
            r = evalterm(c, env)
            if isinstance(r, (int, float)) and not isinstance(r, bool):
                r = bool(r)
            if isinstance(r, bool) and r != v:
                return False
    return True


def lastname(t):
    return shortq(t[1]).split('::')[-1] if t and t[0] == 'call' else None


def table(ps, atoms, skip=None):
    """Decision table of a function from its routes. atoms: [(name, values, match)], match(t, v) gives the value of the term when the
    atom has value v, or None when the term is not about it. Yields (assignment, [(path, env)]) for every combination."""
    import itertools
    for vals in itertools.product(*[a[1] for a in atoms]):
        asg = {a[0]: v for a, v in zip(atoms, vals)}
        if skip and skip(asg):
            continue

        def env(t, vals=vals):
            for a, v in zip(atoms, vals):
                r = a[2](t, v)
                if r is not None:
                    return r
            return None
        yield asg, [(p, env) for p in ps if consistent(p.hist, env) and not leftloop(p, env)]


def leftloop(p, env):
    """The route goes through a whole loop that the known values make it leave (the values being those of some element)."""
    for e in p.flat():
        if e.kind == 'loop':
            go = [bh for bh, bx in zip(e.bh or (), e.bx or ()) if bx not in ('ret', 'break')]
            if go and all(not consistent(bh, env) and not any(c in p.hist and p.hist[c] != v for c, v in bh.items()) for bh in go):
                return True
    return False


def holds(f, *types):
    """The function has a local variable, by value, of one of the types."""
    def go(n):
        if isinstance(n, dict):
            if n.get('k') == 'decl':
                for x in n.get('c') or n.get('vars') or ():
                    t = x.get('t', '')
                    if not t.rstrip().endswith(('&', '*')) and t.replace('const ', '').startswith(types):
                        return True
            return any(go(x) for x in n.values())
        return isinstance(n, list) and any(go(x) for x in n)
    return go(f['body'])
