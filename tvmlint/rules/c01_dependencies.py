"""C01: the update graph declared by every node is complete with respect to what its updates really read and write."""
from ..flow import Engine, shortq, sub_terms, show, flat
from ..ir import AnalysisBroken

EXPLANATION = ('For every class deriving from the graph node base, each constructor is summarised path-sensitively with base constructors inlined; the '
               'dependency declarations on each route are compared with a read/write effect summary of every update method registered on that route '
               '(virtual calls resolved for the class, helpers inlined), including forwarding accessors and captured external readers.')
ASSUMPTIONS = ['a getter is identified with the output whose enumerator has the same (case-insensitive) name in the declaring class family']

NODE = 'tvm::graph::internal::AbstractNode'
N = 'tvm::graph::abstract::Node::'
DEPS = {N + x: x for x in ('registerUpdates', 'addInputDependency', 'addOutputDependency', 'addInternalDependency', 'addDirectDependency')}


def last(t):
    return t[1].split('::')[-1] if isinstance(t, tuple) and len(t) > 1 and t[0] in ('enum', 'global') else None


def family(prog, cls):
    return [cls] + prog.all_bases(cls)


def outputs_of(prog, cls):
    """{lower-case getter name: output name} visible in cls."""
    key = ('_outs', cls)
    c = prog.__dict__.setdefault('_c01', {})
    if key not in c:
        d = {}
        for k in family(prog, cls):
            # SET_OUTPUTS: enum class Output_ / struct Output in class scope
            for en in (k + '::Output_', k + '::Output'):
                if en in prog.enums:
                    for v in prog.enums[en]['vals']:
                        d[v['n'].lower()] = v['n']
            pre = k + '::Output::'
            for g in prog.globals:
                if g.startswith(pre) and '::' not in g[len(pre):]:
                    d[g[len(pre):].lower()] = g[len(pre):]
        c[key] = d
    return c[key]


def is_outputs(prog, cls):
    return 'tvm::graph::abstract::Outputs' in prog.all_bases(cls)


def canon(t, m):
    if t in m:
        return canon(m[t], {k: v for k, v in m.items() if k != t})
    if isinstance(t, tuple):
        if t and t[0] == 'elem':
            return ('elem', canon(t[1], m))
        return tuple(canon(x, m) if isinstance(x, tuple) else x for x in t)
    return t


def engine(prog, cls, decl):
    opq = set(DEPS) if decl else set()

    def inl(f, obj):
        q = shortq(f['q'])
        if q.startswith(('tvm::graph::internal::Logger', 'tvm::graph::internal::Inputs', 'tvm::graph::abstract::Outputs', 'tvm::graph::abstract::Node::',
                         'tvm::utils::', 'tvm::Variable', 'tvm::internal::VariableCounting', 'tvm::internal::RangeCounting')):
            return False
        if 'cls' in f and obj is not None and obj[0] != 'this' and not (obj[0] == 'fld' and not is_outputs(prog, f['cls'])):
            return False   # only follow what this object (or a plain member of it) does
        if decl and q.split('::')[-1] in ('addVariable', 'removeVariable', 'resizeCache', 'resize'):
            return False
        return True
    return Engine(prog, dyn=cls, opaque=opq, inline=inl, lean=False, pure_paths=40)


class Decl:
    pass


def declarations(prog, path, cls):
    """Declarations on a construction route."""
    d = Decl()
    d.reg, d.inp, d.out, d.itn, d.dirc = {}, set(), set(), set(), set()
    d.where = {}
    d.evs = path.flat()
    m = {}
    for e in d.evs:
        if e.kind == 'write' and e.a[0] == 'fld' and e.a[1] == ('this',) and e.b is not None and e.b != ('lit', 'nullptr') and e.op in ('=', 'init'):
            b = e.b
            if b[0] == 'call' or (b[0] == 'param') or b[0] == 'fld':
                m[e.a] = b
    d.map = m
    for e in d.evs:
        if e.kind != 'call':
            continue
        k = DEPS.get(shortq(e.a))
        if not k:
            continue
        a = e.c
        if k == 'registerUpdates':
            i = 0
            while i + 1 < len(a):
                if a[i + 1][0] == 'fun':
                    d.reg[last(a[i])] = a[i + 1]
                else:
                    d.reg[last(a[i])] = None
                d.where[last(a[i])] = e.where()
                i += 2
        elif k == 'addInputDependency':
            for o in a[2:]:
                d.inp.add((last(a[0]), canon(a[1], m), last(o) or canon(o, m)))
                d.where[('in', last(a[0]))] = e.where()
        elif k == 'addOutputDependency':
            os = a[0][2] if a[0][0] in ('init', 'ctor') and len(a[0]) > 2 else (a[0],)
            for o in os:
                d.out.add((last(o), last(a[1])))
                d.where[('out', last(a[1]))] = e.where()
        elif k == 'addInternalDependency':
            d.itn.add((last(a[0]), last(a[1])))
            d.where[('int', last(a[0]))] = e.where()
        elif k == 'addDirectDependency':
            d.dirc.add((last(a[0]), canon(a[1], m), last(a[2]) or canon(a[2], m)))
    return d


def written_outside_ctor(prog):
    c = prog.__dict__.setdefault('_c01', {})
    if 'woc' not in c:
        eng = Engine(prog)
        w = set()
        for f in prog.funcs.values():
            if f.get('ctor'):
                continue
            dd, cc = set(), set()
            eng._mods_node(f.get('body'), dd, cc, f)
            w |= dd
        c['woc'] = w
    return c['woc']


def prefix(a, b):
    """location a is a prefix of (or equal to) b."""
    x = b
    while isinstance(x, tuple) and x:
        if x == a:
            return True
        if x[0] in ('fld', 'elem', 'index'):
            x = x[1]
        elif x[0] == 'call':
            x = x[2]
        else:
            return False
    return False


def root_field(t):
    """this-rooted location a term denotes, element/accessor calls stripped."""
    chain = []
    x = t
    while isinstance(x, tuple) and x:
        if x == ('this',):
            break
        if x[0] == 'fld':
            chain.append(x[2]); x = x[1]
        elif x[0] in ('elem', 'index'):
            chain = []; x = x[1]
        elif x[0] == 'call':
            chain = []; x = x[2]
        else:
            return None
    if x != ('this',) or not chain:
        return None
    return tuple(reversed(chain))


def overlap(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]


class Effects:
    """Reads of outputs and own fields, and writes, of one update method."""

    def __init__(self, prog, cls, f, store, conds):
        self.reads = {}     # (source term, output) -> where
        self.fields = {}    # field path read -> where
        self.written = {}   # field path -> where
        self.ext = {}       # std::function fields invoked -> where
        eng = engine(prog, cls, False)
        self.paths = eng.run(f, store=dict(store), init=dict(conds))
        self.eng = eng
        for p in self.paths:
            if p.exit == 'throw':
                continue
            done = set()
            for e in p.flat():
                w = e.where()
                if e.kind == 'call':
                    q = shortq(e.a)
                    c, _, n = q.rpartition('::')
                    full = e.a
                    ccls = e.a.rsplit('::', 1)[0] if '::' in e.a else ''
                    g = prog.funcs.get(e.node.get('fid')) if isinstance(e.node, dict) else None
                    rc = g['cls'] if g and 'cls' in g else ccls
                    if rc in prog.records and is_outputs(prog, rc) and n.lower() in outputs_of(prog, rc) and n not in ('operator=',):
                        self.reads.setdefault((e.b, outputs_of(prog, rc)[n.lower()]), w)
                    if q == 'std::function::operator()' and e.b is not None and e.b[0] == 'fld':
                        self.ext.setdefault(e.b, w)
                    # container mutators on fields of this
                    if e.b is not None and not e.inl and isinstance(e.node, dict) and not e.node.get('const') and not e.node.get('static'):
                        from ..flow import READ_ACCESSORS
                        if n not in READ_ACCESSORS:
                            r = root_field(e.b)
                            if r:
                                self.written.setdefault(r, w)
                    for a in e.c:
                        self._fields(a, w, done)
                elif e.kind == 'write':
                    r = root_field(e.a)
                    if r:
                        self.written.setdefault(r, w)
                        if e.op != '=':
                            pass
                    if e.b is not None:
                        self._fields(e.b, w, done)
                    if r and e.op == '=' and e.depth == 0:
                        pass
                elif e.kind in ('lwrite',) and e.b is not None:
                    self._fields(e.b, w, done)
            for t in p.hist:
                self._fields(t, '%s:%s' % (f['file'], f['l']), done)

    def _fields(self, t, w, done):
        for x in sub_terms(t):
            if isinstance(x, tuple) and x and x[0] == 'fld':
                r = root_field(x)
                if r:
                    self.fields.setdefault(r, w)


def getter_location(prog, cls, name, out, store, conds):
    """Return terms of the getter of output `out` for dynamic class cls."""
    for c in family(prog, cls):
        for f in prog.bycls.get(c, []):
            if f['n'] == name and not f.get('static') and f.get('const') and f.get('body'):
                eng = engine(prog, cls, False)
                try:
                    ps = eng.run(f, store=dict(store), init=dict(conds))
                except AnalysisBroken:
                    continue
                return f, ps, eng
    return None, [], None


def own_output_fields(prog, cls, store, conds):
    c = prog.__dict__.setdefault('_c01', {})
    if ('oof', cls) not in c:
        res = {}
        for low, o in outputs_of(prog, cls).items():
            for k in family(prog, cls):
                for f in prog.bycls.get(k, []):
                    if f['n'].lower() == low and f.get('const') and not f.get('static') and f.get('body') and o not in res:
                        eng = engine(prog, cls, False)
                        res[o] = {root_field(q.ret) for q in eng.run(f, dyn=cls) if q.exit == 'ret' and q.ret is not None} - {None}
        c[('oof', cls)] = res
    return c[('oof', cls)]


def node_classes(prog):
    out = []
    for c in prog.all_derived(NODE):
        if c.startswith(('tvm::graph::abstract::Node', 'tvm::graph::abstract::OutputSelector', 'witness::')):
            continue
        out.append(c)
    return sorted(out)


def short(c):
    return c.replace('tvm::', '')


def check_class(prog, rep, cls):
    ctors = [f for f in prog.bycls.get(cls, []) if f.get('ctor') and not f.get('implicit') and f.get('body') is not None]
    ctors = [f for f in ctors if not (len(f['params']) == 1 and shortq(f['params'][0]['t']).replace('const ', '').rstrip(' &') == shortq(cls))]
    nonfinal = written_outside_ctor(prog)
    cache = {}
    gcache = {}
    for ct in ctors:
        eng = engine(prog, cls, True)
        paths = [p for p in eng.run(ct, dyn=cls) if p.exit == 'ret']
        rep.used(eng, paths)
        cid = '%s(%d)' % (short(cls), len(ct['params']))
        seen = set()
        for p in paths:
            d = declarations(prog, p, cls)
            store = {k: v for k, v in p.store.items() if k[0] == 'fld' and k[1] == ('this',) and k[2] not in nonfinal}
            conds = {k: v for k, v in p.conds.items()}
            # distinct situations only
            sig = (frozenset(d.reg.items()), frozenset(d.inp), frozenset(d.out), frozenset(d.itn), frozenset(d.dirc), frozenset(store.items()),
                   frozenset((k, v) for k, v in conds.items() if k and k[0] in ('eq', 'ne') or isinstance(k, tuple) and k and k[0] == 'param'))
            if sig in seen:
                continue
            seen.add(sig)
            here = '%s:%s' % (ct['file'], ct['l'])
            upd = {}
            for u, ft in d.reg.items():
                if ft is None:
                    rep.broken.append('%s: update %s registered with an unresolved method' % (cid, u))
                    continue
                f = prog.funcs.get(ft[2])
                fin = prog.resolve_virtual(ft[2], cls)
                if fin is not None:
                    f = fin
                if f is None or f.get('body') is None:
                    continue      # left to derived classes
                k = (f['fid'], frozenset(store.items()), frozenset(conds.items()))
                if k not in cache:
                    cache[k] = Effects(prog, cls, f, store, conds)
                    rep.used(cache[k].eng, cache[k].paths)
                upd[u] = (f, cache[k])
            used = {a for a, _, _ in d.inp} | {b for _, b in d.out} | {x for ab in d.itn for x in ab}
            for u in used:
                rep.ob('C01.registered', '%s: update %s referred to by a declaration is registered' % (cid, u), u in d.reg, here,
                       'update %s appears in a dependency declaration but is never registered on a construction route (%s)' % (u, p.condstr()[:200]))
            # ---- reads of other nodes / own outputs
            for u, (f, ef) in sorted(upd.items()):
                name = '%s::%s' % (cid, f['n'])
                for (src, o), w in sorted(ef.reads.items(), key=str):
                    s = canon(strip(src), d.map)
                    if s == ('this',):
                        continue
                    ok = (u, s, o) in d.inp
                    rep.ob('C01.input', '%s reads %s of %s' % (name, o, show(src)), ok, w,
                           'update %s reads output %s of %s but no input dependency is declared for it (route: %s)' % (u, o, show(src), p.condstr()[:200]))
                for fld, w in sorted(ef.ext.items(), key=str):
                    lamcalls = [e for e in d.evs if e.kind == 'call' and shortq(e.a) == 'std::function::operator()' and any(a == ('this',) for a in e.c)]
                    rep.ob('C01.external', '%s reads through %s' % (name, show(fld)), bool(lamcalls), w,
                           'update %s reads an external provider through a stored functor but the constructor lets no one declare the dependency' % u)
                # own fields computed by another update
                for v, (g, eg) in sorted(upd.items()):
                    if u == v:
                        continue
                    for r, w in sorted(ef.fields.items()):
                        if any(overlap(r, x) for x in eg.written) and not any(r == x for x in ef.written if x not in eg.written):
                            ok = (u, v) in d.itn or any((u, ('this',), o) in d.inp and (o, v) in d.out for o in outputs_of(prog, cls).values())
                            rep.ob('C01.internal', '%s reads %s computed by update %s' % (name, '.'.join(r), v), ok, w,
                                   'update %s reads member %s that update %s computes, without an internal dependency' % (u, '.'.join(r), v))
                # outputs of this node supplied by derived classes
                if cls == 'tvm::function::abstract::LinearFunction':
                    own = {o for (src, o) in ef.reads if src == ('this',)}
                    locs = own_output_fields(prog, cls, store, conds)
                    own |= {o for o, ls in locs.items() if any(overlap(l, r) for l in ls for r in ef.fields)}
                    for o in sorted(own):
                        if any(overlap(l, x) for l in locs.get(o, ()) for g, eg in upd.values() for x in eg.written):
                            continue
                        rep.ob('C01.self', '%s reads own output %s' % (name, o), (u, ('this',), o) in d.inp, '%s:%s' % (f['file'], f['l']),
                               'update %s reads output %s, which derived classes supply, without depending on it: a derived class updating it is not run first' % (u, o))
            # ---- outputs
            outs = outputs_of(prog, cls)
            for low, o in sorted(outs.items()):
                gk = (o, frozenset(store.items()), frozenset(conds.items()))
                if gk not in gcache:
                    gname = None
                    for c in family(prog, cls):
                        for f in prog.bycls.get(c, []):
                            if f['n'].lower() == low and f.get('const') and not f.get('static'):
                                gname = f['n']
                    gcache[gk] = getter_location(prog, cls, gname, o, store, conds) if gname else (None, [], None)
                gf, gps, ge = gcache[gk]
                if gf is None:
                    continue
                if ge:
                    rep.used(ge, gps)
                locs = {root_field(q.ret) for q in gps if q.exit == 'ret' and q.ret is not None} - {None}
                for u, (f, ef) in sorted(upd.items()):
                    hit = [w for x, w in ef.written.items() if any(overlap(x, l) for l in locs)]
                    if hit:
                        rep.ob('C01.output', '%s: output %s is computed by update %s' % (cid, o, u), (o, u) in d.out, hit[0],
                               'update %s writes the value output %s returns, but the output does not depend on that update' % (u, o))
                # forwarding accessor
                for q in gps:
                    if q.exit != 'ret' or q.ret is None or q.ret[0] != 'call' or q.ret[2] is None:
                        continue
                    src, n = q.ret[2], shortq(q.ret[1]).split('::')[-1]
                    c = q.ret[1].rsplit('::', 1)[0]
                    if src == ('this',) or c not in prog.records or not is_outputs(prog, c):
                        continue
                    o2 = outputs_of(prog, c).get(n.lower())
                    if not o2:
                        continue
                    s = canon(strip(src), d.map)
                    ok = (o, s, o2) in d.dirc or any((o, u) in d.out and (u, s, o2) in d.inp for u in d.reg)
                    rep.ob('C01.forward', '%s: output %s forwards %s of %s' % (cid, o, o2, show(src)), ok, '%s:%s' % (gf['file'], gf['l']),
                           'output %s returns output %s of %s without a direct dependency on it' % (o, o2, show(src)))
            # every output dependency makes the output's update produce something the output exposes: LinearFunction contract
            for o, u in sorted(d.out, key=str):
                if u in upd and not upd[u][1].written and upd[u][0].get('body'):
                    pass


def strip(t):
    """Drop casts represented as constructor wrappers."""
    return t


def rule_feedforward(prog, rep):
    rep.rule('C01.functor', 'a task dynamics reading an external signal through a functor declares, for the same provider, an input dependency of its value update on that signal')
    n = 0
    for c in sorted(prog.records):
        if not shortq(c).startswith('tvm::task_dynamics::') or is_outputs(prog, c):
            continue
        if not any(f['t'].startswith('std::function<') for f in prog.fields(c, False)):
            continue
        for ct in [f for f in prog.bycls.get(c, []) if f.get('ctor') and f.get('body') and not f.get('implicit')]:
            eng = engine(prog, c, True)
            for p in eng.run(ct, dyn=c):
                if p.exit != 'ret':
                    continue
                prov, deps = {}, set()
                lams = [(e, e.b) for e in p.flat() if e.kind == 'write' and e.a[0] == 'fld' and e.a[1] == ('this',) and e.b and e.b[0] == 'lambda']
                where = '%s:%s' % (ct['file'], ct['l'])
                for e, lam in lams:
                    for q in eng.run_lambda(lam):
                        for x in q.flat():
                            if x.kind == 'call' and DEPS.get(shortq(x.a)) == 'addInputDependency':
                                deps.add((last(x.c[0]), x.c[1], x.c[2]))
                        if q.ret is not None and q.ret[0] in ('call', 'op', 'unk', 'pmcall', 'dyncall') and not any(
                                x.kind == 'call' and DEPS.get(shortq(x.a)) for x in q.flat()):
                            for t in sub_terms(q.ret):
                                if isinstance(t, tuple) and t and t[0] == 'param':
                                    prov[t] = e.where()
                params = {('param', x['n']) for x in ct['params']}
                srcs = [t for t in prov if 'shared_ptr' in eng.types.get(t, '') ]
                rep.used(eng, [p])
                for t in srcs or [None]:
                    n += 1
                    ok = t is not None and any(u == 'UpdateValue' and src == t and sig in params for u, src, sig in deps)
                    rep.ob('C01.functor', '%s(%d)' % (short(c)[:60], len(ct['params'])), ok, where,
                           'the functor reads %s, but no dependency of UpdateValue on that provider and its signal is declared (declared: %s)' % (
                               show(t), ', '.join('%s<-%s/%s' % (a, show(b), show(d)) for a, b, d in deps) or 'none'))
    rep.floor('C01.functor', 1)


def rule_nodes(prog, rep):
    rep.rule('C01.self', 'the updates of an extensible linear function depend on the own outputs they read and that derived classes supply')
    rep.rule('C01.input', 'every output of another node read by a registered update is declared as an input dependency of that update on the same construction route')
    rep.rule('C01.output', 'every output whose accessor exposes what an update writes depends on that update')
    rep.rule('C01.internal', 'an update reading what another update of the same node computes is ordered after it')
    rep.rule('C01.forward', 'an accessor forwarding the output of another node is declared as a direct dependency')
    rep.rule('C01.registered', 'every update named in a declaration is registered on the same route')
    rep.rule('C01.external', 'an update reading through a stored functor lets the owner of the functor declare its dependency at construction')
    for c in node_classes(prog):
        try:
            check_class(prog, rep, c)
        except AnalysisBroken as e:
            rep.broken.append('%s: %s' % (c, e))
    rep.floor('C01.input', 12)
    rep.floor('C01.output', 8)
    rep.floor('C01.registered', 8)
    rep.floor('C01.forward', 1)


RULES = [rule_nodes, rule_feedforward]
