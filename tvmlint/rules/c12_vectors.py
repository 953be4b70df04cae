"""C12: a vector of variables keeps disjoint variables, and gives each of them, and each of their parts, its place in the concatenation."""
from ..q import *

EXPLANATION = ('Path summaries of every function of VariableVector and of Variable::getMappingIn: each insertion, removal and clearing of the list of variables comes, on every route, with the matching update of the total size, of the '
               'starting positions recorded in the variables and of the stamp; insertions are guarded by the search of an intersecting variable; cached positions are only trusted for the vector and the stamp they were computed with.')
ASSUMPTIONS = ['a vector of variables is not used after having been moved from', 'std containers and Eigen behave as documented']
VV = 'tvm::VariableVector::'
V = fld('variables_')
PRIV = ('add_', 'remove_', 'clear', 'getNewStamp', 'totalSize', 'numberOfVariables', 'stamp', 'begin', 'end', 'variables')


def inl(g, o):
    q = shortq(g['q'])
    return q.startswith(VV) and q[len(VV):] in PRIV or q in ('tvm::Variable::size', 'tvm::internal::ObjWithId::id')


def flat_sum(t, s=1):
    """t as a multiset of signed terms."""
    if t[0] == 'op' and t[1] in ('+', '-') and len(t) == 4:
        return flat_sum(t[2], s) + flat_sum(t[3], s if t[1] == '+' else -s)
    if t[0] == 'op' and t[1] == '-' and len(t) == 3:
        return flat_sum(t[2], -s)
    if t[0] == 'call' and lastname(t) in ('operator+', 'operator-') and t[2] is not None and len(t[3]) == 1:
        return flat_sum(t[2], s) + flat_sum(t[3][0], s if lastname(t) == 'operator+' else -s)
    if t[0] == 'call' and lastname(t) in ('operator+', 'operator-') and t[2] is None and len(t[3]) == 2:
        return flat_sum(t[3][0], s) + flat_sum(t[3][1], s if lastname(t) == 'operator+' else -s)
    if t[0] == 'call' and lastname(t) in ('next', 'prev') and t[2] is None and t[3]:
        return flat_sum(t[3][0], s) + flat_sum(t[3][1] if len(t[3]) > 1 else ('lit', '1'), s if lastname(t) == 'next' else -s)
    if t[0] == 'call' and lastname(t) == 'distance' and t[2] is None and len(t[3]) == 2:
        return flat_sum(t[3][1], s) + flat_sum(t[3][0], -s)
    if t == ('lit', '0'):
        return []
    return [(s, norm(t))]


def same_sum(a, b):
    from collections import Counter
    ca, cb = Counter(), Counter()
    for s, t in a:
        ca[t] += s
    for s, t in b:
        cb[t] += s
    return {k: v for k, v in ca.items() if v} == {k: v for k, v in cb.items() if v}


def vsize(v):
    """Terms for the size of the variable v."""
    return [('call', 'Eigen::EigenBase::size', fld('value_', base=v), ()), ('call', 'tvm::Variable::size', v, ())]


def issize(t, v):
    if t is None:
        return False
    if t[0] == 'fld' and t[2] == 'dim' and t[1][0] == 'call' and lastname(t[1]) == 'subvariableRange' and norm(t[1][2]) == norm(v):
        return True
    return t[0] == 'call' and lastname(t) in ('size', 'rows') and t[2] is not None and norm(t[2]) in (norm(v), norm(fld('value_', base=v)), ('call', 'tvm::Variable::value', norm(v), ()))


def isid(t, o=THIS):
    return t == fld('id_', base=o) or t is not None and t[0] == 'call' and lastname(t) == 'id' and t[2] == o


def isstamp(t, o=THIS):
    return t == fld('stamp_', base=o) or t is not None and t[0] == 'call' and lastname(t) == 'stamp' and t[2] == o


def entries(p):
    """(event, variable, key, value or None, loops, hist, kind): accesses changing startIn_ maps on the route."""
    for e, loops, hist in pwalk(p):
        if e.kind == 'write':
            a, path = e.a, ()
            while a[0] == 'fld' and a[2] in ('start', 'stamp'):
                path = (a[2],) + path
                a = a[1]
            if a[0] == 'call' and lastname(a) == 'at' and a[2] is not None:
                a = ('index', a[2], a[3][0])
            if a[0] == 'index' and a[1][0] == 'fld' and a[1][2] == 'startIn_':
                yield e, a[1][1], a[2], e.b, loops, hist, ('set' if not path else path[0] + e.op)
            elif a[0] == 'fld' and a[2] == 'startIn_' and e.op != 'init':
                yield e, a[1], None, e.b, loops, hist, 'whole'
        elif e.kind == 'call' and not e.inl and e.b is not None:
            b = e.b
            if cname(e) == 'operator=' and b[0] == 'index' and b[1][0] == 'fld' and b[1][2] == 'startIn_':
                yield e, b[1][1], b[2], e.c[0] if e.c else None, loops, hist, 'set'
            elif b[0] == 'fld' and b[2] == 'startIn_' and cname(e) in ERASE:
                yield e, b[1], e.c[0] if e.c else None, None, loops, hist, 'erase' if cname(e) == 'erase' else 'whole'
            elif b[0] == 'fld' and b[2] == 'startIn_' and cname(e) in ('insert_or_assign',):
                yield e, b[1], e.c[0], e.c[1], loops, hist, 'set'
            elif b[0] == 'fld' and b[2] == 'startIn_' and cname(e) in INSERT | {'swap', 'merge', 'extract'}:
                yield e, b[1], e.c[0] if e.c else None, None, loops, hist, 'keep'


def helper(t):
    """(start, stamp) of a MappingHelper value."""
    if t is not None and t[0] in ('init', 'ctor') and len(t[2]) == 2:
        return t[2]
    return None, None


def atom(t, v):
    """(relation, subject) when t states a relation between a subject and v."""
    if t[0] != 'call':
        return None
    n = lastname(t)
    if n in ('contains', 'intersects') and t[1].startswith('tvm::Variable::') and t[3] and t[3][0] == v:
        return n, t[2]
    if n == 'operator==' and len(t[3]) == 2 and t[2] is None:
        a, b = t[3]
        if b == v:
            return 'equal', a
        if a == v:
            return 'equal', b
    if n == 'operator!=' and len(t[3]) == 2 and t[2] is None:
        a, b = t[3]
        if b == v:
            return 'different', a
        if a == v:
            return 'different', b
    return None


def ors(t):
    return ors(t[2]) + ors(t[3]) if t[0] == 'op' and t[1] == '||' else [t]


def searchf(t, cont=V):
    """The predicate of a search over the whole container."""
    if t[0] == 'call' and lastname(t) in ('find_if', 'any_of', 'none_of', 'count_if') and t[2] == cont and t[3]:
        return t[3][-1]
    return None


def notfound(c, v, cont=V):
    """Predicate that no element satisfies according to the decision (c, v)."""
    if c[0] == 'op' and c[1] == '==' and len(c) == 4 and v is True:
        for a, b in ((c[2], c[3]), (c[3], c[2])):
            if a[0] == 'call' and lastname(a) in ('end', 'cend') and a[2] == cont:
                return searchf(b, cont)
            if a == ('lit', '0') and lastname(b) == 'count_if':
                return searchf(b, cont)
    if c[0] == 'call' and lastname(c) == 'any_of' and v is False or c[0] == 'call' and lastname(c) == 'none_of' and v is True:
        return searchf(c, cont)
    return None


def ands(t):
    return ands(t[2]) + ands(t[3]) if t[0] == 'op' and t[1] == '&&' else [t]


def falsified(f, v, cont=V):
    """Relations that hold for no element when no element satisfies f."""
    def lit(t, pos=True):
        while t[0] == 'op' and t[1] == '!' and len(t) == 3:
            t, pos = t[2], not pos
        a = atom(t, v)
        if a and a[1] is not None and norm(a[1]) == ('elem', cont):
            return (a[0], pos)
        return None
    known = set()
    more = True
    while more:
        more = False
        for alt in ors(f):
            ls = [lit(x) for x in ands(alt)]
            if None in ls:
                continue
            open_ = [l for l in ls if not (not l[1] and l[0] in known)]   # a negated relation known not to hold is true
            if len(open_) == 1 and open_[0][1] and open_[0][0] not in known:
                known.add(open_[0][0])
                more = True
    return known


def nothing(p, v, cont=V, upto=None):
    """Relations with v that no variable of the vector has, according to the route."""
    out = set()
    hist = dict(p.hist)
    for c, b in hist.items():
        if not isinstance(b, bool):
            continue
        f = notfound(c, b, cont)
        if f is not None:
            out |= falsified(f, v, cont)
        if b is False and c[0] == 'call' and shortq(c[1]) in (VV + 'contains', VV + 'intersects') and c[2] == THIS and c[3] == (v,):
            out.add(lastname(c))
    for e in p.ev:
        if e is upto:
            break
        if e.kind == 'loop' and e.b == cont and e.c:
            if any(bx == 'break' for bx in e.bx):
                continue
            common = None
            for bh in e.bh:
                s = {atom(c, v)[0] for c, b in bh.items() if b is False and atom(c, v) and norm(atom(c, v)[1]) == ('elem', cont)}
                common = s if common is None else common & s
            out |= common or set()
    return out


def rel(p, x, v):
    """Relations of x with v decided on the route: {relation: bool}."""
    out = {}
    for c, b in p.hist.items():
        if isinstance(b, bool):
            a = atom(c, v)
            if a and norm(a[1]) == norm(x):
                if a[0] == 'different':
                    out['equal'] = not b
                else:
                    out[a[0]] = b
    return out


def sizewrites(p):
    """Changes of the total size: (event, '+'/'-'/'=', term, loops)."""
    for e, loops, hist in pwalk(p):
        if e.kind == 'write' and e.a == fld('size_') and e.op != 'init':
            if e.op in ('+=', '-='):
                yield e, e.op[0], e.b, loops
            elif e.op == '=':
                s = flat_sum(e.b)
                if (1, fld('size_')) in s and len(s) == 2:
                    r = [x for x in s if x != (1, fld('size_'))][0]
                    yield e, '+' if r[0] > 0 else '-', r[1], loops
                else:
                    yield e, '=', e.b, loops
            else:
                yield e, e.op, e.b, loops


def iscounter(t):
    s = [x for x in flat_sum(t) if not (x[1][0] == 'lit')]
    return len(s) == 1 and s[0][0] == 1 and s[0][1][0] == 'global' and s[0][1][1].endswith('VariableVector::counter')


def freshstamp(p, after=None):
    """The stamp is taken from the counter, which is incremented, after the event `after`."""
    on = after is None
    st = inc = False
    for e, loops, hist in pwalk(p):
        if e is after:
            on = True
            st = inc = False
        if e.kind == 'write' and on and not loops:
            if e.a == fld('stamp_'):
                st = e.op == '=' and e.b is not None and iscounter(e.b)
            elif e.a[0] == 'global' and e.a[1].endswith('VariableVector::counter'):
                inc = e.op == '++' or e.op == '+=' and e.b == ('lit', '1')
    return st and inc


def whole_clear(p):
    """The route forgets every variable: (ok, message)."""
    cl = [e for e, a, l, h in erased(p, 'variables_') if cname(e) == 'clear']
    e0 = cl[0]
    ok = False
    for e, loops, hist in pwalk(p):
        if e is e0:
            break
        if e.kind == 'loop' and e.b == V and all(bx not in ('break',) for bx in e.bx):
            ok |= bool(e.c) and all(any(x[6] == 'erase' and norm(x[1]) == ('elem', V) and isid(x[2]) for x in entries(_body(b))) for b in e.c)
    if not ok:
        return False, 'the positions recorded in the variables are not erased before the list is cleared'
    sw = [s for s in sizewrites(p)]
    if not sw or sw[-1][1] != '=' or sw[-1][2] != ('lit', '0') or sw[-1][3]:
        return False, 'the total size is not reset'
    if not freshstamp(p):
        return False, 'the stamp is not renewed'
    return True, ''


class _body:
    def __init__(self, evs):
        self.ev, self.hist = evs, {}


def check_insert(p, rep, R, nm, f, pub):
    ins = list(inserted(p, 'variables_'))
    for e, args, loops, hist in ins:
        v = args[-1]
        rep.ob(R, '%s: appends at the end' % nm, cname(e) in ('push_back', 'emplace_back') and not loops, e.where(), 'the variable is not appended')
        st = [x for x in entries(p) if norm(x[1]) == norm(v) and x[6] != 'erase']
        good = False
        if len(st) == 1 and st[0][6] == 'set' and isid(st[0][2]):
            a, b = helper(st[0][3])
            # the size of the vector before the insertion
            if a is not None:
                sm = flat_sum(a)
                good = same_sum([x for x in sm if not issize(x[1], v)], [(1, fld('size_'))]) and sum(x[0] for x in sm if issize(x[1], v)) == 0
        rep.ob(R, '%s: records the position of the variable at the end of the vector' % nm, good, e.where(), 'position recorded: %s' % [(x[6], show(x[2]), show(x[3])) for x in st])
        sw = list(sizewrites(p))
        rep.ob(R, '%s: adds the size of the variable to the total' % nm, len(sw) == 1 and sw[0][1] == '+' and issize(sw[0][2], v) and not sw[0][3], e.where(), 'size_ %s' % [(s[1], show(s[2])) for s in sw])
        rep.ob(R, '%s: new stamp' % nm, freshstamp(p), e.where(), 'the stamp of the vector is not renewed')
        if pub:
            no = nothing(p, v, upto=e)
            rep.ob(R, '%s: only inserts a variable that intersects none of the vector' % nm, {'contains', 'intersects'} <= no, e.where(), 'only %s excluded on the route [%s]' % (sorted(no), p.condstr()[:150]))
    return bool(ins)


def check_erase(p, rep, R, nm, f, prog):
    er = [(e, a, l, h) for e, a, l, h in erased(p, 'variables_') if cname(e) != 'clear']
    if not er:
        return False
    e, args, loops, hist = er[0]
    ok = len(er) == 1 and cname(e) in ('erase', 'pop_back') and len(args) == (cname(e) == 'erase') and not loops
    rep.ob(R, '%s: removes one variable' % nm, ok, e.where(), 'erases %s' % [show(a) for a in args])
    if not ok:
        return True
    it = args[0] if args else None
    ev = list(pwalk(p))
    pos = [i for i, x in enumerate(ev) if x[0] is e][0]
    sw = list(sizewrites(p))

    def isit(t):
        if t is None:
            return False
        if norm(t) == norm(it):
            return True
        # variables_[i] for begin() + i
        s = flat_sum(it)
        return t[0] == 'index' and t[1] == V and same_sum(s, [(1, ('call', 'std::vector::begin', V, ())), (1, norm(t[2]))])
    ok = len(sw) == 1 and sw[0][1] == '-' and sw[0][2][0] == 'call' and isit(_owner(sw[0][2]))
    rep.ob(R, '%s: subtracts the size of the removed variable' % nm, ok, e.where(), 'size_ %s' % [(s[1], show(s[2])) for s in sw])
    late = [x[0] for x in ev[pos + 1:] if x[0].kind == 'call' and (isit(x[0].b) or x[0].b is not None and isit(_owner2(x[0].b))) and not (x[0].kind == 'call' and cname(x[0]).startswith('operator'))]
    rep.ob(R, '%s: the removed variable is not read after its removal' % nm, not late or any(holds(prog.funcs[x], 'std::shared_ptr<') for x in {f['fid'], e.fn} if x in prog.funcs), e.where(), 'reads %s after the erase' % [repr(x) for x in late][:2])
    ent = list(entries(p))
    mine = [x for x in ent if x[6] == 'erase' and isit(x[1]) and isid(x[2])]
    rep.ob(R, '%s: forgets the position recorded in the removed variable' % nm, len(mine) == 1 and not mine[0][4], e.where(), 'the variable keeps a position in the vector it left')
    # shift of the following variables
    ok = False
    for i, (x, l, h) in enumerate(ev):
        if x.kind != 'loop' or l or not x.c or any(b == 'break' for b in x.bx):
            continue
        sh = [[y for y in entries(_body(b)) if y[6] in ('start-=', 'start=')] for b in x.c]
        if not all(len(y) == 1 and isid(y[0][2]) for y in sh):
            continue
        for y in (z[0] for z in sh):
            if y[6] == 'start-=' and isit(_owner(y[3])):
                r = x.b
                if r and r[0] == 'range' and lastname(r[2]) in ('end', 'cend') and (r[2][2] in (V, THIS)):
                    s = flat_sum(r[1])
                    if i < pos and same_sum(s, flat_sum(it) + [(1, ('lit', '1'))]):
                        ok = same_elem(y[1], x)
                    if i > pos and (r[1][0] == 'call' and lastname(r[1]) == 'erase' or same_sum(s, flat_sum(it))):
                        ok = same_elem(y[1], x)
                elif r and r[0] == 'range' and lastname(r[2]) == 'size' and r[2][2] == V and y[1][0] == 'index' and y[1][1] == V:
                    s = flat_sum(r[1])
                    b0 = [(1, ('call', 'std::vector::begin', V, ()))]
                    if same_sum(s + b0, flat_sum(it) + ([(1, ('lit', '1'))] if i < pos else [])):
                        ok = y[1][2][0] == 'idx' and y[1][2][1] == x.a
    rep.ob(R, '%s: shifts every following variable by the size of the removed one' % nm, ok, e.where(), 'the positions of the following variables are not all decreased by the size of the removed variable')
    other = [x for x in ent if x not in mine and not x[6].startswith('start') and x[6] != 'erase']
    rep.ob(R, '%s: no other position changed' % nm, not other, e.where(), 'changes %s' % [show(x[1]) for x in other])
    rep.ob(R, '%s: new stamp' % nm, freshstamp(p), e.where(), 'the stamp of the vector is not renewed')
    return True


def same_elem(t, loop):
    return t[0] == 'idx' and t[1] == loop.a or t[0] == 'elem' and t[2] == loop.a


def _owner(t):
    """Variable whose size is t."""
    if t is not None and t[0] == 'call' and lastname(t) in ('size', 'rows') and t[2] is not None:
        return _owner2(t[2])
    return None


def _owner2(t):
    if t[0] == 'fld' and t[2] in ('value_', 'startIn_'):
        return t[1]
    return t


def rule_members(prog, rep):
    R = 'C12.update'
    rep.rule(R, 'every insertion, removal and clearing of the list of variables updates the total size, the recorded positions and the stamp, and is guarded')
    n = {'ins': 0, 'era': 0, 'clr': 0}
    fs = [f for f in prog.funcs.values() if shortq(f['q']).startswith(VV) and f.get('body') is not None and '(' not in shortq(f['q'])[len(VV):]]
    for f in fs:
        name = shortq(f['q'])[len(VV):]
        if f.get('implicit') or f.get('defaulted'):
            continue
        if f['params'] and f['params'][0]['t'].endswith('VariableVector &&'):
            continue
        eng = Engine(prog, inline=inl)
        ps = eng.run(f)
        rep.used(eng, ps)
        nm = name + ('(%s)' % ', '.join(x['t'].replace('std::shared_ptr<tvm::Variable>', 'VariablePtr').split('<')[0].split('::')[-1] for x in f['params']))
        ctor = name == 'VariableVector'
        for p in ps:
            if p.exit == 'throw':
                bad = [e for e in p.flat() if e.kind == 'write' and top_field(e.a) in ('size_', 'stamp_', 'variables_')] + [e for e, a, l, h in inserted(p, 'variables_')] + [e for e, a, l, h in erased(p, 'variables_')]
                rep.ob(R, '%s: refusal changes nothing' % nm, not bad, loc(f), 'changed before the throw')
                continue
            done = False
            if any(cname(e) == 'clear' for e, a, l, h in erased(p, 'variables_')):
                n['clr'] += 1
                ok, msg = whole_clear(p)
                rep.ob(R, '%s: clears everything' % nm, ok, loc(f), msg)
                done = True
            elif check_erase(p, rep, R, nm, f, prog):
                n['era'] += 1
                done = True
            elif check_insert(p, rep, R, nm, f, name in ('add', 'addAndGetIndex')):
                n['ins'] += 1
                done = True
            if not done:
                w = [e for e, l, h in pwalk(p) if e.kind == 'write' and e.op != 'init' and top_field(e.a) in ('size_', 'variables_') and not (ctor and e.a == fld('size_') and e.b == ('lit', '0'))]
                rep.ob(R, '%s: list and total size only change together' % nm, not w, loc(f), '%s' % [repr(x)[:80] for x in w[:2]])
                m = [x for x in entries(p) if not (name == 'getMappingOf')]
                rep.ob(R, '%s: positions recorded with the change of the list only' % nm, not m, loc(f), 'changes the position of %s' % [show(x[1]) for x in m[:2]])
                for e, args, l, h in mutcalls(p):
                    rep.bad(R, '%s: list only changed by known operations' % nm, e.where(), repr(e)[:100])
    # construction
    for f in fs:
        if shortq(f['q'])[len(VV):] == 'VariableVector' and not f['params']:
            eng = Engine(prog, inline=inl)
            for p in eng.run(f):
                z = [e for e in p.flat() if e.kind == 'write' and e.a == fld('size_') and e.b == ('lit', '0')]
                rep.ob(R, 'construction: empty vector', len(z) == 1 and freshstamp(p) and any(e.kind == 'write' and e.a == fld('id_') and has_call(e.b, 'makeId') for e in p.flat()), loc(f), 'size not 0, or no own stamp or identifier')
    rep.ob(R, 'insertion, removal and clearing exist', n['ins'] >= 2 and n['era'] >= 1 and n['clr'] >= 1, '', '%s' % n)
    # who else touches the positions
    for f in prog.funcs.values():
        q = shortq(f['q'])
        if f.get('body') is None or not (q.startswith('tvm::Variable::') or q == 'tvm::dot'):
            continue
        eng = Engine(prog, inline=lambda g, o: False, maxpaths=2000)
        try:
            ps = eng.run(f)
        except AnalysisBroken:
            continue
        bad = [x for p in ps for x in entries(p)]
        rep.ob(R, '%s: leaves recorded positions alone' % f['fid'].split('(')[0].replace('tvm::', ''), not bad, loc(f), 'changes the recorded positions')
    rep.floor(R, 20)


def mutcalls(p):
    for e, locn, loops, hist in mutators(p):
        if e.kind == 'call' and e.b == V and cname(e) not in INSERT | ERASE and cname(e) not in ('begin', 'end', 'operator[]', 'at', 'reserve', 'cbegin', 'cend', 'front', 'back', 'shrink_to_fit'):
            yield e, e.c, loops, hist


def rule_add(prog, rep):
    R = 'C12.add'
    rep.rule(R, 'adding a variable: refused when it intersects without being contained, ignored when contained, inserted otherwise; collections are added one by one')
    v = ('param', 'v')
    for f in prog.find(VV + 'add'):
        if f.get('body') is None:
            continue
        v = ('param', f['params'][0]['n'])
        t = f['params'][0]['t']
        eng = Engine(prog, inline=lambda g, o: inl(g, o) and shortq(g['q']) != VV + 'add_')
        ps = eng.run(f)
        rep.used(eng, ps)
        if t.startswith('std::shared_ptr'):
            kinds = set()
            for p in ps:
                put = any(cname(e) == 'add_' and e.c == (v,) for e in p.flat() if e.kind == 'call') or any(True for _ in inserted(p, 'variables_'))
                no = nothing(p, v)
                el = {}
                for c, b in p.hist.items():
                    a = atom(c, v) if isinstance(b, bool) else None
                    if a and not (a[1] is None):
                        el[a[0]] = el.get(a[0], False) or b
                    if isinstance(b, bool) and b and c[0] == 'call' and shortq(c[1]) in (VV + 'contains', VV + 'intersects') and c[2] == THIS and c[3] == (v,):
                        el[lastname(c)] = True
                    if c[0] == 'op' and c[1] == '==' and b is False:
                        for a in c[2:]:
                            if a[0] == 'call' and searchf(a) is not None:
                                fs = [atom(x, v) for x in ors(searchf(a))]
                                if len(fs) == 1 and fs[0]:
                                    el.setdefault(fs[0][0], True)
                if p.exit == 'throw':
                    kinds.add('throw')
                    rep.ob(R, 'add: refuses an intersecting variable only', el.get('intersects') is True and (el.get('contains') is False or 'contains' in no), loc(f), 'throws when %s' % p.condstr()[:150])
                elif put:
                    kinds.add('put')
                    rep.ob(R, 'add: inserts when nothing intersects', {'contains', 'intersects'} <= no and p.ret == ('lit', 'true'), loc(f), 'inserts when only %s is excluded, returns %s' % (sorted(no), show(p.ret)))
                else:
                    kinds.add('skip')
                    rep.ob(R, 'add: ignores a variable already contained', el.get('contains') is True and p.ret == ('lit', 'false'), loc(f), 'ignored when %s, returns %s' % (p.condstr()[:150], show(p.ret)))
            rep.ob(R, 'add: three outcomes', kinds == {'throw', 'put', 'skip'}, loc(f), '%s' % sorted(kinds))
        elif t.startswith('std::unique_ptr'):
            for p in ps:
                cs = [e for e in p.flat() if e.kind == 'call' and cname(e) == 'add']
                rep.ob(R, 'add(unique_ptr): adds the variable', len(cs) == 1 and has(cs[0].c[0], lambda x: x == v) and lastname(p.ret) == 'add', loc(f), 'adds %s returns %s' % ([show(e.c) for e in cs], show(p.ret)))
        else:
            for p in ps:
                cs = [(e, l) for e, l, h in pwalk(p) if e.kind == 'call' and cname(e) == 'add' and e.b == THIS]
                ok = len(cs) == 1
                if ok:
                    e, l = cs[0]
                    src = (v, fld('variables_', base=v), ('call', VV + 'variables', v, ()))
                    if l:
                        L = l[-1]
                        ok = len(l) == 1 and L.b in src and e.c[0] == ('elem', L.b, L.a) and all(any(x.kind == 'call' and cname(x) == 'add' for x in flat(b)) for b in L.c) and not any(x == 'break' for x in L.bx)
                    else:
                        ok = t.replace('const ', '').startswith('tvm::VariableVector') and e.c[0] in src[1:]
                rep.ob(R, 'add(%s): adds every variable' % t.split('<')[0].replace('const ', ''), ok, loc(f), 'adds %s' % [(show(e.c), [show(x.b) for x in l]) for e, l in cs])
    f, eng, ps = runq(prog, rep, VV + 'addAndGetIndex', inline=lambda g, o: inl(g, o) and shortq(g['q']) != VV + 'add_', fine=True)
    v = ('param', f['params'][0]['n'])
    ci = ('param', f['params'][1]['n'])
    for p in ps:
        put = [e for e in p.flat() if e.kind == 'call' and cname(e) == 'add_' and e.c == (v,)] + [e for e, a, l, h in inserted(p, 'variables_')]
        no = nothing(p, v)
        xs = {a[1] for c, b in p.hist.items() if isinstance(b, bool) for a in [atom(c, v)] if a and a[1] is not None}
        r = {}
        for x in xs:
            r.update(rel(p, x, v))
        if put:
            rep.ob(R, 'addAndGetIndex: inserts when nothing intersects', {'contains', 'intersects'} <= no, loc(f), 'inserts when only %s is excluded' % sorted(no))
            s = flat_sum(p.ret) if p.ret else []
            size = [x for x in s if x[1][0] == 'call' and lastname(x[1]) == 'size' and x[1][2] == V]
            i_add = lastidx(p, lambda e: e is put[0])
            i_size = lastidx(p, lambda e: e.kind == 'call' and cname(e) == 'size' and e.b == V)
            after = i_size is not None and i_size > i_add
            ok = len(size) == 1 and (s == size if not after else same_sum(s, size + [(-1, ('lit', '1'))]))
            rep.ob(R, 'addAndGetIndex: index of the inserted variable', ok, loc(f), 'returns %s' % show(p.ret))
        elif p.exit == 'throw':
            rep.ob(R, 'addAndGetIndex: refuses an intersecting variable only', r.get('contains') is False and r.get('equal', False) is False, loc(f), 'throws when %s' % r)
        else:
            neg = p.ret in (('lit', '-1'), ('op', '-', ('lit', '1')))
            if neg:
                rep.ob(R, 'addAndGetIndex: -1 only for a strictly contained variable', r.get('contains') is True and r.get('equal') is False and p.hist.get(ci) is False, loc(f), '-1 when %s' % r)
            else:
                rep.ob(R, 'addAndGetIndex: index of the containing variable', isindex(p.ret, xs) and (r.get('equal') is True or r.get('contains') is True and p.hist.get(ci) is True), loc(f), 'returns %s when %s' % (show(p.ret), r))
    rep.floor(R, 8)


def isindex(t, xs):
    """t is the rank in the vector of one of the subjects xs."""
    for x in xs:
        if x[0] == 'index' and x[1] == V and t == x[2]:
            return True
        if x[0] == 'elem':
            if t == ('idx',) or t[0] == 'idx' and t[1] == x[2]:
                return True
        if same_sum(flat_sum(t), [(1, norm(x)), (-1, ('call', 'std::vector::begin', V, ()))]) or same_sum(flat_sum(t), [(1, norm(x)), (-1, ('call', 'std::vector::cbegin', V, ()))]):
            return True
    return False


def subjects(p, v):
    return {a[1] for c, b in p.hist.items() if isinstance(b, bool) for a in [atom(c, v)] if a and a[1] is not None}


def found(p, v):
    """(subject, relations) of the element found on the route."""
    out = []
    for x in subjects(p, v):
        out.append((x, rel(p, x, v)))
    for c, b in p.hist.items():
        if isinstance(b, bool) and c[0] == 'op' and c[1] == '==' and len(c) == 4 and b is False:
            for a in c[2:]:
                f = searchf(a) if a[0] == 'call' else None
                if f is not None and len(ors(f)) == 1:
                    k = atom(f, v)
                    if k:
                        r = dict(rel(p, a, v))
                        r[k[0]] = True
                        out.append((a, r))
    return out


def returns(p, v):
    """The truth value returned on the route, by itself or by what was decided on the route."""
    t, w = p.ret, v
    while t and t[0] == 'op' and t[1] == '!':
        t, w = t[2], not w
    return t == ('lit', 'true' if w else 'false') or t is not None and p.hist.get(t) is w


def rule_query(prog, rep):
    R = 'C12.query'
    rep.rule(R, 'contains, intersects, indexOf, removal and access designate the variables they are asked for')
    for name in ('contains', 'intersects'):
        f, eng, ps = runq(prog, rep, VV + name, inline=lambda g, o: inl(g, o))
        v = ('param', f['params'][0]['n'])
        for p in ps:
            t = p.ret
            neg = 0
            while t and t[0] == 'op' and t[1] == '!':
                t = t[2]; neg ^= 1
            ok = False
            if t in (('lit', 'true'), ('lit', 'false')):
                yes = (t == ('lit', 'true')) != bool(neg)
                ok = any(r.get(name) is True for x, r in found(p, v)) if yes else name in nothing(p, v)
            elif t and t[0] == 'op' and t[1] == '==':
                g = notfound(t, True)
                ok = neg == 1 and g is not None and [atom(x, v) and atom(x, v)[0] for x in ors(g)] == [name]
            elif t and t[0] == 'call' and lastname(t) in ('any_of', 'none_of'):
                g = searchf(t)
                ok = (lastname(t) == 'any_of') == (neg == 0) and g is not None and [atom(x, v) and atom(x, v)[0] for x in ors(g)] == [name]
            rep.ob(R, '%s: some variable of the vector %s it' % (name, name), ok, loc(f), 'returns %s' % show(p.ret))
    f, eng, ps = runq(prog, rep, VV + 'indexOf', inline=lambda g, o: inl(g, o), fine=True)
    v = ('param', f['params'][0]['n'])
    for p in ps:
        if p.ret in (('lit', '-1'), ('op', '-', ('lit', '1'))):
            ok = bool(nothing(p, v) & {'contains', 'equal', 'intersects'}) or any(r.get('contains') is True and r.get('equal') is False for x, r in found(p, v))
            rep.ob(R, 'indexOf: -1 only for a variable that is not in the vector', ok, loc(f), '-1 when %s' % p.condstr()[:150])
        else:
            ok = any(r.get('equal') is True and isindex(p.ret, {x}) for x, r in found(p, v))
            rep.ob(R, 'indexOf: rank of the variable', ok, loc(f), 'returns %s when %s' % (show(p.ret), p.condstr()[:150]))
    for f in prog.find(VV + 'remove'):
        eng = Engine(prog, inline=lambda g, o: inl(g, o) and shortq(g['q']) != VV + 'remove_', fine=True)
        ps = eng.run(f)
        rep.used(eng, ps)
        v = ('param', f['params'][0]['n'])
        for p in ps:
            rm = [(e.c[0]) for e in p.flat() if e.kind == 'call' and cname(e) == 'remove_'] + [a[0] for e, a, l, h in erased(p, 'variables_') if a]
            if f['params'][0]['t'] == 'int':
                env = rangeenv(p, v)
                if p.exit == 'throw':
                    rep.ob(R, 'remove(int): refuses invalid ranks only', env == 'out', loc(f), 'throws when %s' % p.condstr()[:100])
                else:
                    ok = len(rm) == 1 and (same_sum(flat_sum(rm[0]), [(1, ('call', 'std::vector::begin', V, ())), (1, v)]) or same_sum(flat_sum(rm[0]), [(1, ('call', VV + 'begin', THIS, ())), (1, v)]))
                    rep.ob(R, 'remove(int): removes the variable of that rank', ok and env == 'in', loc(f), 'removes %s when %s' % ([show(x) for x in rm], p.condstr()[:100]))
            else:
                rm += [e.c[0] for e in p.flat() if e.kind == 'call' and cname(e) == 'remove' and e.b == THIS]
                rank = [b for c, b in p.hist.items() if isinstance(b, bool) and byrank(c, v)]
                if rm:
                    ok = len(rm) == 1 and any(r.get('equal') is True and (norm(x) == norm(rm[0]) or _pos(rm[0], x)) for x, r in found(p, v)) and returns(p, True)
                    if not ok:
                        # search for the variable through its rank
                        ok = len(rm) == 1 and has(rm[0], lambda x: x[0] == 'call' and lastname(x) == 'indexOf' and x[3] == (v,)) and returns(p, True) and rank == [False]
                    rep.ob(R, 'remove: removes that variable', ok, loc(f), 'removes %s, returns %s' % ([show(x) for x in rm], show(p.ret)))
                else:
                    ok = returns(p, False) and (bool(nothing(p, v) & {'equal'}) or rank == [True] or any(r.get('equal') is False for x, r in found(p, v)))
                    rep.ob(R, 'remove: false when the variable is not in the vector', ok, loc(f), 'nothing removed when %s' % p.condstr()[:150])
    rep.floor(R, 5)


def byrank(c, v):
    """c states that the rank of v is negative."""
    def isrank(t):
        return t[0] == 'call' and lastname(t) == 'indexOf' and t[2] == THIS and t[3] == (v,)
    return c[0] == 'op' and len(c) == 4 and (c[1] == '<' and isrank(c[2]) and c[3] == ('lit', '0') or c[1] == '==' and any(isrank(a) and b in (('lit', '-1'), ('op', '-', ('lit', '1'))) for a, b in ((c[2], c[3]), (c[3], c[2]))))


def _pos(t, x):
    """t is the position of the element x of the vector."""
    if x[0] == 'index' and x[1] == V:
        return same_sum(flat_sum(t), [(1, ('call', 'std::vector::begin', V, ())), (1, norm(x[2]))])
    return False


def rangeenv(p, v):
    """Whether the decisions of the route put v in [0, size)."""
    lo = hi = None
    for c, b in p.hist.items():
        if c[0] == 'op' and c[1] == '<' and isinstance(b, bool):
            if c[2] == v and c[3] == ('lit', '0'):
                lo = not b
            if c[2] == v and c[3][0] == 'call' and lastname(c[3]) in ('size', 'numberOfVariables'):
                hi = b
    if lo is False or hi is False:
        return 'out'
    return 'in' if lo and hi else '?'


def rule_mapping(prog, rep):
    R = 'C12.mapping'
    rep.rule(R, 'the range of a variable in a vector is its offset in the containing variable plus the position of that one; a cached position is used only for the same vector and stamp')
    f, eng, ps = runq(prog, rep, VV + 'getMappingOf', inline=lambda g, o: inl(g, o), fine=True)
    v = ('param', f['params'][0]['n'])
    n = 0
    for p in ps:
        if p.exit == 'throw':
            rep.ob(R, 'getMappingOf: refuses a variable that is not in the vector', 'contains' in nothing(p, v), loc(f), 'throws when %s' % p.condstr()[:120])
            continue
        n += 1
        c = [x for x, r in found(p, v) if r.get('contains') is True]
        r = p.ret
        ok = bool(c) and r[0] in ('ctor', 'init') and len(r[2]) == 2 and issize(r[2][1], v) and any(isstart(r[2][0], x, v) for x in c)
        rep.ob(R, 'getMappingOf: range of the variable', ok, loc(f), 'returns %s' % show(r))
        for e, var, key, val, loops, hist, kind in entries(p):
            a, b = helper(val)
            ok = kind == 'set' and var == v and isid(key) and a is not None and any(isstart(a, x, v) for x in c) and isstamp(b)
            rep.ob(R, 'getMappingOf: caches the position with the current stamp', ok, e.where(), 'records %s for %s' % (show(val), show(var)))
    rep.ob(R, 'getMappingOf: finds contained variables', n > 0, loc(f), 'no route returns a range')
    f, eng, ps = runq(prog, rep, 'tvm::Variable::getMappingIn', inline=lambda g, o: shortq(g['q']) in ('tvm::Variable::size', 'tvm::internal::ObjWithId::id'), fine=True)
    vv = ('param', f['params'][0]['n'])
    for p in ps:
        r = p.ret
        if r and r[0] == 'call' and lastname(r) == 'getMappingOf':
            rep.ob(R, 'getMappingIn: asks the vector', r[2] == vv and r[3] == (THIS,), loc(f), 'returns %s' % show(r))
            continue
        ok = r is not None and r[0] in ('ctor', 'init') and len(r[2]) == 2 and issize(r[2][1], THIS)
        ent = None
        if ok:
            s = r[2][0]
            ok = s[0] == 'fld' and s[2] == 'start'
            ent = s[1] if ok else None
            ok &= ent is not None and has(ent, lambda x: isid(x, vv)) and has(ent, lambda x: x == fld('startIn_'))
        rep.ob(R, 'getMappingIn: cached range of this variable in that vector', ok, loc(f), 'returns %s' % show(r))
        if not ok:
            continue
        direct = cur = there = False
        for c, b in p.hist.items():
            if c[0] == 'op' and c[1] == '==' and b is True and len(c) == 4:
                for x, y in ((c[2], c[3]), (c[3], c[2])):
                    if x == ('fld', ent, 'stamp') and (y == ('lit', '-1') or y == ('op', '-', ('lit', '1'))):
                        direct = True
                    if x == ('fld', ent, 'stamp') and isstamp(y, vv):
                        cur = True
            if c[0] == 'op' and c[1] == '==' and b is False and any(lastname(x) in ('end', 'cend') and x[2] == fld('startIn_') for x in c[2:]):
                there = True
            if c[0] == 'op' and c[1] == '<' and b is True and c[2] == ('fld', ent, 'stamp') and c[3] == ('lit', '0'):
                direct = True
            if c[0] == 'call' and lastname(c) in ('count', 'contains') and c[2] == fld('startIn_') and b is True:
                there = True
        rep.ob(R, 'getMappingIn: a cached position is used only if recorded for the current stamp', there and (direct or cur), loc(f), 'the cached position is used when %s' % p.condstr()[:150])
    rep.floor(R, 5)


def isstart(t, x, v):
    """t is the position of v, contained in the variable x of the vector."""
    s = flat_sum(t)
    base = [y for y in s if y[0] == 1 and y[1][0] == 'fld' and y[1][2] == 'start' and has(y[1], lambda z: z == norm(fld('startIn_', base=x))) and has(y[1], lambda z: isid(z))]
    if len(base) != 1:
        return False
    rest = [y for y in s if y != base[0]]

    def data(t, o):
        return t[0] == 'call' and lastname(t) == 'data' and t[2] is not None and norm(t[2]) in (norm(fld('value_', base=o)), ('call', 'tvm::Variable::value', norm(o), ())) \
            or t[0] == 'fld' and t[2] == 'start' and t[1][0] == 'call' and lastname(t[1]) == 'subvariableRange' and norm(t[1][2]) == norm(o)
    kind = {lastname(y[1]) for y in rest}
    return len(rest) == 2 and len(kind) == 1 and any(y[0] == 1 and data(y[1], v) for y in rest) and any(y[0] == -1 and data(y[1], x) for y in rest)


def rule_values(prog, rep):
    R = 'C12.values'
    rep.rule(R, 'value and set go through the variables in order, each at the cumulated size of the previous ones; copies hold the same variables under their own identifier')
    for f in prog.find(VV + 'value') + prog.find(VV + 'set'):
        name = shortq(f['q'])[len(VV):]
        if f.get('body') is None or name == 'value' and f['params']:
            continue
        eng = Engine(prog, inline=inl)
        ps = eng.run(f)
        rep.used(eng, ps)
        for p in ps:
            if p.exit == 'throw':
                continue
            Ls = [e for e in p.flat() if e.kind == 'loop' and e.b == V]
            ok = len(Ls) == 1 and Ls[0].c and not any(x == 'break' for x in Ls[0].bx)
            msg = 'no loop over the variables'
            for b in (Ls[0].c if ok else ()):
                el = ('elem', V, Ls[0].a)
                segs = [t for e in flat(b) for t in allterms(e) for t in sub_terms(t) if isinstance(t, tuple) and t and t[0] == 'call' and lastname(t) == 'segment']
                good = False
                lw = [e for e in flat(b) if e.kind == 'lwrite']
                for t in segs:
                    # the position recorded for the variable in this very vector
                    own = [x for x in sub_terms(t[3]) if isinstance(x, tuple) and x and x[0] == 'call' and lastname(x) in ('getMappingIn', 'getMappingOf')]
                    if len(t[3]) == 2 and own and all(x in (('call', 'tvm::Variable::getMappingIn', el, (THIS,)), ('call', VV + 'getMappingOf', THIS, (el,))) for x in own) \
                            and t[3][0] == ('fld', own[0], 'start') and (t[3][1] == ('fld', own[0], 'dim') or issize(t[3][1], el)):
                        if name == 'value':
                            good = any(e.kind == 'write' and e.op == '=' and e.a == t and norm(e.b) in (('call', 'tvm::Variable::value', norm(el), ()), norm(fld('value_', base=el))) and t[2] == fld('value_') for e in flat(b))
                        else:
                            good = t[2] == ('param', f['params'][0]['n']) and any(e.kind == 'call' and cname(e) == 'set' and e.b == el and len(e.c) == 1 and has(e.c[0], lambda x: x == t) for e in flat(b))
                    if len(t[3]) == 2 and t[3][0][0] == 'loopvar' and t[3][0][3] == ('lit', '0') and issize(t[3][1], el):
                        adv = [e for e in lw if e.a[0] == 'var' and e.a[2] == t[3][0][1]]
                        if len(adv) == 1 and (adv[0].op == '+=' and issize(adv[0].b, el) or adv[0].op == '=' and any(issize(y, el) for s, y in flat_sum(adv[0].b)) and len(flat_sum(adv[0].b)) == 2):
                            if name == 'value':
                                good = any(e.kind == 'write' and e.op == '=' and e.a == t and norm(e.b) in (('call', 'tvm::Variable::value', norm(el), ()), norm(fld('value_', base=el))) and t[2] == fld('value_') for e in flat(b))
                            else:
                                good = t[2] == ('param', f['params'][0]['n']) and any(e.kind == 'call' and cname(e) == 'set' and e.b == el and len(e.c) == 1 and has(e.c[0], lambda x: x == t) for e in flat(b))
                    if good:
                        break
                if not good:
                    ok = False
                    msg = 'segments %s, offset %s' % ([show(t) for t in segs][:2], [(e.op, show(e.b)) for e in lw])
            if name == 'value':
                rs = [e for e in p.flat() if e.kind == 'call' and cname(e) in ('resize', 'conservativeResize') and e.b == fld('value_')]
                ok = ok and rs and all(e.c == (fld('size_'),) for e in rs) and p.ret == fld('value_')
            rep.ob(R, '%s: concatenation in the order of the variables' % name, ok, loc(f), msg)
    f, eng, ps = runq(prog, rep, VV + 'setZero', inline=inl)
    for p in ps:
        Ls = [e for e in p.flat() if e.kind == 'loop' and e.b == V]
        ok = len(Ls) == 1 and Ls[0].c and all(any(e.kind == 'call' and cname(e) in ('setZero',) and norm(root2(e.b)) == ('elem', V) for e in flat(b)) for b in Ls[0].c)
        rep.ob(R, 'setZero: every variable', ok, loc(f), 'not every variable is set to zero')
    f, eng, ps = runq(prog, rep, VV + '~VariableVector', inline=inl)
    for p in ps:
        ok = any(cname(e) == 'clear' for e, a, l, h in erased(p, 'variables_')) and whole_clear(p)[0] or any(e.kind == 'loop' and e.b == V and e.c and all(any(x[6] == 'erase' and isid(x[2]) for x in entries(_body(b))) for b in e.c) for e in p.flat())
        rep.ob(R, 'destruction: no variable keeps a position in a destroyed vector', ok, loc(f), 'the recorded positions are not erased')
    for f in prog.find(VV + 'VariableVector') + prog.find(VV + 'operator='):
        if not (f['params'] and f['params'][0]['t'] == 'const tvm::VariableVector &') or f.get('body') is None:
            continue
        o = ('param', f['params'][0]['n'])
        assign = shortq(f['q']).endswith('operator=')
        eng = Engine(prog, inline=lambda g, q: inl(g, q) and shortq(g['q']) != VV + 'clear')
        ps = eng.run(f)
        rep.used(eng, ps)
        for p in ps:
            self_ = any(c[0] == 'op' and c[1] == '==' and b is True and {c[2], c[3]} == {THIS, o} for c, b in p.hist.items())
            ad = [(i, e) for i, (e, l, h) in enumerate(pwalk(p)) if e.kind == 'call' and cname(e) == 'add' and e.b == THIS]
            cl = [i for i, (e, l, h) in enumerate(pwalk(p)) if e.kind == 'call' and cname(e) == 'clear' and e.b in (THIS, V)]
            if self_:
                rep.ob(R, 'assignment: to itself changes nothing', not ad and not cl, loc(f), 'a vector assigned to itself is changed')
                continue
            src = (o, fld('variables_', base=o), ('call', VV + 'variables', o, ()))
            ok = bool(ad) and all(has(e.c[0], lambda x: x in src) for i, e in ad)
            if assign:
                ok = ok and bool(cl) and cl[0] < ad[0][0]
                other = any(c[0] == 'op' and c[1] == '==' and b is False and {c[2], c[3]} == {THIS, o} for c, b in p.hist.items())
                rep.ob(R, 'assignment: to itself loses nothing', other or holds(f, 'std::vector<', 'tvm::VariableVector', 'VariableVector'), loc(f), 'the vector is cleared before its variables are read when it is assigned to itself')
            rep.ob(R, '%s: same variables' % ('assignment' if assign else 'copy'), ok, loc(f), 'adds %s%s' % ([show(e.c) for i, e in ad], '' if cl or not assign else ' without clearing'))
            w = [e for e in p.flat() if e.kind == 'write' and top_field(e.a) in ('id_', 'stamp_', 'size_') and has(e.b, lambda x: x == o)]
            rep.ob(R, '%s: own identifier, stamp and size' % ('assignment' if assign else 'copy'), not w, loc(f), 'copies %s' % [show(e.a) for e in w])
    f, eng, ps = runq(prog, rep, 'tvm::dot', pick=lambda g: g['params'][0]['t'].startswith('const tvm::VariableVector'), inline=inl)
    vs, nd = (('param', x['n']) for x in f['params'][:2])
    for p in ps:
        whole = (vs, fld('variables_', base=vs), ('call', VV + 'variables', vs, ()))
        def over(e):
            r = e.b
            if r and r[0] == 'range' and r[1] == ('lit', '0') and r[2][0] == 'call' and lastname(r[2]) in ('numberOfVariables', 'size') and r[2][2] in whole:
                return whole
            return whole if r in whole else ()
        Ls = [e for e in p.flat() if e.kind == 'loop' and over(e)]
        ok = len(Ls) == 1 and bool(Ls[0].c)
        for b in (Ls[0].c if ok else ()):
            ad = [e for e in flat(b) if e.kind == 'call' and cname(e) == 'add']
            ok &= len(ad) == 1 and any(t[0] == 'call' and t[1] == 'tvm::dot' and len(t[3]) >= 2 and (t[3][0][0] == 'elem' and t[3][0][1] in over(Ls[0]) and t[3][0][2] == Ls[0].a or t[3][0][0] == 'index' and t[3][0][1] in over(Ls[0]) and t[3][0][2][:2] == ('idx', Ls[0].a)) and t[3][1] == nd for t in sub_terms(ad[0].c[0]) if isinstance(t, tuple) and t)
        rep.ob(R, 'dot: derivative of every variable, in order', ok, loc(f), 'not the derivative of each variable')
    # identifiers
    f, eng, ps = runq(prog, rep, 'tvm::internal::IdProvider::makeId', inline=lambda g, o: False)
    for p in ps:
        w = [e for e in p.flat() if e.kind == 'write']
        ok = len(w) == 1 and (w[0].op == '++' or w[0].op == '+=' and w[0].b == ('lit', '1')) or len(w) == 1 and w[0].op == '=' and same_sum(flat_sum(w[0].b), [(1, norm(w[0].a)), (1, ('lit', '1'))])
        rep.ob(R, 'identifiers: never given twice', ok or any(e.kind == 'call' and cname(e) in ('fetch_add', 'operator++') for e in p.flat()), loc(f), 'the next identifier is not incremented')
    rep.floor(R, 8)


def root2(t):
    return t[1] if t is not None and t[0] == 'fld' and t[2] == 'value_' else t


def allterms(e):
    out = []
    for x in (e.a, e.b, e.c):
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                out.append(x)
            else:
                out += [y for y in x if isinstance(y, tuple)]
    return out


RULES = [rule_members, rule_add, rule_query, rule_mapping, rule_values]
