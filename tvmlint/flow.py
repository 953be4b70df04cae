"""Path-sensitive, interprocedural effect analysis over the extracted program.

A function is evaluated abstractly into a finite set of *path summaries*. A summary is the sequence of effects
(writes, calls, throws, nested loop effects) along one feasible route through the structured syntax tree, with the
abstract conditions that select it. Values are *access terms* (receiver/field/element/call chains); indirection
(pointers, smart pointers, references, casts, moves, copies into arguments) is normalised away, so a term names the object reached.
Conditions prune only by syntactic identity and finite enum domains: no solver, no concrete values.
Repo callees are inlined up to a depth, loops are summarised once ("for an arbitrary element of the range"),
so that helper extraction, loop rewriting and statement splitting do not change a summary.
"""
import re, sys, time
from .ir import AnalysisBroken

sys.setrecursionlimit(20000)

PASS_FUNCS = {'move', 'forward', 'ref', 'cref', 'static_pointer_cast', 'dynamic_pointer_cast', 'const_pointer_cast',
              'as_const', 'addressof', 'get', 'reinterpret_pointer_cast', 'make_optional'}
PTR_METHODS = {'get', 'lock', 'value', 'shared_from_this'}
ALIAS_TYPES = ('std::shared_ptr<', 'std::unique_ptr<', 'std::reference_wrapper<', 'std::weak_ptr<', 'std::__shared_ptr<',
               '__gnu_cxx::__normal_iterator', 'std::_Rb_tree', 'std::__detail::_Node_', 'std::_List_', 'std::function<',
               'std::initializer_list<', 'std::optional<', 'std::_Deque_iterator', 'Eigen::Ref<', 'Eigen::Block<', 'Eigen::VectorBlock<',
               'Eigen::Map<', 'Eigen::Transpose<', 'Eigen::Diagonal<', '__gnu_cxx::')
SMART = ('std::shared_ptr<', 'std::unique_ptr<', 'std::reference_wrapper<', 'std::weak_ptr<', 'std::optional<', 'std::function<')
READ_ACCESSORS = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'operator[]', 'at', 'find', 'front', 'back', 'data',
                  'operator*', 'operator->', 'get', 'count', 'size', 'empty', 'lower_bound', 'upper_bound', 'first', 'second',
                  'top', 'middleRows', 'middleCols', 'block', 'head', 'tail', 'segment', 'col', 'row', 'transpose', 'leftCols', 'rightCols',
                  'topRows', 'bottomRows', 'diagonal', 'noalias', 'array', 'matrix', 'cols', 'rows', 'operator()', 'coeffRef',
                  'derived', 'const_cast_derived', 'topLeftCorner', 'bottomRightCorner', 'topRightCorner', 'bottomLeftCorner', 'triangularView',
                  'template', 'value', 'lock', 'operator bool', 'capacity', 'max_size', 'rdbuf', 'str', 'c_str', 'length', 'swap_'}
LOOP_ALGOS = {'for_each', 'any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'count_if', 'transform', 'remove_if', 'copy_if', 'accumulate',
              'partition', 'stable_partition', 'generate', 'replace_if', 'for_each_n', 'sort', 'stable_sort', 'max_element', 'min_element'}


_NTTP = re.compile(r'[A-Za-z_](<-?\d+(?:, -?\d+)*>)\(')
_BOOLCST = re.compile(r'std::integral_constant<bool, (true|false)>::value$')
_sq = {}
_ta = {}


def tmplargs(fid):
    """Template arguments of the last component of a function id."""
    r = _ta.get(fid)
    if r is None:
        out, d, start, i, n = [], 0, None, 0, len(fid)
        last = []
        par = 0
        while i < n:
            c = fid[i]
            if fid.startswith('operator', i):
                i += 8
                while i < n and fid[i] in '<>=-+*/!&|^~%[]':
                    i += 1
                continue
            if c == '(' and d == 0:
                break
            if c == '(':
                par += 1
            elif c == ')':
                par -= 1
            if par == 0:
                if c == '<':
                    d += 1
                    if d == 1:
                        last, start = [], i + 1
                elif c == '>':
                    d -= 1
                    if d == 0:
                        last.append(fid[start:i].strip())
                elif c == ',' and d == 1:
                    last.append(fid[start:i].strip())
                    start = i + 1
                elif c == ':' and d == 0:
                    last = []
            i += 1
        r = _ta[fid] = last
    return r


def shortq(q):
    """Qualified name without template arguments."""
    r = _sq.get(q)
    if r is None:
        out, d = [], 0
        i = 0
        while i < len(q):
            c = q[i]
            if q.startswith('operator', i):
                j = i + 8
                while j < len(q) and q[j] in '<>=-+*/!&|^~%[]()':
                    j += 1
                if d == 0:
                    out.append(q[i:j])
                i = j
                continue
            if c == '<':
                d += 1
            elif c == '>':
                d -= 1
            elif d == 0:
                out.append(c)
            i += 1
        r = _sq[q] = ''.join(out)
    return r


def sub_terms(t):
    yield t
    if isinstance(t, tuple):
        for x in (t[1:] if t and isinstance(t[0], str) else t):
            if isinstance(x, tuple):
                yield from sub_terms(x)


_contains_cache = {}


def contains(t, s):
    k = (t, s)
    r = _contains_cache.get(k)
    if r is None:
        r = t == s or (isinstance(t, tuple) and any(contains(x, s) for x in (t[1:] if t and isinstance(t[0], str) else t) if isinstance(x, tuple)))
        if len(_contains_cache) > 2000000:
            _contains_cache.clear()
        _contains_cache[k] = r
    return r


def _ret_fields(n):
    """Field names in return expressions of a body."""
    if isinstance(n, list):
        for x in n:
            yield from _ret_fields(x)
    elif isinstance(n, dict):
        if n.get('k') == 'ret':
            def mem(x):
                if isinstance(x, list):
                    for y in x:
                        yield from mem(y)
                elif isinstance(x, dict):
                    if x.get('k') == 'mem':
                        yield x['n']
                    for v in x.values():
                        if isinstance(v, (dict, list)):
                            yield from mem(v)
            yield from mem(n.get('e'))
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from _ret_fields(v)


def show(t):
    if t is None:
        return '-'
    if not isinstance(t, tuple):
        return str(t)
    k = t[0] if t else '()'
    if not t:
        return '()'
    if k == 'this':
        return 'this'
    if k == 'param':
        return t[1]
    if k == 'fld':
        return show(t[1]) + '.' + t[2]
    if k in ('lit', 'enum', 'fun', 'global'):
        return str(t[1]).split('::', 2)[-1] if k == 'enum' else str(t[1])
    if k == 'call':
        o = show(t[2]) + '.' if t[2] is not None else ''
        return o + t[1].split('::')[-1] + '(' + ', '.join(show(a) for a in t[3]) + ')'
    if k == 'op':
        if len(t) == 3:
            return t[1] + show(t[2])
        return '(' + show(t[2]) + ' ' + t[1] + ' ' + show(t[3]) + ')'
    if k == 'elem':
        return 'each(' + show(t[1]) + ')'
    if k == 'index':
        return show(t[1]) + '[' + show(t[2]) + ']'
    if k == 'idx':
        return 'i%s' % (t[1],)
    if k in ('ctor', 'new', 'init'):
        return k + ' ' + t[1].split('::')[-1] + '(' + ', '.join(show(a) for a in t[2]) + ')'
    if k == 'obj':
        return t[1]
    if k == 'lambda':
        return 'lambda'
    return '<' + ' '.join(show(x) for x in t) + '>'


class Ev:
    """One effect. kind: write | call | throw | loop | new | lwrite | return"""
    __slots__ = ('kind', 'a', 'b', 'c', 'op', 'file', 'line', 'node', 'fn', 'inl', 'depth', 'bh', 'bx')

    def __init__(self, kind, a=None, b=None, c=None, op=None, file=None, line=None, node=None, fn=None, inl=False, depth=0):
        self.kind, self.a, self.b, self.c, self.op = kind, a, b, c, op
        self.file, self.line, self.node, self.fn, self.inl, self.depth = file, line, node, fn, inl, depth
        self.bh = self.bx = None   # loops: decisions taken inside each body route, and its exit (None|break|continue)

    def key(self):
        if self.kind == 'loop':
            return ('loop', self.a, self.b, tuple(tuple(e.key() for e in p) for p in self.c), self.op)
        return (self.kind, self.a, self.b, self.c, self.op)

    def where(self):
        return '%s:%s' % (self.file, self.line)

    def __repr__(self):
        if self.kind == 'write':
            return 'write %s %s %s' % (show(self.a), self.op, show(self.b))
        if self.kind == 'call':
            return 'call%s %s obj=%s (%s)' % ('*' if self.inl else '', self.a, show(self.b), ', '.join(show(x) for x in self.c))
        if self.kind == 'loop':
            return 'loop over %s {%s}' % (show(self.b), ' | '.join('; '.join(map(repr, p)) for p in self.c))
        return '%s %s %s' % (self.kind, show(self.a), show(self.b) if self.b is not None else '')


def flat(events):
    """All events, loops flattened (each body path in order)."""
    for e in events:
        yield e
        if e.kind == 'loop':
            for p in e.c:
                yield from flat(p)


class State:
    __slots__ = ('env', 'ev', 'conds', 'store', 'exit', 'ret', 'hist')

    def __init__(self, env=None, ev=None, conds=None, store=None, hist=None):
        self.env = env or {}
        self.ev = ev or ()
        self.conds = conds or {}
        self.store = store or {}
        self.hist = hist or {}      # every decision taken on the way (never invalidated)
        self.exit = None
        self.ret = None

    def decided(self, t, v):
        if t in self.hist:
            self.hist[('prev', sum(1 for k in self.hist if k[0] == 'prev' and k[2] == t), t)] = self.hist[t]
        self.hist[t] = v

    def copy(self):
        s = State(dict(self.env), self.ev, dict(self.conds), dict(self.store), dict(self.hist))
        s.exit, s.ret = self.exit, self.ret
        return s

    def emit(self, e):
        self.ev = self.ev + (e,)

    def key(self):
        return (frozenset(self.env.items()), tuple(map(id, self.ev)), frozenset(self.store.items()), self.exit, self.ret)


class Path:
    """Result: events, conditions, exit ('ret'|'throw'), return term."""

    def __init__(self, st, fn):
        self.ev = st.ev
        self.conds = st.conds
        self.exit = st.exit or 'ret'
        self.ret = st.ret
        self.fn = fn
        self.env = st.env
        self.store = st.store
        self.hist = st.hist

    def flat(self):
        return list(flat(self.ev))

    def condstr(self):
        return ' & '.join(('' if v is True else '!' if v is False else '%s=' % (v,)) + show(k) for k, v in self.conds.items())


class Program:
    def __init__(self, doc):
        self.doc = doc
        self.funcs = doc['funcs']
        self.records = doc['records']
        self.enums = doc['enums']
        self.globals = doc['globals']
        self.enumerators = {n for e in self.enums.values() for v in e['vals'] for n in (e['q'] + '::' + v['n'], e['q'].rsplit('::', 1)[0] + '::' + v['n'])}
        self.byq = {}
        self.byshort = {}
        self.bycls = {}
        for f in self.funcs.values():
            self.byq.setdefault(f['q'], []).append(f)
            self.byshort.setdefault(shortq(f['q']), []).append(f)
            if 'cls' in f:
                self.bycls.setdefault(f['cls'], []).append(f)
        self.derived = {}
        for r in self.records.values():
            for b in r['bases']:
                self.derived.setdefault(b['t'], []).append(r['q'])
        self.byplain = {}
        for r in self.records.values():
            self.byplain.setdefault(r['plain'], []).append(r['q'])

    # ---- lookup
    def find(self, q, nparams=None, must=True):
        fs = [f for f in (self.byq.get(q) or self.byshort.get(q) or []) if nparams is None or len(f['params']) == nparams]
        if must and not fs:
            raise AnalysisBroken('anchor vanished: function %s' % q)
        return fs

    def one(self, q, pred=None):
        fs = [f for f in self.find(q) if pred is None or pred(f)]
        if len(fs) != 1:
            raise AnalysisBroken('anchor %s: %d candidates' % (q, len(fs)))
        return fs[0]

    def record(self, q):
        if q not in self.records:
            raise AnalysisBroken('anchor vanished: class %s' % q)
        return self.records[q]

    def all_bases(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop()
            r = self.records.get(c)
            if not r:
                continue
            for b in r['bases']:
                if b['t'] not in out:
                    out.append(b['t']); todo.append(b['t'])
        return out

    def all_derived(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop()
            for d in self.derived.get(c, []):
                if d not in out:
                    out.append(d); todo.append(d)
        return out

    def fields(self, cls, inherited=True):
        out = []
        for c in ([cls] + (self.all_bases(cls) if inherited else [])):
            r = self.records.get(c)
            if r:
                out += r['fields']
        return out

    def methods(self, cls, inherited=False):
        out = list(self.bycls.get(cls, []))
        if inherited:
            for b in self.all_bases(cls):
                out += self.bycls.get(b, [])
        return out

    def resolve_virtual(self, fid, cls):
        """Final overrider of method fid for dynamic class cls; returns function or None."""
        base = fid
        chain = [cls] + self.all_bases(cls)
        # breadth-first from most derived
        for c in chain:
            for f in self.bycls.get(c, []):
                if f['fid'] == base or base in self._over_closure(f):
                    return f
        return None

    def _over_closure(self, f):
        out = set()
        todo = list(f.get('over', []))
        while todo:
            o = todo.pop()
            if o in out:
                continue
            out.add(o)
            g = self.funcs.get(o)
            if g:
                todo += g.get('over', [])
            else:
                # overridden declaration without body: look in records
                for r in self.records.values():
                    for m in r['methods']:
                        if m['fid'] == o:
                            todo += m.get('over', [])
                            break
        return out


def fid_key(prog, node, curfile=None):
    fid = node.get('fid')
    if fid in prog.funcs:
        return fid
    if curfile and fid and fid + '@' + curfile in prog.funcs:
        return fid + '@' + curfile
    return None


def isdeleter(n):
    """The second argument of a shared_ptr constructor is a deleter."""
    while isinstance(n, dict) and n.get('k') == 'cast':
        n = n['e']
    return isinstance(n, dict) and (n.get('k') == 'lambda' or n.get('k') == 'ctor')


class Engine:
    def __init__(self, prog, depth=8, inline=None, opaque=(), dyn=None, maxpaths=3000, ctor_inline=False, pure_paths=6, lean=True, limit=60, fine=False, alias=False):
        self.alias = alias   # keep the owner of aliasing pointers
        self.fine = fine   # keep routes apart that differ only by their decisions
        self.pure_paths = pure_paths
        self.lean = lean
        self.p = prog
        self.depth = depth
        self.inline_pred = inline
        self.opaque = set(opaque)
        self.dyn = dyn
        self.maxpaths = maxpaths
        self.uid = 0
        self.closures = {}
        self.types = {}
        self.refdecls = set()
        self.afn = None
        self.analysed = set()
        self.ctor_inline = ctor_inline
        self.truncated = False
        self.deadline = None
        self.limit = limit

    def fresh(self):
        self.uid += 1
        return self.uid

    # ------------------------------------------------------------ entry points
    def run(self, f, this=('this',), args=None, dyn=None, init=None, store=None):
        """Summaries of function f. args: list of terms (defaults to ('param', name))."""
        old = self.dyn
        if dyn is not None:
            self.dyn = dyn
        elif self.dyn is None and 'cls' in f:
            self.dyn = f['cls']
        self.deadline = time.time() + self.limit
        self.entry = f['q']
        try:
            st = State()
            if init:
                st.conds.update(init)
            if store:
                st.store.update(store)
            if args is None:
                args = self.param_terms(f['params'])
            for a, p in zip(args, f['params']):
                self.types[a] = p['t']
            outs = self.call_body(f, this, args, st, 0, ())
            return [Path(s, f) for s in outs]
        finally:
            self.dyn = old

    def run_lambda(self, lam, args=None, this=None):
        node, frame = self.closures[lam]
        st = State()
        st.env = dict(frame['env'])
        fr = dict(frame)
        if this is not None:
            fr['this'] = this
        ps = self.lambda_params(node)
        if args is None:
            args = self.param_terms(ps)
        outs = self.exec_lambda(node, fr, args, st)
        return [Path(s, None) for s in outs]

    @staticmethod
    def param_terms(ps):
        """One term per parameter; the elements of an expanded pack share their name and are told apart by their rank."""
        ns = [p['n'] or ('arg%d' % i) for i, p in enumerate(ps)]
        return [('param', n if ns.count(n) == 1 else '%s#%d' % (n, i)) for i, n in enumerate(ns)]

    @staticmethod
    def lambda_params(node):
        if node.get('generic'):
            sp = node.get('specs') or []
            return sp[0]['params'] if sp else []
        return node.get('params', [])

    def exec_lambda(self, node, frame, args, st):
        body = node.get('body')
        ps = self.lambda_params(node)
        if node.get('generic'):
            sp = node.get('specs') or []
            if not sp:
                return [self.exitst(st, 'ret', ('unk', self.fresh()))]
            body = sp[0]['body']
        fr = dict(frame)
        for p, a in zip(ps, args):
            st.env[(fr['id'], p['d'])] = a
            if a[0] != 'aliasof':
                self.types[a] = p['t'] if a not in self.types else self.types[a]
        outs = self.stmt(body, st, fr)
        for s in outs:
            if s.exit in (None, 'ret'):
                s.exit = None
        return outs

    @staticmethod
    def exitst(st, k, r):
        st = st.copy()
        st.exit, st.ret = None, r
        return st

    # ------------------------------------------------------------ references to local numbers
    def slot(self, n, st, fr):
        """The local number a node designates, through references: (key, name), or None."""
        while isinstance(n, dict) and n.get('k') in ('cast', 'paren'):
            n = n['e']
        if not (isinstance(n, dict) and n.get('k') == 'ref' and n.get('dk') in ('var', 'param')):
            return None
        key = (fr['id'], n['d'])
        t = st.env.get(key)
        if t is None:
            return None
        if t[0] == 'aliasof':
            return t[1:]
        if n.get('isref') or n.get('t', '').endswith('&') or not self.scalar_type(n.get('t', '')):
            return None
        return key, n['n']

    def refers(self, T):
        """Type of a reference through which a number can be changed."""
        return T.endswith('&') and not T.endswith('&&') and not T.startswith('const ') and self.scalar_type(T[:-1].strip())

    def passed(self, nodes, pts, ts, st, fr):
        """Arguments, with the local numbers passed by reference replaced with an alias."""
        out = list(ts)
        for i, (a, t) in enumerate(zip(nodes, pts)):
            if i < len(out) and self.refers(t):
                sl = self.slot(a, st, fr)
                if sl:
                    out[i] = ('aliasof',) + sl
        return out

    # ------------------------------------------------------------ calls
    def call_body(self, f, this, args, st, depth, stack):
        """Evaluate f's body; returns states with .exit None (returned, .ret) or 'throw'."""
        self.analysed.add(f['fid'])
        fr = {'id': self.fresh(), 'this': this, 'fn': f, 'depth': depth, 'stack': stack + (f['fid'],), 'file': f['file'], 'env': st.env}
        for i, p in enumerate(f['params']):
            st.env[(fr['id'], p['d'])] = args[i] if i < len(args) else ('unk', self.fresh())
        states = [st]
        if f.get('ctor'):
            for ini in f.get('inits', []):
                nxt = []
                for s in states:
                    if s.exit:
                        nxt.append(s); continue
                    if 'field' in ini:
                        for t, s2 in self.ev(ini['e'], s, fr):
                            if s2.exit:
                                nxt.append(s2); continue
                            lhs = ('fld', this, ini['n'])
                            self.types[lhs] = ini['ft']
                            e = Ev('write', lhs, t, op='init', file=f['file'], line=ini['l'], node=ini, fn=f['fid'], depth=depth)
                            s2 = s2.copy()
                            s2.emit(e)
                            if self.scalar_type(ini['ft']):
                                s2.store[lhs] = t
                            nxt.append(s2)
                    elif ini.get('base') or ini.get('deleg'):
                        e = ini['e']
                        key = fid_key(self.p, e, f['file']) if isinstance(e, dict) and e.get('k') == 'ctor' else None
                        if key and depth < self.depth and key not in fr['stack']:
                            for ts, s2 in self.evlist(e.get('args', []), s, fr):
                                if s2.exit:
                                    nxt.append(s2); continue
                                s2 = s2.copy()
                                s2.emit(Ev('call', self.p.funcs[key]['q'], this, tuple(ts), op='basector', file=f['file'], line=ini['l'], node=e, fn=f['fid'], inl=True, depth=depth))
                                # virtual calls of a base constructor go to the base
                                old = self.dyn
                                if this == ('this',) and ini.get('base') and 'cls' in self.p.funcs[key]:
                                    self.dyn = self.p.funcs[key]['cls']
                                nxt += self.call_body(self.p.funcs[key], this, list(ts), s2, depth + 1, fr['stack'])
                                self.dyn = old
                        else:
                            for ts, s2 in self.evlist(e.get('args', []) if isinstance(e, dict) else [], s, fr):
                                s2 = s2.copy()
                                s2.emit(Ev('call', e.get('f', '?') if isinstance(e, dict) else '?', this, tuple(ts), op='basector', file=f['file'], line=ini['l'], node=e, fn=f['fid'], depth=depth))
                                nxt.append(s2)
                    else:
                        nxt.append(s)
                states = self.reduce(nxt)
        out = []
        for s in states:
            if s.exit:
                out.append(s)
            else:
                out += self.stmt(f['body'], s, fr) if f.get('body') else [s]
        for s in out:
            if s.exit == 'ret':
                s.exit = None
            elif s.exit is None:
                s.ret = None
        # drop callee locals
        for s in out:
            s.env = {k: v for k, v in s.env.items() if k[0] != fr['id']}
        return self.reduce(out)

    def scalar_type(self, t):
        t = t.replace('const ', '').strip()
        return t in ('bool', 'int', 'unsigned int', 'long', 'unsigned long', 'double', 'float', 'char', 'short') or t in self.p.enums

    def reduce(self, states):
        if self.deadline is not None and time.time() > self.deadline:
            raise AnalysisBroken('time bound exceeded analysing %s' % self.entry)
        if len(states) < 2:
            return states
        seen = {}
        for s in states:
            k = s.key()
            if self.fine:
                k = (k, frozenset(s.hist.items()))
            if k in seen:
                o = seen[k]
                if o.conds != s.conds:
                    o.conds = {c: v for c, v in o.conds.items() if c in s.conds and s.conds[c] == v}
                if o.hist != s.hist:
                    o.hist = {c: v for c, v in o.hist.items() if c in s.hist and s.hist[c] == v}
            else:
                seen[k] = s
        out = list(seen.values())
        if len(out) > self.maxpaths:
            raise AnalysisBroken('path bound exceeded (%d) in %s' % (self.maxpaths, sorted(self.analysed)[-1:]))
        return out

    def havoc_obj(self, st, obj, deep=True):
        """Forget facts about obj (its fields, results of calls on it)."""
        if obj is None:
            return
        self.freeze(st, obj)
        for k in [k for k in st.store if contains(k, obj)]:
            del st.store[k]
        for k in [k for k in st.conds if contains(k, obj)]:
            del st.conds[k]

    def freeze(self, st, obj):
        """A local that holds a decided condition about obj keeps its value when obj changes."""
        for k, v in st.env.items():
            if v and v[0] == 'op' and contains(v, obj):
                d = st.conds.get(v)
                if d is None and v[1] == '!' and len(v) == 3:
                    d = st.conds.get(v[2])
                    d = None if d is None else not d
                if isinstance(d, bool):
                    st.env[k] = ('lit', 'true' if d else 'false')

    def invalidate(self, st, loc):
        self.freeze(st, loc)
        for k in [k for k, v in st.store.items() if k != loc and (contains(k, loc) or v == loc or contains(v, loc))]:
            del st.store[k]
        for k in [k for k in st.conds if contains(k, loc)]:
            del st.conds[k]

    def do_call(self, n, fq, obj, args, st, fr):
        """n: call node. Returns [(term, st)]."""
        name = n.get('n') or fq.split('::')[-1]
        repo_ = n.get('repo')
        m = _NTTP.search(n.get('fid') or '')
        if m and '<' not in fq.rsplit('::', 1)[-1]:
            fq += m.group(1)   # integral template arguments distinguish callees
        elif repo_ and '<' in (n.get('fid') or ''):
            ta = [a.rsplit('::', 1)[-1] for a in tmplargs(n['fid']) if a in self.p.enumerators]
            if ta and '<' not in fq.rsplit('::', 1)[-1]:
                fq += '<%s>' % ', '.join(ta)   # so do enumerators
        key = fid_key(self.p, n, fr['file'])
        f = self.p.funcs.get(key) if key else None
        repo = n.get('repo')
        # virtual dispatch
        if n.get('virt') and not n.get('nonvirt'):
            if obj == ('this',) and self.dyn:
                g = self.p.resolve_virtual(n['fid'], self.dyn)
                f = g
            else:
                # devirtualise when no class overrides it
                ov = self.overriders(n['fid'])
                f = f if not ov else None
        if f is None and repo and not n.get('virt') and n.get('fid'):
            f = self.p.funcs.get(n['fid'])
        do_inline = f is not None and f.get('body') is not None and not f.get('ctor') and shortq(f['q']) not in self.opaque and f['fid'] not in fr['stack'] \
            and fr['depth'] < self.depth and (self.inline_pred is None or self.inline_pred(f, obj))
        e = Ev('call', fq, obj, tuple(args), op=n.get('op') or name, file=fr['file'], line=n.get('l'), node=n, fn=fr['fn']['fid'] if fr['fn'] else None, inl=do_inline, depth=fr['depth'])
        st = st.copy()
        if do_inline:
            st.emit(e)
            pure = self.pure(f)
            outs = self.call_body(f, obj if obj is not None else ('none',), self.passed(n.get('args', []), [p['t'] for p in f['params']], args, st, fr), st, fr['depth'] + 1, fr['stack'])
            if pure and len(outs) > self.pure_paths:
                # effect-free predicate with many routes: keep it as one opaque term
                s = st
                e.inl = False
                term = ('call', fq, obj, tuple(args))
                self.types.setdefault(term, n.get('t', ''))
                return [(term, s)]
            if pure:
                for s in outs:
                    if not s.exit:
                        s.ev = st.ev + tuple(x for x in s.ev[len(st.ev):] if not (self.lean and x.kind in ('call', 'lwrite', 'new')))
            res = []
            for s in outs:
                if s.exit:
                    res.append((None, s))
                else:
                    r = s.ret if s.ret is not None else ('void',)
                    s.ret = None
                    res.append((r, s))
            return res
        term = ('call', fq, obj, tuple(args))
        if n.get('t'):
            self.types.setdefault(term, n['t'])
        st.emit(e)
        self.call_effects(st, n, key, obj, name)
        for i, (a, pt) in enumerate(zip(self.passed(n.get('args', []), n.get('pt', []), args, st, fr), n.get('pt', []))):
            if a[0] == 'aliasof':
                if name in ('swap', 'exchange') or fq.startswith('tvm') and (f is None or not f.get('body') or i >= len(f['params']) or f['params'][i]['d'] in self.assigned(f['body'], set())):
                    st.env[a[1]] = ('unk', self.fresh())
                continue
            if pt.endswith('&') and not pt.startswith('const ') and '&&' not in pt:
                self.havoc_obj(st, a)
                for k, v in list(st.env.items()):
                    if v == a and a[0] not in ('obj', 'param', 'fld', 'this', 'elem'):
                        st.env[k] = ('unk', self.fresh())
        if n.get('noreturn'):
            if name == '__assert_fail':
                return []
            st.exit = 'throw'
            return [(None, st)]
        return [(term, st)]

    def call_effects(self, st, n, key, obj, name):
        """Forget the facts an opaque call may change."""
        if n.get('repo') and n.get('fid'):
            self.havoc_mods(st, key or n['fid'])
            if obj is not None and not n.get('const') and not n.get('static'):
                for kk in [kk for kk in st.conds if self._call_on(kk, obj)]:
                    del st.conds[kk]
        elif obj is not None and not n.get('const') and not (name in READ_ACCESSORS) and not n.get('static'):
            self.havoc_obj(st, obj)

    @staticmethod
    def _call_on(t, obj):
        return any(x and x[0] == 'call' and x[2] == obj and obj != ('this',) for x in sub_terms(t))

    _ov = None

    def pure(self, f):
        m = self.p.__dict__.setdefault('_pure', {})
        fid = f['fid']
        if fid in m:
            return m[fid]
        m[fid] = True   # optimistic on recursion
        m[fid] = r = self._pure_node(f.get('body'), f)
        return r

    def _root_local(self, n):
        while isinstance(n, dict):
            k = n.get('k')
            if k == 'ref':
                return n.get('dk') in ('var', 'param', 'bind') and not n.get('t', '').endswith(('&', '*')) and not n.get('staticlocal') and not n.get('t', '').startswith(SMART)
            if k == 'mem':
                if n.get('arrow'):
                    return False
                n = n['b']
            elif k in ('sub',):
                n = n['b']
            elif k == 'cast':
                n = n['e']
            elif k == 'call' and 'obj' in n and n.get('n') in READ_ACCESSORS:
                n = n['obj']
            else:
                return False
        return False

    def _pure_node(self, n, f):
        if isinstance(n, list):
            return all(self._pure_node(x, f) for x in n if isinstance(x, (dict, list)))
        if not isinstance(n, dict):
            return True
        k = n.get('k')
        if k in ('throw', 'delete', 'new'):
            return False
        if k == 'asg' and not self._root_local(n['a']):
            return False
        if k == 'un' and n.get('op') in ('++', '--') and not self._root_local(n['e']):
            return False
        if k == 'call':
            name = n.get('n', '')
            if n.get('noreturn'):
                return False
            if n.get('repo'):
                if n.get('virt'):
                    if not n.get('const'):
                        return False
                else:
                    g = self.p.funcs.get(fid_key(self.p, n, f['file']) or '')
                    if g is None:
                        if not n.get('const'):
                            return False
                    elif not self.pure(g):
                        return False
            elif 'obj' in n and not n.get('const') and name not in READ_ACCESSORS and not n.get('lambda'):
                if not self._root_local(n['obj']):
                    return False
            elif name in ('make_shared', 'make_unique'):
                return False
        return all(self._pure_node(v, f) for kk, v in n.items() if isinstance(v, (dict, list)))

    # names of fields a repo function may write, transitively (None: unknown -> everything)
    def mods(self, fid):
        m = self.p.__dict__.setdefault('_mods', {})
        if fid in m:
            return m[fid]
        # fixpoint over the reachable call graph
        direct, calls = {}, {}
        todo, seen = [fid], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            f = self.p.funcs.get(x)
            d, c = set(), set()
            if f is not None:
                self._mods_node(f.get('body'), d, c, f)
                for i in f.get('inits', []):
                    self._mods_node(i.get('e'), d, c, f)
            for o in self.overriders(x):
                c.add(o)
            direct[x], calls[x] = d, c
            todo += [y for y in c if y not in seen]
        out = set()
        for x in seen:
            out |= direct[x]
        m[fid] = out
        return out

    def _mods_node(self, n, d, c, f):
        if isinstance(n, list):
            for x in n:
                self._mods_node(x, d, c, f)
            return
        if not isinstance(n, dict):
            return
        k = n.get('k')
        tgt = None
        if k == 'asg':
            tgt = n['a']
        elif k == 'un' and n.get('op') in ('++', '--'):
            tgt = n['e']
        elif k == 'call':
            if n.get('repo'):
                key = fid_key(self.p, n, f['file']) or n.get('fid')
                c.add(key)
                if 'obj' in n and not n.get('const'):
                    pass
            elif 'obj' in n and not n.get('const') and n.get('n') not in READ_ACCESSORS:
                tgt = n['obj']
            for a, pt in zip(n.get('args', []), n.get('pt', [])):
                if pt.endswith('&') and not pt.startswith('const ') and not pt.endswith('&&') and not n.get('repo'):
                    self._mods_target(a, d)
        elif k == 'ctor' and n.get('repo'):
            key = fid_key(self.p, n, f['file']) or n.get('fid')
            c.add(key)
        if tgt is not None:
            self._mods_target(tgt, d)
        for v in n.values():
            if isinstance(v, (dict, list)):
                self._mods_node(v, d, c, f)

    def _mods_target(self, t, d):
        while isinstance(t, dict):
            k = t.get('k')
            if k == 'mem':
                d.add(t['n']); return
            if k == 'ref':
                if t.get('dk') == 'global':
                    d.add(t['q'])
                return
            if k in ('sub',):
                t = t['b']
            elif k == 'cast':
                t = t['e']
            elif k == 'un':
                t = t['e']
            elif k == 'call' and 'obj' in t:
                if t.get('repo'):
                    d.add('*' + t.get('n', ''))
                    # a reference returned by a repo method: unknown field of that class
                    g = self.p.funcs.get(t.get('fid'))
                    if g:
                        for x in _ret_fields(g.get('body')):
                            d.add(x)
                    return
                t = t['obj']
            elif k == 'call' and t.get('args'):
                t = t['args'][0]
            else:
                return

    def havoc_mods(self, st, fid):
        ms = self.mods(fid)
        if not ms:
            return
        dead = self.p.__dict__.setdefault('_mention', {})

        def mentions(t):
            r = dead.get(t)
            if r is None:
                r = dead[t] = frozenset(x[2] for x in sub_terms(t) if x and x[0] == 'fld') | frozenset(x[1] for x in sub_terms(t) if x and x[0] == 'global')
            return r
        for k in [k for k in st.store if mentions(k) & ms]:
            del st.store[k]
        for k in [k for k in st.conds if mentions(k) & ms]:
            del st.conds[k]
        # results of calls on objects of mutated state
        return

    def overriders(self, fid):
        if Engine._ov is None or Engine._ov[0] is not self.p:
            d = {}
            for r in self.p.records.values():
                for m in r['methods']:
                    for o in m.get('over', []):
                        d.setdefault(o, []).append(m['fid'])
            Engine._ov = (self.p, d)
        return Engine._ov[1].get(fid, [])

    # ------------------------------------------------------------ expressions
    def evlist(self, es, st, fr, pt=()):
        res = [((), st)]
        for i, e in enumerate(es):
            lv = i < len(pt) and pt[i].endswith('&') and not pt[i].endswith('&&') and not pt[i].startswith('const ')
            nxt = []
            for ts, s in res:
                if s.exit:
                    nxt.append((ts, s)); continue
                for t, s2 in self.ev(e, s, fr, lv=lv):
                    nxt.append((ts + (t,), s2))
            res = nxt
        return res

    def ptypes(self, n):
        return n.get('pt') or ()

    def load(self, st, loc):
        return st.store.get(loc, loc)

    def ev(self, n, st, fr, lv=False):
        """Evaluate expression; returns [(term, state)]."""
        if n is None:
            return [(('none',), st)]
        k = n['k']
        if k == 'lit':
            v = n.get('v')
            return [(('lit', v), st)]
        if k == 'this':
            return [(fr['this'], st)]
        if k == 'ref':
            dk = n['dk']
            if dk in ('param', 'var', 'bind'):
                t = st.env.get((fr['id'], n['d']))
                if t is not None and t[0] == 'aliasof':
                    return [(st.env.get(t[1], ('var', t[2], t[1][1])), st)]
                if t is None:
                    t = st.env.get(('cap', n['d']), None)
                if t is None:
                    t = ('var', n['n'], n.get('d'))
                if lv or dk != 'bind' and not n.get('isref') and self.scalar_type(n.get('t', '')):
                    return [(t, st)]  # the value a number had when the variable was given it
                return [(self.load(st, t), st)]
            if dk == 'enum':
                return [(('enum', n['q']), st)]
            if dk == 'func':
                return [(('fun', n['q'], n.get('fid')), st)]
            if dk == 'field':
                return [(('fun', n['q']), st)]
            m = _BOOLCST.match(n['q'])
            t = ('lit', m.group(1)) if m else ('global', n['q'])
            self.types[t] = n['t']
            return [(self.load(st, t) if not lv else t, st)]
        if k == 'mem':
            out = []
            for b, s in self.ev(n['b'], st, fr):
                if s.exit:
                    out.append((None, s)); continue
                t = ('fld', b, n['n'])
                if isinstance(b, tuple) and b and b[0] == 'init' and n.get('dk') == 'field':
                    pass
                self.types.setdefault(t, n.get('t', ''))
                out.append((t if lv else self.load(s, t), s))
            return out
        if k == 'call':
            return self.ev_call(n, st, fr, lv)
        if k == 'ctor':
            out = []
            T = n['t']
            for ts, s in self.evlist(n.get('args', []), st, fr):
                if s.exit:
                    out.append((None, s)); continue
                if n.get('copy') or n.get('move'):
                    out.append((ts[0] if ts else ('none',), s)); continue
                if len(ts) == 1 and T.replace('const ', '').startswith(ALIAS_TYPES) and not n.get('repo'):
                    out.append((ts[0], s)); continue
                if len(ts) == 2 and T.replace('const ', '').startswith('std::shared_ptr<') and not isdeleter(n['args'][1]):
                    # aliasing constructor: points to the second argument, keeps the first one alive
                    out.append((('alias', ts[0], ts[1]) if self.alias else ts[1], s)); continue
                if len(ts) >= 1 and T.replace('const ', '').startswith(SMART):
                    out.append((ts[0], s)); continue
                if not ts and T.replace('const ', '').startswith(SMART):
                    out.append((('lit', 'nullptr'), s)); continue
                t = ('ctor', T, ts)
                self.types[t] = T
                s = s.copy()
                s.emit(Ev('new', t, None, ts, op='ctor', file=fr['file'], line=n.get('l'), node=n, fn=fr['fn']['fid'] if fr['fn'] else None, depth=fr['depth']))
                if n.get('repo') and self.ctor_inline:
                    key = fid_key(self.p, n, fr['file'])
                    f = self.p.funcs.get(key)
                    if f and fr['depth'] < self.depth and f['fid'] not in fr['stack'] and (self.inline_pred is None or self.inline_pred(f, t)):
                        for s3 in self.call_body(f, t, list(ts), s, fr['depth'] + 1, fr['stack']):
                            out.append((t, s3) if not s3.exit else (None, s3))
                        continue
                out.append((t, s))
            return out
        if k == 'new':
            out = []
            ini = n.get('init')
            es = (ini.get('args', []) if isinstance(ini, dict) and ini.get('k') in ('ctor', 'init') else [ini] if ini else [])
            if n.get('size'):
                es = [n['size']]
            for ts, s in self.evlist(es, st, fr):
                if s.exit:
                    out.append((None, s)); continue
                pl = n.get('place')
                while isinstance(pl, dict) and (pl.get('k') == 'cast' or pl.get('k') == 'un' and pl.get('op') == '&'):
                    pl = pl['e']
                if isinstance(pl, dict) and pl.get('k') in ('mem', 'ref', 'idx'):
                    # construction in place: a write of that location
                    for l, s2 in self.ev(pl, s, fr, lv=True):
                        out.append((l, self.write(n, pl, l, ts[0] if len(ts) == 1 else ('ctor', n['t'], ts), '=', s2, fr) if not s2.exit else s2))
                    continue
                t = ('new', n['t'] + ('[]' if n.get('size') else ''), ts, self.fresh())
                self.types[t] = n['t']
                s = s.copy()
                s.emit(Ev('new', t, None, ts, op='new', file=fr['file'], line=n.get('l'), node=n, fn=fr['fn']['fid'] if fr['fn'] else None, depth=fr['depth']))
                out.append((t, s))
            return out
        if k == 'delete':
            out = []
            for t, s in self.ev(n['e'], st, fr):
                if not s.exit:
                    s = s.copy()
                    s.emit(Ev('delete', t, file=fr['file'], line=n.get('l'), node=n))
                out.append((('void',), s))
            return out
        if k == 'throw':
            out = []
            e = n.get('e')
            for t, s in (self.ev(e, st, fr) if e else [(('none',), st)]):
                s = s.copy()
                s.emit(Ev('throw', n.get('t', ''), t, file=fr['file'], line=n.get('l'), node=n, fn=fr['fn']['fid'] if fr['fn'] else None, depth=fr['depth']))
                s.exit = 'throw'
                out.append((None, s))
            return out
        if k == 'lambda':
            t = ('lambda', self.fresh())
            fr2 = dict(fr)
            fr2['env'] = st.env
            self.closures[t] = (n, fr2)
            s = st
            for c in n.get('caps', []):
                if 'init' in c:
                    r = self.ev(c['init'], s, fr)
                    tt, s = r[0]
                    s = s.copy()
                    s.env[(fr['id'], c['d'])] = tt
            fr2['env'] = dict(s.env)
            return [(t, s)]
        if k == 'init':
            out = []
            for ts, s in self.evlist(n.get('args', []), st, fr):
                if s.exit:
                    out.append((None, s)); continue
                if len(ts) == 1 and (self.scalar_type(n['t']) or n['t'].endswith('*')):
                    out.append((ts[0], s))
                else:
                    t = ('init', n['t'], ts)
                    out.append((t, s))
            return out
        if k == 'cond':
            out = []
            for b, s in self.cond(n['c'], st, fr):
                if s.exit:
                    out.append((None, s)); continue
                out += self.ev(n['a'] if b else n['b'], s, fr, lv)
            return out
        if k == 'asg':
            r = self.ev_assign(n, st, fr)
            return r if lv else [(self.load(s, t) if t is not None and not s.exit else t, s) for t, s in r]
        if k == 'bin':
            op = n['op']
            if op in ('&&', '||'):
                return [(('lit', 'true' if b else 'false'), s) if not s.exit else (None, s) for b, s in self.cond(n, st, fr)]
            if op == ',':
                out = []
                for _, s in self.ev(n['a'], st, fr):
                    if s.exit:
                        out.append((None, s))
                    else:
                        out += self.ev(n['b'], s, fr)
                return out
            out = []
            for (a, b), s in ((ts, s) if not s.exit else ((None, None), s) for ts, s in self.evlist([n['a'], n['b']], st, fr)):
                if s.exit:
                    out.append((None, s)); continue
                if op in ('->*', '.*'):
                    out.append((('fld', a, show(b)), s)); continue
                out.append((self.mkop(op, a, b), s))
            return out
        if k == 'un':
            op = n['op']
            if op in ('*', '&'):
                return self.ev(n['e'], st, fr, lv)
            if op in ('++', '--'):
                out = []
                for t, s in self.ev(n['e'], st, fr, lv=True):
                    if s.exit:
                        out.append((None, s)); continue
                    old = self.load(s, t)
                    out.append(((old if n.get('post') else t), self.write(n, n['e'], t, self.mkop('+' if op == '++' else '-', old, ('lit', '1')), op, s, fr)))
                return out
            if op == '!':
                out = []
                for t, s in self.ev(n['e'], st, fr):
                    out.append((self.mknot(t), s) if not s.exit else (None, s))
                return out
            out = []
            for t, s in self.ev(n['e'], st, fr):
                out.append((('op', op, t), s) if not s.exit else (None, s))
            return out
        if k == 'sub':
            out = []
            for ts, s in self.evlist([n['b'], n['i']], st, fr):
                if s.exit:
                    out.append((None, s)); continue
                t = self.mkindex(ts[0], ts[1])
                self.types.setdefault(t, n.get('t', ''))
                out.append((t if lv else self.load(s, t), s))
            return out
        if k == 'cast':
            out = []
            for t, s in self.ev(n['e'], st, fr, lv):
                if not s.exit and n.get('ck') == 'CXXFunctionalCastExpr' and n['t'] not in ('void',) and False:
                    pass
                out.append((t, s))
            return out
        if k in ('sizeof', 'typeid', 'pseudodtor'):
            return [(('lit', n.get('cv', k)), st)]
        if k == 'stmtexpr':
            out = []
            for s in self.stmt(n['body'], st, fr):
                out.append((('unk', self.fresh()), s))
            return out
        if k == 'unk':
            if n.get('cls') in ('CXXFoldExpr',):
                pass
            s = st
            return [(('unk', self.fresh()), s)]
        raise AnalysisBroken('unhandled expression kind %s' % k)

    def mkop(self, op, a, b):
        if op in ('==', '!='):
            if a[0] in ('lit', 'enum') and b[0] not in ('lit', 'enum'):
                a, b = b, a
            if op == '!=':
                return self.mknot(self.mkop('==', a, b))
            if a[0] in ('lit', 'enum') and b[0] == a[0]:
                return ('lit', 'true' if a == b else 'false')
            if b == ('lit', 'nullptr'):
                return self.mknot(a)
            if b == ('lit', 'true'):
                return a
            if b == ('lit', 'false'):
                return self.mknot(a)
            if b[0] not in ('lit', 'enum') and show(a) > show(b):
                a, b = b, a
            return ('op', '==', a, b)
        if op == '>':
            return self.mkop('<', b, a)
        if op == '>=':
            return self.mknot(self.mkop('<', a, b))
        if op == '<=':
            return self.mknot(self.mkop('<', b, a))
        if op in ('+', '*') and a[0] == 'lit' and b[0] != 'lit':
            a, b = b, a
        if a[0] == 'lit' and b[0] == 'lit' and op in ('+', '-', '*'):
            try:
                x, y = int(a[1]), int(b[1])
                return ('lit', str({'+': x + y, '-': x - y, '*': x * y}[op]))
            except (ValueError, TypeError):
                pass
        return ('op', op, a, b)

    def mknot(self, t):
        if t == ('lit', 'true'):
            return ('lit', 'false')
        if t == ('lit', 'false'):
            return ('lit', 'true')
        if t[0] == 'op' and t[1] == '!':
            return t[2]
        return ('op', '!', t)

    def mkindex(self, b, i):
        if isinstance(i, tuple) and i[0] == 'idx':
            # index loop over the whole of b?
            if i[2] == ('lit', '0') and i[3] is not None and i[3] == ('call', i[3][1], b, ()) and i[3][1].split('::')[-1] in ('size', 'rows', 'cols'):
                return ('elem', b, i[1])
        return ('index', b, i)

    def ev_call(self, n, st, fr, lv):
        name = n.get('n', '')
        fq = shortq(n.get('f', name))
        # pointer to member call  (x.*pm)(args)
        if name == '->*':
            out = []
            es = [n['fn']] + n.get('args', [])
            for ts, s in self.evlist(es, st, fr):
                if s.exit:
                    out.append((None, s)); continue
                s = s.copy()
                t = ('call', '->*', ts[0], tuple(ts[1:]))
                s.emit(Ev('call', '->*', ts[0], tuple(ts[1:]), op='->*', file=fr['file'], line=n.get('l'), node=n, fn=fr['fn']['fid'] if fr['fn'] else None, depth=fr['depth']))
                out.append((t, s))
            return out
        if 'fn' in n:  # call through function pointer value
            out = []
            for ts, s in self.evlist([n['fn']] + n.get('args', []), st, fr):
                if s.exit:
                    out.append((None, s)); continue
                if ts[0][0] == 'fun' and len(ts[0]) > 2 and ts[0][2] in self.p.funcs:
                    g = self.p.funcs[ts[0][2]]
                    out += self.do_call({'k': 'call', 'n': g['n'], 'f': g['q'], 'fid': g['fid'], 'l': n.get('l'), 'repo': True, 'pt': [], 't': n.get('t')}, g['q'], None, list(ts[1:]), s, fr)
                    continue
                s = s.copy()
                s.emit(Ev('call', 'ptrcall', ts[0], tuple(ts[1:]), op='()', file=fr['file'], line=n.get('l'), node=n, fn=fr['fn']['fid'] if fr['fn'] else None, depth=fr['depth']))
                out.append((('call', 'ptrcall', ts[0], tuple(ts[1:])), s))
            return out
        out = []
        has_obj = 'obj' in n
        es = ([n['obj']] if has_obj else []) + n.get('args', [])
        # lvalue-evaluate object
        res = []
        if has_obj:
            for o, s in self.ev(n['obj'], st, fr, lv=True):
                if s.exit:
                    res.append((None, (), s)); continue
                o = self.load(s, o) if n.get('op') in ('->', '*') else o
                for ts, s2 in self.evlist(n.get('args', []), s, fr, self.ptypes(n)):
                    res.append((o, ts, s2))
        else:
            for ts, s2 in self.evlist(n.get('args', []), st, fr, self.ptypes(n)):
                res.append((None, ts, s2))
        std = not n.get('repo')
        for o, ts, s in res:
            if s.exit:
                out.append((None, s)); continue
            # closures
            if has_obj and o is not None and o[0] == 'lambda' and name == 'operator()':
                node, frame = self.closures[o]
                fr2 = dict(frame); fr2['depth'] = fr['depth'] + 1
                if fr2['depth'] > self.depth + 2:
                    out.append((('unk', self.fresh()), s)); continue
                s = s.copy()
                for kk, vv in frame['env'].items():
                    s.env.setdefault(kk, vv)
                for s2 in self.exec_lambda(node, fr2, self.passed(n.get('args', []), [q['t'] for q in self.lambda_params(node)], ts, s, fr), s):
                    if s2.exit:
                        out.append((None, s2))
                    else:
                        r = s2.ret if s2.ret is not None else ('void',)
                        s2.ret = None
                        out.append((r, s2))
                continue
            if std:
                if name in PASS_FUNCS and not has_obj and len(ts) >= 1 and name != 'get':
                    out.append((ts[-1] if False else ts[0], s)); continue
                if name in ('operator->', 'operator*') and len(ts) == 0 and has_obj:
                    out.append((o, s)); continue
                if self.alias and has_obj and len(ts) == 0 and name in ('shared_from_this', 'weak_from_this'):
                    out.append((('own', o), s)); continue
                if name in PTR_METHODS and has_obj and len(ts) == 0 and n.get('objt', '').replace('const ', '').startswith(SMART + ('std::enable_shared', 'std::__shared_ptr', 'tvm')):
                    out.append((o, s)); continue
                if name == 'operator bool' and has_obj:
                    out.append((o, s)); continue
                if name.startswith('operator ') and has_obj and len(ts) == 0 and n.get('objt', '').replace('const ', '').startswith(SMART):
                    out.append((o, s)); continue
                if name in ('operator==', 'operator!=') and len(ts) + (1 if has_obj else 0) == 2:
                    a, b = ((o,) + tuple(ts)) if has_obj else ts
                    t = self.mkop(name[8:], a, b)
                    out.append((t, s)); continue
                if name == 'operator[]' and has_obj and len(ts) == 1 or (name == 'at' and has_obj and len(ts) == 1):
                    t = self.mkindex(o, ts[0])
                    self.types.setdefault(t, n.get('t', ''))
                    s = s.copy()
                    s.emit(Ev('call', fq, o, tuple(ts), op=name, file=fr['file'], line=n.get('l'), node=n, fn=fr['fn']['fid'] if fr['fn'] else None, depth=fr['depth']))
                    out.append((t if lv else self.load(s, t), s)); continue
                if name in ('make_shared', 'make_unique', 'allocate_shared'):
                    T = n.get('t', '')
                    T2 = T[T.find('<') + 1: -1] if '<' in T else T
                    t = ('new', T2, tuple(ts), self.fresh())
                    self.types[t] = T2
                    s = s.copy()
                    s.emit(Ev('new', t, None, tuple(ts), op=name, file=fr['file'], line=n.get('l'), node=n, fn=fr['fn']['fid'] if fr['fn'] else None, depth=fr['depth']))
                    out.append((t, s)); continue
                if name == 'operator=' and has_obj and len(ts) == 1:
                    s2 = self.write(n, n['obj'], o, ts[0], '=', s, fr)
                    out.append((o, s2)); continue
                if name in ('operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator|=', 'operator&=') and has_obj and len(ts) == 1:
                    s2 = self.write(n, n['obj'], o, ts[0], name[8:], s, fr)
                    out.append((o, s2)); continue
                if name in ('operator++', 'operator--') and has_obj:
                    s2 = self.write(n, n['obj'], o, self.mkop('+', o, ('lit', '1')), name[8:], s, fr)
                    out.append((o, s2)); continue
                if name in LOOP_ALGOS and not has_obj and any(t is not None and t[0] == 'lambda' for t in ts):
                    out += self.algo_loop(n, name, fq, ts, s, fr)
                    continue
            if not std and name == 'operator[]' and has_obj and len(ts) == 1 and ts[0][0] == 'idx' and ts[0][2] == ('lit', '0') and ts[0][3] is not None \
                    and ts[0][3][0] == 'call' and not ts[0][3][3] and shortq(ts[0][3][1]).split('::')[-1] in ('size', 'numberOfVariables') \
                    and (ts[0][3][2] == o or ts[0][3][2] is not None and ts[0][3][2][0] == 'fld' and ts[0][3][2][1] == o):
                out.append((('elem', o, ts[0][1]), s)); continue   # index loop over the whole container
            for t, s2 in self.do_call(n, fq, o, list(ts), s, fr):
                if not s2.exit and lv is False and t is not None:
                    t = self.load(s2, t)
                out.append((t, s2))
        return out

    def algo_loop(self, n, name, fq, ts, st, fr):
        lam = [t for t in ts if t[0] == 'lambda'][-1]
        rng = self.range_of(ts[0])
        if len(ts) > 2 and ts[1][0] != 'lambda' and (rng == ts[0] or self.range_of(ts[1]) != (rng[1] if rng[0] == 'reversed' else rng)):
            if not (ts[0][0] == 'call' and ts[0][1].split('::')[-1] in ('begin', 'cbegin', 'rbegin', 'crbegin') and ts[1][0] == 'call' and ts[1][1].split('::')[-1] in ('end', 'cend', 'rend', 'crend')):
                rng = ('range', ts[0], ts[1])
        node, frame = self.closures[lam]
        lid = self.fresh()
        elem = ('elem', rng, lid)
        base = st.copy()
        b0 = base.copy(); b0.ev = ()
        for kk, vv in frame['env'].items():
            b0.env.setdefault(kk, vv)
        fr2 = dict(frame); fr2['depth'] = fr['depth'] + 1
        self.afn = fr2['fn']['fid'] if fr2.get('fn') else None
        asg = self.resolved(self.assigned(node.get('body'), set()), b0, fr2)
        for key in asg:
            cur = b0.env.get(key)
            if cur is not None and cur[0] != 'obj':
                b0.env[key] = ('loopvar', key[1], lid, cur)
        nargs = len(self.lambda_params(node))
        args = [elem] if nargs == 1 else [('unk', lid), elem] if name == 'accumulate' else [elem] + [('elem', rng, self.fresh()) for _ in range(nargs - 1)]
        outs = self.exec_lambda(node, fr2, args, b0)
        if name == 'transform' and len(ts) == 4 and ts[2][0] == 'call' and ts[2][1].split('::')[-1] == 'back_inserter':
            for o in outs:   # appends what the closure gives
                if o.exit != 'throw' and o.ret is not None:
                    o.emit(Ev('call', 'std::vector::push_back', ts[2][3][0], (o.ret,), op='push_back', file=fr['file'], line=n.get('l'), node={}, depth=fr['depth']))
        bodies = tuple(s.ev for s in outs if s.exit != 'throw')
        res = []
        post = base.copy()
        for p in bodies:
            for e in flat(p):
                if e.kind == 'write':
                    self.invalidate(post, e.a)
        for key in asg:
            cur = post.env.get(key)
            if cur is not None and cur[0] != 'obj':
                post.env[key] = ('loopvar', key[1], lid, cur)
        lev = Ev('loop', lid, rng, bodies, op=name, file=fr['file'], line=n.get('l'), node=n, depth=fr['depth'])
        lev.bh = [{c: v for c, v in s.hist.items() if base.hist.get(c) != v} for s in outs if s.exit != 'throw']
        lev.bx = [None] * len(bodies)
        post.emit(lev)
        rets = tuple(sorted({s.ret for s in outs if s.exit != 'throw' and s.ret is not None and s.ret != ('void',)}, key=str))
        if len(rets) > 1 and set(rets) & {('lit', 'true'), ('lit', 'false')}:
            # a predicate with branches: one boolean formula
            alts = []
            for s in outs:
                if s.exit == 'throw' or s.ret is None or s.ret == ('lit', 'false'):
                    continue
                cs = [c if v is True else ('op', '!', c) for c, v in s.hist.items() if base.hist.get(c) != v and isinstance(v, bool)]
                if s.ret != ('lit', 'true'):
                    cs.append(s.ret)
                cs = [c for c in cs if not (c[0] == 'op' and c[1] == '!' and c[2] in alts)]   # a || !a && b  is  a || b
                t = cs[0] if cs else ('lit', 'true')
                for c in cs[1:]:
                    t = ('op', '&&', t, c)
                if t not in alts:
                    alts.append(t)
            if alts:
                t = alts[0]
                for x in alts[1:]:
                    t = ('op', '||', t, x)
                rets = (t,)
        res.append((('call', fq, rng, tuple(t for t in ts if t[0] != 'lambda') + (rets if len(rets) <= 4 else ())), post))
        for s in outs:
            if s.exit == 'throw':
                s2 = s.copy(); s2.ev = base.ev + s.ev
                res.append((None, s2))
        return res

    def range_of(self, t):
        if t[0] == 'call' and t[1].split('::')[-1] in ('begin', 'cbegin', 'rbegin', 'crbegin', 'end', 'cend'):
            r = t[2] if t[2] is not None else (t[3][0] if t[3] else t)
            return ('reversed', r) if t[1].split('::')[-1] in ('rbegin', 'crbegin') else r
        return t

    def is_local(self, t):
        return False

    def write(self, n, lhsnode, lhs, rhs, op, st, fr):
        st = st.copy()
        # local scalar variable?
        ln = lhsnode
        while isinstance(ln, dict) and ln.get('k') in ('cast',):
            ln = ln['e']
        if isinstance(ln, dict) and ln.get('k') == 'ref' and ln.get('dk') in ('var', 'param', 'bind'):
            key = (fr['id'], ln['d'])
            cur = st.env.get(key)
            if cur is not None and cur[0] == 'aliasof':
                key, ln = cur[1], {'n': cur[2], 'd': cur[1][1], 't': ''}
                cur = st.env.get(key)
            isref = ln.get('isref') or ln.get('t', '').endswith('&') or ln.get('dk') == 'bind' and cur is not None and cur[0] == 'fld'
            if cur is not None and not (isref and cur[0] in ('fld', 'index', 'elem', 'global', 'param', 'obj', 'call', 'this')):
                e = Ev('lwrite', ('var', ln['n'], ln['d']), rhs, op=op, file=fr['file'], line=n.get('l'), node=n, fn=fr['fn']['fid'] if fr['fn'] else None, depth=fr['depth'])
                if cur[0] == 'obj':
                    e.a = cur
                    st.emit(e)
                    self.invalidate(st, cur)
                    return st
                st.emit(e)
                if op in ('=', 'init'):
                    st.env[key] = rhs
                elif op in ('++', '--'):
                    st.env[key] = rhs
                else:
                    st.env[key] = self.mkop(op.rstrip('='), cur, rhs)
                return st
        val = rhs
        if op not in ('=', 'init', '++', '--'):
            val = self.mkop(op.rstrip('='), self.load(st, lhs), rhs)
        e = Ev('write', lhs, rhs, op=op, file=fr['file'], line=n.get('l'), node=n, fn=fr['fn']['fid'] if fr['fn'] else None, depth=fr['depth'])
        # writes through a pointer/smart pointer dereference are content writes
        if isinstance(ln, dict) and ((ln.get('k') == 'un' and ln.get('op') == '*') or (ln.get('k') == 'call' and ln.get('op') == '*')):
            e.c = 'deref'
        st.emit(e)
        self.invalidate(st, lhs)
        t = self.types.get(lhs, '')
        if self.scalar_type(t.replace('&', '').strip()):
            st.store[lhs] = val
        elif lhs in st.store:
            del st.store[lhs]
        return st

    def ev_assign(self, n, st, fr):
        out = []
        for r, s in self.ev(n['b'], st, fr):
            if s.exit:
                out.append((None, s)); continue
            for l, s2 in self.ev(n['a'], s, fr, lv=True):
                if s2.exit:
                    out.append((None, s2)); continue
                out.append((l, self.write(n, n['a'], l, r, n['op'], s2, fr)))
        return out

    # ------------------------------------------------------------ conditions
    def cond(self, n, st, fr):
        """Returns [(bool, state)]"""
        k = n['k'] if n else None
        if n is None:
            return [(True, st)]
        if k == 'bin' and n['op'] in ('&&', '||'):
            out = []
            for b, s in self.cond(n['a'], st, fr):
                if s.exit:
                    out.append((b, s)); continue
                if n['op'] == '&&' and not b or n['op'] == '||' and b:
                    out.append((b, s))
                else:
                    out += self.cond(n['b'], s, fr)
            return out
        if k == 'un' and n['op'] == '!':
            return [(not b, s) if not s.exit else (b, s) for b, s in self.cond(n['e'], st, fr)]
        if k == 'cond':
            out = []
            for b, s in self.cond(n['c'], st, fr):
                if s.exit:
                    out.append((b, s)); continue
                out += self.cond(n['a'] if b else n['b'], s, fr)
            return out
        if k == 'cast' and n.get('ck') == 'CXXDynamicCastExpr':
            out = []
            for t, s in self.ev(n['e'], st, fr):
                if s.exit:
                    out.append((True, s)); continue
                out += self.assume(('isa', n['t'], t), s)
            return out
        if n.get('cv') is not None:
            return [(n['cv'] not in ('0',), st)]
        out = []
        for t, s in self.ev(n, st, fr):
            if s.exit:
                out.append((True, s)); continue
            out += self.assume(t, s)
        return out

    def assume(self, t, s):
        v = self.decide(t, s)
        if v is not None:
            return [(v, s)]
        a, b = s.copy(), s.copy()
        self.record(t, True, a)
        self.record(t, False, b)
        return [(True, a), (False, b)]

    def decide(self, t, s):
        if t[0] == 'lit':
            return t[1] not in ('false', '0', 'nullptr')
        if t[0] == 'op' and t[1] == '!' and len(t) == 3:
            r = self.decide(t[2], s)
            return None if r is None else not r
        if t[0] in ('new', 'lambda', 'this', 'ctor'):
            return True
        if t in s.conds and isinstance(s.conds[t], bool):
            return s.conds[t]
        if t[0] == 'op' and t[1] == '==':
            if t[2] == t[3]:
                return True
            x, c = t[2], t[3]
            if c[0] not in ('enum', 'lit'):
                q, r = s.conds.get(('eq', x)), s.conds.get(('eq', c))
                if q is not None and r is not None:
                    return q == r
                if q is not None and q in s.conds.get(('ne', c), ()) or r is not None and r in s.conds.get(('ne', x), ()):
                    return False
            else:
                q = s.conds.get(('eq', x))
                if q is not None:
                    return q == c
                ne = s.conds.get(('ne', x), ())
                if c in ne:
                    return False
                if c[0] == 'enum':
                    et = c[1].rsplit('::', 1)[0]
                    en = self.p.enums.get(et)
                    if en:
                        left = [v['n'] for v in en['vals'] if ('enum', et + '::' + v['n']) not in ne]
                        if left == [c[1].rsplit('::', 1)[1]]:
                            return True
        return None

    def record(self, t, v, s):
        if t[0] == 'op' and t[1] == '!' and len(t) == 3:
            return self.record(t[2], not v, s)
        if t[0] == 'op' and t[1] == '==' and t[3][0] in ('enum', 'lit'):
            x, c = t[2], t[3]
            s.decided(t, v)
            if v:
                s.conds[('eq', x)] = c
                for k in list(s.conds):
                    if k and k[0] == 'op' and k[1] == '==' and len(k) == 4 and s.conds[k] is True and x in (k[2], k[3]):
                        o = k[3] if k[2] == x else k[2]
                        s.conds.setdefault(('eq', o), c)
            else:
                ne = tuple(sorted(set(s.conds.get(('ne', x), ())) | {c}))
                s.conds[('ne', x)] = ne
                if c[0] == 'enum':
                    et = c[1].rsplit('::', 1)[0]
                    en = self.p.enums.get(et)
                    if en:
                        left = [('enum', et + '::' + w['n']) for w in en['vals'] if ('enum', et + '::' + w['n']) not in ne]
                        if len(left) == 1:
                            s.conds[('eq', x)] = left[0]
            return
        s.conds[t] = v
        s.decided(t, v)
        if v and t[0] == 'op' and t[1] == '==':
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if ('eq', a) in s.conds:
                    s.conds[('eq', b)] = s.conds[('eq', a)]
                elif ('ne', a) in s.conds and ('ne', b) not in s.conds:
                    s.conds[('ne', b)] = s.conds[('ne', a)]

    # ------------------------------------------------------------ statements
    def seq(self, ss, st, fr):
        states = [st]
        for x in ss:
            nxt = []
            for s in states:
                if s.exit:
                    nxt.append(s)
                else:
                    nxt += self.stmt(x, s, fr)
            states = self.reduce(nxt)
            if all(s.exit for s in states):
                break
        return states

    def bound(self, T, i):
        """Name of the member the i-th structured binding of a value of type T designates."""
        r = self.plain(T)
        if r and i < len(r):
            return r[i]['n']
        return ['first', 'second', 'third', 'fourth', 'fifth'][i] if i < 5 else 'b%d' % i

    def plain(self, T):
        """Fields of a record of the repository, in order."""
        T = T.replace('const ', '').replace('&', '').strip()
        for q in ('', 'tvm::'):
            if q + T in self.p.records:
                return self.p.records[q + T]['fields']
        return None

    def aggregate(self, v, o, ini, s, fr):
        """Braces around the members of a record write these members."""
        for f, x in zip(self.plain(v['t']) or (), ini[2]):
            loc = ('fld', o, f['n'])
            self.types.setdefault(loc, f['t'])
            s.emit(Ev('write', loc, x, op='init', file=fr['file'], line=v.get('l'), node=v, fn=fr['fn']['fid'] if fr['fn'] else None, depth=fr['depth']))
            if self.scalar_type(f['t']):
                s.store[loc] = x

    def decl(self, v, st, fr):
        key = (fr['id'], v['d'])
        T = v['t']
        if 'init' not in v or v['init'] is None:
            s = st.copy()
            t = ('obj', v['n'], self.fresh(), None)
            self.types[t] = T
            if self.scalar_type(T) or T.endswith('*') or '::*)' in T or '(*' in T:
                t = ('uninit', v['n'], self.fresh())
            s.env[key] = t
            return [s]
        out = []
        if v.get('isref') and self.refers(T if T.endswith('&') else T + ' &'):
            c = v['init']
            while isinstance(c, dict) and c.get('k') in ('cast', 'paren'):
                c = c['e']
            if isinstance(c, dict) and c.get('k') == 'cond' and (self.slot(c['a'], st, fr) or self.slot(c['b'], st, fr)):
                for b, s in self.cond(c['c'], st, fr):
                    out += self.decl(dict(v, init=c['a'] if b else c['b']), s, fr) if not s.exit else [s]
                return out
            sl = self.slot(c, st, fr)
            if sl:
                s = st.copy()
                s.env[key] = ('aliasof',) + sl
                return [s]
        for t, s in self.ev(v['init'], st, fr, lv=bool(v.get('isref'))):
            if s.exit:
                out.append(s); continue
            s = s.copy()
            alias = v.get('isref') or T.endswith(('*', '&')) or T.replace('const ', '').startswith(ALIAS_TYPES) or self.scalar_type(T) or '::*)' in T or '(lambda' in T or t[0] == 'lambda'
            if not alias and not T.startswith('const '):
                o = ('obj', v['n'], self.fresh(), t)
                self.types[o] = T
                s.emit(Ev('lwrite', o, t, op='init', file=fr['file'], line=v.get('l'), node=v, fn=fr['fn']['fid'] if fr['fn'] else None, depth=fr['depth']))
                t = o
            elif self.scalar_type(T):
                pass
            if t is not None:
                self.types.setdefault(t, T)
            s.env[key] = t
            for i, b in enumerate(v.get('binds', [])):
                s.env[(fr['id'], b['d'])] = ('fld', t, self.bound(T, i))
            if t[0] == 'obj' and t[3] is not None and t[3][0] == 'init':
                self.aggregate(v, t, t[3], s, fr)
            out.append(s)
        return out

    def stmt(self, n, st, fr):
        if n is None:
            return [st]
        k = n['k']
        if k == 'expr':
            out = []
            for _, s in self.ev(n['e'], st, fr):
                out.append(s)
            return self.reduce(out) if len(out) > 1 else out
        if k == 'block':
            return self.seq(n['s'], st, fr)
        if k == 'decl':
            states = [st]
            for v in n['vars']:
                nxt = []
                for s in states:
                    nxt += self.decl(v, s, fr) if not s.exit else [s]
                states = nxt
            return states
        if k == 'if':
            pre = [st]
            if n.get('init'):
                pre = self.stmt(n['init'], st, fr)
            if n.get('var'):
                pre = [x for s in pre for x in (self.decl(n['var'], s, fr) if not s.exit else [s])]
            if 'cc' in n:
                out = []
                for s in pre:
                    br = n['a'] if n['cc'] else n.get('b')
                    out += self.stmt(br, s, fr) if br and not s.exit else [s]
                return out
            out = []
            for s in pre:
                if s.exit:
                    out.append(s); continue
                for b, s2 in self.cond(n['c'], s, fr):
                    if s2.exit:
                        out.append(s2); continue
                    if b:
                        out += self.stmt(n['a'], s2, fr)
                    elif n.get('b'):
                        out += self.stmt(n['b'], s2, fr)
                    else:
                        out.append(s2)
            return self.reduce(out)
        if k == 'ret':
            if not n.get('e'):
                s = st.copy(); s.exit = 'ret'; s.ret = ('void',)
                return [s]
            out = []
            rt = (fr['fn'] or {}).get('rt', '') if fr['fn'] else ''
            for t, s in self.ev(n['e'], st, fr, lv=rt.endswith('&') and 'const' not in rt):
                s = s.copy()
                if not s.exit:
                    s.exit = 'ret'; s.ret = t
                out.append(s)
            return out
        if k in ('break', 'continue'):
            s = st.copy(); s.exit = k
            return [s]
        if k in ('null', 'unkstmt', 'goto'):
            return [st]
        if k == 'label':
            return self.stmt(n['s'], st, fr)
        if k == 'switch':
            return self.switch(n, st, fr)
        if k in ('case', 'default'):
            return self.stmt(n['s'], st, fr)
        if k == 'rfor':
            out = []
            for r, s in self.ev(n['range'], st, fr):
                if s.exit:
                    out.append(s); continue
                out += self.loop(n, r, s, fr, rangefor=True)
            return out
        if k == 'for':
            out = []
            for s in (self.stmt(n['init'], st, fr) if n.get('init') else [st]):
                if s.exit:
                    out.append(s); continue
                out += self.loop(n, None, s, fr)
            return out
        if k in ('while', 'do'):
            return self.loop(n, None, st, fr)
        if k == 'try':
            outs = self.stmt(n['body'], st, fr)
            res = [s for s in outs if s.exit != 'throw']
            thrown = [s for s in outs if s.exit == 'throw']
            entry = []
            seenlen = set()
            # an opaque call of the body may throw: handler reachable with every call-terminated prefix
            for s in outs:
                new = s.ev[len(st.ev):]
                for i, e in enumerate(new):
                    if e.kind == 'call' and not e.inl and id(e) not in seenlen:
                        seenlen.add(id(e))
                        x = st.copy(); x.ev = st.ev + new[:i + 1]
                        entry.append(x)
            for s in thrown:
                x = s.copy(); x.exit = None
                entry.append(x)
            catchall = False
            for h in n['h']:
                if 'var' not in h:
                    catchall = True
                for x in entry:
                    x = x.copy()
                    if 'var' in h:
                        x.env[(fr['id'], h['var']['d'])] = ('exc', h['var']['t'])
                    x.emit(Ev('catch', h.get('var', {}).get('t', '...'), file=fr['file'], line=h['l'], node=h))
                    res += self.stmt(h['body'], x, fr)
            if not catchall:
                res += thrown
            return self.reduce(res)
        raise AnalysisBroken('unhandled statement kind %s' % k)

    def switch(self, n, st, fr):
        out = []
        pre = [st]
        if n.get('init'):
            pre = self.stmt(n['init'], st, fr)
        if n.get('var'):
            pre = [x for s in pre for x in self.decl(n['var'], s, fr)]
        # flatten labels
        items = []  # list of ('label', valuenode|None) / ('stmt', node)

        def fl(x):
            if x is None:
                return
            if x['k'] == 'case':
                items.append(('label', x['v'])); fl(x['s'])
            elif x['k'] == 'default':
                items.append(('label', None)); fl(x['s'])
            else:
                items.append(('stmt', x))
        body = n['body']
        for x in (body['s'] if body and body['k'] == 'block' else [body]):
            fl(x)
        for s0 in pre:
            if s0.exit:
                out.append(s0); continue
            for t, s in self.ev(n['c'], s0, fr):
                if s.exit:
                    out.append(s); continue
                labels = [(i, it[1]) for i, it in enumerate(items) if it[0] == 'label']
                vals = []
                for i, v in labels:
                    if v is not None:
                        vals.append((i, self.ev(v, s, fr)[0][0]))
                rest = s
                feasible = True
                for i, c in vals:
                    if not feasible:
                        break
                    eq = self.mkop('==', t, c)
                    d = self.decide(eq, rest)
                    if d is not False:
                        x = rest.copy()
                        if d is None:
                            self.record(eq, True, x)
                        out += self.switch_from(items, i, x, fr)
                    if d is True:
                        feasible = False
                    elif d is None:
                        rest = rest.copy()
                        self.record(eq, False, rest)
                        q = rest.conds.get(('eq', t))
                if feasible:
                    # remaining: is some enumerator left?
                    ne = rest.conds.get(('ne', t), ())
                    if ne and all(c[0] == 'enum' for c in ne):
                        et = ne[0][1].rsplit('::', 1)[0]
                        en = self.p.enums.get(et)
                        if en and len(set(ne)) >= len(en['vals']):
                            feasible = False
                if feasible:
                    dflt = [i for i, v in labels if v is None]
                    if dflt:
                        out += self.switch_from(items, dflt[0], rest, fr)
                    else:
                        out.append(rest)
        for s in out:
            if s.exit == 'break':
                s.exit = None
        return self.reduce(out)

    def switch_from(self, items, i, st, fr):
        return self.seq([it[1] for it in items[i:] if it[0] == 'stmt'], st, fr)

    def named(self, n, acc):
        if isinstance(n, dict):
            if n.get('k') == 'ref' and n.get('dk') in ('var', 'param') and self.scalar_type(n.get('t', '').replace('&', '')):
                acc.add(n['d'])
            if n.get('k') == 'cond':
                n = {'a': n['a'], 'b': n['b']}
            for v in n.values():
                if isinstance(v, (dict, list)):
                    self.named(v, acc)
        elif isinstance(n, list):
            for x in n:
                self.named(x, acc)

    def closed(self, n, st, fr, acc):
        """Local variables changed by the closures called inside a subtree."""
        if isinstance(n, dict):
            if n.get('k') == 'call' and n.get('n') == 'operator()' and isinstance(n.get('obj'), dict) and n['obj'].get('k') == 'ref':
                t = st.env.get((fr['id'], n['obj'].get('d')))
                if t is not None and t in self.closures:
                    self.assigned(self.closures[t][0].get('body'), acc)
            for v in n.values():
                if isinstance(v, (dict, list)):
                    self.closed(v, st, fr, acc)
        elif isinstance(n, list):
            for x in n:
                self.closed(x, st, fr, acc)
        return acc

    def assigned(self, n, acc):
        """Local variables assigned inside a subtree (by declaration id)."""
        if isinstance(n, dict):
            k = n.get('k')
            if k == 'ref' and (n.get('isref') or n.get('t', '').endswith('&')):
                self.refdecls.add((self.afn, n.get('d')))
            if k == 'asg':
                a = n['a']
                if a and a.get('k') == 'ref' and a.get('dk') in ('var', 'param', 'bind'):
                    acc.add(a['d'])
            elif k == 'un' and n.get('op') in ('++', '--'):
                a = n['e']
                if a and a.get('k') == 'ref' and a.get('dk') in ('var', 'param', 'bind'):
                    acc.add(a['d'])
            elif k == 'call' and n.get('op') in ('=', '+=', '-=', '++', '--', '|=', '&=', '*=') and n.get('obj'):
                a = n['obj']
                if a and a.get('k') == 'ref' and a.get('dk') in ('var', 'param', 'bind'):
                    acc.add(a['d'])
            if k == 'decl':
                for v in n['vars']:
                    if v.get('isref') and v.get('init') and self.refers(v['t'] if v['t'].endswith('&') else v['t'] + ' &'):
                        self.named(v['init'], acc)   # what a reference changes
            if k == 'call':
                for a, t in zip(n.get('args', []), n.get('pt', [])):
                    if self.refers(t):
                        self.named(a, acc)
            for v in n.values():
                if isinstance(v, (dict, list)):
                    self.assigned(v, acc)
        elif isinstance(n, list):
            for x in n:
                self.assigned(x, acc)
        return acc

    def desugar(self, n):
        """`while(c) { body; ++i; }` as `for(; c; ++i) { body }`, or None."""
        body = n.get('body')
        if n['k'] not in ('while', 'for') or n.get('inc') or n.get('var') or not n.get('c') or not isinstance(body, dict) or body.get('k') != 'block' or len(body['s']) < 2:
            return None
        last = body['s'][-1]
        while isinstance(last, dict) and last.get('k') in ('expr', 'paren', 'cast', 'cleanup') and isinstance(last.get('e'), dict):
            last = last['e']
        if not isinstance(last, dict) or last.get('op') not in ('++', '+=') or last.get('k') not in ('un', 'call', 'asg'):
            return None

        def cont(x):
            if isinstance(x, dict):
                if x.get('k') == 'continue':
                    return True
                if x.get('k') in ('while', 'for', 'rfor', 'do', 'lambda'):
                    return False
                return any(cont(v) for v in x.values() if isinstance(v, (dict, list)))
            return any(cont(v) for v in x) if isinstance(x, list) else False
        if cont(body):
            return None
        return dict(n, k='for', inc=last, body=dict(body, s=body['s'][:-1]))

    @staticmethod
    def resolved(asg, st, fr):
        out = set()
        for d in asg:
            t = st.env.get((fr['id'], d))
            out.add(t[1] if t is not None and t[0] == 'aliasof' else (fr['id'], d))
        return out

    def loop(self, n, rng, st, fr, rangefor=False):
        lid = self.fresh()
        if not rangefor:
            alt = self.desugar(n)
            if alt is not None and self.induction(alt, st, fr, lid):
                n = alt
        pre = st.copy()
        self.afn = fr['fn']['fid'] if fr['fn'] else None
        asg = self.assigned([n.get('body'), n.get('inc'), n.get('c')], set())
        asg = self.closed([n.get('body'), n.get('inc'), n.get('c')], st, fr, asg)
        asg = self.resolved(asg, st, fr)
        body0 = pre.copy()
        body0.ev = ()
        var = None
        if rangefor:
            v = n['var']
            el = ('elem', rng, lid)
            self.types[el] = v['t']
            binds = v.get('binds')
        else:
            el = None
        # identify the induction variable of for/while loops
        ind = None
        if not rangefor:
            ind = self.induction(n, st, fr, lid)
        for fi, d in asg:
            key = (fi, d)
            cur = body0.env.get(key)
            if ind and ind[0] == d:
                body0.env[key] = ind[1]
            elif (self.afn, d) in self.refdecls and cur is not None and cur[0] in ('fld', 'index', 'elem', 'global', 'param', 'call', 'this'):
                self.invalidate(body0, cur)   # a reference: the location keeps its name, not its value
                body0.store.pop(cur, None)
            elif cur is None or cur[0] != 'obj':
                body0.env[key] = ('loopvar', d, lid, cur)
            else:
                self.invalidate(body0, cur)
        if ind and (fr['id'], ind[0]) not in asg:
            body0.env[(fr['id'], ind[0])] = ind[1]
        if ind:
            rng = ind[2]
        # fields possibly written in an earlier iteration: forget stored scalars written in the body (two passes)
        outs = None
        for it in range(2):
            b = body0.copy()
            if rangefor:
                v = n['var']
                b.env[(fr['id'], v['d'])] = el
                T = v['t']
                if not (v.get('isref') or T.endswith(('*', '&')) or T.replace('const ', '').startswith(ALIAS_TYPES) or self.scalar_type(T)) and not T.startswith('const '):
                    o = ('obj', v['n'], lid, el)
                    self.types[o] = T
                    b.env[(fr['id'], v['d'])] = o if False else el
                for i, bd in enumerate(v.get('binds', [])):
                    b.env[(fr['id'], bd['d'])] = ('fld', el, self.bound(T, i))
            starts = [b]
            if n['k'] in ('while', 'for') and n.get('var'):
                starts = self.decl(n['var'], b, fr)
            if n['k'] in ('while', 'for') and n.get('c'):
                ss = []
                for s in starts:
                    if ind and n['k'] == 'for':
                        ss.append(s)   # canonical iteration: condition is "has next"
                        continue
                    for bb, s2 in self.cond(n['c'], s, fr):
                        if bb or s2.exit:
                            ss.append(s2)
                starts = ss
            outs = []
            for s in starts:
                outs += self.stmt(n['body'], s, fr) if not s.exit else [s]
            if n['k'] == 'do' and n.get('c'):
                o2 = []
                for s in outs:
                    if s.exit:
                        o2.append(s)
                    else:
                        o2 += [s2 for _, s2 in self.cond(n['c'], s, fr)]
                outs = o2
            if n['k'] == 'for' and n.get('inc') and not ind:
                o2 = []
                for s in outs:
                    if s.exit in (None, 'continue'):
                        s = s.copy(); ex = s.exit; s.exit = None
                        for _, s2 in self.ev(n['inc'], s, fr):
                            o2.append(s2)
                    else:
                        o2.append(s)
                outs = o2
            if it == 0:
                changed = False
                for s in outs:
                    for e in flat(s.ev):
                        if e.kind in ('write',):
                            if any(contains(k2, e.a) for k2 in body0.store) or any(contains(k2, e.a) for k2 in body0.conds):
                                changed = True
                            if e.a in body0.store:
                                del body0.store[e.a]
                            self.invalidate(body0, e.a)
                        elif e.kind == 'call' and not e.inl:
                            n0 = (len(body0.store), len(body0.conds))
                            self.call_effects(body0, e.node or {}, None, e.b, e.op)
                            if n0 != (len(body0.store), len(body0.conds)):
                                changed = True
                if not changed:
                    break
        outs = self.reduce(outs)
        normal = [s for s in outs if s.exit in (None, 'break', 'continue')]
        others = [s for s in outs if s.exit in ('ret', 'throw')]
        seen, bodies, bh, bx = {}, [], [], []
        for s in normal:
            kk = (tuple(e.key() for e in s.ev), s.exit == 'break', frozenset(s.hist.items()) if self.fine else None)
            h = {c: v for c, v in s.hist.items() if pre.hist.get(c) != v}
            if kk not in seen:
                seen[kk] = len(bodies)
                bodies.append(s.ev)
                bh.append(h)
                bx.append(s.exit)
            else:
                i = seen[kk]
                bh[i] = {c: v for c, v in bh[i].items() if c in h and h[c] == v}
        post = pre.copy()
        # effects of the loop on facts
        post.store = {k2: v for k2, v in body0.store.items()}
        post.conds = dict(body0.conds)
        for key in asg:
            d = key[1]
            cur = pre.env.get(key)
            if cur is not None and cur[0] == 'obj':
                continue
            if cur is not None:
                post.env[key] = ('loopvar', d, lid, cur)
        lev = Ev('loop', lid, rng, tuple(bodies), op=n['k'], file=fr['file'], line=n.get('l'), node=n, fn=fr['fn']['fid'] if fr['fn'] else None, depth=fr['depth'])
        lev.bh, lev.bx = bh, bx
        res = []
        if n['k'] in ('while',) and n.get('c') and not ind:
            # condition is false on exit (if it has no side effects we only record its evaluation)
            pass
        post.emit(lev)
        res.append(post)
        for s in others:
            x = s.copy()
            x.ev = pre.ev + ((lev,) if bodies and any(b for b in bodies) else ()) + s.ev
            res.append(x)
        return res

    def induction(self, n, st, fr, lid):
        """(decl id, element/index term, range term) for `for(i=lo; i<hi; ++i)`, iterator loops and it++ while loops."""
        c = n.get('c')
        if n['k'] != 'for' or not c:
            return None
        inc = n.get('inc')
        ids = self.assigned(inc, set()) if inc else set()
        body_asg = self.assigned(n.get('body'), set())
        cond_ids = []

        def refs(x):
            if isinstance(x, dict):
                if x.get('k') == 'ref' and x.get('dk') in ('var', 'param'):
                    cond_ids.append(x['d'])
                for v in x.values():
                    if isinstance(v, (dict, list)):
                        refs(v)
            elif isinstance(x, list):
                for v in x:
                    refs(v)
        refs(c)
        cand = [d for d in ids if d in cond_ids]
        if not cand:
            return None
        d = cand[0]
        if d in body_asg:
            return None
        cur = st.env.get((fr['id'], d))
        if cur is None:
            return None
        plain = inc.get('op') == '++' or inc.get('op') == ',' or (inc.get('op') == '+=' and (inc.get('b') or {}).get('k') == 'lit' and str((inc.get('b') or {}).get('v')) == '1')
        me = hs = None
        if c['k'] == 'bin' and c['op'] in ('<', '!=', '<=', '>', '>='):
            me, hs = (c['a'], c['b']) if c['op'] not in ('>', '>=') else (c['b'], c['a'])
        elif c['k'] == 'call' and c.get('op') in ('!=', '<'):
            sides = ([c['obj']] if c.get('obj') else []) + list(c.get('args') or [])
            if len(sides) == 2:
                me, hs = sides
        if me is not None and not (me.get('k') == 'ref' and me.get('d') == d) and c.get('op') == '!=':
            me, hs = hs, me
        hi = None
        if me is not None and me.get('k') == 'ref' and me.get('d') == d:
            try:
                hi = self.ev(hs, st.copy(), fr)[0][0]
            except AnalysisBroken:
                hi = None
        if hi is None:
            return None
        # iterator loop over a whole container
        b = cur[3] if cur[0] == 'obj' and cur[3] else cur
        if b[0] == 'call' and b[1].split('::')[-1] in ('begin', 'cbegin', 'rbegin', 'crbegin'):
            r = self.range_of(b)
            if plain and hi and hi[0] == 'call' and hi[1].split('::')[-1] in ('end', 'cend', 'rend', 'crend') and self.range_of(hi) == r:
                return (d, ('elem', r, lid), r)
        # index loop: i < hi, i != hi
        t = ('idx', lid, cur, hi)
        rng = hi[2] if plain and c.get('op') in ('<', '!=', '>') and hi and hi[0] == 'call' and hi[1].split('::')[-1] in ('size', 'rows', 'cols') and cur == ('lit', '0') else None
        return (d, t, rng if rng is not None else ('strided' if not plain else 'upto' if c.get('op') == '<=' else 'range', cur, hi) if hi else None)
