"""Decision tables of functions on finite domains: the value given for each combination of finite arguments, composed from the path
summaries of the functions involved (each function is summarised once, each table line is looked up once). Nothing is guessed outside
the finite vocabulary: what it cannot express raises AnalysisBroken."""
from .ir import AnalysisBroken
from .flow import Engine, shortq, show


class Thrown(Exception):
    """The function refuses these arguments."""


def rec(q, fields):
    return ('rec', q, tuple(sorted(fields.items())))


def get(r, f):
    return dict(r[2]).get(f)


class Tables:
    def __init__(self, prog):
        self.prog = prog
        self.sums, self.memo = {}, {}
        self.order = {}
        self.kind = {}
        for q, e in prog.enums.items():
            for v in e['vals']:
                n = q.rsplit('::', 1)[0] + '::' + v['n']
                for k in (n, q + '::' + v['n']):
                    self.order[k] = int(v['v'])
                    self.kind[k] = q
        self.used = set()
        self.lines = 0

    def coerce(self, t, v):
        """v stored in something of type t: an integer becomes the enumerator of that value."""
        if isinstance(v, int) and t:
            t = t.replace('const ', '').rstrip('& ').strip()
            if t == 'bool':
                return bool(v)
            for q, e in self.prog.enums.items():
                if q == t:
                    for x in e['vals']:
                        if int(x['v']) == v:
                            return ('enum', q.rsplit('::', 1)[0] + '::' + x['n'])
        return v

    def fieldtype(self, cls, f):
        try:
            r = self.prog.record(cls)
        except Exception:
            return None
        for x in (r or {}).get('fields', ()):
            if x.get('n') == f:
                return x.get('t')
        return None

    # ---- functions
    def summary(self, f):
        if f['fid'] not in self.sums:
            self.sums[f['fid']] = Engine(self.prog, inline=lambda g, o: False, fine=True).run(f)
        return self.sums[f['fid']]

    def fits(self, t, v):
        t = shortq(t.replace('const ', '').rstrip('& ').strip())
        if isinstance(v, bool):
            return 3 if t == 'bool' else 1 if t in ('int', 'double') else 0
        if isinstance(v, (int, float)):
            return 3 if t in ('int', 'double', 'float', 'long', 'size_t', 'unsigned int', 'unsigned long') else 0
        if isinstance(v, tuple) and v[0] == 'enum':
            k = self.kind.get(v[1])
            return 3 if k and (k == t or k.endswith('::' + t)) else 0
        if isinstance(v, tuple) and v[0] == 'rec':
            return 3 if v[1] == t or v[1].endswith('::' + t) else 0
        return 0

    def overload(self, q, args):
        best, bs = None, 0
        try:
            cand = self.prog.find(shortq(q))
        except AnalysisBroken:
            return None
        for g in cand:
            if len(g['params']) != len(args) or not g.get('body'):
                continue
            s = [self.fits(p['t'], a) for p, a in zip(g['params'], args)]
            if all(s) and 1 + sum(s) > bs:
                best, bs = g, 1 + sum(s)
        return best

    def call(self, f, this=None, args=()):
        """(returned value, fields written in *this). Raises Thrown when the function throws."""
        k = (f['fid'], this, tuple(args))
        if k not in self.memo:
            self.used.add(f['fid'])
            self.lines += 1
            try:
                self.memo[k] = self.line(f, this, args)
            except Thrown as x:
                self.memo[k] = x
        r = self.memo[k]
        if isinstance(r, Thrown):
            raise Thrown(*r.args)
        return r

    def line(self, f, this, args):
        env = {('this',): this} if this is not None else {}
        for t, a in zip(Engine.param_terms(f['params']), args):
            env[t] = a
        out = []
        for p in self.summary(f):
            if all(self.holds(c, v, env) for c, v in p.hist.items()):
                out.append(p)
        if not out:
            raise AnalysisBroken('no route of %s for %s' % (f['q'], [self.text(a) for a in args]))
        rs = {self.replay(f, p, dict(env)) for p in out}
        if len(rs) != 1:
            raise AnalysisBroken('%d results of %s for %s' % (len(rs), f['q'], [self.text(a) for a in args]))
        r = rs.pop()
        if r[0] == 'throw':
            raise Thrown(f['q'])
        return r[1], dict(r[2])

    def replay(self, f, p, env):
        """Effects of one route: what it returns and the last values given to the fields of *this (or of local records)."""
        st, fields = {}, {}
        for e in p.ev:
            if e.kind == 'loop':
                raise AnalysisBroken('loop in %s' % f['q'])
            if e.kind == 'throw':
                return ('throw',)
            loc_, val = None, None
            if e.kind == 'write':
                loc_, val = e.a, e.b
            elif e.kind == 'call' and shortq(e.a).endswith('operator=') and len(e.c) == 1:
                loc_, val = e.b, e.c[0]
            elif e.kind == 'call' and not e.inl:
                self.effect(e, env, st, fields)
                continue
            if loc_ is None or loc_[0] != 'fld':
                continue
            v = self.ev(val, env, st)
            if loc_[1] == ('this',) and ('this',) in env:
                v = self.coerce(self.fieldtype(env[('this',)][1], loc_[2]), v)
            if e.op not in (None, '=', 'init') and e.kind == 'write':
                raise AnalysisBroken('update %s in %s' % (e.op, f['q']))
            st[loc_] = v
            if loc_[1] == ('this',):
                fields[loc_[2]] = v
        if p.exit == 'throw':
            return ('throw',)
        return ('ret', self.ev(p.ret, env, st) if p.ret is not None else None, tuple(sorted(fields.items())))

    def effect(self, e, env, st, fields):
        """A call made for its effect on a record (a member function of *this or of a local object)."""
        if e.b is None or e.b[0] not in ('this', 'obj'):
            return
        args = [self.ev(a, env, st) for a in e.c]
        base = None
        if e.b[0] == 'obj':
            base = self.ev(e.b, env, st)
        elif ('this',) in env:
            base = env[('this',)]
            base = rec(base[1], {**dict(base[2]), **fields})
        g = self.overload(e.a, args)
        if g is None:
            return
        r, w = self.call(g, base, args)
        for k, v in w.items():
            st[('fld', e.b, k)] = v
            if e.b == ('this',):
                fields[k] = v
        if e.b[0] == 'obj':
            pass

    def holds(self, c, v, env):
        if isinstance(v, bool):
            r = self.ev(c, env, {})
            return bool(r) == v
        raise AnalysisBroken('decision not understood: %s' % show(c)[:120])

    def construct(self, q, args):
        q = q.replace('const ', '').rstrip('& ').strip()
        s = shortq(q)
        if q in ('bool', 'int', 'double'):
            return args[0] if args else 0
        if s == 'std::pair' and len(args) == 2:
            return rec('std::pair', {'first': args[0], 'second': args[1]})
        n = s.split('::')[-1]
        g = self.overload(s + '::' + n, args)
        if g is not None:
            r, w = self.call(g, rec(s, {}), args)
            return rec(s, w)
        if len(args) == 1 and isinstance(args[0], tuple) and args[0][0] == 'rec' and shortq(args[0][1]) == s:
            return args[0]
        r = self.prog.records.get(q) or self.prog.records.get(s)
        if r and len(r.get('fields', ())) >= len(args) > 0:
            return rec(s, {x['n']: self.coerce(x.get('t'), a) for x, a in zip(r['fields'], args)})
        raise AnalysisBroken('construction of %s from %s' % (q, [self.text(a) for a in args]))

    # ---- terms
    def num(self, v):
        return self.order[v[1]] if isinstance(v, tuple) and v[0] == 'enum' else v

    def ev(self, t, env, st):
        if t in env:
            return env[t]
        if t in st:
            return st[t]
        k = t[0]
        if k == 'lit':
            s = t[1]
            if s in ('true', 'false'):
                return s == 'true'
            try:
                return int(s)
            except ValueError:
                try:
                    return float(s)
                except ValueError:
                    return s
        if k == 'enum':
            return t
        if k == 'obj':
            v = self.ev(t[3], env, st)
            if isinstance(v, tuple) and v[0] == 'rec':
                w = {x[2]: y for x, y in st.items() if x[0] == 'fld' and x[1] == t}
                return rec(v[1], {**dict(v[2]), **w})
            return v
        if k == 'fld':
            b = self.ev(t[1], env, st)
            if isinstance(b, tuple) and b[0] == 'rec':
                v = get(b, t[2])
                if v is not None:
                    return v
            raise AnalysisBroken('field %s' % show(t))
        if k == 'index':
            b, i = t[1], self.num(self.ev(t[2], env, st))
            b = self.ev(b, env, st)
            if isinstance(b, tuple) and b[0] == 'list' and 0 <= i < len(b[1]):
                return b[1][i]
            raise AnalysisBroken('element %s' % show(t))
        if k == 'init' and ('[' in t[1] or t[1].startswith(('std::array', 'const std::array'))):
            return ('list', tuple(self.ev(x, env, st) for x in t[2]))
        if k in ('ctor', 'init'):
            return self.construct(t[1], [self.ev(x, env, st) for x in t[2]])
        if k == 'op':
            o, a = t[1], t[2:]
            if len(a) == 1:
                v = self.ev(a[0], env, st)
                return {'!': lambda: not v, '-': lambda: -self.num(v), '+': lambda: self.num(v)}[o]()
            x = self.ev(a[0], env, st)
            if o in ('&&', '||'):
                x = bool(x)
                return x if x == (o == '||') else bool(self.ev(a[1], env, st))
            y = self.ev(a[1], env, st)
            if o in ('==', '!=') and isinstance(x, tuple) and isinstance(y, tuple):
                return (x == y) == (o == '==')
            x, y = self.num(x), self.num(y)
            return {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y, '+': lambda: x + y,
                    '-': lambda: x - y, '*': lambda: x * y, '&': lambda: x & y, '|': lambda: x | y}[o]()
        if k == 'call':
            obj = self.ev(t[2], env, st) if t[2] is not None else None
            args = [self.ev(x, env, st) for x in t[3]]
            s = shortq(t[1])
            if s in ('std::minmax', 'std::min', 'std::max', 'std::make_pair', 'std::move', 'std::forward'):
                if s == 'std::make_pair':
                    return rec('std::pair', {'first': args[0], 'second': args[1]})
                if len(args) == 1:
                    return args[0]
                a, b = args
                lo, hi = (b, a) if self.num(b) < self.num(a) else (a, b)
                return rec('std::pair', {'first': lo, 'second': hi}) if s == 'std::minmax' else lo if s == 'std::min' else hi
            g = self.overload(s, args)
            if g is not None:
                return self.call(g, obj, args)[0]
        raise AnalysisBroken('term %s' % show(t)[:160])

    @staticmethod
    def text(v):
        if isinstance(v, tuple) and v[0] == 'enum':
            return v[1].split('::')[-1]
        if isinstance(v, tuple) and v[0] == 'rec':
            return '%s{%s}' % (v[1].split('::')[-1], ', '.join('%s=%s' % (a, Tables.text(b)) for a, b in v[2]))
        return str(v)
