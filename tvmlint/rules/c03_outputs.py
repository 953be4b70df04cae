"""C03: only enabled outputs can be depended upon; enabling and disabling obeys locks and static choices; inputs mirror what was asked."""
from ..q import *

EXPLANATION = ('Path summaries of the input registry, of the dependency declarations and of the output selector: each route that records a signal must carry the decision that this '
               'signal is enabled (statically and dynamically), each route that changes the selection must carry the decision that it is unlocked, and refused requests must have no effect.')
ASSUMPTIONS = ['std containers behave as specified by the standard']
IN = 'tvm::graph::internal::Inputs::'
OUT = 'tvm::graph::abstract::Outputs::'
SEL = 'tvm::graph::abstract::OutputSelector::'
NODE = 'tvm::graph::abstract::Node::'
LOG = 'tvm::graph::internal::Logger'


def inl(f, o):
    q = shortq(f['q'])
    return not q.startswith(LOG) and not q.endswith('Name')


def kind(t):
    return 'sp' if 'shared_ptr<' in t else 'ptr' if t.endswith('*') else 'ref' if t.endswith('&') else 'v'


def unc(t):
    while isinstance(t, tuple) and t and t[0] == 'cast':
        t = t[-1]
    return t


def enabled_fact(hist, src, sig):
    st = cu = None
    for t, v in hist.items():
        if t[0] == 'call' and t[2] == src and t[3] and unc(t[3][0]) == sig:
            n = shortq(t[1]).split('::')[-1]
            if n in ('isOutputCustomEnabled', 'isOutputEnabled'):
                cu = v
    return cu


def rule_enabled(prog, rep):
    R = 'C03.enabled'
    rep.rule(R, 'an output is reported enabled only when it is both statically and dynamically enabled')
    fs = [f for f in prog.find(OUT + 'isOutputEnabled') if f.get('body') is not None]
    for f in fs:
        eng = Engine(prog, inline=lambda g, o: shortq(g['q']).endswith('isOutputEnabled'), opaque=(OUT + 'isOutputStaticallyEnabled', OUT + 'isOutputCustomEnabled'))
        ps = eng.run(f)
        rep.used(eng, ps)
        a = ('param', f['params'][0]['n'])
        name = 'isOutputEnabled(%s)' % ('int' if f['params'][0]['t'] == 'int' else 'enum')
        okT = okF = True
        for p in ps:
            if p.exit != 'ret':
                continue
            vals = {}
            for t, v in p.hist.items():
                if t[0] == 'call' and t[3] and unc(t[3][0]) == a:
                    vals[shortq(t[1]).split('::')[-1]] = v
            r = p.ret
            if r == ('lit', 'true'):
                okT &= vals.get('isOutputStaticallyEnabled') is True and vals.get('isOutputCustomEnabled') is True
            elif r == ('lit', 'false'):
                okF &= False in vals.values() or (not vals and f['params'][0]['t'] != 'int')
            else:
                # the returned term itself must be the conjunction of what is undecided
                parts = conj(r)
                names = {shortq(t[1]).split('::')[-1] for t in parts if t[0] == 'call' and t[3] and unc(t[3][0]) == a}
                names |= {n for n, v in vals.items() if v is True}
                okT &= {'isOutputStaticallyEnabled', 'isOutputCustomEnabled'} <= names or (False in vals.values() and r == ('lit', 'false'))
                okF &= len(parts) >= 1 and all(t[0] == 'call' and shortq(t[1]).split('::')[-1] in ('isOutputStaticallyEnabled', 'isOutputCustomEnabled') for t in parts)
        rep.ob(R, name + ': enabled requires static and dynamic enabling', okT, loc(f), 'an output can be reported enabled although it is disabled')
        rep.ob(R, name + ': disabled only when a level disables it', okF, loc(f), 'an enabled output can be reported disabled')
    rep.floor(R, 2)


def conj(t):
    if t[0] == 'op' and t[1] == '&&':
        return conj(t[2]) + conj(t[3])
    return [t]


def records(p, table, src):
    """Events recording something for source `src` in member `table`."""
    for e, l, ls, h in mutators(p):
        if e.kind == 'write' and has_field(e.a, table):
            yield e, h
        elif e.kind == 'call' and cname(e) in ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'push_back') and e.b is not None:
            yield e, h


def rule_inputs(prog, rep):
    R = 'C03.input'
    rep.rule(R, 'registering an input checks that every requested signal is enabled, records each of them for that source, and keeps a shared source alive')
    n = 0
    done = set()
    for f in prog.find(IN + 'addInput'):
        if f.get('body') is None or len(f['params']) < 2:
            continue
        k = kind(f['params'][0]['t'])
        key = (k, len(f['params']), 'witness' in f['fid'])
        if key in done:
            continue
        done.add(key)
        eng = Engine(prog, inline=inl)
        ps = eng.run(f)
        rep.used(eng, ps)
        src = ('param', f['params'][0]['n'])
        sigs = Engine.param_terms(f['params'])[1:]
        name = 'addInput(%s, %d signal%s)' % (k, len(sigs), 's' * (len(sigs) > 1))
        w = loc(f)
        ret = [p for p in ps if p.exit == 'ret']
        rep.ob(R, name + ': can succeed', bool(ret), w, 'no normal route')
        for p in ret:
            n += 1
            for i, s in enumerate(sigs):
                rep.ob(R, name + ': signal %d refused unless enabled' % (i + 1), enabled_fact(p.hist, src, s) is True, w,
                       'signal %d is registered without establishing it is enabled in the source' % (i + 1))
                ins = [e for e, h in records(p, 'inputs_', src) if (e.kind == 'write' and has(e.a, lambda x: x == src) and has(e.b, lambda x: x == s))
                       or (e.kind == 'call' and has_name(e.b, 'second') and any(has(a, lambda x: x == s) for a in e.c))
                       or (e.kind == 'call' and (has(e.b, lambda x: x == src) or any(has(a, lambda x: x == src) for a in e.c)) and any(has(a, lambda x: x == s) for a in e.c))]
                rep.ob(R, name + ': signal %d recorded for the source' % (i + 1), bool(ins), w, 'signal %d is not recorded (%s)' % (i + 1, p.condstr()[:150]))
            for e, l, ls, h in mutators(p):
                if e.kind == 'write' and (top_field(e.a) == 'inputs_' or e.a[0] == 'fld' and e.a[2] == 'second'):
                    absent = any('end' in show(t) and t[0] == 'op' and t[1] == '==' and v is True for t, v in h.items()) or \
                        any(has_field(t, 'inputs_') and t[0] == 'call' and shortq(t[1]).split('::')[-1] in ('count', 'contains') and v is False for t, v in h.items())
                    rep.ob(R, name + ': signals registered earlier for the source are kept', absent, e.where(), 'the recorded signals of a source that is already registered are overwritten')
            if k == 'sp':
                own = [e for e in calls(p, ('insert', 'emplace')) if top_field(e.b) == 'store_' and any(has(a, lambda x: x == src) for a in e.c)]
                rep.ob(R, name + ': the shared source is kept alive', bool(own), w, 'the shared source is not stored: it can be destroyed while registered')
        for p in ps:
            if p.exit == 'throw':
                bad = [e for e, h in records(p, 'inputs_', src) if top_field(e.a if e.kind == 'write' else e.b) in ('inputs_',)]
                if len(sigs) == 1:
                    rep.ob(R, name + ': a refused signal leaves the registry unchanged', not bad, w, 'a refused signal is recorded nevertheless')
    rep.floor(R, 8)


def rule_remove(prog, rep):
    R = 'C03.remove'
    rep.rule(R, 'removing an input refuses unknown sources and signals, and forgets (and releases) a source once none of its signals is used')
    seen = set()
    for f in prog.find(IN + 'removeInput'):
        if f.get('body') is None:
            continue
        k = 'iterator' if 'Iterator' in f['params'][0]['t'] else '%d signals' % (len(f['params']) - 1)
        if k in seen:
            continue
        seen.add(k)
        eng = Engine(prog, inline=lambda g, o: inl(g, o) and 'Iterator' not in ''.join(x['t'] for x in g['params']))
        ps = eng.run(f)
        rep.used(eng, ps)
        w = loc(f)
        name = 'removeInput(%s)' % k
        if k == 'iterator':
            it, src = [('param', x['n']) for x in f['params'][:2]]
            for p in ps:
                if p.exit != 'ret':
                    continue
                er = [e for e in calls(p, 'erase') if top_field(e.b) == 'inputs_' and e.c and has(e.c[0], lambda x: x in (it, src))]
                rep.ob(R, name + ': forgets the source', bool(er), w, 'the source stays registered')
                st = [e for e in calls(p, 'erase') if top_field(e.b) == 'store_']
                none = any(v is True and t[0] == 'op' and t[1] == '==' and (has_call(t, 'end') or has_name(t, 'end') or t[3][0] == 'end') for t, v in p.hist.items()) or \
                    any('end' in show(t) and v is True for t, v in p.hist.items())
                rep.ob(R, name + ': releases the stored source', bool(st) or none, w, 'the source is not released (%s)' % p.condstr()[:150])
            rep.ob(R, name + ': some route releases a stored source', any(top_field(e.b) == 'store_' for p in ps for e in calls(p, 'erase')), w, 'no route releases the stored source')
            continue
        src = ('param', f['params'][0]['n'])
        sigs = Engine.param_terms(f['params'])[1:]
        rep.ob(R, name + ': unknown source refused', any(p.exit == 'throw' and not [1 for e, l, ls, h in mutators(p) if l[0] != 'local'] for p in ps), w, 'removing an unknown source is accepted')
        if not sigs:
            for p in ps:
                if p.exit == 'ret':
                    rep.ob(R, name + ': the source is forgotten', any(len(e.c) == 2 and e.c[1] == src for e in calls(p, q=IN + 'removeInput')), w, 'the source is not forgotten')
        else:
            for p in ps:
                if p.exit != 'ret':
                    continue
                lo = [e for e, ls, h in pwalk(p) if e.kind == 'loop' and any(cname(x) == 'erase' for b in e.c for x in flat(b))]
                ok = bool(lo) and all(all(has(l.b, lambda x: x == s) for s in sigs) or l.b[0] == 'local' for l in lo)
                for l in lo:
                    el = ('elem', l.b, l.a)
                    for b, bh in zip(l.c, l.bh):
                        er = [x for x in b if cname(x) == 'erase' and x.c and unc(x.c[0]) == el]
                        ok &= bool(er) and any(t[0] == 'op' and has_call(t, 'erase') for t in bh)
                rep.ob(R, name + ': every given signal removed, a missing one refused', ok, w, 'a given signal is not removed, or removing a missing one is not detected')
                drop = [e for e in calls(p, q=IN + 'removeInput') if len(e.c) == 2 and e.c[1] == src]
                empt = None
                for t, v in p.hist.items():
                    if t[0] == 'op' and t[1] == '==' and has_call(t, 'size') and has(t, lambda x: x[0] == 'lit' and x[1].rstrip('UL') == '0'):
                        empt = v
                    elif t[0] == 'call' and shortq(t[1]).endswith('::empty'):
                        empt = v
                if empt is None:
                    rep.ob(R, name + ': the source is forgotten when its last signal goes', bool(drop) and False or empt is not None, w, 'whether signals remain is never decided')
                else:
                    rep.ob(R, name + ': the source is forgotten when its last signal goes', bool(drop) == empt, w, 'source %s although signals %s' % ('forgotten' if drop else 'kept', 'remain' if not empt else 'are exhausted'))
    rep.floor(R, 5)


def rule_selector(prog, rep):
    R = 'C03.select'
    rep.rule(R, 'outputs are enabled/disabled individually, only while unlocked; a statically disabled output cannot be enabled')
    for op, val in (('enableOutput', 'true'), ('disableOutput', 'false')):
        seen = set()
        for f in prog.find(SEL + op):
            if f.get('body') is None or len(f['params']) in seen:
                continue
            seen.add(len(f['params']))
            eng = Engine(prog, inline=inl, opaque=(OUT + 'isOutputStaticallyEnabled', 'witness::Restricted::isOutputStaticallyEnabled'))
            ps = eng.run(f)
            rep.used(eng, ps)
            w = loc(f)
            sigs = Engine.param_terms(f['params'])
            name = '%s(%d)' % (op, len(sigs))
            ret = [p for p in ps if p.exit == 'ret']
            rep.ob(R, name + ': can succeed', bool(ret), w, 'no normal route')
            rep.ob(R, name + ': can be refused', any(p.exit == 'throw' for p in ps), w, 'never refused')
            for p in ps:
                wr = [(e, h) for e, l, ls, h in mutators(p) if top_field(l) == 'dynamicallyEnabled_']
                if wr or p.exit == 'ret':
                    lk = [v for t, v in p.hist.items() if t == fld('locked_') or (t[0] == 'call' and shortq(t[1]).endswith('isLocked'))]
                    rep.ob(R, name + ': refused while locked', bool(lk) and not any(lk), w, 'the selection changes (or the request is accepted) without establishing that it is unlocked')
                if p.exit == 'throw' and len(sigs) == 1:
                    rep.ob(R, name + ': a refused change has no effect', not wr, w, 'a refused change modifies the selection')
                for e, h in wr:
                    ok = e.kind == 'write' and e.a[0] == 'index' and unc(e.a[2]) in sigs and e.b == ('lit', val)
                    rep.ob(R, name + ': sets the slot of the given output to %s' % val, ok, e.where(), 'writes %s' % show(e.a))
                if p.exit == 'ret':
                    got = {unc(e.a[2]) for e, h in wr if e.kind == 'write' and e.a[0] == 'index'}
                    rep.ob(R, name + ': every given output changed', set(sigs) <= got, w, 'some given output is not changed')
                    if op == 'enableOutput':
                        for s in sigs:
                            st = [v for t, v in p.hist.items() if t[0] == 'call' and shortq(t[1]).endswith('isOutputStaticallyEnabled') and unc(t[3][0]) == s]
                            rep.ob(R, name + ': statically disabled output refused', bool(st) and all(st), w, 'an output is enabled without checking that it is statically enabled')
    f = [x for x in prog.find(SEL + 'isOutputCustomEnabled') if x.get('body') is not None][0]
    eng = Engine(prog)
    ps = eng.run(f)
    rep.used(eng, ps)
    a = ('param', f['params'][0]['n'])
    ok = all(p.exit != 'ret' or (p.ret is not None and has_field(p.ret, 'dynamicallyEnabled_') and has(p.ret, lambda x: x == a)) or
             (p.ret in (('lit', 'true'), ('lit', 'false')) and any(has_field(t, 'dynamicallyEnabled_') and has(t, lambda x: x == a) and (v is True) == (p.ret == ('lit', 'true')) for t, v in p.hist.items() if t[0] != 'op')) for p in ps)
    rep.ob(R, 'isOutputCustomEnabled: reports the selection of the given output', ok, loc(f), 'the answer is not the recorded selection of the given output')
    for n, v in (('lock', 'true'), ('unlock', 'false')):
        f = [x for x in prog.find(SEL + n) if x.get('body') is not None][0]
        eng = Engine(prog)
        ps = eng.run(f)
        rep.used(eng, ps)
        ok = all(any(e.kind == 'write' and e.a == fld('locked_') and e.b == ('lit', v) for e in p.flat()) for p in ps)
        rep.ob(R, n + ': sets the lock', ok, loc(f), '%s does not set the lock to %s' % (n, v))


def rule_depend(prog, rep):
    R = 'C03.depend'
    rep.rule(R, 'declaring a dependency refuses disabled signals and updates, and an output has either updates or one direct source')
    spec = {'addOutputDependency': [('OutputStaticallyEnabled', 0), ('directDependencies_', 0)],
            'addInternalDependency': [('UpdateStaticallyEnabled', 0), ('UpdateStaticallyEnabled', 1)],
            'addInputDependency': [('UpdateStaticallyEnabled', 0)],
            'addDirectDependency': [('OutputStaticallyEnabled', 0), ('directDependencies_', 0), ('outputDependencies_', 0)],
            'registerUpdates': [('UpdateStaticallyEnabled', 0), ('updates_', 0)]}
    for q, need in sorted(spec.items()):
        sel = {}
        for f in prog.find(NODE + q):
            if f.get('body') is None:
                continue
            ks = tuple(kind(x['t']) for x in f['params'])
            if any('initializer_list' in x['t'] for x in f['params']) or (q in ('addInputDependency', 'addDirectDependency') and ks[1] == 'ptr') or (q == 'registerUpdates' and len(ks) > 2):
                continue
            sel.setdefault(ks, f)
        if not sel:
            raise AnalysisBroken('anchor vanished: ' + NODE + q)
        for ks, f in sorted(sel.items()):
            eng = Engine(prog, inline=lambda g, o: inl(g, o) and 'StaticallyEnabled' not in g['q'] and not shortq(g['q']).startswith('tvm::graph::internal::Inputs'),
                         opaque=(IN + 'addInput',))
            ps = eng.run(f)
            rep.used(eng, ps)
            a = [('param', x['n']) for x in f['params']]
            name = '%s(%s)' % (q, ','.join(ks))
            for p in ps:
                if p.exit != 'ret':
                    continue
                for what, i in need:
                    ok = False
                    for t, v in p.hist.items():
                        if what.endswith('_'):
                            ok |= has_field(t, what) and has(t, lambda x: x == a[i]) and (v is False or (t[0] == 'op' and t[1] == '==' and v is True))
                        else:
                            ok |= t[0] == 'call' and shortq(t[1]).endswith('::' + what) and unc(t[3][0]) == a[i] and v is True
                    msg = {'OutputStaticallyEnabled': 'a statically disabled output is accepted', 'UpdateStaticallyEnabled': 'a disabled update is accepted',
                           'directDependencies_': 'an output that already has a direct source is accepted', 'outputDependencies_': 'an output that already has updates is accepted',
                           'updates_': 'an update already registered is overwritten'}[what]
                    rep.ob(R, '%s: %s of argument %d checked' % (name, what.rstrip('_'), i + 1), ok, loc(f), msg + ' (%s)' % p.condstr()[:120])
                if q in ('addInputDependency', 'addDirectDependency'):
                    ai = [e for e in calls(p, q=IN + 'addInput') if e.c and e.c[0] == a[1]]
                    for s in a[2:]:
                        rep.ob(R, '%s: every signal goes through the enabled check of the input registry' % name, any(s in e.c[1:] for e in ai), loc(f), 'signal %s of the source is depended upon without being registered (and checked) as an input' % show(s))
    rep.floor(R, 8)


RULES = [rule_enabled, rule_inputs, rule_remove, rule_selector, rule_depend]
