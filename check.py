#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides property ID on /repo's current source. ID may be 'all'."""
import importlib, os, pkgutil, sys, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from tvmlint import ir, flow, report
import tvmlint.rules as rules


def modules():
    return {m.name.upper().split('_')[0]: m.name for m in pkgutil.iter_modules(rules.__path__) if m.name[0] == 'c' and m.name[1].isdigit()}


def run(pid, prog, tier):
    mod = importlib.import_module('tvmlint.rules.' + modules()[pid])
    rep = report.Report(pid, tier)
    for fn in mod.RULES:
        try:
            fn(prog, rep)
        except ir.AnalysisBroken as e:
            rep.broken.append('%s: %s' % (fn.__name__, e))
        except Exception as e:
            if os.environ.get('TVMLINT_DEBUG'):
                traceback.print_exc()
            rep.broken.append('%s: internal error %s: %s' % (fn.__name__, type(e).__name__, e))
    return rep.finish(getattr(mod, 'LEVEL', 'other'), mod.EXPLANATION, getattr(mod, 'ASSUMPTIONS', []) + COMMON)


COMMON = ['clang 18 front end resolves names, types, overloads and implicit conversions as the project compiler does',
          'sources not compiled in this sandbox (robot/, concrete solver back-ends) are outside the analysed program',
          'branch conditions are pruned only syntactically: unpruned routes are treated as feasible',
          'calls through std::function / unresolved virtuals are treated as opaque effects']


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    try:
        prog = flow.Program(ir.extract())
    except ir.AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (pid, e))
        return 2
    if pid == 'all':
        return max([run(p, prog, tier) for p in sorted(modules())])
    return run(pid, prog, tier)


if __name__ == '__main__':
    try:
        rc = main()
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
