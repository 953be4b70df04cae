"""Builds and loads the program representation: runs the extractor over every translation unit of the
library in /repo's working tree (plus /verif/tu/*.cpp, which instantiate the header templates), in parallel,
and merges the per-unit documents."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TVM_REPO', '/repo')
FLAGS = ['-std=c++17', '-DTVM_EXPORTS', '-DEIGEN_RUNTIME_NO_MALLOC', '-Wno-everything',
         '-I' + VERIF + '/stubs', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + REPO + '/3rd-party',
         '-isystem', '/usr/include/eigen3', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']
# sources that the build of this sandbox does not compile (third-party libraries absent)
UNBUILT = re.compile(r'^src/(robot/|Robot\.cpp|utils/sch\.cpp|solver/(LSSOL|QLD|Quadprog|LexLS|default))')


class AnalysisBroken(Exception):
    """The analysis cannot give a verdict (anchor vanished, unit unparsable...)."""


def build_tool():
    r = subprocess.run(['bash', VERIF + '/extractor/build.sh'], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('cannot build the extractor:\n' + r.stderr[-2000:])


def units():
    us = []
    for d, _, fs in os.walk(REPO + '/src'):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith('.cpp') and not UNBUILT.match(os.path.relpath(p, REPO)):
                us.append(p)
    us += glob.glob(VERIF + '/tu/*.cpp')
    return sorted(us)


def tree_hash():
    h = hashlib.sha256()
    for base in (REPO + '/include', REPO + '/src', VERIF + '/tu', VERIF + '/stubs', VERIF + '/extractor'):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]


def header_hash():
    h = hashlib.sha256()
    for base in (REPO + '/include', VERIF + '/stubs', VERIF + '/extractor', REPO + '/src'):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                if not (base == REPO + '/src' and f.endswith('.cpp')):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, REPO).encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()


def extract():
    """Returns the merged program. A per-process scratch directory is used and removed. When
    TVMLINT_CACHE is set (development only) the merged document is cached there by content hash."""
    build_tool()
    cache = os.environ.get('TVMLINT_CACHE')
    if cache:
        os.makedirs(cache, exist_ok=True)
        p = cache + '/' + tree_hash() + '.json'
        if os.path.exists(p):
            return json.load(open(p))
    tmp = tempfile.mkdtemp(prefix='tvmlint')
    try:
        us = units()
        us.sort(key=lambda u: -os.path.getsize(u))

        hh = header_hash() if cache else None
        # third-party headers are precompiled once per run (into the scratch directory) for speed only
        pch = []
        r = subprocess.run(['/usr/lib/llvm-18/bin/clang++'] + FLAGS + ['-x', 'c++-header', VERIF + '/extractor/third_party.h', '-o', tmp + '/pre.pch'], capture_output=True)
        if r.returncode == 0:
            pch = ['-include-pch', tmp + '/pre.pch']

        def one(u):
            if cache:
                cf = '%s/u%s.json' % (cache, hashlib.sha256((hh + os.path.relpath(u, REPO) + open(u).read()).encode()).hexdigest()[:24])
                if not os.path.exists(cf):
                    doc = one_(u)[1]
                    json.dump(doc, open(cf + str(os.getpid()), 'w')); os.replace(cf + str(os.getpid()), cf)
                    return u, doc
                return u, json.load(open(cf))
            return one_(u)

        def one_(u):
            out = tmp + '/' + hashlib.md5(u.encode()).hexdigest() + '.json'
            r = subprocess.run([VERIF + '/build/tvmx', REPO + '/', out, u, '--'] + FLAGS + pch, capture_output=True, text=True)
            if r.returncode or not os.path.exists(out):
                raise AnalysisBroken('cannot parse %s:\n%s' % (u, r.stderr[-3000:]))
            return u, json.load(open(out))

        merged = {'funcs': {}, 'records': {}, 'enums': {}, 'globals': {}, 'units': []}
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for u, doc in ex.map(one, us):
                merged['units'].append(os.path.relpath(u, REPO) if u.startswith(REPO + '/') else u)
                for f in doc['funcs']:
                    key = f['fid']
                    if f.get('internal'):
                        key = f['fid'] + '@' + f['file']
                    if key not in merged['funcs']:
                        merged['funcs'][key] = f
                for r in doc['records']:
                    merged['records'].setdefault(r['q'], r)
                for e in doc['enums']:
                    merged['enums'].setdefault(e['q'], e)
                for g in doc['globals']:
                    if g['q'] not in merged['globals'] or ('init' in g and 'init' not in merged['globals'][g['q']]):
                        merged['globals'][g['q']] = g
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if cache:
        t = p + str(os.getpid()); json.dump(merged, open(t, 'w')); os.replace(t, p)
    return merged


if __name__ == '__main__':
    t = time.time()
    m = extract()
    print(len(m['units']), 'units', len(m['funcs']), 'functions', len(m['records']), 'records', len(m['enums']), 'enums', '%.1fs' % (time.time() - t))
