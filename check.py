#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--strict]   decide one property on the current source tree.
Exit 0: nothing that was analysed violates the property; what could not be analysed is listed as UNDECIDED.  Exit 1: VIOLATION line."""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.setrecursionlimit(12000)
BUILD = os.path.join(HERE, 'build')
LLVM = '/usr/lib/llvm-18'
ALLOW = ['opencv2/core/types.hpp', 'pcl/point_cloud.h', 'pcl/impl/point_types.hpp', 'pcl/pcl_base.h', 'pcl/correspondence.h', 'pcl/PCLPointField.h', 'pcl/PCLHeader.h', 'pcl/PCLPointCloud2.h', 'pcl/Vertices.h', 'pcl/PointIndices.h']


class Broken(Exception):
    pass


def tool():
    src = os.path.join(HERE, 'tool', 'astx.cpp')
    key = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'astx-' + key)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        tmp = exe + '.%d' % os.getpid()
        cmd = ['/usr/bin/clang++-18', '-O1', '-std=c++17', '-fno-rtti', '-I' + LLVM + '/include', src, LLVM + '/lib/libclang-cpp.so.18.1',
               LLVM + '/lib/libLLVM-18.so', '-Wl,-rpath,' + LLVM + '/lib', '-o', tmp]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise Broken('cannot build the source extractor:\n' + p.stderr[-2000:])
        os.rename(tmp, exe)
    return exe


def flags(extra=()):
    f = ['-std=gnu++17', '-DNDEBUG', '-DPCL_NO_PRECOMPILE', '-DEIGEN_HAS_CXX17_OVERALIGN=0', '-include', HERE + '/drivers/compat/pcl_shared_ptr_compat.hpp',
         '-include', 'functional', '-include', 'stdexcept', '-I' + HERE + '/drivers', '-I' + REPO]
    for d in ('serpent', 'pointcloud_tools', 'eigen_ext', 'eigen_gtsam', 'eigen_ros', 'imu_tools', 'navigation_tools', 'camera_tools'):
        if os.path.isdir(REPO + '/' + d + '/include'):
            f.append('-I' + REPO + '/' + d + '/include')
    for d in ('/usr/include/eigen3', '/usr/include/opencv4', '/usr/include/pcl-1.14', '/usr/include/vtk-9.1'):
        f += ['-isystem', d]
    f += ['-resource-dir', LLVM + '/lib/clang/18']
    return f + list(extra)


def extract(driver, outdir, extra=()):
    """-> (Prog, names of the driver's items that do not compile against the current tree).  An item whose text the
    compiler refuses (a function of the repository was renamed or its parameters changed) is taken out and the rest
    is analysed; the item is reported as undecided."""
    from engine.interp import Prog
    base = os.path.basename(driver)
    out = os.path.join(outdir, base + '.json')
    allow = ','.join([REPO + '/', HERE + '/', outdir + '/'] + ALLOW)
    src, gone = driver, []
    text = open(driver).read()
    for rnd in range(12):
        if os.path.exists(out):
            os.remove(out)
        p = subprocess.run([tool(), out, allow, src, '--'] + flags(extra) + ['-ferror-limit=0'], capture_output=True, text=True)
        msg = p.stderr or p.stdout
        if p.returncode or not os.path.exists(out):
            raise Broken('%s does not parse against %s:\n%s' % (base, REPO, msg[-3000:]))
        P = Prog(out)
        if not P.errors:
            return P, gone
        first = next((l for l in msg.split('\n') if 'error:' in l), '')
        lines = {int(x) for x in re.findall(r'(?m)^' + re.escape(src) + r':(\d+):\d+: (?:fatal )?(?:error|note):', msg)}
        cut = [it for it in items(text) if any(it[1] <= n <= it[2] for n in lines)]
        if not cut:
            raise Broken('%s does not compile against the current tree: %s' % (base, first[:400]))
        ls = text.split('\n')
        for nm, a, b in cut:
            gone.append((nm, first[:300]))
            for i in range(a - 1, b):
                ls[i] = ''
        text = '\n'.join(ls)
        src = os.path.join(outdir, base)
        with open(src, 'w') as fh:
            fh.write(text)
    raise Broken('%s does not compile against the current tree: %s' % (base, first[:400]))


def items(text):
    """the definitions directly inside the driver's namespaces: [(name, first line, last line)]"""
    t = re.sub(r'//[^\n]*', lambda m: ' ' * len(m.group(0)), text)
    t = re.sub(r'/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), t, flags=re.S)
    t = re.sub(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])\'', lambda m: '0' * len(m.group(0)), t)
    t = re.sub(r'(?m)^[ \t]*#[^\n]*', lambda m: ' ' * len(m.group(0)), t)
    out, stack, start = [], [], 0
    for i, c in enumerate(t):
        if c == '{':
            head = t[start:i]
            if all(stack) and re.search(r'\bnamespace\b[^;(){}]*$', head):
                stack.append(True)
                start = i + 1
            else:
                stack.append(False)
        elif c == '}' and stack:
            ns = stack.pop()
            if ns:
                start = i + 1
            elif all(stack):
                h = t[start:i + 1]
                rest = t[i + 1:i + 200].lstrip()
                if not rest.startswith(';') and re.match(r'\s*(template\s*<[^{]*>\s*)?(struct|class|enum|union)\b', h):
                    continue
                m = re.search(r'([A-Za-z_]\w*)\s*\(', h) or re.search(r'(?:struct|class|enum)\s+(\w+)', h)
                a = start + len(h) - len(h.lstrip())
                out.append((m.group(1) if m else '?', t.count('\n', 0, a) + 1, t.count('\n', 0, i) + 1))
                start = i + 1
        elif c == ';' and all(stack):
            h = t[start:i + 1]
            if h.strip() != ';':
                a = start + len(h) - len(h.lstrip())
                m = re.search(r'([A-Za-z_]\w*)\s*\(', h) or re.search(r'(\w+)\s*[;=]', h)
                out.append((m.group(1) if m else '?', t.count('\n', 0, a) + 1, t.count('\n', 0, i) + 1))
            start = i + 1
    return out


# ---------------------------------------------------------------- worker
_P = None


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def work(job):
    from engine import compare
    name, fi, fs, opts = job
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, opts['wall'], 3)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.RLIM_INFINITY))
    t0 = time.time()
    try:
        r = compare.compare(_P, fi, fs, name, opts)
    except Timeout:
        r = {'name': name, 'status': 'undecided', 'why': 'time limit', 'obligations': 0}
    except MemoryError:
        resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        r = {'name': name, 'status': 'undecided', 'why': 'memory limit', 'obligations': 0, 'trace': '\n'.join(l for l in traceback.format_exc().split('\n') if ', line ' in l)[-900:]}
    except Exception as ex:
        r = {'name': name, 'status': 'error' if isinstance(ex, RuntimeError) and not isinstance(ex, RecursionError) else 'undecided',
             'why': '%s: %s' % (type(ex).__name__, str(ex)[:300]), 'trace': '\n'.join(l for l in traceback.format_exc().split('\nDuring')[0].split('\n') if ', line ' in l or not l.startswith(' '))[-700:], 'obligations': 0}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    r['t'] = round(time.time() - t0, 2)
    return r


def run_driver(driver, opts, only=None):
    """-> (list of results, Prog)"""
    global _P
    tmp = tempfile.mkdtemp(prefix='verif')
    try:
        _P, gone = extract(driver, tmp, opts.get('flags', ()))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    P = _P
    impl, spec = {}, {}
    for i, f in enumerate(P.fns):
        if i in P.bodies and P.bodies[i]['file'].startswith((HERE + '/drivers/', tmp + '/')):
            for pre, d in (('impl::', impl), ('spec::', spec)):
                if f['q'].startswith(pre) and '::' not in f['q'][6:] and '<' not in f['q']:
                    d.setdefault(f['q'][6:], []).append(i)
    if not impl:
        raise Broken('no obligations found in %s' % driver)
    jobs, cutres = [], []
    for n, why in dict(gone).items():
        if not only or n in only:
            cutres.append({'name': n, 'status': 'undecided', 'why': 'does not compile against the current tree: ' + why, 'obligations': 0, 't': 0.0})
    for n, fi in sorted(impl.items()):
        if gone and n not in spec:
            continue
        if n not in spec or len(fi) != 1 or len(spec[n]) != 1:
            raise Broken('%s: %s has no unique reference definition' % (driver, n))
        if only and n not in only:
            continue
        jobs.append((n, fi[0], spec[n][0], opts))
    if len(jobs) <= 1 or opts.get('serial'):
        res = [work(j) for j in jobs]
    else:
        with mp.get_context('fork').Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
            res = pool.map(work, jobs, chunksize=1)
    res += cutres
    for r in res:
        r['driver'] = os.path.basename(driver)
    return res, P


def short(f):
    return f[len(REPO) + 1:] if f.startswith(REPO + '/') else f


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--strict', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import props
    spec = props.PROPS[a.property]
    thorough = a.tier == 'thorough'
    opts = {'seed': seed, 'samples': 40000 if thorough else 8000, 'tlimit': 150 if thorough else 40, 'wall': 600 if thorough else 200, 'symlimit': 400 if thorough else 40}
    opts.update(spec.get('opts', {}))
    results, viol, extra_cov, broken = [], [], {}, []
    only = set(a.only.split(',')) if a.only else None
    for d in spec.get('drivers', []):
        try:
            res, P = run_driver(os.path.join(HERE, 'drivers', d), opts, only)
        except Broken as ex:
            broken.append(str(ex))
            continue
        results += res
    for fn in spec.get('analyses', []):
        try:
            v, cov = fn(sys.modules[__name__], opts)
            viol += v
            extra_cov.update(cov)
        except Broken as ex:
            broken.append(str(ex))
    for r in results:
        if r['status'] == 'violation':
            fns = [v for v in r.get('visited', []) if v[1].startswith(REPO + '/')]
            at = ', '.join('%s (%s:%s)' % (q, short(f), l) for q, f, l in fns[:6])
            if 'detail' in r:
                msg = r['detail']
            else:
                msg = '%s is %s, required %s' % (r['output'], r['got'], r['want'])
            viol.append({'where': '%s:%s' % (r['driver'], r['name']), 'message': msg, 'code': at, 'witness': r.get('witness', {})})
        elif r['status'] == 'error':
            broken.append('%s: %s' % (r['name'], r['why']))
    known = load_known(a.property)
    fresh = []
    for v in viol:
        k = next((x for x in known if x['match'] == v['where'] or (x['match'].endswith('*') and v['where'].startswith(x['match'][:-1]))), None)
        if k is not None:
            print('KNOWN-FINDING: property=%s %s' % (a.property, k['text']))
        else:
            fresh.append(v)
    counts = {}
    for r in results:
        counts[r['status']] = counts.get(r['status'], 0) + 1
    fns = sorted({(q, short(f), l) for r in results for q, f, l in r.get('visited', []) if f.startswith(REPO + '/')})
    cov = {
        'explanation': spec['rule'],
        'definitions_compared': len(results),
        'obligations': sum(r['obligations'] for r in results),
        'decided_by_normal_form': counts.get('proved', 0),
        'not_separated_by_random_interpretation': counts.get('unseparated', 0),
        'undecided': [{'name': r['name'], 'why': r['why']} for r in results if r['status'] == 'undecided'] + [{'name': 'driver', 'why': b[:600]} for b in broken],
        'valuations': sum(r.get('samples', 0) for r in results),
        'call_sites_resolved': sum(r.get('sites', 0) for r in results),
        'functions_analysed': len(fns),
        'samples': [{'definition': r['name'], 'status': r['status'], 'valuations': r.get('samples', 0)} for r in results[:40]],
        'functions': ['%s %s:%s' % f for f in fns[:200]],
    }
    cov.update(extra_cov)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = {'property': a.property, 'tier': 'thorough' if thorough else 'quick', 'seed': seed, 'level': 'other', 'coverage': cov,
          'wall_s': round(time.time() - t0, 2), 'violations': len(fresh), 'assumptions': props.ASSUMPTIONS + spec.get('assumptions', [])}
    with open(os.path.join(HERE, 'evidence', a.property + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    if a.v:
        for r in results:
            print('%-34s %-12s %5.1fs  %s' % (r['name'], r['status'], r['t'], r.get('why') or ('open: %s, %d valuations' % (r['open'], r['samples']) if 'open' in r else '')))
            if r.get('trace') and a.strict:
                print(r['trace'])
    print('%s: %d definitions (%s), %d repository functions analysed, %d obligations%s' % (
        a.property, len(results), ', '.join('%d %s' % (v, k) for k, v in sorted(counts.items())), len(fns), cov['obligations'],
        ''.join('; %s=%s' % (k, v) for k, v in extra_cov.items() if isinstance(v, int))))
    if fresh:
        rp = os.path.join(HERE, 'evidence', a.property + '.replay.json')
        with open(rp, 'w') as fh:
            json.dump(fresh, fh, indent=1)
        for v in fresh:
            print('  %s: %s' % (v['where'], v['message']))
            if v.get('code'):
                print('    computed by ' + v['code'])
            w = v.get('witness')
            if w:
                print('    with ' + ', '.join('%s=%s' % x for x in list(w.items())[:24])[:900])
        print('VIOLATION property=%s replay=%s' % (a.property, rp))
        return 1
    for b in broken:
        print('UNDECIDED: ' + b)
    for r in results:
        if r['status'] == 'undecided':
            print('UNDECIDED: %s: %s' % (r['name'], r['why'][:300]))
    return 2 if a.strict and broken else 0


def load_known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                m, _, text = rest.partition(' | ')
                out.append({'match': m.strip(), 'text': text.strip() or m})
    return out


if __name__ == '__main__':
    sys.exit(main())
