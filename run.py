#!/usr/bin/env python3
"""Builds and runs the checks:  run.py <property-id> [thorough] | setup

Every check compiles what it needs from the repository's working tree together
with a harness from /verif/harness, runs the harness in shards under sanitizers
and collects what its monitors observed.  Exit 0: held on everything explored.
Exit 1 with "VIOLATION property=<id> replay=<path>": broken.  Exit 2: the check
itself could not be carried out (for example the tree does not compile).
"""
import array, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(VERIF, 'build'))
NCPU = os.cpu_count() or 4
sys.path.insert(0, os.path.join(VERIF, 'lib'))
from checks import CHECKS  # noqa: E402

SCL = 'secure-computation-library'


def scl_sources():
    base = os.path.join(REPO, SCL, 'src/scl')
    out = []
    for d, _, fs in os.walk(base):
        out += [os.path.join(d, f) for f in fs if f.endswith('.cc')]
    return sorted(out)


def tp_sources():
    base = os.path.join(REPO, 'src/tp')
    out = []
    for d, _, fs in os.walk(base):
        out += [os.path.join(d, f) for f in fs if f.endswith('.cc')]
    return sorted(out)


FLAVORS = {
    'asan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
             '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'],
    'tsan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread'],
    'fast': ['-O2', '-g1', '-D_GLIBCXX_ASSERTIONS'],
    'vg': ['-O1', '-g1', '-fno-omit-frame-pointer'],
}
ENV = {
    'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0:strict_string_checks=1:'
                    'allocator_may_return_null=0:disable_coredump=1:handle_abort=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:abort_on_error=1',
    'TSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:report_thread_leaks=0:'
                    'history_size=4:report_signal_unsafe=0',
}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


_hdr = {}


def header_hash():
    if 'h' in _hdr:
        return _hdr['h']
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'src'), os.path.join(REPO, SCL, 'include'), os.path.join(REPO, 'experiments'),
                 os.path.join(REPO, 'test'), os.path.join(REPO, SCL, 'test'), os.path.join(VERIF, 'lib'),
                 os.path.join(VERIF, 'harness')):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.h', '.hpp')) or root.endswith('experiments'):
                    h.update(os.path.join(d, f).encode())
                    h.update(open(os.path.join(d, f), 'rb').read())
    _hdr['h'] = h.hexdigest()
    return _hdr['h']


class BuildError(Exception):
    pass


_locks = {}
_lk = threading.Lock()


def keylock(k):
    with _lk:
        return _locks.setdefault(k, threading.Lock())


def run_cmd(cmd, timeout=600):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout.decode(errors='replace')[-6000:])


def compile_obj(src, flags, cxx='g++'):
    key = sha(header_hash(), open(src, 'rb').read(), src, cxx, *flags)
    obj = os.path.join(BUILD, 'obj', key + '.o')
    with keylock(obj):
        if not os.path.exists(obj):
            os.makedirs(os.path.dirname(obj), exist_ok=True)
            tmp = obj + '.%d.tmp' % os.getpid()
            run_cmd([cxx, *flags, '-c', src, '-o', tmp])
            os.rename(tmp, obj)
    return obj


def base_flags(job):
    fl = ['-std=gnu++17', '-include', 'cstdint', '-w', '-pthread', '-I', os.path.join(VERIF, 'lib')]
    fl += ['-I', os.path.join(REPO, 'src'), '-I', os.path.join(REPO, SCL, 'include')]
    flavor = job.get('flavor', 'asan')
    fl += FLAVORS[flavor]
    fl += ['-maes', '-mpclmul', '-msse4.2'] if flavor == 'vg' else ['-march=native']
    if job.get('nonce'):
        fl += ['-include', os.path.join(VERIF, 'lib', 'vp_nonce.h'), '-DPRG_NONCE=(vp_prg_nonce())']
    fl += job.get('defs', [])
    return fl


def sources(job):
    s = []
    libs = job.get('libs', 'scl')
    if libs in ('core', ):
        s += [f for f in scl_sources() if '/src/scl/net/' not in f]
    if libs in ('scl', 'tp'):
        s += scl_sources()
    if libs == 'tp':
        s += tp_sources()
    return s


def build(job, pool):
    """Returns the path of the executable."""
    flags = base_flags(job)
    hs = job['src']
    hs = hs if isinstance(hs, list) else [hs]
    hs = [h.replace('@REPO@', REPO) if h.startswith('@REPO@') else os.path.join(VERIF, 'harness', h) for h in hs]
    objs = list(pool.map(lambda f: compile_obj(f, flags + (job.get('hflags', []) if f in hs else [])), hs + sources(job)))
    link = job.get('link', [])
    key = sha(*objs, *flags, *link)
    exe = os.path.join(BUILD, 'bin', job['name'] + '-' + key)
    with keylock(exe):
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            tmp = exe + '.%d.tmp' % os.getpid()
            sanit = [f for f in FLAVORS[job.get('flavor', 'asan')] if f.startswith('-fsanitize')]
            run_cmd(['g++', '-pthread', *sanit, *objs, '-o', tmp, *link])
            os.rename(tmp, exe)
    return exe


def norm(s):
    s = re.sub(r'0x[0-9a-f]+', 'ADDR', s)
    s = re.sub(r'==\d+==', '', s)
    s = re.sub(r'/\S*/', '', s)
    s = re.sub(r':\d+(:\d+)?', '', s)
    s = re.sub(r'\d+', 'N', s)
    return re.sub(r'\s+', ' ', s).strip()[:180]


def crash_key(rc, err):
    for pat in (r'SUMMARY: (.*)', r'runtime error: (.*)', r'terminate called[^\n]*\n?[^\n]*', r'Assertion[^\n]*failed',
                r'WARNING: ThreadSanitizer: ([^\n]*)'):
        m = re.search(pat, err)
        if m:
            return 'crash:' + norm(m.group(1) if m.groups() else m.group(0))
    return 'crash:rc=%d' % rc


def one_shard(exe, job, shard, nshards, seed, tier, workdir, tag=''):
    out = os.path.join(workdir, '%s%s-%d' % (job['name'], tag, shard))
    for ext in ('.json', '.hash', '.cur'):
        if os.path.exists(out + ext):
            os.remove(out + ext)
    cmd = list(job.get('wrap', [])) + [exe, '--seed', str(seed), '--shard', str(shard), '--nshards', str(nshards), '--out', out,
                                       '--scale', str(job.get('scale', 1.0))]
    if job.get('plain'):
        cmd = [exe]
    elif tier == 'thorough':
        cmd.append('--thorough')
    if job.get('mode'):
        cmd += ['--mode', job['mode']]
    cmd += job.get('args', [])
    env = dict(os.environ, **ENV)
    env.update(job.get('env', {}))
    env['VP_SCRATCH'] = os.path.join(workdir, 'scratch-%s%s-%d' % (job['name'], tag, shard))
    os.makedirs(env['VP_SCRATCH'], exist_ok=True)
    env['VP_REPO_DIR'] = REPO
    tmo = job.get('timeout', 300 if tier == 'quick' else 3000)
    if not job.get('plain'):  # no new case begins this late
        cmd += ['--budget', str(int(tmo * 0.6))]
    t0 = time.time()
    err_path = out + '.err'
    with open(err_path, 'wb') as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=subprocess.STDOUT, env=env, start_new_session=True, cwd=env['VP_SCRATCH'])
        try:
            rc = p.wait(tmo)
        except subprocess.TimeoutExpired:
            rc = 'timeout'
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.wait()
    err = open(err_path, 'rb').read().decode(errors='replace')
    if job.get('plain'):  # an executable without our reporting, e.g. the project's tests
        m = re.findall(r'(?:All tests passed|assertions?:)[^\n]*?(\d+)', err)
        json.dump({'done': True, 'evaluations': 1, 'counters': {'test-runs': 1, 'assertions': int(m[0]) if m else 0}, 'samples': [], 'violations': []},
                  open(out + '.json', 'w'))
    res = {'shard': shard, 'rc': rc, 'err': err, 'cmd': cmd, 'wall': time.time() - t0, 'job': job['name'], 'tier': tier}
    if os.path.exists(out + '.json'):
        try:
            res['json'] = json.load(open(out + '.json'))
        except Exception as e:  # truncated
            res['json_error'] = str(e)
    if os.path.exists(out + '.cur'):
        c = open(out + '.cur', 'rb').read()
        res['cur'] = c.split(b'\0')[0].decode(errors='replace')
    if os.path.exists(out + '.hash'):
        a = array.array('Q')
        with open(out + '.hash', 'rb') as f:
            a.frombytes(f.read())
        res['hash'] = a
    shutil.rmtree(env['VP_SCRATCH'], ignore_errors=True)
    return res


def shard_violations(r):
    """List of (key, message, case) and whether the shard is inconclusive."""
    v = []
    js = r.get('json') or {}
    for x in js.get('violations', []):
        v.append((x['key'], x['msg'], x['case']))
    rc = r['rc']
    if rc == 0 and js.get('done'):
        return v, None
    if rc == 'timeout':
        return v, 'timeout'
    if rc == 97:
        return v, 'hang'
    if rc in (-9, 137):
        return v, 'killed'
    if rc == 96:
        return v, 'environment'
    if rc == 0 and not js.get('done'):
        return v, 'no result'
    v.append((crash_key(rc if isinstance(rc, int) else -1, r['err']), r['err'][-3000:], r.get('cur', '')))
    return v, None


# What a crash-only check looks for in the output of a run that crashed.
SIGNS = {'memory': r'AddressSanitizer|runtime error:|std::[^\n]*Assertion|glibcxx|Process terminating with default action of signal 11|'
                   r'==\d+== (Conditional jump|Use of uninit|Invalid |Syscall param|Mismatched|Source and dest|Argument )',
         'race': r'WARNING: ThreadSanitizer'}


def known_findings(pid):
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    for line in open(path):
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


def save_replay(pid, n, r, key, msg, case):
    d = os.path.join(VERIF, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (pid, n))
    json.dump({'property': pid, 'key': key, 'message': msg, 'case': case, 'command': r.get('cmd'), 'job': r.get('job'),
               'shard': r.get('shard'), 'env': {k: v for k, v in ENV.items()},
               'how': 'build with "python3 run.py %s", then run the command (drop --out to see progress)' % pid,
               'log_tail': r.get('err', '')[-4000:]}, open(path, 'w'), indent=1)
    return path


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    pid = sys.argv[1]
    tier = 'thorough' if 'thorough' in sys.argv[2:] or (os.environ.get('VERIF_TIER') == 'thorough' and 'quick' not in sys.argv[2:]) else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if pid == 'setup':
        for t in ('g++', 'valgrind', 'python3'):
            if not shutil.which(t):
                print('missing', t)
                return 2
        os.makedirs(BUILD, exist_ok=True)
        return 0
    chk = CHECKS[pid]
    t0 = time.time()
    pool = cf.ThreadPoolExecutor(NCPU)
    try:
        jobs = chk['jobs'](tier) if callable(chk['jobs']) else chk['jobs']
        bpool = cf.ThreadPoolExecutor(max(2, len(jobs)))
        exes = list(bpool.map(lambda j: build(j, pool) if j.get('src') else None, jobs))
        for j in jobs:  # further executables the harness starts
            j['env'] = dict(j.get('env', {}))
            for name, exe in zip(j.get('also', {}), bpool.map(lambda k: build(k, pool), j.get('also', {}).values())):
                j['env'][name] = exe
    except BuildError as e:
        print('BUILD FAILED\n' + str(e))
        return 2
    tb = time.time() - t0
    workdir = os.path.join(BUILD, 'run', '%s-%d' % (pid, os.getpid()))
    os.makedirs(workdir, exist_ok=True)
    tasks = []
    for j, exe in zip(jobs, exes):
        n = j.get('shards', NCPU)
        if tier == 'thorough':
            n = j.get('tshards', n)
        for s in range(n):
            tasks.append((j, exe, s, n))
    only_crash = chk.get('only_crash')
    # exclusive jobs (timing or port sensitive) run with limited parallelism
    results = []
    wpool = cf.ThreadPoolExecutor(chk.get('parallel', NCPU))
    futs = [wpool.submit(one_shard, exe, j, s, n, seed, tier, workdir) for (j, exe, s, n) in tasks]
    retry = []
    for f, (j, exe, s, n) in zip(futs, tasks):
        r = f.result()
        v, inc = shard_violations(r)
        if only_crash and inc and not v:  # progress is for other checks to judge
            inc = None
        r['viol'] = v
        if inc and not v:
            r['first_failure'] = inc
            retry.append((r, j, exe, s, n))
        results.append(r)
    # Inconclusive shards run again with the machine to themselves, a few copies at once (what
    # stopped progress may need a particular schedule); the first shard that stalls again settles
    # it, and shards are left unsettled (and recorded as such) when the time for it is over.
    settled = [k for k, _ in known_findings(pid)]
    limit = 600 if tier == 'quick' else 7200
    for r, j, exe, s, n in retry:
        if any(k[0] not in settled for x in results for k in x['viol']) or time.time() - t0 > limit:
            r['unsettled'] = True
            continue
        inc = r['first_failure']
        again = list(wpool.map(lambda k: one_shard(exe, j, s, n, seed, tier, workdir, tag='-retry%d' % k), range(3)))
        judged = [(x,) + shard_violations(x) for x in again]
        bad = [x for x in judged if x[1]] or [x for x in judged if x[2]]
        x, v2, inc2 = (bad or judged)[0]
        x['first_failure'] = inc
        x['viol'] = v2
        results[results.index(r)] = x
        if inc2 and not v2:
            if inc2 in ('hang', 'timeout', 'killed'):
                x['viol'] = [('no-progress', 'the run made no progress twice (%s, then %s); last case: %s' % (inc, inc2, x.get('cur', '')), x.get('cur', ''))]
            else:
                print('HARNESS ERROR job=%s shard=%d: %s rc=%s\n%s' % (j['name'], s, inc2, x['rc'], x['err'][-2000:]))
                return 2
    shutil.rmtree(workdir, ignore_errors=True)

    evals, hashes, counters, samples, viols = 0, set(), {}, [], []
    distinct_fallback = 0
    for r in results:
        js = r.get('json') or {}
        evals += js.get('evaluations', 0)
        if 'hash' in r:
            tagh = hash(r['job']) & 0xffff if len(jobs) > 1 else 0
            hashes.update((tagh, x) for x in r['hash']) if tagh else hashes.update(r['hash'])
        for k, n in js.get('counters', {}).items():
            k = k if len(jobs) == 1 else r['job'] + '.' + k
            counters[k] = max(counters.get(k, 0), n) if k.split('.')[-1].startswith('max_') else counters.get(k, 0) + n
        for s in js.get('samples', []):
            if len(samples) < 12:
                samples.append(s if len(jobs) == 1 else r['job'] + ': ' + s)
        for key, msg, case in r['viol']:
            if only_crash and not re.search(SIGNS[only_crash], r['err'] if key.startswith('crash:') else msg):
                counters['other-failures'] = counters.get('other-failures', 0) + 1
                if os.environ.get('VP_VERBOSE'):
                    print('    other failure in', r['job'], key, msg[-800:], case[:300])
                continue
            viols.append((r, key, msg, case))
    known = known_findings(pid)
    new, seen_known = [], {}
    for r, key, msg, case in viols:
        k = [d for kk, d in known if kk == key]
        if k:
            seen_known[key] = k[0]
        elif key not in [x[1] for x in new]:
            new.append((r, key, msg, case))
    wall = time.time() - t0
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(hashes), 'rule': chk['rule'], 'samples': samples[:12],
                       'observed': counters, 'jobs': sorted({j['name'] for j in jobs}), 'shards': len(tasks),
                       'build_s': round(tb, 1),
                       'retried_shards': [{'job': r['job'], 'shard': r['shard'], 'first': r['first_failure'], 'settled': 'unsettled' not in r} for r in results if 'first_failure' in r]},
          'assumptions': chk.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', pid + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.rename(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))
    for key, what in known:
        # the finding is listed whether or not this run's workload hit it
        print('KNOWN-FINDING: property=%s %s%s' % (pid, what, '' if key in seen_known else ' (not hit in this run)'))
    print('%s %s seed=%d: %d evaluations, %d distinct, %d violations, %.1f s (build %.1f s)' %
          (pid, tier, seed, evals, len(hashes), len(new), wall, tb))
    if os.environ.get('VP_VERBOSE'):
        for k in sorted(counters):
            print('   ', k, counters[k])
        for r in results:
            if r['wall'] > 1:
                print('    shard', r['job'], r['shard'], '%.1f s' % r['wall'])
    if new:
        for n, (r, key, msg, case) in enumerate(new[:20]):
            path = save_replay(pid, n, r, key, msg, case)
            print('  key=%s\n    %s\n    case: %s' % (key, msg[-600:].replace('\n', '\n    '), case[:400]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if evals == 0:
        print('nothing was observed')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
