#!/usr/bin/env python3
"""Driver of every check of /verif.

  check.py ID              run the check of property ID (tier from VERIF_TIER)
  check.py --setup         build the harnesses of every check (fills build/cache)
  check.py --replay FILE   rerun the single case a replay file names

For one property: preprocess each harness unit against /repo's current working
tree, compile it unless the very same preprocessed text is in the cache, run
all units under the sanitizers, merge what the monitors saw, attribute aborts
(assert, ASan, UBSan, TSan, signal, CPU limit) to the case being run, match
every violation key against known_findings.txt, write evidence/ID.json.

Exit 0: held on everything explored.  Exit 1: VIOLATION printed.  Exit 3: the
check itself could not do its work (does not compile, harness vanished).
"""
import sys, os, re, json, time, hashlib, subprocess, shutil, tempfile, resource, signal
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('DISKPP_REPO', '/repo')
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from checks_conf import CHECKS

BUILD = os.path.join(ROOT, 'build')
CACHE = os.path.join(BUILD, 'cache')
REPLAYS = os.path.join(BUILD, 'replays')
JOBS = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 8))

INC = ['-I', REPO + '/libdiskpp/include', '-I', REPO + '/libdiskpp/contrib/triangle',
       '-I', REPO + '/libdiskpp/contrib/jburkardt/include', '-isystem', '/usr/include/eigen3',
       '-I', ROOT + '/lib']
BASE = ['-w', '-D_GLIBCXX_ASSERTIONS', '-DEIGEN_DONT_VECTORIZE', '-UNDEBUG', '-DDISKPP_VERIF',
        '-gline-tables-only', '-fno-omit-frame-pointer']
UB = ('bounds,signed-integer-overflow,integer-divide-by-zero,shift,return,unreachable,'
      'vla-bound,bool,float-cast-overflow,null')
SAN = {
    'asan': ['-O1', '-fsanitize=address,' + UB, '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern'],
    'asan0': ['-O0', '-fsanitize=address,' + UB, '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern'],
    'tsan': ['-O1', '-fsanitize=thread'],
    'plain': ['-O1'],
}
LIBSRC = {
    'jburkardt': ['libdiskpp/contrib/jburkardt/src/' + f for f in
                  ('triangle_dunavant_rule.cpp', 'simplex_gm_rule.cpp', 'jb_common.cpp', 'tetrahedron_arbq_rule.cpp')],
    'triangle': ['libdiskpp/contrib/triangle/triangle_mesher.c'],
    'common': ['libdiskpp/src/common/' + f for f in ('util.cpp', 'colormanip.cpp', 'mapped_file.cpp')],
}
LINK = {'silo': ['-lsiloh5'], 'gmsh': ['-lgmsh'], 'hdf5': ['-lhdf5_serial']}

ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = ('detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=0:'
                       'max_malloc_fill_size=67108864:malloc_fill_byte=255:free_fill_byte=255:max_free_fill_size=4096:'
                       'strict_string_checks=0:detect_stack_use_after_return=1:check_initialization_order=1:'
                       'symbolize=1:handle_abort=0:print_summary=1')
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=99'
ENV['TSAN_OPTIONS'] = 'halt_on_error=0:exitcode=66:history_size=4:second_deadlock_stack=1'
ENV['ASAN_SYMBOLIZER_PATH'] = shutil.which('llvm-symbolizer-18') or shutil.which('llvm-symbolizer') or ''
ENV['MALLOC_PERTURB_'] = '0'


class HarnessError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def compile_obj(src, defs, san, lang, extra=()):
    """Compile one source file to an object, cached by preprocessed text."""
    cc = ['clang', '-std=gnu11'] if lang == 'c' else ['clang++', '-std=c++20', '-Wno-c++11-narrowing', '-Wno-c++11-narrowing-const-reference']
    if lang == 'c':
        defs = list(defs) + ['ANSI_DECLARATORS', 'TRILIBRARY'] if 'triangle' in src else list(defs)
    flags = [f for f in BASE if True] + SAN[san] + ['-D' + d for d in defs] + list(extra)
    os.makedirs(CACHE, exist_ok=True)
    fd, ii = tempfile.mkstemp(suffix='.i' if lang == 'c' else '.ii', dir=CACHE)
    os.close(fd)
    try:
        r = sh(cc + INC + flags + ['-E', src, '-o', ii])
        if r.returncode:
            raise HarnessError('preprocessing %s failed:\n%s' % (src, r.stderr.decode(errors='replace')[-3000:]))
        h = hashlib.sha256()
        h.update(' '.join(cc + flags).encode())
        with open(ii, 'rb') as f:
            for line in f:
                if line.startswith(b'# ') or line == b'\n':
                    continue
                h.update(line)
        obj = os.path.join(CACHE, h.hexdigest()[:40] + '.o')
        if os.path.exists(obj):
            os.utime(obj)
            return obj, True
        tmp = ii + '.o'
        r = sh(cc + flags + ['-c', ii, '-o', tmp])
        if r.returncode:
            if os.path.exists(tmp):
                os.unlink(tmp)
            raise HarnessError('compiling %s failed:\n%s' % (src, r.stderr.decode(errors='replace')[-4000:]))
        os.rename(tmp, obj)
        return obj, False
    finally:
        if os.path.exists(ii):
            os.unlink(ii)


def units_of(pid):
    out = []
    for i, u in enumerate(CHECKS[pid]['units']):
        u = dict(u)
        u.setdefault('defs', [])
        u.setdefault('san', 'asan')
        u.setdefault('libs', [])
        u.setdefault('name', os.path.splitext(u['src'])[0] + ''.join('-' + d.replace('=', '') for d in u['defs'])
                     + ('' if u['san'] == 'asan' else '-' + u['san']))
        out.append(u)
    return out


def build_units(units, pool):
    """Compile everything in parallel, link; returns {unit name: exe}, stats."""
    jobs = {}
    for u in units:
        key = ('h', u['src'], tuple(u['defs']), u['san'])
        if key not in jobs:
            jobs[key] = pool.submit(compile_obj, os.path.join(ROOT, 'harness', u['src']), u['defs'], u['san'], 'c++',
                                    tuple(u.get('cflags', ())))
        for l in u['libs']:
            for s in LIBSRC.get(l, []):
                k2 = ('l', s, u['san'])
                if k2 not in jobs:
                    jobs[k2] = pool.submit(compile_obj, os.path.join(REPO, s), [], u['san'],
                                           'c' if s.endswith('.c') else 'c++', ('-fno-sanitize=all', '-O1') if 'triangle/' in s and u['san'] != 'tsan' else ())
    res = {k: j.result() for k, j in jobs.items()}
    exes = {}
    ncached = sum(1 for v in res.values() if v[1])
    for u in units:
        objs = [res[('h', u['src'], tuple(u['defs']), u['san'])][0]]
        link = []
        for l in u['libs']:
            for s in LIBSRC.get(l, []):
                objs.append(res[('l', s, u['san'])][0])
            link += LINK.get(l, [])
        h = hashlib.sha256((' '.join(objs) + ' '.join(link)).encode()).hexdigest()[:40]
        exe = os.path.join(CACHE, h + '.exe')
        if not os.path.exists(exe):
            sanflag = [f for f in SAN[u['san']] if f.startswith('-fsanitize')]
            lld = ['-fuse-ld=lld'] if os.path.exists('/usr/lib/llvm-18/bin/ld.lld') else []
            r = sh(['clang++'] + sanflag + lld + objs + ['-o', exe + '.tmp%d' % os.getpid()] + link + ['-lpthread', '-lm'])
            if r.returncode:
                raise HarnessError('linking %s failed:\n%s' % (u['name'], r.stderr.decode(errors='replace')[-3000:]))
            os.rename(exe + '.tmp%d' % os.getpid(), exe)
        exes[u['name']] = exe
    return exes, len(res), ncached


def prune_cache(limit=3 << 30):
    try:
        fs = [os.path.join(CACHE, f) for f in os.listdir(CACHE)]
        st = sorted((os.stat(f).st_mtime, os.stat(f).st_size, f) for f in fs)
    except OSError:
        return
    tot = sum(s for _, s, _ in st)
    for _, s, f in st:
        if tot <= limit:
            break
        try:
            os.unlink(f)
        except OSError:
            pass
        tot -= s


def last_case(journal):
    cur, finished = '-', False
    try:
        with open(journal) as f:
            for line in f:
                if line.startswith('CASE '):
                    cur = line[5:].strip()
                elif line.startswith('DONE '):
                    cur = 'after ' + line[5:].strip()
                elif line.startswith('FINISHED'):
                    finished = True
    except OSError:
        pass
    return cur, finished


def classify(err):
    """A stable key and a short text for an abnormal end, from its stderr."""
    m = re.search(r"([\w.+-]+):(\d+): .*?Assertion `(.*?)' failed", err)
    if m:
        return 'assert:%s:%s' % (os.path.basename(m.group(1)), m.group(3)[:90]), m.group(0)[:400]
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m:
        fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (.*?) (/\S+?):(\d+)', err)
        where = next(('%s:%s' % (os.path.basename(f), n) for n0, f, n in fr if '/repo/' in f or '/libdiskpp/' in f), '')
        fn = next((n0 for n0, f, n in fr if '/libdiskpp/' in f), '')
        return 'asan:%s:%s' % (m.group(1), os.path.basename(where.split(':')[0]) if where else '?'), \
            'AddressSanitizer %s at %s in %s' % (m.group(1), where, fn[:160])
    m = re.search(r'([\w.+-]+):(\d+):\d+: runtime error: (.*)', err)
    if m:
        t = re.sub(r'[-\d.e+x]+', 'N', m.group(3))
        return 'ubsan:%s:%s' % (m.group(1), t[:70]), m.group(0)[:400]
    m = re.search(r'WARNING: ThreadSanitizer: ([\w -]+)', err)
    if m:
        fr = re.findall(r'#\d+ (.*?) (/\S+?):(\d+)', err)
        where = next(('%s:%s' % (os.path.basename(f), n) for n0, f, n in fr if '/libdiskpp/' in f), '')
        return 'tsan:%s:%s' % (m.group(1).strip(), where.split(':')[0]), 'ThreadSanitizer %s at %s' % (m.group(1).strip(), where)
    m = re.search(r"terminate called.*?(?:what\(\):\s*(.*))?$", err, re.S | re.M)
    if 'terminate called' in err:
        w = re.search(r'what\(\):\s*(.*)', err)
        return 'terminate:' + (w.group(1)[:80] if w else '?'), 'std::terminate: ' + (w.group(1)[:200] if w else '')
    return None, err[-300:]


def run_unit(u, exe, seed, tier, tmp, cpu, only=None):
    out = os.path.join(tmp, u['name'] + '.json')
    jr = os.path.join(tmp, u['name'] + '.journal')
    scr = os.path.join(tmp, u['name'] + '.scratch')
    os.makedirs(scr, exist_ok=True)
    cmd = [exe, '--seed', str(seed), '--tier', tier, '--out', out, '--journal', jr, '--scratch', scr]
    if only:
        cmd += ['--only', only]

    def lim():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    env = dict(ENV)
    env.update(u.get('env', {}))
    if u.get('asan'):
        env['ASAN_OPTIONS'] += ':' + u['asan']
    t0 = time.time()
    with open(os.path.join(tmp, u['name'] + '.stdout'), 'wb') as so, open(os.path.join(tmp, u['name'] + '.stderr'), 'wb') as se:
        p = subprocess.Popen(cmd, stdout=so, stderr=se, preexec_fn=lim, env=env, cwd=scr)
        rc = p.wait()
    wall = time.time() - t0
    err = open(os.path.join(tmp, u['name'] + '.stderr'), errors='replace').read(400000)
    data, viols = None, []
    try:
        data = json.load(open(out))
    except (OSError, ValueError):
        data = None
    cur, finished = last_case(jr)
    if rc != 0 or not finished:
        key, txt = classify(err)
        if rc == 66 and finished and u['san'] == 'tsan':
            viols.append(dict(key=key or 'tsan:?', case='(whole run)', msg=txt, count=err.count('WARNING: ThreadSanitizer')))
        elif rc < 0 and -rc in (signal.SIGXCPU, signal.SIGKILL):
            if -rc == signal.SIGKILL and os.path.exists('/root/.vp/ended.log') and str(p.pid) in open('/root/.vp/ended.log').read():
                raise HarnessError('unit %s was ended for memory' % u['name'])
            viols.append(dict(key='hang', case=cur, msg='CPU limit of %d s reached; last case %s' % (cpu, cur), count=1))
        elif not os.path.exists(jr):
            raise HarnessError('unit %s did not start (rc=%s): %s' % (u['name'], rc, err[-800:]))
        elif key is None and rc >= 0 and rc not in (99, 1, 134):
            raise HarnessError('unit %s ended with rc=%s without a report: %s' % (u['name'], rc, err[-800:]))
        else:
            viols.append(dict(key=key or 'signal:%s' % (-rc if rc < 0 else rc), case=cur, msg=txt, count=1))
    if data:
        viols = data.get('violations', []) + viols
    for v in viols:
        v['unit'] = u['name']
    return dict(unit=u['name'], rc=rc, wall=wall, data=data, viols=viols, stderr=err, cur=cur)


def load_known():
    known = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r'known:\s+property=(\S+)\s+key=(\S+)\s+case=(\S+)\s+(.*)', line)
            if m:
                known.append(dict(prop=m.group(1), key=m.group(2), case=m.group(3), text=m.group(4)))
    return known


def main():
    if sys.argv[1] == '--setup':
        return setup()
    if sys.argv[1] == '--replay':
        rp = json.load(open(sys.argv[2]))
        pid, only, seed, tier = rp['property'], rp['case'], rp['seed'], rp['tier']
        units = [u for u in units_of(pid) if u['name'] == rp['unit']]
    else:
        pid, only = sys.argv[1], None
        seed = int(os.environ.get('VERIF_SEED', '1'))
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in sys.argv:
            tier = sys.argv[sys.argv.index('--tier') + 1]
        units = units_of(pid)
        if '--unit' in sys.argv:
            units = [u for u in units if sys.argv[sys.argv.index('--unit') + 1] in u['name']]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    pool = ThreadPoolExecutor(JOBS)
    try:
        exes, nobj, ncached = build_units(units, pool)
        tb = time.time() - t0
        os.makedirs(BUILD, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix='diskpp-verif-')
        try:
            cpu = 600 if tier == 'quick' else 3600
            results = list(pool.map(lambda u: run_unit(u, exes[u['name']], seed, tier, tmp, cpu, only), units))
        finally:
            if not os.environ.get('VERIF_KEEP'):
                shutil.rmtree(tmp, ignore_errors=True)
            else:
                print('kept', tmp)
        # a run that crashed is repeated alone, case by case, only in replay mode
        return report(pid, tier, seed, results, t0, tb, nobj, ncached, only, units)
    except HarnessError as e:
        print('CHECK-ERROR property=%s %s' % (pid, e))
        return 3
    finally:
        pool.shutdown()
        prune_cache()


def report(pid, tier, seed, results, t0, tb, nobj, ncached, only, units):
    conf = CHECKS[pid]
    known = [k for k in load_known() if k['prop'] == pid]
    events, skips, sigs, samples = {}, {}, set(), []
    cases = ntcases = 0
    viols = []
    for r in results:
        viols += r['viols']
        d = r['data']
        if not d:
            continue
        cases += d['cases']
        ntcases += d['nontrivial_cases']
        sigs |= {s for s in d['sigs']}
        samples += d['samples'][:max(2, 24 // len(results))]
        for k, e in d['events'].items():
            x = events.setdefault(k, dict(n=0, bad=0, worst_over_tol=0.0, worst_case=''))
            x['n'] += e['n']
            x['bad'] += e['bad']
            if e['worst_over_tol'] >= x['worst_over_tol']:
                x['worst_over_tol'], x['worst_case'] = e['worst_over_tol'], e['worst_case']
        for k, n in d['skips'].items():
            skips[k] = skips.get(k, 0) + n
    new, hit = [], {}
    for v in viols:
        k = next((k for k in known if re.fullmatch(k['key'], v['key']) and re.fullmatch(k['case'], v['case'])), None)
        if k:
            hit.setdefault(k['text'], 0)
            hit[k['text']] += v.get('count', 1)
        else:
            new.append(v)
    seen_known = dict(hit)
    for k in known:
        if k['text'] in hit:
            print('KNOWN-FINDING: property=%s %s (%d occurrences)' % (pid, k['text'], hit.pop(k['text'])))
    # monitors that must have fired
    missing = [m for m in conf.get('must_fire', []) if not any(re.match(m, k) for k in events)]
    nev = sum(e['n'] for e in events.values())
    wall = time.time() - t0
    if not only:
        ev = dict(property=pid, tier=tier, seed=seed, level='exploration', wall_s=round(wall, 1),
                  coverage=dict(evaluations=nev, distinct_nontrivial=len(sigs), rule=conf['rule'], samples=samples[:24],
                                cases=cases, cases_with_events=ntcases, monitors=events, skipped=skips,
                                units=[dict(name=r['unit'], wall_s=round(r['wall'], 2), rc=r['rc']) for r in results],
                                build=dict(objects=nobj, from_cache=ncached, seconds=round(tb, 1)),
                                known_findings_seen=seen_known),
                  assumptions=conf.get('assumptions', []),
                  violations=len(new))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    print('%s tier=%s seed=%d: %d cases, %d monitor events on %d monitors, %d distinct situations, build %.0fs (%d/%d cached), total %.0fs'
          % (pid, tier, seed, cases, nev, len(events), len(sigs), tb, ncached, nobj, wall))
    if os.environ.get('VERIF_VERBOSE'):
        for k, e in sorted(events.items()):
            print('  %-58s n=%-8d bad=%-5d worst/tol=%.2g %s' % (k, e['n'], e['bad'], e['worst_over_tol'], e['worst_case']))
        for k, n in skips.items():
            print('  SKIP', k, n)
        for r in results:
            print('  UNIT %s wall=%.1f rc=%s' % (r['unit'], r['wall'], r['rc']))
            if r['rc'] != 0:
                print(r['stderr'][-6000:])
    if new:
        os.makedirs(os.path.join(REPLAYS, pid), exist_ok=True)
        seen = set()
        for i, v in enumerate(new):
            if v['key'] in seen or len(seen) >= 25:
                continue
            seen.add(v['key'])
            path = os.path.join(REPLAYS, pid, re.sub(r'[^\w.-]+', '_', v['key'])[:80] + '.json')
            with open(path, 'w') as f:
                json.dump(dict(property=pid, unit=v['unit'], case=v['case'], key=v['key'], msg=v['msg'], seed=seed, tier=tier,
                               how='python3 check.py --replay ' + path), f, indent=1)
            print('  [%s] case %s (%s): %s' % (v['key'], v['case'], v['unit'], v['msg'][:600]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if missing and not only:
        print('CHECK-ERROR property=%s monitors never fired: %s' % (pid, missing))
        return 3
    return 0


def setup():
    t0 = time.time()
    pool = ThreadPoolExecutor(JOBS)
    allu, names = [], set()
    for pid in CHECKS:
        allu += units_of(pid)
    try:
        _, n, c = build_units(allu, pool)
    except HarnessError as e:
        # a check whose harness does not build says so itself when it is run
        print('setup: %s' % e)
        n = c = 0
    print('setup: %d objects (%d cached) in %.0f s' % (n, c, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
