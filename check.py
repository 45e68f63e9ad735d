#!/usr/bin/env python3
"""check.py - decide one property of CODD by generated-input search.

  check.py ID [--tier quick|thorough]    run the check (tier and seed default to VERIF_TIER / VERIF_SEED)
  check.py ID --replay FILE              run one saved failing case again (exit 1 when it still fails)
  check.py --list                        the known ids
  check.py --setup                       self-test of the toolchain (builds and runs one harness)

Builds harness/<ID>.cpp with /repo's current src/ twice (plain -O2, and ASan+UBSan with assertions on), runs both, merges their
counters into evidence/<ID>.json.  Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.
Exit 2: the check itself could not run (e.g. the tree does not compile)."""
import concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CODD_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
COMMON = ['-std=gnu++23', '-D_NDEBUG', '-w', '-pthread']
PLAIN = COMMON + ['-O2', '-DNDEBUG', '-ftrivial-auto-var-init=pattern']   # what is read uninitialised is junk in every run
SAN = COMMON + ['-O1', '-g', '-DPBT_SAN', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
                '-fno-omit-frame-pointer']
# wall caps (s) per variant: reaching one only reduces how many cases are run (reported in the evidence), it
# never decides a verdict
CAPS = {'quick': {'plain': 230, 'san': 200}, 'thorough': {'plain': 520, 'san': 240}}


def ids():
    return sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(HERE, 'harness', '*.cpp')))


def digest(files, flags):
    h = hashlib.sha256(repr(flags).encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def start_build(pid, variant):
    """returns (binary, [Popen...], link-command) ; empty list when cached"""
    flags = PLAIN if variant == 'plain' else SAN
    srcs = sorted(glob.glob(os.path.join(REPO, 'src', '*.cpp')))
    hdrs = [f for f in glob.glob(os.path.join(REPO, 'src', '**'), recursive=True) if os.path.isfile(f)]
    harness = os.path.join(HERE, 'harness', pid + '.cpp')
    libs = glob.glob(os.path.join(HERE, 'lib', '*'))
    key = digest(hdrs + libs + [harness], flags)
    out = os.path.join(BUILD, '%s.%s.%s' % (pid, variant, key))
    if os.path.exists(out):
        return out, [], None, None
    tmp = tempfile.mkdtemp(prefix='b.', dir=BUILD)
    inc = ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(HERE, 'lib')]
    procs, objs = [], []
    for i, f in enumerate([harness] + srcs):
        o = os.path.join(tmp, '%d.o' % i)
        objs.append(o)
        procs.append((f, subprocess.Popen(['g++'] + flags + inc + ['-c', f, '-o', o], stdout=subprocess.PIPE,
                                          stderr=subprocess.STDOUT)))
    return out, procs, ['g++'] + flags + objs + ['-o', os.path.join(tmp, 'bin')], tmp


def build(pid, variants):
    os.makedirs(BUILD, exist_ok=True)
    jobs = {v: start_build(pid, v) for v in variants}
    res = {}
    for v, (out, procs, link, tmp) in jobs.items():
        if link is None:
            res[v] = out
            continue
        ok = True
        for f, p in procs:
            log = p.communicate()[0]
            if p.returncode:
                ok = False
                sys.stderr.write('compiling %s failed:\n%s\n' % (f, log.decode(errors='replace')[:4000]))
        if ok:
            r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                ok = False
                sys.stderr.write('linking failed:\n%s\n' % r.stdout.decode(errors='replace')[:4000])
        if ok:
            for old in glob.glob(os.path.join(BUILD, '%s.%s.*' % (pid, v))):
                os.unlink(old)
            os.replace(os.path.join(tmp, 'bin'), out)
            res[v] = out
        shutil.rmtree(tmp, ignore_errors=True)
        if not ok:
            print('ERROR: the harness for %s does not build against %s' % (pid, REPO))
            sys.exit(2)
    return res


# the shipped applications.  Those with a listed finding (known-findings.txt) are built so that the finding does not hide the
# rest: assertions off where the program's own checker is wrong, unset automatic variables 0 where the program reads one.
# 'known': the sanitised build in which the listed inputs are tried again.
NO_ASSERT = ['misp', 'misp2', 'misp3']
ZEROED = ['tsp_test3', 'tsp_test4', 'tsptw']
DEFECTIVE = ['knapsack2', 'misp5', 'tsp_test2']
EXAMPLES = {
    'plain': ['knapsack', 'misp4', 'misp5', 'misp4_lag', 'coloring', 'coloring2', 'coloring3', 'tsp', 'gruler', 'gruler_mid', 'gruler_midlb'] + NO_ASSERT + ZEROED,
    'san': ['knapsack', 'misp4', 'misp4_lag', 'coloring', 'coloring2', 'coloring3', 'tsp', 'gruler', 'gruler_mid', 'gruler_midlb'] + NO_ASSERT + ZEROED,
    'known': NO_ASSERT + ZEROED + DEFECTIVE}


def example_flags(variant, name):
    if variant == 'known':
        return SAN + ['-ftrivial-auto-var-init=pattern']
    return (PLAIN if variant == 'plain' else SAN) + (['-DNDEBUG'] if name in NO_ASSERT else []) + \
        (['-ftrivial-auto-var-init=zero'] if name in ZEROED else [])


def build_examples(variant):
    """the shipped applications, from /repo/examples as they are now; returns the directory of the binaries"""
    flags, names = example_flags(variant, ''), EXAMPLES[variant]
    srcs = sorted(glob.glob(os.path.join(REPO, 'src', '*.cpp')))
    hdrs = [f for f in glob.glob(os.path.join(REPO, 'src', '**'), recursive=True) if os.path.isfile(f)]
    exs = [os.path.join(REPO, 'examples', x + '.cpp') for x in names]
    out = os.path.join(BUILD, 'examples.%s.%s' % (variant, digest(hdrs + exs, [example_flags(variant, x) for x in names])))
    if os.path.isdir(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='x.', dir=BUILD)
    inc = ['-I' + os.path.join(REPO, 'src')]
    todo = [(f, os.path.join(tmp, '%d.%s.o' % (i, os.path.basename(f)))) for i, f in enumerate(exs + srcs)]
    objs = [o for f, o in todo[len(exs):]]

    def one(fo):
        fl = example_flags(variant, os.path.basename(fo[0])[:-4]) if fo[0] in exs else flags
        return fo[0], subprocess.run(['g++'] + fl + inc + ['-include', 'cmath', '-c', fo[0], '-o', fo[1]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)

    def link(i):
        return exs[i], subprocess.run(['g++'] + flags + [todo[i][1]] + objs + ['-o', os.path.join(tmp, names[i])],
                                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as pool:
        for step in ((one, todo), (link, range(len(exs)))):
            for f, r in pool.map(*step):
                if r.returncode:
                    sys.stderr.write('building %s failed:\n%s\n' % (f, r.stdout.decode(errors='replace')[:4000]))
                    shutil.rmtree(tmp, ignore_errors=True)
                    print('ERROR: the examples of %s do not build' % REPO)
                    sys.exit(2)
    for f, o in todo:
        os.unlink(o)
    for old in glob.glob(os.path.join(BUILD, 'examples.%s.*' % variant)):
        shutil.rmtree(old, ignore_errors=True)
    os.rename(tmp, out)
    return out


def env(pid, variant):
    e = dict(os.environ)
    if pid.startswith('A'):
        e['CODD_EXAMPLES'] = build_examples(variant)
    e['MALLOC_PERTURB_'] = '165'
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=0:handle_abort=1:detect_stack_use_after_return=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
    return e


def known_findings(pid):
    out = []
    with open(os.path.join(HERE, 'known-findings.txt')) as f:
        for line in f:
            if line.startswith('known: property=%s ' % pid):
                out.append(line.split(' ', 2)[2].strip())
    return out


def main(argv):
    if '--list' in argv:
        print('\n'.join(ids()))
        return 0
    if '--setup' in argv:
        build('D05', ['plain', 'san'])
        return 0
    pid = argv[0]
    opt = dict(zip(argv[1::2], argv[2::2]))
    tier = opt.get('--tier', os.environ.get('VERIF_TIER', 'quick'))
    seed = int(opt.get('--seed', os.environ.get('VERIF_SEED', '1')))
    jobs = str(os.cpu_count() or 8)
    if pid not in ids():
        print('ERROR: no such check: ' + pid)
        return 2
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='codd.' + pid + '.')
    try:
        if '--replay' in opt:
            with open(opt['--replay']) as f:
                variant = 'san' if any(l.startswith('# variant san') for l in f) else 'plain'
            b = build(pid, [variant])[variant]
            return subprocess.run([b, '--replay', opt['--replay'], '--dir', scratch], env=env(pid, variant)).returncode
        variants = ['plain', 'san']
        bins = build(pid, variants)
        envs = {v: env(pid, v) for v in variants}
        tb = time.time() - t0
        cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'nontrivial': 0, 'rule': '', 'samples': [], 'labels': {},
               'variants': {}, 'build_s': round(tb, 1)}
        violations, notes, done = 0, [], set()
        # listed findings: each harness replays its own fixed inputs (--known) and answers one line per input
        kf = known_findings(pid)
        if kf:
            r = subprocess.run([bins['san' if pid.startswith('A') else 'plain'], '--known', '1', '--dir', scratch], env=env(pid, 'known' if pid.startswith('A') else 'plain'), stdout=subprocess.PIPE, timeout=300)
            still = [l[len('STILL '):] for l in r.stdout.decode(errors='replace').splitlines() if l.startswith('STILL ')]
            for k in kf:
                if any(s.split(' ')[0] == k.split(' ')[0] for s in still):
                    print('KNOWN-FINDING: property=%s %s' % (pid, k))
        for v in variants:
            res = os.path.join(scratch, v + '.json')
            rep = os.path.join(scratch, v + '.replay')
            d = os.path.join(scratch, v)
            os.mkdir(d)
            cmd = [bins[v], '--seed', str(seed), '--tier', tier, '--dir', d, '--out', res, '--replay-out', rep,
                   '--jobs', jobs, '--cap', str(CAPS[tier][v])]
            if '--mult' in opt:
                cmd += ['--mult', opt['--mult']]
            r = subprocess.run(cmd, env=envs[v], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=840)
            if not os.path.exists(res) or r.returncode not in (0, 1):
                print(r.stdout.decode(errors='replace')[:3000])
                print('ERROR: the %s harness of %s ended with %d' % (v, pid, r.returncode))
                return 2
            with open(res) as f:
                j = json.load(f)
            cov['evaluations'] += j['evaluations']
            cov['nontrivial'] += j['nontrivial']
            cov['distinct_nontrivial'] += j['distinct_nontrivial'] if v == 'plain' else 0
            cov['rule'] = 'cases are drawn from a seeded generator; non-trivial: ' + '; '.join(
                '%s - %s' % kv for kv in j['rules'].items()) + ' (distinct: by the fingerprint of the generated case, plain build only)'
            for k, n in j['labels'].items():
                cov['labels'][k] = cov['labels'].get(k, 0) + n
            if v == 'plain' or not cov['samples']:
                cov['samples'] = [s[:1500] for s in j['samples'][:8]]
            cov['variants'][v] = {k: j[k] for k in ('evaluations', 'nontrivial', 'distinct_nontrivial', 'skipped_by_cap', 'wall_s', 'per_property')}
            if j['flake']:
                notes.append('%s: %s' % (v, j['flake']))
                print('note: not reproduced, not counted: ' + j['flake'])
            if r.returncode == 1:
                violations += 1
                os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
                path = os.path.join(HERE, 'replays', '%s-%s-%s-%d.replay' % (pid, v, tier, seed))
                with open(rep) as f:
                    body = f.read()
                with open(path, 'w') as f:
                    f.write('# property %s\n# variant %s\n' % (pid, v) + body)
                print('%s build: %s' % (v, j['message'][:1800]))
                print('VIOLATION property=%s replay=%s' % (pid, path))
                break
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
              'wall_s': round(time.time() - t0, 2), 'violations': violations,
              'assumptions': ['the oracle in harness/%s.cpp and lib/ is right' % pid,
                              'compiled with g++ -std=gnu++23, asserts off (as the repository\'s release build) in the plain variant, on in the sanitised one']}
        if notes:
            ev['coverage']['not_reproduced'] = notes
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if not violations:
            print('%s: held on %d cases (%d non-trivial), %.0f s' % (pid, cov['evaluations'], cov['nontrivial'], time.time() - t0))
        return 1 if violations else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(2)
    sys.exit(main(sys.argv[1:]))
