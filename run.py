#!/usr/bin/env python3
"""Driver of the monitors.

  run.py check C04          decide one property (tier from VERIF_TIER, seed from VERIF_SEED)
  run.py setup              build every configuration once
  run.py replay FILE        run the case of a replay file again

Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Anything else: the check
itself failed or could not decide.
"""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

import generator

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, '.build')
REPLAY = os.path.join(VERIF, '.replay')
EVIDENCE = os.path.join(VERIF, 'evidence')
FINDINGS = os.path.join(VERIF, 'known-findings.txt')
TARGET = 'x86_64-unknown-linux-gnu'
CORES = max(1, min(8, os.cpu_count() or 1))

TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1')) & 0xFFFFFFFFFFFF
except ValueError:
    SEED = 1

PROPS = ['C%02d' % i for i in range(1, 28)]
ALL = PROPS + ['C28']   # C28 has no part in the harness


class Trouble(Exception):
    """the check could not be carried out"""


def say(*a):
    print(*a, flush=True)


# ---- building ----------------------------------------------------------------

def tree_hash():
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, 'src'), os.path.join(HARNESS, 'mon')):
        for d, ds, fs in os.walk(root):
            ds.sort()
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, 'Cargo.toml'), os.path.join(HARNESS, 'Cargo.toml'), os.path.join(HARNESS, 'Cargo.lock')]
    if os.path.exists(os.path.join(REPO, 'build.rs')):
        files.append(os.path.join(REPO, 'build.rs'))
    for f in sorted(files):
        try:
            with open(f, 'rb') as fh:
                data = fh.read()
        except OSError:
            continue
        h.update(f.encode() + b'\0' + str(len(data)).encode() + b'\0' + data)
    return h.hexdigest()[:16]


def tidy(keep):
    """drops builds of earlier trees; recent ones may be in use"""
    try:
        old = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d != keep]
    except OSError:
        return
    for d in old:
        try:
            if re.fullmatch(r'[0-9a-f]{16}', os.path.basename(d)) and time.time() - os.path.getmtime(d) > 3 * 3600:
                shutil.rmtree(d, ignore_errors=True)
        except OSError:
            pass


def base_env():
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTUP_TOOLCHAIN', 'CARGO_BUILD_TARGET', 'MIRIFLAGS', 'RUST_BACKTRACE',
              'CARGO_INCREMENTAL', 'CARGO_PROFILE_DEV_DEBUG'):
        env.pop(k, None)
    env.setdefault('HOME', '/root')
    env['CARGO_NET_OFFLINE'] = 'true'
    env['CARGO_TERM_COLOR'] = 'never'
    return env


def cargo(args, env, what):
    p = subprocess.run(['cargo'] + args, cwd=HARNESS, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode:
        raise Trouble('building %s failed:\n%s' % (what, p.stdout[-4000:]))


MIRIFLAGS = '-Zmiri-disable-isolation -Zmiri-ignore-leaks'


def build(kind):
    """builds one configuration from the working tree; returns its command"""
    top = os.path.join(BUILD, tree_hash())
    os.makedirs(top, exist_ok=True)
    env = base_env()
    if kind in ('checked', 'plain'):
        env['RUSTUP_TOOLCHAIN'] = 'stable-x86_64-unknown-linux-gnu'
        env['CARGO_TARGET_DIR'] = os.path.join(top, 'native')
        profile = {'checked': 'checked', 'plain': 'release'}[kind]
        cargo(['build', '--offline', '--profile', profile], env, kind)
        return [os.path.join(top, 'native', profile, 'vh')], base_env()
    if kind == 'asan':
        env['RUSTUP_TOOLCHAIN'] = 'nightly-x86_64-unknown-linux-gnu'
        env['CARGO_TARGET_DIR'] = os.path.join(top, 'asan')
        env['RUSTFLAGS'] = '-Zsanitizer=address'
        cargo(['build', '--offline', '--profile', 'checked', '--target', TARGET], env, kind)
        renv = base_env()
        renv['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=0'
        return [os.path.join(top, 'asan', TARGET, 'checked', 'vh')], renv
    if kind == 'miri':
        env['RUSTUP_TOOLCHAIN'] = 'nightly-x86_64-unknown-linux-gnu'
        env['CARGO_TARGET_DIR'] = os.path.join(top, 'miri')
        env['MIRIFLAGS'] = MIRIFLAGS
        # compiles and runs one empty workload
        cargo(['miri', 'run', '--offline', '--', '--prop', 'C22', '--list'], env, kind)
        return ['cargo', 'miri', 'run', '--offline', '--'], env
    raise Trouble('unknown configuration ' + kind)


# ---- running the harness -------------------------------------------------------

def start(cmd, env, args, timeout, cpu=None):
    """one harness process; returns (status, stdout, stderr); status None after a timeout"""
    def limits():
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    p = subprocess.Popen(cmd + args, cwd=HARNESS, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        st = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        st = None
    return st, o.decode(errors='replace'), e.decode(errors='replace')


def tmp(name):
    d = os.path.join(BUILD, 'tmp')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, '%s-%d' % (name, os.getpid()))


def harness(kind, built, prop, extra, timeout, name=None):
    out = tmp((name or prop + kind) + '.json')
    if os.path.exists(out):
        os.unlink(out)
    cmd, env = built
    st, o, e = start(cmd, env, ['--prop', prop, '--seed', str(SEED), '--out', out] + extra, timeout)
    rep = None
    try:
        with open(out) as fh:
            rep = json.load(fh)
        os.unlink(out)
    except (OSError, ValueError):
        rep = None
    return st, o, e, rep


CASE_CPU = 60   # seconds of CPU time for one case replayed alone; cases take milliseconds


def confirm(kind, built, prop, workload, index, tier='quick', seed=None):
    """runs one case alone; returns what was observed, None if nothing, or raises"""
    cmd, env = built
    args = ['--prop', prop, '--seed', str(SEED if seed is None else seed), '--tier', tier, '--threads', '1', '--only', workload, '--index', str(index)]
    st, o, e = start(cmd, env, args, 600 if kind != 'miri' else 1500, None if kind == 'miri' else CASE_CPU)
    if st == 0:
        return None
    if st == 1:
        m = re.search(r'^VIOLATED (.*)', o, re.M | re.S)
        return m.group(1).strip() if m else 'violated'
    if st == 77:
        return 'takes memory without bound (stopped at 1 GiB held or 6 GiB requested by one case)'
    if st in (-signal.SIGXCPU, -signal.SIGKILL) and kind != 'miri':
        return 'does not finish: no result after %d s of CPU time for one case' % CASE_CPU
    if sanitizer(kind, st, e):
        return sanitizer(kind, st, e)
    if st is not None and st < 0 and -st in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE, signal.SIGTRAP):
        return 'process killed by %s: %s' % (signal.Signals(-st).name, last_line(e))
    raise Trouble('replay of %s %s case %s ended with %s: %s' % (prop, workload, index, st, (o + e)[-800:]))


def confirm_sequence(kind, built, prop, workload, index, mult):
    """for a case that fails in the run but not alone: runs the cases leading up to it, then the whole workload"""
    for first, last, threads in ((max(0, index - 3000), index + 1, 1), (0, None, CORES), (0, None, CORES)):
        args = ['--tier', TIER, '--mult', str(mult), '--threads', str(threads), '--only', workload, '--from', str(first)] + (['--to', str(last)] if last else [])
        st, o, e, rep = harness(kind, built, prop, args, 1500)
        if st == 1 and rep and rep['failures']:
            return args, 'case %d, only in sequence with others: %s' % (rep['failures'][0]['index'], rep['failures'][0]['what'])
    return None


def last_line(e):
    ls = [l for l in e.strip().splitlines() if l.strip() and not l.startswith('VH-')]
    ls = [l for l in ls if 'panicked' in l or 'unsafe precondition' in l or 'overflow' in l] or ls
    return ls[-1][:300] if ls else ''


def sanitizer(kind, st, e):
    if kind == 'miri':
        m = re.search(r'^error: (Undefined Behavior: .*|memory leaked.*|.*data race.*)$', e, re.M)
        if m:
            at = re.search(r'^\s*--> (\S+)', e[m.end():], re.M)
            return 'Miri: %s%s' % (m.group(1), ' at ' + at.group(1) if at else '')
    if kind == 'asan' and ('AddressSanitizer' in e):
        m = re.search(r'ERROR: AddressSanitizer: ([^\n]*)', e)
        # running out of memory or stack under the sanitizer decides nothing
        if m and not re.match(r'(out-of-memory|allocation-size-too-big|rss-limit)', m.group(1)):
            at = re.search(r'#\d+ \S+ in (\S*mpegts\S*[^\n]*)', e)
            return 'AddressSanitizer: %s%s' % (m.group(1)[:160], ' in ' + at.group(1)[:200] if at else '')
    return None


def bisect(kind, built, prop, tier, mult):
    """finds the case in which the process dies"""
    if kind == 'miri':
        raise Trouble('not done under Miri')
    cmd, env = built
    st, o, e = start(cmd, env, ['--prop', prop, '--tier', tier, '--mult', str(mult), '--list'], 600)
    if st != 0:
        raise Trouble('cannot list workloads: ' + e[-500:])
    for line in o.split('\n'):
        if not line.strip():
            continue
        wl, n = line.split()
        def dies(a, b):
            st, _, _ = start(cmd, env, ['--prop', prop, '--seed', str(SEED), '--tier', tier, '--mult', str(mult), '--only', wl, '--keep-going', '--threads', '1' if b - a < 64 else str(CORES),
                                        '--from', str(a), '--to', str(b), '--out', '/dev/null'], 900)
            return st is None or st < 0 or st in (77, 78, 99)
        a, b = 0, int(n)
        if not dies(a, b):
            continue
        while b - a > 1:
            m = (a + b) // 2
            if dies(a, m):
                b = m
            elif dies(m, b):
                a = m
            else:
                raise Trouble('%s %s: crash is not reproducible' % (prop, wl))
        _, _, e = start(cmd, env, ['--prop', prop, '--seed', str(SEED), '--tier', tier, '--mult', str(mult), '--only', wl, '--threads', '1', '--trace', '--from', str(a), '--to', str(b), '--out', '/dev/null'], 900)
        m = re.findall(r'^VH-CASE (\S+) (\d+)$', e, re.M)
        return wl, int(m[-1][1]) if m else a
    raise Trouble('%s: crash is not reproducible' % prop)


# ---- findings ------------------------------------------------------------------

def known(prop):
    """listed findings: known: property=C05 workload=<name> match=<regular expression of what is observed>"""
    out = []
    try:
        with open(FINDINGS) as fh:
            for l in fh:
                m = re.match(r'known: property=(\S+) workload=(\S+) match=(.*)$', l.strip())
                if m and m.group(1) == prop:
                    out.append((m.group(2), re.compile(m.group(3)), m.group(3)))
    except OSError:
        pass
    return out


def write_replay(prop, kind, workload, index, tier, what, run_prop=None, sequence=None):
    os.makedirs(REPLAY, exist_ok=True)
    path = os.path.join(REPLAY, '%s-%s-%s-%s-%d.json' % (prop, kind, workload, index, SEED))
    with open(path, 'w') as fh:
        json.dump({'property': prop, 'harness_property': run_prop or prop, 'build': kind, 'workload': workload, 'index': index, 'seed': SEED, 'tier': tier, 'sequence': sequence,
                   'observed': what, 'tree': tree_hash(), 'how': 'python3 run.py replay ' + os.path.relpath(path, VERIF)}, fh, indent=1)
        fh.write('\n')
    return path


LEVEL = {'C05': 'fault_enumeration'}


def evidence(prop, t0, coverage, violations, assumptions):
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as fh:
        json.dump({'property': prop, 'tier': TIER, 'seed': SEED, 'level': LEVEL.get(prop, 'exploration'), 'coverage': coverage, 'assumptions': assumptions,
                   'wall_s': round(time.time() - t0, 2), 'violations': violations}, fh, indent=1, ensure_ascii=True)
        fh.write('\n')


RULE = ('Each case draws its input from (seed, property, workload, case number); sweep workloads enumerate their space whatever the seed. '
        'A case counts as distinct and non-trivial when the monitor judged at least one library result in it and the fingerprint of what was judged differs from all other cases '
        '(the set of fingerprints is capped at 4 million per workload).')
ASSUME = ['the reference encoders, decoders and models in harness/mon are right about the standard',
          'inputs outside the stated domain of the property are not generated',
          'rustc and std are trusted']


# multiples of the harness' base counts, so that a quick check takes up to half a minute and a thorough one some minutes
MULT = {'C01': 3, 'C03': 12, 'C04': 18, 'C05': 5, 'C06': 14, 'C07': 20, 'C08': 18, 'C09': 12, 'C10': 30, 'C11': 30, 'C12': 24, 'C13': 14, 'C14': 20, 'C15': 10, 'C16': 18,
        'C17': 40, 'C18': 60, 'C19': 24, 'C20': 40, 'C21': 40, 'C22': 20, 'C23': 30, 'C24': 6, 'C25': 6, 'C26': 8, 'C27': 60}
MULT_THOROUGH = {'C01': 1, 'C03': 8, 'C04': 6, 'C05': 2, 'C06': 5, 'C07': 7, 'C08': 6, 'C09': 4, 'C10': 25, 'C11': 15, 'C12': 9, 'C13': 4, 'C14': 9, 'C15': 3, 'C16': 5,
                 'C17': 25, 'C18': 50, 'C19': 10, 'C20': 20, 'C21': 20, 'C22': 20, 'C23': 15, 'C24': 2, 'C25': 2, 'C26': 2, 'C27': 30}


def check(prop):
    t0 = time.time()
    if prop == 'C02':
        return check_ub(t0)
    if prop == 'C28':
        return check_generator(t0)
    listed = known(prop)
    mult = MULT[prop] if TIER == 'quick' else MULT_THOROUGH[prop]
    reps = {}
    violations = []
    seen_known = {}
    for kind in ('checked', 'plain'):
        built = build(kind)
        extra = ['--tier', TIER, '--threads', str(CORES), '--mult', str(mult)] + (['--keep-going'] if listed else [])
        st, o, e, rep = harness(kind, built, prop, extra, 3000)
        if st is None:
            raise Trouble('the %s run did not finish in time' % kind)
        m = re.search(r'VH-(RUNAWAY-MEMORY|CPU-WATCHDOG) (\d+) (\d+)', e)
        if st in (77, 78) and m:
            names = start(built[0], built[1], ['--prop', prop, '--list'], 60)[1].split('\n')
            cand = [(names[int(m.group(2))].split()[0], int(m.group(3)))]
        elif st < 0 or (st not in (0, 1, 2)):
            cand = [bisect(kind, built, prop, TIER, mult)]
        elif st == 2 or rep is None:
            raise Trouble('harness error in the %s build: %s' % (kind, e[-1500:]))
        else:
            cand = [(f['workload'], f['index']) for f in rep['failures']]
            if not listed:
                cand = cand[:3]
        if rep:
            reps[kind] = rep
        for wl, ix in cand:
            what, seq = confirm(kind, built, prop, wl, ix), None
            if what is None:
                found = confirm_sequence(kind, built, prop, wl, ix, mult)
                if found is None:
                    raise Trouble('%s %s case %d failed in the run but not again' % (prop, wl, ix))
                seq, what = found
            hit = [t for (w, rx, t) in listed if w in (wl, '*') and rx.search(what)]
            if hit:
                seen_known.setdefault((wl, hit[0]), what)
                continue
            violations.append((write_replay(prop, kind, wl, ix, TIER, what, None, seq), wl, ix, what))
            if len(violations) >= 3:
                break
        if violations:
            break
    for (wl, _), what in sorted(seen_known.items()):
        say('KNOWN-FINDING: property=%s %s: %s' % (prop, wl, what.replace('\n', ' ')[:300]))
    main = reps.get('checked') or reps.get('plain')
    if main is None:
        main = {'evaluations': 0, 'distinct': 0, 'observations': 0, 'counts': {}, 'workloads': {}, 'samples': []}
    cov = {'evaluations': sum(r['evaluations'] for r in reps.values()), 'distinct_nontrivial': main['distinct'], 'rule': RULE, 'samples': main['samples'] or ['none'],
           'distinct_observations': main['observations'], 'observed': main['counts'], 'cases_per_workload': main['workloads'],
           'evaluations_per_build': {k: r['evaluations'] for k, r in reps.items()}, 'builds': 'checked: overflow checks and debug assertions on; plain: release'}
    if violations:
        cov['violating_cases'] = [{'workload': w, 'case': i, 'observed': x[:600]} for _, w, i, x in violations]
    if LEVEL.get(prop) == 'fault_enumeration':
        cov['faults'] = {k: v for k, v in main['counts'].items() if 'fault' in k}
    evidence(prop, t0, cov, len(violations), ASSUME)
    if violations:
        for path, wl, ix, what in violations:
            say('%s case %d: %s' % (wl, ix, what[:1500]))
        say('VIOLATION property=%s replay=%s' % (prop, violations[0][0]))
        return 1
    if main['evaluations'] == 0 or main['distinct'] == 0 or any(v == 0 for v in main['workloads'].values()):
        raise Trouble('nothing was observed')
    say('%s held: %d cases (%d distinct) in each of %d builds, %s, %.1f s' % (prop, main['evaluations'], main['distinct'], len(reps),
        ', '.join('%s %d' % kv for kv in sorted(main['counts'].items())[:6]), time.time() - t0))
    return 0


# ---- C02: undefined behaviour ----------------------------------------------------

def check_ub(t0):
    """The oracles are Miri, AddressSanitizer and std's own precondition checks;
    functional failures of the other properties' workloads are not judged here."""
    quick = TIER == 'quick'
    with cf.ThreadPoolExecutor(4) as ex:
        kinds = list(ex.map(build, ['checked', 'asan', 'miri']))
    built = dict(zip(['checked', 'asan', 'miri'], kinds))
    jobs = []
    # own workloads, judged functionally as well
    jobs.append(('checked', 'C02', ['--tier', TIER, '--threads', '1', '--keep-going', '--mult', '4' if quick else '1']))
    jobs.append(('asan', 'C02', ['--tier', 'quick', '--threads', '1', '--keep-going', '--mult', '1' if quick else '8']))
    for p in PROPS:
        if p != 'C02':
            jobs.append(('checked', p, ['--tier', 'quick', '--threads', '1', '--keep-going']))
            jobs.append(('asan', p, (['--tier', 'tiny', '--mult', '300'] if quick else ['--tier', 'quick']) + ['--threads', '1', '--keep-going']))
    for p in PROPS:
        for part in MIRI_PARTS.get(p, [[]]):
            jobs.append(('miri', p, ['--tier', 'tiny', '--mult', str(1 if quick else 3), '--threads', '1', '--keep-going', '--trace'] + part))
    stats = {'checked': [0, 0, 0], 'asan': [0, 0, 0], 'miri': [0, 0, 0]}
    counts, samples, wls = {}, [], {}
    violations = []
    troubles = []

    def one(job):
        kind, p, extra = job
        # what has been seen decides; nothing further needs to run
        if violations:
            return job, None
        t = time.time()
        r = harness(kind, built[kind], p, extra, 2400, name='%s-%s-%d' % (p, kind, jobs.index(job)))
        if os.environ.get('VERIF_TIMES'):
            say('%6.1f s %s %s %s' % (time.time() - t, kind, p, ' '.join(extra)))
        return job, r

    # the long ones first
    order = sorted(jobs, key=lambda j: ({'miri': 0, 'asan': 1, 'checked': 2}[j[0]], {'C01': 0, 'C24': 0, 'C02': 1, 'C09': 1, 'C04': 2, 'C15': 2, 'C13': 2, 'C12': 2, 'C16': 2}.get(j[1], 3)))
    with cf.ThreadPoolExecutor(CORES) as ex:
        for job, res in ex.map(one, order):
            kind, p, extra = job
            what = None
            if res is None:
                continue
            st, o, e, rep = res
            if st is None:
                troubles.append('%s run of %s did not finish in time' % (kind, p))
                continue
            ub = sanitizer(kind, st, e)
            died = st < 0 or st in (77, 78, 99) or rep is None
            if ub and kind == 'miri':
                m = re.findall(r'^VH-CASE (\S+) (\d+)$', e, re.M)
                wl, ix = (m[-1][0], int(m[-1][1])) if m else ('?', 0)
                violations.append((kind, p, wl, ix, ub))
            elif st in (77, 78):
                # hang or runaway memory: not undefined behaviour, belongs to C01
                troubles.append('%s run of %s stopped: %s' % (kind, p, last_line(e)))
            elif (ub or (died and kind != 'miri')) and violations:
                continue
            elif ub or (died and kind != 'miri'):
                tier = extra[extra.index('--tier') + 1]
                mult = extra[extra.index('--mult') + 1] if '--mult' in extra else '1'
                try:
                    wl, ix = bisect(kind, built[kind], p, tier, mult)
                    what = confirm(kind, built[kind], p, wl, ix)
                except Trouble as t:
                    troubles.append(str(t))
                    continue
                if what and ('Sanitizer' in what or 'killed by' in what) and 'stack overflow' not in what and 'stack-overflow' not in what:
                    violations.append((kind, p, wl, ix, what))
                else:
                    troubles.append('%s run of %s died: %s' % (kind, p, what))
            elif rep is None or (st == 2 and rep.get('errors')):
                troubles.append('%s run of %s: status %s %s' % (kind, p, st, e[-600:]))
            else:
                stats[kind][0] += rep['evaluations']
                stats[kind][1] += rep['distinct']
                stats[kind][2] += 1
                for k, v in rep['counts'].items():
                    counts[kind + ':' + p + ':' + k] = counts.get(kind + ':' + p + ':' + k, 0) + v
                for k, v in rep['workloads'].items():
                    wls[kind + ':' + p + ':' + k] = v
                if p == 'C02' or kind == 'miri':
                    samples += ['%s %s %s' % (kind, p, s) for s in rep['samples'][:1]]
                # values that safe code can never be handed: judged in C02's own workloads
                if p == 'C02' and kind == 'checked':
                    for f in rep['failures'][:3]:
                        if 'INVALID VALUE' in f['what']:
                            violations.append((kind, p, f['workload'], f['index'], f['what']))
    cov = {'evaluations': sum(s[0] for s in stats.values()), 'distinct_nontrivial': sum(s[1] for s in stats.values()),
           'rule': 'One evaluation is one harness case executed under one monitor (Miri, AddressSanitizer, or std precondition checks). ' + RULE,
           'samples': samples[:30] or ['none'], 'cases_per_monitor': {k: s[0] for k, s in stats.items()}, 'distinct_per_monitor': {k: s[1] for k, s in stats.items()},
           'completed_runs_per_monitor': {k: s[2] for k, s in stats.items()}, 'cases_per_workload': wls, 'observed': counts}
    if violations:
        cov['violating_cases'] = [{'build': k, 'harness_property': p, 'workload': w, 'case': i, 'observed': x[:600]} for k, p, w, i, x in violations]
    evidence('C02', t0, cov, len(violations), ASSUME + ['Miri and AddressSanitizer report undefined behaviour they see; aliasing rules are those of Miri'])
    if violations:
        for k, p, w, i, x in violations[:5]:
            say('%s: %s %s case %s: %s' % (k, p, w, i, x[:800]))
        k, p, w, i, x = violations[0]
        say('VIOLATION property=C02 replay=%s' % write_replay('C02', k, w, i, 'quick', x, p))
        return 1
    if troubles:
        raise Trouble('; '.join(troubles)[:3000])
    if any(s[0] == 0 for s in stats.values()):
        raise Trouble('nothing was observed')
    say('C02 held: %s cases, %.1f s' % (', '.join('%s %d' % (k, s[0]) for k, s in stats.items()), time.time() - t0))
    return 0


# workloads whose single case is a large enumeration are left to the other monitors
MIRI_PARTS = {
    'C24': [['--only', 'threads'], ['--only', 'history'], ['--skip', 'threads,history']],
    'C01': [['--skip', 'mux_offsets,section_bytes,loop_sweep,text_selectors,text_hostile,mux_mutated,section_packed'], ['--only', 'text_hostile'], ['--only', 'mux_mutated']],
    'C03': [['--skip', 'sizes']],
    'C04': [['--skip', 'pointer,sizes']],
    'C02': [['--only', 'descriptor_types'], ['--only', 'short_slices'], ['--skip', 'descriptor_types,short_slices']],
    'C05': [['--skip', 'single_bits,single_faults,interchange']],
    'C06': [['--skip', 'checksum_lengths']],
    'C07': [['--skip', 'pat_counts,pmt_descriptor_lengths']],
    'C08': [['--skip', 'nit_descriptor_lengths,sdt_entry_lengths']],
    'C09': [['--skip', 'segment_pairs,schedule'], ['--only', 'schedule']],
    'C11': [['--skip', 'entry_boundaries,eit_entry_lengths']],
    'C12': [['--skip', 'bitrates,words,delivery_flags']],
    'C14': [['--skip', 'characters']],
    'C15': [['--skip', 'limits']],
    'C22': [['--skip', 'letters']],
}


# ---- C28: the table generator ------------------------------------------------------

def generator_tool(kind):
    env = base_env()
    env['RUSTUP_TOOLCHAIN'] = 'stable-x86_64-unknown-linux-gnu'
    try:
        return generator.build(REPO, os.path.join(BUILD, 'generator', '%s-%d' % (kind, os.getpid())), 'rustc', env, kind == 'checked'), env
    except RuntimeError as e:
        raise Trouble(str(e))


def generator_case(exe, env, wl, ix, seed, top):
    if wl == 'no_input':
        return generator.missing_directory(exe, top), 0, 0
    if wl == 'compiles':
        return generator.compiles(exe, 'rustc', env, seed, top), 0, 0
    return generator.judge(exe, wl, ix, seed, top)


def check_generator(t0):
    top = tmp('generator')
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    quick = TIER == 'quick'
    cases = [('no_input', 0), ('compiles', 0)] + [(wl, i) for wl, q, t in generator.WORKLOADS for i in range(q if quick else t)]
    done, tables, codes, wls, prints = {}, 0, 0, {}, set()
    violations, samples = [], []
    try:
        for kind in ('checked', 'plain'):
            exe, env = generator_tool(kind)
            with cf.ThreadPoolExecutor(CORES) as ex:
                for (wl, ix), (what, t, c) in zip(cases, ex.map(lambda k: generator_case(exe, env, k[0], k[1], SEED, top), cases)):
                    done[kind] = done.get(kind, 0) + 1
                    tables += t
                    codes += c
                    if kind == 'checked':
                        wls[wl] = wls.get(wl, 0) + 1
                        prints.add(hashlib.sha256(repr(generator.case(wl, ix, SEED) if wl not in ('no_input', 'compiles') else wl).encode()).digest())
                        if ix < 3 and len(samples) < 20 and wl not in ('no_input', 'compiles'):
                            samples.append('%s %d: files %s' % (wl, ix, ', '.join(n for n, _ in generator.case(wl, ix, SEED)[0])))
                    if what and len(violations) < 3:
                        violations.append((kind, wl, ix, what))
            shutil.rmtree(os.path.dirname(exe), ignore_errors=True)
            if violations:
                break
    except subprocess.TimeoutExpired as e:
        raise Trouble('the generator did not finish in time: %s' % e)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    cov = {'evaluations': sum(done.values()), 'distinct_nontrivial': len(prints), 'evaluations_per_build': done, 'cases_per_workload': wls, 'observed': {'tables_read_back': tables, 'codes_compared': codes},
           'rule': 'One case is one run of the generator in a directory of its own; cases are distinct when the files they provide differ. ', 'samples': samples or ['none']}
    if violations:
        cov['violating_cases'] = [{'workload': w, 'case': i, 'observed': x[:600]} for _, w, i, x in violations]
    evidence('C28', t0, cov, len(violations), ['mapping files follow the format of the Unicode Consortium: code, tab, character', 'rustc and std are trusted'])
    if violations:
        for kind, wl, ix, what in violations:
            say('%s case %d: %s' % (wl, ix, what[:1500]))
        kind, wl, ix, what = violations[0]
        say('VIOLATION property=C28 replay=%s' % write_replay('C28', kind, wl, ix, TIER, what))
        return 1
    if not tables or not codes:
        raise Trouble('nothing was observed')
    say('C28 held: %d runs (%d distinct inputs), %d tables and %d codes compared, %.1f s' % (sum(done.values()), len(prints), tables, codes, time.time() - t0))
    return 0


def replay(path):
    with open(path) as fh:
        r = json.load(fh)
    if r['property'] == 'C28':
        exe, env = generator_tool(r['build'])
        top = tmp('replay')
        os.makedirs(top)
        try:
            what = generator_case(exe, env, r['workload'], r['index'], r['seed'], top)[0]
        finally:
            shutil.rmtree(top, ignore_errors=True)
            shutil.rmtree(os.path.dirname(exe), ignore_errors=True)
        if what is None:
            say('the case passes on this tree')
            return 0
        say(what)
        say('VIOLATION property=C28 replay=%s' % path)
        return 1
    built = build(r['build'])
    if r.get('sequence'):
        global SEED
        SEED = r['seed']
        st, o, e, rep = harness(r['build'], built, r['property'], r['sequence'], 1500)
        if st not in (0, 1) or not rep:
            raise Trouble('replay ended with %s: %s' % (st, e[-800:]))
        what = rep['failures'][0]['what'] if rep['failures'] else None
    else:
        what = confirm(r['build'], built, r.get('harness_property', r['property']), r['workload'], r['index'], r.get('tier', 'quick'), r['seed'])
    if what is None:
        say('the case passes on this tree')
        return 0
    say(what)
    say('VIOLATION property=%s replay=%s' % (r['property'], path))
    return 1


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ['setup']:
            for kind in ('checked', 'plain', 'asan', 'miri'):
                build(kind)
                say('built', kind)
            tidy(tree_hash())
            return 0
        if a[:1] == ['check'] and len(a) == 2 and a[1] in ALL:
            r = check(a[1])
            tidy(tree_hash())
            return r
        if a[:1] == ['replay'] and len(a) == 2:
            return replay(a[1])
    except Trouble as t:
        say('ERROR', t)
        return 2
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
