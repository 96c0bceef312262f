#!/usr/bin/env python3
"""Builds the explorers from /repo's current tree and runs those that decide one property.

  check.py Cnn              run the check (tier from VERIF_TIER, default quick)
  check.py --replay FILE    rebuild and re-execute one counterexample, with its narration
  check.py --setup          build everything once (warms the cache, not required)
"""
import concurrent.futures as cf, hashlib, json, os, subprocess, sys, time, glob, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')
BUILD = os.environ.get('MC_BUILD', os.path.join(HERE, '.build'))
CEX = os.path.join(HERE, 'cex')
EVID = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known_findings.txt')
sys.path.insert(0, HERE)
from plan import PLAN, ASSUMPTIONS  # noqa: E402

BASE = ['g++', '-std=c++17', '-w', '-DMC_MAIN', '-I', os.path.join(HERE, 'mc'), '-I', os.path.join(REPO, 'include')]
WRAP = ['-Wl,--wrap=posix_memalign', '-Wl,--wrap=free']
VARIANTS = {
    # the library's own release configuration: no instruction-set option, assertions off
    'fast':   ['-O2', '-DNDEBUG'] + WRAP,
    # assertions on, every memory access and integer operation checked
    'asan':   ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment', '-fno-sanitize-recover=all',
               '-D_GLIBCXX_SANITIZE_VECTOR=1', '-fno-omit-frame-pointer'],
    'native': ['-O2', '-DNDEBUG', '-march=native'] + WRAP,
}


# every combination of the options the headers look at
ISA = ['popcnt', 'bmi', 'bmi2', 'lzcnt', 'avx2']
for _m in range(1, 32):
    _f = [ISA[i] for i in range(5) if _m >> i & 1]
    VARIANTS['+'.join(_f)] = ['-O2', '-DNDEBUG'] + ['-m' + f for f in _f] + WRAP
# counts what is executed: every basic block entered, every byte moved or compared by the C library
VARIANTS['steps'] = ['-O1', '-DNDEBUG', '-DMC_STEPS', '-fsanitize-coverage=trace-pc'] + WRAP + [f'-Wl,--wrap=mem{f}' for f in ('set', 'move', 'cpy', 'cmp', 'chr')]
VARIANTS['nommx'] = ['-O2', '-DNDEBUG', '-mno-mmx'] + WRAP
NEEDS = {'popcnt': 'popcnt', 'bmi': 'bmi1', 'bmi2': 'bmi2', 'lzcnt': 'abm', 'avx2': 'avx2'}


def runnable(variant):
    """does this machine have what a build was made for"""
    try:
        flags = set(next(l for l in open('/proc/cpuinfo') if l.startswith('flags')).split())
    except (OSError, StopIteration):
        return True
    return all(NEEDS[f] in flags for f in variant.split('+') if f in NEEDS)


def tree_hash():
    h = hashlib.sha256()
    for pat in ('include/**/*', ):
        for f in sorted(glob.glob(os.path.join(REPO, pat), recursive=True)):
            if os.path.isfile(f):
                h.update(f.encode()); h.update(open(f, 'rb').read())
    for f in sorted(glob.glob(os.path.join(HERE, 'mc', '*'))):
        h.update(open(f, 'rb').read())
    return h.hexdigest()


def build(harness, variant, th):
    src = os.path.join(HERE, 'harness', harness + '.cpp')
    flags = VARIANTS[variant]
    cc = BASE[:1]
    key = hashlib.sha256((th + open(src).read() + ''.join(open(f).read() for f in sorted(glob.glob(os.path.join(HERE, 'harness', '*.hpp')))) +
                          ' '.join(BASE + flags)).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, f'{harness}-{variant}-{key}')
    if os.path.exists(out):
        return out, ''
    os.makedirs(BUILD, exist_ok=True)
    for old in glob.glob(os.path.join(BUILD, f'{harness}-{variant}-*')):
        os.unlink(old)
    tmp = out + f'.{os.getpid()}.tmp'
    comp = [f for f in flags if not f.startswith('-Wl,')]
    link = [f for f in flags if f.startswith('-Wl,')]
    r = subprocess.run(BASE + comp + ['-o', tmp, src] + link + ['-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, r.stdout[-6000:]
    os.rename(tmp, out)
    return out, ''


def headers_build(harness, variant):
    """do the library headers the harness includes compile by themselves"""
    text = open(os.path.join(HERE, 'harness', harness + '.cpp')).read()
    for f in glob.glob(os.path.join(HERE, 'harness', '*.hpp')):
        if os.path.basename(f) in text:
            text = open(f).read() + text
    text = open(os.path.join(HERE, 'mc', 'mc.hpp')).read() + open(os.path.join(HERE, 'harness', 'common.hpp')).read() + text
    tu = ''.join(l + '\n' for l in text.splitlines() if l.startswith('#include') and ('sim_ds/' in l or 'string_util/' in l or '<' in l))
    comp = [f for f in VARIANTS[variant] if not f.startswith('-Wl,')]
    r = subprocess.run(BASE + comp + ['-fsyntax-only', '-x', 'c++', '-'], input=tu, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0


def run(binary, harness, variant, prop, tier, extra=(), timeout=None):
    stats = os.path.join(BUILD, f'stats-{prop}-{harness}-{variant}-{os.getpid()}.json')
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:hard_rss_limit_mb=6000:allocator_may_return_null=0:max_malloc_fill_size=1048576:malloc_fill_byte=165:detect_stack_use_after_return=1'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=0'
    cmd = [binary, '--prop', prop, '--tier', tier, '--stats', stats, '--variant', variant, '--harness', harness,
           '--cex-dir', CEX, *extra]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env, timeout=timeout)
    st = None
    if os.path.exists(stats):
        try:
            st = json.load(open(stats))
        except ValueError:
            pass
        os.unlink(stats)
    return r.returncode, r.stdout, r.stderr, st


def check(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    plan = PLAN[prop]
    units = [(h, v) for h, q, t in plan['units'] for v in (q if tier == 'quick' else t)]
    os.makedirs(CEX, exist_ok=True); os.makedirs(EVID, exist_ok=True)
    for old in glob.glob(os.path.join(CEX, f'{prop}-*')):
        os.unlink(old)
    th = tree_hash()
    with cf.ThreadPoolExecutor(8) as ex:
        built = list(ex.map(lambda u: build(u[0], u[1], th), units))
    res, viol, errors = [], None, 0
    compare = plan.get('compare')
    base_ok = {h for (h, v), (b, _) in zip(units, built) if b is not None and v == 'fast'}
    for (h, v), (b, err) in zip(units, built):
        if b is None:
            if compare and v != 'fast' and h in base_ok:      # the option changes the result: the program does not even compile
                path = os.path.join(CEX, f'{prop}-{h}-{v}-build.cex')
                with open(path, 'w') as f:
                    f.write(f'harness {h}\nproperty {prop}\nvariant {v}\ntier {tier}\nmode build\nviolation builds without options, does not build with {VARIANTS[v]}\n--- case\n{err}\n')
                viol = (h, v, path, f'does not build with {VARIANTS[v]}')
                break
            print(f'BUILD-ERROR harness={h} variant={v}\n{err}')
            if not headers_build(h, v):                       # the tree itself is broken: nothing can be said about behaviour
                return 2
            # the headers are fine, but a program that uses only their documented interface is no longer accepted
            path = os.path.join(CEX, f'{prop}-{h}-{v}-build.cex')
            with open(path, 'w') as f:
                f.write(f'harness {h}\nproperty {prop}\nvariant {v}\ntier {tier}\nmode build\nviolation the headers compile, but a use of the interface this property speaks of does not\n--- case\n{err}\n')
            viol = (h, v, path, 'a use of the documented interface no longer compiles')
            break
    crashed = {}
    for (h, v), (b, _) in zip(units, built):
        if viol is not None:
            break
        if not runnable(v):
            print(f'note: {h}/{v} built but not run, this machine lacks an instruction set')
            continue
        for attempt in (1, 2):
            rc, out, err, st = run(b, h, v, prop, tier)
            if rc in (0, 1):
                break
            print(f'note: {h}/{v} ended with {rc} (attempt {attempt}): {out.strip()[-300:]} {err.strip()[-300:]}')
        if rc not in (0, 1) or st is None:      # another build may still decide (memory errors are definite under asan)
            print(f'CHECK-ERROR harness={h} variant={v} rc={rc}')
            errors += 1
            continue
        n = sum(s['execs'] for s in st['scopes'])
        print(f'{prop} {h}/{v}: {len(st["scopes"])} scopes, {n} executions, {sum(s["edges"] for s in st["scopes"])} transitions, '
              f'{st["states"]} states, {st["wall"]:.1f}s' + ('' if rc == 0 else '  VIOLATED: ' + st['msg']), flush=True)
        res.append((h, v, st))
        if rc == 1 and compare:                       # only a difference between builds violates this property
            scope = os.path.basename(st['cex'])
            crashed[h, v] = (st['cex'], st['msg'])
            continue
        if rc == 1:
            viol = (h, v, st['cex'], st['msg'])
            break
    if errors and viol is None:
        return 2
    # builds that must agree observation by observation
    if viol is None and compare:
        for h in sorted({h for h, _, _ in res}):
            runs = [(v, st) for hh, v, st in res if hh == h]
            bv, bst = runs[0]
            if (h, bv) in crashed:
                print(f'note: {h}/{bv} fails by itself ({crashed[h, bv][1]}): nothing to compare it with')
                continue
            tr = {s['scope']: s['transcript'] for s in bst['scopes']}
            for v, st in runs[1:]:
                if (h, v) in crashed:
                    viol = (h, v, crashed[h, v][0], f'{bv} answers, {v}: {crashed[h, v][1]}')
                    break
                bad = sorted(s['scope'] for s in st['scopes'] if s['transcript'] != tr.get(s['scope']))
                if bad:
                    viol = (h, v, difference(prop, h, bv, v, bad[0], tier, th), f'{bad[0]}: {v} answers differently from {bv}')
                    break
            if viol:
                break
    samples = []
    for h, v, st in res:
        for s in st['scopes']:
            if s['sample'] and len(samples) < 6 and v != 'asan':
                samples.append({'harness': h, 'build': v, 'scope': s['scope'], 'case': s['sample']})
    cov = {
        'states': sum(st['states'] for _, _, st in res),
        'transitions': sum(s['edges'] for _, _, st in res for s in st['scopes']),
        'traces_validated_against_impl': sum(s['execs'] for _, _, st in res for s in st['scopes']),
        'observations_compared': sum(s['obs'] for _, _, st in res for s in st['scopes']),
        'state_matching_cuts': sum(s['pruned'] for _, _, st in res for s in st['scopes']),
        'exhaustive': viol is None and all(s['complete'] for _, _, st in res for s in st['scopes']),
        'state_counter_saturated': any(st['states_saturated'] for _, _, st in res),
        'bounds': plan['bounds'],
        'samples': samples or ['(stopped at the violation)'],
        'per_scope': [{'harness': h, 'build': v, **{k: s[k] for k in ('scope', 'execs', 'edges', 'obs', 'pruned', 'max_choices', 'secs', 'complete')}}
                      for h, v, st in res for s in st['scopes']],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': ASSUMPTIONS + plan.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': 1 if viol else 0}
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for line in known(prop):
        print(line)
    if viol:
        print(f'violation in {viol[0]}/{viol[1]}: {viol[3]}')
        if viol[2] and os.path.exists(viol[2]):
            print(open(viol[2], errors='replace').read()[:3000])
        print(f'VIOLATION property={prop} replay={viol[2]}')
        return 1
    return 0


def difference(prop, h, v0, v1, scope, tier, th):
    """the first execution on which two builds differ, with both narrations"""
    import tempfile, array
    path = os.path.join(CEX, f'{prop}-{h}-{v1}-{scope}.cex')
    head = f'harness {h}\nvariant {v1}\nbase {v0}\nproperty {prop}\ntier {tier}\nscope {scope}\n'
    text = ''
    with tempfile.TemporaryDirectory(dir=BUILD) as d:
        for v in (v0, v1):
            os.mkdir(os.path.join(d, v))
            run(build(h, v, th)[0], h, v, prop, tier, ['--only', scope, '--trace-dir', os.path.join(d, v)])
        for name in sorted(os.listdir(os.path.join(d, v0))):
            a, b = array.array('Q'), array.array('Q')
            for x, v in ((a, v0), (b, v1)):
                p = os.path.join(d, v, name)
                x.frombytes(open(p, 'rb').read() if os.path.exists(p) else b'')
            if a == b:
                continue
            i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            _, out, _, _ = run(build(h, v0, th)[0], h, v0, prop, tier, ['--only', scope, '--shard', name.rsplit('-', 1)[1], '--locate', str(i)])
            head += f'mode difference\n{out.strip()}\nviolation {v1} answers differently from {v0}\n'
            with open(path, 'w') as f:
                f.write(head)
            for v in (v0, v1):
                _, o, _, _ = run(build(h, v, th)[0], h, v, prop, tier, ['--replay', path])
                text += f'--- case, build {v}\n{o}'
            break
    with open(path, 'w') as f:
        f.write(head + text)
    return path


def known(prop):
    """KNOWN-FINDING lines for findings that are recorded, not repaired (none suppress anything else)."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: ') and f'property={prop} ' in l:
                out.append('KNOWN-FINDING: ' + l[len('known: '):])
    return out


def replay(path):
    d = {}
    for l in open(path, errors='replace'):
        if l.startswith('--- case'):
            break
        k, _, v = l.rstrip('\n').partition(' ')
        d.setdefault(k, v)
    if d.get('base'):
        for v in (d['base'], d['variant']):
            _, out, err, _ = run(build(d['harness'], v, tree_hash())[0], d['harness'], v, d['property'], d['tier'], ['--replay', path])
            print(f'build {v}:', out, err)
        return 0
    b, err = build(d['harness'], d['variant'], tree_hash())
    if b is None:
        print(err); return 1 if d.get('mode') == 'build' else 2
    rc, out, err, _ = run(b, d['harness'], d['variant'], d['property'], d['tier'], ['--replay', path])
    print(out, err)
    return rc


def setup():
    th = tree_hash()
    us = sorted({(h, v) for p in PLAN.values() for h, q, t in p['units'] for v in q})
    with cf.ThreadPoolExecutor(8) as ex:
        for u, (b, err) in zip(us, ex.map(lambda u: build(u[0], u[1], th), us)):
            if b is None:
                print('cannot build', u, err[-1500:])
    return 0  # a tree on which a harness does not build is reported by its check


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[:1] == ['--replay']:
        sys.exit(replay(a[1]))
    if a[:1] == ['--setup']:
        sys.exit(setup())
    sys.exit(check(a[0]))
