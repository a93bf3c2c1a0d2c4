#!/usr/bin/env python3
"""Driver of the checks: builds a check's harness binaries from /repo's working tree, runs the
exhaustive exploration, prints the verdict and writes /verif/evidence/<id>.json.

  run.py check C01 [quick|thorough]     (exit 0 held, 1 violation, 2 error of the check)
  run.py replay <replay-file>           re-executes a stored counterexample with its trace
  run.py build                          builds everything (setup_cmd)
"""
import sys, os, json, hashlib, subprocess, time, re, shutil, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('XAD_REPO', '/repo')
BUILD = os.path.join(V, 'build')
sys.path.insert(0, V)
import checks as CH

CXX = {'clang': 'clang++-18', 'gcc': 'g++'}


def sh(cmd, timeout=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def tree_hash():
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(p.encode() + b'\0' + read(p) + b'\0')
    return h.hexdigest()


def lib_hash():
    h = hashlib.sha256()
    for d in ('lib',):
        for f in sorted(os.listdir(os.path.join(V, d))):
            h.update(f.encode() + read(os.path.join(V, d, f)))
    return h.hexdigest()


def gen_config(opts):
    """Generate XAD/Config.hpp and XAD/Version.hpp from the .in templates of the working tree."""
    key = '-'.join(sorted(opts)) or 'none'
    d = os.path.join(BUILD, 'gen', hashlib.sha256((key + TREE).encode()).hexdigest()[:16], 'XAD')
    os.makedirs(d, exist_ok=True)
    ver = {'XAD_VERSION_MAJOR': '1', 'XAD_VERSION_MINOR': '0', 'XAD_VERSION_PATCHNUM': '0', 'XAD_VERSION_SUFFIX': '',
           'XAD_VERSION_PATCH': '0', 'XAD_VERSION_NUMERIC': '10000', 'VERSION': '1.0.0'}
    for f in ('Config.hpp', 'Version.hpp'):
        s = read(os.path.join(REPO, 'src/XAD', f + '.in')).decode()

        def rep(m):
            ind, name = m.group(1), m.group(2)
            return ind + '#define ' + name if name in opts else ind + '/* #undef ' + name + ' */'
        s = re.sub(r'(?m)^([ \t]*)#cmakedefine[ \t]+(\w+)[ \t]*$', rep, s)
        s = re.sub(r'@(\w+)@', lambda m: ver.get(m.group(1), '0'), s)
        p = os.path.join(d, f)
        with LOCK:
            if not os.path.exists(p) or read(p).decode() != s:
                tmp = p + '.%d' % os.getpid()
                with open(tmp, 'w') as o:
                    o.write(s)
                os.replace(tmp, p)
    return os.path.dirname(d)


import threading
LOCK = threading.Lock()
TREE = None
LIB = None


class BuildError(Exception):
    pass


def compile_obj(src, cfg, defs, flags, comp, with_lib):
    inc = gen_config(cfg)
    args = [CXX[comp]] + ([] if any(f.startswith('-std=') for f in flags) else ['-std=' + CH.STD]) + ['-w', '-I' + inc, '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(V, 'lib')]
    args += flags + ['-D' + d for d in defs]
    h = hashlib.sha256(('\0'.join(args) + TREE + (LIB if with_lib else '')).encode() + read(src)).hexdigest()[:24]
    out = os.path.join(BUILD, 'obj', os.path.basename(src).split('.')[0] + '-' + h + '.o')
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d.tmp.o' % os.getpid()
        r = sh(args + ['-c', src, '-o', tmp], timeout=800)
        if r.returncode:
            raise BuildError('compile failed: %s\n%s' % (' '.join(args + ['-c', src]), r.stdout.decode(errors='replace')[:4000]))
        os.replace(tmp, out)
    return out


def build_binary(b, pool):
    """b: dict(name, src, cfg, defs, flags, comp, tape). Returns future of the path of the binary."""
    comp = b.get('comp', 'clang')
    cfg = frozenset(b.get('cfg', ['XAD_USE_STRONG_INLINE', 'XAD_ALLOW_INT_CONVERSION']))
    flags = CH.BASEFLAGS + b.get('flags', [])
    defs = b.get('defs', [])
    tdefs = [d for d in defs if d.startswith('XAD_') or d == 'NDEBUG']
    futs = [pool.submit(compile_obj, os.path.join(V, 'harness', s), cfg, defs, flags + b.get('hflags', []), comp, True)
            for s in ([b['src']] if isinstance(b['src'], str) else b['src'])]
    if b.get('tape', True):
        k = (cfg, tuple(tdefs), tuple(flags), comp)
        if k not in TAPES:
            TAPES[k] = pool.submit(compile_obj, os.path.join(REPO, 'src/Tape.cpp'), cfg, tdefs, flags, comp, False)
        futs.append(TAPES[k])
    return futs, comp, flags, b


def link(futs, comp, flags, b):
    objs = [f.result() for f in futs]
    h = hashlib.sha256('\0'.join(objs + flags + b.get('ldflags', [])).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, 'bin', b['name'] + '-' + h)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        r = sh([CXX[comp]] + flags + objs + ['-o', tmp, '-lpthread'] + b.get('ldflags', []), timeout=300)
        if r.returncode:
            raise BuildError('link failed: ' + r.stdout.decode(errors='replace')[:4000])
        os.replace(tmp, out)
    return out


TAPES = {}


def prune_build():
    # keep the build folder from growing without bound when the tree keeps changing
    for sub in ('obj', 'bin'):
        d = os.path.join(BUILD, sub)
        if not os.path.isdir(d):
            continue
        fs = [(os.path.getmtime(os.path.join(d, f)), os.path.join(d, f)) for f in os.listdir(d)]
        fs.sort(reverse=True)
        tot = 0
        for m, f in fs:
            tot += os.path.getsize(f)
            if tot > 3 << 30:
                try:
                    os.unlink(f)
                except OSError:
                    pass


def build_all(bins):
    global TREE, LIB
    TREE, LIB = tree_hash(), lib_hash()
    os.makedirs(BUILD, exist_ok=True)
    prune_build()
    with cf.ThreadPoolExecutor(8) as pool:
        w = [build_binary(b, pool) for b in bins]
        r = [link(*x) for x in w]
        # builds of the library that a harness loads at run time
        for b in bins:
            v = [build_binary(x, pool) for x in b.get('libs', [])]
            if v:
                b.setdefault('env', {})['XV_LIBS'] = ':'.join(link(*x) for x in v)
        return r


def known_findings(pid):
    p = os.path.join(V, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid]


def check(pid, tier):
    t0 = time.time()
    spec = CH.CHECKS[pid]
    bins = [b for b in spec['bins'] if tier == 'thorough' or not b.get('thorough_only')]
    try:
        paths = build_all(bins)
    except BuildError as e:
        print(str(e))
        print('ERROR: the harness does not build against this tree')
        return 2
    tb = time.time() - t0
    known = known_findings(pid)
    budget = 850.0 if tier == 'thorough' else 480.0
    cov = dict(runs=0, transitions=0, states=0, outcomes=0)
    spaces, samples, hits, viol, exhaustive = [], [], set(), None, True
    outdir = os.path.join(BUILD, 'out')
    os.makedirs(outdir, exist_ok=True)
    deadline = t0 + budget
    for b, path in zip(bins, paths):
        out = os.path.join(outdir, '%s-%s-%d.json' % (pid, b['name'], os.getpid()))
        cmd = [path, '--tier', tier, '--jobs', str(b.get('jobs', 8)), '--out', out,
               '--budget', str(max(10, int(deadline - time.time())))]
        for k in known:
            cmd += ['--known', k['signature']]
        env = dict(os.environ)
        env.setdefault('ASAN_OPTIONS', 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=2048:handle_abort=0:detect_stack_use_after_return=0')
        env['UBSAN_OPTIONS'] = 'halt_on_error=1:print_stacktrace=0'
        if b.get('env'):
            env.update(b['env'])
        print('[%s] %s' % (pid, b['name']), flush=True)
        errf = open(out + '.err', 'wb')
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=errf)
        errf.close()
        err = read(out + '.err').decode(errors='replace')
        for l in err.splitlines():
            if l.startswith('  space'):
                print(l)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print(err[-3000:])
            print('ERROR: harness %s ended with %d' % (b['name'], r.returncode))
            return 2
        res = json.load(open(out))
        os.unlink(out)
        os.unlink(out + '.err')
        for s in res['spaces']:
            for k in cov:
                cov[k] += s[k]
            exhaustive = exhaustive and s['exhaustive']
            hits.update(s['known_hit'])
            spaces.append(dict(binary=b['name'], space=s['name'], desc=s['desc'], runs=s['runs'], transitions=s['transitions'],
                               states=s['states'], distinct_outcomes=s['outcomes'], max_choices=s['max_choices'],
                               exhaustive=s['exhaustive'], state_hash_capped=s['hash_capped'], wall_s=round(s['wall_s'], 2),
                               counters=[c for c in s['counters']]))
            if s['samples']:
                samples.append('%s/%s: %s' % (b['name'], s['name'], s['samples'][-1][:600]))
            if s['violated'] and viol is None:
                viol = (b, s)
        if viol:
            break
    rp = None
    if viol:
        b, s = viol
        rp = os.path.join(V, 'replays', '%s-%s-%s.json' % (pid, b['name'], s['name']))
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump(dict(property=pid, binary=b['name'], space=s['name'], path=s['path'], what=s['what'], signature=s['sig'],
                       reproduced_on_replay=s['reproduced'], trace=s['trace'], tier=tier,
                       how='python3 run.py replay ' + rp), open(rp, 'w'), indent=1)
    level = spec['level']
    n = len(samples)
    pick = samples[:2] + samples[n // 2:n // 2 + 2] + samples[-2:] if n > 6 else samples
    c = dict(samples=pick or ['none'], exhaustive=exhaustive and viol is None, spaces=spaces)
    if level == 'model_checking':
        c.update(states=cov['states'], transitions=cov['transitions'], traces_validated_against_impl=cov['runs'],
                 distinct_outcomes=cov['outcomes'])
    else:
        c.update(evaluations=cov['runs'], distinct_nontrivial=cov['states'], transitions=cov['transitions'],
                 distinct_outcomes=cov['outcomes'], rule=spec['rule'])
    c['explanation'] = spec['explain']
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=level, coverage=c,
              assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=1 if viol else 0)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    tmp = os.path.join(V, 'evidence', pid + '.json.tmp%d' % os.getpid())
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(V, 'evidence', pid + '.json'))
    for k in known:
        if k['signature'] in hits:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        else:
            print('note: listed finding not seen in this run: %s' % k['signature'])
    print('%s %s: %d executions, %d transitions, %d states, %d outcomes; build %.0fs, total %.0fs%s' % (
        pid, tier, cov['runs'], cov['transitions'], cov['states'], cov['outcomes'], tb, time.time() - t0,
        '' if exhaustive else ' (CAPPED by the time budget: not exhaustive)' if not viol else ''))
    if viol:
        b, s = viol
        print('what: ' + s['what'])
        if s['sig']:
            print('signature: ' + s['sig'])
        print(s['trace'][-1500:])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


def replay(path):
    r = json.load(open(path))
    spec = CH.CHECKS[r['property']]
    b = [x for x in spec['bins'] if x['name'] == r['binary']][0]
    p = build_all([b])[0]
    env = dict(os.environ)
    env.setdefault('ASAN_OPTIONS', 'detect_leaks=0')
    env.update(b.get('env') or {})
    return subprocess.run([p, '--tier', r['tier'], '--replay', r['space'], r['path']], env=env).returncode


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == 'check':
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get('VERIF_TIER', 'quick')
        sys.exit(check(sys.argv[2], tier))
    if len(sys.argv) >= 3 and sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) >= 2 and sys.argv[1] == 'build':
        bins = [b for c in CH.CHECKS.values() for b in c['bins']]
        build_all(bins)
        print('built %d harness binaries' % len(bins))
        sys.exit(0)
    print(__doc__)
    sys.exit(2)


if __name__ == '__main__':
    main()
