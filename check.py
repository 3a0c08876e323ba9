#!/usr/bin/env python3
"""check.py <property id> | --setup | --list

Builds the code under test from /repo's working tree in the variants a property needs, runs the
monitored workloads of /verif/harness on it, and turns what the monitors observed into
/verif/evidence/<id>.json.  Exit 0: held on everything explored; 1: violation (VIOLATION line);
2: no answer (build failure, harness error, time or memory exhausted).
Environment: VERIF_SEED, VERIF_TIER (quick|thorough); VERIF_SCALE multiplies the number of cases.
"""
import fcntl, glob, hashlib, json, os, resource, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
TARGET = os.path.join(HERE, 'target')
EVID = os.path.join(HERE, 'evidence')
HARNESS = os.path.join(HERE, 'harness')
TRIPLE = 'x86_64-unknown-linux-gnu'

sys.path.insert(0, HERE)
from plan import PLAN, VARIANTS, LEVELS  # noqa: E402


class NoAnswer(Exception):
    pass


def env_for(v):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'RUSTUP_TOOLCHAIN'):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    e.setdefault('HOME', '/root')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e.update(v.get('env', {}))
    return e


def repo_hash():
    h = hashlib.sha256()
    for root in ('src', 'imagequant-sys', 'Cargo.toml', 'Cargo.lock'):
        p = os.path.join(REPO, root)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) if '/target' not in d and '/.git' not in d for f in fs)
        for f in files:
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()


def sh(cmd, env, log, cwd=HARNESS, timeout=840):
    with open(log, 'ab') as lf:
        lf.write(('\n$ ' + ' '.join(cmd) + '\n').encode())
        lf.flush()
        try:
            return subprocess.run(cmd, env=env, cwd=cwd, stdout=lf, stderr=lf, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise NoAnswer('timed out: ' + ' '.join(cmd))


def tail(log, n=3000):
    with open(log, 'rb') as f:
        return f.read()[-n:].decode('utf8', 'replace')


def build(name):
    """builds one variant; returns the path of the binary"""
    v = VARIANTS[name]
    tdir = os.path.join(TARGET, name)
    os.makedirs(tdir, exist_ok=True)
    log = os.path.join(tdir, 'build.log')
    with open(os.path.join(tdir, '.verif-lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        open(log, 'w').close()
        e = env_for(v)
        stamp = os.path.join(tdir, '.verif-repo-hash')
        h = repo_hash()
        old = open(stamp).read() if os.path.exists(stamp) else None
        cargo = ['cargo'] + ([f"+{v['toolchain']}"] if 'toolchain' in v else [])
        if old is not None and old != h:
            # do not rely on modification times to notice a change of /repo
            os.remove(stamp)
            for p in glob.glob(os.path.join(tdir, '**', '.fingerprint', 'imagequant*'), recursive=True):
                shutil.rmtree(p, ignore_errors=True)
        if v.get('kind') == 'miri':
            open(stamp, 'w').write(h)
            return None
        if v.get('kind') == 'clib':  # static library, as C programs link it
            cmd = cargo + ['build', '--release', '--offline', '--manifest-path', os.path.join(REPO, 'imagequant-sys/Cargo.toml'), '--target-dir', tdir, '--lib']
        else:
            cmd = cargo + ['build', '--offline', '--locked', '--target-dir', tdir]
            cmd += ['--profile', v.get('profile', 'release')]
        cmd += v.get('args', [])
        if v.get('features'):
            cmd += ['--features', ','.join(v['features'])]
        if sh(cmd, e, log) != 0:
            raise NoAnswer(f'build of variant {name} failed:\n' + tail(log))
        open(stamp, 'w').write(h)
    sub = v.get('profile', 'release')
    return os.path.join(tdir, TRIPLE if '--target' in v.get('args', []) else '', sub,
                        'libimagequant_sys.a' if v.get('kind') == 'clib' else 'liqcheck')


def run_step(prop, i, step, seed, tier, scale):
    name = step['variant']
    v = VARIANTS[name]
    binary = build(name)
    out = os.path.join(EVID, f'{prop}.{i}.report.json')
    for f in glob.glob(out + '*'):
        os.remove(f)
    e = env_for(v)
    e.update(step.get('env', {}))
    e['LIQ_REPO'] = REPO
    e['LIQ_VERIF'] = HERE
    if 'needs' in step:  # another build of the same code, for comparison
        e['LIQ_' + step['needs'].upper()] = build(step['needs'])
    args = [step.get('harness', prop.lower()), '--seed', str(seed), '--tier', tier, '--out', out, '--scale', str(step.get('scale', 1) * (step.get('quick', 1) if tier == 'quick' else 1) * scale)]
    args += [str(a) for a in step.get('args', [])]
    secs = step.get('secs', {}).get(tier, 400 if tier == 'quick' else 3000)
    if v.get('kind') == 'miri':
        return run_miri(prop, i, step, v, e, args, out, secs)
    cmd = [binary] + args
    log = out + '.log'
    t0 = time.time()
    with open(log, 'wb') as lf:
        def limits():
            if not step.get('san') and 'asan' not in name and 'tsan' not in name and 'msan' not in name:
                resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            os.setsid()
        p = subprocess.Popen(cmd, env=e, cwd=EVID, stdout=lf, stderr=lf, preexec_fn=limits)
        try:
            rc = p.wait(timeout=secs + 120)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = 'timeout'
    res = {'step': f"{name}:{args[0]}", 'wall_s': round(time.time() - t0, 2), 'violations': [], 'cmd': ' '.join(cmd)}
    rep = None
    if os.path.exists(out):
        rep = json.load(open(out))
    collect(res, rep, rc, log, out, v, cmd)
    return res


SAN_MARKS = ('ERROR: AddressSanitizer', 'WARNING: ThreadSanitizer', 'WARNING: MemorySanitizer', 'ERROR: LeakSanitizer', 'runtime error:')


def collect(res, rep, rc, log, out, v, cmd):
    """turn the outcome of a process into violations or NoAnswer"""
    text = tail(log, 60000)
    cur = [open(f).read().strip() for f in sorted(glob.glob(out + '.cur*'))]
    marks = [m for m in SAN_MARKS if m in text]
    if marks:
        k = min(text.index(m) for m in marks)
        res['violations'].append({'msg': f'{marks[0]}: ' + ' '.join(text[k:k + 900].split()), 'case': cur, 'log': text[k:k + 6000]})
    elif rc == 'timeout':
        raise NoAnswer('timed out: ' + ' '.join(cmd) + f' (in {cur})')
    elif isinstance(rc, int) and rc < 0:
        if rc == -signal.SIGKILL:
            raise NoAnswer('killed (out of memory?): ' + ' '.join(cmd))
        res['violations'].append({'msg': f'process died with signal {signal.Signals(-rc).name} in {cur}: {text[-600:]}', 'case': cur})
    elif rc == 1 and rep is not None and rep['violations']:
        pass
    elif rc != 0 or rep is None:
        errs = rep['errors'] if rep else []
        raise NoAnswer(f'harness error rc={rc} {errs[:3]}\n{text[-1500:]}')
    if rep:
        if rep['errors'] and not rep['violations']:
            raise NoAnswer(f"harness error {rep['errors'][:3]}")
        res['violations'] += rep['violations']
        res['report'] = rep


def miri_cmd(name):
    cmd = ['cargo', '+nightly', 'miri', 'run', '--offline', '--locked', '--release', '--target-dir', os.path.join(TARGET, name)]
    if VARIANTS[name].get('features'):
        cmd += ['--features', ','.join(VARIANTS[name]['features'])]
    return cmd


def run_miri(prop, i, step, v, e, args, out, secs):
    """the harness itself interpreted by Miri, one process per shard"""
    e = dict(e)
    shards = step.get('shards', 8)
    base = miri_cmd(step['variant'])
    log = out + '.log'
    # builds std for Miri and checks the toolchain works before any case counts
    if sh(base + ['--', 'selftest'], e, log, timeout=600) != 0:
        raise NoAnswer('miri does not run: ' + tail(log))
    t0 = time.time()
    ps = []
    for s in range(shards):
        o = f'{out}.s{s}'
        e['MIRIFLAGS'] = v['env']['MIRIFLAGS'] + f' -Zmiri-seed={int(args[2]) * 64 + s}'  # another schedule in every shard
        cmd = base + ['--'] + [a if a != out else o for a in args] + ['--shard', f'{s}/{shards}', '--threads', '1']
        lf = open(o + '.log', 'wb')
        ps.append((subprocess.Popen(cmd, env=e, cwd=HARNESS, stdout=lf, stderr=lf, start_new_session=True), o, cmd, lf))
    res = {'step': f"{step['variant']}:{args[0]}", 'violations': [], 'cmd': ' '.join(ps[0][2]), 'shards': shards}
    total = {'evaluations': 0, 'distinct': 0, 'counters': {}, 'samples': [], 'errors': [], 'violations': []}
    dead = t0 + secs
    err = None
    for p, o, cmd, lf in ps:
        try:
            rc = p.wait(timeout=max(1, dead - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = 'timeout'
        lf.close()
        text = tail(o + '.log', 30000)
        rep = json.load(open(o)) if os.path.exists(o) else None
        if 'Undefined Behavior' in text or 'error: memory leaked' in text or 'Data race detected' in text:
            k = text.find('error: ')
            res['violations'].append({'msg': 'Miri: ' + ' '.join(text[k:k + 700].split()), 'log': text[k:k + 5000], 'case': [o]})
        elif rc == 'timeout':
            err = f'miri shard timed out: {" ".join(cmd)}'
        elif rep is None or rc not in (0, 1) or (rc == 1 and not rep['violations']):
            err = f'miri shard failed rc={rc}: {text[-1500:]}'
        if rep:
            total['evaluations'] += rep['evaluations']
            total['distinct'] += rep['distinct']
            for k, n in rep['counters'].items():
                total['counters'][k] = total['counters'].get(k, 0) + n
            total['samples'] += rep['samples'][:1]
            res['violations'] += rep['violations']
    if err and not res['violations']:
        raise NoAnswer(err)
    res['wall_s'] = round(time.time() - t0, 2)
    res['report'] = total
    return res


def known_findings(prop):
    out = []
    with open(os.path.join(HERE, 'known-findings.txt')) as f:
        for line in f:
            line = line.strip()
            if line.startswith(f'known: property={prop} '):
                pat, _, what = line[len(f'known: property={prop} '):].partition(' :: ')
                out.append((pat, what))
    return out


def main():
    if len(sys.argv) > 1 and sys.argv[1] == '--list':
        print('\n'.join(PLAN))
        return 0
    os.makedirs(EVID, exist_ok=True)
    if len(sys.argv) > 1 and sys.argv[1] == '--setup':
        try:
            for name in VARIANTS:
                t = time.time()
                build(name)
                if VARIANTS[name].get('kind') == 'miri':
                    if sh(miri_cmd(name) + ['--', 'selftest'], env_for(VARIANTS[name]), os.path.join(TARGET, name, 'build.log'), timeout=600) != 0:
                        raise NoAnswer('miri does not run: ' + tail(os.path.join(TARGET, name, 'build.log')))
                print(name, round(time.time() - t, 1), 's', flush=True)
        except NoAnswer as x:
            print(x)
            return 1
        print('ready')
        return 0
    prop = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    plan = PLAN[prop]
    t0 = time.time()
    evid = os.path.join(EVID, f'{prop}.json')
    for f in glob.glob(os.path.join(EVID, f'{prop}.*')):
        os.remove(f)
    steps, violations = [], []
    noanswer = None
    for i, step in enumerate(plan['steps']):
        if step.get('tier') == 'thorough' and tier != 'thorough':
            continue
        try:
            r = run_step(prop, i, step, seed, tier, scale)
        except NoAnswer as x:
            noanswer = f"step {i} {step['variant']}: {x}"
            print('NO ANSWER', noanswer)
            break
        steps.append(r)
        for viol in r['violations']:
            viol['step'] = i
            viol['cmd'] = r['cmd'] + (f" --case '{viol['part']}#{viol['case']}'" if 'part' in viol else '')
        violations += r['violations']
        if r['violations']:
            break
    known = known_findings(prop)
    real, seen = [], set()
    for viol in violations:
        hit = next((k for k in known if k[0] in viol['msg']), None)
        if hit:
            seen.add(hit)
        else:
            real.append(viol)
    for k in sorted(seen):
        print(f'KNOWN-FINDING: property={prop} {k[1]}')
    reps = [s['report'] for s in steps if s.get('report')]
    counters = {}
    for s in steps:
        for k, n in (s.get('report') or {}).get('counters', {}).items():
            counters[f"{s['step']}/{k}"] = n
    data = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': plan.get('level', 'exploration'),
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in reps),
            'distinct_nontrivial': sum(r['distinct'] for r in reps),
            'rule': plan['rule'],
            'samples': sum((r['samples'][:4] for r in reps), [])[:12],
            'observed': counters,
            'steps': [{'step': s['step'], 'wall_s': s['wall_s']} for s in steps],
        },
        'assumptions': plan.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(real),
    }
    if noanswer:
        data['coverage']['no_answer'] = noanswer[-2000:]
    with open(evid, 'w') as f:
        json.dump(data, f, indent=1)
    if real:
        path = os.path.join(EVID, f'{prop}.replay.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'tier': tier, 'violations': real}, f, indent=1)
        for viol in real[:5]:
            print('  ' + viol['msg'][:1500])
            print('  replay: ' + viol['cmd'])
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if noanswer:
        return 2
    print(f"{prop}: held on {data['coverage']['evaluations']} executions ({data['coverage']['distinct_nontrivial']} distinct non-trivial), {data['wall_s']} s")
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except NoAnswer as x:
        print('NO ANSWER', x)
        sys.exit(2)
