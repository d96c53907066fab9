#!/usr/bin/env python3
"""Runs the deterministic simulation for one property against /repo's working tree.

  check.py <property> [--tier quick|thorough]
  check.py --replay <file>
"""
import fcntl, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, 'sim')
sys.path.insert(0, os.path.join(HERE, 'tools'))
import plan as PLAN  # noqa: E402
import shrink as SHRINK  # noqa: E402

FEATURES = {'std': 'std', 'all': 'all', 'nostd': '', 'hook': 'all'}


class HarnessError(Exception):
    pass


def cargo_env(cfg, profile, zseed, roots, skip):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith('CARGO') or k.startswith('RUST'):
            if k not in ('CARGO_HOME', 'RUSTUP_HOME', 'RUSTUP_TOOLCHAIN'):
                del env[k]
    env.update(CARGO_TARGET_DIR=os.path.join(HERE, 'target', cfg), CARGO_NET_OFFLINE='true',
               ZOO_PROFILE=profile, ZOO_SEED=str(zseed), ZOO_ROOTS=str(roots), ZOO_SKIP=','.join(map(str, skip)))
    if cfg == 'hook':
        env['RUSTFLAGS'] = '--cfg binread_sim'
    return env


def build(cfg, profile, zseed, roots, work, skip=()):
    """Compiles the simulator with /repo's crate and this zoo; returns the path of the binary."""
    os.makedirs(os.path.join(HERE, 'target', cfg), exist_ok=True)
    out = os.path.join(work, 'sim-%s-%s-%d' % (cfg, profile, zseed))
    skip = list(skip)
    with open(os.path.join(HERE, 'target', cfg + '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for _ in range(8):
            cmd = ['cargo', 'build', '--offline', '--quiet', '--message-format', 'json', '--features', FEATURES[cfg]]
            p = subprocess.run(cmd, cwd=SIM, env=cargo_env(cfg, profile, zseed, roots, skip),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            exe = None
            bad = set()
            first = None
            for line in p.stdout.splitlines():
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if m.get('reason') == 'compiler-artifact' and m.get('executable') and m['target']['name'] == 'binread_sim':
                    exe = m['executable']
                if m.get('reason') == 'compiler-message' and m['message'].get('level') == 'error':
                    first = first or m['message'].get('rendered')
                    for sp in m['message'].get('spans', []):
                        while sp:
                            if sp['file_name'].endswith('/zoo.rs'):
                                bad.add((sp['file_name'], sp['line_start']))
                            sp = (sp.get('expansion') or {}).get('span')
            if p.returncode == 0 and exe:
                shutil.copy2(exe, out)
                return out, skip
            # a format that no longer compiles says nothing about this property: leave it out
            more = set()
            for f, line in bad:
                text = open(f).read().splitlines()
                for i in range(line - 1, -1, -1):
                    m = re.match(r'// TYPE (\d+)', text[i])
                    if m:
                        more.add(int(m.group(1)))
                        break
            if not more - set(skip):
                raise HarnessError('the simulator does not build (%s):\n%s\n%s' % (cfg, first, p.stderr[-3000:]))
            skip = sorted(set(skip) | more)
    raise HarnessError('the simulator does not build (%s): %s' % (cfg, first))


def build_all(todo, work, skip=()):
    """todo: (cfg, profile, zoo seed, roots); different configurations build at the same time."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(max_workers=4) as ex:
        fs = {k: ex.submit(build, *k, work, skip) for k in todo}
        return {k: f.result() for k, f in fs.items()}


class Server:
    """A simulator process that judges one run at a time."""

    def __init__(self, exe, timeout=60, args=()):
        self.exe, self.timeout, self.p, self.args = exe, timeout, None, list(args)
        self.evals = 0

    def start(self):
        self.p = subprocess.Popen([self.exe, 'serve'] + self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True)

    def judge(self, text):
        import select
        self.evals += 1
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(text + '\n.\n')
            self.p.stdin.flush()
            ready, _, _ = select.select([self.p.stdout], [], [], self.timeout)
            if not ready:
                self.p.kill()
                self.p.wait()
                self.p = None
                return {'class': 'hang', 'msg': 'the run does not finish'}
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = ''
        if not line:
            rc = self.p.wait()
            self.p = None
            return {'class': 'abort', 'msg': 'the process died (status %s)' % rc}
        return json.loads(line)

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


def run_batch(exe, job, work, seed):
    """Executes one batch; returns (report, findings)."""
    journal = tempfile.mkdtemp(dir=work)
    cmd = [exe, 'run', '--prop', job['prop'], '--seed', str(seed), '--cases', str(job['cases']), '--threads', str(job.get('threads', 8)),
           '--from', str(job.get('from', 0)), '--wall', str(job.get('wall', 240)), '--journal', journal]
    for k in ('stream', 'digests', 'template'):
        if job.get(k):
            cmd += ['--' + k, job[k]]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if 'HARNESS' in p.stderr:
        raise HarnessError('harness failure in %s:\n%s' % (' '.join(cmd), p.stderr[-3000:]))
    if p.returncode == 0:
        try:
            rep = json.loads(p.stdout)
        except ValueError:
            raise HarnessError('unreadable report:\n' + p.stdout[-1000:] + p.stderr[-1000:])
        return rep, [dict(f, exe=exe) for f in rep['found']]
    # the process died or hung: find the run that did it
    found = []
    for f in sorted(os.listdir(journal)):
        w = open(os.path.join(journal, f)).read().split()
        if len(w) < 2:
            continue
        d = subprocess.run([exe, 'dump', '--prop', job['prop'], '--seed', str(seed), '--case', w[0], '--sub', w[1]],
                           stdout=subprocess.PIPE, text=True)
        if d.returncode != 0 or not d.stdout.strip():
            continue
        srv = Server(exe, 40)
        v = srv.judge(d.stdout.strip())
        srv.stop()
        if v.get('class') in ('abort', 'hang'):
            found.append({'case': int(w[0]), 'sub': int(w[1]), 'class': v['class'], 'msg': v['msg'], 'spec': d.stdout, 'exe': exe})
    if not found:
        raise HarnessError('the simulator ended with status %d:\n%s\n%s' % (p.returncode, p.stdout[-500:], p.stderr[-2000:]))
    return {'features': '?', 'seconds': 0, 'stopped_early': True, 'cases': 0, 'runs': 0, 'ops': 0, 'nontrivial': 0, 'distinct': 0,
            'fingerprint': '', 'nested': 0, 'reentered': 0, 'faults': {}, 'results': {}, 'tags': {}, 'constructs': {}, 'samples': [],
            'died': p.stderr[-300:]}, found


SUMS = ('cases', 'runs', 'ops', 'nontrivial', 'distinct', 'nested', 'reentered', 'switches')


def run_procs(exe, job, work, seed, procs=8):
    """One batch in several processes of one worker each (for runs that start processes themselves)."""
    from concurrent.futures import ThreadPoolExecutor
    per = -(-job['cases'] // procs)
    parts = [dict(job, **{'threads': 1, 'cases': per, 'from': k * per, 'digests': os.path.join(work, 'digests-%d' % k)}) for k in range(procs)]
    with ThreadPoolExecutor(max_workers=procs) as ex:
        res = list(ex.map(lambda j: run_batch(exe, j, work, seed), parts))
    out = dict(res[0][0])
    distinct = set()
    for k in range(procs):
        f = os.path.join(work, 'digests-%d' % k)
        if os.path.exists(f):
            b = open(f, 'rb').read()
            distinct |= {b[i:i + 8] for i in range(0, len(b), 8)}
            os.remove(f)
    for r, _ in res[1:]:
        for k in SUMS:
            out[k] = out.get(k, 0) + r.get(k, 0)
        for k in ('faults', 'results', 'tags', 'constructs', 'points'):
            out[k] = merge([{k: out.get(k, {})}, r], k)
        out['samples'] = out['samples'] + r['samples']
        out['seconds'] = max(out['seconds'], r['seconds'])
        out['stopped_early'] = out['stopped_early'] or r['stopped_early']
    import hashlib
    out['distinct'] = len(distinct)
    out['fingerprint'] = hashlib.sha256(b''.join(sorted(distinct))).hexdigest()[:16]
    return out, [f for _, fs in res for f in fs]


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) match=/(.*)/ (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def report_violations(prop, found, exes, work, seed, judge=None):
    """Minimises, writes replay files, confirms them in a fresh process. Returns the number reported."""
    def size(f):
        n_acts = f['spec'].count('\nact ')
        return (n_acts, len(f['spec']))
    known = known_findings(prop)
    shown_known, fresh = set(), []
    for f in found:
        hit = next((k for k in known if k[0].search(f['class'] + ' ' + f['msg'])), None)
        if hit:
            shown_known.add(hit[1])
        else:
            fresh.append(f)
    for k in sorted(shown_known):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if not fresh:
        return 0
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    best = {}
    for f in sorted(fresh, key=size):
        best.setdefault(f['class'], f)
    n = 0
    for cls, f in list(best.items())[:3]:
        srv = judge(f) if judge else Server(f['exe'])
        text = f['spec'].strip()
        v = srv.judge(text)
        note = ''
        if v.get('class') == cls:
            text, v, evals = SHRINK.shrink(text, cls, srv, limit=1500, seconds=25)
        else:
            note = 'the written-out run gives %s' % (v.get('class') or 'no violation')
            evals = 1
        srv.stop()
        # a fresh process must fail the same way
        again = judge(f) if judge else Server(f['exe'])
        w = again.judge(text)
        again.stop()
        same = (w.get('class'), w.get('msg'), w.get('digest')) == (v.get('class'), v.get('msg'), v.get('digest'))
        src = ''
        m = re.findall(r'^root (\d+)$', text, re.M)
        for r in sorted(set(m))[:4]:
            if int(r) < 1000000:
                d = subprocess.run([f['exe'], 'format', '--root', r], stdout=subprocess.PIPE, text=True)
                src += '# format %s\n' % r + ''.join('#   %s\n' % x for x in d.stdout.splitlines() if x.strip())
        path = os.path.join(HERE, 'replays', '%s-%s-%d.run' % (prop, re.sub(r'\W+', '_', cls), n))
        with open(path, 'w') as o:
            o.write('# property %s, violation: %s\n# %s\n# found by VERIF_SEED=%d case %s sub %s; %d evaluations to minimise; fresh process reproduces: %s %s\n'
                    % (prop, cls, (v.get('msg') or f['msg']).replace('\n', ' '), seed, f['case'], f['sub'], evals, same, note))
            o.write('# replay: python3 check.py --replay %s\n' % os.path.relpath(path, HERE))
            o.write(src)
            o.write(text + '\n')
        print('%s: %s' % (cls, (v.get('msg') or f['msg'])[:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        n += 1
    return n


def merge(reps, key):
    out = {}
    for r in reps:
        for k, v in r.get(key, {}).items():
            out[k] = out.get(k, 0) + v
    return dict(sorted(out.items()))


def check(prop, tier, seed):
    t0 = time.time()
    os.environ.pop('DEBUG_TEMPLATE', None)
    work = tempfile.mkdtemp(prefix='binread-sim-')
    try:
        p = PLAN.plan(prop, tier, seed)
        reps, found = [], []
        built = 0.0
        skipped = {}
        for stage in p['stages']:
            tb = time.time()
            try:
                exes = build_all(sorted({(j['cfg'], j['profile'], j['zoo'], j['roots']) for j in stage}), work)
            except HarnessError:
                # the tree no longer takes the scheduling hook: schedule at reader calls only
                if not any(j['cfg'] == 'hook' for j in stage):
                    raise
                stage = [dict(j, cfg='all' if j['cfg'] == 'hook' else j['cfg']) for j in stage]
                skipped['scheduling hook'] = 'does not compile; scheduling at reader calls only'
                exes = build_all(sorted({(j['cfg'], j['profile'], j['zoo'], j['roots']) for j in stage}), work)
            built += time.time() - tb
            if p.get('compare'):
                union = sorted(set(x for e in exes.values() for x in e[1]))
                if union:
                    skipped['all builds'] = union
                    exes = build_all(sorted(exes), work, union)
                r, f = compare_builds(stage, exes, work, seed)
                reps += r
                found += f
            else:
                for j in stage:
                    exe, skip = exes[(j['cfg'], j['profile'], j['zoo'], j['roots'])]
                    if skip:
                        skipped['%s/%d' % (j['cfg'], j['zoo'])] = skip
                    rep, f = (run_procs if p.get('procs') else run_batch)(exe, j, work, seed)
                    rep['cfg'] = j['cfg']
                    reps.append(rep)
                    found += f
            if found and tier == 'thorough':
                break
            if tier == 'thorough' and time.time() - t0 > p.get('seconds', 3000):
                break
        # one part again, with another number of workers: must be the same executions
        det = None
        if reps and not found and p.get('determinism', True):
            j = dict(p['stages'][0][0])
            exe, _ = exes_for(p, j, exes)
            if exe:
                j['cases'] = max(24, min(j['cases'] // 8, 600) // 24 * 24)
                if p.get('procs'):
                    a, _ = run_procs(exe, j, work, seed, 8)
                    b, _ = run_procs(exe, j, work, seed, 3)
                else:
                    a, _ = run_batch(exe, dict(j, threads=8), work, seed)
                    b, _ = run_batch(exe, dict(j, threads=3), work, seed)
                det = {'runs_repeated': a['runs'], 'workers': [8, 3], 'fingerprints': [a['fingerprint'], b['fingerprint']],
                       'equal': a['fingerprint'] == b['fingerprint'] and a['runs'] == b['runs']}
        nviol = report_violations(prop, found, None, work, seed, judge=CompareServer.of if p.get('compare') else None)
        wall = time.time() - t0
        runs = sum(r['runs'] for r in reps)
        secs = sum(r['seconds'] for r in reps)
        cov = {
            'evaluations': runs,
            'distinct_nontrivial': sum(r['distinct'] for r in reps),
            'rule': p['rule'],
            'samples': [s for r in reps for s in r['samples']][:4],
            'cases': sum(r['cases'] for r in reps),
            'simulated_reader_operations': sum(r['ops'] for r in reps),
            'simulated_time': 'none: the code under test has no clock; progress is counted in reader operations',
            'runs_per_hour': int(runs / secs * 3600) if secs else 0,
            'seeds_per_hour': int(sum(r['cases'] for r in reps) / secs * 3600) if secs else 0,
            'seed_scheme': 'run = f(VERIF_SEED, zoo seed, case index, sub index)',
            'faults_fired': merge(reps, 'faults'),
            'results': merge(reps, 'results'),
            'rare_conditions': merge(reps, 'tags'),
            'constructs_exercised': merge(reps, 'constructs'),
            'nested_parses_observed': sum(r['nested'] for r in reps),
            'scheduling_decisions_that_switch': sum(r.get('switches', 0) for r in reps),
            'scheduling_points': merge(reps, 'points'),
            'reentrant_parses': sum(r['reentered'] for r in reps),
            'batches': [{k: r[k] for k in ('features', 'profile', 'zoo_seed', 'roots', 'cases', 'runs', 'distinct', 'seconds', 'fingerprint', 'stopped_early') if k in r} for r in reps],
            'distinct_measure': p.get('measure', 'distinct digests of (format, every reader call with its position and outcome, result)'),
            'real_code': p['real'],
            'stubs': p['stubs'],
            'build_seconds': round(built, 1),
        }
        if det:
            cov['determinism'] = det
        if skipped:
            cov['formats_that_do_not_compile'] = skipped
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': p['level'], 'coverage': cov, 'assumptions': p['assumptions'],
              'wall_s': round(wall, 2), 'violations': nviol}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as o:
            json.dump(ev, o, indent=1)
            o.write('\n')
        print('%s %s: %d runs (%d distinct) in %.1f s, %d violation(s)' % (prop, tier, runs, cov['distinct_nontrivial'], wall, nviol))
        return 1 if nviol else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def exes_for(p, j, exes):
    return exes.get((j['cfg'], j['profile'], j['zoo'], j['roots']), (None, None))


VARIANTS = (('std', None), ('nostd', None), ('all', None), ('all', 'live'), ('all', 'fail'), ('all', 'short'), ('all', 'full'))


def variant_name(v):
    return v[0] + ('+%s template' % v[1] if v[1] else '')


def compare_builds(stage, exes, work, seed):
    """The same runs in every build; digests of (result, position) must agree run by run."""
    import struct
    reps, found = [], []
    streams = {}
    per = {}
    for cfg, tpl in VARIANTS:
        j = next(x for x in stage if x['cfg'] == cfg)
        exe, skip = exes[(cfg, j['profile'], j['zoo'], j['roots'])]
        per[(cfg, tpl)] = (exe, skip)
    for cfg, tpl in VARIANTS:
        j = next(x for x in stage if x['cfg'] == cfg)
        exe = per[(cfg, tpl)][0]
        path = os.path.join(work, 'stream-%s-%s' % (cfg, tpl))
        rep, f = run_batch(exe, dict(j, stream=path, template=tpl), work, seed)
        rep['cfg'] = variant_name((cfg, tpl))
        reps.append(rep)
        for x in f:
            found.append(dict(x, **{'class': 'differs', 'variants': per}))
        if os.path.exists(path):
            b = open(path, 'rb').read()
            streams[(cfg, tpl)] = dict(struct.iter_unpack('<QQ', b))
            os.remove(path)
    base = streams.get(VARIANTS[0], {})
    std = per[VARIANTS[0]][0]
    shown = 0
    for v, d in streams.items():
        if d.keys() != base.keys() and not found:
            raise HarnessError('builds executed different runs')
        for k in sorted(d):
            if k in base and d[k] != base[k]:
                shown += 1
                if shown > 12:
                    break
                t = subprocess.run([std, 'dump', '--prop', 'C15', '--seed', str(seed), '--case', str(k >> 16), '--sub', str(k & 0xffff)], stdout=subprocess.PIPE, text=True).stdout
                found.append({'case': k >> 16, 'sub': k & 0xffff, 'class': 'differs', 'msg': '%s and %s disagree' % (variant_name(VARIANTS[0]), variant_name(v)),
                              'spec': t, 'exe': std, 'variants': per})
    reps[0]['compared'] = len(base) * (len(streams) - 1)
    return reps, found


class CompareServer:
    """Judges a run in every build."""

    def __init__(self, per):
        self.s = {v: Server(per[v][0], args=['--template', v[1]] if v[1] else []) for v in VARIANTS}

    def judge(self, text):
        got = {}
        for v, s in self.s.items():
            r = s.judge(text)
            if 'error' in r:
                return {'class': '', 'msg': r['error']}
            got[v] = (r.get('digest', r['class']), r.get('result', r['class']), r.get('pos'))
        if len({g[0] for g in got.values()}) > 1:
            first = got[VARIANTS[0]]
            other = next(v for v in VARIANTS if got[v][0] != first[0])
            return {'class': 'differs', 'digest': str(sorted(g[0] for g in got.values())),
                    'msg': '%s: %s at %s; %s: %s at %s' % (variant_name(VARIANTS[0]), first[1], first[2], variant_name(other), got[other][1], got[other][2])}
        return {'class': '', 'msg': ''}

    def stop(self):
        for s in self.s.values():
            s.stop()

    @staticmethod
    def of(finding):
        return CompareServer(finding['variants'])


def replay(path):
    text = open(path).read()
    body = '\n'.join(x for x in text.splitlines() if not x.startswith('#'))
    feat = re.search(r'^features (\S+)', body, re.M).group(1)
    prof, zseed, roots = re.search(r'^zoo (\S+) (\d+) (\d+)', body, re.M).groups()
    prop = re.search(r'^property (\S+)', body, re.M).group(1)
    work = tempfile.mkdtemp(prefix='binread-sim-')
    try:
        if prop == 'C15':
            per = build_all([(c, prof, int(zseed), int(roots)) for c in ('std', 'all', 'nostd')], work)
            srv = CompareServer({v: per[(v[0], prof, int(zseed), int(roots))] for v in VARIANTS})
            v = srv.judge(body)
            srv.stop()
            print(v['msg'])
            if v['class']:
                print('VIOLATION property=%s replay=%s' % (prop, os.path.abspath(path)))
                return 1
            print('no violation')
            return 0
        cfg = PLAN.cfg_of(prop, feat)
        try:
            exe, _ = build(cfg, prof, int(zseed), int(roots), work)
        except HarnessError:
            exe, _ = build(feat, prof, int(zseed), int(roots), work)
        p = subprocess.run([exe, 'replay'], input=body, stdout=subprocess.PIPE, text=True, timeout=120)
        if not p.stdout.strip():
            print('the process died (status %s)' % p.returncode)
            print('VIOLATION property=%s replay=%s' % (prop, os.path.abspath(path)))
            return 1
        v = json.loads(p.stdout)
        if 'error' in v:
            raise HarnessError(v['error'])
        for line in v['trace']:
            print(line)
        print('result %s' % v['result'])
        print('reader at %d after %d operations' % (v['pos'], v['ops']))
        if v['class']:
            print('%s: %s' % (v['class'], v['msg']))
            print('VIOLATION property=%s replay=%s' % (prop, os.path.abspath(path)))
            return 1
        print('no violation')
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        i = a.index('--tier')
        tier = a[i + 1]
        del a[i:i + 2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        if a and a[0] == '--replay':
            return replay(a[1])
        return check(a[0], 'thorough' if tier == 'thorough' else 'quick', seed)
    except HarnessError as e:
        print('HARNESS ERROR: %s' % e, file=sys.stderr)
        return 2


if __name__ == '__main__':
    sys.exit(main())
