"""Parent process of a check: spreads seeded runs over worker processes, minimises
and re-executes what they find, writes evidence, prints the verdict."""
import argparse
import importlib
import json
import os
import select
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYBRAIN_REPO', '/repo')
HANG_S = 75


def meta(prop):
    """static facts of a property module, read without importing the library"""
    with open(os.path.join(HERE, 'dst', 'config.json')) as f:
        return json.load(f)[prop]


class Worker(object):
    def __init__(self, args, hashseed):
        env = dict(os.environ)
        env['PYTHONHASHSEED'] = str(hashseed)
        self.hashseed = hashseed
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'dst.worker'] + [str(x) for x in args],
                                  stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=HERE)
        os.set_blocking(self.p.stdout.fileno(), False)
        self.buf = b''
        self.last = time.time()
        self.current = None
        self.eof = False
        self.killed = False

    def lines(self):
        try:
            data = os.read(self.p.stdout.fileno(), 1 << 20)
        except BlockingIOError:
            return []
        if not data:
            self.eof = True
            return []
        self.last = time.time()
        self.buf += data
        parts = self.buf.split(b'\n')
        self.buf = parts.pop()
        out = []
        for p in parts:
            if p.startswith(b'@@ '):
                out.append(json.loads(p[3:].decode()))
        return out

    def kill(self):
        self.killed = True
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()

    def stderr(self):
        self.err.seek(0)
        return self.err.read()[-3000:].decode('utf-8', 'replace')


def call(args, timeout, hashseed=0):
    """run one worker to completion, return its last 'r' message, or None"""
    w = Worker(args, hashseed)
    t0 = time.time()
    res = None
    timed_out = False
    while not w.eof:
        if time.time() - t0 > timeout:
            w.kill()
            timed_out = True
            break
        select.select([w.p.stdout], [], [], 1.0)
        for m in w.lines():
            if m['t'] == 'r':
                res = m
            elif m['t'] == 'x':
                res = dict(error=m['err'])
    w.p.wait()
    w.p.stdout.close()
    if res is None:
        res = dict(error='timeout' if timed_out else 'worker died: ' + w.stderr(), timeout=timed_out)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--secs', type=float)
    ap.add_argument('--workers', type=int, default=int(os.environ.get('VERIF_WORKERS', '0') or 0))
    ap.add_argument('--digests', help='write index/digest pairs here (determinism self-test)')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    cfg = meta(a.prop)
    thorough = a.tier == 'thorough'
    runs = a.runs or cfg['thorough_runs' if thorough else 'quick_runs']
    secs = a.secs or cfg.get('thorough_secs' if thorough else 'quick_secs', 700 if thorough else 120)
    nw = a.workers or min(8, os.cpu_count() or 1)
    nw = max(1, min(nw, runs))
    print('seed=%d property=%s tier=%s runs=%d workers=%d' % (a.seed, a.prop, a.tier, runs, nw))
    sys.stdout.flush()

    known = []
    kf = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(kf):
        for line in open(kf):
            if line.strip():
                r = json.loads(line)
                if r['property'] == a.prop:
                    known.append(r)

    agg = dict(runs=0, faults={}, probes={}, digests={}, states=set(), simtime=0.0, steps=0, events=0,
               samples=[], known={}, nontrivial=0)
    violations = []
    errors = []
    hangs = []

    def absorb(m):
        agg['runs'] += m['runs']
        for key in ('faults', 'probes', 'known'):
            for k, v in m[key].items():
                agg[key][k] = agg[key].get(k, 0) + v
        for i, d, nt in m['digests']:
            agg['digests'][i] = (d, nt)
        agg['states'].update(m['states'])
        agg['simtime'] += m['simtime']
        agg['steps'] += m['steps']
        agg['events'] += m['events']
        if len(agg['samples']) < 4:
            agg['samples'].extend(m['samples'][:1])

    def args_for(start):
        left = max(1.0, secs - (time.time() - t0))
        return ['runs', '--prop', a.prop, '--seed', a.seed, '--start', start, '--stride', nw,
                '--stop', runs, '--deadline', left]

    ws = []
    for k in range(nw):
        w = Worker(args_for(k), 0 if k == 0 else 1000 + 37 * k)
        w.k = k
        ws.append(w)
    live = list(ws)
    stop = False
    while live:
        select.select([w.p.stdout for w in live], [], [], 1.0)
        for w in list(live):
            for m in w.lines():
                if m['t'] == 's':
                    w.current = m['i']
                elif m['t'] == 'a':
                    absorb(m)
                elif m['t'] == 'v':
                    if m['harness']:
                        errors.append(m['msg'])
                    else:
                        violations.append(m)
                        if cfg.get('stop_at_first', True):
                            stop = True
                elif m['t'] == 'x':
                    errors.append(m['err'])
            if w.eof:
                w.p.wait()
                if w.p.returncode != 0 and not w.killed and not errors:
                    hangs.append((w.current, w.hashseed, 'died rc=%s %s' % (w.p.returncode, w.stderr()), w.k))
                live.remove(w)
                w.p.stdout.close()
            elif time.time() - w.last > HANG_S:
                hangs.append((w.current, w.hashseed, 'hang', w.k))
                w.kill()
                live.remove(w)
                w.p.stdout.close()
                if len(hangs) >= 3:
                    stop = True
        if stop:
            # other workers may still be about to report; give them a short moment, then stop them
            for w in live:
                w.kill()
                w.p.stdout.close()
            live = []

    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    # a worker that hung or died: re-execute that run alone under a line budget
    if not violations:
        for idx, hs, why, k in hangs[:2]:
            if idx is None:
                errors.append('worker failed before its first run: ' + why)
                continue
            case = dict(property=a.prop, run=idx, verif_seed=a.seed, tape=None)
            f = tempfile.NamedTemporaryFile('w', suffix='.json', delete=False)
            json.dump(case, f)
            f.close()
            r = call(['traced', '--file', f.name], 260, hs)
            os.unlink(f.name)
            v = r.get('verdict')
            if v and not v.get('harness'):
                violations.append(dict(i=idx, cls=v['cls'], msg=v['msg'], tape=r['tape'], digest=r['digest'],
                                       hashseed=hs, noshrink=v['cls'] == 'no-progress'))
            else:
                errors.append('run %s %s; alone: %s' % (idx, why, json.dumps(r)[:600]))

    reported = []
    if violations:
        violations.sort(key=lambda v: (len(v['tape']), v['i']))
        seen = set()
        for v in violations:
            if v['cls'] in seen:
                continue
            seen.add(v['cls'])
            reported.append(report(a, cfg, v, nw))
            if len(reported) >= 2:
                break

    wall = time.time() - t0
    dup = len(agg['digests']) - len(set(d for d, _ in agg['digests'].values()))
    distinct = len(set(d for d, nt in agg['digests'].values() if nt))
    ev = dict(
        property=a.prop, tier='thorough' if thorough else 'quick', seed=a.seed, level=cfg['level'],
        wall_s=round(wall, 2), violations=len(reported),
        assumptions=cfg.get('assumptions', []),
        coverage=dict(
            evaluations=agg['runs'], distinct_nontrivial=distinct,
            rule=cfg['rule'] + ' Every case is one seeded run (choice tape from sha256(VERIF_SEED, property, '
            'run index)). A run is non-trivial if its event log has at least 3 events; two runs are the same '
            'if their full event logs hash alike.',
            samples=agg['samples'][:3],
            runs_per_hour=int(agg['runs'] / max(wall, 0.01) * 3600),
            seeds=agg['runs'], operations=agg['steps'], logged_events=agg['events'],
            simulated_time=dict(value=round(agg['simtime'], 3), unit=cfg.get('time_unit', 'simulated seconds')),
            faults_injected=agg['faults'], probes=agg['probes'],
            distinct_states=dict(count=len(agg['states']), measure=cfg['state_measure']),
            duplicate_runs=dup,
            known_findings_hit=agg['known'],
            components=cfg['components'],
            workers=nw))
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        p = os.path.join(HERE, 'evidence', a.prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.replace(p + '.tmp', p)
    if a.digests:
        with open(a.digests, 'w') as f:
            for i in sorted(agg['digests']):
                f.write('%d %s\n' % (i, agg['digests'][i][0]))

    print('runs=%d distinct=%d states=%d ops=%d faults=%s wall=%.1fs' % (
        agg['runs'], distinct, len(agg['states']), agg['steps'], json.dumps(agg['faults'], sort_keys=True), wall))
    for k in known:
        if k['status'] == 'open':
            print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    for path, v in reported:
        print('  %s: %s' % (v['cls'], v['msg'].strip().split('\n')[0][:300]))
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
    if reported:
        sys.exit(1)
    if errors:
        print('HARNESS ERROR (no verdict):')
        for e in errors[:3]:
            print(str(e)[-3000:])
        sys.exit(3)
    zero = [p for p in cfg.get('required_probes', []) if not agg['probes'].get(p)]
    if zero and agg['runs'] >= cfg['quick_runs']:
        print('note: probes never hit: %s' % zero)
    if agg['runs'] < min(runs, cfg.get('min_runs', 1)):
        print('HARNESS ERROR: only %d runs finished' % agg['runs'])
        sys.exit(3)
    sys.exit(0)


def report(a, cfg, v, nw):
    """minimise v, confirm it in a fresh process, write the replay file"""
    hs = v['hashseed']
    base = dict(property=a.prop, verif_seed=a.seed, run=v['i'], cls=v['cls'], msg=v['msg'], hashseed=hs)
    path = os.path.join(HERE, 'replays', '%s-s%d-r%d.json' % (a.prop, a.seed, v['i']))

    def save(case):
        with open(path, 'w') as f:
            json.dump(case, f, indent=1, sort_keys=True)

    case = dict(base, tape=v['tape'], minimised=False)
    save(case)
    if v.get('noshrink'):
        case['note'] = 'replay executes under a line budget (dst.worker traced)'
        case['traced'] = True
        save(case)
        return path, v
    r = call(['replay', '--file', path], 240, hs)
    ok = r.get('verdict') and r['verdict']['cls'] == v['cls']
    if not ok:
        # depends on what the process executed before: replay the whole prefix of that worker
        case['prelude'] = [i for i in range(v['i'] % nw, v['i'], nw)]
        save(case)
        r = call(['replay', '--file', path], 400, hs)
        ok = r.get('verdict') and r['verdict']['cls'] == v['cls']
        if not ok:
            case['reproduced'] = False
            case['note'] = ('the violation did not recur in a fresh process: behaviour of the tree under test '
                            'depends on something outside the simulator')
            save(case)
            return path, v
    s = call(['shrink', '--file', path, '--secs', str(cfg.get('shrink_secs', 40))], 240, hs)
    if s.get('ok'):
        small = dict(case, tape=s['tape'], msg=s['msg'], minimised=True, attempts=s['attempts'],
                     events=s['events'], digest=s['digest'], faults=s['faults'],
                     original_length=len(v['tape']))
        save(small)
        r2 = call(['replay', '--file', path], 240, hs)
        if r2.get('verdict') and r2['verdict']['cls'] == v['cls'] and r2['digest'] == s['digest']:
            small['reproduced'] = True
            save(small)
            v = dict(v, msg=s['msg'])
        else:
            case.update(events=r.get('events'), digest=r.get('digest'), reproduced=True)
            save(case)
    else:
        case.update(events=r.get('events'), digest=r.get('digest'), reproduced=True)
        save(case)
    return path, v


if __name__ == '__main__':
    main()
