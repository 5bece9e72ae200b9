"""One worker process: executes simulated runs of one property.

modes
  runs    --prop P --seed S --start a --stride k --stop n --deadline secs
  replay  --file F [--quiet]            re-execute a replay file
  shrink  --file F --out G --secs t     minimise a replay file
  traced  --file F --lines N            re-execute under a line budget (liveness)

Protocol on stdout: one JSON object per line, prefixed with "@@ ".
"""
import argparse
import gc
import importlib
import json
import os
import pickle
import sys
import time
import traceback

REPO = os.environ.get('PYBRAIN_REPO', '/repo')

from dst.core import Sim, Tape, Violation, HarnessError, StopRun, derive_seed

_real_write = sys.stdout.write
_real_flush = sys.stdout.flush
_real_time = time.time
_os = dict((k, getattr(os, k)) for k in ('pipe', 'fork', 'close', 'read', 'write', 'waitpid'))


def emit(**kw):
    _real_write('@@ ' + json.dumps(kw, sort_keys=True, default=str) + '\n')
    _real_flush()


def load(prop):
    from dst import seams
    seams.install()
    mod = importlib.import_module('dst.props.' + prop.lower())
    import pybrain
    here = os.path.dirname(os.path.abspath(pybrain.__file__))
    if os.path.realpath(here) != os.path.realpath(os.path.join(REPO, 'pybrain')):
        raise HarnessError('pybrain imported from %s' % here)
    if hasattr(mod, 'setup'):
        mod.setup()
    return mod


def known_classes(prop):
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                        'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                r = json.loads(line)
                if r.get('property') == prop and r.get('status') == 'open':
                    out.append(r)
    return out


class LineBudget(BaseException):
    pass


def where(tb):
    """the innermost frame of the code under test, for the violation class"""
    best = None
    for fr in traceback.extract_tb(tb):
        if os.path.abspath(fr.filename).startswith(os.path.realpath(REPO) + os.sep) \
                or os.path.abspath(fr.filename).startswith(REPO + os.sep):
            best = fr
    return best


def execute(mod, tape, known=()):
    """one simulated run -> (sim, verdict) ; verdict is None or dict"""
    if getattr(mod, 'FORK', False):
        return isolated(mod, tape, known)
    return execute_here(mod, tape, known)


def die_with_parent():
    import ctypes
    import signal
    ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)


def isolated(mod, tape, known):
    """one run in a process of its own, which begins as it is after setup()"""
    r, w = _os['pipe']()
    pid = _os['fork']()
    if pid == 0:
        try:
            _os['close'](r)
            die_with_parent()
            sim, verdict = execute_here(mod, tape, known)
            data = pickle.dumps(dict(
                verdict=verdict, out=tape.out, spans=tape.spans, digest=sim.digest(), nlog=sim.nlog, events=sim.events[:400],
                faults=sim.faults, probes=sim.probes, states=sim.states, known_hits=sim.known_hits, simtime=sim.simtime, steps=sim.steps), 2)
            while data:
                data = data[_os['write'](w, data):]
        except BaseException:
            traceback.print_exc()
            os._exit(1)
        os._exit(0)
    _os['close'](w)
    data = []
    while True:
        d = _os['read'](r, 1 << 20)
        if not d:
            break
        data.append(d)
    _os['close'](r)
    _, rc = _os['waitpid'](pid, 0)
    sim = Sim(tape)
    if rc != 0:
        return sim, dict(harness=True, cls='harness', msg='the process of the run ended with status %d' % rc)
    d = pickle.loads(b''.join(data))
    tape.out, tape.spans = d['out'], d['spans']
    for k in ('events', 'faults', 'probes', 'states', 'known_hits', 'simtime', 'steps'):
        setattr(sim, k, d[k])
    sim._nlog = d['nlog']
    sim.digest = lambda: d['digest']
    return sim, d['verdict']


def execute_here(mod, tape, known=()):
    from dst import seams
    sim = Sim(tape)
    verdict = None
    seams.reset(sim)
    try:
        mod.run(sim)
    except Violation as v:
        verdict = dict(cls=v.cls, msg=v.msg)
    except StopRun:
        sim.probe('stopped-early')
    except HarnessError as e:
        verdict = dict(harness=True, cls='harness', msg=traceback.format_exc())
    except LineBudget:
        verdict = dict(cls='no-progress', msg='the run did not finish within the line budget')
    except (KeyboardInterrupt, SystemExit):
        if not seams.interrupt_expected():
            verdict = dict(cls='escaped-interrupt', msg=traceback.format_exc()[-1500:])
    except BaseException as e:
        fr = where(e.__traceback__)
        cls = 'exception:%s%s' % (type(e).__name__, ':in-library' if fr else ':in-oracle')
        verdict = dict(cls=cls, msg=(('%s at %s:%s' % (e, os.path.basename(fr.filename), fr.name)) if fr
                                     else str(e)) + '\n' + traceback.format_exc()[-2500:])
    finally:
        seams.cleanup(sim)
    if verdict and not verdict.get('harness'):
        for k in known:
            if verdict['cls'] == k['class']:
                sim.known_hits[k['class']] += 1
                verdict = None
                break
    return sim, verdict


def run_many(a):
    mod = load(a.prop)
    known = known_classes(a.prop)
    t0 = _real_time()
    agg = new_agg()
    i = a.start
    n = 0
    found = 0
    gc.collect()
    while i < a.stop:
        if _real_time() - t0 > a.deadline:
            break
        emit(t='s', i=i)
        tape = Tape(seed=derive_seed(a.seed, a.prop, i))
        sim, verdict = execute(mod, tape, known)
        fold(agg, sim, i)
        if verdict:
            emit(t='v', i=i, cls=verdict['cls'], msg=verdict['msg'], harness=bool(verdict.get('harness')),
                 tape=tape.out, digest=sim.digest(), hashseed=os.environ.get('PYTHONHASHSEED'))
            found += 1
            if found >= 3:
                break
        n += 1
        if n % 25 == 0:
            emit(t='a', **flush(agg))
            agg = new_agg()
        i += a.stride
    emit(t='a', **flush(agg))
    emit(t='end', i=i)


def new_agg():
    return dict(runs=0, nontrivial=0, faults={}, probes={}, digests=[], states=set(), simtime=0.0,
                steps=0, events=0, samples=[], known={})


def fold(agg, sim, i):
    agg['runs'] += 1
    for src, dst in ((sim.faults, 'faults'), (sim.probes, 'probes'), (sim.known_hits, 'known')):
        for k, v in src.items():
            agg[dst][k] = agg[dst].get(k, 0) + v
    d = sim.digest()
    agg['digests'].append((i, d, 1 if sim.nlog >= 3 else 0))
    agg['states'] |= sim.states
    agg['simtime'] += sim.simtime
    agg['steps'] += sim.steps
    agg['events'] += sim.nlog
    if len(agg['samples']) < 1 and i % 7 == 0:
        agg['samples'].append(dict(run=i, events=[e[:160] for e in sim.events[:14]]))


def flush(agg):
    r = dict(agg)
    r['states'] = sorted(agg['states'])
    return r


def read_case(path):
    with open(path) as f:
        return json.load(f)


def replay(a):
    case = read_case(a.file)
    mod = load(case['property'])
    if case.get('prelude'):
        for i in case['prelude']:
            execute(mod, Tape(seed=derive_seed(case['verif_seed'], case['property'], i)))
    if case.get('tape') is None:
        tape = Tape(seed=derive_seed(case['verif_seed'], case['property'], case['run']))
    else:
        tape = Tape(rec=case['tape'])
    sim, verdict = execute(mod, tape)
    emit(t='r', verdict=verdict, digest=sim.digest(), events=sim.events[:400], tape=tape.out,
         faults=dict(sim.faults))


def traced(a):
    budget = [a.lines]
    prefix = os.path.realpath(REPO) + os.sep
    case = read_case(a.file)
    mod = load(case['property'])

    def tracer(frame, event, arg):
        budget[0] -= 1
        if budget[0] <= 0:
            raise LineBudget()
        return tracer
    if case.get('tape') is None:
        tape = Tape(seed=derive_seed(case['verif_seed'], case['property'], case['run']))
    else:
        tape = Tape(rec=case['tape'])
    import threading
    sys.settrace(tracer)
    threading.settrace(tracer)
    sim, verdict = execute(mod, tape)
    sys.settrace(None)
    emit(t='r', verdict=verdict, digest=sim.digest(), tape=tape.out, events=sim.events[-60:],
         lines=a.lines - budget[0], faults=dict(sim.faults))


def shrink(a):
    case = read_case(a.file)
    mod = load(case['property'])
    if case.get('prelude'):
        for i in case['prelude']:
            execute(mod, Tape(seed=derive_seed(case['verif_seed'], case['property'], i)))
    t0 = _real_time()
    cls = case['cls']
    attempts = [0]

    def attempt(rec):
        attempts[0] += 1
        if attempts[0] % 20 == 0:
            emit(t='s', i=-1)
        tape = Tape(rec=rec)
        sim, verdict = execute(mod, tape)
        if verdict and verdict['cls'] == cls:
            out = tape.out
            # trailing zeros are implied
            while out and out[-1] == 0:
                out = out[:-1]
            return out, tape.spans, sim, verdict
        return None

    best = attempt(case['tape'])
    if best is None:
        emit(t='r', ok=False)
        return

    def better(x, y):
        return (len(x), sum(x)) < (len(y), sum(y))

    def left():
        return _real_time() - t0 < a.secs

    improved = True
    while improved and left():
        improved = False
        # drop spans, longest first
        spans = sorted(set(best[1]), key=lambda s: (s[0] - s[1], s[0]))
        k = 0
        while k < len(spans) and left():
            s, e = spans[k]
            k += 1
            cur = best[0]
            if s >= len(cur):
                continue
            r = attempt(cur[:s] + cur[e:])
            if r and better(r[0], best[0]):
                best = r
                improved = True
                spans = sorted(set(best[1]), key=lambda s: (s[0] - s[1], s[0]))
                k = 0 if len(spans) < 200 else k
        # truncate the tail
        n = len(best[0]) // 2
        while n >= 1 and left():
            if len(best[0]) > n:
                r = attempt(best[0][:-n])
                if r and better(r[0], best[0]):
                    best = r
                    improved = True
                    continue
            n //= 2
        # drop small chunks
        for size in (8, 4, 2, 1):
            i = len(best[0]) - size
            while i >= 0 and left():
                cur = best[0]
                r = attempt(cur[:i] + cur[i + size:])
                if r and better(r[0], best[0]):
                    best = r
                    improved = True
                i -= size
        # lower single values
        i = 0
        while i < len(best[0]) and left():
            v = best[0][i]
            for w in (0, 1, v // 2, v - 1):
                if i < len(best[0]) and 0 <= w < best[0][i]:
                    cur = list(best[0])
                    cur[i] = w
                    r = attempt(cur)
                    if r and better(r[0], best[0]):
                        best = r
                        improved = True
            i += 1
    emit(t='r', ok=True, tape=best[0], msg=best[3]['msg'], cls=cls, digest=best[2].digest(),
         events=best[2].events[:400], faults=dict(best[2].faults), attempts=attempts[0])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('mode')
    ap.add_argument('--prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--stride', type=int, default=1)
    ap.add_argument('--stop', type=int, default=100)
    ap.add_argument('--deadline', type=float, default=60)
    ap.add_argument('--file')
    ap.add_argument('--secs', type=float, default=30)
    ap.add_argument('--lines', type=int, default=60000000)
    a = ap.parse_args()
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    dict(runs=run_many, replay=replay, shrink=shrink, traced=traced)[a.mode](a)


if __name__ == '__main__':
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    sys.stdout = open(os.devnull, 'w')      # the library prints; the protocol must stay clean
    try:
        main()
    except Exception:
        emit(t='x', err=traceback.format_exc())
        _real_flush()
        os._exit(3)
    _real_flush()
    os._exit(0)
