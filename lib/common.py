# -*- coding: utf-8 -*-
"""Runner shared by all checks.

A check module (checks/cNN.py) provides
    ID, RULE, ASSUMPTIONS, QUICK, THOROUGH (numbers of cases), FLOORS ({counter: minimum per 100 cases} ), MECHS
    setup()              -> called once in every worker; imports the code under test
    gen(rng, i, tier)    -> a JSON-able case
    run(case, rec)       -> executes the real code on the case and lets the oracle record into rec

Cases are numbered; case i of a seed is always the same, whatever the number of workers. The parent never imports the code
under test: workers are forked, each runs its share of the cases, and reports counters, distinct keys, samples and violations.
"""
import os, sys, json, time, random, signal, traceback, importlib, struct, mmap, hashlib, selectors

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 4)

class Stuck(BaseException):
    """ raised by the watchdog when a case used up its CPU or wall time budget """

class Harness(Exception):
    """ the machinery itself (not the code under test) is at fault """

def import_repo():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
        sys.path.insert(1, os.path.join(REPO, 'tools'))
    import logging
    logging.disable(logging.CRITICAL)

def in_repo(tb):
    """ True if the innermost frames of the traceback are in the code under test (or in code it called) """
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False

class Rec(object):
    """ What the monitors of a case observed """
    def __init__(self):
        self.counters, self.keys, self.violations, self.samples = {}, set(), [], []
        self.case_keys = set()
        self.info = {}
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n
    def key(self, *parts):
        """ signature of a distinct non-trivial execution """
        self.case_keys.add(repr(parts) if len(parts) != 1 else str(parts[0]))
    def violation(self, mechanism, detail):
        self.violations.append((mechanism, str(detail)[:3000]))
    def expect(self, cond, mechanism, detail):
        self.count('oracle_evaluations')
        if not cond: self.violation(mechanism, detail() if callable(detail) else detail)
        return cond
    def eq(self, got, want, mechanism, ctx=''):
        self.count('oracle_evaluations')
        if got != want or type(got) is bool and type(want) is not bool and want is not got:
            self.violation(mechanism, '%s: got %r, expected %r' % (ctx, got, want))
            return False
        return True

def guarded(rec, mechanism, fn, *args, **kw):
    """ calls code under test; an exception that escapes from it is a violation. Returns (ok, value) """
    try:
        return True, fn(*args, **kw)
    except Stuck: raise
    except Exception as e:
        rec.violation(mechanism, 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-4)))
        return False, e

def rng_for(cid, seed, i):
    return random.Random('%s/%s/%s' % (cid, seed, i))

def load_known():
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as f: return json.load(f)
    except IOError:
        return {'findings': [], 'fixed': []}

# ------------------------------------------------------------------------------------------------ worker
def _alarm(signum, frame):
    raise Stuck('time budget of the case exhausted')

def run_case(mod, case, budget):
    """ runs one case; returns (rec, error) """
    rec = Rec()
    err = None
    signal.setitimer(signal.ITIMER_PROF, budget)
    try:
        mod.run(case, rec)
    except Stuck:
        signal.setitimer(signal.ITIMER_PROF, 0)
        rec.violation('no-progress', 'the code under test did not finish within %s s of CPU time\n%s' % (budget, traceback.format_exc(limit=-8)))
        rec.stuck = True
    except Exception as e:
        signal.setitimer(signal.ITIMER_PROF, 0)
        tb = sys.exc_info()[2]
        if in_repo(tb) and not isinstance(e, Harness):
            rec.violation('unexpected-exception', traceback.format_exc(limit=-8))
        elif isinstance(e, (TypeError, ValueError, AttributeError, LookupError)) and not isinstance(e, Harness):
            # the oracle stumbled over a value the code under test produced (None instead of octets, a string instead of a number...)
            rec.violation('uninterpretable-result', 'the monitor cannot interpret what the code under test produced\n' + traceback.format_exc(limit=-8))
        else:
            err = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return rec, err

def worker(mod, w, nworkers, seed, tier, count, deadline, stopflag, out, known, first, progress):
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    def send(obj):
        out.write(json.dumps(obj) + '\n'); out.flush()
    try:
        mod.setup()
    except BaseException:
        send({'error': 'setup failed: ' + traceback.format_exc()}); os._exit(0)
    agg, keys, nsamples, pending = {}, set(), 0, 0
    budget = getattr(mod, 'CPU_BUDGET', 20)
    evaluated = 0
    lastflush = time.time()
    def flush():
        nonlocal agg, keys, evaluated, lastflush
        send({'n': evaluated, 'counters': agg, 'keys': sorted(keys)})
        agg, keys, evaluated, lastflush = {}, set(), 0, time.time()
    for i in range(first, count, nworkers):
        progress[w] = i
        if stopflag[0] or time.time() > deadline: break
        try:
            case = mod.gen_case(rng_for(mod.ID, seed, i), i, tier)
        except BaseException:
            send({'error': 'case generation failed (case %d): %s' % (i, traceback.format_exc())}); break
        rec, err = run_case(mod, case, budget)
        evaluated += 1
        if err:
            send({'error': 'case %d: %s' % (i, err), 'case': case}); break
        for k, v in rec.counters.items(): agg[k] = agg.get(k, 0) + v
        for k in rec.case_keys: keys.add(hashlib.blake2b(k.encode('utf-8', 'surrogatepass'), digest_size=8).hexdigest())
        if nsamples < 1 and (rec.case_keys or i > 50 * nworkers):
            nsamples += 1
            send({'sample': {'case': case, 'observed': rec.counters, 'info': rec.info}})
        fatal = False
        for mech, detail in rec.violations[:8]:
            send({'violation': {'mechanism': mech, 'detail': detail, 'i': i, 'case': case}})
            fatal = True
        if getattr(rec, 'stuck', False) or getattr(rec, 'poisoned', False):
            flush(); send({'died': i}); out.flush(); os._exit(0)
        if time.time() - lastflush > 1: flush()
    flush(); send({'done': True}); os._exit(0)

# ------------------------------------------------------------------------------------------------ parent
def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('cid'); ap.add_argument('--replay'); ap.add_argument('--tier'); ap.add_argument('--cases', type=int); ap.add_argument('--seed', type=int)
    ap.add_argument('--verbose', action='store_true'); ap.add_argument('--case', type=int); ap.add_argument('--keep-going', action='store_true')
    a = ap.parse_args(argv)
    cid = a.cid
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
    mod = importlib.import_module(cid.lower())
    assert mod.ID == cid
    if a.replay or a.case is not None: return replay(mod, a, seed, tier)
    t0 = time.time()
    count = a.cases or (mod.QUICK if tier == 'quick' else mod.THOROUGH)
    cap = getattr(mod, 'CAP', 240 if tier == 'quick' else 3000)
    if tier == 'thorough': cap = 3000
    known = load_known()
    known_mechs = {f['mechanism']: f for f in known.get('findings', []) if f['property'] == cid}
    stop = mmap.mmap(-1, 1)
    sel = selectors.DefaultSelector()
    pids = {}
    sys.stdout.flush(); sys.stderr.flush()
    progress = memoryview(mmap.mmap(-1, 8 * WORKERS)).cast('q')
    def fork(w, first):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.setpgid(0, 0)
            devnull = os.open(os.devnull, os.O_RDWR)
            if not a.verbose: os.dup2(devnull, 1); os.dup2(devnull, 2)
            os.dup2(devnull, 0)
            try:
                worker(mod, w, WORKERS, seed, tier, count, t0 + cap, stop, os.fdopen(wr, 'w'), known_mechs, first, progress)
            finally:
                os._exit(0)
        os.close(wr)
        sel.register(os.fdopen(r, 'rb', buffering=0), selectors.EVENT_READ, w)
        pids[w] = pid
    for w in range(WORKERS):
        progress[w] = w
        fork(w, w)
    ended, crashes = set(), 0
    n, counters, keys, samples, viols, errors, done, died = 0, {}, set(), [], [], [], 0, 0
    bufs = {}
    lastmsg = time.time()
    open_workers = set(range(WORKERS))
    timed_out = False
    def handle(m, w):
        nonlocal n, done, died
        if 'n' in m:
            n += m['n']
            for k, v in m['counters'].items(): counters[k] = counters.get(k, 0) + v
            keys.update(m['keys'])
        if 'sample' in m: samples.append(m['sample'])
        if 'error' in m: errors.append(m['error']); stop[0] = 1
        if 'violation' in m:
            viols.append(m['violation'])
            if m['violation']['mechanism'] not in known_mechs and not a.keep_going: stop[0] = 1
        if 'done' in m or 'died' in m or 'error' in m: ended.add(w)
        if 'done' in m: done += 1
        if 'died' in m: died += 1; stop[0] = 1
    stop[0] = 0
    while open_workers:
        evs = sel.select(timeout=2)
        if not evs:
            if time.time() - lastmsg > max(60, 3 * getattr(mod, 'CPU_BUDGET', 20)) or time.time() - t0 > cap + 90:
                timed_out = True; break
            continue
        for key, _ in evs:
            data = key.fileobj.read(1 << 16)
            lastmsg = time.time()
            if not data:
                sel.unregister(key.fileobj)
                w = key.data
                if w not in ended and crashes < 4 and not errors and not stop[0]: # the interpreter itself crashed: the case is left out
                    try: os.waitpid(pids[w], 0)
                    except OSError: pass
                    crashes += 1; counters['interpreter_crashes'] = crashes
                    bufs.pop(w, None)
                    fork(w, progress[w] + WORKERS)
                    continue
                open_workers.discard(w)
                continue
            b = bufs.get(key.data, b'') + data
            *lines, rest = b.split(b'\n')
            bufs[key.data] = rest
            for l in lines: handle(json.loads(l), key.data)
    for w, pid in pids.items():
        try: os.killpg(pid, signal.SIGKILL)
        except OSError: pass
        try: os.kill(pid, signal.SIGKILL)
        except OSError: pass
        try: os.waitpid(pid, 0)
        except OSError: pass
    if done + died < WORKERS and not timed_out and not errors:
        errors.append('%d worker(s) ended abnormally' % (WORKERS - done - died))
    wall = time.time() - t0
    new = [v for v in viols if v['mechanism'] not in known_mechs]
    seen_known = [v for v in viols if v['mechanism'] in known_mechs]
    # floors: a run in which the deciding monitors saw too little is inconclusive
    short = []
    if not new and not errors:
        for name, per100 in getattr(mod, 'FLOORS', {}).items():
            need = per100 * n / 100.0
            if counters.get(name, 0) < need or n == 0:
                short.append('%s: %d observed, at least %d expected in %d cases' % (name, counters.get(name, 0), need, n))
    ev = {'property': cid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'), 'wall_s': round(wall, 2),
          'violations': len(new), 'assumptions': list(mod.ASSUMPTIONS),
          'coverage': {'evaluations': n, 'distinct_nontrivial': len(keys), 'rule': mod.RULE, 'samples': samples[:4],
                       'monitor_counters': dict(sorted(counters.items())), 'workers': WORKERS,
                       'known_findings_seen': sorted({v['mechanism'] for v in seen_known})}}
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.%d' % (cid, os.getpid()))
    with open(tmp, 'w') as f: json.dump(ev, f, indent=1, ensure_ascii=True); f.write('\n')
    os.replace(tmp, os.path.join(VERIF, 'evidence', cid + '.json'))
    for f in known_mechs.values():
        print('KNOWN-FINDING: property=%s %s' % (cid, f['what']))
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s; %s' % (cid, tier, seed, n, len(keys), wall,
        ', '.join('%s=%d' % kv for kv in sorted(counters.items()))))
    if new:
        shown = set()
        for v in sorted(new, key=lambda v: v['i']):
            if v['mechanism'] in shown: continue
            shown.add(v['mechanism'])
            path = os.path.join(VERIF, 'evidence', 'replay', '%s-%s.json' % (cid, ''.join(c if c.isalnum() or c in '-_' else '_' for c in v['mechanism'])[:60]))
            with open(path, 'w') as f: json.dump({'property': cid, 'seed': seed, 'tier': tier, 'case_number': v['i'], 'mechanism': v['mechanism'], 'detail': v['detail'], 'case': v['case']}, f, indent=1)
            print('--- %s (case %d): %s' % (v['mechanism'], v['i'], v['detail']))
            if a.keep_going: print('    seen in %d cases' % len({x['i'] for x in new if x['mechanism'] == v['mechanism']}))
            print('VIOLATION property=%s replay=%s' % (cid, path))
        return 1
    if errors:
        for e in errors[:4]: print('ERROR: ' + e)
        return 3
    if timed_out:
        print('INCONCLUSIVE: a worker stopped reporting (wall-clock watchdog)')
        return 2
    if short:
        for s in short: print('INCONCLUSIVE: ' + s)
        return 2
    return 0

def replay(mod, a, seed, tier):
    signal.signal(signal.SIGPROF, _alarm)
    mod.setup()
    if a.replay:
        with open(a.replay) as f: case = json.load(f)['case']
    else:
        case = mod.gen_case(rng_for(mod.ID, seed, a.case), a.case, tier)
        print('case: ' + json.dumps(case))
    mod.VERBOSE = True
    rec, err = run_case(mod, case, 60)
    print('observed: %s' % json.dumps(rec.counters)); print('info: %s' % json.dumps(rec.info)[:4000])
    sys.stdout.flush()
    code = 0
    if err: print('ERROR: ' + err); code = 3
    for mech, detail in rec.violations:
        print('--- %s: %s' % (mech, detail)); print('VIOLATION property=%s replay=%s' % (mod.ID, a.replay or 'case:%s' % a.case)); code = 1
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(code)
