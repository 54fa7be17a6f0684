# -*- coding: utf-8 -*-
import copy, random, threading
import common, simcase, modemsim
ID = 'C22'
QUICK, THOROUGH = 450, 60000
RULE = ('1..6 outgoing calls per case (successive, and parallel to answered ones), dialled from one or two threads on every modem family, each refused, set up late, answered after a random time, rejected, ended by either side at any moment; '
        'with incoming calls and other commands meanwhile; status callbacks that hang up, query, block, raise or dial again. Every call object is sampled all the time and judged, together with its callbacks, against the events of the simulated network. Distinct by (history, schedule hash).')
ASSUMPTIONS = ['only one call is being dialled at a time (the modem refuses another one)', 'events of one call are at least 0.3 s apart, except that it may be answered or end in the same moment as it is set up, or be answered and ended at the same moment (what the callbacks are told in between is left open then)', 'Wavecom and ZTE modems signal call events by a bare "OK": no other command is written while such an event is due', 'a refused call is reported by ZTE modems as an event of the call, not of the command',
               'no incoming call starts to ring while an outgoing one is being set up', 'a polled modem lists its calls when asked, except that it may refuse, or not answer, up to two polls in a row, but not while a call is being set up with a short timeout']
FLOORS = {'ended_at_once': 5, 'early_news': 6, 'dialled': 90, 'answered': 35, 'remote_end': 20, 'rejected': 8, 'local_hangup': 15, 'refused': 8, 'not_set_up': 5, 'parallel': 8, 'samples': 5000, 'with_incoming': 10, 'concurrent_dials': 2, 'failed_polls': 30}
class Boom(Exception): pass
def setup(): simcase.setup()
NUMBERS = ['+27821234567', '0821234567', '112', '*100#', '1', '00441632960000', '555', '#31#0821234567']

def gen_case(rng, i, tier):
    prof = rng.choice(['generic', 'generic-clac', 'generic-clac', 'nokia', 'huawei', 'huawei', 'huawei-noclac', 'wavecom', 'wavecom', 'wavecom-clac', 'zte', 'zte', 'qualcomm'])
    kind = modemsim.PROFILES[prof]['calls']
    n = rng.choice([1, 2, 3, 4, 6])
    calls, dialler = [], rng.choice([1, 1, 1, 2])
    for k in range(n):
        c = {'number': rng.choice(NUMBERS), 'timeout': rng.choice([2, 3, 5, 5, 8]), 'setup': round(rng.choice([.05, .2, rng.uniform(.1, 1.3)]), 3), 'cb': rng.choice(['plain', 'plain', 'plain', 'plain', 'none', 'hangup', 'query', 'slow', 'raise', 'block'])}
        r = rng.random()
        if r < .12 and kind != 'zte': c['fate'] = 'refuse'; c['error'] = rng.choice(['ERROR', '+CME ERROR: 3', '+CME ERROR: 30'] + ([] if kind in ('poll', 'huawei') and (k or dialler == 2) else ['NO CARRIER', 'BUSY', 'NO DIALTONE', 'NO ANSWER'])) # (while a command is not answered, a modem cannot be asked, and what it says is taken for the answer)
        elif r < .18 and kind not in ('zte',): c['fate'] = 'late'; c['setup'] = c['timeout'] + rng.choice([.7, 1.5, 4])
        elif r < .22 and kind not in ('zte',) and not (kind in ('poll', 'huawei') and (k or dialler == 2)): c['fate'] = 'silent'
        else:
            c['fate'] = 'ok'
            c['answer'] = round(rng.choice([.35, .5, rng.uniform(.3, 3)]), 3) if rng.random() < .72 else None
            c['end'] = round(rng.choice([.35, .5, rng.uniform(.3, 4)]), 3) if rng.random() < (.6 if c['answer'] else .7) else None
            if c['answer'] and kind != 'poll' and rng.random() < .1: c['end'] = rng.choice([0, 0, .0005, .002, .01, .05, .15]); c['snap'] = True; c['cb'] = rng.choice(['plain', 'plain', 'none', 'raise'])
            if kind in ('huawei', 'wavecom') and rng.random() < .15: # the news follow right after the notification that the call is being set up
                e = 0; c['early'] = True; c.pop('snap', None)
                if rng.random() < .6: c['answer'], c['end'] = None, e
                else: c['answer'], c['end'] = 1e-6, round(rng.uniform(.35, 3), 3) if rng.random() < .6 else None
            c['hangup'] = round(rng.uniform(.1, 5), 3) if not c.get('snap') and (rng.random() < .4 or c['end'] is None and rng.random() < .7) else None
        c['wait'] = rng.choice(['over', 'over', 'answered', 'answered', 'some'])     # when the next call is dialled
        c['gap'] = rng.choice([0, .05, .3, 1, 2.5])
        calls.append(c)
    return {'cfg': {'profile': prof, 'delay': rng.choice([0, 0, .01, .03]), 'seed': rng.getrandbits(32), 'framing': rng.choice([0, 1, 2]), 'clcc_sep': rng.choice([' ', ' ', ' ', '']),
                    'clcc_bare': rng.choice([None, None, None, 'unknown', True]), 'clcc_tail': rng.choice(['', '', ',"Bob"', ',""', ',"Doe, J",0'])},
            'clcc_fault': rng.choice([None, None, 'error', 'error', 'silent']) if kind == 'poll' else None, 'clcc_p': rng.choice([.05, .15, .4]), 'clcc_error': rng.choice(['ERROR', '+CME ERROR: 100', '+CME ERROR: 3', '+CMS ERROR: 500']), 'clcc_seed': rng.getrandbits(32),
            'calls': calls, 'incoming': rng.choice([None, None, None, 'first', 'first', 'later']), 'in_answer': rng.random() < .5, 'clients': [round(rng.uniform(.04, .4), 3) for _ in range(rng.choice([0, 0, 1, 2]))] if kind in ('poll', 'huawei') else [],
            'dialler': dialler, 'offset': rng.choice([0, 0, .01, .2, .6]), 'sched': simcase.sched_params(rng)}

def run(case, rec):
    case = copy.deepcopy(case)
    EX, M = simcase.exceptions, simcase.modem
    vs = simcase.detsched.vsleep
    sig = []
    def main(s):
        m = modemsim.virtual(s, case['cfg'])
        kind = m.c['calls']
        tol = 1.9 if kind == 'poll' else .35
        lag = {'error': 1.2, 'silent': 6.2}.get(case.get('clcc_fault'), 0) # a poll that fails delays what is learnt from it
        tol += lag
        if lag:
            frng, row, last = random.Random(case['clcc_seed']), [0], [-99]
            def override(cmd):
                if cmd != 'AT+CLCC': return None
                if row[0] >= (2 if case['clcc_fault'] == 'error' else 1) or frng.random() >= case['clcc_p']: row[0] = 0; return None
                if any('t1' not in f and (case['clcc_fault'] == 'silent' or f['c']['timeout'] < 5) for f in infos): return None # (a call that is being set up would not be noticed in time)
                if case['clcc_fault'] == 'silent' and m.now() - last[0] < 12: return None
                last[0] = m.now()
                row[0] += 1
                m.last_clcc = m.now()
                rec.count('failed_polls')
                return 'silent' if case['clcc_fault'] == 'silent' else ([], case['clcc_error'])
            m.override = override
        inc, bad = [], []
        g = M.GsmModem('/dev/sim', incomingCallCallbackFunc=lambda c: inc.append(c))
        try: g.connect()
        except Exception as e: rec.violation('connect-failed', '%s: %s' % (type(e).__name__, e)); return
        hlock = threading.RLock() # hang-ups, one at a time (the simulator is told which call is meant)
        dlock = threading.RLock()
        infos = []
        stop, gate = [False], [False]
        def sampler():
            while not stop[0]:
                for f in infos:
                    c = f.get('call')
                    if c is None: continue
                    for _ in range(8):
                        t0, h0 = s.now, f.get('hang1')
                        x = bool(c.answered), bool(c.active), any(x is c for x in list(g.activeCalls.values()))
                        if s.now == t0 and f.get('hang1') == h0: f['samples'].append((t0,) + x); break # (no time passed while it was taken)
                vs(.073)
        def client(gap):
            while not stop[0]:
                while gate[0]: vs(.03)
                try: rec.eq(g.signalStrength, 20, 'foreign-command')
                except Exception as e: bad.append('signalStrength: %r' % e)
                vs(gap)
        def hangup(f):
            with hlock:
                c = f['call']
                f.setdefault('hang0', s.now)
                m.ath_target = lambda: f['cid'] if m._alive(f['sim']) else -1
                n = sum(1 for l in m.call_log if l[1] == 'ATH')
                was = c.active
                try: c.hangup()
                except Boom: pass # (of the callback)
                except Exception as e: bad.append('hangup: %r' % e)
                m.ath_target = None
                rec.expect(sum(1 for l in m.call_log if l[1] == 'ATH') - n == (1 if was else 0) or not was, 'hangup-command', lambda: 'call %d' % f['n'])
                rec.expect(not c.active and not c.answered, 'hangup-state', lambda: 'call %d after hangup(): active %r answered %r' % (f['n'], c.active, c.answered))
                f.setdefault('hang1', s.now)
        def place(n, c):
            """ dials call n, returns its record """
            f = {'n': n, 'c': c, 'samples': [], 'cb': [], 'call': None, 't0': s.now}
            infos.append(f)
            def on_call(call):
                f['cid'], f['sim'] = call['id'], call
                f['t_up'] = s.now + c['setup'] if kind != 'zte' else s.now
                if c['fate'] == 'late':
                    m.at(c['setup'] + .5, lambda: m._alive(call) and (m.remote_end(call['id']), f.__setitem__('t_end', s.now)))
                    return
                t = c['setup']
                if c['answer']:
                    t += c['answer'] + (1 if kind == 'poll' and (n % 2 or any(s.now - x.get('t_end', -9) < 1.5 for x in infos)) else 0)
                    def ans():
                        if not m._alive(call): return
                        f['t_ans'] = s.now; m.remote_answer(call['id'])
                    if c.get('early'): call['plan']['then'] = ans
                    else: m.at(t, ans)
                    f['due'] = [s.now + t]
                if c['end'] is not None:
                    t += c['end']
                    def end():
                        if not m._alive(call): return
                        f['t_end'] = s.now; m.remote_end(call['id'], reject=call['state'] == 2)
                    if c.get('early') and not c['answer']: call['plan']['then'] = end
                    else: m.at(t, end)
                    f.setdefault('due', []).append(s.now + t)
            def on_dial():
                f.setdefault('dials', []).append(s.now)
                if c['fate'] == 'refuse': return {'refuse': c['error']}
                if c['fate'] == 'silent': return {'silent': True}
                if any(x['dir'] == 0 and x['state'] == 2 for x in m.calls.values()): f['second'] = True; return {'refuse': 'ERROR'}
                return {'setup': c['setup'], 'on_call': on_call}
            def cb(call):
                f['cb'].append((s.now, bool(call.answered), bool(call.active), call))
                w = c['cb']
                if w == 'raise': raise Boom()
                if kind in ('wavecom', 'zte') and w == 'query': return
                if w == 'query' and call.answered: g.signalStrength
                elif w == 'slow': vs(.7)
                elif w == 'block' and call.answered: # until the call is over
                    t = s.now
                    while call.active and s.now < t + 8: vs(.1)
                elif w == 'hangup' and call.answered: hangup(dict_f(call))
            def dict_f(call):
                f.setdefault('call', call)
                if f['call'] is None: f['call'] = call
                return f
            f['on_dial'] = on_dial
            with dlock if kind in ('wavecom', 'zte') else threading.Lock():
                f['t0'] = s.now
                try: call = g.dial(c['number'], c['timeout'], *([] if c['cb'] == 'none' else [cb]))
                except Exception as e: f['exc'] = e
                else: f['call'] = call
                f['t1'] = s.now
            return f
        def dispatch(number):
            for f in infos: # the dial() in progress for this number
                if f['c']['number'] == number and 't1' not in f and 'dials' not in f: return f['on_dial']()
            bad.append('unexpected dial command for %r' % number)
        m.on_dial = dispatch
        def over(f): return f['call'] is None or 't_end' in f or 'hang1' in f
        ts = [threading.Thread(target=sampler)] + [threading.Thread(target=client, args=(x,)) for x in case['clients']]
        for t in ts: t.start()
        incoming = {}
        def ring():
            gate[0] = True; vs(.1) # no command is written while the lines of a ring are read
            while m.last_clcc is not None and kind == 'poll' and m.now() - m.last_clcc < .8 and not .1 < m.now() - m.last_clcc < .3: vs(.05)
            incoming['cid'] = m.incoming('+4912345')
            m.urc(*m.ring(incoming['cid'])); vs(.2)
            gate[0] = False; vs(1 + lag)
            if not rec.expect(bool(inc), 'ring-lost', lambda: 'incoming call was not announced'): return
            incoming['call'] = inc[-1]
            if case['in_answer'] and inc[-1].ringing:
                m.ata_target = incoming['cid']
                try: inc[-1].answer()
                except Exception as e: bad.append('answer: %r' % e)
                m.ata_target = None
            rec.count('with_incoming')
        if case['incoming'] == 'first': ring()
        groups, n = [], 0
        while n < len(case['calls']):
            k = 2 if case['dialler'] == 2 and kind in ('poll', 'huawei') and n + 1 < len(case['calls']) else 1
            groups.append(list(range(n, n + k))); n += k
        def wait(n):
            c = case['calls'][n]
            vs(c.get('offset', 0))
            f = place(n, c)
            if c.get('hangup') if f['call'] is not None else None:
                # not while a notification that looks like a response is due
                def hang(f=f, c=c):
                    vs(c['hangup'])
                    while kind in ('wavecom', 'zte') and any(abs(s.now - d) < .5 for x in infos for d in x.get('due', [])): vs(.1)
                    if kind in ('wavecom', 'zte'):
                        with dlock: hangup(f); vs(.3)
                    elif 'call' in f: hangup(f)
                h = threading.Thread(target=hang); h.start(); f['thread'] = h
            # wait
            limit = s.now + 12
            def ready():
                if kind == 'poll' and f['call'] is None and 'sim' in f: return not m._alive(f['sim'])
                if f['call'] is None: return 'sim' not in f or not m._alive(f['sim'])
                if c['wait'] == 'over': return over(f)
                return over(f) or 't_ans' in f
            while not ready() and s.now < limit: vs(.1)
            if f['call'] is not None and not over(f) and 't_ans' not in f: hangup(f) # (nobody answers)
        for group in groups:
            # an unanswered outgoing call makes the modem refuse another one
            if any(x['dir'] == 0 for x in m.calls.values()): rec.count('parallel')
            n = group[-1]; c = case['calls'][n]
            if len(group) == 1: wait(n)
            else:
                rec.count('concurrent_dials')
                c['offset'] = case['offset']
                if c['number'] == case['calls'][n - 1]['number']: c['number'] = '99%d' % n
                hs = [threading.Thread(target=wait, args=(x,)) for x in group]
                for h in hs: h.start()
                for h in hs: h.join()
            f = next(x for x in infos if x['n'] == n)
            vs(.35 if kind != 'poll' else c['gap'] if c['gap'] > .3 or over(f) else .3)
            vs(c['gap'] if kind != 'poll' else 0)
            if case['incoming'] == 'later' and group[0] == 0: ring()
            t9 = s.now + 15
            while lag and s.now < t9 and any(over(x) and x['call'] is not None and x['call'].active for x in infos): vs(.1) # (the modem would use its ID again)
            if kind in ('wavecom', 'zte'): # no dial command while an event is due
                while any(-.1 < d - s.now < .6 and not over(x) or 0 <= s.now - d < .3 for x in infos for d in x.get('due', [])): vs(.1)
        # let everything happen, then hang up what is left
        vs(6)
        for f in infos:
            if f.get('thread'): f['thread'].join()
        for f in infos:
            if f['call'] is not None and not over(f): hangup(f)
        vs(2.5 + lag)
        stop[0] = True
        for t in ts: t.join()
        vs(9 + lag)
        rec.expect(not bad, 'operation-failed', lambda: repr(bad[:3]))
        rec.expect(not m.faults, 'protocol', lambda: repr(m.faults[:3]))
        left = [c for c in g.activeCalls.values() if not isinstance(c, M.IncomingCall)]
        rec.expect(not left, 'still-listed', lambda: '%r' % [(c.id, c.number) for c in left])
        if 'call' in incoming:
            c = incoming['call']
            rec.eq((c.active, c.answered, c.number, len(inc)), (True, case['in_answer'], '+4912345', 1), 'incoming-call', 'the incoming call after %d outgoing ones' % len(infos))
        # (the program's callbacks run one after another: one that takes its time delays those of the other calls)
        slow = [f for f in infos if f['c']['cb'] == 'slow']
        for f in infos: judge(f, kind, lag, tol if kind == 'poll' else tol + .75 * min(2, sum(x is not f for x in slow)) + (9 if any(x is not f and x['c']['cb'] == 'block' and any(abs(x.get('t_ans', -9) - f.get(e, 1e9)) < .5 for e in ('t_ans', 't_end')) for x in infos) else 0))
        g.close()
    def judge(f, kind, lag, tol):
        c = f['c']
        ctx = 'call %d %r' % (f['n'], {k: v for k, v in f.items() if k not in ('samples', 'c', 'call', 'sim', 'thread')}) + ' plan %r' % c
        rec.count('dialled'); rec.count('early_news', bool(c.get('early')))
        sig.append((c['fate'], round(f.get('t_ans', 0), 1), round(f.get('t_end', 0), 1), f.get('hang1') is not None))
        rec.eq(len(f.get('dials', [])), 1, 'dial-command', ctx)
        exc, call = f.get('exc'), f['call']
        if c['fate'] == 'refuse' or f.get('second'):
            rec.count('refused')
            rec.expect(exc is not None and isinstance(exc, (simcase.exceptions.CommandError, simcase.exceptions.TimeoutException)), 'refused-call', lambda: '%s: %r' % (ctx, exc or call))
            return
        if c['fate'] in ('late', 'silent'):
            rec.count('not_set_up')
            rec.expect(type(exc).__name__ == 'TimeoutException', 'not-set-up', lambda: '%s: %r' % (ctx, exc or call))
            took = f['t1'] - f['dials'][0]
            rec.expect(c['timeout'] - .01 <= took <= 2 * c['timeout'] + 1.5 + lag, 'dial-timeout', lambda: '%s: %.2f s' % (ctx, took))
            return
        if kind == 'poll' and call is None and f.get('t_end', 1e9) - f['t_up'] < 1 + lag: rec.count('over_before_poll'); return # (over before it was seen)
        if not rec.expect(call is not None, 'dial-failed', lambda: '%s: %s: %s' % (ctx, type(exc).__name__, exc)): return
        rec.eq(call.number, c['number'], 'number', ctx)
        rec.expect(not isinstance(call, simcase.modem.IncomingCall), 'call-object', lambda: ctx)
        rec.eq(call.id, f['cid'], 'call-id', ctx)
        rec.expect(f['t1'] <= f.get('t_up', 0) + tol or f['t1'] <= f['dials'][0] + tol, 'dial-slow', lambda: '%s returned %.2f s after the call was set up' % (ctx, f['t1'] - f['t_up']))
        INF = 1e9
        ta = f.get('t_ans', INF); te = f.get('t_end', INF); h0, h1 = f.get('hang0', INF), f.get('hang1', INF)
        if te < h0: h0 = h1 = INF; rec.count('remote_end' if ta < te else 'rejected')
        elif h1 < INF: rec.count('local_hangup')
        if h0 < te: te = INF
        if ta < INF: rec.count('answered')
        def truth(t): return ta <= t < te and t < h1, t < te and t < h1
        for t, a, act, listed in f['samples']:
            pts = [truth(x) for x in (t - tol, t)] + [truth(x) for x in (ta, te, te - .001, h1 - .001) if t - tol <= x <= t]
            if t >= h0: pts += [(False, False)] + ([truth(h0)] if t <= h1 + .001 else [])
            if t - tol <= ta <= t and ta <= te and ta <= h0: pts.append((True, True)) # (also if it ended at that very moment)
            if t > h1 + .001: pts = [(False, False)]
            rec.count('samples')
            if not rec.expect(any(a == p[0] for p in pts) and any(act == p[1] for p in pts) and any(listed == p[1] for p in pts), 'call-state', lambda: '%s: at %.2f answered %r active %r listed %r; answered at %.2f, ended at %.2f, hung up %.2f..%.2f' % (ctx, t, a, act, listed, ta, te, h0, h1)): break
        if c['cb'] == 'none': return
        got = f['cb']
        rec.expect(all(x[3] is call for x in got), 'callback-call', lambda: ctx)
        yes, no = [x for x in got if x[1]], [x for x in got if not x[1]]
        want_yes = 1 if ta < INF else 0
        # (an answer that is noticed while the call is being hung up may or may not be reported)
        snap = ta < INF and te - ta < .3 # answered and ended at the same moment: the callbacks may see either, in the end it is over
        if snap: rec.count('ended_at_once')
        loose = ta < INF and (h0 - ta < tol or kind == 'poll' and te - ta < 1 + lag) or snap
        rec.expect(len(yes) == want_yes or loose and len(yes) <= 1, 'answered-callback', lambda: '%s: %d callbacks for the answer: %r' % (ctx, len(yes), [x[:3] for x in got]))
        for x in yes: rec.expect(ta <= x[0] <= ta + tol and (x[2] or h0 < INF or snap), 'answered-callback', lambda: '%s: answer at %.2f reported at %.2f, active %r' % (ctx, ta, x[0], x[2]))
        if te < INF:
            # answered and ended between two polls: seen as rejected
            rec.expect(len(no) == 1 or snap and len(no) <= 2 or len(no) == 2 and f.get('hang0', INF) - te < tol, 'ended-callback', lambda: '%s: %d callbacks for the end: %r' % (ctx, len(no), [x[:3] for x in got]))
            for x in no: rec.expect(snap or te <= x[0] <= te + tol and not x[2], 'ended-callback', lambda: '%s: end at %.2f reported at %.2f, active %r' % (ctx, te, x[0], x[2]))
        else:
            rec.expect(len(no) <= 2 and all(h0 <= x[0] <= h1 + tol and not x[2] for x in no), 'ended-callback', lambda: '%s: hung up at %.2f..%.2f, callbacks %r' % (ctx, h0, h1, [x[:3] for x in got]))
    ok, s = simcase.run(rec, case['sched'], main, max_steps=900000, ignore_uncaught=(Boom, simcase.exceptions.TimeoutException))
    rec.key(sig, case['cfg']['profile'], s.sig)
