# -*- coding: utf-8 -*-
import threading
import common, simcase, modemsim
ID = 'C23'
QUICK, THOROUGH = 1200, 100000
RULE = ('1..3 calls (outgoing and incoming, answered, ringing, dialling, ended by either side) on every modem family, 1..8 tone strings of 1..60 tones per case over the whole DTMF alphabet, instant to slow playing, '
        'busy modems, every kind of refusal at any tone, the call ended while tones are played, and 0..2 other threads. The tones the modem executed and the exception are compared with the request. Distinct by (history, schedule hash).')
ASSUMPTIONS = ['tones are sent to one call at a time by one thread per modem without call identifiers in the tone command (+VTS has none)', 'tone strings are not empty']
FLOORS = {'strings': 150, 'tones': 900, 'refused': 25, 'interrupted': 15, 'not_answered': 30, 'slow': 10, 'ended_while_playing': 3, 'busy': 5, 'with_call_id': 30}
TONES = '0123456789ABCD*#'
def setup(): simcase.setup()

def gen_case(rng, i, tier):
    prof = rng.choice(['generic', 'generic-clac', 'huawei', 'huawei', 'huawei-noclac', 'huawei-ussd', 'wavecom', 'wavecom-clac', 'zte', 'qualcomm'])
    calls = []
    for k in range(rng.choice([1, 1, 2, 3])):
        calls.append({'kind': rng.choice(['out', 'out', 'in']), 'state': rng.choice(['answered'] * 6 + ['new', 'hungup', 'ended'])})
    for k, c in enumerate(calls): # (only one call can be in the process of being dialled)
        if c['kind'] == 'out' and c['state'] == 'new' and any(x['kind'] == 'out' for x in calls[k + 1:]): c['state'] = 'answered'
    ops = []
    for k in range(rng.choice([1, 3, 8])):
        n = rng.choice([1, 1, 2, 3, rng.randint(2, 20), rng.randint(10, 60)])
        t = ''.join(rng.choice(TONES) for _ in range(n)) if rng.random() < .8 else rng.choice(TONES) * n
        o = {'call': rng.randrange(len(calls)), 'tones': t, 'gap': rng.choice([0, 0, .3, 2])}
        r = rng.random()
        if r < .3: o['fail'] = [rng.randrange(n), rng.choice(['+CME ERROR: 30', '+CME ERROR: 30', '+CME ERROR: 3', '+CME ERROR: 3', '+CME ERROR: 4', '+CME ERROR: 0', '+CME ERROR: 100', '+CME ERROR: 33', '+CME ERROR: 303', '+CMS ERROR: 30', '+CMS ERROR: 3', '+CMS ERROR: 302', 'ERROR', 'COMMAND NOT SUPPORT'])]
        elif r < .36: o['busy'] = rng.randint(1, 2)
        elif r < .5: o['slow'] = rng.choice([.05, .3, .9, 1.0])       # seconds per tone
        elif r < .55: o['silent'] = True                                # the tones are played, no answer in time
        elif r < .62: o['ends'] = True                                  # the remote party hangs up meanwhile
        ops.append(o)
    return {'cfg': {'profile': prof, 'delay': rng.choice([0, 0, .03]), 'seed': rng.getrandbits(32), 'framing': rng.choice([0, 1, 2])}, 'calls': calls, 'ops': ops,
            'threads': rng.choice([0, 0, 1, 2]), 'order': rng.random(), 'sched': simcase.sched_params(rng)}

def run(case, rec):
    EX, M = simcase.exceptions, simcase.modem
    sig = []
    def main(s):
        m = modemsim.virtual(s, case['cfg'])
        incoming = []
        g = M.GsmModem('/dev/sim', incomingCallCallbackFunc=lambda c: incoming.append(c) if not any(c is x for x in incoming) else None)
        try: g.connect()
        except Exception as e: rec.violation('connect-failed', '%s: %s' % (type(e).__name__, e)); return
        vs = simcase.detsched.vsleep
        poll = m.c['calls'] == 'poll'
        # set the calls up, one after another (a new call gets the lowest free number in the modem and in the host)
        calls = []
        for k, c in enumerate(case['calls']):
            try:
                if c['kind'] == 'out':
                    call = g.dial('55%d' % k, timeout=5)
                    cid = max(m.calls); vs(.7)
                    if c['state'] == 'answered': m.remote_answer(cid); vs(1.3)
                else:
                    n = len(incoming)
                    cid = m.incoming('+4490%d' % k); m.urc(*m.ring(cid)); vs(1)
                    if len(incoming) != n + 1: rec.violation('ring-lost', 'incoming call %d was not announced' % k); return
                    call = incoming[-1]
                    if c['state'] == 'answered': m.ata_target = cid; call.answer(); m.ata_target = None
                if c['state'] == 'hungup': m.ath_target = cid; call.hangup(); m.ath_target = None; vs(1.2)
                elif c['state'] == 'ended' and not (poll and c['kind'] == 'in'):
                    if cid in m.calls: m.remote_end(cid)
                    vs(1.5)
                elif c['state'] == 'ended': c = dict(c, state='new')
            except Exception as e: rec.violation('call-setup', 'call %d %r: %s: %s' % (k, c, type(e).__name__, e)); return
            calls.append((call, cid, c['state']))
            rec.eq(call.answered, c['state'] == 'answered', 'answered', 'call %d %r' % (k, c))
            if rec.violations: return
        # a bare OK is a call notification on these modems: nothing else is sent while an outgoing call is unanswered
        dialling = any(c['kind'] == 'out' and st == 'new' for c, (_, _, st) in zip(case['calls'], calls))
        solo = m.c['calls'] in ('wavecom', 'zte') and dialling
        stop, bad = [False], []
        def other():
            while not stop[0]:
                try: rec.eq(g.signalStrength, 20, 'foreign-command')
                except EX.TimeoutException: pass      # (the modem may be playing tones for longer than that)
                except Exception as e: bad.append(repr(e))
                vs(.13)
        # the modem does not answer in time or the call ends while the tones are played: the effect on other threads is another property's
        calm = any('silent' in o or 'slow' in o or 'ends' in o or 'busy' in o for o in case['ops'])
        ts = [threading.Thread(target=other) for _ in range(0 if solo or calm else case['threads'])]
        for t in ts: t.start()
        over = set(k for k, (_, _, st) in enumerate(calls) if st != 'answered')
        for n, o in enumerate(case['ops']):
            vs(o['gap'])
            call, cid, st = calls[o['call']]
            tones = o['tones']
            dtmf_id = m.c['dtmf'] == '^DTMF'
            m.tones = []; m.ntones = 0; m.dtmf_fail = {}; m.c['tone_time'] = 0; m.device_busy = 0
            live = o['call'] not in over
            if poll: o = {k: v for k, v in o.items() if k != 'silent' and not (k == 'ends' and case['calls'][o['call']]['kind'] == 'in')}
            ctx = 'step %d: %r in call %d (%s, %s) %r' % (n, tones, o['call'], case['calls'][o['call']]['kind'], 'over' if not live else 'answered', {k: v for k, v in o.items() if k not in ('tones', 'call', 'gap')})
            if 'fail' in o: m.dtmf_fail = {o['fail'][0]: o['fail'][1]}
            if 'busy' in o: m.device_busy = o['busy'] if live else 0
            if 'slow' in o: m.c['tone_time'] = min(o['slow'], (len(tones) + 4.5) / len(tones)); rec.count('slow')
            if 'silent' in o and not solo: m.c['tone_time'] = (len(tones) + 7.0) / len(tones)
            if 'ends' in o and live and not solo:
                # the remote party hangs up while the modem is playing; it then refuses the rest
                k = len(tones) // 2
                m.dtmf_fail = {k: m.cme(30 if len(tones) % 2 else 3)}; m.c['tone_time'] = .4
                m.at(.2, lambda cid=cid: cid in m.calls and m.remote_end(cid))
                rec.count('ended_while_playing'); over.add(o['call'])
            mark = len(m.log)
            t0 = s.now
            exc = None
            try: call.sendDtmfTone(tones)
            except Exception as e: exc = e
            took = s.now - t0
            rec.count('strings')
            cmds = [x for _, k, x in m.log[mark:] if k == 'cmd' and ('VTS' in x or 'DTMF' in x)]
            got = ''.join(x[2] for x in m.tones)
            sig.append((len(tones), live, type(exc).__name__))
            if not live:
                rec.count('not_answered')
                rec.eq((type(exc).__name__, cmds), ('InvalidStateException', []), 'not-answered', ctx)
                continue
            rec.count('tones', len(m.tones))
            if dtmf_id: rec.count('with_call_id'); rec.expect(all(x[1] == cid for x in m.tones), 'other-call', lambda: '%s: call %d of the modem, tones went to %r' % (ctx, cid, m.tones[:5]))
            if m.dtmf_fail:
                k, err = next(iter(m.dtmf_fail.items()))
                rec.count('refused')
                rec.eq(got, tones[:k], 'tones', ctx)
                code = int(err.split()[-1]) if err[-1].isdigit() else None
                if err in ('+CME ERROR: 30', '+CME ERROR: 3'):
                    rec.count('interrupted')
                    rec.eq(type(exc).__name__, 'InterruptedException', 'interrupted', '%s: %r' % (ctx, exc))
                else:
                    want = 'CmeError' if err.startswith('+CME') else 'CmsError' if err.startswith('+CMS') else 'CommandError'
                    rec.eq((type(exc).__name__, getattr(exc, 'code', None)), (want, code), 'refusal', '%s: %r' % (ctx, exc))
            elif 'silent' in o and not solo:
                rec.eq(type(exc).__name__, 'TimeoutException', 'no-answer', '%s: after %.2f s' % (ctx, took))
                rec.eq(got, tones, 'tones', ctx)
                vs(4)
            else:
                if 'busy' in o: rec.count('busy')
                rec.expect(exc is None, 'failed', lambda: '%s: %s: %s (after %.2f s)' % (ctx, type(exc).__name__, exc, took))
                rec.eq(got, tones, 'tones', ctx)
            if 'ends' in o: vs(1.5)
            if rec.violations: break
        m.c['tone_time'] = 0
        for k, (call, cid, st) in enumerate(calls): rec.eq(call.answered, k not in over, 'answered', 'call %d at the end' % k)
        stop[0] = True
        for t in ts: t.join()
        rec.expect(not bad, 'foreign-command', lambda: repr(bad[:3]))
        rec.expect(not m.faults, 'protocol', lambda: repr(m.faults[:3]))
        g.close()
    ok, s = simcase.run(rec, case['sched'], main, max_steps=600000)
    rec.key(sig, case['cfg']['profile'], s.sig)
