# -*- coding: utf-8 -*-
import threading
import common, gen, simcase, modemsim, smsgen
ID = 'C20'
QUICK, THOROUGH = 500, 40000
RULE = ('sequences of 1..6 USSD requests, replies in the session, and cancellations; the network answers with any text on one or several lines, before, right behind or long after the acknowledgement, with extra release notices in either order, with a refusal, with no answer, without acknowledgement, or after the timeout; '
        'unsolicited USSD messages, other notifications and arriving SMS in between, 0..2 threads issuing other commands. Returned text, session state, exception, timing and the requests the modem saw are judged. Distinct by (sequence of outcomes, schedule hash).')
ASSUMPTIONS = ['the text contains no quote followed by comma and digit, no "+CUSD", no blank line, and no line that equals a result code where the modem could mean it as one', 'late and unsolicited messages arrive while no request is outstanding', 'release notices come in one burst with the reply; the lines of one burst are contiguous: no other thread writes a command in the middle of it']
FLOORS = {'requests': 100, 'replies': 45, 'multiline': 15, 'before_ack': 30, 'timeouts': 20, 'refused': 15, 'release_notices': 20, 'stale_messages': 20, 'session_replies': 10, 'cancels': 10, 'parallel_requests': 60}
def setup(): simcase.setup()

CH = 'abcXYZ 0123456789*#.:;!?$/-+=&%()<>@_\'\xe9\xfc'
def rline(rng, hostile):
    r = rng.random()
    if r < hostile: return rng.choice(['OK', 'RING', '+CMTI: x', 'ERROR', '^CONN:1,0', 'CONNECT', 'HANGUP: 1'])
    if r < .5: return rng.choice(['Bal:$100.00 *', '1. Recharge', 'OK then', 'ERROR: none', '"quoted" word', 'a,b,c', ', 15', 'Your PIN, "x", please', '00410042', ' leading', 'x\ny', '+CME: no', '"', 'say "hi"', '0'])
    return ''.join(rng.choice(CH) for _ in range(rng.choice([1, 3, 10, 60, 160])))
def rtext(rng, multi, hostile):
    n = rng.choice([2, 3, 6]) if multi else 1
    t = '\r\n'.join(['T%d' % rng.randrange(1000) + (rline(rng, 0) if rng.random() < .8 else '')] + [rline(rng, hostile) for _ in range(n - 1)])
    return t if t.strip() and '",' + '0' not in t else 'T'
def gen_case(rng, i, tier):
    nclients = rng.choice([0, 0, 1, 2])
    reqs = []
    for k in range(rng.choice([1, 2, 3, 6])):
        kind = rng.choice(['reply'] * 6 + ['refuse', 'silent', 'noack', 'late', 'replynoack'])
        when = rng.choice(['before', 'before', 'behind', 'behind', 'after', 'after'])
        multi = rng.random() < .3
        q = {'s': rng.choice(['*%d#' % rng.randrange(1000), '*120*%d#' % k, '#100#', '%d' % rng.randrange(10), 'text answer %d' % k]), 'kind': kind, 'when': when, 'm': rng.choice([0, 0, 1, 1, 1, 2, 4, 5]), 'text': rtext(rng, multi, .3 if when != 'before' and kind != 'replynoack' and not nclients else 0),
             'dcs': rng.choice([15, 15, 0, 72, 68]), 'release': rng.choice([None] * 4 + ['first', 'last', 'last-bare', 'first-bare', 'other']), 'delay': round(rng.choice([.001, .05, 1, 4]), 3), 'ackdelay': rng.choice([0, 0, .05, 1]), 'timeout': rng.choice([None, 1.5, 6, 10]), 'error': rng.choice(['ERROR', '+CME ERROR: 30', '+CME ERROR: 3', '+CMS ERROR: 300', 'COMMAND NOT SUPPORT', '+CME ERROR: 258']),
             'then': rng.choice(['new', 'reply', 'reply', 'cancel', 'cancel+new']), 'notext': rng.random() < .06, 'noise': rng.choice([None, None, 'Some notification', '^RSSI:10']),
             'stale': [rng.choice(['+CUSD: 0,"stale %d",15' % k, '+CUSD: 1,"push %d",15' % k, '+CUSD: 2', '+CUSD: 1,"two\r\nlines",15']) for _ in range(rng.choice([0, 0, 0, 1, 2]))], 'gap': rng.choice([.5, 1])}
        if rng.random() < .04: q['text'] = ''
        if q['timeout'] == 1.5: q['delay'] = min(q['delay'], 1); q['ackdelay'] = min(q['ackdelay'], 1)
        if q['release'] and q['m'] == 2 or q['release'] == 'other': q['m'] = 0
        if nclients and (q['release'] or multi): q['when'] = 'before' # another thread's command may be written between the lines otherwise
        reqs.append(q)
    for a, b in zip(reqs, reqs[1:]):
        if a['then'].startswith('cancel') and rng.random() < .3: a['then'] = rng.choice(['cancel+reply', 'cancel+cancel', 'cancel+refused'])
    par = []
    if rng.random() < .25: # several threads at once
        reqs = []
        uid = [0]
        def P():
            uid[0] += 1
            return {'s': '*%d#' % uid[0], 'kind': rng.choice(['reply'] * 5 + ['refuse', 'silent']), 'when': rng.choice(['before', 'after', 'after', 'behind']), 'm': rng.choice([0, 0, 1]), 'delay': rng.choice([.001, .05, 1]), 'ackdelay': rng.choice([0, .05]), 'error': '+CME ERROR: %d' % (100 + uid[0]), 'reply': rng.random() < .4, 'gap': rng.choice([0, 0, .001, .05, 1])}
        par = [[P() for _ in range(rng.choice([1, 2, 4]))] for _ in range(rng.choice([2, 2, 3]))]
    return {'par': par, 'cfg': {'profile': rng.choice(['generic', 'huawei', 'huawei-ussd', 'wavecom', 'zte', 'generic-clac']), 'delay': rng.choice([0, 0, .01]), 'seed': rng.getrandbits(32), 'framing': rng.choice([0, 1, 2])}, 'reqs': reqs, 'sep': rng.choice([' ', ' ', ' ', '']),
            'clients': [rng.choice([0, .05, .4]) for _ in range(nclients)], 'sms': [round(rng.uniform(0, 5), 3) for _ in range(rng.choice([0, 0, 0, 2]))], 'sched': simcase.sched_params(rng)}

def run(case, rec):
    EX, M = simcase.exceptions, simcase.modem
    sig = []
    def main(s):
        m = modemsim.virtual(s, case['cfg'])
        sms = []
        g = M.GsmModem('/dev/sim', smsReceivedCallbackFunc=sms.append)
        try: g.connect()
        except Exception as e: rec.violation('connect-failed', '%s: %s' % (type(e).__name__, e)); return
        cur = [None]; info = {}
        def lines_of(q):
            msg = '+CUSD: %d' % q['m'] if q['notext'] else '+CUSD: %d,"%s",%d' % (q['m'], q['text'], q['dcs'])
            l = [msg]
            r = q['release']
            if r == 'first': l = ['+CUSD: 2,"Initiating Release",15'] + l
            elif r == 'first-bare': l = ['+CUSD: 2'] + l
            elif r == 'last': l = l + ['+CUSD: 2,"Session over",15']
            elif r == 'last-bare': l = l + ['+CUSD: 2']
            elif r == 'other': l = ['+CUSD: 3,"Other local client responded",15'] + l
            if q['notext'] and q['m'] == 1: rec.count('empty')
            elif not q['text']: rec.count('empty')
            return [x.replace('+CUSD: ', '+CUSD:' + case['sep'], 1) for x in l]
        def on_ussd(string):
            q = cur[0]
            k, w = q['kind'], q['when']
            info['asked'] = s.now
            if k == 'refuse': return [], q['error']
            if k == 'noack': m._free(); return None
            ls = lines_of(q)
            if k == 'replynoack':
                m.at(q['delay'], lambda: m.out(m.frame(ls))); m.at(q['delay'] + .001, m._free); return None
            def ack(extra=()):
                if k == 'reply' and extra: info['replied'] = s.now
                m.result(list(extra), 'OK', None, 0)
            def post():
                info['replied'] = s.now
                if q['noise'] and not case['clients']: m.urc(q['noise'], *ls) if len(q['text']) % 2 else m.urc(*(ls + [q['noise']]))
                else: m.urc(*ls)
            if k == 'silent' : m.at(q['ackdelay'], ack); return None
            if k == 'late':
                m.at(q['ackdelay'], ack); return None
            if w == 'before': rec.count('before_ack'); m.at(q['ackdelay'], lambda: ack(ls))
            elif w == 'behind': m.at(q['ackdelay'], lambda: (ack(), post()))
            else: m.at(q['ackdelay'], lambda: (ack(), m.at(q['delay'], post)))
            return None
        m.on_ussd = on_ussd
        stop, bad = [False], []
        def client(gap):
            while not stop[0]:
                try: rec.eq(g.signalStrength, 20, 'foreign-command')
                except Exception as e:
                    if isinstance(e, EX.TimeoutException) and cur[0] and cur[0]['kind'] in ('noack', 'replynoack', 'refuse'): pass
                    bad.append(repr(e))
                simcase.detsched.vsleep(gap + .05)
        for t in case['sms']:
            s.at(t, lambda: m.urc('+CMTI: "%s",%d' % (m.c['mems'][0], m.store(m.c['mems'][0], modemsim.deliver('+1', 'hi', [2024, 1, 1, 1, 1, 1, 0])))))
        ts = [threading.Thread(target=client, args=(x,)) for x in case['clients']]
        for t in ts: t.start()
        # ---- several threads make requests at once
        parq = {q['s']: q for l in case['par'] for q in l}
        waiting = [] # requests the network has not answered yet
        def on_par(string):
            q = parq[string]
            if waiting: rec.violation('overlapping-requests', 'AT+CUSD for %r while the answer to %r is awaited' % (string, waiting))
            waiting.append(string)
            def over(): waiting.remove(string)
            if q['kind'] == 'refuse': over(); return [], q['error']
            if q['kind'] == 'silent': m.at(14.9, over); return [], 'OK'
            l = ['+CUSD: %d,"you said %s",15' % (q['m'], string)]
            def post(): over(); m.urc(*l)
            if q['when'] == 'before': m.at(q['ackdelay'], lambda: (over(), m.result(l, 'OK', None, 0)))
            else: m.at(q['ackdelay'], lambda: (m.result([], 'OK', None, 0), m.at(q['delay'] if q['when'] == 'after' else 0, post)))
            return None
        def requester(l):
            session = None
            for q in l:
                simcase.detsched.vsleep(q['gap'])
                rec.count('parallel_requests')
                err = res = None
                try: res = session.reply(q['s']) if q['reply'] and session is not None and session.sessionActive else g.sendUssd(q['s'])
                except Exception as e: err = e
                ctx = 'concurrent request %r' % q
                if q['kind'] == 'refuse': rec.expect(isinstance(err, EX.CommandError) and getattr(err, 'code', None) == int(q['error'].split()[-1]), 'refusal', lambda: '%s: %r returned %r' % (ctx, err, res and vars(res)))
                elif q['kind'] == 'silent': rec.expect(isinstance(err, EX.TimeoutException), 'no-timeout', lambda: '%s: %r, returned %r' % (ctx, err, res and vars(res)))
                elif rec.expect(err is None, 'no-reply', lambda: '%s: %s %s' % (ctx, type(err).__name__, err)):
                    rec.eq((res.message, res.sessionActive), ('you said ' + q['s'], q['m'] == 1), 'reply-text', ctx)
                session = res
                sig.append((q['kind'], q['when'], q['m']))
        if case['par']:
            m.on_ussd = on_par
            simcase.detsched.vsleep(.5)
            ps = [threading.Thread(target=requester, args=(x,)) for x in case['par']]
            for t in ps: t.start()
            for t in ps: t.join()
            rec.eq(sorted(x for _, x in m.ussd_log), sorted(parq), 'request-on-wire', 'concurrent requests')
        session = None
        for n, q in enumerate(case['reqs']):
            for st in q['stale']: # while no request is outstanding
                rec.count('stale_messages'); m.urc(st)
            simcase.detsched.vsleep(q['gap'] + 3 * bool(q['stale']))
            ctx = 'request %d %r' % (n, {k: v for k, v in q.items() if k not in ('stale', 'gap')})
            then = case['reqs'][n - 1]['then'] if n else 'new'
            nlog = len(m.ussd_log)
            if session is not None and then.startswith('cancel'):
                active = session.sessionActive
                rec.count('cancels')
                if then == 'cancel+refused' and active: # refused: nothing has changed
                    m.override = lambda c: ([], '+CME ERROR: 3') if c == 'AT+CUSD=2' else None
                    try: session.cancel(); rec.violation('cancel', 'a refused cancellation was not reported')
                    except EX.CommandError: pass
                    m.override = None
                    rec.eq(session.sessionActive, True, 'session-state', 'after a refused cancellation')
                try: session.cancel()
                except Exception as e: rec.violation('cancel', '%s: %r' % (ctx, e))
                sent = [x for _, x in m.ussd_log[nlog:]]
                rec.eq(sent, [None] if active else [], 'cancel', 'cancelling a session that is%s active' % ('' if active else ' not'))
                if not rec.violations:
                    rec.eq(session.sessionActive, False, 'session-state', 'after it has been cancelled')
                    nlog = len(m.ussd_log)
                    try:
                        if then == 'cancel+cancel': session.cancel()
                        elif then == 'cancel+reply': session.reply('1'); rec.violation('reply-in-closed-session', 'reply() after cancel() was accepted')
                    except EX.InvalidStateException as e:
                        if then == 'cancel+cancel': rec.violation('cancel', 'cancelling again: %r' % e)
                    except Exception as e: rec.violation('cancel', '%s: %r' % (then, e))
                    rec.eq([x for _, x in m.ussd_log[nlog:]], [], 'cancel', 'commands after the session has been cancelled: ' + then)
                nlog = len(m.ussd_log)
            cur[0] = q; info.clear()
            rec.count('requests')
            t0 = s.now; res = err = None
            use_reply = session is not None and then == 'reply'
            kw = {} if q['timeout'] is None else {'responseTimeout': q['timeout']}
            T = q['timeout'] or 15
            try:
                if use_reply: rec.count('session_replies'); T = 15; was = session.sessionActive; res = session.reply(q['s'])
                else: res = g.sendUssd(q['s'], **kw)
            except Exception as e: err = e
            t1 = s.now
            sent = [x for _, x in m.ussd_log[nlog:]]
            if use_reply and not was:
                rec.expect(isinstance(err, EX.InvalidStateException) and not sent, 'reply-in-closed-session', lambda: '%s: %r, sent %r' % (ctx, err, sent)); session = None; continue
            rec.eq(sent, [q['s']], 'request-on-wire', ctx)
            k = q['kind']
            if k == 'refuse':
                rec.count('refused')
                code = int(q['error'].split()[-1]) if ':' in q['error'] else None
                rec.expect(isinstance(err, EX.CommandError) and not isinstance(err, EX.TimeoutException) and getattr(err, 'code', None) == code, 'refusal', lambda: '%s: %r returned %r' % (ctx, err, res and vars(res)))
            elif k in ('silent', 'noack', 'late', 'replynoack'):
                rec.count('timeouts')
                rec.expect(isinstance(err, EX.TimeoutException), 'no-timeout', lambda: '%s: %r, returned %r' % (ctx, err, res and vars(res)))
                rec.expect(T - .001 <= t1 - t0 <= 2 * T + 1.5, 'timeout-time', lambda: '%s: gave up after %.3f s (timeout %s)' % (ctx, t1 - t0, T))
                if k == 'late': rec.count('stale_messages'); m.urc(*lines_of(q)); simcase.detsched.vsleep(2)
            else:
                if rec.expect(err is None, 'no-reply', lambda: '%s: %s %s' % (ctx, type(err).__name__, err)):
                    rec.count('replies')
                    if '\r\n' in q['text']: rec.count('multiline')
                    if q['release']: rec.count('release_notices')
                    rec.eq(res.message, None if q['notext'] else q['text'], 'reply-text', ctx)
                    rec.eq(res.sessionActive, q['m'] == 1 and q['release'] is None, 'session-state', ctx)
                    rec.expect('replied' in info and t1 - info['replied'] < 1.5, 'return-time', lambda: '%s: reply at %r, returned at %.3f' % (ctx, info.get('replied'), t1))
            sig.append((k, q['when'], q['m'], q['release'], '\r\n' in q['text']))
            session = res
            if rec.violations: break
        stop[0] = True
        for t in ts: t.join()
        simcase.detsched.vsleep(5)
        rec.expect(not bad, 'foreign-command', lambda: repr(bad[:3]))
        rec.expect(len(sms) == len(case['sms']) or bool(rec.violations), 'sms', lambda: '%d of %d messages handed over' % (len(sms), len(case['sms'])))
        rec.expect(not m.faults, 'protocol', lambda: repr(m.faults[:3]))
        g.close()
    ok, s = simcase.run(rec, case['sched'], main, max_steps=600000)
    rec.key(sig, s.sig)
