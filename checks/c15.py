# -*- coding: utf-8 -*-
import threading
import common, gen, simcase, modemsim, smsgen, spec_pdu as sp
ID = 'C15'
QUICK, THOROUGH = 800, 60000
RULE = ('1..4 threads send 1..4 messages each (1..6 parts, both alphabets, flash, PDU and text mode) while 0..2 threads issue queries and read the message store, 0..4 messages arrive (also between +CMGS and its prompt and between body and result) and their callback replies; '
        'the modem delays prompts and results, refuses commands (error codes, busy), omits prompts, rejects bodies, stays silent after them or omits the reference. The byte stream at the port, parsed by the simulator, is compared with the messages and with the outcome of every call. Distinct by schedule hash and outcome vector.')
ASSUMPTIONS = ['the modem prompts at most 0.8 s after the host\'s prompt timeout (3 s), is ready again before it or before the result timeout (15 s) ends, and keeps and answers an ESC that it gets before the prompt', 'text mode: ASCII text', 'every message has its own destination (for attribution)']
FLOORS = {'messages': 250, 'multipart': 50, 'failed_sends': 30, 'foreign_commands': 150, 'parts': 300, 'prompt_delayed': 20, 'replies': 10, 'successive_long': 8, 'prompted_too_late': 10}

def setup(): simcase.setup()

PLANS = ['refuse', 'busy', 'no-prompt', 'late-prompt', 'body-error', 'body-silent', 'no-ref']
def plan(rng, code, p_fault):
    if rng.random() < p_fault:
        k = rng.choice(PLANS)
        if k == 'refuse': return {'kind': k, 'error': rng.choice(['+CMS ERROR: %d', '+CME ERROR: %d']) % code if rng.random() < .85 else 'ERROR', 'code': code}
        if k == 'busy': return {'kind': 'refuse', 'error': rng.choice(['+CMS ERROR: 515', '+CME ERROR: 515', '+CME ERROR: 14']), 'busy': 1}
        if k == 'no-prompt': return {'kind': k, 'for': 2.5}
        if k == 'late-prompt': return {'kind': k, 'prompt_delay': rng.choice([2.995, 3.005, 3.02, 3.1, 3.5, 3.8])}
        if k == 'body-error': return {'kind': k, 'error': rng.choice(['+CMS ERROR: %d', '+CME ERROR: %d']) % code if rng.random() < .85 else 'ERROR', 'prompt_delay': rng.choice([0, .3])}
        if k == 'body-silent': return {'kind': k, 'for': 14}
        return {'kind': k}
    return {'kind': 'ok', 'prompt_delay': rng.choice([0, 0, 0, .05, .5, 2]), 'delay': rng.choice([0, 0, 0, .05, 1, 8]), 'mr': rng.randrange(256) if rng.random() < .8 else rng.choice([255, 255, 254, 0, 1]), 'fmt': rng.choice(['+CMGS: %d'] * 6 + ['+CMGS:%d', '+CMGS: %d,"24/01/02,03:04:05+08"', '+CMGS: %d,07912'])}

def gen_case(rng, i, tier):
    textmode = rng.random() < .3
    uid = [0]
    def msg(parts=True):
        uid[0] += 1
        n = uid[0]
        if textmode: t = '%s %s' % (rng.choice(smsgen.WORDS[:10] + ['line\nline', '> ', 'AT+CSQ']), n)
        elif not parts or rng.random() < .5: t = gen.gsm_text(rng, rng.choice([0, 1, 10, 160])) if rng.random() < .7 else gen.ucs_text(rng, rng.choice([1, 20, 70]))
        else: t = gen.gsm_text(rng, rng.choice([161, 306, 307, 400, 800])) if rng.random() < .6 else gen.ucs_text(rng, rng.choice([71, 134, 135, 300]))
        return {'to': rng.choice(['+', '']) + '%s%03d' % (gen.digits(rng, 1, 8), n), 'text': t, 'flash': rng.random() < .1}
    p_fault = rng.choice([0, 0, .1, .3, .6])
    senders = [{'start': rng.choice([0, 0, rng.uniform(0, 1)]), 'gap': rng.choice([0, 0, .1]), 'msgs': [msg() for _ in range(rng.randint(1, 4))]} for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    clients = [{'ops': [rng.choice(['csq', 'csq', 'imsi', 'list', 'raw']) for _ in range(rng.randint(1, 8))], 'gap': rng.choice([0, .01, .1, .5])} for _ in range(rng.choice([0, 1, 1, 2]))]
    arrivals = [{'t': rng.choice([rng.uniform(0, 1), rng.uniform(0, 4)]), 'early': rng.random() < .7, 'msg': smsgen.rmsg(rng, 'in%d' % k, textmode), 'reply': msg(False)} for k in range(rng.choice([0, 0, 1, 2, 4]))]
    for a in arrivals: a['msg']['number'] = a['reply']['to']
    codes = [c for c in range(1, 500) if c not in (14, 10, 11, 12, 16, 17, 18, 310, 311, 312, 316, 317, 318, 330)]
    rng.shuffle(codes)
    return {'cfg': {'profile': rng.choice(['generic', 'generic-clac', 'huawei', 'wavecom-clac', 'zte']), 'delay': rng.choice([0, 0, .01, .1]), 'chunky': rng.random() < .3, 'seed': rng.getrandbits(32), 'framing': rng.choice([0, 1, 2]), 'prompt': rng.choice(['\r\n> ', '\r\n> ', '> ']), 'esc_busy': True, 'esc_answer': rng.choice(['OK', 'OK', 'OK', 'ERROR', '+CMS ERROR: 500'])},
            'text': textmode, 'senders': senders, 'clients': clients, 'arrivals': arrivals, 'reply': rng.random() < .5, 'mr0': rng.choice([None, None, 0, 1, rng.randrange(256), rng.randint(240, 255)]), 'plans': [plan(rng, codes[k], p_fault) for k in range(40)], 'sched': simcase.sched_params(rng)}

def run(case, rec):
    EX = simcase.exceptions
    outcomes = {}
    sig = []
    def main(s):
        m = modemsim.virtual(s, case['cfg'])
        msgs = [x for c in case['senders'] for x in c['msgs']]
        replies = {a['reply']['to']: a['reply'] for a in case['arrivals']}
        def send(fn, x):
            rec.count('messages')
            try: outcomes[x['to']] = ('ok', fn())
            except Exception as e: outcomes[x['to']] = ('exc', e)
        def cb(sms):
            x = replies.get(sms.number)
            if case['reply'] and x: rec.count('replies'); send(lambda: sms.reply(x['text']), x)
        g = simcase.modem.GsmModem('/dev/sim', smsReceivedCallbackFunc=cb)
        if case['text']: g.smsTextMode = True
        try: g.connect()
        except Exception as e: rec.violation('connect-failed', '%s: %s' % (type(e).__name__, e)); return
        m.cmgs_plan = [dict(p) for p in case['plans']]
        m.log[:] = []
        if case['mr0'] is not None: # references as a real modem assigns them
            nmr = [case['mr0'] - 1]
            def pick(arg, body): nmr[0] = (nmr[0] + 1) % 256; return nmr[0]
            m.pick_mr = pick
        mem = m.c['mems'][0]
        for a in case['arrivals']:
            def arrive(a=a):
                idx = m.store(mem, smsgen.build(a['msg']), None)
                (m.urc_early if a['early'] else m.urc)('+CMTI: "%s",%d' % (mem, idx))
            s.at(a['t'], arrive)
        bad = []
        def sender(c):
            simcase.detsched.vsleep(c['start'])
            for x in c['msgs']:
                kw = {'sendFlash': True} if x['flash'] else {}
                send(lambda: g.sendSms(x['to'], x['text'], **kw), x)
                simcase.detsched.vsleep(c['gap'])
        def client(c):
            for op in c['ops']:
                rec.count('foreign_commands')
                try:
                    if op == 'csq': rec.eq(g.signalStrength, 20, 'foreign-command', 'signal strength')
                    elif op == 'imsi': rec.eq(g.imsi, m.c['imsi'], 'foreign-command', 'imsi')
                    elif op == 'raw': rec.eq(g.write('AT+CGMM'), ['X1', 'OK'], 'foreign-command', 'response')
                    else: g.listStoredSms(memory=m.c['mems'][-1])
                except Exception as e: bad.append('%s: %s: %s' % (op, type(e).__name__, e))
                simcase.detsched.vsleep(c['gap'])
        ts = [threading.Thread(target=sender, args=(c,)) for c in case['senders']] + [threading.Thread(target=client, args=(c,)) for c in case['clients']]
        for t in ts: t.start()
        for t in ts: t.join()
        simcase.detsched.vsleep(120)
        rec.expect(not bad, 'foreign-command', lambda: repr(bad[:3]))
        # ---- the wire
        rec.expect(not m.faults, 'protocol', lambda: repr(m.faults[:3]))
        items = [(t, k, x) for t, k, x in m.log if k != 'out']
        ncmgs = 0
        for n, (t, k, x) in enumerate(items):
            if k == 'stray-body' or k in ('stray-esc', 'esc') and (x or not (n and items[n - 1][1] == 'cmd' and items[n - 1][2].startswith('AT+CMGS='))): rec.violation('wire', 'unexpected %s %r' % (k, x))
            if k == 'body' and not (n and items[n - 1][1] == 'cmd' and items[n - 1][2].startswith('AT+CMGS=')): rec.violation('wire', 'body %r does not follow its +CMGS command' % x)
            if k == 'cmd' and x.startswith('AT+CMGS='):
                p = m.cmgs_log[ncmgs][2]; ncmgs += 1
                nxt = items[n + 1] if n + 1 < len(items) else None
                if p['kind'] == 'late-prompt': rec.count('prompted_too_late'); rec.expect(nxt is not None and nxt[1] == 'esc', 'text-entry-left-open', lambda: '%r was prompted for after the timeout; it is followed by %r' % (x, nxt))
                elif p['kind'] in ('refuse', 'no-prompt'): rec.expect(nxt is None or nxt[1] == 'cmd' or p['kind'] == 'no-prompt' and nxt[1] == 'stray-esc', 'body-without-prompt', lambda: '%r follows %r, which was not prompted' % (nxt, x))
                else: rec.expect(nxt is not None and nxt[1] == 'body', 'exchange', lambda: '%r was prompted, but followed by %r' % (x, nxt))
                if p.get('prompt_delay'): rec.count('prompt_delayed')
            elif k == 'cmd': rec.expect(not any(c in x for c in '\x1a\x1b\n'), 'wire', lambda: 'garbled command %r' % x)
        by = {}
        for r in m.submitted:
            rec.count('parts')
            if case['text']:
                d = {'da': r['arg'].strip('"'), 'text': r['body'], 'ies': [], 'class': None}
            else:
                try: d = sp.parse_submit(bytes.fromhex(r['body']))
                except (sp.SpecError, ValueError) as e: rec.violation('body', 'modem got %r: %s' % (r['body'], e)); continue
                rec.eq(r['arg'], str(d['tpdu_len']), 'announced-length', 'AT+CMGS argument for %s' % r['body'])
                d['da'] = d['da'].display()
            r.update(d=d); by.setdefault(d['da'], []).append(r)
        all_ = {x['to']: x for x in msgs}; all_.update({k: v for k, v in replies.items() if k in outcomes})
        for to in by: rec.expect(to in all_, 'foreign-destination', 'a message was submitted to %r' % to)
        failed = []
        for to, x in all_.items():
            ok, val = outcomes.get(to, ('exc', None))
            parts = by.get(to, [])
            if case['text']: sizes = 1
            else:
                g7 = sp.is_gsm7(x['text']); size = len(sp.gsm7_septets(x['text'])) if g7 else len(sp.utf16(x['text'])) // 2
                sizes = 1 if size <= (160 if g7 else 70) else None
                if sizes is None: rec.count('multipart')
            ctx = 'message %r to %s (%s)' % (x['text'][:40], to, 'returned' if ok == 'ok' else type(val).__name__)
            nums = [d['ies'][0][1][-1] if d['ies'] else 1 for d in (r['d'] for r in parts)]
            tots = {d['ies'][0][1][-2] if d['ies'] else 1 for d in (r['d'] for r in parts)}
            rec.expect(nums == list(range(1, len(parts) + 1)) and len(tots) <= 1, 'part-order', lambda: '%s: parts submitted in order %r of %r' % (ctx, nums, tots))
            if not case['text']:
                for r in parts: rec.expect((r['d']['class'] == 0) == bool(x['flash'] and to not in replies), 'flash', ctx)
            for r in parts[:-1]: rec.expect(r['ok'], 'sent-after-failure', lambda: '%s: part sent after an earlier part failed (%r)' % (ctx, r['plan']))
            if ok == 'ok':
                sms = val
                if not rec.expect(len(parts) == (list(tots) or [0])[0] and all(r['ok'] for r in parts) and parts[-1]['plan']['kind'] == 'ok', 'incomplete', lambda: '%s: %d parts submitted of %r, plans %r' % (ctx, len(parts), tots, [r['plan'] for r in parts])): continue
                got = ''.join(r['d']['text'] for r in parts)
                rec.expect(got == x['text'], 'text', lambda: '%s: modem got %r' % (ctx, got))
                rec.eq(sms.number, to, 'returned-number', ctx)
                rec.eq(sms.text, x['text'], 'returned-text', ctx)
                rec.eq(sms.reference, parts[-1]['mr'], 'returned-reference', ctx)
                rec.eq(sms.status, simcase.modem.SentSms.ENROUTE, 'returned-status', ctx)
            else:
                failed.append((to, val, parts))
        if case['mr0'] is not None:
            # a phone that gets two long messages tells their parts apart by the concatenation reference only
            seen, refs = set(), []
            for r in m.submitted:
                if 'd' in r and r['d']['ies'] and r['d']['da'] not in seen: seen.add(r['d']['da']); refs.append((r['d']['da'], r['d']['ies'][0][1][:-2]))
            rec.count('successive_long', max(0, len(refs) - 1))
            for a, b in zip(refs, refs[1:]): rec.expect(a[1] != b[1], 'shared-reference', lambda: 'the parts of the successive messages to %s and %s carry the same concatenation reference %r' % (a[0], b[0], a[1]))
        # ---- failures: every failing step makes exactly one call raise, with its own error
        want = []
        for t, a, p in m.cmgs_log:
            if p.get('busy') or p['kind'] == 'ok': continue
            if p['kind'] == 'refuse': want.append(('CommandError', int(p['error'].split()[-1]) if 'ERROR:' in p['error'] else None))
            elif p['kind'] == 'body-error': want.append(('CommandError', int(p['error'].split()[-1]) if 'ERROR:' in p['error'] else None))
            elif p['kind'] == 'no-ref': pass
            else: want.append(('TimeoutException', None))
        got, lenient = [], False
        for to, e, parts in failed:
            rec.count('failed_sends')
            if parts and parts[-1]['plan']['kind'] == 'no-ref':
                if len(parts) == (parts[-1]['d']['ies'][0][1][-2] if parts[-1]['d']['ies'] else 1): want.append(('CommandError', None))
                else: lenient = True # whether a missing reference in an earlier part is an error is left open
            got.append(('TimeoutException', None) if isinstance(e, EX.TimeoutException) else ('CommandError', getattr(e, 'code', None)) if isinstance(e, EX.CommandError) else (type(e).__name__, str(e)))
            if parts and parts[-1]['plan']['kind'] == 'body-error' and 'ERROR:' in parts[-1]['plan']['error']:
                rec.eq(getattr(e, 'code', None), int(parts[-1]['plan']['error'].split()[-1]), 'error-attribution', 'message to %s' % to)
        f = lambda l: sorted(l, key=repr)
        rec.expect(lenient or f(want) == f(got), 'outcome', lambda: 'calls raised %r, modem failures were %r' % (f(got), f(want)))
        sig.append((len(msgs), sorted(p['kind'] for _, _, p in m.cmgs_log)))
        g.close()
    ok, s = simcase.run(rec, case['sched'], main, max_steps=600000)
    rec.key(sig, s.sig)
