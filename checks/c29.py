# -*- coding: utf-8 -*-
import threading
import common, simcase, modemsim, smsgen, spec_pdu as sp
ID = 'C29'
QUICK, THOROUGH = 900, 80000
RULE = ('1..2 threads switch between text and PDU mode at random moments (some switches refused) while 1..4 others (and up to 3 that set and read the SMSC number) send short and long messages, read, list and delete stored ones and query the modem, and messages and reports arrive; '
        'what the modem was given to send, what was read, listed and handed over, and the modes of both sides afterwards are compared with the script. Distinct by (operations, schedule hash).')
ASSUMPTIONS = ['texts are ASCII without blank lines and without lines that equal a result code (what text mode can carry unambiguously)', 'text-mode headers in the default (+CSDH=0) format', 'no notification arrives in the middle of a response']
FLOORS = {'switches': 300, 'refused_switches': 20, 'sent_text': 60, 'sent_pdu': 60, 'reads': 60, 'lists': 60, 'handed_over': 60, 'reports': 20, 'smsc_ops': 80, 'smsc_unanswered': 3}

def setup(): simcase.setup()

def gen_case(rng, i, tier):
    prof = rng.choice(['generic', 'generic-clac', 'huawei', 'wavecom-clac', 'zte', 'huawei-noclac', 'wavecom'])
    mems = modemsim.PROFILES[prof]['mems']
    uid = [0]
    def U(p): uid[0] += 1; return '%s%d' % (p, uid[0])
    pre = []
    for k in range(rng.choice([1, 2, 4])): pre.append([rng.choice(mems), k, smsgen.rmsg(rng, U('p'), True, 1, .3)])
    threads = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        ops = []
        for _ in range(rng.choice([2, 4, 8])):
            op = rng.choice(['send', 'send', 'send', 'read', 'read', 'list', 'list', 'delete', 'csq'])
            o = {'op': op, 'gap': rng.choice([0, 0, 0, .003, .02, .1])}
            if op == 'send': u = U('s'); o.update(to=rng.choice(['+27', '0', '44']) + '%05d' % uid[0], text=u + ' ' + (rng.choice(['hi', 'a@b, c', '0041', 'x' * 150, 'long one ' * 40]) if rng.random() < .8 else smsgen.text_line(rng, u)))
            elif op == 'read': o['k'] = rng.randrange(len(pre))
            elif op == 'list': o.update(mem=rng.choice(mems), status=rng.choice([4, 4, 1, 0]))
            elif op == 'delete': m_ = rng.choice(mems); o.update(mem=m_, index=40 + uid[0]); uid[0] += 1
            ops.append(o)
        threads.append({'start': rng.choice([1, 1, 1.01, 1.1]), 'ops': ops})
    extra = [[o['mem'], o['index'], smsgen.rmsg(rng, U('d'), True, 1)] for t in threads for o in t['ops'] if o['op'] == 'delete']
    arr, t = [], 1.0
    for _ in range(rng.choice([0, 1, 2, 4])):
        t += rng.choice([0, .001, .02, .1, .4])
        arr.append({'t': round(t, 4), 'mem': rng.choice(mems), 'msg': smsgen.rmsg(rng, U('a'), True, 0, .35), 'early': rng.random() < .4})
    sw = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        sw.append([{'gap': rng.choice([0, 0, 0, .001, .01, .05, .2]), 'to': rng.random() < .5 if rng.random() < .3 else None, 'refuse': rng.choice([None] * 8 + ['ERROR', '+CME ERROR: 4'])} for _ in range(rng.choice([2, 5, 12, 25]))])
    smsc = []
    if rng.random() < .4:
        for _ in range(rng.choice([1, 1, 2, 3])):
            smsc.append([{'gap': rng.choice([0, 0, .001, .01, .1]), 'op': rng.choice(['set', 'set', 'get']), 'to': '+99%04d' % rng.choice([1, 2, 3, rng.randrange(10000)]), 'refuse': rng.random() < .1, 'lost': rng.random() < .12} for _ in range(rng.choice([2, 5, 12]))])
    return {'smsc': smsc, 'cfg': {'profile': prof, 'delay': rng.choice([0, 0, .005, .03]), 'chunky': rng.random() < .2, 'seed': rng.getrandbits(32), 'framing': rng.choice([0, 1, 2]), 'alpha': rng.choice(['', '', '""'])},
            'first': rng.random() < .5, 'pre': pre, 'extra': extra, 'threads': threads, 'arrivals': arr, 'switch': sw, 'sched': simcase.sched_params(rng)}

def run(case, rec):
    EX, M = simcase.exceptions, simcase.modem
    sig = []
    def main(s):
        m = modemsim.virtual(s, case['cfg'])
        got, reps = [], []
        g = M.GsmModem('/dev/sim', smsReceivedCallbackFunc=got.append, smsStatusReportCallback=reps.append)
        if case['first']: g.smsTextMode = True
        try: g.connect()
        except Exception as e: rec.violation('connect-failed', '%s: %s' % (type(e).__name__, e)); return
        rec.eq(bool(g.smsTextMode), case['first'], 'initial-mode')
        for mem, i, d in case['pre'] + case['extra']: m.store(mem, smsgen.build(d), i)
        def arrive(a):
            i = m.store(a['mem'], smsgen.build(a['msg']))
            l = '+%s: "%s",%d' % ('CMTI' if a['msg']['kind'] == 'deliver' else 'CDSI', a['mem'], i)
            (m.urc_early if a['early'] else m.urc)(l)
        for a in case['arrivals']: s.at(a['t'], lambda a=a: arrive(a))
        refuse, refuse_smsc = [], []
        def override(cmd):
            if cmd.startswith('AT+CSCA=') and refuse_smsc:
                x = refuse_smsc.pop(0)
                if x[0] == '+': return [], x
                if x == 'executed': m.do(cmd)
                return 'silent'
            if cmd.startswith('AT+CMGF') and refuse: return [], refuse.pop(0)
        m.override = override
        known = [d for _, _, d in case['pre'] + case['extra']] + [a['msg'] for a in case['arrivals']]
        same = lambda x, d: not smsgen.diff(x, d, g, True)
        def switcher(l):
            simcase.detsched.vsleep(1)
            for o in l:
                simcase.detsched.vsleep(o['gap'])
                old = bool(g.smsTextMode)
                to = (not old) if o['to'] is None else o['to']
                if o['refuse'] and len(case['switch']) == 1 and to != old:
                    rec.count('refused_switches')
                    refuse.append(o['refuse'])
                    try: g.smsTextMode = to
                    except EX.CommandError: pass
                    except Exception as e: rec.violation('refused-switch', repr(e))
                    else: rec.violation('refused-switch', 'the modem refused to switch to text mode %s, but nobody was told' % to)
                    rec.eq(bool(g.smsTextMode), old, 'mode', 'after a refused switch')
                    continue
                rec.count('switches')
                try: g.smsTextMode = to
                except Exception as e: rec.violation('switch-failed', repr(e)); return
                if len(case['switch']) == 1:
                    rec.eq(bool(g.smsTextMode), to, 'mode', 'after a switch')
                    rec.eq(m.mode_text, to, 'modem-mode', 'after a switch')
        nums = {m.smsc}
        def smsc_client(l, alone):
            if alone: simcase.detsched.vsleep(1)
            for o in l:
                simcase.detsched.vsleep(o['gap'])
                rec.count('smsc_ops')
                try:
                    if o['op'] == 'get':
                        x = g.smsc
                        if alone: rec.eq(x, m.smsc, 'smsc', 'read while nobody sets it')
                        else: rec.expect(x in nums, 'smsc', lambda: '%r was never set' % x)
                    elif o['lost'] and alone and o['to'] != m.smsc:
                        rec.count('smsc_unanswered'); refuse_smsc.append('executed' if o['refuse'] or o['gap'] else 'ignored')
                        try: g.smsc = o['to']
                        except EX.TimeoutException: pass
                        else: rec.violation('smsc', 'no answer, but nobody was told')
                        rec.eq(g.smsc, m.smsc, 'smsc', 'after the modem had not answered')
                    elif o['refuse'] and alone and o['to'] != m.smsc:
                        old = m.smsc; refuse_smsc.append('+CME ERROR: 3')
                        try: g.smsc = o['to']
                        except EX.CommandError: pass
                        else: rec.violation('smsc', 'a refused number was not reported')
                        rec.eq(g.smsc, old, 'smsc', 'after a refused number')
                    else:
                        nums.add(o['to']); g.smsc = o['to']
                        if alone: rec.eq(m.smsc, o['to'], 'smsc', 'on the modem after it was set')
                except Exception as e: rec.violation('operation-failed', '%r: %s: %s' % (o, type(e).__name__, e)); return
        def smsc_rounds():
            for r in range(max(len(l) for l in case['smsc'])):
                l = [threading.Thread(target=smsc_client, args=([x[r % len(x)]], False)) for x in case['smsc']]
                for t in l: t.start()
                for t in l: t.join()
                rec.eq(g.smsc, m.smsc, 'smsc', 'after %r at once' % [x[r % len(x)] for x in case['smsc']])
        def worker(t):
            simcase.detsched.vsleep(t['start'])
            for o in t['ops']:
                simcase.detsched.vsleep(o['gap'])
                op = o['op']
                try:
                    if op == 'send':
                        sms = g.sendSms(o['to'], o['text'])
                        rec.eq((sms.number, sms.text), (o['to'], o['text']), 'sent-object')
                    elif op == 'read':
                        mem, i, d = case['pre'][o['k']]
                        rec.count('reads')
                        x = g.readStoredSms(i, mem)
                        rec.expect(same(x, d), 'read', lambda: '%s %d: %s' % (mem, i, smsgen.diff(x, d, g, True)))
                    elif op == 'list':
                        rec.count('lists')
                        l = g.listStoredSms(o['status'], o['mem'])
                        for x in l: rec.expect(any(same(x, d) for d in known), 'listed-invented', lambda: '%r' % vars(x))
                        if o['status'] != 0:
                            for mem, i, d in case['pre']:
                                if mem == o['mem']: rec.eq(sum(1 for x in l if same(x, d)), 1, 'listed', 'message %d in %s' % (i, mem))
                    elif op == 'delete':
                        g.deleteStoredSms(o['index'], o['mem'])
                        rec.expect(o['index'] not in m.stores[o['mem']], 'delete', repr(o))
                    else: rec.eq(g.signalStrength, 20, 'foreign-command')
                except Exception as e: rec.violation('operation-failed', '%r: %s: %s; last commands %r' % (o, type(e).__name__, e, [x for _, k, x in m.log if k in ('cmd', 'body')][-6:])); return
        ts = [threading.Thread(target=switcher, args=(x,)) for x in case['switch']] + [threading.Thread(target=worker, args=(x,)) for x in case['threads']] + [threading.Thread(target=smsc_rounds if len(case['smsc']) > 1 else lambda: smsc_client(case['smsc'][0], True)) for x in case['smsc'][:1]]
        for t in ts: t.start()
        for t in ts: t.join()
        simcase.detsched.vsleep(5)
        rec.eq(bool(g.smsTextMode), m.mode_text, 'modes-differ', 'after %d switchers' % len(case['switch']))
        if case['smsc']: rec.eq(g.smsc, m.smsc, 'smsc', 'after %d threads used it' % len(case['smsc']))
        # ---- what went out
        out, parts, centre = {}, {}, None
        for r in m.submitted:
            if r['arg'].startswith('"'):
                rec.count('sent_text'); out.setdefault(r['arg'].strip('"'), []).append(r['body'])
            else:
                rec.count('sent_pdu')
                try: d = sp.parse_submit(bytes.fromhex(r['body']))
                except Exception as e: rec.violation('sent-garbage', '%r: %s' % (r['body'][:60], e)); continue
                rec.eq(int(r['arg']), len(r['body']) // 2 - 1 - int(r['body'][:2], 16), 'announced-length')
                to, text = d['da'].display(), d['text']
                if d['ies']: # (parts of one message follow one another)
                    no = d['ies'][0][1]
                    p = parts.setdefault((to, tuple(no[:-2])), [])
                    if p: rec.eq(r['smsc'], centre, 'parts-by-different-centres', to)
                    centre = r['smsc']
                    rec.eq(no[-1], len(p) + 1, 'part-order', to); p.append(text)
                    if no[-1] == no[-2]: out.setdefault(to, []).append(''.join(p))
                else: out.setdefault(to, []).append(text)
        want = {o['to']: [o['text']] for t in case['threads'] for o in t['ops'] if o['op'] == 'send'}
        rec.eq(out, want, 'sent', 'messages that reached the network')
        # ---- what came in
        for kind, l in (('deliver', got), ('report', reps)):
            left = list(l)
            for a in case['arrivals']:
                if a['msg']['kind'] != kind: continue
                rec.count('handed_over' if kind == 'deliver' else 'reports')
                hit = [x for x in left if same(x, a['msg'])]
                if rec.expect(bool(hit), 'not-handed-over', lambda: '%r; got %r' % (a, [vars(x) for x in l][:3])): left.remove(hit[0])
            rec.expect(not left, 'handed-over-extra', lambda: repr([vars(x) for x in left][:2]))
        rec.expect(not m.faults, 'protocol', lambda: repr(m.faults[:3]))
        sig.append(([len(x) for x in case['switch']], [[o['op'] for o in t['ops']] for t in case['threads']], len(case['arrivals'])))
        g.close()
    ok, s = simcase.run(rec, case['sched'], main, max_steps=800000)
    rec.key(sig, s.sig)
