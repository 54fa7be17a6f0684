# -*- coding: utf-8 -*-
import copy, threading
import common, gen, simcase, modemsim, smsgen, spec_pdu as sp
ID = 'C17'
QUICK, THOROUGH = 600, 40000
RULE = ('1..4 threads send 1..4 messages (1..3 parts, waiting for the report or not, timeouts 1..20 s, references in any order and reused after an earlier message was settled); each gets 0..3 reports, the first of them before the send result, right behind it, or up to 25 s later, '
        'with delivered and other states; reports for unknown references, incoming messages and queries are mixed in, the report callback queries, sends or raises; PDU and text mode. Return/timeout of every send, status of every message at every callback and at the end, and the callback log are compared with the reports the modem held. Distinct by schedule hash.')
ASSUMPTIONS = ['references of outstanding messages are distinct', 'a message of several parts is tracked by the reference of its last part (as returned)', 'reports of one message are at least 3 s apart', 'a report that is read within 0.7 s of the deadline of its waiter may count either way']
FLOORS = {'sends': 250, 'waiting': 80, 'reports': 250, 'immediate': 60, 'woken': 40, 'timed_out': 15, 'callbacks': 100, 'unknown': 30, 'reused_reference': 5, 'deletions_refused': 5}
def setup(): simcase.setup()

def gen_case(rng, i, tier):
    textmode = rng.random() < .3
    refs = list(range(256)); rng.shuffle(refs)
    threads, uid = [], 0
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        msgs = []
        for k in range(rng.choice([1, 1, 2, 4])):
            uid += 1
            wait = rng.random() < .6
            first = rng.choice(['before', 'before', 0, .001, .05, .3, 2, 6, rng.uniform(0, 25), None])
            st = lambda: rng.choice([0, 0, 0, 1, 2, 0x20, 0x30, 0x40, 0x46, 68, 0x60, 127, rng.randrange(256)])
            reps = [] if first is None else [[first, st()]] + [[round(rng.uniform(3, 20), 2), st()] for _ in range(rng.choice([0, 0, 0, 1, 2]))]
            reuse = k > 0 and rng.random() < .3
            msgs.append({'to': '+%s%03d' % (gen.digits(rng, 1, 6), uid), 'text': 'm%d' % uid if textmode or rng.random() < .6 else 'm%d' % uid + gen.gsm_text(rng, rng.choice([200, 400])), 'wait': wait, 'timeout': rng.choice([1, 3, 8, 15, 20]),
                         'ref': msgs[-1]['ref'] if reuse else refs.pop(), 'reuse': reuse, 'reports': reps, 'keep': wait or rng.random() < .85, 'gap': 0 if rng.random() < .6 else rng.uniform(0, 2)})
        threads.append(msgs)
    unknown = [{'t': round(rng.uniform(0, 30), 2), 'ref': refs.pop(), 'st': rng.choice([0, 68])} for _ in range(rng.choice([0, 0, 1, 3]))]
    incoming = [{'t': round(rng.uniform(0, 10), 2), 'msg': smsgen.rmsg(rng, 'in%d' % k, textmode)} for k in range(rng.choice([0, 0, 0, 2]))]
    return {'cfg': {'profile': rng.choice(['generic', 'generic-clac', 'huawei', 'wavecom-clac', 'zte']), 'delay': rng.choice([0, 0, .01, .1]), 'chunky': rng.random() < .3, 'seed': rng.getrandbits(32), 'framing': rng.choice([0, 1, 2]), 'alpha': rng.choice(['', '', '""']), 'no_stat': rng.random() < .15},
            'text': textmode, 'threads': threads, 'unknown': unknown, 'incoming': incoming, 'clients': [rng.choice([0, .2, 1]) for _ in range(rng.choice([0, 0, 1, 2]))], 'callback': rng.choice(['plain', 'plain', 'plain', 'query', 'send', 'raise', 'slow']),
            'refuse': {str(rng.randrange(6)): rng.choice(['ERROR', '+CMS ERROR: 500', '+CMS ERROR: 302']) for _ in range(rng.choice([0, 0, 0, 0, 1, 2]))}, 'nocb': rng.random() < .08, 'sep': rng.choice([' ', ' ', ' ', '']), 'spare': refs[:40], 'early': rng.random() < .6, 'other': rng.choice([[], [], [rng.choice(['+CREG: 1', '^RSSI:12', '+XYZ: "OK"'])]]), 'sched': simcase.sched_params(rng)}

class Boom(Exception): pass
def run(case, rec):
    EX, M = simcase.exceptions, simcase.modem
    case = copy.deepcopy(case) # it is annotated below
    def main(s):
        m = modemsim.virtual(s, case['cfg'])
        all_ = {x['to']: x for t in case['threads'] for x in t}
        cbs, smscb, sent, res, indicated = [], [], {}, {}, {}   # indicated: ref -> list of report messages (with 't')
        spare = list(case['spare'])
        n = [0]
        mems = m.c['mems']
        def status_now(where):
            """ messages without any report so far are en route """
            for to, sms in list(sent.items()):
                if not all_[to].get('told'): rec.eq(sms.status, M.SentSms.ENROUTE, 'status-without-report', '%s: message %s' % (where, to))
        def cb(rep):
            cbs.append((s.now, rep)); rec.count('callbacks'); n[0] += 1
            status_now('in the report callback')
            k = case['callback']
            if k == 'raise' and n[0] % 2: raise Boom()
            if k == 'query': rec.eq(g.signalStrength, 20, 'callback-command')
            if k == 'send' and n[0] < 4: g.sendSms('+9%d' % n[0], 'from callback')
            if k == 'slow': simcase.detsched.vsleep(2)
        g = M.GsmModem('/dev/sim', smsReceivedCallbackFunc=lambda x: smscb.append(x), smsStatusReportCallback=None if case['nocb'] else cb)
        if case['text']: g.smsTextMode = True
        try: g.connect()
        except Exception as e: rec.violation('connect-failed', '%s: %s' % (type(e).__name__, e)); return
        m.deleted[:] = []
        reports, ndel, kept = [], [0], []
        def hook(cmd):
            if not cmd.startswith('AT+CMGD='): return
            x = case['refuse'].get(str(ndel[0])); ndel[0] += 1
            if x: # the report (or message) stays in the memory of the modem
                rec.count('deletions_refused'); i = int(cmd[8:].split(',')[0]); kept.append((s.now, m.mem1, i, m.stores[m.mem1].get(i, {'pdu': ''}))); return [], x
        m.override = hook
        def report(to, ref, st, early=False):
            d = {'kind': 'report', 'number': to, 'mr': ref, 'time': smsgen.rtime(m.rng), 'time2': smsgen.rtime(m.rng), 'st': st, 'stat': 0, 'smsc': None}
            mem = m.rng.choice(mems)
            idx = m.store(mem, smsgen.build(d))
            d2 = dict(d, t=s.now, mem=mem, idx=idx, key=len(reports)); reports.append(d2); rec.count('reports')
            if to in all_: all_[to]['told'] = True; all_[to].setdefault('got', []).append(d2)
            line = '+CDSI:%s"%s",%d' % (case['sep'], mem, idx)
            if early or case['early']: m.urc_early(line)
            elif m.rng.random() < .5: m.urc(*(case['other'] + [line] + case['other']))
            else: m.urc(line)
        def dest(arg, body):
            if case['text']: return arg.strip('"'), True, True
            d = sp.parse_submit(bytes.fromhex(body))
            last = not d['ies'] or d['ies'][0][1][-1] == d['ies'][0][1][-2]
            return d['da'].display(), last, d['srr']
        def pick(arg, body):
            to, last, srr = dest(arg, body)
            return all_[to]['ref'] if last and to in all_ else spare.pop()
        def on_submit(r):
            to, last, srr = dest(r['arg'], r['body'])
            rec.expect(srr, 'report-not-requested', 'message to %s was sent without requesting a report' % to)
            if not last or to not in all_: return
            x = all_[to]; x['sub'] = r
            if not x['reports']: return
            t, st = x['reports'][0]
            rest = x['reports'][1:]
            def chain(k):
                if k < len(rest): s.at(rest[k][0], lambda: (report(to, x['ref'], rest[k][1]), chain(k + 1)))
            def first(): report(to, x['ref'], st, t == 'before'); chain(0)
            if t == 'before': rec.count('immediate'); first()
            else:
                if t < .01: rec.count('immediate')
                def poll():
                    if 'tr' in r: s.at(t, first)
                    else: s.at(.001, poll)
                poll()
        m.pick_mr, m.on_submit = pick, on_submit
        for u in case['unknown']: s.at(u['t'], lambda u=u: (rec.count('unknown'), report('+0', u['ref'], u['st'])))
        for u in case['incoming']:
            def arrive(u=u):
                i = m.store(mems[0], smsgen.build(u['msg'])); m.urc('+CMTI: "%s",%d' % (mems[0], i))
            s.at(u['t'], arrive)
        bad = []
        def sender(msgs):
            for x in msgs:
                simcase.detsched.vsleep(120 if x['reuse'] else x['gap'])
                rec.count('sends')
                if x['reuse']: rec.count('reused_reference')
                kw = {} if not x['wait'] else dict(waitForDeliveryReport=True) if x['timeout'] == 15 else dict(waitForDeliveryReport=True, deliveryTimeout=x['timeout'])
                try:
                    sms = g.sendSms(x['to'], x['text'], **kw)
                except Exception as e: res[x['to']] = ('exc', e, s.now)
                else:
                    res[x['to']] = ('ok', None, s.now)
                    st = sms.status
                    if not x.get('told'): rec.eq(st, M.SentSms.ENROUTE, 'status-without-report', 'on return from sending to %s' % x['to'])
                    rec.eq(sms.reference, x['ref'], 'reference', 'message to %s' % x['to'])
                    if x['wait']: x['at_return'] = (st, sms.report)
                    if x['keep']: sent[x['to']] = sms
                    del sms
        def client(gap):
            for _ in range(20):
                try: rec.eq(g.signalStrength, 20, 'foreign-command')
                except Exception as e: bad.append(e)
                simcase.detsched.vsleep(gap)
        ts = [threading.Thread(target=sender, args=(x,)) for x in case['threads']] + [threading.Thread(target=client, args=(x,)) for x in case['clients']]
        for t in ts: t.start()
        for t in ts: t.join()
        simcase.detsched.vsleep(90)
        rec.expect(not bad, 'foreign-command', lambda: repr(bad[:2]))
        rec.expect(not m.faults, 'protocol', lambda: repr(m.faults[:3]))
        # ---- reports: read and removed once each
        deleted = {}
        for t, mem, idx, msg in m.deleted + kept:
            deleted.setdefault((mem, msg['pdu']), []).append(t)
        for d in reports:
            ts_ = deleted.get((d['mem'], smsgen.build({k: d[k] for k in ('kind', 'number', 'mr', 'time', 'time2', 'st', 'stat', 'smsc')})['pdu']), [])
            rec.expect(len(ts_) == 1, 'report-not-collected', lambda: 'report %r removed at %r' % (d, ts_))
            d['td'] = ts_[0] if ts_ else None
        if any(d['td'] is None for d in reports): return
        # ---- outcome of every send
        must, may = [], []
        for to, x in all_.items():
            kind, e, t = res.get(to, ('none', None, 0))
            ctx = 'message %s ref %d wait=%s timeout=%s reports=%r' % (to, x['ref'], x['wait'], x['timeout'], x['reports'])
            got = x.get('got', [])
            if not x['wait']:
                rec.expect(kind == 'ok', 'send-failed', lambda: '%s: %r' % (ctx, e)); must += got
            else:
                rec.count('waiting')
                dl = x['sub']['tr'] + x['timeout']
                first = got[0]['td'] if got else None
                if first is not None and first < dl - .7:
                    rec.expect(kind == 'ok', 'missed-report', lambda: '%s: report collected at %.3f, deadline %.3f: %r' % (ctx, first, dl, e))
                    must += got[1:]
                elif first is None or first > dl + .7:
                    rec.expect(kind == 'exc' and isinstance(e, EX.TimeoutException), 'no-timeout', lambda: '%s: returned %r at %.3f without its report (deadline %.3f)' % (ctx, e, t, dl))
                    must += got
                else: may += got[:1]; must += got[1:]
                if kind == 'ok':
                    rec.count('woken')
                    rec.expect(got and t >= got[0]['t'], 'woken-early', lambda: '%s: returned at %.3f, report arrived %r' % (ctx, t, got and got[0]['t']))
                    st, rp = x['at_return']
                    rec.expect(rp is not None and not smsgen.diff(rp, got[0], g, case['text']), 'report-at-return', lambda: '%s: report at return %r %s' % (ctx, rp and vars(rp), rp and smsgen.diff(rp, got[0], g, case['text'])))
                    if got: rec.eq(st, M.SentSms.DELIVERED if got[0]['st'] == 0 else M.SentSms.FAILED, 'status-at-return', ctx)
                    if first is not None: rec.expect(t <= first + 1, 'woken-late', lambda: '%s: returned at %.3f, report collected %.3f' % (ctx, t, first))
                elif isinstance(e, EX.TimeoutException):
                    rec.count('timed_out')
                    rec.expect(dl - .001 <= t <= dl + 1, 'timeout-time', lambda: '%s: gave up at %.3f, deadline %.3f' % (ctx, t, dl))
                else: rec.violation('send-failed', '%s: %r' % (ctx, e))
            sms = sent.get(to)
            if sms is not None:
                if got:
                    rec.eq(sms.status, M.SentSms.DELIVERED if got[-1]['st'] == 0 else M.SentSms.FAILED, 'final-status', ctx)
                    rec.expect(not smsgen.diff(sms.report, got[-1], g, case['text']), 'final-report', lambda: '%s: %s' % (ctx, smsgen.diff(sms.report, got[-1], g, case['text'])))
                else: rec.eq(sms.status, M.SentSms.ENROUTE, 'final-status', ctx); rec.expect(sms.report is None, 'final-report', ctx)
        rec.expect(len({M.SentSms.ENROUTE, M.SentSms.DELIVERED, M.SentSms.FAILED}) == 3, 'status-values', 'the states of a message are not told apart: %r' % ((M.SentSms.ENROUTE, M.SentSms.DELIVERED, M.SentSms.FAILED),))
        must += [d for d in reports if d['number'] == '+0']
        left = list(must) if not case['nocb'] else []
        for t, rp in cbs:
            hit = [d for d in left if not smsgen.diff(rp, d, g, case['text'])] or [d for d in may if not smsgen.diff(rp, d, g, case['text'])]
            if hit:
                if hit[0] in left: left.remove(hit[0])
                else: may.remove(hit[0])
            else: rec.violation('callback-extra', 'report callback got an unexpected report: %r' % vars(rp))
        rec.expect(not left, 'callback-missing', lambda: 'reports that never reached the callback: %r' % left[:2])
        rec.expect(len(smscb) == len(case['incoming']), 'incoming', lambda: '%d messages arrived, %d handed over' % (len(case['incoming']), len(smscb)))
        g.close()
    ok, s = simcase.run(rec, case['sched'], main, ignore_uncaught=(Boom,), max_steps=800000)
    rec.key(s.sig, [[(x['wait'], x['reports']) for x in t] for t in case['threads']])
