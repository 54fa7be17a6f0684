# -*- coding: utf-8 -*-
import copy, threading
import common, simcase, modemsim
ID = 'C21'
QUICK, THOROUGH = 330, 60000
RULE = ('1..4 callers (with, without, and with withheld numbers; call types; plain and extended ring indications) ring, ring again, are answered, hung up locally or remotely, and call again, in random order, several at the same moment, with an outgoing call and 0..2 threads of other commands '
        'in the background; callbacks answer, hang up, query, are slow or raise. Every callback invocation, call object, command and the list of active calls is compared with a reference model of the calls. Distinct by (history, schedule hash).')
ASSUMPTIONS = ['a ring and its caller identification arrive in one burst', 'calls are identified by the caller\'s number (two callers without number are one call)', 'a ringing call that stops without a notification from the modem stays listed', 'a modem without call status notifications announces the end of an incoming call with NO CARRIER, and only when no other incoming call is left', 'no other thread writes a command while the lines of a ring are being received', 'an outgoing call is not being set up at the moment another call starts to ring', 'no call is hung up at the very moment another one starts to ring', 'the modem numbers calls by the lowest free identifier']
FLOORS = {'refused': 20, 'ended_while_answering': 10, 'no_callback': 5, 'rings': 200, 'repeated_rings': 50, 'answered': 20, 'hung_up': 20, 'remote_end': 10, 'simultaneous': 20, 'no_number': 10, 'called_again': 5, 'dead_call_ops': 10}
class Boom(Exception): pass
def setup(): simcase.setup()

def gen_case(rng, i, tier):
    prof = rng.choice(['generic', 'generic-clac', 'huawei', 'huawei', 'huawei-noclac', 'wavecom', 'wavecom-clac', 'zte', 'zte', 'qualcomm'])
    n = rng.choice([1, 2, 2, 3, 4])
    nums = rng.sample(['+27821234567', '0821234567', '27821234567', '+2782123456', '123', '1', '+1', '00441632960000', None], n)
    ops = []
    for k in range(rng.choice([2, 4, 8, 16])):
        op = rng.choice(['ring'] * 6 + ['burst', 'burst', 'answer', 'hangup', 'remote', 'remote', 'answer2', 'hangup2', 'plain', 'refused', 'refused', 'race', 'crcfail'])
        o = {'op': op, 'k': rng.randrange(n), 'gap': round(rng.choice([.6, 1, 2.5]), 3)}
        if op == 'burst': o['ks'] = rng.sample(range(n), rng.randint(1, n)); o['spread'] = rng.choice([0, 0, 0, .001, .003, .02]); o['noise'] = rng.random() < .3
        elif op == 'refused': o['what'] = rng.choice(['answer', 'hangup']); o['error'] = rng.choice(['ERROR', '+CME ERROR: 3', '+CME ERROR: 30', '+CMS ERROR: 500'])
        elif op == 'crcfail': o['error'] = rng.choice(['ERROR', '+CME ERROR: 3', '+CME ERROR: 30', '', '']); o['restore'] = rng.random() < .5
        elif op == 'race': o['end'] = rng.choice([0, 0, .0001, .001, .005, .03])
        ops.append(o)
    return {'cfg': {'profile': prof, 'delay': rng.choice([0, 0, .01]), 'seed': rng.getrandbits(32), 'framing': rng.choice([0, 1, 2]), 'unsupported': rng.choice([[], [], [], ['AT+CRC'], ['AT+CLIP'], ['AT+CLIP', 'AT+CRC']]),
                    'clip_sep': rng.choice([' ', ' ', ' ', '']), 'clip_tail': rng.choice(['', ',,,,0', ',"",,"",0', ',"",0,"Doe, J",0', ',,,"X"']), 'clip_empty': rng.choice([None, '+CLIP: "",128,,,,2', '+CLIP: "",128', '+CLIP: ,128'])},
            'callers': [{'number': x, 'type': rng.choice(['VOICE', 'VOICE', 'VOICE', 'FAX', 'ASYNC', 'REL ASYNC', 'VOICE/XYZ']), 'ton': rng.choice([145, 129, 161, 128, 0])} for x in nums],
            'nocb': rng.random() < .06, 'outgoing': rng.choice([None, None, 'dialling', 'answered']), 'ops': ops, 'cb': [rng.choice(['plain', 'plain', 'plain', 'answer', 'hangup', 'query', 'slow', 'raise']) for _ in range(n)], 'cbn': rng.choice([1, 1, 2, 3]),
            'clients': [round(rng.uniform(.05, .4), 3) for _ in range(rng.choice([0, 0, 1, 2]))], 'sched': simcase.sched_params(rng)}

def run(case, rec):
    case = copy.deepcopy(case)
    EX, M = simcase.exceptions, simcase.modem
    sig = []
    def main(s):
        m = modemsim.virtual(s, case['cfg'])
        log, bad = [], []
        def cb(call):
            log.append({'t': s.now, 'call': call, 'number': call.number, 'type': call.type, 'ton': call.ton, 'count': call.ringCount, 'active': call.active, 'ringing': call.ringing, 'listed': any(x is call for x in list(g.activeCalls.values()))})
            k = next((k for k, c in enumerate(case['callers']) if c['number'] == call.number), None) if clip else next(iter(cids), None)
            what = case['cb'][k] if k is not None else 'plain'
            if call.ringCount != case['cbn'] and what in ('answer', 'hangup'): return
            if what == 'hangup' and multi[0]: return
            if what == 'raise': raise Boom()
            if what == 'query': g.signalStrength
            elif what == 'slow': simcase.detsched.vsleep(.4)
            elif what in ('answer', 'hangup'): acted.append((k, what, call)); act(call, what, k)
        acted, multi = [], [False]
        def act(call, what, k):
            cid = cids.get(k)
            with lock:
                m.ata_target = m.ath_target = cid
                try: r = getattr(call, what)()
                except Exception as e: bad.append('%s: %s: %s' % (what, type(e).__name__, e))
                else:
                    if what == 'answer' and r is not call: bad.append('answer() returned %r' % (r,))
                finally: m.ata_target = m.ath_target = None
        lock = threading.RLock()
        g = M.GsmModem('/dev/sim', incomingCallCallbackFunc=None if case['nocb'] else cb)
        try: g.connect()
        except Exception as e: rec.violation('connect-failed', '%s: %s' % (type(e).__name__, e)); return
        clip = m.settings.get('+CLIP') == '=1'
        ext = clip and m.settings.get('+CRC') == '=1'   # (what the library switched on; an indication that was changed and could not be switched on again stays plain until it is restored)
        changed = [False] # the indication was changed and could not be switched on again: whether this is tried at later rings is left open
        typed = {}      # caller -> whether its last ring came with the type of the call
        if not clip: # all callers look alike
            for c in case['callers'][1:]: c['dup'] = True
        stop, gate, asking = [False], [False], [0]
        def quiet(): # no command is written while the lines of a ring are read
            gate[0] = True
            while asking[0]: simcase.detsched.vsleep(.03)
            while m.last_clcc is not None and out is not None and not .1 < m.now() - m.last_clcc < .3: simcase.detsched.vsleep(.05)
        def client(gap):
            while not stop[0]:
                while gate[0]: simcase.detsched.vsleep(.03)
                asking[0] += 1
                try: rec.eq(g.signalStrength, 20, 'foreign-command')
                except Exception as e: bad.append('csq: %r' % e)
                finally: asking[0] -= 1
                simcase.detsched.vsleep(gap)
        out = None
        if case['outgoing']:
            try: out = g.dial('555', timeout=5)
            except Exception as e: rec.violation('dial', '%s: %s' % (type(e).__name__, e)); return
            if case['outgoing'] == 'answered': simcase.detsched.vsleep(1); m.remote_answer(1); simcase.detsched.vsleep(1.5)
        ts = [threading.Thread(target=client, args=(x,)) for x in case['clients']]
        # (a Wavecom or ZTE modem signals call events by a bare "OK": no other commands during an unanswered outgoing call)
        if out is not None and case['outgoing'] == 'dialling' and m.c['calls'] in ('wavecom', 'zte'): ts = []
        for t in ts: t.start()
        cids, calls = {}, {}       # caller -> identifier of the call in the modem
        def alive(k): return k in calls and m._alive(calls[k])
        model = {}      # number seen by the host -> {'call', 'count', 'state'} : calls that are active
        dead = []       # call objects that have ended
        m.call_log[:] = []
        def seen(k): return case['callers'][k]['number'] if clip else None
        def ring_lines(k, plain=False):
            c = case['callers'][k]
            if not alive(k): cids[k] = m.incoming(c['number'], c['type'], c['ton']); calls[k] = m.calls[cids[k]]
            if plain and ext: m.settings['+CRC'] = '=0'
            typed[k] = m.settings.get('+CRC') == '=1'
            return m.ring(cids[k])
        def judge(ks, plain):
            """ what the callback saw of these rings """
            if case['nocb']: # nobody is told; the calls are listed all the same
                for k in ks:
                    for call in list(g.activeCalls.values()):
                        if isinstance(call, M.IncomingCall) and call.number == seen(k): log.append({'call': call, 'number': call.number, 'type': call.type, 'ton': call.ton, 'count': call.ringCount, 'active': call.active, 'ringing': call.ringing, 'listed': True})
                rec.count('no_callback')
            new = log[judge.n:]; judge.n = len(log)
            order = {}
            for e in new: order.setdefault(e['number'], []).append(e)
            rec.eq(len(new), len(ks), 'ring-count', 'callback invocations for %d rings of %r' % (len(ks), [seen(k) for k in ks]))
            for k in ks:
                c = case['callers'][k]; num = seen(k)
                rec.count('rings')
                if num is None: rec.count('no_number')
                l = order.get(num)
                if not rec.expect(bool(l), 'ring-lost', lambda: 'ring of %r did not reach the callback: %r' % (num, [e['number'] for e in new])): continue
                e = l.pop(0)
                mc = model.get(num)
                if mc is None:
                    if any(d.number == num for d in dead): rec.count('called_again')
                    rec.expect(not any(e['call'] is d for d in dead), 'confused', lambda: 'a new call of %r is the object of an earlier one' % num)
                    rec.expect(not any(e['call'] is x['call'] for x in model.values()), 'confused', lambda: 'the call of %r is the object of another call' % num)
                    mc = model[num] = {'call': e['call'], 'count': 0, 'state': 'ringing', 'k': k}
                    rec.eq(e['ton'], str(c['ton']) if num is not None else None, 'type-of-number', 'call of %r' % num) if isinstance(e['ton'], (str, type(None))) else rec.eq(e['ton'], c['ton'], 'type-of-number')
                    want = (0 if c['type'] == 'VOICE' else c['type']) if ext and typed[k] else None
                    rec.eq(e['type'], want, 'call-type', 'call of %r (%s)' % (num, c['type']))
                else: rec.count('repeated_rings')
                rec.expect(e['call'] is mc['call'], 'ring-of-other-call', lambda: 'ring %d of %r refers to another call object' % (mc['count'] + 1, num))
                mc['count'] += 1
                rec.eq(e['count'], mc['count'], 'ring-number', 'call of %r' % num)
                rec.expect(e['listed'] and e['active'], 'not-listed', lambda: 'call of %r is not listed as active while it rings: %r' % (num, e))
                rec.eq(e['ringing'], mc['state'] == 'ringing', 'ringing', 'call of %r' % num)
            for k, what, call in acted: # by the callback
                rec.count('answered' if what == 'answer' else 'hung_up')
                applied(k, what)
            del acted[:]
        judge.n = 0
        exp = {'ATA': 0, 'ATH': 0}
        def applied(k, what):
            num = seen(k); mc = model.get(num)
            if mc is None: return
            if what == 'answer' and mc['state'] == 'ringing': mc['state'] = 'answered'; exp['ATA'] += 1
            elif what == 'hangup': exp['ATH'] += 1; dead.append(mc['call']); del model[num]
            elif what == 'remote': dead.append(mc['call']); del model[num]
        def check(ctx):
            rec.expect(not bad, 'operation-failed', lambda: '%s: %r' % (ctx, bad[:3]))
            n = {x: sum(1 for l in m.call_log if l[1] == x) for x in ('ATA', 'ATH')}
            rec.eq(n, exp, 'commands', ctx)
            want = [x['call'] for x in model.values()] + ([out] if out is not None else [])
            have = dict(g.activeCalls)
            rec.expect(len(have) == len(want) and all(any(h is w for h in have.values()) for w in want), 'active-calls', lambda: '%s: listed %r, expected %r' % (ctx, sorted((a, b.number) for a, b in have.items()), sorted((str(w.number), w.id) for w in want)))
            rec.expect(all(a == b.id for a, b in have.items()), 'call-id', lambda: '%s: %r' % (ctx, {a: b.id for a, b in have.items()}))
            for num, x in model.items():
                c = x['call']
                rec.eq((c.active, c.ringing, c.answered, c.number), (True, x['state'] == 'ringing', x['state'] == 'answered', num), 'call-state', '%s: call of %r' % (ctx, num))
            for c in dead: rec.eq((c.active, c.answered, c.ringing), (False, False, False), 'ended-call-state', '%s: ended call of %r' % (ctx, c.number))
            if out is not None: rec.eq((out.active, out.answered, out.number), (True, case['outgoing'] == 'answered', '555'), 'outgoing-call', ctx)
        for n, o in enumerate(case['ops']):
            simcase.detsched.vsleep(o['gap'])
            op, k = o['op'], o['k']
            ctx = 'step %d %s %r' % (n, op, case['callers'][k]['number'])
            if op in ('ring', 'plain', 'burst', 'crcfail'):
                ks = o['ks'] if op == 'burst' else [k]
                if not clip: ks = ks[:1] if not cids else [next(iter(cids))]
                ks = [x for x in ks if not (alive(x) and calls[x]['state'] != 4)] # an answered call does not ring
                # a call whose model ended on the host is over in the modem as well
                batch, delay = [], 0
                quiet()
                if any(x in ('query', 'answer', 'hangup') for x in case['cb']): o['spread'] = 0
                multi[0] = len(ks) > 1
                for x in ks:
                    l = ring_lines(x, op in ('plain', 'crcfail'))
                    if o.get('spread'):
                        m.at(delay, lambda l=l: m.urc(*l)); delay += o['spread']
                    else: batch += (['+CREG: 1'] if o.get('noise') else []) + l
                if batch: m.urc(*batch)
                if len(ks) > 1: rec.count('simultaneous')
                plain = op in ('plain', 'crcfail')
                if op == 'crcfail': m.override = lambda cmd: (([], o['error']) if o['error'] else 'silent') if cmd == 'AT+CRC=1' else None
                simcase.detsched.vsleep(.2); gate[0] = False
                simcase.detsched.vsleep(2.3 + len(ks))
                if op == 'crcfail':
                    if ext and ks: rec.count('indication_refused'); simcase.detsched.vsleep(13 if not o['error'] else 0)
                    m.override = None; judge(ks, plain)
                    changed[0] = True
                    if ext and o['restore']: m.settings['+CRC'] = '=1'
                else: judge(ks, plain)
                if op == 'plain' and ext and ks and not changed[0]:
                    rec.eq(m.settings.get('+CRC'), '=1', 'extended-indication', 'extended call indication was not switched on again')
                    m.settings['+CRC'] = '=1'
            elif op in ('answer', 'hangup'):
                mc = model.get(seen(k))
                if mc and alive(mc['k']):
                    k = mc['k']
                    rec.count('answered' if op == 'answer' else 'hung_up')
                    act(mc['call'], op, k); applied(k, op)
            elif op == 'remote':
                mc = model.get(seen(k))
                k = mc['k'] if mc else k
                if mc and alive(k) and (m.c['calls'] != 'poll' or len(model) == 1):
                    rec.count('remote_end')
                    m.remote_end(cids[k]); applied(k, 'remote'); simcase.detsched.vsleep(1)
            elif op == 'refused':
                mc = model.get(seen(k))
                if mc and alive(mc['k']) and (o['what'] == 'hangup' or mc['state'] == 'ringing'):
                    rec.count('refused')
                    name = 'ATA' if o['what'] == 'answer' else 'ATH'
                    with lock:
                        m.refuse[name] = o['error']; exp[name] += 1
                        try: getattr(mc['call'], o['what'])()
                        except EX.CommandError: pass
                        except Exception as e: rec.violation('refused', '%s: %r' % (ctx, e))
                        else: rec.violation('refused', '%s: %s() of a call returned although the modem refused it' % (ctx, o['what']))
            elif op == 'race':
                mc = model.get(seen(k))
                if mc and alive(mc['k']) and mc['state'] == 'ringing' and (m.c['calls'] != 'poll' or len(model) == 1):
                    rec.count('ended_while_answering')
                    k = mc['k']
                    with lock:
                        m.ata_target, m.end_after_ata = cids[k], o['end']; exp['ATA'] += 1
                        try: mc['call'].answer()
                        except Exception as e: rec.violation('race', '%s: %r' % (ctx, e))
                        m.ata_target = None
                    applied(k, 'remote'); simcase.detsched.vsleep(1)
            elif op in ('answer2', 'hangup2') and dead:
                rec.count('dead_call_ops')
                c = dead[k % len(dead)]
                try: getattr(c, op[:-1])()
                except Exception as e: rec.violation('dead-call', '%s: %r' % (ctx, e))
            sig.append((op, k, len(model)))
            check(ctx)
            if rec.violations: break
        stop[0] = True
        for t in ts: t.join()
        simcase.detsched.vsleep(2)
        rec.expect(not m.faults, 'protocol', lambda: repr(m.faults[:3]))
        rec.expect(judge.n == len(log) or bool(rec.violations), 'ring-count', lambda: 'more callbacks than rings')
        g.close()
    ok, s = simcase.run(rec, case['sched'], main, max_steps=600000, ignore_uncaught=(Boom,))
    rec.key(sig, case['cfg']['profile'], s.sig)
