# -*- coding: utf-8 -*-
import threading
import common, simcase, modemsim, smsgen
ID = 'C16'
QUICK, THOROUGH = 1300, 80000
RULE = ('1..8 messages arrive in 1..3 memories (PDU and text mode; any order of indices; indices reused; other messages already stored), indicated singly, in bursts, in one batch, between a command and its response, while 0..3 other threads query the modem, read, list or delete '
        'in other memories and send messages, and while callbacks issue commands, reply, or raise; the callback log, the modem\'s deletion log and its remaining content are compared with the arrivals. Distinct by (arrival structure, schedule hash).')
ASSUMPTIONS = ['the modem never sends an indication in the middle of a response (only before it or behind it)', 'text mode: message text without blank lines and without a line that equals a result code', 'nobody else deletes the indicated message']
FLOORS = {'arrivals': 250, 'handed_over': 250, 'early_indications': 5, 'memory_switches': 50, 'concurrent_commands': 100, 'noise': 50, 'client_deletes': 8, 'wipes': 4, 'no_callback': 2, 'deletions_refused': 5}

def setup(): simcase.setup()

def gen_case(rng, i, tier):
    textmode = rng.random() < .35
    prof = rng.choice(['generic', 'generic-clac', 'huawei', 'wavecom-clac', 'zte', 'huawei-noclac', 'wavecom'])
    mems = modemsim.PROFILES[prof]['mems']
    pre = []
    base = rng.choice([0, 0, 0, 92, 245, 1000])
    for k in range(rng.choice([0, 1, 3, 6])):
        pre.append([rng.choice(mems), base + rng.randrange(12), smsgen.rmsg(rng, 'old%d' % k, textmode, rng.choice([0, 1]))])
    arr, t = [], 1.0
    for k in range(rng.choice([1, 2, 3, 5, 8])):
        t += rng.choice([0, 0, 0, .001, .02, .1, .5, 2])
        arr.append({'t': round(t, 4), 'mem': rng.choice(mems), 'index': rng.choice([None, base + rng.randrange(12)]), 'msg': smsgen.rmsg(rng, 'new%d' % k, textmode), 'early': rng.random() < .5, 'batch': rng.random() < .3})
    clients = [{'ops': [rng.choice(['csq', 'csq', 'imsi', 'read', 'list', 'send', 'slow']) for _ in range(rng.randint(1, 5))], 'start': round(rng.uniform(.9, 2), 3), 'gap': rng.choice([0, .01, .2])} for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    wipe, dels = None, []
    if clients and rng.random() < .5:
        if len(mems) > 1 and rng.random() < .5:
            wipe = rng.choice(mems)
            others = [x for x in mems if x != wipe]
            for a in arr: a['mem'] = rng.choice(others)
            for k in range(rng.choice([1, 3])): pre.append([wipe, base + 20 + k, smsgen.rmsg(rng, 'gone%d' % k, textmode, rng.choice([0, 1]))])
            rng.choice(clients)['ops'].insert(0, 'wipe')
        for k in range(rng.choice([0, 1, 3])):
            mem = rng.choice([x for x in mems if x != wipe])
            dels.append([mem, base + 30 + k]); pre.append([mem, base + 30 + k, smsgen.rmsg(rng, 'del%d' % k, textmode, rng.choice([0, 1]))])
            ops = rng.choice(clients)['ops']; ops.insert(rng.randrange(len(ops) + 1), 'delete')
        if wipe and len(pre) and pre[0][0] == wipe:
            x = [q for q in pre if q[0] != wipe and q[:2] not in dels]
            for c in clients: c['ops'] = [op if op != 'read' or x else 'csq' for op in c['ops']]
            pre = x + [q for q in pre if q not in x]
        elif pre and pre[0][:2] in dels:
            for c in clients: c['ops'] = [op if op != 'read' else 'csq' for op in c['ops']]
    noise = [[round(rng.uniform(.9, 4), 3), rng.choice(['^RSSI:12', '^BOOT:1,0,0,0,6', '+CREG: 1', '*PSUTTZ: "x"', 'NO CARRIER'])] for _ in range(rng.choice([0, 0, 2, 8]))]
    refuse = {}
    if not wipe and not dels and rng.random() < .25:
        for k in range(rng.choice([1, 1, 2])): refuse[str(rng.randrange(len(arr)))] = rng.choice(['ERROR', '+CMS ERROR: 500', '+CMS ERROR: 302', 'silent'])
    return {'refuse': refuse, 'noise': noise, 'wipe': wipe, 'dels': dels, 'sep': rng.choice([' ', ' ', '']), 'cfg': {'profile': prof, 'index_base': base, 'delay': rng.choice([0, 0, .01, .1]), 'chunky': rng.random() < .3, 'seed': rng.getrandbits(32), 'framing': rng.choice([0, 1, 2]), 'alpha': rng.choice(['', '', '""']), 'no_stat': rng.random() < .15},
            'text': textmode, 'pre': pre, 'arrivals': arr, 'clients': clients, 'callback': rng.choice(['plain', 'plain', 'query', 'reply', 'raise', 'slow', 'plain', 'query', 'reply', 'raise', 'slow', 'none']), 'sched': simcase.sched_params(rng)}

class Boom(Exception): pass
def run(case, rec):
    got, st = [], {}
    def main(s):
        m = modemsim.virtual(s, case['cfg']); st['m'] = m
        n, ndel, kept = [0], [0], []
        def cb(sms):
            got.append((s.now, sms)); n[0] += 1
            if case['callback'] == 'raise' and n[0] % 2: raise Boom()
            if case['callback'] == 'query': g.signalStrength
            elif case['callback'] == 'reply': sms.reply('re')
            elif case['callback'] == 'slow': simcase.detsched.vsleep(1.5)
        g = simcase.modem.GsmModem('/dev/sim', smsReceivedCallbackFunc=cb if case['callback'] != 'none' else None)
        if case['text']: g.smsTextMode = True
        try: g.connect()
        except Exception as e: rec.violation('connect-failed', '%s: %s' % (type(e).__name__, e)); return
        for mem, idx, d in case['pre']: m.stores[mem][idx] = smsgen.build(d)
        before = {mem: dict(x) for mem, x in m.stores.items()}
        m.deleted[:] = []
        def hook(cmd):
            if not cmd.startswith('AT+CMGD='): return
            x = case['refuse'].get(str(ndel[0])); ndel[0] += 1
            if x: rec.count('deletions_refused'); kept.append((m.mem1, int(cmd[8:].split(',')[0]))); return 'silent' if x == 'silent' else ([], x)
        m.override = hook
        t0 = s.now
        exp = []
        st['exp'] = exp
        # lines of one batch are sent in one go
        groups = []
        for a in case['arrivals']:
            if groups and a['batch'] and groups[-1][-1]['t'] == a['t']: groups[-1].append(a)
            else: groups.append([a])
        def arrive(grp):
            lines = []
            for a in grp:
                idx = a['index'] if a['index'] is not None and a['index'] not in m.stores[a['mem']] else None
                idx = m.store(a['mem'], smsgen.build(a['msg']), idx)
                exp.append((a, a['mem'], idx)); rec.count('arrivals')
                lines.append('+CMTI:%s"%s",%d' % (case['sep'], a['mem'], idx))
            if grp[0]['early']:
                if m.busy is not None and not m.responding: rec.count('early_indications')
                m.urc_early(*lines)
            else: m.urc(*lines)
        for grp in groups: s.at(grp[0]['t'], lambda grp=grp: arrive(grp))
        for t, x in case['noise']: s.at(t, lambda x=x: (rec.count('noise'), m.urc(x)))
        errors = []
        todo = [list(x) for x in case['dels']]
        gone = {tuple(x) for x in case['dels']} | {(case['wipe'], idx) for idx in before.get(case['wipe'], {})}
        def client(c):
            simcase.detsched.vsleep(c['start'])
            for op in c['ops']:
                rec.count('concurrent_commands')
                try:
                    if op == 'csq': rec.eq(g.signalStrength, 20, 'concurrent-command', 'signal strength')
                    elif op == 'imsi' and not case['noise']: rec.eq(g.imsi, m.c['imsi'], 'concurrent-command', 'imsi')
                    elif op == 'read':
                        if case['pre']:
                            mem, idx, d = case['pre'][0]
                            last = [x for x in case['pre'] if x[0] == mem and x[1] == idx][-1][2]
                            sms = g.readStoredSms(idx, mem)
                            x = smsgen.diff(sms, last, g, case['text']); rec.expect(not x, 'concurrent-read', x)
                    elif op == 'list':
                        g.listStoredSms(memory=m.c['mems'][0])
                    elif op == 'wipe': rec.count('wipes'); g.deleteMultipleStoredSms(4, memory=case['wipe'])
                    elif op == 'delete':
                        mem, idx = todo.pop(); rec.count('client_deletes'); g.deleteStoredSms(idx, memory=mem)
                    elif op == 'send': g.sendSms('+1', 'x')
                    else: rec.expect('+CREG: 0,1' in g.write('AT+CREG?'), 'concurrent-command', 'CREG')
                except Exception as e: errors.append('%s: %s: %s' % (op, type(e).__name__, e))
                simcase.detsched.vsleep(c['gap'])
        ts = [threading.Thread(target=client, args=(c,)) for c in case['clients']]
        for t in ts: t.start()
        for t in ts: t.join()
        simcase.detsched.vsleep(15 + 12 * list(case['refuse'].values()).count('silent'))
        rec.expect(not errors, 'concurrent-command', lambda: repr(errors[:3]))
        # ---- judge
        rec.expect(len(exp) == len(case['arrivals']), 'harness', 'arrivals missing')
        left = list(exp)
        touched = {mem for c in case['clients'] for op in c['ops'] for mem in ([m.c['mems'][0]] if op == 'list' else [case['pre'][0][0]] if op == 'read' and case['pre'] else [])}
        def status(x): return None if x[1] in touched else 0 # a client that lists this memory may have marked the message as read
        for t, sms in got:
            hit = [x for x in left if not smsgen.diff(sms, x[0]['msg'], g, case['text'], status(x))]
            if hit: left.remove(hit[0]); rec.count('handed_over'); continue
            x = [x for x in exp if not smsgen.diff(sms, x[0]['msg'], g, case['text'])]
            txt = getattr(sms, 'text', None)
            if x: rec.violation('duplicate' if x[0] not in left else 'status', 'message %r handed over again (status %r)' % (txt, sms.status))
            else:
                near = min((smsgen.diff(sms, y[0]['msg'], g, case['text']) for y in left or exp), key=len) if exp else ''
                rec.violation('content', 'callback got a message that did not arrive: %s %r %r; %s' % (type(sms).__name__, sms.number, txt, near))
        if case['callback'] == 'none': left = []; rec.count('no_callback')
        rec.expect(not left, 'lost', lambda: 'never handed over: %r; log %r' % ([(a['mem'], idx, a['msg']) for a, _, idx in left][:2], [x for _, k, x in m.log if k != 'out'][-12:]))
        want = sorted([(mem, idx) for _, mem, idx in exp] + list(gone))
        for x in kept: want.remove(x) if x in want else None
        have = sorted((mem, idx) for _, mem, idx, _ in m.deleted)
        rec.expect(want == have, 'deletion', lambda: 'removed from the modem: %r; indicated or deleted by the application: %r' % (have, want))
        for mem in before:
            for idx, x in before[mem].items():
                if (mem, idx) in gone: continue
                y = m.stores[mem].get(idx)
                rec.expect(y is not None and y['pdu'] == x['pdu'], 'other-message-deleted', lambda: 'message %d in %s is gone' % (idx, mem))
        rec.expect(not m.faults, 'protocol', lambda: repr(m.faults[:3]))
        rec.count('memory_switches', sum(1 for _, k, x in m.log if k == 'cmd' and x.startswith('AT+CPMS="')) - 1)
        g.close()
    ok, s = simcase.run(rec, case['sched'], main, ignore_uncaught=(Boom,))
    rec.key([(a['t'], a['mem'], a['batch'], a['early']) for a in case['arrivals']], [c['ops'] for c in case['clients']], s.sig)
