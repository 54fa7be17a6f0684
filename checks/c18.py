# -*- coding: utf-8 -*-
import copy
import common, gen, simcase, modemsim, smsgen, spec_pdu as sp
ID = 'C18'
QUICK, THOROUGH = 2200, 150000
RULE = ('stores of 1..4 memories with 0..12 messages each (received, reports, drafts and sent messages, undecodable PDUs and headers, multi-line texts, sender names), PDU or text mode or switching between them; sequences of 1..12 list/read/delete/delete-multiple/process operations on the current, a given, or a non-existing memory, '
        'with callbacks that raise and messages that arrive between the commands of an operation; results and the contents of all memories after every operation are compared with the contents before. Distinct by (mode, operation sequence, store structure).')
ASSUMPTIONS = ['text mode: text without blank lines, without lines that equal a result code or look like a listing header', 'text-mode headers in the default (+CSDH=0) format']
FLOORS = {'ops': 400, 'listed': 200, 'reads': 50, 'deletions': 200, 'undecodable': 60, 'memory_switches': 80, 'arrivals': 10, 'drafts': 50, 'deletions_refused': 5, 'responses_lost': 5}
def setup(): simcase.setup()

BADHEAD = [[',"+27"'], [',"","","24/01/02,03:04:05+08"', 'text'], [',"+27831112222",,"99/99/99,99:99:99+08"', 'bad time'], [',"+27831112222",,"yesterday"', 'bad time'], [',"+27831112222",,', 'no time'], [',"+2783",,""', 'no time'],
    [',6,12,"+27831112222",145,"99/99/99,99:99:99+08","24/01/02,03:04:05+08",0'], [',6,300,"+27831112222",145,"24/01/02,03:04:05+08","",0'], [',6,"x","+2783",145']]
def rbad(rng, uid, textmode, stat):
    r = rng.random()
    good = modemsim.deliver('+27831112222', uid, [2024, 1, 2, 3, 4, 5, 8])['pdu']
    pdu = rng.choice(['', 'zz', '00', good[:-2 * rng.randint(20, 25)], good[:20], 'FF' * 10, '0791', good[:2] + 'FF' + good[4:8], good + 'x', 'ERR'])
    if pdu == '': pdu = 'no data'
    return {'kind': 'raw', 'pdu': pdu, 'stat': stat, 'lines': rng.choice(BADHEAD), 'uid': uid}

def gen_case(rng, i, tier):
    mode = rng.choice(['pdu', 'pdu', 'text', 'switch'])
    prof = rng.choice(['generic', 'generic-clac', 'huawei', 'wavecom', 'zte', 'huawei-noclac'])
    mems = modemsim.PROFILES[prof]['mems']
    pre, uid = [], 0
    base = rng.choice([0, 0, 0, 92, 245, 1000])
    hostile = rng.choice([0, 0, .2, .6])
    for mem in mems:
        idxs = rng.sample(range(base, base + 20), rng.choice([0, 1, 2, 5, 12]))
        for x in idxs:
            uid += 1
            r = rng.random()
            if r < hostile * .6: d = rbad(rng, 'bad%d' % uid, mode != 'pdu', rng.choice([0, 1]))
            elif r < hostile: d = {'kind': 'submit', 'number': smsgen.rnumber(rng), 'text': 'draft%d' % uid, 'stat': rng.choice([2, 3])}
            else:
                d = smsgen.rmsg(rng, 'm%d' % uid, mode != 'pdu', rng.choice([0, 1, 1]), .2)
                if d['kind'] == 'deliver' and rng.random() < .15: d['alpha'] = rng.choice(['John', 'Doe, John', 'A B', 'x,,y'])
            pre.append([mem, x, d])
    ops = []
    m = lambda: rng.choice([None, None, None] + list(mems) + list(mems) + ['XX'] * (rng.random() < .15))
    for k in range(rng.choice([1, 2, 4, 8, 12])):
        op = rng.choice(['list'] * 4 + ['read'] * 3 + ['delete'] * 2 + ['delmany', 'process'] + ['mode'] * (mode == 'switch'))
        o = {'op': op}
        if op == 'mode' and rng.random() < .3: o.update(lost=rng.choice(['executed', 'executed', 'ignored']), again=rng.random() < .5)
        elif op == 'list': o.update(status=rng.choice([0, 1, 2, 3, 4, 4, 4, 99 if rng.random() < .1 and mode == 'text' else 4]), mem=m(), delete=rng.random() < .4)
        elif op in ('read', 'delete'): o.update(index=rng.choice([x[1] for x in pre] + [3]), mem=m())
        elif op == 'delmany': o.update(flag=rng.choice([1, 2, 3, 4, 4, 0, 5, -1]), mem=m(), default=rng.random() < .2)
        elif op == 'process': o.update(unread=rng.random() < .4, boom=rng.random() < .3)
        if op != 'mode' and rng.random() < .1: o['refuse'] = [rng.choice([0, 0, 1, 2, 3]), rng.choice(['ERROR', '+CMS ERROR: 500', '+CMS ERROR: 302', 'silent'])]
        elif op != 'mode' and rng.random() < .05: o['lost'] = rng.choice([0, 0, 0, 1, 1, 2, 3])
        elif rng.random() < .15 and op != 'mode':
            uid += 1
            if op != 'process': o['mem'] = o['mem'] or rng.choice(mems) # its handler may select another memory at any moment
            o['arrive'] = {'after': rng.choice([0, 1, 1, 2, 3]), 'mem': rng.choice(mems), 'msg': smsgen.rmsg(rng, 'arr%d' % uid, mode != 'pdu'), 'indicate': op != 'process' and rng.random() < .5}
        ops.append(o)
    return {'cfg': {'profile': prof, 'index_base': base, 'delay': rng.choice([0, 0, .02]), 'chunky': rng.random() < .2, 'seed': rng.getrandbits(32), 'framing': rng.choice([0, 1, 2]), 'alpha': rng.choice(['', '', '""']), 'empty_read_ok': rng.random() < .3, 'empty_delete_ok': rng.random() < .5, 'no_stat': rng.random() < .1},
            'mode': mode, 'pre': pre, 'ops': ops, 'sched': simcase.sched_params(rng)}

class Boom(Exception): pass
def run(case, rec):
    EX, M = simcase.exceptions, simcase.modem
    def main(s):
        m = modemsim.virtual(s, case['cfg'])
        got, boom = [], [False]
        def cb(sms):
            got.append(sms)
            if boom[0]: raise Boom()
        g = M.GsmModem('/dev/sim', smsReceivedCallbackFunc=cb)
        text = case['mode'] == 'text'
        if text: g.smsTextMode = True
        try: g.connect()
        except Exception as e: rec.violation('connect-failed', '%s: %s' % (type(e).__name__, e)); return
        desc = {}   # pdu/uid -> description
        def put(mem, idx, d):
            b = smsgen.build(d) if d['kind'] != 'raw' else modemsim.raw(d['pdu'], d['stat'], d['lines'])
            if d.get('alpha'): b['alpha'] = d['alpha']
            b['desc'] = d
            return m.store(mem, b, idx)
        for mem, idx, d in case['pre']: put(mem, idx, d)
        cur = m.mem1
        def readable(b): return b['kind'] in ('deliver', 'report')
        for n, o in enumerate(case['ops']):
            rec.count('ops')
            op = o['op']
            if op == 'mode':
                text = not text
                if o.get('lost'): # the modem does not answer (it may have switched); then the mode is set again, to either
                    rec.count('responses_lost')
                    m.override = lambda cmd: (o['lost'] == 'executed' and m.do(cmd), 'silent')[1]
                    try: g.smsTextMode = text
                    except EX.TimeoutException: pass
                    except Exception as e: rec.violation('mode-switch', repr(e)); return
                    else: rec.violation('mode-switch', 'the modem did not answer, but nobody was told'); return
                    m.override = None
                    text = o['again']
                try: g.smsTextMode = text
                except Exception as e: rec.violation('mode-switch', repr(e)); return
                rec.eq(m.mode_text, text, 'mode-switch', 'mode of the modem'); continue
            before = {mem: {i: dict(b) for i, b in st.items()} for mem, st in m.stores.items()}
            del got[:]; m.log[:] = []; ndel = len(m.deleted)
            arrived = []
            if 'arrive' in o:
                a = o['arrive']; cnt = [0]
                def hook(cmd, a=a, cnt=cnt):
                    if cnt[0] == a['after'] and not arrived:
                        idx = put(a['mem'], None, a['msg']); arrived.append((a['mem'], idx, a['msg'], len([1 for _, k, x in m.log if k == 'cmd'])))
                        rec.count('arrivals')
                        if a['indicate']: m.urc('+CMTI: "%s",%d' % (a['mem'], idx))
                    cnt[0] += 1
                    return None
                m.override = hook
            kept, nd = [], [0]
            if 'refuse' in o:
                def hook(cmd, k=o['refuse']):
                    if not cmd.startswith('AT+CMGD='): return
                    nd[0] += 1
                    if nd[0] - 1 != k[0]: return
                    rec.count('deletions_refused'); kept.append(int(cmd[8:].split(',')[0]) if cmd.endswith(',0') else 'all')
                    return 'silent' if k[1] == 'silent' else ([], k[1])
                m.override = hook
            if 'lost' in o: # one command of the operation is executed, but its response never arrives
                def hook(cmd, k=o['lost']):
                    nd[0] += 1
                    if nd[0] - 1 != k: return
                    rec.count('responses_lost'); m.do(cmd); kept.append('lost'); return 'silent'
                m.override = hook
            boom[0] = o.get('boom', False)
            res = err = None
            try:
                if op == 'list': res = g.listStoredSms(status=o['status'], memory=o['mem'], delete=o['delete'])
                elif op == 'read': res = [g.readStoredSms(o['index'], o['mem'])]
                elif op == 'delete': g.deleteStoredSms(o['index'], o['mem'])
                elif op == 'delmany':
                    if o['default']: g.deleteMultipleStoredSms(memory=o['mem'])
                    else: g.deleteMultipleStoredSms(o['flag'], o['mem'])
                else: g.processStoredSms(o['unread'])
            except Exception as e: err = e
            nlist = list(got)
            simcase.detsched.vsleep(3)
            m.override = None; boom[0] = False
            cmds = [x for _, k, x in m.log if k == 'cmd']
            ctx = '%s mode, op %d %r, current memory %s, commands %r' % ('text' if text else 'PDU', n, {k: v for k, v in o.items() if k != 'arrive'}, cur, cmds[:8])
            if 'lost' in kept:
                cur = m.mem1
                asked = {(o['mem'] or cur, o['index'])} if op == 'delete' else {(o['mem'] or cur, i) for i in before.get(o['mem'] or cur, {})} if op == 'delmany' else set()
                rec.expect(err is None or isinstance(err, (EX.TimeoutException, EX.CommandError, ValueError, Boom)), 'lost-response', lambda: '%s: %r' % (ctx, err))
                for _, mm, i, b in m.deleted[ndel:]:
                    if (mm, i) in asked or any(not smsgen.diff(x, b['desc'], g, text) for x in nlist + list(res or [])): continue
                    rec.violation('lost-by-lost-response', '%s: raised %r; message at %r has been removed, but neither returned nor asked for: %r' % (ctx, err, (mm, i), b['desc']))
                continue
            mem = o.get('mem') or cur
            gone = {(mm, i): b for _, mm, i, b in m.deleted[ndel:]}
            A = {(mm, i): d for mm, i, d, _ in arrived}
            if mem not in m.stores: # not a memory of this device
                rec.expect(isinstance(err, EX.CommandError) or (op == 'delmany' and isinstance(err, ValueError)), 'bad-memory', lambda: '%s: %r' % (ctx, err))
                taken = [k for k in gone if k not in A]
                rec.expect(not taken, 'deleted-in-wrong-memory', lambda: '%s: removed %r' % (ctx, taken))
                if arrived: cur = m.mem1 # the handler may have switched
                continue
            if mem != cur: rec.count('memory_switches')
            cur = m.mem1 if isinstance(err, ValueError) else mem # whether a call with a wrong parameter selects the memory is left open
            if o.get('arrive', {}).get('indicate') and arrived: cur = m.mem1
            S = before[mem]
            allowed = set()     # places the operation may empty
            if op == 'list' and o['status'] == 99:
                rec.expect(isinstance(err, ValueError), 'bad-status', lambda: '%s: %r' % (ctx, err))
            elif op in ('list', 'process'):
                sts = [[o['status']]] if op == 'list' else ([[0]] if o['unread'] else [[1], [0]])
                exp = [(i, S[i], x[0]) for x in sts for i in sorted(S) if readable(S[i]) and (x[0] == 4 or S[i]['stat'] == x[0])]
                rec.count('undecodable', sum(1 for b in S.values() if b['kind'] == 'raw')); rec.count('drafts', sum(1 for b in S.values() if b['kind'] == 'submit'))
                if op == 'process': res = nlist; okerr = Boom if o['boom'] and (nlist or arrived) else ()
                else: okerr = ()
                if kept and isinstance(err, (EX.CommandError, EX.TimeoutException)): # refused as a whole: then nothing may be lost
                    rec.expect(not gone or op == 'process', 'lost-by-refused-deletion', lambda: '%s: raised %r, but %d messages have been removed and not returned' % (ctx, err, len(gone)))
                    for (mm, i), b in gone.items(): rec.expect(any(not smsgen.diff(x, b['desc'], g, text, b['stat']) for x in nlist), 'lost-by-refused-deletion', lambda: '%s: raised %r, but the message at %d has been removed and not handed over' % (ctx, err, i))
                    continue
                if err is not None and not (okerr and isinstance(err, okerr)):
                    rec.violation('operation-failed', '%s: raised %s: %s; contents %r' % (ctx, type(err).__name__, err, [b['kind'] for b in S.values()])); return
                rest = list(res)
                rec.count('listed', len(res))
                lastpos = {}
                stopped = op == 'process' and isinstance(err, Boom) # later statuses are not listed after a failing callback
                for i, b, grp in exp:
                    hit = [x for x in rest if not smsgen.diff(x, b['desc'], g, text, b['stat'])]
                    if not hit:
                        if stopped and (mem, i) not in gone: continue
                        near = [smsgen.diff(x, b['desc'], g, text, b['stat']) for x in rest]
                        rec.violation('not-listed', '%s: message %d in %s is missing: %r; nearest %r' % (ctx, i, mem, b['desc'], min(near, key=len) if near else None)); continue
                    p = [k for k, x in enumerate(res) if x is hit[0]][0]
                    rec.expect(p >= lastpos.get(grp, -1), 'order', lambda: '%s: message %d out of order' % (ctx, i)); lastpos[grp] = p
                    rest = [x for x in rest if x is not hit[0]]
                    if op == 'process' or o['delete']:
                        allowed.add((mem, i))
                        rec.expect((mem, i) in gone or i in kept or 'all' in kept, 'not-deleted', lambda: '%s: message %d is still in %s' % (ctx, i, mem))
                for x in list(rest):
                    k = [k for k, d in A.items() if not smsgen.diff(x, d, g, text)]
                    if k: # a message that arrived meanwhile may be listed
                        rest.remove(x); allowed.add(k[0])
                rec.expect(not rest, 'listed-extra', lambda: '%s: listed %r' % (ctx, [vars(x) for x in rest][:2]))
            elif op == 'read':
                rec.count('reads')
                b = S.get(o['index'])
                if b is not None and readable(b):
                    if rec.expect(err is None, 'read-failed', lambda: '%s: %r' % (ctx, err)):
                        x = smsgen.diff(res[0], b['desc'], g, text, b['stat'] if not case['cfg']['no_stat'] else None); rec.expect(not x, 'read-content', lambda: '%s: %s' % (ctx, x))
                elif A.get((mem, o['index'])): pass
                else: rec.expect(err is not None, 'read-invented', lambda: '%s: returned %r although the place holds %r' % (ctx, vars(res[0]), b and b['kind']))
            elif op == 'delete':
                i = o['index']
                allowed.add((mem, i))
                if kept: rec.expect(isinstance(err, (EX.CommandError, EX.TimeoutException)) and not gone, 'refused-deletion', lambda: '%s: %r' % (ctx, err))
                elif i in S: rec.expect(err is None and (mem, i) in gone, 'not-deleted', lambda: '%s: %r' % (ctx, err))
                else: rec.expect(err is None or isinstance(err, EX.CommandError), 'delete-error', lambda: '%s: %r' % (ctx, err))
            else:
                f = 4 if o['default'] else o['flag']
                if f not in (1, 2, 3, 4):
                    rec.expect(isinstance(err, ValueError), 'bad-flag', lambda: '%s: %r' % (ctx, err))
                elif kept: rec.expect(isinstance(err, (EX.CommandError, EX.TimeoutException)) and not gone, 'refused-deletion', lambda: '%s: %r' % (ctx, err))
                else:
                    rec.expect(err is None, 'operation-failed', lambda: '%s: %r' % (ctx, err))
                    k = {1: (1,), 2: (1, 3), 3: (1, 2, 3), 4: (0, 1, 2, 3)}[f]
                    for i, b in S.items():
                        if b['stat'] in k: allowed.add((mem, i)); rec.expect((mem, i) in gone, 'not-deleted', lambda: '%s: message %d (status %d) is still there' % (ctx, i, b['stat']))
                    if 0 in k: allowed.update(A)
            handed = [k for k, d in A.items() if any(not smsgen.diff(x, d, g, text) for x in got)]
            for k, b in gone.items():
                rec.count('deletions')
                if k in allowed or k in handed: continue
                bulk = [j for j, x in enumerate(cmds) if x == 'AT+CMGD=1,4']
                lst = [j for j, x in enumerate(cmds) if x in ('AT+CMGL=4', 'AT+CMGL="ALL"')]
                if k in A and op == 'list' and o['delete'] and o['status'] == 4 and bulk and lst and lst[0] + 1 < arrived[0][3] <= bulk[0] + 1:
                    rec.violation('arrival-deleted-unseen-by-list-all', '%s: a message that arrived at %r between +CMGL and +CMGD=1,4 was deleted without being returned' % (ctx, k)); continue
                rec.violation('deleted-unseen', '%s: message at %r was removed but neither returned nor asked for: %r' % (ctx, k, b['desc']))
            for k in A: # conservation: an arrived message is still there, or was seen
                rec.expect(k in gone or k[1] in m.stores[k[0]], 'lost', ctx)
            for mm in before: # nothing else changed
                for i, b in before[mm].items():
                    y = m.stores[mm].get(i)
                    if (mm, i) not in gone: rec.expect(y is not None and y['pdu'] == b['pdu'], 'store-changed', lambda: '%s: %s %d' % (ctx, mm, i))
            if rec.violations: return
        rec.expect(not m.faults, 'protocol', lambda: repr(m.faults[:3]))
        g.close()
    ok, s = simcase.run(rec, case['sched'], main, ignore_uncaught=(Boom, EX.CommandError))
    rec.key(case['mode'], [sorted((k, str(v)) for k, v in o.items() if k in ('op', 'status', 'mem', 'delete', 'flag')) for o in case['ops']], [(x[0], x[1], x[2]['kind'], x[2]['stat']) for x in case['pre']])
