# -*- coding: utf-8 -*-
import threading
import common, simcase
ID = 'C08'
QUICK, THOROUGH = 4000, 200000
RULE = ('2..5 threads issue 1..6 commands each on one connection (some with a prompt terminator, some without waiting, some through GsmModem.write); every command has its own scripted response of 0..6 lines, many of which begin with, end in or contain '
        'result words, sent in random chunks with random delays; schedules are random with preemption inside the library. The device checks that a command never starts while another is being answered; each caller\'s return value is compared with its script. '
        'Distinct by schedule hash.')
ASSUMPTIONS = ['no unsolicited line arrives while a command is waiting (a modem-side ambiguity the line protocol cannot resolve)', 'a response line that equals a result code in full ends the response']
FLOORS = {'commands': 500, 'hostile_lines': 300, 'contended': 100, 'prompts': 20, 'context_switches': 2000}

def setup(): simcase.setup()

def gen_case(rng, i, tier):
    threads = []
    gsm = rng.random() < .4
    for t in range(rng.choice([1, 2, 2, 3, 4, 5])):
        cmds = []
        for k in range(rng.randint(1, 6)):
            uid = '%d.%d' % (t, k)
            kind = rng.choice(['cmd'] * 7 + ['prompt', 'nowait'])
            lines = [simcase.line(rng, uid) for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))]
            if gsm: lines = [l for l in lines if not l.startswith(('+CMTI', '+CDSI'))]
            c = {'cmd': 'AT+X%s' % uid, 'kind': kind, 'sleep': rng.choice([0, 0, 0, .01, .3])}
            if kind == 'cmd':
                c['lines'] = [l for l in lines if l not in ('\r', )] + [rng.choice(simcase.FINALS)]
                c['steps'] = simcase.chunks(rng, simcase.frame(rng, c['lines']), rng.choice([0, .01, .2]))
            elif kind == 'prompt':
                c['lines'] = [l for l in lines if '>' not in l][:1] + ['> ']
                c['lines'] = [l for l in c['lines'] if l != '\r' and '\n' not in l]
                c['steps'] = simcase.chunks(rng, ''.join('\r\n%s\r\n' % l for l in c['lines'][:-1]) + rng.choice(['\r\n', '']) + '> ', rng.choice([0, .01, .2]))
            else: c['steps'] = []
            cmds.append(c)
        threads.append(cmds)
    return {'threads': threads, 'gsm': gsm, 'sched': simcase.sched_params(rng)}

def run(case, rec):
    results = []
    st = {}
    def main(s):
        dev = simcase.ScriptDevice(s); st['dev'] = dev
        simcase.fakeserial.PORTS['/dev/sim'] = dev.line
        notes = []
        st['notes'] = notes
        for cmds in case['threads']:
            for c in cmds: dev.script[c['cmd']] = simcase.steps(c['steps'])
        if case['gsm']:
            conn = simcase.modem.GsmModem('/dev/sim')
            simcase.serial_comms.SerialComms.connect(conn) # without the initialization of the modem
            conn.notifyCallback = lambda l: notes.append(list(l))
            wr = lambda c, **kw: conn.write(c, parseError=False, **kw)
        else:
            conn = simcase.serial_comms.SerialComms('/dev/sim', notifyCallbackFunc=lambda l: notes.append(list(l)))
            conn.connect()
            wr = lambda c, **kw: conn.write(c + '\r', **kw)
        active = [0]
        def client(cmds, n):
            for c in cmds:
                if c['sleep']: simcase.detsched.vsleep(c['sleep'])
                if active[0]: rec.count('contended')
                active[0] += 1
                try:
                    if c['kind'] == 'nowait': r = wr(c['cmd'], waitForResponse=False)
                    elif c['kind'] == 'prompt': r = wr(c['cmd'], timeout=30, expectedResponseTermSeq='> ')
                    else: r = wr(c['cmd'], timeout=30)
                    results.append((n, c, r, None))
                except Exception as e: results.append((n, c, None, e))
                finally: active[0] -= 1
        ts = [threading.Thread(target=client, args=(cmds, n)) for n, cmds in enumerate(case['threads'])]
        for t in ts: t.start()
        for t in ts: t.join()
        simcase.detsched.vsleep(2)
        conn.close()
    ok, s = simcase.run(rec, case['sched'], main)
    if not ok: return
    dev = st['dev']
    rec.count('commands', len(results)); rec.key(s.sig)
    allc = [c for cmds in case['threads'] for c in cmds]
    rec.expect(len(results) == len(allc), 'lost-call', lambda: '%d of %d calls returned' % (len(results), len(allc)))
    rec.expect(not dev.overlaps, 'interleaved-commands', lambda: 'commands written while another was being answered: %r' % dev.overlaps[:3])
    rec.expect(sorted(c for _, c, _ in dev.commands) == sorted(c['cmd'] for c in allc) and not dev.rxbuf, 'commands-on-wire', lambda: 'commands received %r, issued %r' % ([c for _, c, _ in dev.commands], [c['cmd'] for c in allc]))
    for n, c, r, e in results:
        if e is not None: rec.violation('call-raised', '%s raised %s: %s; script %r' % (c['cmd'], type(e).__name__, e, c['steps'])); continue
        if c['kind'] == 'nowait': rec.eq(r, None, 'nowait-response', c['cmd']); continue
        if c['kind'] == 'prompt': rec.count('prompts')
        rec.count('hostile_lines', sum(l in simcase.HOSTILE for l in c['lines']))
        rec.expect(list(r) == c['lines'], 'response', lambda: '%s returned %r, the modem sent %r (%r)' % (c['cmd'], r, c['lines'], c['steps']))
    for n in range(len(case['threads'])):
        mine = [c['cmd'] for k, c, _, _ in results if k == n]
        wire = [c for _, c, _ in dev.commands if c.startswith('AT+X%d.' % n)]
        rec.eq(wire, mine, 'order', 'commands of thread %d' % n)
    rec.expect(not st['notes'], 'response-line-as-notification', lambda: 'handler received %r' % st['notes'][:3])
