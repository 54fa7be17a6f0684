# -*- coding: utf-8 -*-
import threading
import common, simcase
ID = 'C10'
QUICK, THOROUGH = 5000, 250000
RULE = ('sequences of commands against a device that is silent, stops in the middle of a response, answers just in time (50 ms before the timeout), or answers after the timeout while the line is idle, with timeouts from 0.1 to 20 s, from 1..3 threads, through SerialComms and GsmModem, '
        'with prompts and without; each call\'s duration is measured in virtual time from the moment its command is written. After every timeout the connection is probed with a command and a notification. Distinct by schedule hash.')
ASSUMPTIONS = ['"briefly after" is at most 0.3 s of virtual time', 'late answers arrive while no other command is waiting']
FLOORS = {'timeouts': 80, 'partial_timeouts': 20, 'just_in_time': 20, 'late_answers': 15, 'probes': 100}

def setup(): simcase.setup()

def gen_case(rng, i, tier):
    late = rng.random() < .4
    threads = []
    for t in range(1 if late else rng.choice([1, 1, 2, 3])):
        cmds = []
        for k in range(rng.randint(1, 5)):
            uid = '%d.%d' % (t, k)
            kind = rng.choice(['silent', 'partial', 'partial', 'slow', 'ok'] + (['late'] * 3 if late else []))
            to = rng.choice([.1, .25, 1, 2, 3, 5, 20])
            c = {'cmd': 'AT+X%s' % uid, 'kind': kind, 'timeout': to, 'prompt': rng.random() < .15, 'default': to == 5 and rng.random() < .7}
            lines = [l for l in (simcase.line(rng, uid, .3) for _ in range(rng.choice([0, 1, 2, 3]))) if l != '\r' and '>' not in l and '\n' not in l and '\r' not in l]
            fin = '> ' if c['prompt'] else rng.choice(simcase.FINALS)
            c['lines'] = lines; c['final'] = fin
            fr = ''.join('\r\n%s\r\n' % l for l in lines)
            end = '\r\n' + fin + ('' if c['prompt'] else '\r\n')
            if kind == 'silent': c['steps'] = []; c['lines'] = []
            elif kind == 'partial':
                if not lines: c['lines'] = lines = ['+P: %s' % uid]; fr = '\r\n+P: %s\r\n' % uid
                frag = rng.choice(['', '', '\r\nO', '\r\n', '+PART', '\r\nOK'])
                c['frag'] = frag
                c['steps'] = [[rng.uniform(0, to * .5), fr + frag]]
            elif kind == 'slow': c['steps'] = [[rng.uniform(0, to * .4), fr], [0, end]]; c['steps'][1][0] = to - .05 - c['steps'][0][0]
            elif kind == 'late':
                c['late'] = rng.uniform(.05, 3)
                c['steps'] = [[rng.uniform(0, to * .5), fr] if fr else [0, '']]
                c['after'] = end
            else: c['steps'] = simcase.chunks(rng, fr + end, .01)
            cmds.append(c)
        threads.append(cmds)
    return {'threads': threads, 'gsm': rng.random() < .4, 'sched': simcase.sched_params(rng)}

def run(case, rec):
    st = {}
    TO = simcase.exceptions.TimeoutException
    def main(s):
        dev = simcase.ScriptDevice(s); st['dev'] = dev
        simcase.fakeserial.PORTS['/dev/sim'] = dev.line
        notes = []
        handler = lambda ls: notes.extend(ls)
        if case['gsm']:
            conn = simcase.modem.GsmModem('/dev/sim'); conn.notifyCallback = handler
            simcase.serial_comms.SerialComms.connect(conn)
            wr = lambda c, **kw: conn.write(c, parseError=False, **kw)
        else:
            conn = simcase.serial_comms.SerialComms('/dev/sim', notifyCallbackFunc=handler); conn.connect()
            wr = lambda c, **kw: conn.write(c + '\r', **kw)
        single = len(case['threads']) == 1
        def client(cmds):
            for c in cmds:
                dev.script[c['cmd']] = simcase.steps(c['steps'])
                kw = {} if c['default'] else {'timeout': c['timeout']}
                if c['prompt']: kw['expectedResponseTermSeq'] = '> '
                want = list(c['lines']) + ([c['final']] if c['kind'] in ('slow', 'ok') else [])
                exc = r = None
                try: r = wr(c['cmd'], **kw)
                except Exception as e: exc = e
                t1 = s.now
                t0 = [t for t, x, _ in dev.commands if x == c['cmd']]
                if not rec.expect(len(t0) == 1, 'command-count', lambda: '%s was written %d times' % (c['cmd'], len(t0))): return
                d = t1 - t0[0]
                if dev.busy == c['cmd']: dev.busy = None
                if c['kind'] in ('slow', 'ok'):
                    if c['kind'] == 'slow': rec.count('just_in_time')
                    if exc is not None: rec.violation('early-timeout', '%s with timeout %s raised %r %r after %.3f s; response complete after %.3f s' % (c['cmd'], c['timeout'], type(exc).__name__, exc, d, sum(x[0] for x in c['steps']))); continue
                    rec.expect(list(r) == want, 'response', lambda: '%s returned %r, sent %r' % (c['cmd'], r, want))
                else:
                    if exc is None: rec.violation('no-timeout', '%s returned %r after %.3f s, timeout %s' % (c['cmd'], r, d, c['timeout'])); continue
                    rec.count('timeouts')
                    if not rec.expect(isinstance(exc, TO), 'wrong-exception', lambda: '%s raised %r' % (c['cmd'], exc)): continue
                    rec.expect(d >= c['timeout'] - 1e-3, 'early-timeout', lambda: '%s: timeout error after %.3f s, timeout %s' % (c['cmd'], d, c['timeout']))
                    rec.expect(d <= c['timeout'] + .3, 'late-timeout', lambda: '%s: timeout error after %.3f s, timeout %s' % (c['cmd'], d, c['timeout']))
                    if want: rec.count('partial_timeouts')
                    rec.expect((exc.data or []) == want if want else not exc.data, 'timeout-data', lambda: '%s: error carries %r, received %r' % (c['cmd'], exc.data, want))
                if c['kind'] == 'late':
                    # the rest of the response arrives while nothing is waiting: it is an ordinary notification now
                    n0 = len(notes)
                    simcase.detsched.vsleep(c['late'])
                    dev.line.deliver(c['after'].encode('latin-1'))
                    if c['prompt']: dev.line.deliver(b'\r\n')
                    simcase.detsched.vsleep(1.5)
                    rec.count('late_answers')
                    rec.eq(notes[n0:], [c['final']], 'late-answer', 'late answer of %s' % c['cmd'])
                if exc is not None and c.get('frag') and single: # complete the fragment, so that it does not become part of the next line
                    n0 = len(notes)
                    f = c['frag']
                    dev.line.deliver(b'x\r\n'); simcase.detsched.vsleep(1.5)
                    rec.eq(notes[n0:], [f.lstrip('\r\n') + 'x'], 'fragment', 'line completed after the timeout of %s' % c['cmd'])
                elif exc is not None and c.get('frag'):
                    dev.line.deliver(b'\r\n'); simcase.detsched.vsleep(.01)
                if exc is not None and single:
                    rec.count('probes')
                    dev.script['AT+PROBE'] = [(.02, b'\r\n+PROBE: 1\r\n\r\nOK\r\n')]
                    try: r = wr('AT+PROBE')
                    except Exception as e: rec.violation('connection-unusable', 'command after a timeout raised %s %s' % (type(e).__name__, e)); return
                    rec.eq(list(r), ['+PROBE: 1', 'OK'], 'connection-unusable', 'response of the command after a timeout')
                    n0 = len(notes)
                    dev.line.deliver(b'\r\nHELLO\r\n'); simcase.detsched.vsleep(1.2)
                    rec.eq(notes[n0:], ['HELLO'], 'notification-after-timeout', 'notification after a timeout')
                    # a second prompt-like text must not be taken for a prompt any more
                    n0 = len(notes)
                    dev.line.deliver(b'\r\na> b\r\n'); simcase.detsched.vsleep(1.2)
                    rec.eq(notes[n0:], ['a> b'], 'notification-after-timeout', 'notification containing a prompt')
        if single: client(case['threads'][0])
        else:
            # other threads' commands are answered or time out on their own; fragments are avoided here
            for cmds in case['threads']:
                for c in cmds:
                    if c.get('frag'):
                        c['steps'][0][1] = c['steps'][0][1][:-len(c['frag'])]; c['frag'] = ''
            ts = [threading.Thread(target=client, args=(cmds,)) for cmds in case['threads']]
            for t in ts: t.start()
            for t in ts: t.join()
        conn.close()
    ok, s = simcase.run(rec, case['sched'], main)
    rec.key([(c['kind'], c['timeout'], c['final'], len(c['lines'])) for cmds in case['threads'] for c in cmds], s.sig)
