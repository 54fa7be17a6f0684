# -*- coding: utf-8 -*-
import common, simcase
ID = 'C09'
QUICK, THOROUGH = 6000, 300000
RULE = ('scripts of 1..12 bursts of lines (any bytes, blank lines, missing leading line ends, incomplete trailing fragments, hostile words), cut into random chunks, separated by gaps from 0 to 5 s, some directly behind a command\'s final result line, '
        'some after a command that timed out, some sent through GsmModem; the handler\'s calls are recorded with virtual times and compared with the sent lines (exactly once, in order, unaltered, delivered by the end of every quiet period). Distinct by schedule hash.')
ASSUMPTIONS = ['"quiet" means longer than the port\'s read timeout (1 s)', 'the handler itself does not raise']
FLOORS = {'lines': 800, 'quiet_points': 100, 'fragments_pending': 20, 'lines_behind_response': 30, 'split_terminators': 50, 'context_switches': 1000}

def setup(): simcase.setup()

def rline(rng, uid):
    r = rng.random()
    if r < .3: return rng.choice([h for h in simcase.HOSTILE if h] + ['OK', 'ERROR', '+CMTI: "SM",1', 'RING', '> ', '+CME ERROR: 515'])
    if r < .6: return 'N%s' % uid
    return 'N%s ' % uid + ''.join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(256)])) for _ in range(rng.randint(0, 40))).replace('\r\n', 'xx').rstrip('\r')

def gen_case(rng, i, tier):
    ev = []
    n = rng.randint(1, 12)
    for b in range(n):
        kind = rng.choice(['burst'] * 6 + ['cmd', 'timeout', 'fragment'])
        lines = [rline(rng, '%d.%d' % (b, k)) for k in range(rng.choice([1, 1, 2, 3, 5]))]
        text = ''
        for l in lines:
            text += ('\r\n' if rng.random() < .5 else '') + l + '\r\n' + ('\r\n' if rng.random() < .15 else '')
        if rng.random() < .1: text += '\r\n\r\n'
        e = {'kind': kind, 'gap': rng.choice([0, 0, .001, .3, 1.2, 2.5, 5])}
        if kind == 'burst': e['lines'] = lines; e['steps'] = simcase.chunks(rng, text, rng.choice([0, .01, .5, 1.5]))
        elif kind == 'fragment': # first part of a line now, the rest after a long pause
            l = lines[-1]; p = rng.randint(0, len(l))
            e['lines'] = lines; e['steps'] = [[0, text[:text.rindex(l) + p]], [rng.choice([1.5, 2.5, 4]), text[text.rindex(l) + p:]]]
            if rng.random() < .3: e['steps'] = [[0, text[:-1]], [2.5, text[-1:]]]
        elif kind == 'cmd':
            # response and unsolicited lines in one go; nothing is waiting any more behind the final result line
            e['cmd'] = 'AT+Q%d' % b; e['resp'] = ['+Q: %d' % b, 'OK']; e['lines'] = lines
            e['steps'] = [[rng.choice([0, .05]), '\r\n+Q: %d\r\n\r\nOK\r\n%s' % (b, text)]]
        else:
            e['cmd'] = 'AT+T%d' % b; e['lines'] = lines; e['steps'] = simcase.chunks(rng, text, .1, 1)
        ev.append(e)
    return {'events': ev, 'gsm': rng.random() < .3, 'sched': simcase.sched_params(rng)}

def run(case, rec):
    got, sent, st = [], [], {}
    def main(s):
        dev = simcase.ScriptDevice(s); st['dev'] = dev
        simcase.fakeserial.PORTS['/dev/sim'] = dev.line
        def handler(lines):
            for l in lines: got.append((s.now, l))
        def check_quiet(where):
            # everything that was sent completely has been delivered by now
            rec.count('quiet_points')
            have = [l for _, l in got]; want = [l for _, l in sent]
            rec.expect(have == want, 'late' if have == want[:len(have)] else 'delivery',
                       lambda: '%s: after %.2f s of silence the handler received %r, the modem had sent %r' % (where, s.now - st['last'], have[-6:], want[-6:]))
            return have == want
        if case['gsm']:
            conn = simcase.modem.GsmModem('/dev/sim')
            conn.notifyCallback = handler
            simcase.serial_comms.SerialComms.connect(conn)
            wr = lambda c, t: conn.write(c, timeout=t)
        else:
            conn = simcase.serial_comms.SerialComms('/dev/sim', notifyCallbackFunc=handler)
            conn.connect()
            wr = lambda c, t: conn.write(c + '\r', timeout=t)
        st['last'] = 0
        tail = ['']
        def step(data):
            tail[0] += data
            while '\r\n' in tail[0]:
                l, tail[0] = tail[0].split('\r\n', 1)
                if l: sent.append((s.now, l))
            if tail[0].endswith('\r'): rec.count('split_terminators')
            st['last'] = s.now
            dev.line.deliver(data.encode('latin-1'))
        for n, e in enumerate(case['events']):
            simcase.detsched.vsleep(e['gap'])
            if e['kind'] in ('burst', 'fragment'):
                t = 0
                for d, data in e['steps']:
                    t += d
                    s.at(t, lambda data=data: step(data))
                if e['kind'] == 'fragment':
                    simcase.detsched.vsleep(e['steps'][1][0] - .05)
                    rec.count('fragments_pending')
                    if e['steps'][1][0] >= 1.5 and s.now - st['last'] >= 1.4:
                        if not check_quiet('incomplete line pending'): return
                    simcase.detsched.vsleep(.2)
                else: simcase.detsched.vsleep(t + .001)
            else:
                if n and s.now - st['last'] < 1.3: simcase.detsched.vsleep(1.5) # no unsolicited line may be on its way
                if e['kind'] == 'cmd':
                    def answer(cmd, e=e):
                        def go():
                            data = e['steps'][0][1]
                            head = '\r\n%s\r\n\r\n%s\r\n' % tuple(e['resp'])
                            assert data.startswith(head)
                            dev.line.deliver(head.encode())
                            rec.count('lines_behind_response', len(e['lines']))
                            step(data[len(head):])
                        s.at(e['steps'][0][0], go)
                    dev.script[e['cmd']] = answer
                    try: r = wr(e['cmd'], 5)
                    except Exception as x: rec.violation('command-failed', '%s: %s %s' % (e['cmd'], type(x).__name__, x)); return
                    rec.eq(list(r), e['resp'], 'response', e['cmd'])
                else:
                    try: wr(e['cmd'], 1); rec.violation('no-timeout', e['cmd']); return
                    except simcase.exceptions.TimeoutException: rec.count('timeouts')
                    for d, data in e['steps']: step(data)
            if s.now - st['last'] > 1.3: check_quiet('gap')
        simcase.detsched.vsleep(3)
        check_quiet('end')
        # the reader thread survived whatever arrived
        step('\r\nlast line\r\n')
        simcase.detsched.vsleep(1.5)
        check_quiet('probe')
        conn.close()
    ok, s = simcase.run(rec, case['sched'], main)
    rec.count('lines', len(got)); rec.key([(e['kind'], e['gap'], len(e['lines']), len(e['steps'])) for e in case['events']], s.sig)
