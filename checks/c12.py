# -*- coding: utf-8 -*-
import threading
import common, simcase
ID = 'C12'
QUICK, THOROUGH = 6000, 300000
RULE = ('1..3 threads issue 1..5 commands each through GsmModem.write() (with and without error parsing); each is answered with random information lines and a result: success, ERROR, COMMAND NOT SUPPORT, any +CME/+CMS code 0..999, '
        'preceded by 0..8 busy replies (CME 515 or 14, CMS 515 or 14, mixed); the number, spacing and order of the command\'s transmissions, the outcome and the delay of later commands are judged. Distinct by (outcomes, busy counts, schedule hash).')
ASSUMPTIONS = ['"slowed without bound": a later command that is answered at once takes at most 1 s longer than its answer', 'an SMS body is not retried on its own']
FLOORS = {'errors': 150, 'busy_replies': 100, 'later_commands': 20, 'success': 100, 'special_codes': 10}
LEVEL = 'fault_enumeration'

def setup(): simcase.setup()
SPECIAL = [('CME', 11), ('CME', 12), ('CME', 16), ('CMS', 330)]
def gen_case(rng, i, tier):
    threads = []
    for t in range(rng.choice([1, 1, 2, 3])):
        cmds = []
        for k in range(rng.randint(1, 5)):
            uid = '%d.%d' % (t, k)
            r = rng.random()
            if r < .4: fin = 'OK'
            elif r < .5: fin = 'ERROR'
            elif r < .57: fin = 'COMMAND NOT SUPPORT'
            elif r < .7: fin = '+%s ERROR: %d' % rng.choice(SPECIAL)
            else:
                n = rng.choice([0, 1, 3, 5, 10, 13, 15, 17, 20, 30, 100, 132, 148, 331, 329, 500, 513, 514, 516, 999, rng.randrange(1000)])
                if n in (14, 515): n = 20
                fin = '+%s ERROR: %d' % (rng.choice(['CME', 'CMS']), n)
            busy = [] if rng.random() < .55 else ['+%s ERROR: %d' % (rng.choice(['CME', 'CME', 'CMS']), rng.choice([14, 515])) for _ in range(rng.choice([1, 1, 2, 3, 8]))]
            lines = [l for l in (simcase.line(rng, uid, .5) for _ in range(rng.choice([0, 0, 1, 2]))) if '\r' not in l and '\n' not in l]
            cmds.append({'cmd': rng.choice(['AT+X%s', 'AT+CSCA="%s"', 'ATX%s', 'AT^Y=%s']) % uid, 'lines': lines, 'final': fin, 'busy': busy, 'parse': rng.random() < .85,
                         'delay': rng.choice([0, 0, .01, .3])})
        threads.append(cmds)
    return {'threads': threads, 'sched': simcase.sched_params(rng), 'later': rng.randint(1, 3)}

def run(case, rec):
    def main(s):
        dev = simcase.ScriptDevice(s)
        simcase.fakeserial.PORTS['/dev/sim'] = dev.line
        g = simcase.modem.GsmModem('/dev/sim')
        notes = []; g.notifyCallback = notes.extend
        simcase.serial_comms.SerialComms.connect(g)
        X = simcase.exceptions
        left = {}
        def answer(c):
            replies = list(c['busy']) if c['parse'] else []
            def go(cmd):
                final, lines = (replies.pop(0), []) if replies else (c['final'], c['lines'])
                data = ''.join('\r\n%s\r\n' % l for l in lines + [final])
                s.at(c['delay'], lambda: dev.line.deliver(data.encode('latin-1')))
            return go
        for cmds in case['threads']:
            for c in cmds: dev.script[c['cmd']] = answer(c)
        def client(cmds):
            for c in cmds:
                r = e = None
                try: r = g.write(c['cmd'], **({} if c['parse'] else {'parseError': False}))
                except Exception as x: e = x
                judge(c, r, e)
        def judge(c, r, e):
            times = [t for t, x, _ in dev.commands if x == c['cmd']]
            nb = len(c['busy']) if c['parse'] else 0
            rec.count('busy_replies', nb)
            rec.expect(len(times) == nb + 1, 'transmissions', lambda: '%s was sent %d times, answered busy %d times; outcome %r %r' % (c['cmd'], len(times), nb, r, e))
            for a, b in zip(times, times[1:]):
                rec.expect(b - a >= c['delay'] + .05, 'no-pause', lambda: '%s sent again %.3f s after a busy reply' % (c['cmd'], b - a - c['delay']))
            f = c['final']
            if f == 'OK' or not c['parse']:
                rec.count('success')
                if e is not None: rec.violation('success-raised', '%s answered %r raised %s: %s' % (c['cmd'], f, type(e).__name__, e)); return
                rec.expect(list(r) == c['lines'] + [f], 'response', lambda: '%s returned %r, sent %r' % (c['cmd'], r, c['lines'] + [f]))
                return
            rec.count('errors')
            if e is None: rec.violation('error-not-raised', '%s answered %r returned %r' % (c['cmd'], f, r)); return
            def E(cond, what): rec.expect(cond, 'wrong-exception', lambda: '%s answered %r raised %s(%s) type=%r code=%r command=%r: %s' % (c['cmd'], f, type(e).__name__, e, getattr(e, 'type', None), getattr(e, 'code', None), getattr(e, 'command', None), what))
            E(isinstance(e, X.CommandError), 'not a CommandError')
            if not isinstance(e, X.CommandError): return
            E(isinstance(e.command, str) and (e.command == c['cmd'] or f == 'COMMAND NOT SUPPORT' and e.command.startswith(c['cmd'])), 'command')
            if f in ('ERROR', 'COMMAND NOT SUPPORT'):
                E(not isinstance(e, (X.CmeError, X.CmsError)) and e.code is None, 'class/code of an error without a code')
                return
            typ, code = f[1:4], int(f.split(': ')[1])
            E(e.type == typ and e.code == code, 'type/code')
            E(isinstance(e, X.CmeError if typ == 'CME' else X.CmsError), 'class')
            want = {('CME', 11): X.PinRequiredError, ('CME', 12): X.PukRequiredError, ('CME', 16): X.IncorrectPinError, ('CMS', 330): X.SmscNumberUnknownError}.get((typ, code))
            if want: rec.count('special_codes'); E(isinstance(e, want), 'want %s' % want.__name__)
            else: E(not isinstance(e, (X.PinRequiredError, X.PukRequiredError, X.IncorrectPinError, X.SmscNumberUnknownError)), 'too specific')
        ts = [threading.Thread(target=client, args=(cmds,)) for cmds in case['threads']]
        for t in ts: t.start()
        for t in ts: t.join()
        for k in range(case['later']):
            c = 'AT+LATER%d' % k
            dev.script[c] = [(.01, b'\r\nOK\r\n')]
            t0 = s.now
            try: r = g.write(c)
            except Exception as e: rec.violation('later-command', '%s raised %s: %s' % (c, type(e).__name__, e)); continue
            rec.count('later_commands')
            rec.eq(list(r), ['OK'], 'later-command', c)
            rec.expect(s.now - t0 <= 1, 'slowed', lambda: '%s took %.2f s' % (c, s.now - t0))
        rec.expect(not notes, 'response-line-as-notification', lambda: repr(notes))
        g.close()
    ok, s = simcase.run(rec, case['sched'], main)
    rec.key([(c['final'], len(c['busy']), c['parse']) for cmds in case['threads'] for c in cmds], s.sig)
