# -*- coding: utf-8 -*-
import threading
import serial
import common, simcase
ID = 'C11'
QUICK, THOROUGH = 6000, 300000
RULE = ('the port fails (device gone while reading, while asking for more data, at a random instant: idle, in the middle of a line, in the middle of a response, while several threads wait), or the k-th write fails (error or write timeout) and later ones work, or the connection is closed (idle, '
        'with data arriving, with lines pending, after a failure, after a timeout); handler calls, liveness of every thread, state of the port, durations of waiting callers and later traffic are judged. Distinct by schedule hash.')
ASSUMPTIONS = ['a failed port stays failed', 'close() is not called from within a handler']
LEVEL = 'fault_enumeration'
FLOORS = {'read_faults': 25, 'write_faults': 20, 'closes': 25, 'waiting_callers': 20, 'writes_after_fault': 15}

def setup(): simcase.setup()

def gen_case(rng, i, tier):
    kind = rng.choice(['read', 'read', 'write', 'write', 'close'])
    c = {'kind': kind, 'gsm': rng.random() < .4, 'sched': simcase.sched_params(rng), 'nthreads': rng.choice([0, 1, 1, 2, 3]),
         'cmds': rng.randint(1, 4), 'delay': rng.choice([0, .01, .2, 1]), 'fault_at': rng.choice([0, rng.uniform(0, .5), rng.uniform(0, 3)]),
         'timeout': rng.choice([1.5, 2, 5]), 'urcs': [[rng.uniform(0, 3), rng.randint(1, 3)] for _ in range(rng.choice([0, 1, 2, 5]))],
         'frag': rng.choice(['', '', 'PART', '\r\nPART', 'x\r']), 'werr': rng.choice(['err', 'timeout']), 'after': rng.random() < .5, 'closeafter': rng.random() < .7,
         'nofatal': rng.random() < .15}
    total = c['nthreads'] * c['cmds'] or 1
    c['wfault'] = sorted(rng.sample(range(total), rng.randint(1, min(2, total))))
    return c

def run(case, rec):
    TO = simcase.exceptions.TimeoutException
    kind = case['kind']
    if kind == 'write' and case['nthreads'] == 0: case = dict(case, nthreads=1)
    def main(s):
        dev = simcase.ScriptDevice(s); line = dev.line
        simcase.fakeserial.PORTS['/dev/sim'] = line
        fatal, notes, results = [], [], []
        def on_fatal(e): fatal.append((s.now, e, conn.alive))
        def on_note(ls): notes.append((s.now, list(ls)))
        if case['gsm']:
            conn = simcase.modem.GsmModem('/dev/sim'); conn.notifyCallback = on_note
            if not case['nofatal']: conn.fatalErrorCallback = on_fatal
            simcase.serial_comms.SerialComms.connect(conn)
            wr = lambda c, **kw: conn.write(c, parseError=False, **kw)
        else:
            conn = simcase.serial_comms.SerialComms('/dev/sim', notifyCallbackFunc=on_note, fatalErrorCallbackFunc=None if case['nofatal'] else on_fatal)
            conn.connect()
            wr = lambda c, **kw: conn.write(c + '\r', **kw)
        rec.expect(conn.alive, 'not-alive', 'connection is not alive after connecting')
        d = case['delay']
        def answer(cmd):
            dev.pending = True
            def go():
                dev.pending = False
                line.deliver(('\r\n%s\r\n\r\nOK\r\n' % cmd[2:]).encode())
            s.at(d, go)
        dev.pending = False
        dev.default = answer
        nsent = [0]
        def urc(n):
            if dev.pending: return # only while no command is waiting: the lines would be part of its response
            nsent[0] += n
            line.deliver(''.join('\r\n*URC %d\r\n' % (nsent[0] - n + k) for k in range(n)).encode())
        t_fault = [None]
        if kind == 'read':
            def fail():
                line.deliver(case['frag'].encode()); line.fail('gone'); t_fault[0] = s.now
            s.at(case['fault_at'], fail)
        else:
            for n in case['wfault'] if kind == 'write' else ():
                line.write_faults[n] = (lambda: serial.SerialException('write failed: [Errno 5] Input/output error')) if case['werr'] == 'err' else (lambda: serial.SerialTimeoutException('Write timeout'))
        if kind != 'write':
            for t, n in case['urcs']: s.at(t, lambda n=n: urc(n))
        def client(n):
            for k in range(case['cmds']):
                c = 'AT+C%d.%d' % (n, k)
                t0 = s.now; r = e = None
                try: r = wr(c, timeout=case['timeout'])
                except Exception as x: e = x
                results.append((c, r, e, t0, s.now))
        ts = [threading.Thread(target=client, args=(n,)) for n in range(case['nthreads'])]
        for t in ts: t.start()
        if kind == 'read':
            rec.count('read_faults')
            simcase.detsched.vsleep(case['fault_at'] + .001)
            for t in ts: t.join()
            simcase.detsched.vsleep(2.5)
            if not case['nofatal']:
                if rec.expect(len(fatal) == 1, 'fatal-handler-calls', lambda: 'fatal error handler called %d times: %r' % (len(fatal), fatal)):
                    tf, e, alive = fatal[0]
                    rec.expect(isinstance(e, (serial.SerialException, EnvironmentError)), 'fatal-handler-argument', lambda: 'handler got %r' % (e,))
                    rec.expect(not alive, 'alive-in-fatal-handler', 'connection still marked alive when the handler runs')
                    late = [n for n in notes if n[0] > tf]
                    rec.expect(not late, 'notification-after-failure', lambda: '%r after the failure at %.3f' % (late, tf))
            rec.expect(not conn.alive, 'not-marked-dead', 'alive is still set after the port failed')
            rec.expect(not line.port.is_open, 'port-open', 'port still open after it failed')
            nn = len(notes); simcase.detsched.vsleep(2)
            rec.expect(len(notes) == nn, 'notification-after-failure', lambda: '%r' % notes[nn:])
            for c, r, e, t0, t1 in results:
                rec.count('waiting_callers')
                if e is None: rec.expect([x for x in r if not x.startswith('*URC')] == [c[2:], 'OK'], 'response', lambda: '%s returned %r' % (c, r)); continue
                rec.expect(isinstance(e, (TO, serial.SerialException, EnvironmentError)), 'caller-exception', lambda: '%s raised %s: %s' % (c, type(e).__name__, e))
            # nobody hangs: each call ended by its own timeout after it got its turn
            if results:
                total = max(x[4] for x in results)
                bound = case['fault_at'] + (case['timeout'] + .3) * case['nthreads'] * case['cmds'] + d * len(results) + 1
                rec.expect(total <= bound, 'caller-hangs', lambda: 'last caller returned at %.2f, bound %.2f' % (total, bound))
            rec.expect(len(results) == case['nthreads'] * case['cmds'], 'caller-hangs', lambda: '%d calls returned' % len(results))
            reader = [t.name for t in s.tasks[1:] if not t.done]
            rec.expect(not reader, 'thread-left', lambda: 'threads still running after the failure: %r' % reader)
            if case['closeafter']:
                rec.count('closes')
                try: conn.close()
                except Exception as e: rec.violation('close-raised', 'closing after a failure raised %s: %s' % (type(e).__name__, e))
                rec.expect(not line.port.is_open, 'port-open', 'port still open after close()')
                if not case['nofatal']: rec.expect(len(fatal) == 1, 'fatal-handler-calls', lambda: 'close() after a failure: handler called %d times' % len(fatal))
            return
        if kind == 'write':
            for t in ts: t.join()
            failed = 0
            for c, r, e, t0, t1 in results:
                if e is None: rec.expect([x for x in r if not x.startswith('*URC')] == [c[2:], 'OK'], 'response', lambda: '%s returned %r' % (c, r)); continue
                failed += 1
                rec.count('write_faults')
                want = serial.SerialException if case['werr'] == 'err' else serial.SerialTimeoutException
                rec.expect(isinstance(e, want), 'write-error', lambda: '%s raised %s: %s' % (c, type(e).__name__, e))
            rec.eq(failed, len(case['wfault']), 'write-error-count', 'calls that raised')
            rec.expect(conn.alive and not fatal, 'write-error-fatal', lambda: 'alive=%s, fatal handler calls %r' % (conn.alive, fatal))
            # later traffic works: notification, then command
            simcase.detsched.vsleep(1.2)
            n0 = len(notes)
            line.deliver(b'\r\nLATER\r\nLATER2\r\n')
            simcase.detsched.vsleep(1.2)
            rec.eq([l for _, ls in notes[n0:] for l in ls], ['LATER', 'LATER2'], 'traffic-after-write-error', 'notification after a failed write')
            rec.expect(n0 == 0, 'response-line-as-notification', lambda: repr(notes))
            try: r = wr('AT+LATER', timeout=5); rec.count('writes_after_fault')
            except Exception as e: rec.violation('traffic-after-write-error', 'command after a failed write raised %s: %s' % (type(e).__name__, e))
            else: rec.eq(list(r), ['+LATER', 'OK'], 'traffic-after-write-error', 'response after a failed write')
        else:
            simcase.detsched.vsleep(case['fault_at'])
            if case['after']:
                for t in ts: t.join()
            elif ts:
                for t in ts: t.join() # close() is only called when no command is waiting
            line.deliver(case['frag'].encode())
        rec.count('closes')
        t0 = s.now
        try: conn.close()
        except Exception as e: rec.violation('close-raised', '%s: %s' % (type(e).__name__, e)); return
        rec.expect(s.now - t0 <= 2.5, 'close-hangs', lambda: 'close() took %.2f s' % (s.now - t0))
        rec.expect(not line.port.is_open and line.closed >= 1, 'port-open', 'port still open after close()')
        rec.expect(not conn.alive, 'alive-after-close', 'alive is still set after close()')
        left = [t.name for t in s.tasks[1:] if not t.done]
        rec.expect(not left, 'thread-left', lambda: 'threads still running after close(): %r' % left)
        nn = len(notes)
        simcase.detsched.vsleep(2)
        rec.expect(not fatal, 'close-reported-as-error', lambda: '%r' % fatal)
        rec.expect(len(notes) == nn, 'notification-after-close', lambda: '%r' % notes[nn:])
    ok, s = simcase.run(rec, case['sched'], main)
    rec.key(kind, round(case['fault_at'], 1), case['cmds'], case['delay'], len(case['urcs']), s.sig)
