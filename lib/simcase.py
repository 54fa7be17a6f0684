# -*- coding: utf-8 -*-
""" Runs one scenario of the code under test in the controlled scheduler """
import random, sys
import common, detsched, fakeserial

_patched = False
def setup():
    """ substitutes primitives and serial port, then imports the code under test """
    global _patched, serial_comms, modem, exceptions, pdu, util
    if _patched: return
    _patched = True
    import warnings; warnings.simplefilter('ignore')
    detsched.patch(); fakeserial.install()
    common.import_repo()
    from gsmmodem import serial_comms, modem, exceptions, pdu, util

class Debugging(object):
    """ debugging output of the code under test is switched on: every record must be well-formed """
    handler = None
    def __init__(self, rec): self.rec, self.n, self.on = rec, 0, False
    def record(self, r):
        self.n += 1
        try: r.getMessage()
        except Exception as e: self.rec.violation('log-record', '%s:%d: %r %% %r: %s' % (r.pathname.split('/')[-1], r.lineno, r.msg, r.args, e))
    def start(self):
        import logging
        if self.on: return
        self.on = True
        if Debugging.handler is None: Debugging.handler = logging.Handler() # (one for all cases)
        Debugging.handler.emit = self.record
        logging.disable(logging.NOTSET)
        root = logging.getLogger()
        self.old = root.level
        root.addHandler(Debugging.handler); root.setLevel(logging.DEBUG)
    def stop(self):
        import logging
        logging.disable(logging.CRITICAL)
        if not self.on: return
        root = logging.getLogger()
        root.removeHandler(Debugging.handler); root.setLevel(self.old)
        Debugging.handler.emit = None; Debugging.handler.lock._at_fork_reinit()
        self.rec.count('log_records', self.n)

MODES = [ # (p_switch, p_op, opcodes, p_lag)
    (.1, 0, False, 0), (.5, 0, False, .05), (.3, .005, False, .05), (.3, .03, False, .1), (.5, .2, False, .1), (.3, .01, True, .1), (.3, .08, True, .05)]
def sched_params(rng):
    seed = rng.getrandbits(48)
    return {'seed': seed, 'mode': rng.randrange(len(MODES)), 'freeze': [0, 0, .02, .15, .15][seed % 5]}

def run(rec, params, main, max_steps=400000, ignore_uncaught=()):
    """ main(sched) runs as the main thread. Uncaught exceptions in other threads of the code under test are violations. Returns (completed, sched) """
    p = MODES[params['mode']]
    s = detsched.Sched(random.Random(params['seed']), p[0], p[1], p[2], p[3], trace_prefixes=(common.REPO + '/gsmmodem/', common.REPO + '/tools/'), max_steps=max_steps)
    s.p_freeze = params.get('freeze', 0)
    fakeserial.PORTS.clear()
    ok = False
    try:
        s.run(lambda: main(s))
        ok = True
    except detsched.Deadlock as e:
        rec.violation('stuck', 'no thread can make progress: %s' % e)
    rec.count('executions'); rec.count('context_switches', s.switches); rec.count('preemptions', s.preemptions); rec.count('held_back', s.holds)
    rec.count('virtual_seconds', int(s.now))
    for name, e, tb in s.uncaught:
        if not isinstance(e, tuple(ignore_uncaught)):
            rec.violation('thread-died', 'uncaught %s in thread %s: %s\n%s' % (type(e).__name__, name, e, tb))
    if s.leftover:
        rec.violation('thread-survived', 'threads could not be ended: %r' % s.leftover)
        rec.poisoned = True
    return ok, s

class ScriptDevice(object):
    """ Answers each command with its scripted sequence of (delay, bytes); unsolicited sends with .send() """
    def __init__(self, sched):
        self.sched, self.rxbuf, self.script = sched, bytearray(), {}
        self.line = fakeserial.Line(self)
        self.commands = []      # (time, command, terminator)
        self.busy = None        # the command being answered
        self.answered = {}      # command -> time of its last byte
        self.overlaps = []
        self.default = None
        self.terms = b'\r\x1a'
    def rx(self, data):
        for b in bytes(data):
            self.rxbuf.append(b)
            if b in self.terms:
                cmd = bytes(self.rxbuf[:-1]); del self.rxbuf[:]
                self.command(cmd, b)
    def command(self, cmd, term):
        cmd = cmd.decode('latin-1')
        self.commands.append((self.sched.now, cmd, term))
        if self.busy is not None: self.overlaps.append((self.busy, cmd))
        steps = self.script.get(cmd)
        if steps is None: steps = self.default
        if not steps: return
        if callable(steps): return steps(cmd)
        if any(x[1] is not None for x in steps): self.busy = cmd
        t = 0
        for n, (delay, data) in enumerate(steps):
            t += delay
            last = n == len(steps) - 1
            self.sched.at(t, lambda data=data, last=last: self._step(cmd, data, last))
    def _step(self, cmd, data, last):
        if data: self.line.deliver(data)
        if last:
            self.answered[cmd] = self.sched.now
            if self.busy == cmd: self.busy = None
    def send(self, delay, data):
        self.sched.at(delay, lambda: self.line.deliver(data))

def chunks(rng, data, spread, pieces=None):
    """ cuts bytes into steps [delay, latin-1 text] (JSON-able) """
    if not data: return []
    k = pieces if pieces is not None else rng.choice([1, 1, 1, 2, 3, 6])
    cuts = sorted(rng.randrange(len(data) + 1) for _ in range(k - 1))
    out, p = [], 0
    for c in cuts + [len(data)]:
        if c > p:
            out.append([round(rng.uniform(0, spread), 4) if rng.random() < .7 else 0, data[p:c]]); p = c
    return out
def steps(l): return [(d, b.encode('latin-1') if b is not None else None) for d, b in l]

HOSTILE = ['OKAY', 'OK ', ' OK', 'ok', 'OK+', 'OK, done', 'ERROR 5', 'ERRORS', 'ERROR: x', 'NO ERROR', '+CME ERROR: x', '+CME ERROR', '+CME ERROR: 5 ', 'x+CMS ERROR: 5', '+CMS ERROR: 12a', '+CME ERROR: ', '+CMS ERROR:', 'COMMAND NOT SUPPORTED', 'COMMAND NOT SUPPORT X',
           'NOT OK', '"OK"', 'OK\x00', 'CONNECT', 'BUSY', 'NO CARRIER', '+CXX: OK', 'x', '  ', '\t', '0', '\x7f\xff\xe9', 'RINGS', '\r', 'a\nOK', 'OK\nb', 'a\rOK']
def line(rng, uid, hostile=.4):
    r = rng.random()
    if r < hostile: return rng.choice(HOSTILE)
    if r < .6: return '+R: %s' % uid
    return '+R: %s,%s' % (uid, ''.join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(32, 127), rng.randrange(128, 256)])) for _ in range(rng.randint(0, 30))))
FINALS = ['OK', 'OK', 'OK', 'ERROR', '+CME ERROR: 3', '+CMS ERROR: 500', '+CME ERROR: 0', 'COMMAND NOT SUPPORT']
def frame(rng, lines):
    """ lines as a modem would frame them: <CR><LF>line<CR><LF>, or without the leading pair """
    style = rng.random()
    return ''.join(('\r\n' if style < .6 or (style < .8 and rng.random() < .5) else '') + l + '\r\n' for l in lines)
