# -*- coding: utf-8 -*-
import os, sys, pty, tty, termios, time, heapq, select, subprocess, re, signal, random, fcntl
import common, gen, modemsim, smsgen, spec_pdu as sp
ID = 'C27'
QUICK, THOROUGH = 24, 1500
CPU_BUDGET = 60
BATCH = 12
RULE = ('batches of 12 simultaneous runs of the real programs (sendsms.py, identify-modem.py, gsmterm.py) in their own processes on pseudo terminals, each against its own simulated modem of any family in real time: any destination and text, delivery reports (positive, negative, none), PIN states, coverage states, '
        'refused and unanswered messages, device information, typed commands. Bytes at the port, output and exit status are judged. A run that looks wrong is repeated alone twice and counts only if it is wrong every time. Distinct by (program, scenario, modem family, arguments).')
ASSUMPTIONS = ['a modem that answers does so at once, one that does not never does', 'text is typed as UTF-8', 'verdicts do not depend on durations below a minute']
FLOORS = {'runs': 1100, 'sent': 250, 'delivered': 20, 'undelivered': 10, 'identified': 150, 'pin_runs': 80, 'no_coverage': 20, 'refused': 15, 'terminal_commands': 80, 'debug': 20}
def setup():
    global ENV
    ENV = dict(os.environ, PYTHONPATH=common.REPO, LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore', PYTHONUNBUFFERED='1')

PROFS = ['generic', 'generic-clac', 'huawei', 'huawei-ussd', 'wavecom', 'wavecom-clac', 'zte', 'qualcomm']
def gen_case(rng, i, tier):
    runs = []
    for k in range(BATCH):
        r = {'cfg': {'profile': rng.choice(PROFS), 'seed': rng.getrandbits(32), 'framing': rng.choice([0, 0, 1]), 'chunky': rng.random() < .2, 'imei': gen.digits(rng, 15, 15), 'imsi': gen.digits(rng, 15, 15), 'model': rng.choice(['E220', 'MG 30', 'Model "X"', 'K3-Z']), 'revision': rng.choice(['11.1', 'R7.4a', None, 'BD_3GHAP 01']),
                     'operator': rng.choice(['voda ZA', 'T-Mobile', 'A, B & C', None]), 'csq': [rng.choice([1, 18, 31])], 'creg': [rng.choice([1, 5])]}, 'prog': rng.choice(['send'] * 5 + ['identify'] * 3 + ['term']), 'baud': rng.choice([None, None, '9600', '19200', '57600'])}
        pin = rng.random()
        r['pin'] = 'none' if pin < .7 else rng.choice(['ok', 'ok', 'missing', 'wrong', 'needless'])
        if r['prog'] == 'send':
            r['to'] = rng.choice(['+', '+', '', '']) + gen.digits(rng, 3, 15)
            t = rng.random()
            r['text'] = 'hello %d' % k if t < .3 else gen.gsm_text(rng, rng.choice([1, 20, 160])) if t < .55 else gen.gsm_text(rng, rng.choice([161, 320, 500])) if t < .7 else gen.ucs_text(rng, rng.choice([1, 20, 70])) if t < .9 else gen.ucs_text(rng, 150)
            r['text'] = re.sub('[\r\n\x0b\x0c\x1c-\x1e\x85\u2028\u2029\x00]', ' ', r['text']) or 'x'
            try: r['text'].encode('utf-8')
            except UnicodeEncodeError: r['text'] = 'surrogate'
            r['deliver'] = rng.random() < .45
            r['report'] = rng.choice([0, 0, 0, 0x46, 0x60]) if r['deliver'] else None
            r['what'] = rng.choice(['ok'] * 14 + ['refused', 'refused', 'body-refused', 'no-coverage', 'no-registration', 'denied', 'late-coverage'])
        elif r['prog'] == 'identify': r['debug'] = rng.random() < .25
        else: r['cmds'] = [rng.choice(['AT+CGSN', 'AT+CIMI', 'AT+CGMM', 'AT+CSQ', 'AT']) for _ in range(rng.randint(1, 3))]; r['pin'] = 'none'; r['raw'] = rng.random() < .3; r['sms'] = not r['raw'] and rng.random() < .5
        runs.append(r)
    slow = rng.choice(['no-report', 'no-prompt', 'silent-body', None])
    if slow:
        r = runs[0]
        r.update(prog='send', to='+2782' + gen.digits(rng, 3, 6), text='slow', deliver=slow == 'no-report', report=None, what=slow, pin='none')
    if rng.random() < .5: runs[-1] = {'prog': 'send', 'noport': True, 'to': '123', 'text': '', 'cfg': {'profile': 'generic'}, 'pin': 'none', 'baud': None, 'deliver': False, 'report': None, 'what': 'ok'}
    return {'runs': runs}

class Loop(object):
    """ real time for several modems: timers and file descriptors of one thread """
    def __init__(self): self.heap, self.n, self.fds = [], 0, {}
    def at(self, d, fn): self.n += 1; heapq.heappush(self.heap, (time.monotonic() + max(0, d), self.n, fn))
    def step(self, limit):
        now = time.monotonic()
        while self.heap and self.heap[0][0] <= now: heapq.heappop(self.heap)[2]()
        t = min(limit, max(0, self.heap[0][0] - time.monotonic())) if self.heap else limit
        if not self.fds: time.sleep(min(t, .02)); return
        for fd in select.select(list(self.fds), [], [], min(t, .05))[0]:
            try: d = os.read(fd, 65536)
            except OSError: d = b''
            if fd in self.fds: self.fds[fd](d)

class Run(object):
    """ one program in its process, with its modem """
    def __init__(self, loop, r):
        self.r, self.loop = r, loop
        self.out, self.err, self.code, self.closed = b'', b'', None, 0
        self.rx, self.speed = b'', None
        self.master, self.slave = pty.openpty()
        tty.setraw(self.slave)
        name = os.ttyname(self.slave)
        cfg = dict(r['cfg'])
        if r['pin'] in ('ok', 'missing', 'wrong'): cfg['pin_state'] = 'SIM PIN'
        w = r.get('what')
        if w == 'no-coverage': cfg['csq'] = [0]
        if w == 'no-registration': cfg['creg'] = [2]
        if w == 'denied': cfg['creg'] = [r['cfg']['seed'] & 1 and 3]
        if w == 'late-coverage': cfg['csq'] = [0, 0, 15]; cfg['creg'] = [2, 1]
        if r['prog'] == 'term': cfg['echo'] = False
        def tx(d):
            try: os.write(self.master, d)
            except OSError: pass
        m = self.m = modemsim.Modem(cfg, loop.at, tx, time.monotonic)
        if w == 'refused': m.cmgs_plan = [{'kind': 'refuse', 'error': '+CMS ERROR: 500'}]
        elif w == 'body-refused': m.cmgs_plan = [{'kind': 'body-error', 'error': '+CMS ERROR: 38'}]
        elif w == 'no-prompt': m.cmgs_plan = [{'kind': 'no-prompt', 'for': 999}]
        elif w == 'silent-body': m.cmgs_plan = [{'kind': 'body-silent', 'for': 999}]
        if r.get('report') is not None: m.on_submit = self.on_submit
        loop.fds[self.master] = self.serial
        args = []
        port = [] if r.get('noport') else [name]
        pin = {'ok': ['-p', '1234'], 'wrong': ['-p', '9999'], 'needless': ['-p', '1234']}.get(r['pin'], [])
        baud = ['-b', r['baud']] if r['baud'] else []
        if r['prog'] == 'send':
            args = ['sendsms.py'] + (['-i'] + port if port else []) + pin + baud + (['-d'] if r['deliver'] else []) + ['--', r['to']]
        elif r['prog'] == 'identify': args = ['identify-modem.py'] + port + pin + baud + (['-d'] if r['debug'] else [])
        else: args = ['gsmterm.py'] + port + baud + (['-r'] if r['raw'] else [])
        args[0] = os.path.join(common.REPO, 'tools', args[0])
        self.typed = None
        if r['prog'] == 'term':
            self.con, cs = pty.openpty()
            stdin = stdout = stderr = cs
        else:
            ir, self.inp = os.pipe(); self.po, ow = os.pipe(); self.pe, ew = os.pipe()
            stdin, stdout, stderr = ir, ow, ew
        self.p = subprocess.Popen([sys.executable, '-B'] + args, stdin=stdin, stdout=stdout, stderr=stderr, env=ENV, cwd='/', start_new_session=True)
        if r['prog'] == 'term':
            os.close(cs); loop.fds[self.con] = self.stdout; self.keys = []
            self.script()
        else:
            for f in (ir, ow, ew): os.close(f)
            loop.fds[self.po] = self.stdout; loop.fds[self.pe] = self.stderr
            os.write(self.inp, (r.get('text', '') + '\n').encode('utf-8')); os.close(self.inp)
        self.t0 = time.monotonic()
    def on_submit(self, rec_):
        r, m = self.r, self.m
        n = len(m.submitted)
        try: ies = sp.parse_submit(bytes.fromhex(rec_['body']))['ies']
        except (sp.SpecError, ValueError): return
        if ies and ies[0][1][-1] != ies[0][1][-2]: return # only the last part is reported
        mem = m.c['mems'][-1]
        def go():
            i = m.store(mem, modemsim.report(r['to'], rec_['mr'], [2024, 1, 2, 3, 4, 5, 0], [2024, 1, 2, 3, 4, 9, 0], r['report'])); m.urc('+CDSI: "%s",%d' % (mem, i))
        m.at(.3, go)
    def serial(self, d):
        if not self.rx: self.speed = termios.tcgetattr(self.slave)[4:6]
        self.rx += d
        self.m.rx(d)
    def stdout(self, d):
        if not d: self.loop.fds.pop(self.con if self.r['prog'] == 'term' else self.po, None)
        self.out += d
    def stderr(self, d):
        if not d: self.loop.fds.pop(self.pe, None)
        self.err += d
    # ---- gsmterm: types the commands one after another, each when the previous one has been answered
    def script(self):
        r = self.r
        steps = [c + '\n' for c in r['cmds']]
        if r['sms']: self.m.mode_text = True; steps += ['AT+CMGS="+2782123"\n', 'see you', '\x1a']
        self.want = list(steps)
        def wait_ready():
            if b'exit' in self.out: self.loop.at(.5, nxt)
            elif time.monotonic() - self.t0 < 40: self.loop.at(.05, wait_ready)
        def nxt():
            if not steps:
                try: os.write(self.con, b'\x1d')
                except OSError: pass
                return
            n = len(self.m.log)
            k = steps.pop(0)
            os.write(self.con, k.encode())
            t = time.monotonic()
            def answered():
                if (k[-1] not in '\n\x1a' or len(self.m.log) > n) and (self.m.idle or self.m.prompting) and time.monotonic() - t > .3: self.loop.at(.2, nxt)
                elif time.monotonic() - t < 10: self.loop.at(.05, answered)
                else: nxt()
            answered()
        self.loop.at(.1, wait_ready)
    def finished(self):
        if self.code is None: self.code = self.p.poll()
        if self.code is None: return False
        return not (self.r['prog'] != 'term' and (self.po in self.loop.fds or self.pe in self.loop.fds))
    def end(self):
        if self.p.poll() is None:
            os.killpg(self.p.pid, signal.SIGKILL); self.p.wait()
        for fd in [self.master, self.slave] + ([self.con] if self.r['prog'] == 'term' else [self.po, self.pe]):
            self.loop.fds.pop(fd, None)
            try: os.close(fd)
            except OSError: pass

def execute(runs, rec):
    loop = Loop()
    active = [Run(loop, r) for r in runs]
    t0 = time.monotonic()
    while not all(a.finished() for a in active) and time.monotonic() - t0 < 75: loop.step(.1)
    time.sleep(.02)
    for _ in range(3): loop.step(.01)
    for a in active: a.end()
    return active

def judge(a, rec):
    """ violations of one run """
    r, m = a.r, a.m
    out, err = a.out.decode('utf-8', 'replace'), a.err.decode('utf-8', 'replace')
    bad = []
    def need(c, mech, text):
        rec.count('oracle_evaluations')
        if not c: bad.append((mech, text))
    ctx = lambda: 'exit status %r, stdout %r, stderr %r' % (a.code, out[-300:], err[-300:])
    if a.code is None: need(False, 'not-ended', 'the program did not end: %s; commands %r' % (ctx(), [x for _, k, x in m.log if k == 'cmd'][-4:])); return bad
    what = r.get('what')
    if not r.get('noport'): need(a.speed is None or a.speed == [getattr(termios, 'B' + (r['baud'] or '115200'))] * 2, 'baud-rate', 'port speed %r, asked for %s' % (a.speed, r['baud']))
    if r.get('noport'): need(a.code not in (0, None) and 'No port specified' in err, 'no-port', ctx()); return bad
    pinned = [p for _, p, _ in m.pins]
    if r['pin'] == 'missing':
        need(a.code != 0 and 'PIN required' in err and not pinned, 'pin-missing', '%s; PINs %r' % (ctx(), pinned)); need(not m.submitted, 'sent-without-pin', ctx()); return bad
    if r['pin'] == 'wrong':
        need(a.code != 0 and 'Incorrect' in err and pinned == ['9999'], 'pin-wrong', '%s; PINs %r' % (ctx(), pinned)); need(not m.submitted, 'sent-without-pin', ctx()); return bad
    need(pinned == (['1234'] if r['pin'] == 'ok' else []), 'pin', 'PINs sent: %r; %s' % (pinned, ctx()))
    need(not m.faults, 'protocol', '%r' % m.faults[:3])
    if r['prog'] == 'send':
        if what in ('no-coverage', 'no-registration'):
            need(a.code != 0 and 'signal strength is not sufficient' in out and not m.cmgs_log, 'no-coverage', ctx()); return bad
        if what == 'denied': need(a.code != 0 and 'Message sent' not in out and not m.cmgs_log, 'denied', ctx()); return bad
        if what in ('refused', 'body-refused'):
            need(a.code != 0 and 'Message sent' not in out and ('500' if what == 'refused' else '38') in err + out, 'refused', ctx())
            need(what == 'body-refused' or not m.submitted, 'refused', 'a message was submitted'); return bad
        if what in ('no-report', 'no-prompt', 'silent-body'):
            need(a.code != 0 and 'Failed to send message: the send operation timed out' in out, 'timed-out', '%s: %s' % (what, ctx()))
            need(len(m.submitted) == (0 if what == 'no-prompt' else 1), 'submitted', '%s: %r' % (what, m.submitted)); return bad
        text, tos, parts = '', set(), []
        for s in m.submitted:
            try: d = sp.parse_submit(bytes.fromhex(s['body'])); text += d['text']; tos.add(d['da'].display()); parts.append(d['ies'][0][1][-1] if d['ies'] else 1)
            except (sp.SpecError, ValueError) as e: need(False, 'submitted', 'modem got %r: %s' % (s['body'], e)); return bad
        need(text == r['text'] and tos == {r['to']} and parts == list(range(1, len(parts) + 1)), 'submitted', 'modem got %r to %r (parts %r), typed: %r to %r; %s' % (text, tos, parts, r['text'], r['to'], ctx()))
        if r['deliver']: want = 'Message sent and delivered OK.' if r['report'] == 0 else 'Message sent, but delivery failed.'
        else: want = 'Message sent.'
        need(a.code == 0 and out.rstrip().endswith(want), 'outcome', 'expected %r; %s' % (want, ctx()))
    elif r['prog'] == 'identify':
        need(a.code == 0, 'identify', ctx())
        c = m.c
        lines = out.splitlines()
        if not r['debug']:
            val = {l.split(':', 1)[0]: l.split(':', 1)[1].strip() for l in lines if ':' in l}
            for k, w in [('Manufacturer', c['manufacturer'].strip()), ('Model', c['model']), ('Revision', c['revision'] or 'N/A'), ('IMEI', c['imei']), ('IMSI', c['imsi']), ('Network', str(c['operator'])), ('Signal strength', str(c['csq'][0]))]:
                need(val.get(k) == w, 'identify', '%s is shown as %r, the modem says %r; %s' % (k, val.get(k), w, ctx()))
        else:
            need('MODEM DEBUG INFORMATION' in out, 'debug', ctx())
            for k, w in [('AT+CGMI', c['manufacturer']), ('AT+CGMM', c['model'])] + ([('AT+CGMR', c['revision'])] if c['revision'] else []) + [('AT+CPIN?', 'READY')]:
                need(any(l.startswith(k) and repr(w).strip('\'"').split('"')[0].strip() in l for l in lines), 'debug', '%s does not show %r: %r' % (k, w, [l for l in lines if l.startswith(k)]))
    else:
        cmds = a.rx.decode('latin-1')
        want = ''.join(x.replace('\n', '\r') for x in a.want)
        need(cmds == want, 'terminal-bytes', 'modem got %r, typed %r; %s' % (cmds, want, ctx()))
        need(a.code == 0, 'terminal-exit', ctx())
        for x in a.want:
            ans = {'AT+CGSN\n': m.c['imei'], 'AT+CIMI\n': m.c['imsi'], 'AT+CGMM\n': m.c['model']}.get(x)
            if ans: need(ans in out, 'terminal-answer', 'answer %r to %r is not shown: %s' % (ans, x, ctx()))
        if r['sms']: need([s['body'] for s in m.submitted] == ['see you'], 'terminal-sms', 'modem got %r' % m.submitted)
    return bad

def run(case, rec):
    active = execute(case['runs'], rec)
    for a in active:
        r = a.r
        bad = judge(a, rec)
        n = 0
        while bad and n < 2:
            n += 1; rec.count('repeated')
            bad = judge(execute([r], rec)[0], rec)
        for mech, text in bad: rec.violation(mech, '%s: %s' % ({k: v for k, v in r.items() if k != 'cfg'}, text))
        rec.count('runs')
        if r['pin'] != 'none': rec.count('pin_runs')
        if r['prog'] == 'send' and not r.get('noport') and r['pin'] not in ('missing', 'wrong'):
            w = r['what']
            rec.count({'ok': 'sent', 'late-coverage': 'sent', 'no-coverage': 'no_coverage', 'no-registration': 'no_coverage', 'denied': 'no_coverage', 'refused': 'refused', 'body-refused': 'refused'}.get(w, 'timed_out'))
            if r['deliver'] and w in ('ok', 'late-coverage'): rec.count('delivered' if r['report'] == 0 else 'undelivered')
        if r['prog'] == 'identify' and r['pin'] not in ('missing', 'wrong'): rec.count('identified'); rec.count('debug', int(r['debug']))
        if r['prog'] == 'term': rec.count('terminal_commands', len(a.want))
        rec.count('bytes_from_program', len(a.rx))
        rec.case_keys.add(repr((r['prog'], r.get('what'), r['cfg']['profile'], r['pin'], r.get('to'), r.get('text'), r.get('cmds'))))
