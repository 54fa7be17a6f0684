# -*- coding: utf-8 -*-
import sys, os, re, threading, copy
import common, simcase, modemsim, detsched
ID = 'C26'
QUICK, THOROUGH = 1300, 120000
CPU_BUDGET = 30
RULE = ('sequences of up to several hundred keys (printable characters, cursor keys, home/end, backspace, delete, history, completion, help, listings, script loading, unknown function keys, non-ASCII characters, pasted text, SMS entry with submission and cancellation) in the real terminal on a pseudo terminal, '
        'against a simulated modem with and without echo that prompts, refuses or stays silent, with notifications in between. A plain line editor model predicts the shown line, the cursor and the bytes at the port after every step. Distinct by key sequence and schedule hash.')
ASSUMPTIONS = ['the screen is wide enough for the line', 'the shown line is compared when output has settled', 'a command is confirmed when the modem has answered the previous one', 'completion may change the case of the line and strip surrounding white space',
               'characters other than printable ASCII are not part of the line', 'Enter in SMS entry passes on the text left of the cursor; history keys recall the neighbouring entry']
FLOORS = {'keys': 3000, 'lines_compared': 700, 'commands': 250, 'completions': 60, 'sms_submitted': 12, 'sms_cancelled': 5, 'sms_refused': 4, 'history': 100, 'mid_line_edits': 150, 'help': 40, 'notifications': 30, 'raw_keys': 100, 'pasted': 20, 'loads': 3}
SHARED = {}
def setup():
    simcase.setup()
    master, slave = os.openpty()
    os.dup2(slave, 0)
    os.set_blocking(master, True)
    SHARED['master'] = master
    from gsmtermlib import terminal
    from gsmtermlib.atcommands import ATCOMMANDS, CATEGORIES
    SHARED.update(terminal=terminal, names=sorted({c for c, _ in ATCOMMANDS}), cats=list(CATEGORIES))
    class Os(object):
        """ os, with read() from the console blocking in virtual time """
        def __getattr__(self, n): return getattr(os, n)
        def read(self, fd, n):
            feed = SHARED.get('feed')
            if feed is None or fd != terminal.console.fd: return os.read(fd, n)
            return feed.read(fd, n)
    terminal.os = Os()

class Feed(object):
    """ the keyboard: bytes written to the pseudo terminal, and how many of them have not been read """
    def __init__(self, s): self.s, self.pending, self.blocked = s, 0, False
    def type(self, data):
        os.write(SHARED['master'], data); self.pending += len(data)
    def read(self, fd, n):
        self.blocked = True
        self.s.block(lambda: self.pending > 0)
        self.blocked = False
        d = os.read(fd, n); self.pending -= len(d)
        return d

class Screen(object):
    """ a wide terminal: keeps the current line and the cursor, and the lines above """
    encoding = 'utf-8'
    def __init__(self): self.line, self.col, self.above, self.odd, self.esc = [], 0, [], [], ''
    def write(self, text):
        for ch in text:
            if self.esc:
                self.esc += ch
                if len(self.esc) == 2 and ch == '[': continue
                if '@' <= ch <= '~':
                    m = re.match(r'\x1b\[([\d;]*)([A-Za-z~])$', self.esc)
                    n = int(m.group(1) or 1) if m and m.group(1).isdigit() or m and not m.group(1) else 1
                    if m and m.group(2) == 'D': self.col = max(0, self.col - n)
                    elif m and m.group(2) == 'C': self.col += n
                    elif m and m.group(2) == 'K': del self.line[self.col:]
                    elif m and m.group(2) == 'm': pass
                    else: self.odd.append(self.esc)
                    self.esc = ''
                continue
            if ch == '\x1b': self.esc = ch
            elif ch == '\r': self.col = 0
            elif ch == '\n': self.above.append(''.join(self.line)); self.line, self.col = [], 0; del self.above[:-200]
            elif ch == '\b': self.col = max(0, self.col - 1)
            else:
                while len(self.line) < self.col: self.line.append(' ')
                self.line[self.col:self.col + 1] = [ch]; self.col += 1
        return len(text)
    def flush(self): pass
    def isatty(self): return True
    def fileno(self): return 1

# ---------------------------------------------------------------------------------------------- generator
UP, DOWN, LEFT, RIGHT, DEL, HOME, END = '\x1b[A', '\x1b[B', '\x1b[D', '\x1b[C', '\x1b[3~', '\x1bOH', '\x1bOF'
BS, CZ, ESC, ENTER, TAB = '\x7f', '\x1a', '\x1b', '\n', '\t'
CMDS = ['AT', 'ATI', 'AT+CSQ', 'AT+CREG?', 'AT+CGMI', 'AT+CPIN?', 'AT+CUSD=1,"*100#",15', 'ATD123;', 'AT+CMGF=1', 'AT+CPMS?', 'at+csq', ' AT+CIMI ', 'hello modem', 'AT+CLCC', 'AT+X="a  b"', 'zz', '1']
IGNORED = ['\x1b[15~', '\x1b[5~', '\x1b[6~', '\x1bOP', '\x1b[24~', '\x01', '\x03', '\x00', '\x1c', '\x0b', '\x0c', '\x1b[1;5C']
UNI = ['\xe9', '\u20ac', '\u3000', '\xa0', '\U0001f600', '\u2028', '\x85']
def ident(rng, c):
    return c if rng.random() < .7 else c.lower()
def gen_case(rng, i, tier):
    raw = rng.random() < .08
    steps = []
    def k(*keys, **kw): steps.append(dict({'k': list(keys)}, **kw))
    def edits(n, text):
        for _ in range(n):
            r = rng.random()
            if r < .35: k(LEFT)
            elif r < .45: k(RIGHT)
            elif r < .53: k(BS)
            elif r < .6: k(DEL)
            elif r < .66: k(HOME)
            elif r < .72: k(END)
            elif r < .78: k(rng.choice(IGNORED))
            elif r < .8: k(rng.choice(UNI))
            else: k(rng.choice(text))
    def typed(t):
        if rng.random() < .15: k(*list(t), paste=True)
        else:
            for c in t: k(c)
    ASCII = ''.join(chr(c) for c in range(32, 127))
    if raw:
        for _ in range(rng.randint(5, 60)): k(rng.choice([rng.choice(ASCII), rng.choice(ASCII), ENTER, TAB, UP, LEFT, ESC, CZ, BS, rng.choice(UNI), rng.choice(IGNORED)]))
        for st in steps:
            if rng.random() < .1: st['paste'] = True
    names = None
    for _ in range(0 if raw else rng.choice([2, 5, 10, 25])):
        r = rng.random()
        if r < .3:
            typed(rng.choice(CMDS)); edits(rng.choice([0, 0, 1, 4, 12]), ASCII); k(ENTER)
        elif r < .4:
            for _ in range(rng.randint(1, 8)): k(rng.choice([UP, UP, UP, DOWN]))
            edits(rng.choice([0, 0, 2, 6]), ASCII)
            if rng.random() < .7: k(ENTER)
        elif r < .55:
            steps.append({'prefix': [rng.random(), rng.random()], 'lower': rng.random() < .3, 'k': [], 'pad': rng.choice([0, 0, 0, 0, 1, 3, 12]), 'eq': rng.random() < .15})
            edits(rng.choice([0, 0, 0, 2]), ASCII)
            for _ in range(rng.choice([1, 1, 2, 3])): k(TAB)
            if rng.random() < .3: typed(rng.choice(['Q', '=', '=1', 'x', 'MG'])); k(TAB)
            edits(rng.choice([0, 0, 3]), ASCII)
            if rng.random() < .5: k(ENTER)
            elif rng.random() < .5:
                k(END); [k(BS) for _ in range(rng.choice([2, 30]))]
        elif r < .75:
            # SMS entry
            mode = rng.choice(['ok'] * 5 + ['refuse', 'refuse', 'no-prompt'])
            typed(rng.choice(['AT+CMGS="+2782%d"' % rng.randrange(1000), 'AT+CMGS="123"', ' AT+CMGS="0821"', 'AT+CMGS="5",129', 'AT+CMGS=23', 'at+cmgs="1"', 'AT+CMGS=']))
            k(ENTER, cmgs=mode)
            for _ in range(rng.choice([1, 1, 2])):
                t = ''.join(rng.choice(ASCII) for _ in range(rng.choice([0, 3, 20]))) if rng.random() < .6 else rng.choice(['at', 'AT+CM', 'help', 'ls', 'load x', 'OK', '?AT', 'see you??', '0011000B91'])
                typed(t); edits(rng.choice([0, 0, 1, 5, 12]), ASCII)
                if rng.random() < .15: k(TAB)
                if rng.random() < .1: k(UP)
                if rng.random() < .25: k(ENTER)
            r2 = rng.random()
            k(CZ if r2 < .65 else ESC if r2 < .95 else ENTER)
        elif r < .88:
            c = {'cmd': rng.random(), 'k': [], 'form': rng.choice(['?%s', '%s??', '%s=??', 'help %s', 'HELP %s', 'help  %s '])}
            if rng.random() < .3: c = {'text': rng.choice(['help', 'ls', 'LS', 'lscat', '?', '??', 'help nothing', '?nothing', 'ls nothing', 'help ?', '???', '=??', 'load /nonexistent/file', 'load', 'load  ', 'load .', 'load /', 'a??', 'ls  sms', 'ls CAT']), 'k': []}
            steps.append(c); k(ENTER)
        elif r < .92:
            c = {'load': [rng.choice(CMDS + ['# comment', '', '   ', 'AT+CSQ', 'help', '?AT+CSQ']) for _ in range(rng.randint(0, 5))], 'binary': rng.random() < .25, 'k': []}
            steps.append(c); k(ENTER)
        else: edits(rng.choice([3, 20, 60]), ASCII + 'AT+' * 5)
    if not raw and rng.random() < .04:
        for n in range(105): steps.append({'k': list('%d' % n) + [ENTER], 'paste': True})
        for _ in range(rng.choice([3, 110])): k(UP)
        k(ENTER)
    if rng.random() < .8 and steps:
        for _ in range(rng.choice([0, 1, 2, 4])): steps[rng.randrange(len(steps))]['urc'] = rng.choice([['+CMTI: "SM",%d' % rng.randrange(9)], ['RING'], ['ERROR'], ['^RSSI:12'], ['+CREG: 1', '+XX: "a"'], ['Some text > ']])
    return {'raw': raw, 'color': rng.random() < .5, 'steps': steps, 'exit': rng.choice(['\x1d', '\x04', '\x1d']) if not raw else '\x1d', 'racy': rng.random() < .25,
            'cfg': {'profile': 'generic', 'echo': rng.random() < .6, 'delay': rng.choice([0, 0, .05]), 'chunky': rng.random() < .2, 'seed': rng.getrandbits(32)}, 'text': rng.random() < .75, 'sched': simcase.sched_params(rng)}

# ---------------------------------------------------------------------------------------------- the plain line editor
class Editor(object):
    def __init__(self, names, cats):
        self.buf, self.cur, self.hist, self.hpos, self.sms = [], 0, [], 0, False
        self.sent, self.names, self.cats = '', names, [c.lower() for c in cats]
        self.cmgs = 'ok'
        self.files = {}
        self.events = []
    def key(self, c):
        if c == LEFT: self.cur = max(0, self.cur - 1)
        elif c == RIGHT: self.cur = min(len(self.buf), self.cur + 1)
        elif c == HOME: self.cur = 0
        elif c == END: self.cur = len(self.buf)
        elif c == BS:
            if self.cur: self.cur -= 1; del self.buf[self.cur]
        elif c == DEL: del self.buf[self.cur:self.cur + 1]
        elif c == UP:
            if self.hpos > 0: self.hpos -= 1; self.recall()
        elif c == DOWN:
            if self.hpos < len(self.hist) - 1: self.hpos += 1; self.recall()
        elif c == CZ:
            if self.sms: self.sent += ''.join(self.buf) + CZ; self.clear(); self.sms = False; self.events.append('submitted')
        elif c == ESC:
            if self.sms: self.sent += ESC; self.clear(); self.sms = False; self.events.append('cancelled')
        elif c == ENTER: self.enter()
        elif len(c) == 1 and ' ' <= c <= '~': self.buf.insert(self.cur, c); self.cur += 1
    def clear(self): self.buf, self.cur = [], 0
    def recall(self): self.buf = list(self.hist[self.hpos]); self.cur = len(self.buf)
    def enter(self):
        if self.sms:
            self.sent += ''.join(self.buf[:self.cur]); self.buf = self.buf[self.cur:]; self.cur = 0; return
        t = ''.join(self.buf).strip()
        self.clear()
        if not t: return
        self.hist.append(t); self.hist = self.hist[-100:]; self.hpos = len(self.hist)
        l = t.lower()
        if len(t) > 2 and (t[0] == '?' or t.endswith('??')) or l.startswith('help'): self.events.append('help'); return
        if l in ('ls', 'lscat') or l.startswith('ls ') and l.split(' ', 1)[1] in self.cats: self.events.append('help'); return
        if l.startswith('load') and ' ' in t:
            name = t.split(' ', 1)[1].strip()
            for line in self.files.get(name, []):
                line = line.strip()
                if line and not line.startswith('#'): self.buf = list(line); self.enter()
            return
        self.sent += t + '\r'
        self.events.append('command')
        if l.startswith('at+cmgs='): self.sms = self.prompts(t)
    def prompts(self, t): return t.startswith('AT+CMGS=') and self.cmgs == 'ok' and self.modem.mode_text == (t[8:9] == '"')

def pick(names, r): return names[min(len(names) - 1, int(r * len(names)))]
def run(case, rec):
    T = SHARED['terminal']
    names, cats = SHARED['names'], SHARED['cats']
    case = copy.deepcopy(case)
    import tempfile, shutil
    scratch = tempfile.mkdtemp(prefix='c26-')
    sig = []
    out = Screen()
    def main(s):
        m = modemsim.virtual(s, case['cfg'])
        m.mode_text = case['text']
        m.pin_state = 'READY'
        plan = {'kind': 'ok'}
        class Plans(list):
            def __bool__(self): return True
            def pop(self, n): return dict(plan)
        m.cmgs_plan = Plans()
        vs = detsched.vsleep
        feed = SHARED['feed'] = Feed(s)
        wire = lambda: b''.join(d for _, k, d in m.line.log if k == 'w').decode('latin-1')
        T.console.pendingKeys[:] = [] if hasattr(T.console, 'pendingKeys') else []
        t = T.RawTerm('/dev/sim') if case['raw'] else T.GsmTerm('/dev/sim', 9600, case['color'])
        t.start()
        def settle(calm=True):
            for _ in range(400):
                vs(.03)
                if not t.inputThread.is_alive() and feed.pending: return False
                if feed.blocked and not feed.pending and (m.idle or m.prompting is not None and not m.sending) and not m.line.buf: break
            else: return False
            if calm: vs(.35)
            return True
        def dead(where):
            rec.violation('input-loop-died', '%s: %s' % (where, [str(e)[:300] for _, e, _ in s.uncaught] or 'the terminal does not read keys any more'))
        if not settle(): dead('at the start'); return
        if case['raw']:
            want = ''
            for n, st in enumerate(case['steps']):
                data = ''.join(st['k'])
                feed.type(data.encode('utf-8'))
                want += data.replace('\n', '\r').encode('utf-8').decode('latin-1')
                rec.count('raw_keys', len(st['k'])); rec.count('keys', len(st['k']))
                if 'urc' in st: m.line.deliver(('\r\n%s\r\n' % st['urc'][0]).encode())
                if st.get('paste'): continue
                if not settle(False) or not t.alive: dead('raw terminal, key %d %r' % (n, st['k'])); return
            if not settle() or not t.alive: dead('raw terminal'); return
            rec.eq(wire(), want, 'raw-bytes', 'raw terminal')
            feed.type(b'\x1d'); vs(4)
            rec.expect(not t.alive and not t.inputThread.is_alive() and not t.rxThread.is_alive() and not m.line.port.is_open, 'exit', 'the raw terminal did not end')
            sig.append(len(want)); return
        ed = Editor(names, cats)
        ed.modem = m
        nfile = [0]
        def compare(where):
            rec.eq(wire(), ed.sent, 'bytes', where)
            if rec.violations: return
            line = ''.join(out.line)
            prompt = '> ' if ed.sms else 'GSM> '
            buf = ''.join(ed.buf)
            if not buf and not line.strip(): return
            rec.count('lines_compared')
            rec.expect(line.rstrip() == (prompt + buf).rstrip() and out.col == len(prompt) + ed.cur, 'line', lambda: '%s: screen shows %r, cursor at column %d; expected %r, column %d' % (where, line, out.col, prompt + buf, len(prompt) + ed.cur))
        for n, st in enumerate(case['steps']):
            keys = list(st['k'])
            if 'prefix' in st:
                c = pick(names, st['prefix'][0]); c = c[:1 + int(st['prefix'][1] * len(c))]
                keys = list(' ' * st['pad'] + (c.lower() if st['lower'] else c) + ('=' if st['eq'] else ''))
            elif 'cmd' in st: keys = list(st['form'] % pick(names, st['cmd']))
            elif 'text' in st: keys = list(st['text'])
            elif 'load' in st:
                nfile[0] += 1
                f = os.path.join(scratch, 'f%d' % nfile[0])
                with open(f, 'wb') as fh:
                    if st['binary']: fh.write(b'\x7fELF\xff\xfe\x00\xb1AT\r\n')
                    else: fh.write('\n'.join(st['load']).encode())
                ed.files[f] = [] if st['binary'] else st['load']
                if ed.sms: continue
                keys = list('load ' + f); rec.count('loads')
            if 'cmgs' in st:
                ed.cmgs = st['cmgs']
                plan.clear(); plan.update({'ok': {'kind': 'ok', 'prompt_delay': .2}, 'refuse': {'kind': 'refuse', 'error': '+CMS ERROR: 500'}, 'no-prompt': {'kind': 'no-prompt', 'for': 2}}[ed.cmgs])
            if not keys: continue
            where = 'step %d %r%s' % (n, keys if len(keys) < 40 else keys[:40], ' (in SMS entry)' if ed.sms else '')
            rec.count('keys', len(keys))
            if keys == [TAB]:
                before, sms = ''.join(ed.buf), ed.sms
                feed.type(b'\t')
                if not settle() or not t.alive: dead(where); return
                rec.count('completions')
                if sms: compare(where)  # the text of a message is not completed
                else:
                    prefix = before.strip().upper()
                    matches = [x for x in names if x.startswith(prefix)]
                    want = os.path.commonprefix(matches) if matches else prefix
                    line = ''.join(out.line)
                    if not line.startswith('GSM> ') and not before.strip() and not matches: continue
                    if not rec.expect(line.startswith('GSM> '), 'completion', lambda: '%s: prompt is gone after completion, line %r' % (where, line)): return
                    got, col = line[5:], out.col - 5
                    if not rec.expect(got.strip().upper() == want, 'completion', lambda: '%s: %r was completed to %r; commands that match: %r' % (where, before, got, matches[:5])): return
                    # the line may have been changed to upper case and stripped: the end key shows how long it is now
                    feed.type(END.encode())
                    if not settle() or not t.alive: dead(where); return
                    ed.buf = list(got[:out.col - 5].ljust(out.col - 5)); ed.cur = len(ed.buf)
                    rec.expect(got.rstrip() == ''.join(ed.buf).rstrip() and 0 <= col <= ed.cur, 'cursor', lambda: '%s: %r completed to %r, cursor at %d; end at %d' % (where, before, got, col, ed.cur))
                if rec.violations: return
                sig.append('T')
                continue
            groups = [keys] if st.get('paste') or len(keys) > 1 and st.get('quick') else [[x] for x in keys]
            if st.get('paste'): rec.count('pasted')
            for g in groups:
                for x in g:
                    if x in (LEFT, RIGHT, HOME, END, DEL) or ed.cur < len(ed.buf): rec.count('mid_line_edits')
                    if x in (UP, DOWN): rec.count('history')
                    sm, was = ed.sms, len(ed.events)
                    ed.key(x)
                    for e in ed.events[was:]: rec.count({'submitted': 'sms_submitted', 'cancelled': 'sms_cancelled', 'help': 'help', 'command': 'commands'}[e])
                    if x == ENTER and 'cmgs' in st and not ed.sms and not sm: rec.count('sms_refused')
                feed.type(''.join(g).encode('utf-8'))
                if ENTER in g and st.get('urc') in (['ERROR'], ['Some text > ']): st.pop('urc') # (would be taken for the answer)
                if 'urc' in st and case['racy']: m.urc_early(*st['urc']) if m.prompting is None else m.line.deliver(m.frame(st['urc']).encode()); rec.count('notifications')
                if not settle(ENTER in g or len(keys) == 1): dead(where); return
                if not t.alive: dead(where); return
                if case['racy'] and 'urc' in st:
                    # what the screen shows while two threads write to it is left open; the next key refreshes it
                    racy = True
                else: racy = False
            if rec.violations: return
            if not racy: compare(where)
            else: rec.eq(wire(), ed.sent, 'bytes', where)
            if rec.violations: return
            if 'urc' in st and not case['racy']:
                rec.count('notifications')
                m.line.deliver(m.frame(st['urc']).encode())
                if not settle(): dead(where + ', notification %r' % st['urc']); return
                compare(where + ', then notification %r' % st['urc'])
                shown = [l.strip() for l in out.above[-len(st['urc']) - 3:]]
                rec.expect(all(l.strip() in shown for l in st['urc']), 'notification-shown', lambda: '%s: notification %r is not on the screen: %r' % (where, st['urc'], shown))
                if rec.violations: return
            sig.append(hash(''.join(keys)) & 0xffff)
        settle()
        feed.type(case['exit'].encode()); vs(4)
        rec.expect(not t.alive and not t.inputThread.is_alive() and not t.rxThread.is_alive() and not m.line.port.is_open, 'exit', 'the terminal did not end')
        rec.eq(wire(), ed.sent, 'bytes', 'at the end')
        rec.expect(not out.odd, 'screen', lambda: 'unknown control sequences %r' % out.odd[:3])
    keep = sys.stdout
    sys.stdout = out
    try: ok, s = simcase.run(rec, case['sched'], main, max_steps=3000000)
    finally:
        sys.stdout = keep
        feed = SHARED.pop('feed', None)
        if feed is not None and feed.pending: os.read(0, 65536)
        shutil.rmtree(scratch, ignore_errors=True)
    rec.key(sig, s.sig)
