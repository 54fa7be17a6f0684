# -*- coding: utf-8 -*-
"""A GSM modem, seen from its serial port: AT command interpreter with a SIM, message stores, a network, calls and USSD.

It is driven by bytes and timers only (at/tx/now are supplied), so the same simulator serves runs in virtual time and on a real pseudo terminal.
It keeps a log of everything that crossed the port, and its own state (stores, calls, settings) is the ground truth the oracles use.
"""
import random, re, datetime as dt
import spec_pdu as sp

# ------------------------------------------------------------------------------------------------ stored messages
STATS = ['REC UNREAD', 'REC READ', 'STO UNSENT', 'STO SENT']
def tstr(t):
    """ [y, m, d, h, mi, s, quarters] -> text mode time stamp """
    return '%02d/%02d/%02d,%02d:%02d:%02d%s%02d' % (t[0] % 100, t[1], t[2], t[3], t[4], t[5], '-' if t[6] < 0 else '+', abs(t[6]))
def addr(n): return sp.Addr(n.lstrip('+'), 1 if n.startswith('+') else 2) if n.lstrip('+').isdigit() else sp.Addr(n, 5, 0)
def deliver(number, text, time, stat=0, smsc=None):
    pdu = sp.deliver_text(addr(number), text, dt.datetime(*time[:6]), time[6], addr(smsc) if smsc else None)
    return {'kind': 'deliver', 'stat': stat, 'number': number, 'text': text, 'time': list(time), 'smsc': smsc, 'pdu': sp.hexs(pdu)}
def report(number, mr, time, time2, st, stat=0, smsc=None):
    pdu = sp.status_report(addr(smsc) if smsc else None, addr(number), mr, dt.datetime(*time[:6]), time[6], dt.datetime(*time2[:6]), time2[6], st)
    return {'kind': 'report', 'stat': stat, 'number': number, 'mr': mr, 'time': list(time), 'time2': list(time2), 'st': st, 'smsc': smsc, 'pdu': sp.hexs(pdu)}
def stored(number, text, stat=2):
    """ a message composed on the device """
    a = 0 if sp.is_gsm7(text) else 2
    pdu = sp.submit(None, 0, addr(number), a, sp.gsm7_septets(text) if a == 0 else sp.utf16(text))
    return {'kind': 'submit', 'stat': stat, 'number': number, 'text': text, 'pdu': sp.hexs(pdu)}
def raw(pdu, stat=0, lines=None):
    """ something unreadable: pdu is the line listed in PDU mode, lines the header/text in text mode """
    return {'kind': 'raw', 'stat': stat, 'pdu': pdu, 'lines': lines}

def pdu_len(h):
    try: return len(h) // 2 - 1 - int(h[:2], 16)
    except ValueError: return 0

# ------------------------------------------------------------------------------------------------ capability profiles
CLAC_COMMON = '&C &D &F &V E I L M Q V X Z T P D A H O S0 S3 +FCLASS +ICF +IFC +IPR +GMI +GMM +GMR +GCAP +GSN +CLAC +CBST +CRLP +CREG +CFUN +CSCS +CR +CEER +CRC +CMEE +CSMS +CMGF +CSCA +CSMP +CVHU +CSQ +CPIN +CPMS +CNMI +CMGL +CMGR +CMGS +CMGD +COPS +CUSD +CLCC +CLIP +CGMI +CGMM +CGMR +CGSN +CIMI'.split()
PROFILES = {
    # calls: how call progress is signalled; clac: extra commands listed (None: +CLAC is not supported)
    'generic': dict(manufacturer='ACME Telecom', calls='poll', clac=None, clac_style='single', unsup='ERROR', wind=None, zpas=False, dtmf='+VTS', cpms='std', mems=['ME', 'MT', 'SM', 'SR']),
    'generic-clac': dict(manufacturer='ACME Telecom', calls='poll', clac=['+VTS'], clac_style='single-space', unsup='+CME ERROR: 4', wind=None, zpas=False, dtmf='+VTS', cpms='std', mems=['ME', 'SM']),
    'huawei': dict(manufacturer='huawei', calls='huawei', clac=['^CVOICE', '^DTMF', '^SYSINFO', '^CURC'], clac_style='single', unsup='COMMAND NOT SUPPORT', wind=None, zpas=False, dtmf='^DTMF', cpms='std', mems=['ME', 'MT', 'SM', 'SR']),
    'huawei-ussd': dict(manufacturer='huawei', calls='huawei', clac=['^CVOICE', '^DTMF', '^USSDMODE', '^BOOT'], clac_style='multi-cr', unsup='COMMAND NOT SUPPORT', wind=None, zpas=False, dtmf='^DTMF', cpms='std', mems=['ME', 'MT', 'SM', 'SR'], ussdmode=1),
    'huawei-noclac': dict(manufacturer='huawei', calls='huawei', clac=None, clac_style='single', unsup='COMMAND NOT SUPPORT', wind=None, zpas=False, dtmf='^DTMF', cpms='std', mems=['SM']),
    'wavecom': dict(manufacturer=' WAVECOM MODEM', calls='wavecom', clac=None, clac_style='single', unsup='ERROR', wind=0, zpas=False, dtmf='+VTS', cpms='wavecom', mems=['SM', 'BM', 'SR'], mems2=['SM'], cpin_no_ok=True),
    'wavecom-clac': dict(manufacturer='Sierra Wireless', calls='wavecom', clac=['+WIND', '+VTS'], clac_style='multi', unsup='ERROR', wind=63, zpas=False, dtmf='+VTS', cpms='std', mems=['SM', 'SR']),
    'zte': dict(manufacturer='ZTE INCORPORATED', calls='zte', clac=['+ZPAS', '+VTS', '+ZRSSI'], clac_style='multi', unsup='ERROR', wind=None, zpas=True, dtmf='+VTS', cpms='std', mems=['ME', 'MT', 'SM', 'SR'], locked='all', csmp_clears=True),
    'qualcomm': dict(manufacturer='QUALCOMM INCORPORATED', calls='zte', clac=None, clac_style='single', unsup='ERROR', wind=None, zpas=True, dtmf='+VTS', cpms='std', mems=['ME', 'MT', 'SM', 'SR'], locked='all', csmp_clears=True),
    'nokia': dict(manufacturer='Nokia', calls='poll', clac=None, clac_style='single', unsup='ERROR', wind=None, zpas=False, dtmf='+VTS', cpms='nokia', mems=[], no_cnmi=True),
}
DEFAULTS = dict(model='X1', revision='R1.0', imei='490154203237518', imsi='655012345678901', pin_state='READY', pin='1234', smsc='+27820001111', smsc_none='ok', csmp_clears=False, locked='sim',
                echo=True, cfun=1, cfun_line=None, delay=0.0, chunky=False, seed=0, unsupported=[], cpin_no_ok=False, no_cnmi=False, prompt='\r\n> ', mr0=0, creg=[1], csq=[20], operator='Net', capacity=20, cpms_line=None, mems2=None, ussdmode=0,
                cmee=0, sim_busy=0, sim_busy_cmd='AT+CSCA?', device_busy=0, crc_line='+CRING: ', call_delay=.15, ring_delay=.3)

class Modem(object):
    def __init__(self, cfg, at, tx, now, rng=None):
        c = dict(DEFAULTS); c.update(PROFILES[cfg.get('profile', 'generic')]); c.update(cfg)
        self.c = c
        self.at, self.tx, self.now = at, tx, now
        self.rng = random.Random(c['seed'])
        self.log = []               # (time, kind, text): 'cmd', 'body', 'esc', 'out'
        self.faults = []            # violations of the protocol by the host
        self.rxbuf = bytearray()
        self.prompting = None       # +CMGS in progress, prompt sent
        self.awaiting = None        # plan of the +CMGS in progress, prompt not yet sent
        self.cancelled = []
        self.busy = None            # command being processed
        self.responding = False
        self.outq, self.sending = [], False
        self.urcq = []
        self.override = None        # fn(cmd) -> None | (lines, final) | 'silent'
        self.settings = {}          # last accepted value of configuration commands
        self.echo = self.echoed = c['echo']
        self.cmee = c['cmee']
        self.cmgf = 0
        self.mode_text = False
        self.pin_state = c['pin_state']
        self.pins = []              # PINs received (time, pin, state before)
        self.wrong = 0
        self.smsc = c['smsc']
        self.wind = c['wind']
        self.mr = c['mr0']
        mems = c['mems']
        self.stores = {m: {} for m in list(mems) + list(c['mems2'] or []) + list(c.get('mems3') or [])}
        self.mem1 = mems[0] if mems else None
        self.mem2 = self.mem3 = self.mem1
        self.deleted = []           # (time, mem, index, message)
        self.read_log = []
        self.submitted = []         # every body that was accepted by the network, in order
        self.cmgs_plan = []         # one entry per +CMGS; default: accepted
        self.cmgs_log = []          # (time, argument, plan entry) per +CMGS command
        self.pick_mr = None         # fn(argument, body) -> message reference
        self.on_submit = None
        self.on_ussd = None
        self.ussd_log = []
        self.calls = {}
        self.call_log = []
        self.tones = []             # (time, call id or None, tone)
        self.on_dial = None
        self.ath_target = self.ata_target = None # call that the next ATH/ATA concerns (None: all/the first)
        self.refuse = {}            # 'ATA'/'ATH' -> error that the next one ends with
        self.end_after_ata = None   # seconds from the next ATA until the caller hangs up
        self.dtmf_fail = {}         # n-th tone command -> result line
        self.ntones = 0
        self.ussdmode = c['ussdmode']
        self.creg_n = self.csq_n = 0
        self.sim_busy, self.device_busy = c['sim_busy'], c['device_busy']
        self.cut = False            # silent from now on

    # ------------------------------------------------------------------------------------ bytes in
    def rx(self, data):
        for b in bytes(data):
            if self.prompting is not None:
                if b in (0x1A, 0x1B):
                    body = bytes(self.rxbuf).decode('latin-1'); del self.rxbuf[:]
                    p, self.prompting = self.prompting, None
                    if b == 0x1B: self.esc(body); continue
                    self.log.append((self.now(), 'body', body))
                    self.body(p, body)
                else: self.rxbuf.append(b)
            elif b == 0x0D:
                cmd = bytes(self.rxbuf).decode('latin-1'); del self.rxbuf[:]
                self.command(cmd)
            elif b == 0x1B and self.awaiting is not None: self.awaiting['esc'] = True # kept until the prompt
            elif b in (0x1A, 0x1B):
                junk = bytes(self.rxbuf).decode('latin-1'); del self.rxbuf[:]
                self.log.append((self.now(), 'stray-body' if b == 0x1A else 'stray-esc', junk))
                if b == 0x1A: self.faults.append(('body-without-prompt', junk[:80]))
                elif junk: pass
            elif b == 0x0A and not self.rxbuf: pass
            else: self.rxbuf.append(b)

    def esc(self, body):
        self.log.append((self.now(), 'esc', body)); self.cancelled.append((self.now(), body))
        if self.c.get('esc_busy'): self.busy = 'ESC'
        self.result([], self.c.get('esc_answer', 'OK'), None)

    # ------------------------------------------------------------------------------------ bytes out
    def out(self, data, then=None, delay=0.0):
        """ queues bytes; they leave in order """
        self.outq.append((delay, data, then))
        if not self.sending: self._next()
    def _next(self):
        if not self.outq: self.sending = False; return
        self.sending = True
        delay, data, then = self.outq.pop(0)
        pieces = [(delay, data)]
        if self.c['chunky'] and len(data) > 1 and self.rng.random() < .5:
            cuts = sorted(self.rng.randrange(1, len(data)) for _ in range(self.rng.choice([1, 1, 2, 4])))
            pieces, p = [], 0
            for n, k in enumerate(cuts + [len(data)]):
                if k > p: pieces.append((delay if p == 0 else self.rng.choice([0, 0, .003, .02]), data[p:k])); p = k
        def step(k):
            def go():
                if self.cut: return
                self.tx(pieces[k][1].encode('latin-1'))
                if k + 1 < len(pieces): self.at(pieces[k + 1][0], step(k + 1))
                else:
                    self.log.append((self.now(), 'out', data))
                    if then: then()
                    self._next()
            return go
        self.at(pieces[0][0], step(0))
    @staticmethod
    def frame(lines): return ''.join('\r\n%s\r\n' % l for l in lines)
    def lat(self):
        d = self.c['delay']
        return self.rng.uniform(0, d) if d and self.rng.random() < .8 else 0.0
    def result(self, lines, final, cmd, delay=None):
        """ answers the command in progress """
        delay = self.lat() if delay is None else delay
        text = ''
        style = self.c.get('framing', 0) if not self.echoed else 0
        if lines:
            if style == 0: text = '\r\n' + '\r\n'.join(lines) + '\r\n'
            elif style == 1: text = self.frame(lines)
            else: text = ''.join(l + '\r\n' for l in lines)
        if final is not None: text += '\r\n%s\r\n' % final if style != 2 else final + '\r\n'
        def done():
            self.busy = None; self.responding = False
            self.flush()
        def start():
            self.responding = True
            self.out(text, done)
        if not text: self.at(delay, done); return
        self.at(delay, start)
    def urc(self, *lines):
        """ unsolicited lines, sent when no command is in progress """
        self.urcq.append(list(lines)); self.flush()
    def urc_early(self, *lines):
        """ unsolicited lines, sent at once unless a response is being sent """
        if self.responding or self.prompting is not None: self.urc(*lines)
        else: self.out(self.frame(lines))
    def flush(self):
        if self.busy is None and self.prompting is None:
            while self.urcq: self.out(self.frame(self.urcq.pop(0)))
    @property
    def idle(self): return self.busy is None and self.prompting is None and not self.sending and not self.urcq

    # ------------------------------------------------------------------------------------ commands
    def command(self, cmd):
        self.log.append((self.now(), 'cmd', cmd))
        if self.cut: return
        if self.busy is not None: self.faults.append(('overlap', '%r written while %r is being processed' % (cmd, self.busy)))
        self.busy = cmd
        self.echoed = self.echo
        if self.echo: self.out(cmd + '\r')
        r = self.override(cmd) if self.override else None
        if r == 'silent': self.busy = None; return
        if r is None:
            if self.device_busy > 0: self.device_busy -= 1; r = ([], '+CME ERROR: 515')
            elif self.sim_busy > 0 and self.pin_state == 'READY' and cmd == self.c['sim_busy_cmd']: self.sim_busy -= 1; r = ([], '+CME ERROR: 14')
            else: r = self.do(cmd)
        if r is None: return     # answered by other means
        self.result(r[0], r[1], cmd)
    def cme(self, code): return '+CME ERROR: %d' % code if self.cmee else 'ERROR'
    def unsupported(self):
        u = self.c['unsup']
        return ([], 'ERROR' if u.startswith('+CME') and not self.cmee else u)
    NO_PIN = ('ATE', 'AT+CFUN', 'AT+CMEE', 'ATZ', 'AT+CPIN', 'AT+CLAC', 'AT+CGM', 'AT+CGSN', 'AT+WIND', 'AT+ZPAS', 'AT^CVOICE', 'AT^USSDMODE', 'AT+CSQ', 'AT+CREG')
    def do(self, cmd):
        c = self.c
        if cmd == '' or cmd == 'AT': return [], 'OK'
        if not cmd.startswith('AT'): return [], 'ERROR'
        if any(cmd.startswith(u) for u in c['unsupported']): return self.unsupported()
        if self.pin_state != 'READY' and not cmd.startswith('AT+CPIN'):
            code = 11 if self.pin_state == 'SIM PIN' else 12
            if c['locked'] == 'all':
                if not cmd.startswith('AT+CMEE') or c.get('cmee_locked'): return [], self.cme(code)
            elif not cmd.startswith(self.NO_PIN): return [], self.cme(code)
        m = re.match(r'AT([+^][A-Z]+|Z|E|D|A|H)(.*)$', cmd, re.S)
        if not m: return self.unsupported()
        name, arg = m.groups()
        h = getattr(self, 'cmd_' + name.replace('+', '').replace('^', 'x'), None)
        if h is None: return self.unsupported()
        try: return h(arg, cmd)
        except (ValueError, IndexError, KeyError): return [], 'ERROR' # (an argument it does not understand)
    def cmd_Z(self, a, cmd):
        if self.c.get('atz_resets', True): self.cmee = self.c['cmee']
        return [], 'OK'
    def cmd_E(self, a, cmd): self.echo = a != '0'; return [], 'OK'
    def cmd_CFUN(self, a, cmd):
        if a == '?': return [self.c['cfun_line'] or '+CFUN: %d' % self.c['cfun']], 'OK'
        if a.startswith('='):
            self.c['cfun'] = int(a[1:].split(',')[0]); self.c['cfun_line'] = None
            if self.c.get('cfun_busy'): self.device_busy = self.c['cfun_busy']
            return [], 'OK'
        return [], 'ERROR'
    def cmd_CMEE(self, a, cmd):
        if a.startswith('='): self.cmee = int(a[1:]); return [], 'OK'
        return ['+CMEE: %d' % self.cmee], 'OK'
    def cmd_CPIN(self, a, cmd):
        if a == '?':
            line = '+CPIN:%s%s' % (self.c.get('cpin_sep', ' '), self.pin_state)
            return [line], (None if self.c['cpin_no_ok'] else 'OK')
        m = re.match(r'="(.*)"$', a)
        if not m: return [], 'ERROR'
        self.pins.append((self.now(), m.group(1), self.pin_state))
        if self.pin_state == 'READY': return [], self.cme(3)
        if self.pin_state != 'SIM PIN': return [], self.cme(16)
        if m.group(1) == self.c['pin']: self.pin_state = 'READY'; return [], 'OK'
        self.wrong += 1
        if self.wrong >= 3: self.pin_state = 'SIM PUK'
        return [], self.c.get('pin_error') or self.cme(16)
    def cmd_CLAC(self, a, cmd):
        c = self.c
        if c['clac'] is None: return self.unsupported()
        names = CLAC_COMMON + c['clac']
        st = c['clac_style']
        if st == 'single': return ['+CLAC:' + ','.join(names)], 'OK'
        if st == 'single-space': return ['+CLAC: ' + ', '.join(names)], 'OK'
        if st == 'bare': return [','.join(names)], 'OK'
        if st == 'multi-cr': return [n + '\r' for n in names], 'OK'
        return names, 'OK'
    def cmd_WIND(self, a, cmd):
        if self.wind is None: return self.unsupported()
        if a == '?': return ['+WIND: %d' % self.wind], 'OK'
        self.wind = int(a[1:]); return [], 'OK'
    def cmd_ZPAS(self, a, cmd):
        return (['+BEARTYPE: "UMTS","CS_PS"'], 'OK') if self.c['zpas'] else self.unsupported()
    def cmd_xCVOICE(self, a, cmd):
        if '^CVOICE' not in (self.c['clac'] or []): return self.unsupported()
        self.settings['^CVOICE'] = a; return [], 'OK'
    def cmd_xUSSDMODE(self, a, cmd):
        if '^USSDMODE' not in (self.c['clac'] or []): return self.unsupported()
        self.ussdmode = int(a[1:]); return [], 'OK'
    def cmd_CGMI(self, a, cmd): return [self.c['manufacturer']], 'OK'
    def cmd_CGMM(self, a, cmd): return [self.c['model']], 'OK'
    def cmd_CGMR(self, a, cmd): return ([self.c['revision']], 'OK') if self.c['revision'] is not None else self.unsupported()
    def cmd_CGSN(self, a, cmd): return [self.c['imei']], 'OK'
    def cmd_CIMI(self, a, cmd): return [self.c['imsi']], 'OK'
    def cmd_COPS(self, a, cmd):
        if a == '?':
            o = self.c['operator']
            if o is None: return ['+COPS: 0'], 'OK'
            return [self.c.get('cops_line') or '+COPS: 0,0,"%s"' % o], 'OK'
        self.settings['+COPS'] = a; return [], 'OK'
    def cmd_CSQ(self, a, cmd):
        v = self.c['csq'][min(self.csq_n, len(self.c['csq']) - 1)]; self.csq_n += 1
        if isinstance(v, str): return [], v
        return ['+CSQ:%s%d,%d' % (self.c.get('csq_sep', ' '), v, 99)], 'OK'
    def cmd_CREG(self, a, cmd):
        v = self.c['creg'][min(self.creg_n, len(self.c['creg']) - 1)]; self.creg_n += 1
        if isinstance(v, str): return ([], v) if 'ERROR' in v or v == 'OK' else ([v], 'OK')
        return ['+CREG: 0,%d' % v], 'OK'
    def cmd_CMGF(self, a, cmd):
        if not re.match(r'=[01]$', a): return [], 'ERROR'
        self.mode_text = a == '=1'; self.settings['+CMGF'] = a; return [], 'OK'
    def cmd_CSCA(self, a, cmd):
        if a == '?':
            if self.smsc is None:
                return {'ok': ([], 'OK'), 'empty': (['+CSCA: "",129'], 'OK'), '330': ([], '+CMS ERROR: 330')}[self.c['smsc_none']]
            return ['+CSCA:%s"%s",%d' % (self.c.get('csca_sep', ' '), self.smsc, 145 if self.smsc.startswith('+') else 129)], 'OK'
        m = re.match(r'="([^"]*)"(?:,\d+)?$', a)
        if not m: return [], 'ERROR'
        self.smsc = m.group(1); return [], 'OK'
    def cmd_CSMP(self, a, cmd):
        if self.c['csmp_clears']: self.smsc = None
        self.settings['+CSMP'] = a; return [], 'OK'
    def groups(self):
        c = self.c
        if c['cpms'] == 'std': return [c['mems'], c['mems2'] or c['mems'], c.get('mems3') or c['mems2'] or c['mems']]
        if c['cpms'] == 'wavecom': return [c['mems'], c['mems2']]
        return []
    def cmd_CPMS(self, a, cmd):
        c = self.c
        if c['cpms'] is None: return self.unsupported()
        g = self.groups()
        if a == '=?':
            if c['cpms_line']: return [c['cpms_line']], 'OK'
            if c['cpms'] == 'nokia': return ['+CPMS: (),(),()'], 'OK'
            t = ['(' + ','.join('"%s"' % m for m in x) + ')' for x in g]
            if c['cpms'] == 'wavecom': return ['+CPMS: (%s)' % ','.join(t)], 'OK'
            return ['+CPMS: ' + ','.join(t)], 'OK'
        if a == '?': return ['+CPMS: ' + ','.join('"%s",%d,%d' % (m, len(self.stores[m]), c['capacity']) for m in (self.mem1, self.mem2, self.mem3)[:len(g)])], 'OK'
        m = re.match(r'=("[A-Z]+"(?:,"[A-Z]+")*)$', a)
        if not m: return [], '+CMS ERROR: 302' if a.startswith('=') else 'ERROR'
        names = [x.strip('"') for x in m.group(1).split(',')]
        if len(names) > len(g) or any(n not in x for n, x in zip(names, g)): return [], '+CMS ERROR: 302'
        self.mem1 = names[0]
        if len(names) > 1: self.mem2 = names[1]
        if len(names) > 2: self.mem3 = names[2]
        self.settings['+CPMS'] = names
        return ['+CPMS: ' + ','.join('%d,%d' % (len(self.stores[x]), c['capacity']) for x in (self.mem1, self.mem2, self.mem3)[:len(g)])], 'OK'
    def cmd_CNMI(self, a, cmd):
        if self.c['no_cnmi']: return self.unsupported()
        self.settings['+CNMI'] = a; return [], 'OK'
    def cmd_CLIP(self, a, cmd): self.settings['+CLIP'] = a; return [], 'OK'
    def cmd_CRC(self, a, cmd): self.settings['+CRC'] = a; return [], 'OK'
    def cmd_CVHU(self, a, cmd): self.settings['+CVHU'] = a; return [], 'OK'

    # ------------------------------------------------------------------------------------ messages
    def mem(self): return self.stores.get(self.mem1)
    def store(self, mem, msg, index=None):
        st = self.stores[mem]
        if index is None:
            index = self.c.get('index_base', 0)
            while index in st or (index == 0 and not self.c.get('index0', True)): index += 1
        st[index] = msg
        return index
    def head(self, msg, idx=None):
        """ lines of a listed (idx given) or read message """
        k = msg['kind']
        pre = '+CMGR: ' if idx is None else '+CMGL: %d,' % idx
        if not self.mode_text:
            alpha = '"%s"' % msg['alpha'] if msg.get('alpha') else self.c.get('alpha', '')
            stat = '%d' % msg['stat'] if not (idx is None and self.c.get('no_stat')) else ''
            return [pre + '%s,%s,%d' % (stat, alpha, pdu_len(msg['pdu'])), msg['pdu']]
        stat = '"%s"' % STATS[msg['stat']]
        if k == 'deliver':
            return [pre + '%s,"%s",%s,"%s"' % (stat, msg['number'], '"%s"' % msg['alpha'] if msg.get('alpha') else '', tstr(msg['time']))] + msg['text'].split('\r\n' if '\r\n' in msg['text'] else '\n')
        if k == 'report':
            if idx is None and self.c.get('no_stat'): stat = ''
            return [pre + '%s,6,%d,"%s",145,"%s","%s",%d' % (stat, msg['mr'], msg['number'], tstr(msg['time']), tstr(msg['time2']), msg['st'])]
        if k == 'submit': return [pre + '%s,"%s",' % (stat, msg['number'])] + msg['text'].split('\n')
        return [pre + '%s%s' % (stat, msg['lines'][0])] + msg['lines'][1:]
    def cmd_CMGR(self, a, cmd):
        st = self.mem()
        m = re.match(r'=(\d+)$', a)
        if st is None or not m: return [], '+CMS ERROR: 302'
        i = int(m.group(1))
        self.read_log.append((self.now(), self.mem1, i))
        if i not in st: return ([], 'OK') if self.c.get('empty_read_ok') else ([], '+CMS ERROR: 321')
        lines = self.head(st[i])
        if st[i]['stat'] == 0: st[i] = dict(st[i], stat=1)
        return lines, 'OK'
    def cmd_CMGL(self, a, cmd):
        st = self.mem()
        if st is None: return [], '+CMS ERROR: 302'
        if self.mode_text:
            m = re.match(r'="([A-Z ]+)"$', a)
            want = m and ({'ALL': 4}.get(m.group(1)) or (STATS.index(m.group(1)) if m.group(1) in STATS else None))
        else:
            m = re.match(r'=(\d)$', a)
            want = m and int(m.group(1))
        if want is None or want > 4: return [], '+CMS ERROR: 302'
        lines = []
        for i in sorted(st):
            if want in (4, st[i]['stat']):
                lines += self.head(st[i], i)
                if st[i]['stat'] == 0: st[i] = dict(st[i], stat=1)
        return lines, 'OK'
    def cmd_CMGD(self, a, cmd):
        st = self.mem()
        m = re.match(r'=(\d+)(?:,(\d))?$', a)
        if st is None or not m: return [], '+CMS ERROR: 302'
        i, flag = int(m.group(1)), int(m.group(2) or 0)
        gone = [i] if flag == 0 else [k for k in st if st[k]['stat'] in {1: (1,), 2: (1, 3), 3: (1, 2, 3), 4: (0, 1, 2, 3)}[flag]]
        if flag == 0 and i not in st: return ([], 'OK') if self.c.get('empty_delete_ok', True) else ([], '+CMS ERROR: 321')
        for k in sorted(gone):
            self.deleted.append((self.now(), self.mem1, k, st.pop(k)))
        return [], 'OK'
    def cmd_CMGS(self, a, cmd):
        plan = self.cmgs_plan.pop(0) if self.cmgs_plan else {'kind': 'ok'}
        k = plan['kind']
        self.cmgs_log.append((self.now(), a[1:], plan))
        if k == 'refuse': return [], plan.get('error', '+CMS ERROR: 500')
        if k == 'no-prompt': self.at(plan.get('for', 3.5), self._free); return None
        if self.mode_text != (a[1:2] == '"'): return [], '+CMS ERROR: 304'
        def prompted():
            self.busy, self.responding, self.awaiting = None, False, None
            self.prompting = (a[1:], plan); del self.rxbuf[:]
            if plan.get('esc'): self.prompting = None; self.esc('')
        self.awaiting = plan
        self.at(self.lat() + plan.get('prompt_delay', 0), lambda: (setattr(self, 'responding', True), self.out(self.c['prompt'], prompted)))
        return None
    def _free(self): self.busy = None; self.flush()
    def body(self, p, body):
        arg, plan = p
        self.busy = 'body of +CMGS=%s' % arg
        if plan['kind'] == 'late-prompt': plan['kind'] = 'ok' # (it was not too late)
        k = plan['kind']
        if k == 'body-silent':
            self.submitted.append({'t': self.now(), 'arg': arg, 'body': body, 'ok': False, 'plan': plan})
            self.at(plan.get('for', 16), self._free); return
        if k == 'body-error': self.submitted.append({'t': self.now(), 'arg': arg, 'body': body, 'ok': False, 'plan': plan}); self.result([], plan.get('error', '+CMS ERROR: 38'), None); return
        mr = self.pick_mr(arg, body) if self.pick_mr else plan['mr'] if 'mr' in plan else self.mr
        self.mr = (mr + 1) % 256
        rec = {'t': self.now(), 'arg': arg, 'body': body, 'ok': True, 'mr': mr, 'plan': plan, 'smsc': self.smsc}
        self.submitted.append(rec)
        lines = [plan.get('fmt', '+CMGS: %d') % mr]
        if self.on_submit: self.on_submit(rec)
        d = self.lat() + plan.get('delay', 0)
        def go():
            if plan.get('before'): plan['before']()
            rec['tr'] = self.now()
            self.result(lines, 'OK', None, 0)
        if k == 'no-ref': lines = []
        self.at(d, go)

    # ------------------------------------------------------------------------------------ USSD
    last_clcc = None
    def cmd_CUSD(self, a, cmd):
        if a == '=2': self.ussd_log.append((self.now(), None)); return [], 'OK'
        m = re.match(r'=1,"(.*)",15$', a, re.S)
        if not m: return [], 'ERROR'
        self.ussd_log.append((self.now(), m.group(1)))
        if self.ussdmode == 1: return [], 'ERROR'
        if self.on_ussd: return self.on_ussd(m.group(1))
        return [], 'OK'

    # ------------------------------------------------------------------------------------ calls
    # a call: {'id', 'dir' (0 mobile originated), 'number', 'state' (2 dialling, 0 active, 4 incoming), 'type'}
    def new_id(self):
        i = 1
        while i in self.calls: i += 1
        return i
    def cmd_D(self, a, cmd):
        number = a.rstrip(';')
        self.call_log.append((self.now(), 'dial', number))
        kind = self.c['calls']
        plan = (self.on_dial(number) if self.on_dial else None) or {}
        if plan.get('refuse'): return [], plan['refuse']
        if plan.get('silent'): self.busy = None; return None
        cid = self.new_id()
        call = {'id': cid, 'dir': 0, 'number': number, 'state': 2, 'type': 0}
        self.calls[cid] = call
        call['plan'] = plan
        d = plan.get('setup', self.c['call_delay'])
        if plan.get('on_call'): plan['on_call'](call)
        if kind == 'poll' and 'setup' in plan: call['t_listed'] = self.now() + d
        if kind == 'wavecom':
            self._free()
            self.at(d, lambda: self._alive(call) and (self.urc('+WIND: 5,%d' % cid), plan.get('then', lambda: 0)())); self.at(d + .2, lambda: self._alive(call) and call['state'] == 2 and self.urc('+WIND: 2'))
            r = None
        elif kind == 'zte': self._free(); r = None
        elif kind == 'huawei':
            self.at(d, lambda: self._alive(call) and (self.urc('^ORIG:%d,0' % cid), plan.get('then', lambda: 0)())); self.at(d + .2, lambda: self._alive(call) and call['state'] == 2 and self.urc('^CONF:%d' % cid))
            r = [], 'OK'
        else: r = [], 'OK'
        return r
    def _alive(self, call): return self.calls.get(call['id']) is call
    def remote_answer(self, cid):
        call = self.calls[cid]; call['state'] = 0
        k = self.c['calls']
        self.call_log.append((self.now(), 'answered', call['number']))
        if k == 'huawei': self.urc('^CONN:%d,0' % cid)
        elif k == 'wavecom': self.urc('OK')
        elif k == 'zte': self.urc('CONNECT')
    def remote_end(self, cid, reject=False):
        call = self.calls.pop(cid)
        self.call_log.append((self.now(), 'ended', call['number']))
        k = self.c['calls']
        if call['dir'] == 1 and call['state'] == 4:
            if k == 'huawei': self.urc('^CEND:%d,0,104,16' % cid)
            elif k == 'wavecom': self.urc('NO CARRIER', '+WIND: 6,%d' % cid)
            elif k == 'zte': self.urc('HANGUP: %d' % cid)
            else: self.urc('NO CARRIER')
            return
        if k == 'huawei': self.urc('^CEND:%d,5,29,16' % cid)
        elif k == 'wavecom': self.urc('NO CARRIER', '+WIND: 6,%d' % cid)
        elif k == 'zte': self.urc('OK') if reject and call['state'] == 2 else self.urc('HANGUP: %d' % cid)
        elif k == 'poll' and (call['dir'] == 1 or self.rng.random() < .5): self.urc('NO CARRIER')
    def incoming(self, number, ctype='VOICE', ton=145):
        cid = self.new_id()
        self.calls[cid] = {'id': cid, 'dir': 1, 'number': number, 'state': 4, 'type': 0, 'ctype': ctype, 'ton': ton}
        return cid
    def ring(self, cid):
        call = self.calls[cid]
        ext = self.settings.get('+CRC') == '=1'
        lines = ['+CRING: %s' % call['ctype'] if ext else 'RING']
        if self.settings.get('+CLIP') == '=1' and call['number'] is not None:
            lines.append('+CLIP:%s"%s",%d%s' % (self.c.get('clip_sep', ' '), call['number'], call['ton'], self.c.get('clip_tail', ',,,,0')))
        elif self.settings.get('+CLIP') == '=1' and self.c.get('clip_empty'): lines.append(self.c['clip_empty'])
        self.call_log.append((self.now(), 'ring', call['number']))
        return lines
    def cmd_A(self, a, cmd):
        self.call_log.append((self.now(), 'ATA', None))
        if 'ATA' in self.refuse: return [], self.refuse.pop('ATA')
        for call in self.calls.values():
            if call['state'] == 4 and self.ata_target in (None, call['id']):
                call['state'] = 0
                if self.end_after_ata is not None: d, self.end_after_ata = self.end_after_ata, None; self.at(d, lambda: self._alive(call) and self.remote_end(call['id']))
                return [], 'OK'
        return [], 'NO CARRIER' if self.c.get('ata_nc') else 'ERROR'
    def cmd_H(self, a, cmd):
        self.call_log.append((self.now(), 'ATH', None))
        if 'ATH' in self.refuse: return [], self.refuse.pop('ATH')
        target = self.ath_target() if callable(self.ath_target) else self.ath_target
        gone = [self.calls[x] for x in ([x for x in self.calls if target in (None, x)])]
        for call in gone: del self.calls[call['id']]
        for call in gone:
            k = self.c['calls']
            if k == 'huawei': self.urc('^CEND:%d,3,104,16' % call['id'])
            elif k == 'wavecom': self.urc('+WIND: 6,%d' % call['id'])
            elif k == 'zte': self.urc('HANGUP: %d' % call['id'])
        return [], 'OK'
    def cmd_CLCC(self, a, cmd):
        self.last_clcc = self.now()
        lines = []
        for _, c in sorted(self.calls.items()):
            if c.get('t_listed', 0) > self.now(): continue
            l = '+CLCC:%s%d,%d,%d,%d,0' % (self.c.get('clcc_sep', ' '), c['id'], c['dir'], 3 if c['state'] == 2 and c.get('alerting') else 1 if c.get('held') else c['state'], c['type'])
            if not (self.c.get('clcc_bare') and self.c['clcc_bare'] != 'unknown') and (c['number'] or not self.c.get('clcc_bare')): l += ',"%s",%d%s' % (c['number'] or '', 145 if (c['number'] or '').startswith('+') else 129, self.c.get('clcc_tail', ''))
            lines.append(l)
        return lines, 'OK'
    def tonecmd(self, cmd):
        n = len(self.tones)
        r = self.tonecmds(cmd)
        if not self.c.get('tone_time'): return r
        self.result(r[0], r[1], None, self.c['tone_time'] * max(1, len(self.tones) - n))
    def tonecmds(self, cmd):
        parts = cmd[2:].split(';')
        for p in parts:
            m = re.match(r'\+VTS="?([0-9A-D*#])"?$', p) if self.c['dtmf'] == '+VTS' else re.match(r'\^DTMF=(\d+),([0-9A-D*#])$', p)
            if not m: return self.unsupported()
            cid, tone = (None, m.group(1)) if self.c['dtmf'] == '+VTS' else (int(m.group(1)), m.group(2))
            n = self.ntones; self.ntones += 1
            if n in self.dtmf_fail: return [], self.dtmf_fail[n]
            if cid is not None and (cid not in self.calls or self.calls[cid]['state'] != 0): return [], self.cme(3)
            if not any(c['state'] == 0 for c in self.calls.values()): return [], self.cme(30)
            self.tones.append((self.now(), cid, tone))
        return [], 'OK'
    def cmd_VTS(self, a, cmd): return self.tonecmd(cmd)
    def cmd_xDTMF(self, a, cmd): return self.tonecmd(cmd)

def virtual(sched, cfg, port='/dev/sim'):
    """ a modem attached to a simulated serial port in virtual time """
    import fakeserial
    line = fakeserial.Line()
    m = Modem(cfg, sched.at, line.deliver, lambda: sched.now)
    m.line = line
    line.device = m
    fakeserial.PORTS[port] = line
    return m
