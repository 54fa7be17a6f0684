# -*- coding: utf-8 -*-
import threading
import common, simcase, modemsim
ID = 'C24'
QUICK, THOROUGH = 2400, 200000
RULE = ('(a) every query property on modems whose answers have random values and every accepted format, with a ring or call notification in front of the answer, busy replies, unsupported commands, latency and fragmentation, asked repeatedly from 1..3 threads; '
        '(b) waitForNetworkCoverage() against random histories of registration states (7 formats, URC in between, errors) and signal strengths, with random timeouts and latencies. Values, exceptions and times are compared with the simulator\'s record of what it answered. Distinct by (answers, schedule hash).')
ASSUMPTIONS = ['notifications other than calls, messages and USSD do not race with the single-line queries (model, serial number, ...)', 'the modem answers every command within the host\'s timeout', 'an answer line is not equal to a result code']
FLOORS = {'queries': 300, 'none_answers': 20, 'waits': 40, 'registered': 8, 'impossible': 2, 'timed_out': 8, 'unsupported_creg': 4, 'raced': 20, 'refused': 10, 'zero_signal': 5}
def setup(): simcase.setup()
def text(rng, alpha=None):
    a = alpha or ' abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.,;:-_/()+#"\'*=^\xe9\xd8'
    t = ''.join(rng.choice(a) for _ in range(rng.choice([1, 3, 8, 15, 40])))
    return t if t.strip() and t.strip() not in ('OK', 'ERROR') else 'x' + t + 'x'
CMDS = modemsim.CLAC_COMMON + ['^CVOICE', '^SYSINFO', '+VTS', '+ZPAS', '+WIND', '&W', '%CSQ', '$QCCLR', '#CGSN']
ERR = ['ERROR', '+CME ERROR: 3', '+CME ERROR: 10', '+CME ERROR: 100', '+CMS ERROR: 302', 'COMMAND NOT SUPPORT']

def gen_case(rng, i, tier):
    case = {'cfg': {'profile': rng.choice(sorted(modemsim.PROFILES)), 'delay': rng.choice([0, 0, .02, .1]), 'chunky': rng.random() < .3, 'seed': rng.getrandbits(32), 'framing': rng.choice([0, 1, 2])}, 'sched': simcase.sched_params(rng)}
    if rng.random() < .5:
        case['kind'] = 'queries'
        case['text'] = rng.random() < .25
        case['cfg']['unsupported'] = rng.choice([[], [], [], ['AT+CRC']])
        q = []
        for _ in range(rng.choice([3, 6, 12])):
            p = rng.choice(['manufacturer', 'model', 'revision', 'imei', 'imsi', 'networkName', 'signalStrength', 'supportedCommands', 'smsc'])
            o = {'p': p}
            if p in ('manufacturer', 'model', 'revision'): v = text(rng); o['lines'] = [v]; o['want'] = v
            elif p in ('imei', 'imsi'): v = ''.join(rng.choice('0123456789') for _ in range(rng.choice([1, 14, 15, 16]))); o['lines'] = [v]; o['want'] = v
            elif p == 'networkName':
                v = rng.choice([None, None, text(rng), text(rng), '65501', 'A, B "C"', 'MTN-SA', '"', '1,2,"x"'])
                o['want'] = v
                sp = rng.choice([' ', ' ', ''])
                o['lines'] = [rng.choice(['+COPS:%s0', '+COPS:%s2', '+COPS:%s1,0,""']) % sp] if v is None else ['+COPS:%s%d,%d,"%s"%s' % (sp, rng.randint(0, 4), rng.randint(0, 2), v, rng.choice(['', '', ',0', ',2', ',7']))]
            elif p == 'signalStrength':
                v = rng.choice([0, 1, 9, 10, 20, 31, 98, 99, 99, rng.randint(0, 31)])
                o['want'] = -1 if v == 99 else v
                o['lines'] = ['+CSQ:%s%d,%d' % (rng.choice([' ', ' ', '', '  ']), v, rng.choice([0, 7, 99]))]
                if rng.random() < .1: o['want'] = 'CommandError'; o['lines'] = rng.choice([[], ['+CSQ:'], ['+CSQ: ,99'], ['CSQ 20'], ['+CREG: 0,1']]) # nothing that could be interpreted
            elif p == 'supportedCommands':
                names = [rng.choice(CMDS) for _ in range(rng.choice([1, 2, 3, 30, 120]))]
                o['want'] = names
                st = rng.choice(['single', 'single-space', 'bare', 'multi', 'multi-cr', 'spaced'])
                o['lines'] = {'single': ['+CLAC:' + ','.join(names)], 'single-space': ['+CLAC: ' + ', '.join(names)], 'bare': [','.join(names)], 'multi': names, 'multi-cr': [n + '\r' for n in names], 'spaced': [' , '.join(names)]}[st]
                if rng.random() < .06: o['lines'], o['want'] = [], None
            elif p == 'smsc':
                v = rng.choice([None, '+27820001111', '0820001111', '1234', '+1'])
                o['want'] = v
                sp = rng.choice([' ', ' ', '', '  '])
                o['lines'] = rng.choice([['+CSCA:%s"",129' % sp], ['+CSCA:%s"",0' % sp], []]) if v is None else ['+CSCA:%s"%s",%d' % (sp, v, rng.choice([145, 129, 161]))]
                if v is None and rng.random() < .4: o['error'] = '+CMS ERROR: 330'
            if 'error' not in o and rng.random() < .12: o['error'] = rng.choice(ERR)
            elif rng.random() < .25: o['race'] = rng.choice(['ring', 'ring', 'clip', 'call', 'twice'])
            if rng.random() < .1: o['busy'] = rng.randint(1, 2)
            q.append(o)
        case['q'] = q
        case['threads'] = rng.choice([1, 1, 2, 3])
    else:
        case['kind'] = 'coverage'
        n = rng.choice([1, 2, 4, 10, 25])
        def reg():
            st = rng.choice([0, 1, 1, 1, 5, 5, 2, 2, 2, 2, 3, 4, 4, 6, 7, 8])
            f = rng.choice(['+CREG: %d,%d', '+CREG: %d,%d', '+CREG:%d,%d', '+CREG: %d,%d,"00A1","12BC"', '+CREG: %d,%d,"00A1","12BC",7', '+CREG: %d,%d,00A1,12BC'])
            return [st, f % (2 if 'A1' in f else rng.choice([0, 1]), st)]
        case['creg'] = [reg() if rng.random() < .93 or k == 0 else [None, rng.choice(ERR + ['OK'])] for k in range(n)]
        # mostly still searching at first
        for k in range(rng.choice([0, 0, 1, 3, 8])):
            if k < n: case['creg'][k] = [2, '+CREG: 0,2'] if rng.random() < .7 else [4, '+CREG: 0,4']
        if rng.random() < .15: case['creg'] = [[None, rng.choice(ERR + ['OK'])]]
        case['csq'] = [rng.choice([0, 0, 99, 99, rng.randint(1, 31)]) for _ in range(rng.choice([1, 1, 2, 5, 12]))] + [rng.choice([0, 99, 7, 31])]
        if rng.random() < .05: case['csq'][rng.randrange(len(case['csq']))] = rng.choice(ERR)
        case['timeout'] = rng.choice([None, None, 1, 2, 3, 5, 10, 30, 60, .5, 2.5, 7.25])
        case['urc'] = rng.random() < .3
        if case['timeout'] is None: case['creg'].append([1, '+CREG: 0,1']); case['csq'].append(17)
    return case

def run(case, rec):
    EX, M = simcase.exceptions, simcase.modem
    vs = simcase.detsched.vsleep
    sig = []
    def main(s):
        m = modemsim.virtual(s, case['cfg'])
        rings = []
        g = M.GsmModem('/dev/sim', incomingCallCallbackFunc=rings.append)
        g.smsTextMode = bool(case.get('text'))
        try: g.connect()
        except Exception as e: rec.violation('connect-failed', '%s: %s' % (type(e).__name__, e)); return
        (queries if case['kind'] == 'queries' else coverage)(s, m, g, rings)
        rec.expect(not m.faults, 'protocol', lambda: repr(m.faults[:3]))
        g.close()
    COMMAND = {'manufacturer': 'AT+CGMI', 'model': 'AT+CGMM', 'revision': 'AT+CGMR', 'imei': 'AT+CGSN', 'imsi': 'AT+CIMI', 'networkName': 'AT+COPS?', 'signalStrength': 'AT+CSQ', 'supportedCommands': 'AT+CLAC', 'smsc': 'AT+CSCA?'}
    def queries(s, m, g, rings):
        table, busy = {}, {}
        raced = [0]
        clip, ext = m.settings.get('+CLIP') == '=1', m.settings.get('+CRC') == '=1'
        def override(cmd):
            for o in reversed(active):
                if COMMAND[o['p']] == cmd:
                    if o.get('busy', 0) > o.setdefault('nbusy', 0): o['nbusy'] += 1; return [], '+CME ERROR: 515'
                    pre = []
                    if 'race' in o:
                        for _ in range(2 if o['race'] == 'twice' else 1):
                            r = ['+CRING: VOICE' if ext else 'RING'] + (['+CLIP: "+4477009",145,,,,0'] if clip and o['race'] != 'ring' else [])
                            if o['race'] == 'call': r = {'huawei': ['^CONN:5,0'], 'wavecom': ['+WIND: 6,7'], 'zte': ['HANGUP: 7']}.get(m.c['calls'], r)
                            if r[0] in ('RING', '+CRING: VOICE'): raced[0] += 1
                            pre += r
                        rec.count('raced')
                    if 'error' in o: return pre, o['error']
                    return pre + o['lines'], 'OK'
            return None
        m.override = override
        active = []
        def ask(o):
            p = o['p']
            if p == 'smsc':
                if not hasattr(g, '_smscNumber'): return
                g._smscNumber = None # (forget the number that was read when connecting)
            active.append(o)
            try:
                try: got = getattr(g, p)
                except Exception as e: got = e
            finally: active.remove(o)
            rec.count('queries')
            ctx = '%s answered %r %s' % (p, o['lines'], o.get('error', ''))
            if 'error' in o:
                rec.count('refused')
                if p in ('revision', 'supportedCommands') or p == 'smsc' and o['error'] == '+CMS ERROR: 330':
                    rec.count('none_answers'); rec.eq(got, None, 'unsupported-query', ctx)
                else:
                    code = int(o['error'].split()[-1]) if o['error'][-1].isdigit() else None
                    rec.expect(isinstance(got, EX.CommandError) and (code is None or getattr(got, 'code', None) == code), 'refused-query', lambda: '%s: got %r' % (ctx, got))
            else:
                if o['want'] is None: rec.count('none_answers')
                if o['want'] == 'CommandError' and p == 'signalStrength': rec.count('uninterpretable'); rec.expect(isinstance(got, EX.CommandError), p, lambda: '%s: got %r' % (ctx, got))
                else: rec.eq(got, o['want'], p, ctx)
            sig.append((p, repr(o['want'])[:20], o.get('error')))
        # one property at a time per thread: the answer depends on the property only
        groups = [[] for _ in range(case['threads'])]
        order = sorted(COMMAND)
        for o in case['q']:
            o = dict(o); groups[order.index(o['p']) % case['threads']].append(o)
        def work(l):
            for o in l:
                try: ask(o)
                except Exception as e: rec.violation('harness', repr(e)); raise
                vs(.05)
        ts = [threading.Thread(target=work, args=(l,)) for l in groups]
        for t in ts: t.start()
        for t in ts: t.join()
        vs(1.5)
        rec.eq(len(rings), raced[0], 'raced-notification', 'rings in front of an answer that reached the callback')
    def coverage(s, m, g, rings):
        seen = []
        nc, nq = [0], [0]
        def override(cmd):
            if cmd == 'AT+CREG?':
                st, l = case['creg'][min(nc[0], len(case['creg']) - 1)]; nc[0] += 1
                seen.append(('creg', st, s.now))
                pre = ['+CREG: 1'] if case['urc'] and nc[0] % 2 else ['+CREG: 2,"00A1","12BC"'] if case['urc'] and nc[0] % 3 == 0 else []
                if st is None: return ([], l)
                return pre + [l], 'OK'
            if cmd == 'AT+CSQ':
                v = case['csq'][min(nq[0], len(case['csq']) - 1)]; nq[0] += 1
                seen.append(('csq', v, s.now))
                if isinstance(v, str): return [], v
                return ['+CSQ: %d,99' % v], 'OK'
            return None
        m.override = override
        t0 = s.now
        T = case['timeout']
        try: got = g.waitForNetworkCoverage() if T is None else g.waitForNetworkCoverage(T)
        except Exception as e: got = e
        took = s.now - t0
        rec.count('waits')
        sig.append((T, [x[:2] for x in seen][:12], repr(got)[:30]))
        ctx = 'timeout %r, answers %r, %.2f s: %r' % (T, [(a, b, round(c - t0, 2)) for a, b, c in seen][-12:], took, got)
        # reference: registration first, then the first positive signal strength
        want, phase = None, 'reg'
        for n, (k, v, t) in enumerate(seen):
            last = n == len(seen) - 1
            if phase == 'reg':
                if not rec.expect(k == 'creg', 'order', lambda: 'signal strength was asked for before registration: ' + ctx): return
                if v is None: phase = 'csq'; rec.count('unsupported_creg')
                elif v in (1, 5): phase = 'csq'; rec.count('registered')
                elif v in (0, 3): want = 'impossible'
            elif k == 'csq':
                if isinstance(v, str): want = 'error'
                elif v not in (0, 99): want = v
                else: rec.count('zero_signal')
            if want is not None:
                if not rec.expect(last, 'late', lambda: 'went on after the decisive answer %d: %s' % (n, ctx)): return
        if want == 'impossible': rec.count('impossible'); rec.expect(isinstance(got, EX.InvalidStateException), 'registration-impossible', lambda: ctx)
        elif want == 'error': rec.expect(isinstance(got, EX.CommandError), 'signal-error', lambda: ctx)
        elif want is not None:
            rec.expect(got == want, 'signal', lambda: ctx)
        else:
            rec.count('timed_out')
            rec.expect(isinstance(got, EX.TimeoutException), 'no-coverage', lambda: ctx)
            if T is not None: rec.expect(T - .001 <= took <= T + 1 + case['cfg']['delay'] + .5, 'coverage-timeout', lambda: ctx)
        if want is not None and T is not None: rec.expect(took <= T + 1.5 + 2 * case['cfg']['delay'], 'coverage-timeout', lambda: ctx)
        # asked at a reasonable rate
        gaps = [b[2] - a[2] for a, b in zip(seen, seen[1:])]
        rec.expect(all(x <= 1 + 2 * case['cfg']['delay'] + .5 for x in gaps), 'polling', lambda: 'gaps %r: %s' % (gaps, ctx))
    ok, s = simcase.run(rec, case['sched'], main, max_steps=400000)
    rec.key(sig, case['cfg']['profile'], s.sig)
