# -*- coding: utf-8 -*-
import copy, threading
import common, simcase, modemsim, smsgen, spec_pdu as sp
ID = 'C30'
QUICK, THOROUGH = 700, 60000
RULE = ('an object is connected to a device of any family (or fails to), is used by 0..5 operations, and its connection ends: closed, refused (SIM PIN), timed out, or the device disappears while idle, in a burst of notifications, in a command, behind a prompt, in a USSD session, while dialling, ringing or in a call; '
        'then it is connected again, to the same or to another device or SIM, up to 3 times. A second, newly created object with the same user settings is connected to an identical device; the state of the device after connect(), and the commands, results and callbacks of a series of operations afterwards must be the same for both. Distinct by (families, operations, endings, schedule hash).')
ASSUMPTIONS = ['the message reference counter and the tempo of commands may carry over', 'polling for call status (AT+CLCC) is not compared', 'settings the user made (SMS mode, SMSC number) carry over, what was read from the device does not', 'calls do not outlive the connection']
FLOORS = {'reconnects': 70, 'other_family': 30, 'other_sim': 20, 'device_gone': 30, 'failed_connects': 6, 'commands_compared': 2000, 'results_compared': 400, 'left_calls': 10, 'left_notification': 7}

def setup(): simcase.setup()
PROFS = sorted(modemsim.PROFILES)
OPS = ['query', 'recv', 'send', 'report', 'ring', 'ring', 'dial', 'dial', 'ussd', 'list', 'read']
ENDS = ['close', 'close', 'close', 'gone', 'gone-burst', 'gone-burst', 'gone-command', 'gone-prompt', 'gone-ussd', 'gone-dial', 'in-call', 'in-ring', 'gone-call', 'gone-ring', 'refused', 'silent', 'waiting-report']
def rcfg(rng, n):
    cfg = {'profile': rng.choice(PROFS), 'delay': rng.choice([0, 0, 0, .02]), 'seed': rng.getrandbits(32), 'framing': rng.choice([0, 1, 2]), 'smsc': rng.choice([None, '+2782%d' % n, '+2783%d' % n]), 'imei': '35%013d' % n, 'imsi': '6550%011d' % n,
           'csq': [n % 30 + 1], 'operator': 'Net %d' % n, 'model': 'Model %d' % n, 'csmp_clears': rng.random() < .3, 'mr0': rng.choice([0, 0, 17])}
    if rng.random() < .4: cfg['unsupported'] = rng.sample(['AT+CLIP', 'AT+CRC', 'AT+CPMS', 'AT+CNMI', 'AT+CLAC', 'AT+CGMI', 'AT+CSMP', 'AT+CFUN'], rng.choice([1, 1, 2]))
    return cfg
def gen_case(rng, i, tier):
    lives, prev = [], None
    for n in range(rng.choice([2, 2, 2, 3])):
        cfg = rcfg(rng, n)
        if prev is not None and rng.random() < .5:
            cfg = dict(prev, seed=rng.getrandbits(32))
            if rng.random() < .6: cfg['smsc'] = rng.choice([None, '+2784%d' % n, '+2785%d' % n]); cfg['imsi'] = '6550%011d' % n # other SIM
        prev = cfg
        ops = [rng.choice(OPS) for _ in range(rng.choice([0, 1, 2, 3]))]
        lives.append({'cfg': cfg, 'ops': ops, 'end': rng.choice(ENDS), 'close': rng.random() < .6, 'gap': rng.choice([0, .2, 3]), 'set': rng.choice([None, None, None, 'mode', 'smsc', 'mode-off', 'smsc-off'])})
    ops = list(OPS); rng.shuffle(ops)
    lives[-1]['ops'] = ops[:rng.choice([4, 8, 11])]
    return {'lives': lives, 'text': rng.random() < .25, 'sched': simcase.sched_params(rng)}

T0 = [2024, 5, 6, 7, 8, 9, 8]
def run(case, rec):
    case = copy.deepcopy(case)
    EX, M = simcase.exceptions, simcase.modem
    vs = simcase.detsched.vsleep
    sig = []
    def main(s):
        class Host(object):
            """ an object under test with its device and what was observed """
            def __init__(h, port):
                h.port, h.cbs, h.calls = port, [], []
                def call(c): h.cbs.append(('ring', c.number, c.type, c.ringCount, c.ringing)); h.calls.append(c)
                h.g = M.GsmModem(port, incomingCallCallbackFunc=call, smsReceivedCallbackFunc=lambda x: h.cbs.append(('sms', x.number, x.text, x.smsc)), smsStatusReportCallback=lambda x: h.cbs.append(('report', x.reference, x.deliveryStatus)))
            def plug(h, cfg):
                h.m = modemsim.virtual(s, cfg, h.port); h.cbs = []; h.calls = []
                h.m.on_submit = h.submitted; h.rep = None
                h.m.on_ussd = lambda x: (h.m.at(.4, lambda: h.m.urc('+CUSD: 0,"you said %s",15' % x)), ([], 'OK'))[1]
            def submitted(h, r):
                if h.rep is None: return
                mem = h.m.c['mems'][0]
                number = r['arg'].strip('"') if r['arg'].startswith('"') else sp.parse_submit(bytes.fromhex(r['body']))['da'].display()
                def go():
                    i = h.m.store(mem, modemsim.report(number, r['mr'], T0, T0, h.rep))
                    h.m.urc('+CDSI: "%s",%d' % (mem, i))
                h.m.at(1, go)
            def do(h, fn):
                try: v = fn()
                except Exception as e: return ('raised', type(e).__name__, getattr(e, 'code', None))
                return v if isinstance(v, (str, int, bool, type(None), list, tuple)) else type(v).__name__
            def op(h, name, n):
                g, m, do = h.g, h.m, h.do
                sms_ok = m.settings.get('+CNMI') is not None and m.mem1 is not None
                if name == 'query': return [do(lambda p=p: getattr(g, p)) for p in ('manufacturer', 'model', 'revision', 'imei', 'imsi', 'networkName', 'signalStrength', 'smsc', 'supportedCommands', 'smsTextMode')]
                if name == 'recv':
                    if not sms_ok: return None
                    mem = m.mem1; i = m.store(mem, modemsim.deliver('+4477%d' % n, 'text %d' % n, T0))
                    m.urc('+CMTI: "%s",%d' % (mem, i)); vs(2); return sorted(m.stores[mem])
                if name in ('send', 'report'):
                    h.rep = 0 if name == 'report' and sms_ok else None
                    r = do(lambda: (lambda x: (x.number, x.text, x.status))(g.sendSms('+2711%d' % n, 'hello %d' % n, waitForDeliveryReport=h.rep is not None))); vs(2); h.rep = None
                    return r
                if name == 'ring':
                    cid = m.incoming('+3099%d' % n); before = len(h.calls)
                    m.urc(*m.ring(cid)); vs(2)
                    out = [len(h.calls) - before, sorted((k, c.number) for k, c in g.activeCalls.items())]
                    if len(h.calls) > before:
                        c = h.calls[-1]
                        out += [do(c.answer), c.answered, c.ringing]; vs(1)
                        out += [do(c.hangup), c.active]
                    m.calls.pop(cid, None); vs(1.5)
                    return out + [len(g.activeCalls)]
                if name == 'dial':
                    def dial():
                        c = g.dial('+5511%d' % n, 8); h.out = c
                        return (c.id, c.number, c.answered, c.dtmfSupport)
                    h.out = None
                    out = [do(dial)]
                    if h.out is None: vs(2); return out
                    c = h.out; vs(2)
                    out.append(c.answered)
                    for cid in list(m.calls): m.remote_answer(cid)
                    vs(2); out.append(c.answered)
                    out.append(do(lambda: c.sendDtmfTone('1#'))); out.append([x[1:] for x in m.tones])
                    out += [do(c.hangup), c.active]; vs(2)
                    return out + [len(g.activeCalls)]
                if name == 'ussd': return do(lambda: (lambda x: (x.message, x.sessionActive))(g.sendUssd('*%d#' % n, 5)))
                mem = m.mem1
                if mem is None: return None
                i = m.store(mem, modemsim.deliver('+4478%d' % n, 'stored %d' % n, T0))
                if name == 'list': r = do(lambda: [(x.number, x.text) for x in g.listStoredSms()])
                else: r = do(lambda: (lambda x: (x.number, x.text))(g.readStoredSms(i, mem)))
                m.stores[mem].pop(i, None)
                return r
        A = Host('/dev/sim')
        if case['text']: A.g.smsTextMode = True
        user = {'smsc': None}
        n = 0
        last = len(case['lives']) - 1
        def commands(m):
            out = []
            for _, k, x in m.log:
                if k == 'body' and not m.mode_text:
                    try: d = sp.parse_submit(bytes.fromhex(x)); x = (d['da'].display(), d['text'], d['srr'])
                    except Exception: pass
                if k in ('cmd', 'body', 'esc') and x not in ('AT+CLCC', 'AT+CSCA?'): out.append((k, x))
            return out
        for no, life in enumerate(case['lives']):
            cfg = dict(life['cfg']); end = life['end']
            if no < last and end == 'refused': cfg['pin_state'] = 'SIM PIN'
            if life['set'] == 'mode-off': A.g.smsTextMode = not A.g.smsTextMode
            if life['set'] == 'smsc-off' and no and 'AT+CSCA' not in cfg.get('unsupported', []): user['smsc'] = A.g.smsc = '+9900%d' % no
            A.plug(cfg)
            if no:
                rec.count('reconnects')
                old = case['lives'][no - 1]['cfg']
                rec.count('other_family' if old['profile'] != cfg['profile'] else 'other_sim' if old['imsi'] != cfg['imsi'] else 'same_device')
            if no == last: break
            m, g = A.m, A.g
            if end == 'silent':
                k = case['sched']['seed'] % 9
                cnt = [0]
                def hush(cmd): cnt[0] += 1; return 'silent' if cnt[0] > k else None
                m.override = hush
            try: g.connect()
            except Exception as e:
                if end not in ('refused', 'silent'): rec.violation('connect-failed', 'life %d: %s: %s' % (no, type(e).__name__, e)); return
                rec.count('failed_connects')
            else:
                m.override = None
                if end == 'silent' : end = 'close'
                for o in life['ops']: n += 1; A.op(o, n)
                if life['set'] == 'mode': A.g.smsTextMode = not A.g.smsTextMode
                if life['set'] == 'smsc':
                    user['smsc'] = '+9911%d' % no
                    g.smsc = user['smsc']
            gone = lambda: m.line.fail('gone')
            bg = lambda fn: threading.Thread(target=lambda: A.do(fn)).start()
            if end == 'gone': gone()
            elif end == 'gone-burst':
                rec.count('left_notification')
                m.line.deliver(('\r\n%s\r\n' % m.rng.choice(['+CMTI: "%s",0' % (m.mem1 or 'SM'), '+CDSI: "%s",0' % (m.mem1 or 'SM'), 'RING', '+CUSD: 1,"old",15', '+CMTI: "SM",1'])).encode()); gone()
            elif end == 'gone-command': m.override = lambda c: 'silent'; s.at(.5, gone); A.do(lambda: g.signalStrength)
            elif end == 'gone-prompt': m.cmgs_plan = [{'kind': 'body-silent'}]; s.at(.5, gone); bg(lambda: g.sendSms('+1', 'lost')); vs(20)
            elif end == 'gone-ussd': m.on_ussd = lambda x: ([], 'OK'); s.at(.5, gone); bg(lambda: g.sendUssd('*1#', 6)); vs(8)
            elif end == 'gone-dial': m.on_dial = lambda x: {'setup': 60}; s.at(.7, gone); bg(lambda: g.dial('+77', 3)); vs(5)
            elif end == 'waiting-report': bg(lambda: g.sendSms('+2', 'no report', waitForDeliveryReport=True, deliveryTimeout=4)); vs(1)
            elif end in ('in-ring', 'gone-ring'):
                # (the number that calls first after the next connect)
                k = [x for x, o in enumerate(case['lives'][no + 1]['ops']) if o == 'ring']
                cid = m.incoming('+3099%d' % (n + 1 + k[0]) if k and no + 1 == last else '+3099'); m.urc(*m.ring(cid)); vs(1)
                if life['gap'] == .2 and A.calls: A.do(A.calls[-1].answer)
                rec.count('left_calls')
                if end == 'gone-ring': gone(); vs(.5)
            elif end in ('in-call', 'gone-call'):
                A.do(lambda: g.dial('+5599', 5)); vs(1)
                if life['gap'] != .2:
                    for cid in list(m.calls): m.remote_answer(cid)
                    vs(1.5)
                rec.count('left_calls')
                if end == 'gone-call': gone(); vs(.5)
            if end.startswith('gone'): rec.count('device_gone')
            if not end.startswith('gone') or life['close']:
                try: g.close()
                except Exception as e: rec.violation('close-raised', '%s: %s: %s' % (end, type(e).__name__, e)); return
            else: vs(2.5)
            vs(life['gap'])
            m.cut = True
            sig.append((cfg['profile'], life['ops'], end))
        # ---- the last life, next to a newly created object
        life = case['lives'][last]
        B = Host('/dev/sim2')
        if A.g.smsTextMode: B.g.smsTextMode = True
        if user['smsc']: B.g.smsc = user['smsc']
        B.plug(dict(life['cfg']))
        ctx = 'lives %r' % [(l['cfg']['profile'], l['ops'], l['end']) for l in case['lives'][:-1]] + ' then %s' % life['cfg']['profile']
        res = []
        for h in (B, A):
            try: h.g.connect(); res.append(None)
            except Exception as e: res.append('%s: %s' % (type(e).__name__, e))
        if not rec.eq(res[1], res[0], 'connect', ctx) or res[0]:
            for h in (A, B):
                if res[0] is None: h.g.close()
            return
        vs(1)
        a, b = commands(A.m), commands(B.m)
        rec.count('commands_compared', len(b))
        rec.eq((A.m.mode_text, A.m.smsc, A.m.settings), (B.m.mode_text, B.m.smsc, B.m.settings), 'device-state', 'after connect: ' + ctx)
        A.m.log[:] = []; B.m.log[:] = [] # (how connect() gets there is its own business)
        rec.eq(A.cbs, [], 'stale-callback', ctx)
        rec.eq(sorted((k, c.number) for k, c in A.g.activeCalls.items()), [], 'stale-call', ctx)
        for o in life['ops']:
            n += 1
            out = []
            for h in (B, A):
                k = len(h.m.log); h.cbs = []
                r = h.op(o, n); vs(1)
                out.append((r, h.cbs)); h.n = k
            rec.count('results_compared')
            rec.eq(out[1], out[0], 'result-' + o, ctx)
            a, b = commands(A.m), commands(B.m)
            if not rec.eq(a[-30:], b[-30:], 'commands-' + o, ctx): break
        rec.eq((A.m.mode_text, A.m.smsc, A.m.settings), (B.m.mode_text, B.m.smsc, B.m.settings), 'device-state', ctx)
        rec.count('commands_compared', len(commands(B.m)))
        rec.expect(not A.m.faults and not B.m.faults, 'protocol', lambda: repr((A.m.faults[:2], B.m.faults[:2])))
        sig.append((life['cfg']['profile'], life['ops'], len(A.m.log)))
        A.g.close(); B.g.close()
    ok, s = simcase.run(rec, case['sched'], main, max_steps=1500000, ignore_uncaught=(EX.GsmModemException, OSError)) # (handler threads whose device has gone)
    rec.key(sig, s.sig)
