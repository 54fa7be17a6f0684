# -*- coding: utf-8 -*-
import sys, os, importlib.util, importlib.machinery, threading
import common, gen, simcase, modemsim, smsgen, spec_pdu as sp
ID = 'C28'
QUICK, THOROUGH = 420, 30000
CPU_BUDGET = 40
RULE = ('2..3 modems of any families in one process, connected in any order and used at the same time by 1..8 operations each: queries, sending with and without delivery report (positive, negative, none), arriving messages, incoming and outgoing calls with tones, USSD, '
        'mode changes, reading the store, callbacks that block or raise, silent modems, closing and reconnecting, refused connections (SIM PIN) and devices that disappear. Every script is first run alone in a fresh copy of the code; '
        'the commands at each port, the outcome and duration of every operation and the callbacks of each connection must be the same when they run together. Distinct by (families, operations, schedule hash).')
ASSUMPTIONS = ['polling for call status (AT+CLCC) is periodic and not compared', 'durations may differ by 1.2 s', 'concatenation references may differ']
FLOORS = {'modems': 200, 'operations': 550, 'commands': 4500, 'callbacks': 120, 'tones': 60, 'mixed_dtmf': 8, 'failed': 10, 'closed': 20, 'blocked': 15, 'reports': 15, 'overlapping_waits': 40}

# ---------------------------------------------------------------- a fresh copy of the code for every run, as in a new process
_code = {}
class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, name):
        if name not in _code: _code[name] = importlib.machinery.SourceFileLoader.get_code(self, name)
        return _code[name]
class Finder(object):
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != 'gsmmodem' and not name.startswith('gsmmodem.'): return None
        base = os.path.join(common.REPO, *name.split('.'))
        pkg = os.path.isdir(base)
        f = os.path.join(base, '__init__.py') if pkg else base + '.py'
        if not os.path.exists(f): return None
        return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f), submodule_search_locations=[base] if pkg else None)
def fresh():
    for n in [n for n in sys.modules if n == 'gsmmodem' or n.startswith('gsmmodem.')]: del sys.modules[n]
    import gsmmodem.modem
    return sys.modules['gsmmodem.modem']
def setup():
    simcase.setup()
    sys.meta_path.insert(0, Finder)

TONES = '0123456789ABCD*#'
PROFS = ['generic', 'generic-clac', 'huawei', 'huawei', 'huawei-ussd', 'huawei-noclac', 'wavecom', 'wavecom-clac', 'zte', 'qualcomm', 'nokia']
def gen_case(rng, i, tier):
    modems = []
    n = rng.choice([2, 2, 3])
    if rng.random() < .3: profs = [rng.choice(PROFS)] * n
    elif rng.random() < .4: profs = [rng.choice(['huawei', 'huawei-ussd']), rng.choice(['generic', 'generic-clac', 'wavecom', 'zte'])] + [rng.choice(PROFS)] * (n - 2); rng.shuffle(profs)
    else: profs = [rng.choice(PROFS) for _ in range(n)]
    focus = rng.choice([None, None, ['report', 'late', 'late', 'send'], ['dial', 'ring'], ['recv', 'list', 'mode'], ['ussd', 'query']])
    mr0 = rng.choice([None, 0, 250])
    for k, prof in enumerate(profs):
        ops = []
        textmode = rng.random() < .25
        kinds = ['query', 'query', 'send', 'send', 'ussd', 'dial', 'dial', 'close', 'mode', 'silent', 'smsc', 'coverage']
        if prof != 'nokia': kinds += ['recv', 'recv', 'ring', 'ring', 'report', 'report', 'late', 'list']
        if focus and rng.random() < .9: kinds = [x for x in kinds if x in focus] or kinds
        for j in range(rng.choice([1, 2, 3, 5, 8])):
            o = {'op': rng.choice(kinds), 'uid': 'm%d.%d' % (k, j), 'gap': rng.choice([0, 0, 0, .3, 2, 5])}
            if o['op'] in ('dial', 'ring'):
                o['number'] = '+44%d%02d%s' % (k, j, gen.digits(rng, 1, 4))
                o['end'] = rng.choice(['hangup', 'hangup', 'remote', 'unanswered'])
                o['tones'] = ''.join(rng.choice(TONES) for _ in range(rng.choice([1, 1, 2, 5])))
                o['hold'] = rng.choice([0, 0, 2, 8])
            if o['op'] in ('send', 'report', 'recv', 'late'):
                o['text'] = '%s %s' % (o['uid'], 'x' * rng.choice([0, 10, 10, 200 if not textmode and o['op'] not in ('report', 'late') else 20])); o['number'] = '+27%d%02d%s' % (k, j, gen.digits(rng, 1, 4))
            if o['op'] in ('report', 'late'): o['after'] = rng.choice([0, .05, 2, None]); o['st'] = rng.choice([0, 0, 0, 0x46])
            if o['op'] == 'recv': o['cb'] = rng.choice(['plain', 'plain', 'block', 'raise', 'reply', 'query'])
            if o['op'] == 'ussd': o['delay'] = rng.choice([0, .5, 3, None])
            ops.append(o)
        r = rng.random()
        if r < .12: ops.append({'op': 'fail', 'kind': 'gone', 'gap': 0, 'uid': 'f'})
        elif r < .3: ops.append({'op': 'close', 'final': True, 'gap': 0, 'uid': 'c'})
        m = {'cfg': {'profile': prof, 'delay': rng.choice([0, 0, 0, .02, .2]), 'chunky': rng.random() < .2, 'seed': rng.getrandbits(32), 'framing': rng.choice([0, 1, 2]), 'imei': '35%013d' % (k * 1000 + i), 'imsi': '6550%011d' % (k * 1000 + i), 'smsc': '+2782000%d' % k, 'csq': [3 + k], 'operator': 'Net %d' % k, 'model': 'Model %d' % k, 'mr0': 40 * k if mr0 is None else mr0},
             'start': rng.choice([0, 0, 0, .2, 1, 6]), 'text': textmode, 'ops': ops, 'refuse': rng.random() < .08}
        if any(o['op'] == 'ring' for o in ops): m['cfg']['chunky'] = False # (RING and +CLIP come in one burst)
        if m['refuse']: m['cfg']['pin_state'] = 'SIM PIN'
        if m['cfg']['chunky'] or m['refuse']: m['cfg']['delay'] = min(m['cfg']['delay'], .02)
        modems.append(m)
    return {'modems': modems, 'together': rng.random() < .6, 'sched': simcase.sched_params(rng)}

class Boom(Exception): pass
def actor(s, M, k, d, rec, out, barrier):
    """ runs the script of modem k; out gets everything observed about this modem """
    port = '/dev/sim%d' % k
    m = modemsim.virtual(s, d['cfg'], port)
    out['m'] = m
    vs = simcase.detsched.vsleep
    res, cbs = out['res'], out['cbs']
    state = {'plan': {}, 'calls': []}
    def smscb(x):
        cbs.append(('sms', x.number, x.text)); rec.count('callbacks')
        how = state['plan'].get(x.number)
        if how == 'block': vs(4)
        elif how == 'raise': raise Boom()
        elif how == 'query': cbs.append(('queried', g.signalStrength))
        elif how == 'reply': cbs.append(('replied', x.reply('re ' + x.text[:20]).text))
    def callcb(c):
        cbs.append(('call', c.number, c.ringCount)); rec.count('callbacks')
        if c not in state['calls']: state['calls'].append(c)
    def repcb(r): cbs.append(('report', r.number, r.reference, r.deliveryStatus)); rec.count('callbacks')
    g = M.GsmModem(port, incomingCallCallbackFunc=callcb, smsReceivedCallbackFunc=smscb, smsStatusReportCallback=repcb)
    g.fatalErrorCallback = lambda e: (cbs.append(('fatal', isinstance(e, Exception))), out['fatal'].append(s.now))
    if d['text']: g.smsTextMode = True
    def do(name, fn):
        t0 = s.now
        out['waiting'][0] = True
        try: v = fn(); r = ('ok', v if isinstance(v, (str, int, bool, float, type(None), list, tuple)) else repr(type(v).__name__))
        except Exception as e:
            r = ('exc', type(e).__name__, getattr(e, 'code', None))
            if type(e).__name__ not in ('TimeoutException', 'CommandError', 'CmsError', 'CmeError', 'PinRequiredError', 'InterruptedException', 'InvalidStateException', 'SerialException', 'PortNotOpenError', 'Boom'): out['odd'].append('%s: %r' % (name, e))
        out['waiting'][0] = False
        res.append((name, r, s.now - t0))
        return r
    reports = {}
    def on_submit(r):
        o = state.get('report')
        if not o: return
        if o['after'] is not None:
            mem = m.c['mems'][-1]
            def arrive():
                idx = m.store(mem, modemsim.report(o['number'], r['mr'], [2024, 1, 2, 3, 4, 5, 0], [2024, 1, 2, 3, 4, 9, 0], o['st']))
                m.urc('+CDSI: "%s",%d' % (mem, idx)); rec.count('reports')
            m.at(o['after'] + .3, arrive)
    m.on_submit = on_submit
    def on_ussd(text):
        o = state.get('ussd')
        if o and o['delay'] is not None: m.at(o['delay'] + .01, lambda: m.urc('+CUSD: 0,"answer %s",15' % o['uid']))
        return [], 'OK'
    m.on_ussd = on_ussd
    barrier(d['start'])
    do('connect', g.connect)
    if d['refuse']:
        do('close', lambda: g.close() if g.alive else None)
        m.pin_state = 'READY'
        do('connect', g.connect)
    vs(.5)
    poll = m.c['calls'] == 'poll'
    for o in d['ops']:
        vs(o['gap'])
        op, uid = o['op'], o['uid']
        rec.count('operations')
        if op == 'query':
            for q in ('signalStrength', 'imei', 'imsi', 'model', 'networkName', 'smsc'): do(q, lambda: getattr(g, q))
        elif op == 'send':
            do('send', lambda: g.sendSms(o['number'], o['text']).reference)
        elif op == 'report':
            state['report'] = o
            do('report', lambda: g.sendSms(o['number'], o['text'], waitForDeliveryReport=True, deliveryTimeout=6).status)
            state['report'] = None
        elif op == 'late':
            state['report'] = o
            keep = []
            do('late', lambda: keep.append(g.sendSms(o['number'], o['text'])) or keep[0].reference)
            vs(3)
            if keep: do('late-status', lambda: [keep[0].status, keep[0].report is not None])
            state['report'] = None
        elif op == 'recv':
            state['plan'][o['number']] = o['cb']
            mem = m.c['mems'][0]
            idx = m.store(mem, modemsim.deliver(o['number'], o['text'], [2024, 1, 2, 3, 4, 5, 8]))
            m.urc('+CMTI: "%s",%d' % (mem, idx))
            if o['cb'] == 'block': rec.count('blocked'); vs(4)
        elif op == 'ussd':
            state['ussd'] = o
            do('ussd', lambda: g.sendUssd(o['uid'], responseTimeout=5).message)
        elif op == 'dial':
            st = lambda c: (cbs.append(('status', c.number, c.answered)), rec.count('callbacks'))
            keep = []
            do('dial', lambda: keep.append(g.dial(o['number'], timeout=5, callStatusUpdateCallbackFunc=st)))
            if keep and m.calls:
                call, cid = keep[0], max(m.calls)
                vs(1)
                if o['end'] != 'unanswered' and cid in m.calls: m.remote_answer(cid); vs(2.5)
                if o['end'] != 'unanswered': do('tones', lambda: call.sendDtmfTone(o['tones']))
                vs(o['hold'])
                if o['end'] == 'remote': m.remote_end(cid); vs(3)
                else: do('hangup', call.hangup)
                vs(2)
                do('state', lambda: [call.active, call.answered, len(g.activeCalls), call.dtmfSupport])
        elif op == 'ring':
            state['calls'] = []
            cid = m.incoming(o['number'])
            for _ in range(2): m.urc(*m.ring(cid)); vs(1.5)
            if state['calls']:
                call = state['calls'][0]
                if o['end'] != 'unanswered':
                    do('answer', lambda: bool(call.answer())); vs(1)
                    do('tones', lambda: call.sendDtmfTone(o['tones'])); vs(o['hold'])
                if o['end'] == 'remote' and not poll and cid in m.calls: m.remote_end(cid); vs(2)
                do('hangup', call.hangup); vs(2)
                if cid in m.calls: del m.calls[cid]
                do('state', lambda: [call.active, call.answered, len(g.activeCalls)])
        elif op == 'close':
            do('close', g.close); rec.count('closed')
            if not o.get('final'): vs(.5); do('connect', g.connect)
        elif op == 'mode':
            def toggle(): g.smsTextMode = not g.smsTextMode
            do('mode', toggle)
        elif op == 'smsc':
            def chsmsc(): g.smsc = '+278300%d' % k
            do('smsc', chsmsc)
        elif op == 'list': do('list', lambda: [x.text if hasattr(x, 'text') else '' for x in g.listStoredSms()])
        elif op == 'coverage': do('coverage', lambda: g.waitForNetworkCoverage(timeout=3))
        elif op == 'silent':
            rec.count('blocked')
            m.override = lambda cmd: 'silent' if cmd == 'AT+CIMI' else None
            do('silent', lambda: g.imsi)
            m.override = None
        elif op == 'fail':
            rec.count('failed')
            m.line.fail(o['kind']); vs(3)
            out['failed'] = s.now
            do('after-failure', lambda: g.signalStrength)
        vs(1.5)
    vs(2)
    do('still-there', lambda: [g.alive, len(g.activeCalls)])
    if g.alive: do('close', g.close)
    out['done'] = True

def observe(out, k):
    """ what a run showed about one modem, without times """
    m = out['m']
    cmds = []
    for _, kind, x in m.log:
        if kind == 'cmd' and not x.startswith('AT+CLCC'): cmds.append(x)
        elif kind == 'body':
            try:
                d = sp.parse_submit(bytes.fromhex(x))
                # the reference of a concatenated message may be any value; the announced length does not depend on it
                cmds.append(('body', d['da'].display(), d['text'], [(i, v[-2:] if i in (0, 8) else v) for i, v in d['ies']]))
            except (sp.SpecError, ValueError): cmds.append(('body', x))
        elif kind != 'out' and kind != 'cmd': cmds.append((kind, x))
    return {'commands': cmds, 'outcomes': [(n, r) for n, r, _ in out['res']], 'callbacks': [c for n, c in enumerate(out['cbs']) if not (c[0] == 'status' and n and out['cbs'][n - 1] == c)], # (the end may be reported twice if it races with the hang-up)
             'tones': [(cid, t) for _, cid, t in m.tones], 'ussd': [x for _, x in m.ussd_log], 'calls': [x[1:] for x in m.call_log], 'protocol faults': [x[0] for x in m.faults]}

def run(case, rec):
    sig = []
    def new(): return {'res': [], 'cbs': [], 'fatal': [], 'odd': [], 'waiting': [False], 'done': False}
    alone = []
    for k, d in enumerate(case['modems']):
        out = new()
        sub = common.Rec()
        M = fresh()
        simcase.run(sub, dict(case['sched'], seed=case['sched']['seed'] ^ (k + 1)), lambda s: actor(s, M, k, d, sub, out, lambda t: None), ignore_uncaught=(Boom,))
        for mech, text in sub.violations: rec.violation('alone-' + mech, 'modem %d alone: %s' % (k, text))
        if rec.violations: return
        alone.append(out)
    outs = [new() for _ in case['modems']]
    M = fresh()
    def main(s):
        ts = []
        vs = simcase.detsched.vsleep
        for k, d in enumerate(case['modems']):
            ts.append(threading.Thread(target=actor, args=(s, M, k, d, rec, outs[k], (lambda t: vs(t)) if case['together'] else (lambda t: vs(t * 2)))))
        for t in ts: t.start()
        def watch():
            while not all(o['done'] for o in outs):
                if sum(o['waiting'][0] for o in outs) > 1: rec.count('overlapping_waits')
                vs(.25)
        w = threading.Thread(target=watch); w.start()
        for t in ts: t.join()
        for o in outs: o['done'] = True
        w.join()
    ok, s = simcase.run(rec, case['sched'], main, max_steps=1500000, ignore_uncaught=(Boom,))
    if not ok: return
    supports = set()
    for k, (d, a, b) in enumerate(zip(case['modems'], alone, outs)):
        rec.count('modems')
        who = 'modem %d (%s) together with %s' % (k, d['cfg']['profile'], [x['cfg']['profile'] for n, x in enumerate(case['modems']) if n != k])
        rec.expect(b['done'] and 'm' in b, 'not-finished', who)
        oa, ob = observe(a, k), observe(b, k)
        rec.count('commands', len(ob['commands'])); rec.count('tones', len(ob['tones']))
        supports.add(b['m'].c['dtmf'])
        for key in oa:
            x, y = oa[key], ob[key]
            if x == y: rec.count('oracle_evaluations'); continue
            n = next((n for n, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            rec.violation('%s-differ' % key.split()[0], '%s: %s number %d is %r, alone it is %r (before that: %r)' % (who, key, n, y[n:n + 3], x[n:n + 3], y[max(0, n - 3):n]))
        for (n1, r1, t1), (n2, r2, t2) in zip(a['res'], b['res']):
            if n1 == n2: rec.expect(abs(t1 - t2) <= 1.2, 'duration', lambda: '%s: %s took %.2f s, alone it takes %.2f s' % (who, n2, t2, t1))
        for x in a['odd'][:2]: rec.violation('alone-odd', '%s: %s' % (who, x))
        # nothing of another modem arrived here
        for n, r, _ in b['res']:
            if n in ('imei', 'imsi', 'model', 'networkName') and r[0] == 'ok': rec.eq(r[1], d['cfg'][{'networkName': 'operator'}.get(n, n)], 'foreign-answer', '%s: %s' % (who, n))
            if n == 'signalStrength' and r[0] == 'ok': rec.eq(r[1], d['cfg']['csq'][0], 'foreign-answer', '%s: %s' % (who, n))
        sig.append((d['cfg']['profile'], [n for n, _, _ in b['res']]))
    if len(supports) > 1: rec.count('mixed_dtmf')
    rec.key(sig, s.sig)
