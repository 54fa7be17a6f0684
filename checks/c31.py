# -*- coding: utf-8 -*-
import os, threading, types
import common, gen, simcase, modemsim, smsgen, spec_pdu as sp
ID = 'C31'
QUICK, THOROUGH = 1500, 80000
RULE = ('the five example programs of the documentation, run as they are (only number, port and PIN are set) against simulated modems of every family: calls that are answered, rejected, refused, ended before or during the tones; incoming calls that ring 1..4 times; received messages, single and in bursts; '
        'USSD replies that leave the session open or not; PIN, late coverage, latency, fragmentation. What the programs print, the commands, tones and messages at the modem and the end of the program are judged. Distinct by (program, scenario, schedule hash).')
ASSUMPTIONS = ['calls end at least 1 s after they have been answered and not within 0.5 s of a step of the program', 'each incoming call has its own number', 'a ring and its caller identification arrive in one burst', 'ZTE modems do not refuse the dial command itself']
FLOORS = {'dialled': 25, 'answered': 12, 'tones_played': 8, 'interrupted': 3, 'ended_early': 2, 'rejected': 2, 'refused': 1, 'incoming': 12, 'incoming_answered': 5, 'replies': 10, 'ussd': 4, 'cancelled': 1, 'process_ends': 20}
TONES = '9515999955951'
PROGS = {'dialcb': 'dial_callback_demo', 'dialpoll': 'dial_polling_demo', 'incoming': 'incoming_call_demo', 'sms': 'sms_handler_demo', 'ussd': 'ussd_demo'}
CODE = {}
def setup():
    simcase.setup()
    for k, f in PROGS.items():
        p = os.path.join(common.REPO, 'examples', f + '.py')
        CODE[k] = compile(open(p, encoding='utf-8').read(), p, 'exec')

def gen_case(rng, i, tier):
    prof = rng.choice(sorted(p for p in modemsim.PROFILES if modemsim.PROFILES[p].get('calls') in ('poll', 'huawei', 'wavecom', 'zte')))
    prog = rng.choice(['dialcb', 'dialcb', 'dialpoll', 'dialpoll', 'incoming', 'incoming', 'sms', 'ussd'])
    while prog == 'sms' and prof == 'nokia': prof = rng.choice(sorted(modemsim.PROFILES))
    c = {'prog': prog, 'cfg': {'profile': prof, 'delay': rng.choice([0, 0, .03]), 'chunky': rng.random() < .2 and prog != 'incoming', 'seed': rng.getrandbits(32), 'framing': rng.choice([0, 1, 2]), 'echo': rng.random() < .5}, 'pin': rng.choice([None, None, None, '1234', 'needless']), 'sched': simcase.sched_params(rng)}
    if rng.random() < .3: c['cfg'].update(creg=[2] * rng.randint(0, 3) + [rng.choice([1, 5])], csq=[99] * rng.randint(0, 3) + [rng.randint(1, 31)])
    if prog.startswith('dial'):
        c['number'] = rng.choice(['+', '']) + gen.digits(rng, 3, 14)
        f = c['fate'] = rng.choice(['ok', 'ok', 'ok', 'ends', 'rejected', 'refused', 'fails', 'fails'])
        if f == 'refused' and modemsim.PROFILES[prof]['calls'] == 'zte': c['fate'] = 'rejected'
        c.update(setup=round(rng.uniform(.05, 1.5), 3), answer=round(rng.uniform(1.2, 6), 3), fail=[rng.randrange(13), rng.choice(['cme30', 'cme3', 'cme30', 'ERROR', '+CME ERROR: 100'])], error=rng.choice(['ERROR', '+CME ERROR: 100', 'NO CARRIER-']))
        if c['error'] == 'NO CARRIER-': c['error'] = 'ERROR'
    elif prog == 'incoming': c['calls'] = [{'number': '+4490%d%s' % (k, gen.digits(rng, 2, 6)), 'rings': rng.choice([1, 2, 2, 3, 4]), 'gap': rng.choice([2.5, 3, 4]), 'fail': rng.choice([None, None, None, [rng.randrange(13), rng.choice(['cme30', 'cme3'])]])} for k in range(rng.choice([1, 1, 2, 3]))]
    elif prog == 'sms': c['msgs'] = [{'t': round(rng.choice([rng.uniform(0, 3), rng.uniform(0, 20), 1]), 3), 'msg': smsgen.rmsg(rng, 'm%d' % k, False), 'early': rng.random() < .3} for k in range(rng.choice([1, 2, 4, 6]))]
    else: c['ussd'] = {'m': rng.choice([0, 1, 1, 2]), 'text': rng.choice(['Balance: 5', 'Menu 1) a 2) b', 'x']), 'when': rng.choice(['before', 'after', 'after']), 'delay': rng.choice([.05, 1, 4])}
    if prog != 'sms': c['tone'] = rng.choice([.05, .05, .05, .3, .7])
    return c

def run(case, rec):
    EX, M = simcase.exceptions, simcase.modem
    vs = simcase.detsched.vsleep
    prog = case['prog']
    def main(s):
        cfg = dict(case['cfg'])
        if case['pin'] == '1234': cfg['pin_state'] = 'SIM PIN'
        m = modemsim.virtual(s, cfg)
        out = []
        ns = {'__name__': 'example'}
        exec(CODE[prog], ns)
        ns['print'] = lambda *a: out.append((s.now, ' '.join('%s' % x for x in a)))
        ns['logging'] = types.SimpleNamespace(basicConfig=lambda **k: debug.start(), DEBUG=10)
        ns.update(PORT='/dev/sim', PIN=case['pin'] and '1234', NUMBER=case.get('number'))
        end = {}
        def program():
            try: ns['main']()
            except Exception as e: end['exc'] = e
            end['t'] = s.now
        said = lambda x: sum(l.startswith(x) for _, l in out)
        n_cmd = lambda c: sum(1 for _, k, x in m.log if k == 'cmd' and x == c)
        ctx = lambda: '%s, %r: printed %r; commands %r; ended with %r' % (prog, {k: v for k, v in case.items() if k not in ('cfg', 'sched', 'prog')}, [l for _, l in out], [x for _, k, x in m.log if k == 'cmd' and x not in ('AT+CLCC', 'AT+CSQ')][-8:], end.get('exc'))
        E = lambda cond, name: rec.expect(cond, name, ctx)
        t = threading.Thread(target=program)
        fail = case.get('fail') if case.get('fate') == 'fails' else None
        cme = lambda x: m.cme(int(x[3:])) if x.startswith('cme') else x
        if prog.startswith('dial'):
            f = {}
            def on_call(call):
                f['t_up'] = s.now
                if fail: m.dtmf_fail = {fail[0]: cme(fail[1])}
                m.c['tone_time'] = case.get('tone', .05)
                def end_(): 
                    if m._alive(call): f['t_end'] = s.now; m.remote_end(call['id'], reject=call['state'] == 2)
                def answer():
                    if not m._alive(call): return
                    f['t_ans'] = s.now; m.remote_answer(call['id'])
                    if case['fate'] == 'ends': m.at(1.05, end_)
                m.at(case['setup'] + case['answer'], end_ if case['fate'] == 'rejected' else answer)
            m.on_dial = lambda number: {'refuse': case['error']} if case['fate'] == 'refused' else {'setup': case['setup'], 'on_call': on_call}
            t.start()
            t1 = s.now
            while 't' not in end and s.now < t1 + 60: vs(.5)
            vs(6)
            rec.count('dialled')
            if not E('t' in end, 'not-ended'): m.line.fail('gone'); vs(5); return
            rec.eq([x[2] for x in m.call_log if x[1] == 'dial'], [case['number']], 'dialled-number', ctx())
            fate = case['fate']
            if fate == 'refused':
                rec.count('refused'); E(isinstance(end.get('exc'), (EX.CommandError, EX.TimeoutException)), 'refusal'); E(not said('Call has been'), 'refusal')
            else:
                E(end.get('exc') is None, 'program-failed')
                if fate == 'rejected':
                    rec.count('rejected')
                    E(said('Call has been ended by remote party') == 1 if prog == 'dialcb' else said('Call was not answered') == 1, 'told'); E(not said('Call has been answered'), 'told'); E(not m.tones and not n_cmd('ATH'), 'commands')
                else:
                    rec.count('answered')
                    E(said('Call has been answered') == 1, 'told')
                    ta = [x for x, l in out if l.startswith('Call has been answered')]
                    if ta: E(f['t_ans'] <= ta[0] <= f['t_ans'] + (.5 if m.c['calls'] != 'poll' else 1.2) + (.6 if prog == 'dialpoll' else 0), 'told-late')
                    if fate == 'ends':
                        rec.count('ended_early'); E(said('Call has been ended by remote party') == 1 and not m.tones and not n_cmd('ATH') and not said('Hanging up'), 'ended-call')
                    else:
                        dtmf = m.c['dtmf'] is not None
                        if fail and dtmf:
                            cut = fail[1].startswith('cme')
                            rec.count('interrupted' if cut else 'tones_refused')
                            E(''.join(x[2] for x in m.tones) == TONES[:fail[0]], 'tones')
                            E(said('DTMF playback interrupted') == cut and said('DTMF playback failed') == (not cut), 'tones-told')
                            if cut: E(any('CME Error %s' % fail[1][3:] in l for _, l in out), 'tones-told')
                        elif dtmf: rec.count('tones_played'); E(''.join(x[2] for x in m.tones) == TONES and not said('DTMF'), 'tones')
                        else: E(said('DTMF playback failed') == 1, 'tones-told')
                        E(said('Hanging up') == 1 and n_cmd('ATH') == 1, 'hangup')
            E(not m.calls or fate == 'refused', 'call-left')
        elif prog == 'incoming':
            t.start(); vs(8)
            for c in case['calls']:
                rec.count('incoming')
                mark, tm, nout = len(m.log), len(m.tones), len(out)
                m.ntones = 0; m.c['tone_time'] = case.get('tone', .05); m.dtmf_fail = {c['fail'][0]: cme(c['fail'][1])} if c['fail'] else {}
                cid = m.incoming(c['number']); call = m.calls[cid]
                rings = 0
                while rings < c['rings'] and m._alive(call) and call['state'] == 4: rings += 1; m.urc(*m.ring(cid)); vs(c['gap'])
                if m._alive(call) and call['state'] == 4: m.remote_end(cid)
                vs(12)
                cmds = [x for _, k, x in m.log[mark:] if k == 'cmd' and x[:3] in ('ATA', 'ATH')]
                lines = [l for _, l in out[nout:]]
                got = ''.join(x[2] for x in m.tones[tm:])
                E(sum(l == 'Incoming call from: ' + c['number'] for l in lines) == 1, 'announced')
                if c['rings'] == 1: E(not cmds and not got and len(lines) == 1, 'not-asked-for')
                elif any('no DTMF' in l for l in lines): E(cmds == ['ATH'] and not got, 'refused-call')
                else:
                    rec.count('incoming_answered')
                    E(cmds == ['ATA', 'ATH'], 'commands')
                    if c['fail'] and m.c['dtmf']: rec.count('interrupted'); E(got == TONES[:c['fail'][0]] and sum(l.startswith('DTMF playback interrupted') for l in lines) == 1, 'tones')
                    elif m.c['dtmf']: rec.count('tones_played'); E(got == TONES, 'tones')
                E(not m.calls, 'call-left')
                if rec.violations: break
        elif prog == 'sms':
            t.start(); vs(8)
            mem = m.c['mems'][0]
            for x in case['msgs']:
                def arrive(x=x): idx = m.store(mem, smsgen.build(x['msg']), None); (m.urc_early if x['early'] else m.urc)('+CMTI: "%s",%d' % (mem, idx))
                s.at(x['t'], arrive)
            vs(40)
            want = []
            for x in case['msgs']:
                txt, num = x['msg']['text'], x['msg']['number']
                want.append((num, 'SMS received: "%s%s"' % (txt[:20], '...' if len(txt) > 20 else '')))
            sent = []
            for r in m.submitted:
                d = sp.parse_submit(bytes.fromhex(r['body'])); sent.append((d['da'].display(), d['text']))
            rec.count('replies', len(sent))
            rec.eq(sorted(sent), sorted(want), 'replies', ctx())
            E(said('== SMS message received') == len(want) == said('SMS sent.'), 'announced')
            E(not m.stores[mem], 'left-on-sim')
        else:
            u = case['ussd']
            def on_ussd(text):
                l = '+CUSD: %d,"%s",15' % (u['m'], u['text'])
                if u['when'] == 'before': return [l], 'OK'
                m.at(u['delay'], lambda: m.urc(l)); return [], 'OK'
            m.on_ussd = on_ussd
            t.start()
            while 't' not in end and s.now < 60: vs(.5)
            rec.count('ussd')
            if E('t' in end and end.get('exc') is None, 'program-failed'):
                E(said('USSD reply received: ' + u['text']) == 1, 'reply')
                E([x for _, x in m.ussd_log] == ['*101#'] + ([None] if u['m'] == 1 else []), 'session')
                E(said('Closing') == (u['m'] == 1), 'session')
                rec.count('cancelled', u['m'] == 1)
        rec.expect(not m.faults, 'protocol', lambda: '%r; %s' % (m.faults[:3], ctx()))
        if prog in ('incoming', 'sms'): E('t' not in end, 'program-ended')
        if 't' in end: # nothing keeps the process alive
            vs(6); live = [x.name for x in s.tasks if not x.done and x is not s.main and x.thread is not None and not x.thread.daemon]
            rec.count('process_ends'); rec.expect(not live, 'keeps-running', lambda: '%r; %s' % (live, ctx()))
        m.line.fail('gone'); vs(3)
        t.join(30)
        E(not t.is_alive(), 'not-ended')
    debug = simcase.Debugging(rec)
    if case['sched']['seed'] % 3 == 0: debug.start()
    try: ok, s = simcase.run(rec, case['sched'], main, max_steps=900000)
    finally: debug.stop()
    rec.key(prog, case.get('fate'), s.sig)
