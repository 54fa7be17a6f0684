# -*- coding: utf-8 -*-
import common, gen, simcase, modemsim
ID = 'C14'
QUICK, THOROUGH = 5000, 250000
RULE = ('connect() on modems composed from 11 base profiles and random quirks: initial echo/error mode/radio state, optional commands missing (with each kind of error reply), command list in 5 formats or none, memories and +CPMS formats, SMSC stored/absent/cleared by +CSMP, '
        'SMSC absent in 3 styles, PIN, busy replies, answer framing, fragmentation and latency, text or PDU mode, SMSC requested or not; afterwards the modem\'s own state is judged. Distinct by quirk combination.')
ASSUMPTIONS = ['+CMGF, +CMEE, ATE and ATZ are mandatory', 'of the configuration commands only +CSMP clears the SMSC number (the documented case)']
FLOORS = {'connected': 95, 'unsupported_features': 100, 'smsc_cleared': 10, 'smsc_requested': 20}

def setup(): simcase.setup()
OPTIONAL = ['AT+CFUN', 'AT+COPS', 'AT+CSMP', 'AT+CPMS', 'AT+CNMI', 'AT+CLIP', 'AT+CRC', 'AT+CVHU', 'AT+CLAC', 'AT+CGMI', 'AT+CSCA', 'AT^CVOICE', 'AT^USSDMODE']

def gen_case(rng, i, tier):
    cfg = {'profile': rng.choice(sorted(modemsim.PROFILES)), 'delay': rng.choice([0, 0, .05, .1]), 'chunky': rng.random() < .3, 'seed': rng.getrandbits(32), 'framing': rng.choice([0, 1, 2]), 'echo': rng.random() < .6,
           'cfun': rng.choice([1, 1, 0, 4]), 'cmee': rng.choice([0, 0, 1, 2]), 'smsc': rng.choice([None, '+27820001111', '0820001111', '1234']), 'smsc_none': rng.choice(['ok', 'empty', '330']),
           'csca_sep': rng.choice([' ', ' ', '']), 'atz_resets': rng.random() < .8}
    if rng.random() < .15: cfg['cfun_line'] = rng.choice(['+CFUN: %d,0' % cfg['cfun'], '+CFUN:%d' % cfg['cfun'], '+CFUN: (0-1,4-7),(0-1)'])
    if rng.random() < .4: cfg['csmp_clears'] = rng.random() < .7
    if rng.random() < .5: cfg['unsupported'] = rng.sample(OPTIONAL, rng.choice([1, 1, 2, 3, 5]))
    if rng.random() < .3: cfg['unsup'] = rng.choice(['ERROR', 'COMMAND NOT SUPPORT', '+CME ERROR: 4', '+CMS ERROR: 302', '+CME ERROR: 3', '+CME ERROR: 100'])
    if rng.random() < .3 and modemsim.PROFILES[cfg['profile']]['clac']: cfg['clac_style'] = rng.choice(['single', 'single-space', 'bare', 'multi', 'multi-cr'])
    if rng.random() < .4 and modemsim.PROFILES[cfg['profile']]['cpms'] == 'std':
        cfg['mems'] = rng.choice([['SM'], ['ME', 'SM'], ['SM', 'ME', 'SR'], ['SR', 'SM'], ['MT', 'SM', 'ME'], ['ME'], ['MT'], ['MT', 'IM', 'OM', 'BM', 'DM']])
        cfg['mems2'] = rng.choice([None, None, ['SM'], ['ME', 'SM'], ['SM', 'SR'], ['MT']])
        if cfg['mems2'] and rng.random() < .4: cfg['mems3'] = rng.choice([['SM'], ['ME', 'SM'], ['SM', 'MT'], ['MT']])
    if rng.random() < .2: cfg['pin_state'] = 'SIM PIN'
    if rng.random() < .2: cfg['device_busy'] = rng.randint(1, 2)
    if rng.random() < .2: cfg['cfun_busy'] = rng.randint(1, 2)
    if rng.random() < .2: cfg['sim_busy'] = rng.randint(1, 3); cfg['sim_busy_cmd'] = rng.choice(['AT+CSCA?', 'AT+CPMS=?', 'AT+CMGF=0', 'AT+CNMI=2,1,0,2'])
    if rng.random() < .15: cfg['no_cnmi'] = True
    req = rng.choice([None, None, '+27999', '083123'])
    if 'AT+CSCA' in cfg.get('unsupported', []): req = None
    return {'cfg': cfg, 'baud': rng.choice([None, None, None, 9600, 460800]), 'text': rng.random() < .4, 'req': req, 'when': rng.choice(['before', 'after']), 'sched': {'seed': rng.getrandbits(48), 'mode': rng.choice([0, 1, 2])}}

def run(case, rec):
    cfg = case['cfg']
    uns = cfg.get('unsupported', [])
    def main(s):
        m = modemsim.virtual(s, cfg)
        g = simcase.modem.GsmModem('/dev/sim', case['baud']) if case.get('baud') else simcase.modem.GsmModem('/dev/sim')
        if case['text']: g.smsTextMode = True
        if case['req'] and case['when'] == 'before': g.smsc = case['req']
        # busy and refused answers cannot be told apart before detailed errors are on
        what = 'modem %r' % {k: v for k, v in cfg.items() if k not in ('seed', 'delay')}
        try: g.connect(m.c['pin'] if cfg.get('pin_state') else None)
        except Exception as e:
            rec.violation('connect-failed', '%s: connect raised %s: %s; last commands %r' % (what, type(e).__name__, e, [x for _, k, x in m.log if k == 'cmd'][-4:])); return
        rec.count('connected'); rec.count('unsupported_features', len(uns))
        if m.c['csmp_clears']: rec.count('smsc_cleared')
        if case['req'] and case['when'] == 'after':
            try: g.smsc = case['req']
            except Exception as e: rec.violation('smsc-setter', '%s: %s' % (type(e).__name__, e))
        def E(name, cond, detail): rec.expect(cond, name, lambda: '%s, text mode %s, SMSC requested %r: %s; commands %r' % (what, case['text'], case['req'], detail, [x for _, k, x in m.log if k == 'cmd']))
        def supported(c): return c not in uns
        E('echo', not m.echo, 'echo is on')
        E('error-mode', m.cmee == 1, 'CMEE=%d' % m.cmee)
        rec.eq(m.line.port.baudrate, case.get('baud') or 115200, 'baud-rate')
        E('sms-mode-getter', g.smsTextMode == case['text'], 'smsTextMode=%r' % g.smsTextMode)
        E('sms-mode', m.mode_text == case['text'], 'CMGF text=%s' % m.mode_text)
        E('radio', m.c['cfun'] == 1 or not supported('AT+CFUN') or cfg.get('cfun_line', '').startswith('+CFUN: ('), 'CFUN=%d' % m.c['cfun'])
        st = m.settings
        nocpms = not supported('AT+CPMS') or m.c['cpms'] == 'nokia'
        if not nocpms:
            E('storage', '+CPMS' in st, 'storage was not selected')
            if not (cfg.get('no_cnmi') or m.c['no_cnmi']) and supported('AT+CNMI'):
                v = st.get('+CNMI', '').lstrip('=').split(',')
                E('indications', len(v) >= 4 and v[0] in '123' and v[1] == '1' and v[3] == '2', 'CNMI %r' % st.get('+CNMI'))
        if supported('AT+CSMP'):
            v = st.get('+CSMP', '=0').lstrip('=').split(',')
            E('report-request', v[0].isdigit() and int(v[0]) & 0x23 == 0x21, 'CSMP %r' % st.get('+CSMP'))
        if supported('AT+CLIP'):
            E('caller-id', st.get('+CLIP') == '=1', 'CLIP %r' % st.get('+CLIP'))
            if supported('AT+CRC'): E('call-type', st.get('+CRC') == '=1', 'CRC %r' % st.get('+CRC'))
        if m.wind is not None: E('call-indications', m.wind & 0x30 == 0x30, 'WIND=%r' % m.wind)
        if '^USSDMODE' in (m.c['clac'] or []) and supported('AT^USSDMODE') and supported('AT+CLAC'): E('ussd-mode', m.ussdmode == 0, 'USSDMODE=%d' % m.ussdmode)
        if '^CVOICE' in (m.c['clac'] or []) and supported('AT^CVOICE') and supported('AT+CLAC'): E('voice-mode', st.get('^CVOICE') == '=0', 'CVOICE %r' % st.get('^CVOICE'))
        want = case['req'] or m.c['smsc']
        if supported('AT+CSCA'):
            E('smsc', m.smsc == want, 'service centre in effect is %r, expected %r' % (m.smsc, want))
            try: got = g.smsc
            except Exception as e: rec.violation('smsc-query', '%s: %s' % (type(e).__name__, e))
            else: rec.eq(got, want, 'smsc-query', what)
        if case['req']: rec.count('smsc_requested')
        rec.expect(not m.faults, 'protocol', lambda: repr(m.faults[:3]))
        g.close()
    ok, s = simcase.run(rec, case['sched'], main)
    rec.key(sorted((k, str(v)) for k, v in cfg.items() if k not in ('seed',)), case['text'], case['req'])
