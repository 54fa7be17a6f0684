# -*- coding: utf-8 -*-
import common, simcase, modemsim
ID = 'C13'
QUICK, THOROUGH = 4000, 200000
RULE = ('connect() (and, after a failure, a second connect() of a new object with the right PIN) on every device profile with a SIM that is ready, waits for its PIN, is blocked (PUK), or waits for another code, with no PIN, the right PIN, a wrong PIN or an odd one; '
        'commands refused until the PIN is entered or only SIM commands; answers with and without OK, with blanks or not, slow, in fragments, SIM busy afterwards; the PINs that reached the SIM and the outcome are judged. Distinct by (profile, SIM state, PIN kind, quirks).')
ASSUMPTIONS = ['the modem answers +CPIN? within 0.25 s (the library\'s own limit for this query)']
FLOORS = {'pins_sent': 10, 'rejected': 5, 'ready': 10, 'pin_missing': 5, 'other_states': 5}
LEVEL = 'fault_enumeration'

def setup(): simcase.setup()

def gen_case(rng, i, tier):
    state = rng.choice(['READY', 'READY', 'SIM PIN', 'SIM PIN', 'SIM PIN', 'SIM PUK', 'PH-SIM PIN', 'SIM PIN2', 'SIM PUK2', 'PH-NET PIN'])
    good = rng.choice(['1234', '0000', '12345678', '0012', '9'*8])
    cfg = {'profile': rng.choice(sorted(modemsim.PROFILES)), 'pin_state': state, 'pin': good, 'delay': rng.choice([0, 0, .05, .1]), 'chunky': rng.random() < .3, 'seed': rng.getrandbits(32), 'framing': rng.choice([0, 1, 2]),
           'echo': rng.random() < .6, 'cpin_sep': rng.choice([' ', ' ', ' ', '']), 'pin_error': rng.choice([None, None, '+CME ERROR: 16'])}
    if rng.random() < .5: cfg['locked'] = rng.choice(['all', 'sim'])
    if rng.random() < .3: cfg['cpin_no_ok'] = rng.random() < .5
    if rng.random() < .2: cfg['sim_busy'] = rng.randint(1, 3)
    if rng.random() < .1: cfg['cmee_locked'] = True
    pin = rng.choice([None, good, good, 'wrong'])
    if pin == 'wrong': pin = rng.choice([x for x in ['1111', '123', '4321', ' ' + good, good + ' ', '12 34', '01234'] if x != good])
    return {'cfg': cfg, 'pin': pin, 'second': rng.random() < .5, 'sched': {'seed': rng.getrandbits(48), 'mode': rng.choice([0, 1, 2])}}

def run(case, rec):
    cfg, pin = case['cfg'], case['pin']
    X = simcase.exceptions
    def main(s):
        m = modemsim.virtual(s, cfg)
        def attempt(pin):
            g = simcase.modem.GsmModem('/dev/sim')
            try: g.connect(pin); return g, None
            except Exception as e: return g, e
        g, e = attempt(pin)
        state = cfg['pin_state']
        sent = [p for _, p, _ in m.pins]
        want = [pin] if state == 'SIM PIN' and pin is not None else []
        rec.expect(sent == want, 'pin-sent', lambda: 'SIM state %r, PIN given %r: PINs sent %r; outcome %r' % (state, pin, m.pins, e))
        rec.count('pins_sent', len(sent))
        rec.expect(not m.faults, 'protocol', lambda: repr(m.faults[:3]))
        what = 'profile %s, SIM %s, PIN given %r (right one: %r)' % (cfg['profile'], state, pin, cfg['pin'])
        if state == 'READY' or state == 'SIM PIN' and pin == cfg['pin']:
            rec.count('ready')
            rec.expect(e is None, 'connect-failed', lambda: '%s: connect raised %s: %s' % (what, type(e).__name__, e))
            rec.expect(m.pin_state == 'READY', 'not-unlocked', what)
        elif state == 'SIM PIN':
            if pin is None:
                rec.count('pin_missing')
                rec.expect(isinstance(e, X.PinRequiredError), 'pin-required-error', lambda: '%s: connect raised %r' % (what, e))
            else:
                rec.count('rejected')
                # without detailed errors the reason cannot be told
                if not cfg.get('cmee_locked') or cfg.get('pin_error'):
                    rec.expect(isinstance(e, X.IncorrectPinError), 'incorrect-pin-error', lambda: '%s: connect raised %r' % (what, e))
                else: rec.expect(isinstance(e, X.CommandError), 'incorrect-pin-error', lambda: '%s: connect raised %r' % (what, e))
        else:
            rec.count('other_states')
            rec.expect(e is None and 'PUK' not in state or isinstance(e, X.GsmModemException), 'blocked-sim', lambda: '%s: connect raised %r' % (what, e))
            if state == 'SIM PUK' and not cfg.get('cmee_locked'): rec.expect(isinstance(e, X.CmeError), 'blocked-sim', lambda: '%s: connect raised %r' % (what, e))
        try: g.close()
        except Exception as x: rec.violation('close-raised', '%s: %s' % (type(x).__name__, x))
        if case['second'] and state == 'SIM PIN':
            n = len(m.pins); st = m.pin_state
            g, e = attempt(cfg['pin'])
            if st == 'READY': rec.expect(len(m.pins) == n, 'pin-sent', lambda: 'second connect to the unlocked SIM: PINs sent %r' % m.pins)
            else: rec.expect([p for _, p, _ in m.pins[n:]] == [cfg['pin']], 'pin-sent', lambda: 'second connect: PINs sent %r' % m.pins)
            rec.expect(e is None, 'connect-failed', lambda: 'second connect raised %s: %s' % (type(e).__name__, e))
            g.close()
    ok, s = simcase.run(rec, case['sched'], main)
    rec.key(cfg['profile'], cfg['pin_state'], None if pin is None else pin == cfg['pin'], cfg.get('locked'), cfg.get('cpin_no_ok'), cfg.get('sim_busy'), cfg['cpin_sep'], cfg['framing'], cfg['chunky'], case['second'])
