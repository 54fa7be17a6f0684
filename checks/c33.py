# -*- coding: utf-8 -*-
import copy, pickle, re, traceback
import common
ID = 'C33'
QUICK, THOROUGH = 40000, 2000000
RULE = ('(a) every error class, with every code 0..999 and random commands, made as the library makes them, and also with a cause; what it tells, what it is an instance of, and copies, deep copies and pickled copies (also of copies, and within containers and other errors) are compared with what was reported; '
        '(b) the four search helpers for response lines, on random lists (and tuples, iterators) of lines, with prefixes and patterns that match none, some or all of them, compared with a direct search. Distinct by (operation, class, code, size, hits).')
ASSUMPTIONS = ['commands are strings', 'errors are copied with the copy and pickle modules']
FLOORS = {'errors': 30, 'special': 5, 'copies': 60, 'searches': 30, 'found': 10, 'not_found': 5, 'several': 5}
SPECIAL = {('CME', 11): 'PinRequiredError', ('CME', 16): 'IncorrectPinError', ('CME', 12): 'PukRequiredError', ('CMS', 330): 'SmscNumberUnknownError'}
WORDS = ['OK', 'ERROR', '+CMGS: 5', '+CMGS', '+CSQ: 20,99', '+CREG: 0,1', '+CPIN: READY', '', ' ', '+CUSD: 0,"x",15', 'RING', '+CMTI: "SM",3', '+csq: 1', '\xe9\u20ac', '+CSQ: 7\r', 'x\ny']
PATTERNS = [r'^\+CSQ:\s*(\d+)', r'\+CMGS', r'.*', r'^$', r'^OK$', r'(\d+),(\d+)', r'.*(\d+)$', r'^\+C(?P<n>...)', r'nothing', r'(?i)\+CSQ', r'x?']

def setup():
    common.import_repo()
    global EX, util
    from gsmmodem import exceptions as EX, util

def gen_case(rng, i, tier):
    if rng.random() < .5:
        kind = rng.choice(['CME', 'CME', 'CMS', 'CMS', 'plain', 'none', 'timeout', 'interrupted', 'interrupted', 'state', 'encoding', 'direct'])
        return {'op': 'error', 'kind': kind, 'cls': rng.choice(sorted(set(SPECIAL.values()))), 'code': rng.choice([3, 11, 12, 16, 30, 100, 310, 330, 500, 515, 0, 1, rng.randrange(1000)]), 'cause': rng.choice(['CME', 'CMS', 'plain', None]),
                'command': rng.choice(['AT+CMGS=23', 'AT+CPIN="1234"', 'ATD123;', 'AT', '', 'AT+X=\xe9\u20ac{0}%s']), 'data': rng.choice([None, [], ['a'], ['+CSQ: 1', 'x']]), 'how': [rng.choice(['copy', 'deepcopy', 'p0', 'p1', 'p2', 'p3', 'p4', 'p5', 'list', 'dict', 'inside']) for _ in range(rng.choice([1, 1, 2, 3]))]}
    return {'op': 'search', 'lines': [rng.choice(WORDS) for _ in range(rng.choice([0, 1, 2, 3, 5, 12]))], 'prefix': rng.choice(['+CMGS:', '+CSQ', '', 'OK', '+C', 'zzz', '+CPIN']), 'pattern': rng.choice(PATTERNS), 'seq': rng.choice(['list', 'list', 'tuple', 'iter'])}

def make(kind, case):
    """ (error, what it must be and tell) """
    cmd, code = case['command'], case['code']
    if kind == 'CME': e = EX.CmeError(cmd, code)
    elif kind == 'CMS': e = EX.CmsError(cmd, code)
    elif kind == 'plain': e = EX.CommandError(cmd)
    elif kind == 'none': e = EX.CommandError()
    elif kind == 'direct': e = getattr(EX, case['cls'])(cmd)
    elif kind == 'timeout': e = EX.TimeoutException(case['data'])
    elif kind == 'state': e = EX.InvalidStateException(cmd)
    elif kind == 'encoding': e = EX.EncodingError(cmd)
    else: e = EX.InterruptedException(cmd, make(case['cause'], case) if case['cause'] else None)
    return e

def judge(rec, kind, case, e, ctx):
    cmd, code = case['command'], case['code']
    rec.expect(isinstance(e, EX.GsmModemException) and isinstance(e, Exception), 'class', lambda: '%s: %r' % (ctx, type(e)))
    want = {'plain': 'CommandError', 'none': 'CommandError', 'timeout': 'TimeoutException', 'interrupted': 'InterruptedException', 'state': 'InvalidStateException', 'encoding': 'EncodingError'}.get(kind)
    if kind in ('CME', 'CMS', 'direct'):
        if kind == 'direct': (typ, code), = [k for k, v in SPECIAL.items() if v == case['cls']]
        else: typ = kind
        want = SPECIAL.get((typ, code), 'CmeError' if typ == 'CME' else 'CmsError')
        if (typ, code) in SPECIAL: rec.count('special')
        rec.eq((e.command, e.type, e.code), (cmd, typ, code), 'told', ctx)
        rec.expect(isinstance(e, EX.CommandError) and isinstance(e, EX.CmeError if typ == 'CME' else EX.CmsError), 'class', lambda: '%s: %r' % (ctx, type(e).__mro__))
        rec.eq(isinstance(e, EX.SecurityException), typ == 'CME' and code in (11, 12, 16), 'class', ctx)
        rec.expect(re.match(r'%s %d(?!\d)' % (typ, code), str(e)), 'message', lambda: '%s: %r' % (ctx, str(e)))
    elif kind in ('plain', 'none'):
        rec.eq((e.command, e.type, e.code, str(e)), (cmd, None, None, cmd) if kind == 'plain' else (None, None, None, ''), 'told', ctx)
        rec.expect(not isinstance(e, (EX.CmeError, EX.CmsError)), 'class', lambda: ctx)
    elif kind == 'timeout': rec.eq(e.data, case['data'], 'told', ctx)
    elif kind in ('state', 'encoding'): rec.eq(str(e), cmd, 'message', ctx)
    elif kind == 'interrupted':
        rec.eq(str(e), cmd, 'message', ctx); rec.expect(isinstance(e, EX.InvalidStateException), 'class', lambda: ctx)
        if not case['cause']: rec.eq(e.cause, None, 'told', ctx)
        else: judge(rec, case['cause'], case, e.cause, ctx + ': cause')
    rec.eq(type(e).__name__, want, 'class', ctx)

def duplicate(how, e):
    if how == 'copy': return copy.copy(e)
    if how == 'deepcopy': return copy.deepcopy(e)
    if how == 'list': return copy.deepcopy([e, e])[1]
    if how == 'dict': return pickle.loads(pickle.dumps({'e': (e, 1)}))['e'][0]
    if how == 'inside':
        o = RuntimeError('outer', e); return pickle.loads(pickle.dumps(o)).args[1]
    return pickle.loads(pickle.dumps(e, int(how[1])))

def run(case, rec):
    if case['op'] == 'error':
        rec.count('errors')
        ctx = '%s %r %r' % (case['kind'], case['command'], case['code'])
        e = make(case['kind'], case)
        judge(rec, case['kind'], case, e, ctx)
        try: raise e
        except EX.GsmModemException as x: rec.expect(x is e, 'raised', lambda: ctx)
        text = str(e), ''.join(traceback.format_exception_only(type(e), e))
        for how in case['how']:
            rec.count('copies')
            ctx += ' > ' + how
            try: e = duplicate(how, e)
            except Exception as x: rec.violation('not-copied', '%s: %s: %s' % (ctx, type(x).__name__, x)); return
            judge(rec, case['kind'], case, e, ctx)
            rec.eq((str(e), ''.join(traceback.format_exception_only(type(e), e))), text, 'message', ctx)
        rec.key('error', case['kind'], case['code'], tuple(case['how']))
        return
    rec.count('searches')
    ctx = repr(case)
    seq = {'list': list, 'tuple': tuple, 'iter': iter}[case['seq']]
    lines = case['lines']
    keep = list(lines)
    first = next((l for l in lines if l[:len(case['prefix'])] == case['prefix']), None)
    rec.eq(util.lineStartingWith(case['prefix'], seq(lines)), first, 'prefix', ctx)
    pat = re.compile(case['pattern'])
    hits = [m for m in (pat.match(l) for l in lines) if m is not None]
    show = lambda m: m and (m.string, m.span(), m.groups(), m.groupdict())
    rec.count('found' if hits else 'not_found'); rec.count('several', len(hits) > 1)
    rec.eq(show(util.lineMatching(case['pattern'], seq(lines))), show(hits[0]) if hits else None, 'first-match', ctx)
    rec.eq(show(util.lineMatchingPattern(pat, seq(lines))), show(hits[0]) if hits else None, 'first-match', ctx)
    rec.eq([show(m) for m in util.allLinesMatchingPattern(pat, seq(lines))], [show(m) for m in hits], 'all-matches', ctx)
    rec.eq(lines, keep, 'lines-changed', ctx)
    rec.key('search', case['pattern'], len(lines), len(hits), first is not None)
