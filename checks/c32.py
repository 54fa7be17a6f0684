# -*- coding: utf-8 -*-
import collections, gc, queue, re, threading, time, types, weakref
import common, simcase, modemsim, spec_pdu as sp
ID = 'C32'
QUICK, THOROUGH = 500, 30000
RULE = ('a connection is used by 3..9 different operations (also failing ones: refused, unanswered, late, interrupted, callbacks that raise exceptions, undecodable messages, loss of the device and connecting again), and the whole series is repeated with other numbers and texts in four rounds, with some operations in a second thread. '
        'In every round the results, callbacks and the state of the device must be those of the first one. After each round, when everything is quiet, the live threads, the live objects of every class of the library and everything reachable from the connection and the modules of the library are counted; what grows in every round is watched for up to 60 further rounds. '
        'After close() the threads have ended, the port is closed and the objects can be freed. Distinct by (family, operations, schedule hash).')
ASSUMPTIONS = ['a ring and its caller identification arrive in one burst', 'numbers and texts of all rounds have the same length', 'what stops growing within 64 rounds does not count as growing']
FLOORS = {'rounds': 380, 'operations': 2000, 'failing_operations': 600, 'reconnects': 50, 'measurements': 300, 'objects_seen': 20000, 'freed': 60, 'notifications': 300, 'calls': 200, 'log_records': 20}
OPS = ['send', 'report', 'noreport', 'refused', 'noprompt', 'bodyerror', 'bodysilent', 'long', 'recv', 'recv-gone', 'recv-burst', 'recv-raw', 'recv-raise', 'report-in', 'list', 'list-del', 'read', 'read-empty', 'process', 'ussd', 'ussd-silent', 'ussd-refused', 'ussd-session',
       'cusd-in', 'ring-miss', 'ring-answer', 'ring-hang', 'ring-raise', 'dial', 'dial-reject', 'dial-end', 'dial-refused', 'dial-late', 'junk', 'query', 'silent', 'late', 'error', 'coverage', 'reconnect', 'reconnect-gone', 'reconnect-refused', 'reconnect-call', 'mode']
FAILING = set('noreport refused noprompt bodyerror bodysilent recv-gone recv-raw recv-raise read-empty ussd-silent ussd-refused ring-raise dial-reject dial-refused dial-late junk silent late error coverage reconnect-gone reconnect-refused reconnect-call'.split())
PAR = ['send', 'recv', 'recv-raw', 'query', 'read', 'error', 'refused', 'report', 'recv-burst', 'read-empty', 'recv-raise']
SMS = set('report recv recv-gone recv-burst recv-raw recv-raise report-in list list-del read read-empty process noreport'.split())
class Boom(Exception): pass
def setup(): simcase.setup()

def gen_case(rng, i, tier):
    prof = rng.choice(sorted(modemsim.PROFILES))
    ops = [o for o in rng.sample(OPS, rng.randint(3, 9))]
    if rng.random() < .3: ops.append(ops[0])
    par = []
    if rng.random() < .35:
        par = [rng.choice(PAR) for _ in range(rng.randint(1, 4))]
        ops = [o for o in ops if o in PAR or o in ('send', 'long', 'mode')] or ['send', 'query']
        ops = [o for o in ops if o != 'mode'] or ['send']
    if prof == 'nokia': ops = [o for o in ops if o not in SMS] or ['send', 'query']; par = [o for o in par if o not in SMS]
    return {'ops': ops, 'par': par, 'cfg': {'profile': prof, 'delay': rng.choice([0, 0, .02]), 'chunky': rng.random() < .15 and not any(o.startswith('ring') for o in ops), 'seed': rng.getrandbits(32), 'framing': rng.choice([0, 1, 2])}, 'text': rng.random() < .25, 'calls': rng.random() < .85, 'sched': simcase.sched_params(rng)}

# ---------------------------------------------------------------- what exists
SKIP = (types.FrameType, types.CodeType, types.TracebackType, types.BuiltinFunctionType, types.GeneratorType, threading.Thread, weakref.ref, weakref.ProxyType, type(re.compile('')), type(len), property, int, float, bool, type(None), complex)
LIB = ('gsmmodem',)
def lib(o):
    m = getattr(o, '__module__', None)
    return isinstance(m, str) and m.split('.')[0] in LIB
DOWN = (dict, list, tuple, set, frozenset, collections.deque, types.CellType, types.MethodType, types.MappingProxyType, staticmethod, classmethod, queue.Queue, threading.Event().__class__, threading.Condition)
def volume(roots):
    """ number of objects, and length of the strings, that can be reached through the objects of the library """
    seen, todo, n = set(), list(roots), 0
    while todo:
        o = todo.pop()
        if id(o) in seen: continue
        seen.add(id(o)); n += 1
        t = type(o)
        if t in (str, bytes, bytearray): n += len(o); continue
        if isinstance(o, SKIP): continue
        if isinstance(o, types.FunctionType):
            if lib(o): todo += [x for x in (o.__defaults__, o.__kwdefaults__, o.__closure__, o.__dict__) if x]
        elif isinstance(o, type):
            if lib(o): todo += list(vars(o).values())
        elif isinstance(o, types.ModuleType):
            if o.__name__.split('.')[0] in LIB: todo += [v for k, v in vars(o).items() if k != '__builtins__']
        elif isinstance(o, DOWN) or lib(t): todo += gc.get_referents(o)
    return n

def run(case, rec):
    EX, M = simcase.exceptions, simcase.modem
    vs = simcase.detsched.vsleep
    IGNORE = (EX.GsmModemException, OSError, Boom) + ((ValueError,) if 'recv-raw' in case['ops'] + case['par'] else ())
    start = time.process_time()
    def main(s):
        P = '/dev/sim'
        T0 = [2024, 5, 6, 7, 8, 9, 8]
        m = g = None
        ports = []
        cbs, got = [], []
        raising = [False]
        def on_sms(x):
            cbs.append(('sms', x.number, x.text)); rec.count('notifications')
            if raising[0]: raise Boom()
        def on_call(c):
            cbs.append(('ring', c.number, c.ringCount)); got.append(c)
            if raising[0]: raise Boom()
        def plug(**more):
            nonlocal m
            m = modemsim.virtual(s, dict(case['cfg'], **more), P)
            ports.append(m.line); m.rep = set()
            m.on_submit = submitted
        def submitted(r):
            number = r['arg'].strip('"') if r['arg'].startswith('"') else sp.parse_submit(bytes.fromhex(r['body']))['da'].display()
            mem = m.mem1
            if number in m.rep:
                def go():
                    i = m.store(mem, modemsim.report(number, r['mr'], T0, T0, 0)); m.urc('+CDSI: "%s",%d' % (mem, i))
                m.at(1, go)
        def attempt(fn):
            try: v = fn()
            except EX.GsmModemException as e: return ('raised', type(e).__name__, getattr(e, 'code', None))
            return v if isinstance(v, (str, int, bool, type(None), list, tuple)) else type(v).__name__
        def hush(prefix, ans='silent'): m.override = lambda c: (ans if isinstance(ans, str) else ans) if c.startswith(prefix) else None
        def unhush(): m.override = None
        def op(o, n):
            """ n: five digits """
            rec.count('operations'); rec.count('failing_operations', o in FAILING)
            num = '+99' + n
            mem = m.mem1
            send = lambda **k: attempt(lambda: (lambda x: (x.number, x.text, x.status))(g.sendSms(num, 'text ' + n, **k)))
            if o == 'send': r = send(); vs(.5); return r
            if o == 'report': m.rep.add(num); r = send(waitForDeliveryReport=True, deliveryTimeout=10); vs(.5); m.rep.discard(num); return r
            if o == 'noreport': return send(waitForDeliveryReport=True, deliveryTimeout=2)
            if o == 'refused' : 
                if case['par']: return attempt(lambda: g.write('AT+REFUSED=' + n))
                m.cmgs_plan = [{'kind': 'refuse', 'error': '+CMS ERROR: 38'}]; return send()
            if o == 'bodyerror': m.cmgs_plan = [{'kind': 'body-error', 'error': '+CMS ERROR: 41'}]; return send()
            if o == 'noprompt': m.cmgs_plan = [{'kind': 'no-prompt', 'for': 3.5}]; r = send(); vs(2); return r
            if o == 'bodysilent': m.cmgs_plan = [{'kind': 'body-silent', 'for': 16}]; r = send(); vs(5); return r
            if o == 'long':
                if g.smsTextMode: return send()
                r = attempt(lambda: (lambda x: (x.number, x.text, x.status))(g.sendSms(num, n + 'long text ' * 30))); vs(.5); return r
            if o.startswith('recv') or o == 'report-in':
                raising[0] = o == 'recv-raise'
                if o == 'recv-gone': m.urc('+CMTI: "%s",17' % mem)
                elif o == 'recv-raw': i = m.store(mem, modemsim.raw('07' + n + '0', 0, [',"?",,"x"', n])); m.urc('+CMTI: "%s",%d' % (mem, i)); vs(1.5); m.stores[mem].pop(i, None)
                elif o == 'report-in': i = m.store(mem, modemsim.report(num, 200, T0, T0, 0)); m.urc('+CDSI: "%s",%d' % (mem, i))
                else:
                    for k in range(3 if o == 'recv-burst' else 1): i = m.store(mem, modemsim.deliver(num, 'in %d %s' % (k, n), T0)); m.urc('+CMTI: "%s",%d' % (mem, i))
                vs(2)
                if not case['par']: raising[0] = False
                return None
            if o in ('list', 'list-del', 'read', 'process'):
                i = m.store(mem, modemsim.deliver(num, 'stored ' + n, T0, 1))
                if o == 'read': r = attempt(lambda: (lambda x: (x.number, x.text))(g.readStoredSms(i, mem)))
                elif o == 'process': r = attempt(lambda: g.processStoredSms()); vs(1)
                else: r = attempt(lambda: [(x.number, x.text) for x in g.listStoredSms(delete=o == 'list-del')])
                m.stores[mem].pop(i, None)
                return r
            if o == 'read-empty': return attempt(lambda: g.readStoredSms(19, mem))
            if o.startswith('ussd'):
                k = 1 if o == 'ussd-session' else 0
                def on_ussd(x):
                    if o == 'ussd-refused': return [], '+CME ERROR: 100'
                    if o != 'ussd-silent': m.at(.4, lambda: m.urc('+CUSD: %d,"you said %s",15' % (k, x)))
                    return [], 'OK'
                m.on_ussd = on_ussd
                u = []
                r = attempt(lambda: (u.append(g.sendUssd('*1%s#' % n, 3)), (u[0].message, u[0].sessionActive))[1])
                if k and u: r = [r, attempt(lambda: u[0].reply('7').message), attempt(lambda: u[0].cancel())]
                vs(.5)
                return r
            if o == 'cusd-in': m.urc('+CUSD: 2,"notice %s",15' % n); vs(.5); return None
            if o.startswith('ring'):
                rec.count('calls')
                raising[0] = o == 'ring-raise'
                cid = m.incoming('+3099' + n); del got[:]
                m.urc(*m.ring(cid)); vs(3); m.urc(*m.ring(cid)); vs(2)
                out = [len(set(id(c) for c in got)), len(g.activeCalls)]
                if got and o == 'ring-answer': out += [attempt(lambda: got[-1].answer() and None), got[-1].answered]; vs(1); out += [attempt(lambda: got[-1].sendDtmfTone('12')), attempt(got[-1].hangup)]
                elif got and o == 'ring-hang': out += [attempt(got[-1].hangup), got[-1].active]
                elif cid in m.calls: m.remote_end(cid)
                del got[:]; m.calls.pop(cid, None); vs(2); raising[0] = False
                return out + [len(g.activeCalls)]
            if o.startswith('dial'):
                rec.count('calls')
                kind = m.c['calls']
                if o == 'dial-refused' and kind == 'zte': o = 'dial'
                if o == 'dial-late' and kind == 'zte': o = 'dial-end'
                state = []
                m.on_dial = lambda x: {'refuse': '+CME ERROR: 100'} if o == 'dial-refused' else {'setup': 6} if o == 'dial-late' else {}
                c = []
                r = [attempt(lambda: (c.append(g.dial('+55' + n, 3, (lambda x: (state.append((x.answered, x.active)), raising[0] and 1 / 0)) if o == 'dial-end' else None)), (c[0].number, c[0].answered))[1])]
                vs(1)
                for cid in list(m.calls):
                    if o in ('dial', 'dial-end'): m.remote_answer(cid)
                    elif o == 'dial-reject': m.remote_end(cid, reject=True)
                vs(2)
                if c:
                    r.append((c[0].answered, c[0].active))
                    if o == 'dial': r += [attempt(lambda: c[0].sendDtmfTone('5#')), attempt(c[0].hangup)]
                    elif o == 'dial-end':
                        for cid in list(m.calls): m.remote_end(cid)
                vs(4)
                if c: r.append((c[0].answered, c[0].active))
                for cid in list(m.calls): del m.calls[cid]
                m.on_dial = None; vs(4)
                return r + [state, len(g.activeCalls)]
            if o == 'junk': m.urc('^RSSI:' + n, '+ZZZ: ' + n, 'junk ' + n); vs(.5); m.line.deliver(('\r\n^X ' + n + '\r\n\r\n').encode()); vs(1); return None
            if o == 'query': return [attempt(lambda p=p: getattr(g, p)) for p in ('manufacturer', 'imei', 'networkName', 'signalStrength', 'smsc', 'supportedCommands')]
            if o == 'silent': hush('AT+X'); r = attempt(lambda: g.write('AT+X=' + n, timeout=1)); unhush(); vs(.5); return r
            if o == 'late': hush('AT+X'); s.at(1.5, lambda: m.line.deliver(('\r\n+X: %s\r\n\r\nOK\r\n' % n).encode())); r = attempt(lambda: g.write('AT+X=' + n, timeout=1)); unhush(); vs(2); return r
            if o == 'error': return attempt(lambda: g.write('AT+NONE=' + n))
            if o == 'coverage': hush('AT+CREG', (['+CREG: 0,2'], 'OK')); r = attempt(lambda: g.waitForNetworkCoverage(2)); unhush(); vs(1); return r
            if o == 'mode': g.smsTextMode = not g.smsTextMode; r = send(); g.smsTextMode = not g.smsTextMode; return [r, send()]
            if o.startswith('reconnect'):
                rec.count('reconnects')
                r = None
                if o == 'reconnect-call':
                    cid = m.incoming('+3099' + n); m.urc(*m.ring(cid)); vs(1)
                    r = [attempt(lambda: (g.dial('+55' + n, 3), None)[1]), len(g.activeCalls)]
                    m.remote_answer(max(m.calls)); vs(1); del got[:]
                if o in ('reconnect-gone', 'reconnect-call'):
                    m.line.deliver(('\r\n^X: %s\r\n+CMTI: "%s",1' % (n, mem)).encode()); vs(.3)
                    if o == 'reconnect-gone': m.line.fail('gone'); vs(1)
                g.close()
                if o != 'reconnect': plug()
                if o == 'reconnect-refused': m.pin_state = 'SIM PIN'; r = attempt(g.connect); m.pin_state = 'READY'; plug()
                g.connect(); vs(1)
                return [r, len(g.activeCalls)]
            raise AssertionError(o)
        def clean(x, n):
            """ results without the number of the operation """
            if isinstance(x, str): return x.replace(n, '#')
            if isinstance(x, (list, tuple)): return type(x)(clean(y, n) for y in x)
            return x
        counter = [10000]
        def series(ops, results):
            for o in ops:
                with lock: counter[0] += 1; n = str(counter[0])
                results.append((o, clean(op(o, n), n)))
        lock = threading.Lock()
        def one_round():
            del cbs[:]
            raising[0] = bool(case['par']) and 'recv-raise' in case['ops'] + case['par']
            first, results, other, t = counter[0] + 1, [], [], None
            if case['par']:
                t = threading.Thread(target=lambda: series(case['par'], other)); t.start()
            series(case['ops'], results)
            if t: t.join(300)
            vs(3)
            rec.count('rounds')
            c = []
            for k in range(first, counter[0] + 1):
                c += sorted(clean(x, str(k)) for x in cbs if any(str(k) in y for y in x if isinstance(y, str)))
            if case['par']: c.sort()
            left = {k: len(v) for k, v in m.stores.items()}
            return results, other, c, left, g.smsTextMode, len(g.activeCalls), m.mode_text
        def forget():
            s.uncaught[:] = [u for u in s.uncaught if not isinstance(u[1], IGNORE)]
            gc.collect()
        def measure():
            forget()
            out = {'threads': sum(not t.done for t in s.tasks)}
            for o in gc.get_objects():
                t = type(o)
                if lib(t) : k = 'objects of %s.%s' % (t.__module__, t.__name__); out[k] = out.get(k, 0) + 1
            out['reachable'] = volume([g] + [x for k, x in sorted(mods.items())])
            rec.count('measurements'); rec.count('objects_seen', sum(out.values()))
            return out
        import sys
        mods = {k: v for k, v in sys.modules.items() if k.split('.')[0] in LIB}
        plug()
        kw = dict(smsReceivedCallbackFunc=on_sms, smsStatusReportCallback=lambda x: cbs.append(('report', x.number, x.deliveryStatus)))
        if case['calls']: kw['incomingCallCallbackFunc'] = on_call
        g = M.GsmModem(P, **kw)
        if case['text']: g.smsTextMode = True
        g.connect(); vs(1)
        ctx = '%s, %r%s' % (case['cfg']['profile'], case['ops'], case['par'] and ' and %r' % case['par'] or '')
        seen, ref = [], None
        def grows():
            return sorted(k for k in seen[-1] if all(b.get(k, 0) > a.get(k, 0) for a, b in zip(seen, seen[1:])))
        for k in range(4):
            x = one_round()
            if ref is None: ref = x
            elif not rec.eq(x, ref, 'round-differs', 'round %d of %s' % (k + 1, ctx)): break
            seen.append(measure())
        if not rec.violations and grows():
            rec.count('suspicions')
            watched = grows(); first = seen[-1]; k = 0
            while k < 60 and not rec.violations and (k < 10 or time.process_time() - start < 10):
                k += 1
                if not rec.eq(one_round(), ref, 'round-differs', 'round %d of %s' % (k + 4, ctx)): break
                if k % 5 == 0: seen.append(measure()); watched = [w for w in watched if seen[-1].get(w, 0) > seen[-2].get(w, 0)]
                if not watched: break
            if watched and not rec.violations:
                w = [x for x in watched if x != 'reachable'] or watched
                rec.violation('grows: ' + w[0].split('.')[-1], '%s: %s' % (ctx, '; '.join('%s: %s' % (x, [y.get(x, 0) for y in seen]) for x in watched)))
        rec.expect(not m.faults, 'protocol', lambda: '%r; %s' % (m.faults[:3], ctx))
        g.close(); vs(6)
        live = [t.name for t in s.tasks if not t.done and t is not s.main]
        rec.expect(not live, 'threads-after-close', lambda: '%s: %r' % (ctx, live))
        rec.eq([l.opened - l.closed for l in ports if l.opened > l.closed], [], 'port-open', ctx)
        wr = weakref.ref(g); g = None; del got[:]
        forget()
        rec.count('freed', wr() is None)
        rec.expect(wr() is None, 'not-freed', lambda: '%s: %r' % (ctx, [str(type(x)) for x in gc.get_referrers(wr())]))
    debug = simcase.Debugging(rec)
    if case['sched']['seed'] % 4 == 0: debug.start()
    try: ok, s = simcase.run(rec, case['sched'], main, max_steps=4000000, ignore_uncaught=IGNORE)
    finally: debug.stop()
    rec.key(case['cfg']['profile'], tuple(case['ops']), tuple(case['par']), s.sig)
