# -*- coding: utf-8 -*-
""" Planted bugs: source of /verif/seeded (see plant.py). No check reads this. """
SEEDS = {}
def seed(sid, property, edits, needs, breaks, demo):
    SEEDS[sid] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)
PDU, MODEM, COMMS, UTIL = 'gsmmodem/pdu.py', 'gsmmodem/modem.py', 'gsmmodem/serial_comms.py', 'gsmmodem/util.py'

seed('C05-longest-validity', 'C05', [(PDU, "elif validityPeriod.days <= 441: # max value", "elif validityPeriod.days < 441: # max value")],
     'a relative validity period of exactly 63 weeks (the longest one that can be represented)', 'the longest representable validity period is refused',
'''
from datetime import timedelta
from gsmmodem.pdu import encodeSmsSubmitPdu, decodeSmsPdu
p = encodeSmsSubmitPdu('+27820000000', 'hi', validity=timedelta(weeks=63))[0]
assert decodeSmsPdu(str(p))['validity'] == timedelta(weeks=63)
''')

seed('C03-udh-fill-bits', 'C03', [(PDU, '''            # Since we are using 7-bit data, "fill bits" may have been added to make the UDH end on a septet boundary
            shift = ((udhLen + 1) * 8) % 7 #''', '''            # Since we are using 7-bit data, "fill bits" may have been added to make the UDH end on a septet boundary
            shift = udhLen + 1 # (8 mod 7 == 1);''')],
     'a GSM-7 message whose user data header is 6 octets or longer, e.g. a concatenated message with a 16-bit reference', 'the text of such a message is decoded wrongly',
'''
from gsmmodem.pdu import decodeSmsPdu
# 16-bit concatenation reference: the 7 octets of the header need no fill bits. Text: "Hello"
ud = '06080401020301' + 'C8329BFD06'
pdu = '00' + '44' + '0B917228000000F0' + '0000' + '41106221000000' + '%02X' % (8 + 5) + ud
r = decodeSmsPdu(pdu)
assert r['text'] == 'Hello', r
''')

seed('C06-zero-octet', 'C06', [(PDU, """            shift = 1
            if prevOctet != None:                
                result.append(prevOctet >> 1)""", """            shift = 1
            if prevOctet:
                result.append(prevOctet >> 1)""")],
     'packed data with a zero octet in the seventh place of a group of seven (e.g. text with "@" as its 8th character and more behind it)', 'that character is dropped when the data is unpacked',
'''
from gsmmodem.pdu import packSeptets, unpackSeptets
for n in range(1, 30):
    for k in range(n):
        s = bytearray([0x41] * n); s[k] = 0
        if k: s[k - 1] = 0x01
        assert unpackSeptets(packSeptets(bytearray(s)), n) == s, (n, k)
''')

seed('C02-flash-ucs2', 'C02', [(PDU, '''        pdu.append(alphabet if not sendFlash else (0x10 if alphabet == 0x00 else 0x18))''',
'''        pdu.append(alphabet if not sendFlash or concatHeaderPrototype != None else alphabet | 0x10)''')],
     'a flash message that is long enough to be split', 'the parts of a long flash message are not marked as flash messages',
'''
from gsmmodem.pdu import encodeSmsSubmitPdu
for t in ('x' * 20, 'x' * 400, u'\\u0416' * 20, u'\\u0416' * 200):
    for p in encodeSmsSubmitPdu('+27820000000', t, sendFlash=True):
        d = bytearray(p.data)
        i = 1 + 1 + 1 # SMSC, first octet, reference
        i += 2 + (d[i] + 1) // 2 + 1
        assert d[i] & 0x13 == 0x10, hex(d[i])
''')

seed('C16-high-index', 'C16', [(MODEM, '''CMTI_REGEX = re.compile(r'^\\+CMTI:\\s*"([^"]+)",(\\d+)$')''', '''CMTI_REGEX = re.compile(r'^\\+CMTI:\\s*"([^"]+)",(\\d{1,2})$')''')],
     'a message that the modem stores at an index above 99', 'the message is never handed over nor deleted',
'''
import time, fakeport
from gsmmodem.modem import GsmModem
PDU = '07917228010010F5040B917228000000F0000041106221000000' + '05' + 'C8329BFD06'
d = fakeport.Device({'AT+CMGR*': '+CMGR: 0,,26\\r\\n%s\\r\\n\\r\\nOK' % PDU})
got = []
g = GsmModem('x', smsReceivedCallbackFunc=lambda s: got.append(s.text))
g.connect()
d.urc('+CMTI: "SM",7'); time.sleep(1)
d.urc('+CMTI: "SM",132'); time.sleep(1.5)
assert got == ['Hello', 'Hello'] and 'AT+CMGR=132' in d.commands, (got, d.commands[-4:])
''')

seed('C14-smsc-not-restored', 'C14', [(MODEM, '''        if currentSmscNumber != None:
            self._smscNumber = None # clear cache
''', '')],
     'a modem that loses the SMSC number when the text mode parameters are set', 'the SMSC number of the SIM card is not restored by connect()',
'''
import fakeport
from gsmmodem.modem import GsmModem
st = ['+27820001111']
def csmp(c): st[0] = None; return 'OK'
def csca(c):
    if c.endswith('?'): return '+CSCA: "%s",145\\r\\n\\r\\nOK' % st[0] if st[0] else 'OK'
    st[0] = c.split('"')[1]; return 'OK'
d = fakeport.Device({'AT+CSMP*': csmp, 'AT+CSCA*': csca, 'AT+CSCA?': csca})
g = GsmModem('x'); g.connect(); g.close()
assert st[0] == '+27820001111', st
''')

seed('C24-zero-signal', 'C24', [(MODEM, '''                if ss > 0:
                    return ss''', '''                if ss >= 0:
                    return ss''')],
     'a modem that is registered but reports a signal strength of 0 at first', 'waiting for coverage ends before there is any signal',
'''
import fakeport
from gsmmodem.modem import GsmModem
d = fakeport.Device({'AT+CREG?': '+CREG: 0,1\\r\\n\\r\\nOK', 'AT+CSQ': ['+CSQ: 0,99\\r\\n\\r\\nOK', '+CSQ: 0,99\\r\\n\\r\\nOK', '+CSQ: 11,99\\r\\n\\r\\nOK']})
g = GsmModem('x'); g.connect()
assert g.waitForNetworkCoverage(20) == 11
g.close()
''')

seed('C20-released-session', 'C20', [(MODEM, '''                    if sessionActive and cusdMatch.group(1) != '1':
                        sessionActive = False''', '''                    sessionActive = cusdMatch.group(1) == '1' ''')],
     'a session release notice that is issued before the reply itself', 'the session is reported as active although it has been released',
'''
import fakeport
from gsmmodem.modem import GsmModem
d = fakeport.Device()
d.answers['AT+CUSD=1*'] = lambda c: d.later(.3, '+CUSD: 2,"Initiating Release",15', '+CUSD: 1,"Menu",15')
g = GsmModem('x'); g.connect()
r = g.sendUssd('*100#', responseTimeout=5)
g.close()
assert r.message == 'Menu' and r.sessionActive is False, vars(r)
''')

seed('C23-tone-timeout', 'C23', [(MODEM, '''self._gsmModem.write(cmd, timeout=(5 + toneLen))''', '''self._gsmModem.write(cmd, timeout=5)''')],
     'a string of tones that takes the modem longer than 5 s to play', 'sending the tones fails with a timeout although the modem plays them all',
'''
import threading, fakeport
from gsmmodem.modem import GsmModem
d = fakeport.Device({'AT+CLAC': '+CLAC: +VTS,+CLCC\\r\\n\\r\\nOK', 'AT+CLCC': '+CLCC: 1,0,2,0,0,"123",129\\r\\n\\r\\nOK'})
g = GsmModem('x'); g.connect()
call = g.dial('123')
d.answers['AT+CLCC'] = '+CLCC: 1,0,0,0,0,"123",129\\r\\n\\r\\nOK'
import time; time.sleep(1.5)
assert call.answered
d.answers['AT+VTS*'] = lambda c: threading.Timer(.5 * (c.count(';') + 1), d.urc, ['OK']).start() or ''
call.sendDtmfTone('0123456789ABC')
g.close()
''')

seed('C12-busy-wait-lost', 'C12', [(MODEM, '''                            self._writeWait += 0.2 # Increase waiting period temporarily''', '''                            self._writeWait = min(self._writeWait + 0.2, 1.0) # Increase waiting period temporarily
                            if self._writeWait >= 1.0:
                                raise CmeError(data, errorCode)''')],
     'a modem that is busy for more than four attempts in a row', 'the command fails although the modem would have executed it',
'''
import fakeport
from gsmmodem.modem import GsmModem
d = fakeport.Device()
g = GsmModem('x'); g.connect()
d.answers['AT+CSQ'] = ['+CME ERROR: 515'] * 6 + ['+CSQ: 17,99\\r\\n\\r\\nOK']
assert g.signalStrength == 17
g.close()
''')

seed('C17-report-status', 'C17', [(MODEM, '''        if self.report == None:
            return SentSms.ENROUTE''', '''        if self.report == None or self.report.deliveryStatus >= 0x60:
            return SentSms.ENROUTE''')],
     'a negative status report in the range of temporary errors after which no more attempts are made', 'the message is reported as still on its way although its delivery has failed',
'''
import time, fakeport
from gsmmodem.modem import GsmModem, SentSms
for st in (0, 0x41, 0x44, 0x60, 0x65):
    # status report for reference 5
    pdu = '00' + '06' + '05' + '0B917228000000F0' + '41106221000000' + '41106221000000' + '%02X' % st
    d = fakeport.Device({'AT+CMGS=*': '>', 'BODY': '+CMGS: 5\\r\\n\\r\\nOK', 'AT+CMGR*': '+CMGR: 0,,25\\r\\n%s\\r\\n\\r\\nOK' % pdu})
    g = GsmModem('x'); g.connect()
    sms = g.sendSms('+27820000000', 'hi')
    assert sms.status == SentSms.ENROUTE
    d.urc('+CDSI: "SM",3'); time.sleep(1)
    g.close()
    assert sms.status == (SentSms.DELIVERED if st == 0 else SentSms.FAILED), (st, sms.status)
''')

seed('C18-text-plus-line', 'C18', [(MODEM, """                    if line != 'OK':
                        msgLines.append(line)""", """                    if line != 'OK' and not line.startswith('+CM'):
                        msgLines.append(line)""")],
     'a stored text mode message of several lines, one of which starts with "+CM"', 'that line is missing from the text of the listed message',
'''
import fakeport
from gsmmodem.modem import GsmModem
d = fakeport.Device({'AT+CMGL*': '+CMGL: 1,"REC READ","+2782",,"24/01/02,03:04:05+22"\\r\\nhello\\r\\n+CMTI is a code\\r\\nbye\\r\\n\\r\\nOK'})
g = GsmModem('x'); g.smsTextMode = True; g.connect()
m, = g.listStoredSms()
g.close()
assert m.text == 'hello\\n+CMTI is a code\\nbye', m.text
''')

TRIE, TERM, SENDTOOL = 'tools/gsmtermlib/trie.py', 'tools/gsmtermlib/terminal.py', 'tools/sendsms.py'

seed('C01-late-unicode', 'C01', [(PDU, '''        encodedText = encodeGsm7(text)
    except ValueError:''', '''        encodedText = encodeGsm7(text[:MAX_MESSAGE_LENGTH[0x00] + 1]) # the characters of further PDUs are checked when these are built
    except ValueError:''')],
     'a long text whose first character outside of the GSM-7 alphabet comes after 161 others', 'the message cannot be sent',
'''
from gsmmodem.pdu import encodeSmsSubmitPdu, decodeSmsPdu
for n in (0, 50, 155, 170, 400):
    text = 'x' * n + u'\\u0416' + 'y' * 20
    assert ''.join(decodeSmsPdu(str(p))['text'] for p in encodeSmsSubmitPdu('+27820000000', text)) == text, n
''')

seed('C02-five-minutes', 'C02', [(PDU, '''        if validityPeriod:
            pdu.extend(validityPeriod)''', '''        if validityPeriod and any(validityPeriod):
            pdu.extend(validityPeriod)''')],
     'a relative validity period of five minutes (coded as 0)', 'the validity octet is missing, so the length is taken for it',
'''
from datetime import timedelta
from gsmmodem.pdu import encodeSmsSubmitPdu, decodeSmsPdu
for m in (5, 10, 60):
    d = decodeSmsPdu(str(encodeSmsSubmitPdu('+27820000000', 'hello', validity=timedelta(minutes=m))[0]))
    assert d['validity'] == timedelta(minutes=m) and d['text'] == 'hello', d
''')

seed('C04-truncated-ie', 'C04', [(PDU, '''        ieData = []
        for i in xrange(ieLen):
            ieData.append(next(byteIter))
        return''', '''        ieData = [octet for _, octet in zip(xrange(ieLen), byteIter)]
        return''')],
     'a PDU that ends within an information element other than a concatenation or port element', 'the truncated message is accepted',
'''
from gsmmodem.pdu import decodeSmsPdu
from gsmmodem.exceptions import EncodingError
h = '0044' + '0B917228000000F0' + '0008' + '41106221000000'
decodeSmsPdu(h + '12' + '08' + '700601020304050F' + '00480065')
for cut in range(1, 9):
    try: d = decodeSmsPdu(h + '12' + '08' + '7006010203040506'[:2 * (8 - cut)])
    except EncodingError: pass
    else: raise AssertionError((cut, d))
''')

seed('C07-source-port', 'C07', [(PDU, 'if self.destination > 0xFF or self.source > 0xFF:', 'if max(self.destination, self.source or self.destination) >= 0xFF:')],
     'a port of exactly 255', 'the 16-bit form is used although 8 bits are enough',
'''
from gsmmodem.pdu import PortAddress, InformationElement
for d in (0, 1, 254, 255, 256, 65535):
    for s in (0, 1, 254, 255, 256, 65535):
        p = PortAddress(); p.destination, p.source = d, s
        e = p.encode()
        assert e[0] == (5 if max(d, s) > 255 else 4), (d, s, e)
        q = InformationElement.decode(iter(e))
        assert (q.destination, q.source) == (d, s)
''')

seed('C08-unlocked-nowait', 'C08', [(COMMS, '''        with self._txLock:            
            if waitForResponse:''', '''        with self._txLock if waitForResponse else threading.Lock():
            if waitForResponse:''')],
     'a command that is sent without waiting for its response while another thread waits for one', 'the command reaches the modem before the response of the other one',
'''
import time, threading, fakeport
from gsmmodem.modem import GsmModem
d = fakeport.Device()
g = GsmModem('x'); g.connect()
busy = []
def slow(c):
    busy.append(1)
    def end(): busy.pop(); d.urc('OK')
    threading.Timer(.7, end).start(); return ''
d.answers['AT+SLOW'] = slow
def quick(c): assert not busy; return 'OK'
d.answers['AT+QUICK'] = quick
t = threading.Thread(target=g.write, args=('AT+SLOW',)); t.start()
time.sleep(.2)
g.write('AT+QUICK', waitForResponse=False)
t.join(); time.sleep(.3); g.close()
''')

seed('C11-alive-in-handler', 'C11', [(COMMS, '''            self.alive = False
            try:
                self.serial.close()
            except Exception: #pragma: no cover
                pass
            # Notify the fatal error handler
            self.fatalErrorCallback(e)
''', '''            # Notify the fatal error handler
            self.fatalErrorCallback(e)
            self.alive = False
            try:
                self.serial.close()
            except Exception: #pragma: no cover
                pass
''')],
     'a fatal error handler that looks at the connection, or that raises an exception', 'the connection is still marked as alive when its failure is reported',
'''
import time, fakeport, serial, threading
threading.excepthook = lambda a: None
from gsmmodem.serial_comms import SerialComms
class Port(fakeport.FakeSerial):
    def read(self, size=1):
        time.sleep(.2); raise serial.SerialException('unplugged')
serial.Serial = Port
d = fakeport.Device()
seen = []
def fatal(e): seen.append(c.alive); raise RuntimeError('handler failed')
c = SerialComms('x', fatalErrorCallbackFunc=fatal); c.connect()
time.sleep(1)
assert len(seen) == 1 and c.alive is False, (seen, c.alive)
''')

seed('C13-second-unlock', 'C13', [(MODEM, '''            self._unlockSim(pin)
            pinCheckComplete = True
            self.write('ATZ') # reset configuration        ''', '''            try:
                self._unlockSim(pin)
            except CommandError as e:
                if not isinstance(e, (PinRequiredError, PukRequiredError)):
                    self._unlockSim(pin) # some modems are not ready for the PIN yet
                else:
                    raise
            pinCheckComplete = True
            self.write('ATZ') # reset configuration        ''')],
     'a modem that refuses ATZ until the SIM is unlocked, and a wrong PIN', 'the wrong PIN is entered twice',
'''
import fakeport
from gsmmodem.modem import GsmModem
from gsmmodem.exceptions import IncorrectPinError
d = fakeport.Device({'ATZ': '+CME ERROR: 11', 'AT+CPIN?': '+CPIN: SIM PIN\\r\\n\\r\\nOK', 'AT+CPIN=*': '+CME ERROR: 16'})
g = GsmModem('x')
try: g.connect('9999')
except IncorrectPinError: pass
assert d.commands.count('AT+CPIN="9999"') == 1, d.commands
g.close()
''')

seed('C21-answer-after-hangup', 'C21', [(MODEM, '''        if self.ringing:
            self._gsmModem.write('ATA')''', '''        if not self.answered:
            self._gsmModem.write('ATA')''')],
     'answer() of a call that has been hung up while it was ringing', 'ATA is sent for a call that is over, and answers whichever call is ringing then',
'''
import time, fakeport
from gsmmodem.modem import GsmModem
calls = []
d = fakeport.Device()
g = GsmModem('x', incomingCallCallbackFunc=calls.append); g.connect()
d.urc('+CRING: VOICE', '+CLIP: "+27820000001",145'); time.sleep(.5)
a, = calls
a.hangup()
a.answer()
assert 'ATA' not in d.commands and 'ATH' in d.commands, d.commands
g.close()
''')

seed('C22-incoming-answered', 'C22', [(MODEM, '''                    if call.answered == False and type(call) == Call:''', '''                    if call.answered == False and call.active:''')],
     'an incoming call that is ringing while an outgoing call is answered, on a modem whose notification does not tell which call it is about', 'the incoming call is marked as answered instead',
'''
import time, fakeport
from gsmmodem.modem import GsmModem
calls = []
d = fakeport.Device({'AT+CLAC': '+CLAC: +ZPAS,+VTS\\r\\n\\r\\nOK', 'ATD*': lambda c: ''})
g = GsmModem('x', incomingCallCallbackFunc=calls.append); g.connect()
d.urc('+CRING: VOICE', '+CLIP: "+27820000001",145'); time.sleep(.5)
out = g.dial('0123')
d.urc('CONNECT'); time.sleep(.5)
assert out.answered and not calls[0].answered, (out.answered, calls[0].answered)
g.close()
''')

seed('C22-rejected-other', 'C22', [(MODEM, '''                        if not filterUnanswered or (filterUnanswered == True and call.answered == False):
                            callId = call.id
                            break''', '''                        if call.active:
                            callId = call.id
                            break''')],
     'a call attempt that is refused while another outgoing call is in progress (ZTE)', 'the call in progress is taken for ended',
'''
import time, fakeport
from gsmmodem.modem import GsmModem
d = fakeport.Device({'AT+CLAC': '+CLAC: +ZPAS,+VTS\\r\\n\\r\\nOK', 'ATD*': lambda c: ''})
g = GsmModem('x'); g.connect()
out = g.dial('0123')
d.urc('CONNECT'); time.sleep(.5)
assert out.answered
second = g.dial('0456')
d.urc('OK'); time.sleep(.5)
assert not second.active and out.answered and out.active
g.close()
''')

seed('C25-branch-delete', 'C25', [(TRIE, '''            if key[1:] == trie.key:
                if len(trie.slots) > 0:''', '''            if key[1:] == trie.key:
                if len(trie.slots) == 1:''')],
     'deleting a key with which several branches of longer keys start', 'the longer keys are lost as well',
'''
from gsmtermlib.trie import Trie
t = Trie()
for k in ('AT+CMG', 'AT+CMGS', 'AT+CMGSX', 'ATD', 'AT+CMGL'): t[k] = k
t2 = Trie()
for k in ('A', 'AB', 'AC', 'ACD', 'B'): t2[k] = k
del t2['A']
assert sorted(t2.keys()) == ['AB', 'AC', 'ACD', 'B'], t2.keys()
del t2['AC']
assert sorted(t2.keys()) == ['AB', 'ACD', 'B'], t2.keys()
''')

seed('C27-stripped-text', 'C27', [(SENDTOOL, '''        text = raw_input('> ')
''', '''        text = raw_input('> ').strip()
''')],
     'a message with spaces at its beginning or end', 'the message sent is not the one typed',
'''
import fakeport, subprocess, os, sys, io
from gsmmodem.pdu import decodeSmsPdu
d = fakeport.Device({'AT+CREG?': '+CREG: 0,1\\r\\n\\r\\nOK', 'AT+CMGS=*': '>', 'BODY': '+CMGS: 5\\r\\n\\r\\nOK'})
import runpy
sys.argv = ['sendsms.py', '-i', 'x', '+27820000000']
sys.stdin = io.StringIO('  indented \\n')
runpy.run_path(os.path.join('tools', 'sendsms.py'), run_name='__main__')
body, = d.bodies
assert decodeSmsPdu(body)['text'] == '  indented ', body
''')

seed('C28-shared-sent', 'C28', [(MODEM, '''        self.sentSms = weakref.WeakValueDictionary()
''', '''        self.sentSms = GsmModem._allSentSms
'''), (MODEM, '''    log = logging.getLogger('gsmmodem.modem.GsmModem')

    # Used for parsing AT command errors
''', '''    log = logging.getLogger('gsmmodem.modem.GsmModem')

    # All sent SMS messages
    _allSentSms = weakref.WeakValueDictionary()
    # Used for parsing AT command errors
''')],
     'two modems that have given messages the same reference', "a message's status is changed by a report that the other modem received",
'''
import time, fakeport
from gsmmodem.modem import GsmModem, SentSms
pdu = '00' + '06' + '05' + '0B917228000000F0' + '41106221000000' + '41106221000000' + '00'
A = lambda: fakeport.Device({'AT+CMGS=*': '>', 'BODY': '+CMGS: 5\\r\\n\\r\\nOK', 'AT+CMGR*': '+CMGR: 0,,25\\r\\n%s\\r\\n\\r\\nOK' % pdu})
a, b = A(), A()
fakeport.FakeSerial.device = {'a': a, 'b': b}
g, h = GsmModem('a'), GsmModem('b')
g.connect(); h.connect()
s, t = g.sendSms('+27820000000', 'hi'), h.sendSms('+27820000001', 'ho')
a.urc('+CDSI: "SM",3'); time.sleep(1)
assert (s.status, t.status) == (SentSms.DELIVERED, SentSms.ENROUTE), (s.status, t.status)
g.close(); h.close()
''')

seed('C09-blank-line', 'C09', [(COMMS, "                        if len(line) > 0:                          \n", "                        if len(line.strip()) > 0:\n")],
     'an unsolicited line (or a line of a response) that consists of blanks', 'the line is lost',
'''
import time, fakeport
from gsmmodem.serial_comms import SerialComms
got = []
d = fakeport.Device({'AT+X': 'a\\r\\n  \\r\\nb\\r\\n\\r\\nOK'})
c = SerialComms('x', notifyCallbackFunc=got.append); c.connect()
d.send('\\r\\n+CUSD: 0,"one\\r\\n   \\r\\nthree",15\\r\\n'); time.sleep(.5)
lines = [l for b in got for l in b]
assert lines == ['+CUSD: 0,"one', '   ', 'three",15'], lines
assert c.write('AT+X\\r') == ['a', '  ', 'b', 'OK']
c.close()
''')

TERM = 'tools/gsmtermlib/terminal.py'
TERMDEMO = '''
import fakeport, io, os, sys, types
class Con(object): # a console of which nothing is read
    CURSOR_UP, CURSOR_DOWN, CURSOR_RIGHT, CURSOR_LEFT, DELETE, HOME, END = [chr(27) + x for x in ('[A', '[B', '[C', '[D', '[3~', 'OH', 'OF')]
import termios, atexit
termios.tcgetattr = lambda fd: [0, 0, 0, 0, 0, 0, [0] * 32]
termios.tcsetattr = lambda *a: None
class In(object):
    def fileno(self): return 0
sys.stdin = In()
real = sys.stdout
sys.stdout = io.StringIO()
from gsmtermlib import terminal
t = terminal.GsmTerm('x', useColor=False)
sent = []
class Port(object):
    def write(self, d): sent.append(d)
    def inWaiting(self): return 0
t.serial = Port()
def typed(s):
    for c in s:
        t.inputBuffer.insert(t.cursorPos, c); t.cursorPos += 1; t._refreshInputPrompt()
'''
seed('C26-history-limit', 'C26', [(TERM, '            self.history = self.history[1:]', '            self.history = self.history[:100]')],
     'more than 100 commands in one session', 'the history no longer offers the latest commands', TERMDEMO + '''
for k in range(103): typed('AT+C%d' % k); t._doConfirmInput()
t._cursorUp()
assert ''.join(t.inputBuffer) == 'AT+C102', t.inputBuffer
''')

seed('C26-sms-rest', 'C26', [(TERM, '            self.inputBuffer = self.inputBuffer[self.cursorPos:]', '            self.inputBuffer = []')],
     'ENTER in the text of an SMS with the cursor not at its end', 'the text behind the cursor is lost', TERMDEMO + '''
t._typingSms = True
typed('one two')
for _ in range(3): t._cursorLeft()
t._doConfirmInput(); t._handleEnd()
typed('!'); t._handleCtrlZ()
assert ''.join(sent).replace('\\r', '').replace('\\n', '') == 'one two!' + chr(26), sent
''')

seed('C29-regex-dropped', 'C29', [(MODEM, '''        if self._smsTextMode:
            if self.CMGR_SM_DELIVER_REGEX_TEXT == None:
''', '''        if self._smsTextMode:
            self.CMGR_REGEX_PDU = None
            if self.CMGR_SM_DELIVER_REGEX_TEXT == None:
'''), (MODEM, '''        elif self.CMGR_REGEX_PDU == None:
''', '''        else:
''')],
     'another thread that switches to text mode while the response of a read in PDU mode is being parsed', 'reading the message fails with AttributeError',
'''
import threading, time, fakeport
from gsmmodem.modem import GsmModem
pdu = '00' + '04' + '0B917228000000F0' + '0000' + '41106221000000' + '02' + 'E834'
d = fakeport.Device({'AT+CMGR*': '+CMGR: 1,,20\\r\\n%s\\r\\n\\r\\nOK' % pdu})
g = GsmModem('x'); g.connect()
# the other thread switches at the moment the response has been read
write = g.write
def slow(data, *a, **kw):
    r = write(data, *a, **kw)
    if data.startswith('AT+CMGR'):
        def switch(): g.smsTextMode = True
        t = threading.Thread(target=switch); t.start(); t.join(.5)
    return r
real = GsmModem.write
lock = g._txLock
class Lock(object): # (at the end of the read's critical section)
    def __enter__(self): return lock.__enter__()
    def __exit__(self, *a): r = lock.__exit__(*a); hook(); return r
    def acquire(self, *a): return lock.acquire(*a)
    def release(self): lock.release(); hook()
state = [False]
def hook():
    if d.commands[-1].startswith('AT+CMGR') and not state[0] and not lock._is_owned():
        state[0] = True
        def switch(): g.smsTextMode = True
        t = threading.Thread(target=switch); t.start(); t.join(3)
g._txLock = Lock()
m = g.readStoredSms(1)
assert m.text == 'hi', m.text
assert g.smsTextMode == True
g._txLock = lock
g.close()
''')

seed('C30-cached-commands', 'C30', [(MODEM, '''        commands = self.supportedCommands
''', '''        commands = self._commands = getattr(self, '_commands', None) or self.supportedCommands
''')],
     'an object that is connected to a device of another family than before', 'it uses the call and tone commands of the previous device',
'''
import time, fakeport
from gsmmodem.modem import GsmModem
g = GsmModem('x')
a = fakeport.Device({'AT+CLAC': '+CLAC\\r\\n^DTMF\\r\\n+CSQ\\r\\n\\r\\nOK'})
g.connect(); g.close()
b = fakeport.Device({'AT+CLAC': '+CLAC\\r\\n+VTS\\r\\n+ZPAS\\r\\n\\r\\nOK', 'ATD*': ''})
g.connect()
c = g.dial('123')
b.urc('CONNECT'); time.sleep(.5)
c.sendDtmfTone('5')
assert 'AT+VTS=5' in b.commands, b.commands
g.close()
''')

seed('C31-cause-lost', 'C31', [(MODEM, '''                    raise InterruptedException('Operation not allowed', e)
''', '''                    raise InterruptedException('Operation not allowed')
''')],
     'a call that is ended by the remote party while its tones are being sent, on a modem that then answers +CME ERROR: 3', 'the exception has no cause: the handler of the example programs fails instead of reporting the interruption, and the program does not hang up or close',
'''
import time, fakeport
from gsmmodem.modem import GsmModem
from gsmmodem.exceptions import InterruptedException
d = fakeport.Device({'AT+CLAC': '+CLAC\\r\\n+VTS\\r\\n+ZPAS\\r\\n\\r\\nOK', 'ATD*': '', 'AT+VTS=*': '+CME ERROR: 3'})
g = GsmModem('x'); g.connect()
c = g.dial('123')
d.urc('CONNECT'); time.sleep(.5)
try: c.sendDtmfTone('5')
except InterruptedException as e: assert e.cause is not None and e.cause.type == 'CME' and e.cause.code == 3, e.cause
else: assert False
g.close()
''')

seed('C32-strong-sent', 'C32', [(MODEM, '''        self.sentSms = weakref.WeakValueDictionary()
''', '''        self.sentSms = {}
''')],
     'messages sent over a long time by one connection', 'every message that was sent is kept for ever',
'''
import gc, weakref, fakeport
from gsmmodem.modem import GsmModem
n = [0]
def cmgs(cmd):
    n[0] += 1
    return '+CMGS: %d\\r\\n\\r\\nOK' % n[0]
d = fakeport.Device({'AT+CMGS=*': '>', 'BODY': cmgs})
g = GsmModem('x'); g.connect()
refs = []
for k in range(4): refs.append(weakref.ref(g.sendSms('+2782', 'text %d' % k)))
gc.collect()
assert not any(r() is not None for r in refs), [r() for r in refs]
g.close()
''')

seed('C31-long-tones', 'C31', [(MODEM, '''                self._gsmModem.write(cmd, timeout=(5 + toneLen))
''', '''                self._gsmModem.write(cmd, timeout=max(5, toneLen // 2))
''')],
     'a modem that plays the tones of one command one after another and answers when the last one has ended', 'the tone command times out while its tones are still being played; the example programs fail in the middle of the call',
'''
import time, threading, fakeport
from gsmmodem.modem import GsmModem
def tones(cmd):
    d.later(7, 'OK')
    return ''
d = fakeport.Device({'AT+CLAC': '+CLAC\\r\\n+VTS\\r\\n+ZPAS\\r\\n\\r\\nOK', 'ATD*': '', 'AT+VTS=*': tones})
g = GsmModem('x'); g.connect()
c = g.dial('123')
d.urc('CONNECT'); time.sleep(.5)
c.sendDtmfTone('9515999955951')
g.close()
''')

seed('C32-ussd-chain', 'C32', [(MODEM, '''        return Ussd(self, sessionActive, message)
''', '''        response = Ussd(self, sessionActive, message)
        response.previous = self._ussdResponse # (what this is the reply to)
        return response
''')],
     'USSD requests made over a long time by one connection', 'every reply keeps the one before it alive: all replies that were ever received stay in memory',
'''
import gc, weakref, fakeport
from gsmmodem.modem import GsmModem
n = [0]
def cusd(cmd):
    n[0] += 1
    d.later(.2, '+CUSD: 2,"balance %d",15' % n[0])
    return 'OK'
d = fakeport.Device({'AT+CUSD=*': cusd})
g = GsmModem('x'); g.connect()
refs = []
for k in range(4): refs.append(weakref.ref(g.sendUssd('*100#')))
gc.collect()
assert sum(r() is not None for r in refs) < 3, refs
g.close()
''')

seed('C33-puk-code', 'C33', [('gsmmodem/exceptions.py', "    def __init__(self, command, code=12):\n", "    def __init__(self, command, code=11):\n")],
     'a SIM card that is locked for good, found when connecting (its state is SIM PUK), and the program looks at the code of the error', 'the error has the code of a missing PIN: programs that decide by code send the PIN of a card that needs its PUK',
'''
from gsmmodem.exceptions import CmeError, PukRequiredError, SecurityException
for e in (CmeError('AT+CPIN="0000"', 12), PukRequiredError('AT+CPIN')):
    assert isinstance(e, PukRequiredError) and isinstance(e, SecurityException), type(e)
    assert (e.type, e.code) == ('CME', 12) and 'PUK' in str(e), e.code
''')

seed('C33-last-match', 'C33', [('gsmmodem/util.py', '''    result = []
    for line in lines:
        m = pattern.match(line)
        if m:
            result.append(m)
    return result
''', '''    matches = {}
    for line in lines:
        m = pattern.match(line)
        if m:
            matches[m.group()] = m
    return list(matches.values())
''')],
     'a response that has the same line more than once', 'the lookup of all matches leaves out repeated lines',
'''
import re
from gsmmodem.util import allLinesMatchingPattern
r = allLinesMatchingPattern(re.compile('^[+]X: ([0-9]+)'), ['+X: 1', 'y', '+X: 2', '+X: 1'])
assert [m.group(1) for m in r] == ['1', '2', '1'], r
''')
