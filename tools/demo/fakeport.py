""" A small scripted modem on a fake serial port, in real time """
import sys, threading, time, warnings, logging
sys.dont_write_bytecode = True
sys.path.insert(0, '.'); sys.path.insert(1, 'tools')
warnings.simplefilter('ignore'); logging.disable(logging.CRITICAL)
import io, os, traceback, serial
def _hook(*a): traceback.print_exception(*a); sys.stderr.flush(); os._exit(1)
sys.excepthook = _hook
class FakeSerial(io.RawIOBase):
    device = None
    def __init__(self, port=None, baudrate=None, timeout=None, **kw):
        self.dev = FakeSerial.device if not isinstance(FakeSerial.device, dict) else FakeSerial.device[port]
        self.dev.port = self
        self.cond, self.buf, self.timeout, self.tx, self.is_open = threading.Condition(), bytearray(), timeout, bytearray(), True
    def inWaiting(self): return len(self.buf)
    in_waiting = property(inWaiting)
    def feed(self, data):
        with self.cond: self.buf += data.encode('latin-1'); self.cond.notify_all()
    def read(self, size=1):
        with self.cond:
            if not self.buf: self.cond.wait(self.timeout)
            d = bytes(self.buf[:size]); del self.buf[:size]; return d
    def write(self, data):
        for b in bytes(data):
            if b in (0x0D, 0x1A): c = self.tx.decode('latin-1'); self.tx.clear(); self.dev.command(c, b)
            elif b == 0x1B: self.tx.clear(); self.dev.command('ESC', b)
            else: self.tx.append(b)
        return len(data)
    def close(self): self.is_open = False
    def __del__(self): pass
serial.Serial = FakeSerial
class Device(object):
    """ answers: command (or prefix ending in *) -> response text, list of texts (used up in turn) or function """
    def __init__(self, answers=None):
        self.answers = {'AT+CPIN?': '+CPIN: READY\r\n\r\nOK', 'AT+CLAC': 'ERROR', 'AT+WIND?': 'ERROR', 'AT+ZPAS?': 'ERROR', 'AT+CGMI': 'ACME\r\n\r\nOK', 'AT+CFUN?': '+CFUN: 1\r\n\r\nOK', 'AT+CSCA?': '+CSCA: "+27820001111",145\r\n\r\nOK',
            'AT+CPMS=?': '+CPMS: ("SM","ME"),("SM","ME"),("SM","ME")\r\n\r\nOK', 'AT+CSQ': '+CSQ: 20,99\r\n\r\nOK'}
        self.answers.update(answers or {})
        self.commands = []
        self.times = []
        self.prompt = False
        self.bodies = []
        FakeSerial.device = self
    def send(self, text): self.port.feed(text)
    def urc(self, *lines): self.send(''.join('\r\n%s\r\n' % l for l in lines))
    def later(self, delay, *lines):
        t = threading.Timer(delay, self.urc, lines); t.daemon = True; t.start()
    def command(self, cmd, term):
        self.commands.append(cmd); self.times.append(time.time())
        if term == 0x1A: self.bodies.append(cmd); cmd = 'BODY'
        a = self.answers.get(cmd)
        if a is None:
            for k, v in self.answers.items():
                if k.endswith('*') and cmd.startswith(k[:-1]): a = v
        if isinstance(a, list): a = a.pop(0) if len(a) > 1 else a[0]
        if callable(a): a = a(cmd)
        if a is None: a = 'OK'
        if a == '>': self.send('\r\n> ')
        elif a: self.send('\r\n%s\r\n' % a)
