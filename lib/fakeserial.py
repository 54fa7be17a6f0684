# -*- coding: utf-8 -*-
""" A serial port that behaves like pyserial 3.5 on POSIX (bytes; SerialException on failures), connected to a simulated device """
import io, errno
import serial
import detsched

PORTS = {} # port name -> Line

class Line(object):
    """ The wire between the port and a device. The device implements rx(bytes) and gets .send(bytes, delay) """
    def __init__(self, device=None):
        self.device = device
        self.buf = bytearray()    # towards the host
        self.fault = None         # (kind) the port has failed
        self.write_faults = {}    # number of the write() call -> exception factory
        self.nwrites = 0
        self.opened = self.closed = 0
        self.port = None
        self.log = []             # (time, 'w'/'r', bytes) at the boundary
        self.reads_after_close = 0
        self.unread_at_close = None
    def deliver(self, data):
        """ bytes arrive at the host now """
        if self.fault or (self.port is not None and not self.port.is_open): return
        self.buf += data
    def fail(self, kind): self.fault = kind

class FakeSerial(io.RawIOBase):
    def __init__(self, port=None, baudrate=9600, bytesize=8, parity='N', stopbits=1, timeout=None, xonxoff=False, rtscts=False, write_timeout=None, dsrdtr=False, inter_byte_timeout=None, exclusive=None, **kw):
        self.is_open = False
        self.port, self.baudrate, self._timeout = port, baudrate, timeout
        self.name = port
        self.write_timeout = write_timeout
        line = PORTS.get(port)
        if line is None: raise serial.SerialException(2, 'could not open port %s: [Errno 2] No such file or directory' % port)
        if line.port is not None and line.port.is_open: raise serial.SerialException('Port is already open (%s)' % port)
        self._line = line
        line.port = self
        line.opened += 1
        self.is_open = True
        if hasattr(line.device, 'on_open'): line.device.on_open()
    timeout = property(lambda s: s._timeout, lambda s, v: setattr(s, '_timeout', v))
    def isOpen(self): return self.is_open
    def readable(self): return True
    def writable(self): return True
    def _check(self):
        if not self.is_open: raise serial.serialutil.PortNotOpenError()
    def _sched(self): return detsched.CUR
    @property
    def in_waiting(self):
        self._check()
        s = self._sched(); s.point()
        if self._line.fault: raise OSError(errno.EIO, 'Input/output error')
        return len(self._line.buf)
    def inWaiting(self): return self.in_waiting
    def read(self, size=1):
        self._check()
        s = self._sched(); l = self._line
        s.point()
        if size == 0: return b''
        avail = lambda: len(l.buf) >= size or l.fault or not self.is_open
        if not avail():
            if self._timeout is None: s.block(avail)
            elif self._timeout > 0: s.block(avail, self._timeout)
        if not self.is_open: raise serial.SerialException('read failed: [Errno 9] Bad file descriptor')
        if l.fault and not l.buf:
            raise serial.SerialException('device reports readiness to read but returned no data (device disconnected or multiple access on port?)')
        data = bytes(l.buf[:size])
        del l.buf[:size]
        if data: l.log.append((s.now, 'r', data))
        return data
    def readinto(self, b):
        d = self.read(len(b)); b[:len(d)] = d; return len(d)
    def write(self, data):
        self._check()
        data = serial.to_bytes(data) if not isinstance(data, (bytes, bytearray, memoryview)) else bytes(data)
        s = self._sched(); l = self._line
        s.point()
        n = l.nwrites; l.nwrites += 1
        if n in l.write_faults:
            l.log.append((s.now, 'x', data))
            raise l.write_faults[n]()
        if l.fault:
            l.log.append((s.now, 'x', data))
            raise serial.SerialException('write failed: [Errno 5] Input/output error')
        l.log.append((s.now, 'w', data))
        if l.device is not None: l.device.rx(data)
        return len(data)
    def flush(self): self._check()
    def flushInput(self): self._check(); self._line.buf.clear()
    reset_input_buffer = flushInput
    def flushOutput(self): self._check()
    reset_output_buffer = flushOutput
    def cancel_read(self): pass
    def cancel_write(self): pass
    def close(self):
        if getattr(self, 'is_open', False):
            self._line.unread_at_close = bytes(self._line.buf)
            self.is_open = False
            self._line.closed += 1
            if hasattr(self._line.device, 'on_close'): self._line.device.on_close()
    @property
    def closed(self): return not getattr(self, 'is_open', False)
    def __del__(self): pass

def install():
    serial.Serial = FakeSerial
