"""A stand-in for sockets.  Use `with console(...) as log:` around the code that connects."""
import socket


class Console(object):
    """What the other end does: `incoming` are the bytes it sends, `faults` maps (operation, n-th call from 0, or None
    for all of them) to the exception to raise."""

    def __init__(self, incoming=b'', faults=None):
        self.incoming = incoming
        self.pos = 0
        self.faults = faults or {}
        self.counts = {}
        self.log = []           # (operation, value)
        self.sent = b''
        self.sockets = []
        self.handles = []
        self.on_read = None

    def step(self, operation, value=None):
        n = self.counts.get(operation, 0)
        self.counts[operation] = n + 1
        self.log.append((operation, value))
        error = self.faults.get((operation, n))
        if error is None:
            error = self.faults.get((operation, None))
        if error is not None:
            raise error

    def take(self, n):
        if n is None or n < 0:
            n = len(self.incoming) - self.pos
        out = self.incoming[self.pos:self.pos + n]
        self.pos += len(out)
        return out

    def open(self):
        """sockets not closed"""
        return [s for s in self.sockets if not s.closed]


class FakeSocket(object):
    current = None

    def __init__(self, *args, **kwargs):
        self.console = FakeSocket.current
        self.closed = False
        self.connected = None
        self.console.step('socket')
        self.console.sockets.append(self)

    def settimeout(self, *args):
        pass

    def setsockopt(self, *args):
        pass

    def setblocking(self, *args):
        pass

    def bind(self, *args):
        pass

    def fileno(self):
        return -1

    def gettimeout(self):
        return None

    def connect(self, address):
        self.alive()
        self.console.step('connect', address)
        self.connected = address

    def alive(self):
        if self.closed:
            raise OSError(9, 'Bad file descriptor')

    def sendall(self, data, *args):
        self.alive()
        self.console.step('send', data)
        self.console.sent = self.console.sent + bytes(data)

    def send(self, data, *args):
        """accepts no more than half of the data"""
        self.alive()
        n = (len(data) + 1) // 2
        self.console.step('send', data[:n])
        self.console.sent = self.console.sent + bytes(data[:n])
        return n

    def recv(self, n, *args):
        self.alive()
        self.console.step('recv', n)
        return self.console.take(n)

    def makefile(self, mode='r', buffering=None, *args, **kwargs):
        self.alive()
        self.console.step('makefile', mode)
        handle = SocketFile(self, mode, buffering)
        self.console.handles.append(handle)
        return handle

    def shutdown(self, *args):
        pass

    def close(self):
        try:
            self.console.step('close')
        finally:
            self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


class SocketFile(object):
    """A file over a socket: a buffered one blocks until all bytes asked for (or the end) are there and may take more
    than it was asked for from the socket, an unbuffered one returns as little as one byte."""

    def __init__(self, sock, mode, buffering):
        self.sock = sock
        self.console = sock.console
        self.binary = 'b' in mode
        self.raw = buffering == 0
        self.closed = False
        self.ahead = b''

    def read(self, n=-1):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        self.console.step('read', n)
        if self.console.on_read is not None:
            self.console.on_read()
        if self.raw:
            return self.console.take(min(n, 1))
        if n is None or n < 0:
            n = len(self.ahead) + len(self.console.incoming) - self.console.pos
        if len(self.ahead) < n:
            self.ahead = self.ahead + self.console.take(-1)
        out = self.ahead[:n]
        self.ahead = self.ahead[len(out):]
        if not self.binary:
            return out.decode('utf-8')
        return out

    def close(self):
        try:
            self.console.step('handle-close')
        finally:
            self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


class Installed(object):
    """with Installed(console): ..."""

    def __init__(self, console):
        self.console = console

    def __enter__(self):
        self.saved = socket.socket
        FakeSocket.current = self.console
        socket.socket = FakeSocket
        return self.console

    def __exit__(self, *args):
        socket.socket = self.saved
        FakeSocket.current = None
        return False
