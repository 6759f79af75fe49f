"""Simulated TCP: socket.socket / socket.create_connection / the selector of socketserver run over an in-memory network whose delays,
resets and refusals are decided by the simulator."""
import errno
import io
import socket

import simenv

_SocketIO = socket.SocketIO


class Net(object):
    def __init__(self, sim, faults=None):
        self.sim = sim
        self.listeners = {}          # port -> SimSocket
        self.next_port = 40000
        self.faults = faults or {}   # kind -> probability
        self.keepalive_port = None
        self.budget = 0              # remaining connection faults
        self.delays = [0.0002, 0.001, 0.02, 0.3]
        self.weights = [20, 6, 2, 1]
        self.extra = None            # callable(conn) -> additional delay (slow phases)

    def delay(self):
        return self.delays[self.sim.chooser.choose(len(self.delays), self.weights)]

    def hit(self, kind):
        p = self.faults.get(kind, 0)
        if not p or self.budget <= 0:
            return False
        if self.sim.chooser.flip(p):
            self.budget -= 1
            self.sim.fault('net:' + kind)
            return True
        return False


NET = None


class SimSocket(object):
    def __init__(self, family=socket.AF_INET, type=socket.SOCK_STREAM, proto=0, fileno=None):
        self.family, self.type, self.proto = family, type, proto
        self.node = simenv.SIM.current.node
        self.node.sockets.append(self)
        self._io_refs = 0
        self._closed = False
        self._released = False
        self.timeout = None
        self.addr = ('127.0.0.1', 0)
        self.peeraddr = None
        self.pending = None          # listener: queue of accepted endpoints
        self.peer = None
        self.rbuf = bytearray()
        self.eof = False             # peer sent FIN
        self.reset = False
        self.wclosed = False
        self.last_delivery = 0.0
        self.fd = 1000 + len(self.node.sockets)
        self.reset_reply = False

    # ------------------------------------------------------------ plumbing
    def fileno(self):
        return -1 if self._closed else self.fd

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, flag):
        self.timeout = None if flag else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def getsockname(self):
        return self.addr

    def getpeername(self):
        return self.peeraddr

    def set_inheritable(self, flag):
        pass

    def get_inheritable(self):
        return False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # ------------------------------------------------------------ server side
    def bind(self, addr):
        port = addr[1]
        if port == 0:
            port = NET.next_port
            NET.next_port += 1
        elif port in NET.listeners:
            raise OSError(errno.EADDRINUSE, 'Address already in use')
        self.addr = (addr[0], port)

    def listen(self, backlog=5):
        self.pending = []
        NET.listeners[self.addr[1]] = self

    def accept(self):
        if not self.pending:
            simenv.SIM.block(lambda: bool(self.pending) or self._closed, self.timeout)
        if not self.pending:
            raise socket.timeout('timed out')
        if self.pending[0].peer.node is not self.node and NET.hit('accept'):
            raise OSError(errno.EMFILE, 'Too many open files')
        conn = self.pending.pop(0)
        conn.node = simenv.SIM.current.node
        conn.node.sockets.append(conn)
        return conn, conn.peeraddr

    # ------------------------------------------------------------ client side
    def connect(self, addr):
        sim = simenv.SIM
        sim.block(timeout=NET.delay())
        own = sim.current.node.name == 'p'          # the parent speaking to its own servers is not disturbed
        if not own and NET.hit('refused'):
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        lst = NET.listeners.get(addr[1])
        if lst is None or lst._released or not lst.node.alive:
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        other = SimSocket.__new__(SimSocket)
        other.__dict__.update(self.__dict__)
        other.rbuf = bytearray()
        other._io_refs = 0
        other.node = lst.node
        other.peer, self.peer = self, other
        other.addr, other.peeraddr = lst.addr, self.addr
        self.peeraddr = addr
        if not own and 'keepalive' in NET.faults and sim.current is not sim.current.node.main_task and NET.hit('keepalive'):
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        if not own and NET.hit('reset-request'):
            self.reset = True
            return
        if not own and NET.hit('reset-reply'):
            other.reset_reply = True
        lst.pending.append(other)

    # ------------------------------------------------------------ data
    def _deliver_at(self, fn):
        sim = simenv.SIM
        when = max(sim.now + NET.delay(), self.last_delivery + 1e-7)
        self.last_delivery = when
        sim.at(when - sim.now, fn)

    def send(self, data, flags=0):
        if self._released or self.wclosed:
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        if self.reset:
            raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        if self.reset_reply:
            self._abort()
            raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        peer = self.peer
        data = bytes(data)
        if b'<methodName>disconnect</methodName>' in data:
            sim = simenv.SIM
            sim.log(sim.current.node.name, 'goodbye')

        def arrive():
            if not peer._released:
                peer.rbuf += data
        self._deliver_at(arrive)
        return len(data)

    def sendall(self, data, flags=0):
        self.send(data)

    def recv(self, n, flags=0):
        sim = simenv.SIM
        if not (self.rbuf or self.eof or self.reset):
            sim.block(lambda: bool(self.rbuf) or self.eof or self.reset or self._released, self.timeout)
        else:
            sim.yield_point()
        if self.rbuf and not self.reset:
            out = bytes(self.rbuf[:n])
            del self.rbuf[:n]
            return out
        if self.reset:
            raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        if self.eof:
            return b''
        raise socket.timeout('timed out')

    def recv_into(self, buf, nbytes=0, flags=0):
        data = self.recv(nbytes or len(buf))
        buf[:len(data)] = data
        return len(data)

    def _abort(self):
        peer = self.peer
        self.reset = True
        if peer is not None:
            def go():
                peer.reset = True
            self._deliver_at(go)

    def shutdown(self, how):
        if self.peer is None:
            raise OSError(errno.ENOTCONN, 'Transport endpoint is not connected')
        if how in (socket.SHUT_WR, socket.SHUT_RDWR) and not self.wclosed:
            self.wclosed = True
            self._fin()

    def _fin(self):
        peer = self.peer
        if peer is None or self.reset:
            return

        def go():
            peer.eof = True
        self._deliver_at(go)

    def makefile(self, mode='r', buffering=None, *, encoding=None, errors=None, newline=None):
        rawmode = ('r' if 'r' in mode or 'w' not in mode else '') + ('w' if 'w' in mode else '')
        raw = _SocketIO(self, rawmode)
        self._io_refs += 1
        if buffering is None or buffering < 0:
            buffering = io.DEFAULT_BUFFER_SIZE
        if buffering == 0:
            return raw
        if 'r' in rawmode and 'w' in rawmode:
            buf = io.BufferedRWPair(raw, raw, buffering)
        elif 'r' in rawmode:
            buf = io.BufferedReader(raw, buffering)
        else:
            buf = io.BufferedWriter(raw, buffering)
        if 'b' in mode:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline)

    def _decref_socketios(self):
        if self._io_refs > 0:
            self._io_refs -= 1
        if self._closed:
            self.close()

    def close(self):
        self._closed = True
        if self._io_refs <= 0:
            self.release()

    def detach(self):
        self._closed = True
        return -1

    def release(self):
        """what the kernel does when the last descriptor goes away"""
        if self._released:
            return
        self._released = self._closed = True
        if self.pending is not None:
            if NET.listeners.get(self.addr[1]) is self:
                del NET.listeners[self.addr[1]]
            for c in self.pending:
                c.reset = True
                c.peer.reset = True
            self.pending = []
        elif self.peer is not None:
            if self.rbuf:
                self._abort()
            elif not self.wclosed:
                self.wclosed = True
                self._fin()


def create_connection(address, timeout=None, source_address=None, *, all_errors=False):
    s = SimSocket()
    try:
        s.connect(address)
    except BaseException:
        s.close()
        raise
    return s


class SimSelector(object):
    def __init__(self):
        self.objs = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def register(self, fileobj, events, data=None):
        self.objs.append(fileobj)

    def close(self):
        pass

    def select(self, timeout=None):
        socks = [getattr(o, 'socket', o) for o in self.objs]

        def ready():
            return any(s.pending or s._released for s in socks)
        if ready():
            simenv.SIM.yield_point()
        else:
            simenv.SIM.block(ready, timeout)
        return [(o, 1) for o, s in zip(self.objs, socks) if s.pending]


def release_node(node):
    for s in list(node.sockets):
        s.release()


def install(sim, faults=None):
    global NET
    import socketserver
    NET = Net(sim, faults)
    socket.socket = SimSocket
    socket.create_connection = create_connection
    socketserver._ServerSelector = SimSelector
    return NET
