"""Connections that stay active until told otherwise."""
from vlib import *

_n = [0]


class Held:
    """A request to a holding handler, from a given address. state: 'in', 'refused' or 'done'."""

    def __init__(self, srv, path, src=None, hdr=b'', filt=False):
        _n[0] += 1
        self.id = 'h%d' % _n[0]
        self.srv, self.path, self.src = srv, path, src
        self.url = path + b'?id=' + self.id.encode()
        self.s = connect(srv.port, srv.addr, src, tls=srv.tls)
        self.s.sendall(b'GET ' + self.url + b' HTTP/1.1\r\n' + hdr + b'\r\n')
        self.state = None

    def settle(self, timeout=TIMEOUT):
        """Waits until the server either runs the handler or answers."""
        import select
        t = time.monotonic() + timeout
        while True:
            if self.srv.find(lambda e: e['kind'] == 'H' and e['url'] == self.url, max(0, len(self.srv.events) - 3000)):
                self.state = 'in'
                return self.state
            if select.select([self.s], [], [], 0.001)[0] or (isinstance(self.s, ssl.SSLSocket) and self.s.pending()):
                r = Result()
                if isinstance(self.s, ssl.SSLSocket):  # the bytes may be session tickets, and no answer
                    self.s.settimeout(0.001)
                    try:
                        d = self.s.recv(65536)
                        r.data, r.eof = d, not d
                    except (socket.timeout, ssl.SSLWantReadError):
                        continue
                    except (ConnectionResetError, ssl.SSLError, OSError):
                        r.eof = True
                    finally:
                        self.s.settimeout(TIMEOUT)
                if not r.eof:
                    read_all(self.s, r)
                self.response = r.data
                self.s.close()
                self.state = 'refused'
                return self.state
            if time.monotonic() > t:
                self.srv.check()
                raise Hang('a connection is neither admitted nor answered')

    def end(self, how='release'):
        if self.state == 'in':
            if how == 'rst':
                rst(self.s)
            elif how == 'close':
                self.s.close()
            self.srv.ctl('release ' + self.id, wait=False)
            if how == 'release':
                r = read_all(self.s, Result())
                self.response = r.data
                self.s.close()
                if not r.data.startswith(b'HTTP/1.1 200'):
                    self.srv.check()
                    raise Violation('held-response', 'a held request was answered with %r' % short(r.data))
            self.state = 'done'


def is_429(data):
    try:
        return parse_response(data)[0] == 429
    except BadResponse as e:
        raise Violation('refusal', 'a connection over the limit is answered with %r (%s)' % (short(data), e))
