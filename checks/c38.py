"""C38: signals that the application handles disturb no request."""
import os, signal
from vlib import *
import gen, mp

ROUTES = [('dump', '-', 'GET:/d'), ('dump', '-', 'POST:/d'), ('dump', 'byq', 'POST:/f'), ('helper', '-', 'POST:/x'), ('headers', '-', 'POST:/send'), ('dump', '-', 'PUT:/p/{id}')]
OPS = [b'json', b'text', b'created', b'err', b'stream', b'mime', b'list']


class Job:
    def __init__(self, r, i, www):
        self.i = i
        u = b'u=%d' % i
        k = self.kind = r.choice(('static', 'static', 'big', 'body', 'body', 'body', 'form', 'json', 'json', 'blocks', 'refused', 'filter', 'headers', 'param'))
        hs = b''.join(b'X-H%d: ' % j + gen.header_value(r, r.choice((1, 20, 200))) + b'\r\n' for j in range(r.randrange(4)))
        self.body = b''
        if k == 'static':
            line = b'GET /' + r.choice(sorted(f for f in www if len(www[f]) < 100000)).encode() + b'?' + u
        elif k == 'big':
            line = b'GET /' + r.choice(sorted(f for f in www if len(www[f]) >= 100000)).encode() + b'?' + u
        elif k == 'refused':
            line = r.choice((b'BREW /?', b'POST /?', b'GET /api/nix?')) + u
        elif k == 'headers':
            line = b'GET /api/d?' + u
        else:
            n = gen.size(r, 1, 3000)
            self.body = gen.blob(r, n) if k == 'body' else gen.text(r, n)
            if k == 'form':
                b = mp.boundary(r)
                ps = []
                for k2 in range(r.choice((1, 2, 4))):
                    f = r.random() < 0.5
                    ps.append((f, gen.text(r, 5), gen.text(r, 8) if f else None, [], gen.blob(r, gen.size(r, 0, 2000)) if f else gen.text(r, 40)))
                self.body = mp.encode(r, b, ps)
                hs += b'Content-Type: multipart/form-data; boundary=' + b + b'\r\n'
            if k == 'json' and r.random() < 0.4:
                self.body = gen.text(r, 300000)
            if k == 'blocks':
                self.body = gen.blob(r, r.choice((10, 5000, 400000)))
            line = {'body': b'POST /api/d?raw=1&', 'form': b'POST /api/d?', 'json': b'POST /api/x?op=' + r.choice(OPS) + b'&', 'blocks': b'POST /api/send?op=mime&st=200&m=image/png&b=%d&' % r.choice((7, 1000, 70000) if len(self.body) < 9000 else (5000, 70000)),
                    'filter': b'POST /api/f?%s' % r.choice((b'', b'ok=1&')), 'param': b'PUT /api/p/' + gen.text(r, 5) + b'?'}[k] + u
            hs += b'Content-Length: %d\r\n' % len(self.body)
        self.line = line
        self.data = line + b' HTTP/1.1\r\n' + hs + b'\r\n' + self.body
        n = len(self.data)
        # the places at which the client pauses, some within the body
        self.parts = sorted({r.randrange(n) for _ in range(r.choice((0, 1, 3, 8)))} | ({n - 1} if r.random() < 0.3 else set()))
        self.delay = r.choice((0.001, 0.004, 0.012))
        self.slow = r.random() < (0.8 if k in ('big', 'blocks', 'json') else 0.1)
        self.early = r.choice((0, 0, 0.004, 0.015))

    def marker(self):
        return b'u=%d ' % self.i


def run(ctx):
    ctx.rule = ('requests of every kind, sent in pieces and read slowly, while the process handles thousands of signals per second on every thread (with and without restart of interrupted calls) and is stopped and continued; '
                'responses, handler inputs, uploads and access lines must be the same as without signals; plain and TLS; non-trivial: distinct (request, mode)')
    r = ctx.rng
    www = {'index.html': b'<html>index</html>', 'a.txt': b'text', 'd/b.bin': bytes(range(256)) * 40, 'e.csv': b'', 'big.zip': r.randbytes(700000), 'huge.bin': r.randbytes(6000000)}
    modes = [('asan', False, 0, 5), ('asan', False, 1, 5), ('plain', False, 0, 60), ('asan', True, 0, 5), ('plain', True, 0, 200), ('plain', True, 1, 5)]
    n = 150 if ctx.quick else 2500
    uid = [0]
    for fl, tls, restart, us in modes:
        srv = Server(ctx, flavour=fl, routes=ROUTES, www=www, tls=tls, cov=fl == 'asan', level=r.choice((0, 2, 4)))
        what = '%s, calls %s' % ('TLS' if tls else 'plain', 'restarted' if restart else 'interrupted')
        jobs = []
        for _ in range(n):
            uid[0] += 1
            jobs.append(Job(r, uid[0], www))

        def ask(j, calm):
            s = socket.socket()
            s.settimeout(TIMEOUT)
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            if j.slow:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 8192)
            s.connect((srv.addr, srv.port))
            if tls:
                if not calm:
                    time.sleep(j.early)
                try:
                    s = ssl_ctx().wrap_socket(s, suppress_ragged_eofs=True)
                except OSError as e:
                    s.close()
                    srv.check()
                    return b'(no handshake: %s)' % str(e).encode()
            elif not calm:
                time.sleep(j.early)
            try:
                p = 0
                for c in ([] if calm else j.parts) + [len(j.data)]:
                    if p:
                        time.sleep(j.delay)
                    if c > p:
                        try:
                            s.sendall(j.data[p:c])
                        except (ConnectionResetError, BrokenPipeError, ssl.SSLError):
                            break
                    p = c
                out = b''
                k = 0
                while True:
                    try:
                        d = s.recv(16384)
                    except socket.timeout:
                        raise Hang('no end of the response')
                    except (ConnectionResetError, ssl.SSLError) as e:
                        out += b'(%s)' % type(e).__name__.encode()
                        break
                    if not d:
                        break
                    out += d
                    k += 1
                    if j.slow and not calm and (k in (1, 3, 40, 90, 250) or k % 4 == 0 and k < 100):
                        time.sleep(0.03 if k in (1, 3, 40, 90, 250) else 0.002)
                return out
            finally:
                s.close()

        def seen(start, at):
            """What the handlers of each request were given, and the access lines."""
            es, ls = {}, {}
            for e in srv.poll()[start:]:
                if e['kind'] in ('H', 'F', 'V', 'LEN', 'SENT') and isinstance(e.get('url'), bytes):
                    x = {k: v for k, v in e.items() if k not in ('ns', 'tid', 'req', 'start')}
                    m = re.search(rb'u=(\d+)', e['url'])
                    if isinstance(x.get('form'), bytes):
                        for t in re.findall(rb'tmpfile=(\d+-[0-9a-f]{32})', x['form']):
                            try:
                                x['file ' + t.decode()[-32:]] = open(srv.dir + '/upload/' + t.decode(), 'rb').read()
                            except OSError as er:
                                x['file ' + t.decode()[-32:]] = str(er)
                        x['form'] = re.sub(rb'tmpfile=\d+-', b'tmpfile=T-', x['form'])
                    es.setdefault(int(m.group(1)) if m else 0, []).append(sorted(x.items()))
            for l in srv.access()[at:].split(b'\n'):
                m = re.search(rb'u=(\d+) HTTP', l)
                if m:
                    ls.setdefault(int(m.group(1)), []).append(re.sub(rb' \d+\.\d{3}$', b' D', re.sub(rb'\[\d\d/[^\]]*\]', b'[T]', l)))
                elif l:
                    ls.setdefault(0, []).append(l)
            return es, ls

        def both(calm):
            start, at = len(srv.poll()), len(srv.access())
            out = {}

            def one(j):
                out[j.i] = re.sub(rb'tmpfile=\d+-', b'tmpfile=T-', ask(j, calm))
            parallel(one, jobs, 14)
            srv.idle()
            srv.check()
            return out, seen(start, at)
        ref, (re_, rl) = both(True)
        srv.ctl('storm %d %d' % (us, restart))
        stop = threading.Event()

        def pause():
            while not stop.wait(0.07):
                try:
                    os.kill(srv.proc.pid, signal.SIGSTOP)
                    time.sleep(0.004)
                finally:
                    os.kill(srv.proc.pid, signal.SIGCONT)
                ctx.count('stops_and_continues')
        th = threading.Thread(target=pause, daemon=True)
        th.start()
        try:
            got, (ge, gl) = both(False)
        finally:
            stop.set()
            th.join()
        e = srv.ctl('storm 0 0')
        if int(e['seen']) < 1000:
            raise HarnessError('only %s signals' % e['seen'])
        for k, name in (('seen', 'signals_handled'), ('recv', 'receive_calls_interrupted'), ('send', 'send_calls_interrupted_or_cut'), ('accept', 'accept_calls_interrupted'), ('tls', 'tls_calls_interrupted')):
            ctx.count(name, int(e[k]))
        for j in jobs:
            a, b = ref[j.i], got[j.i]
            if a != b:
                at = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
                raise Violation('response', 'while the application handles signals (%s) the response to %r has %d bytes instead of %d, differing from %d: %r instead of %r'
                                % (what, short(j.data, 120), len(b), len(a), at, short(b[at:at + 40]), short(a[at:at + 40])), request=j.data.hex())
            for k, x, y in (('handler', re_.get(j.i), ge.get(j.i)), ('access line', rl.get(j.i), gl.get(j.i))):
                if x != y:
                    raise Violation(k.split()[0], 'while the application handles signals (%s) the request %r has other %s: %s instead of %s' % (what, short(j.data, 120), 'handler inputs' if k == 'handler' else 'access lines', short(repr(y), 300), short(repr(x), 300)),
                                    request=j.data.hex())
            ctx.case((j.data, what), {'request': short(j.data, 80), 'pieces': len(j.parts) + 1, 'slow reader': j.slow, 'mode': what} if j.i % 97 == 0 else None)
            ctx.count('requests_' + j.kind)
        if len(re_.get(0, [])) != len(ge.get(0, [])):
            raise Violation('handler', 'while the application handles signals (%s) a handler is given a request that nobody sent: %s' % (what, short(repr(ge.get(0)), 300)))
        if len(rl.get(0, [])) != len(gl.get(0, [])):
            raise Violation('access', 'while the application handles signals (%s) there are access lines without a request: %s' % (what, short(repr(gl.get(0)), 300)))
        srv.check()
        srv.stop()
