"""C33: a kill at any moment loses nothing that was acknowledged, and a restart goes on from there."""
from vlib import *
import gen, mp
import c21

ROUTES = [('dump', '-', 'POST:/d'), ('dump', '-', 'GET:/d'), ('logs', '-', 'GET:/l'), ('helper', '-', 'POST:/x'), ('dump', 'byq', 'GET:/f'), ('hold', '-', 'GET:/hold')]
WWW = {'index.html': b'<html>index</html>', 'a.txt': b'text', 'd/b.bin': bytes(range(256)) * 1000}
UID = [0]


def now():
    return time.clock_gettime_ns(time.CLOCK_MONOTONIC)


class Job:
    """A request that can be told apart from all others, and what became of it."""

    def __init__(self, r, kind, contents):
        UID[0] += 1
        self.id = b'u=%d' % UID[0]
        self.kind, self.parts, self.done, self.names, self.got = kind, None, None, None, b''
        m, url, hs, body = b'GET', b'/a.txt', [], b''
        if kind == 'large':
            url = b'/d/b.bin'
        elif kind == 'call':
            url = b'/api/d'
        elif kind == 'logs':
            url = b'/api/l'
        elif kind == 'filter':
            url = b'/api/f'
        elif kind == 'missing':
            url = b'/none'
        elif kind == 'bad':
            m = b'PATCH'
        elif kind == 'json':
            m, url, body = b'POST', b'/api/x', gen.text(r, 3000)
        elif kind == 'upload':
            m, url = b'POST', b'/api/d'
            self.parts = [(True, b'f%d' % i, b'n.bin', [], r.choice(contents)) for i in range(r.choice((1, 1, 3)))]
            body = mp.encode(r, b'BOUNDARY', self.parts)
            hs.append(b'Content-Type: multipart/form-data; boundary=BOUNDARY')
        if body:
            hs.append(b'Content-Length: %d' % len(body))
        hs.append(b'User-Agent: ' + gen.text(r, r.choice((3, 100, 250))))
        self.line = m + b' ' + url + b'?' + (b'op=json&' if kind == 'json' else b'') + self.id + b' HTTP/1.1'
        self.data = self.line + b'\r\n' + b''.join(h + b'\r\n' for h in hs) + b'\r\n' + body

    def run(self, srv):
        try:
            res = request(srv.port, self.data, srv.addr, tls=srv.tls)
        except (OSError, ssl.SSLError):
            return
        self.got = res.data
        if res.eof:
            # the connection was ended at this moment, by the server or by its end
            self.done = now()


def look(ctx, srv, jobs, killed, before, saved, what):
    """Compares what is left after a kill with what clients and handlers had been told until then."""
    acc = srv.access()
    if not acc.startswith(before):
        raise Violation('rewritten', 'earlier lines of the access log have changed (%s)' % what)
    new = acc[len(before):]
    lines = new.split(b'\n')
    if lines.pop() != b'':
        raise Violation('torn', 'after a kill the access log ends within a line: %r (%s)' % (short(new[-200:]), what))
    by = {}
    for l in lines:
        m = c21.LINE.match(l)
        i = m and re.search(rb'[?&](u=\d+)(?=[& ]|$)', m[4])
        if not i or not re.fullmatch(rb' \d+\.\d{3}', m[9]):
            raise Violation('torn', 'not a whole line of the access log after a kill: %r (%s)' % (short(l), what))
        by[i[1]] = by.get(i[1], 0) + 1
    app = None
    for j in jobs:
        n = by.pop(j.id, 0)
        ack = j.done is not None and j.done < killed and j.got
        if n > 1 or ack and n != 1:
            raise Violation('log-lost', 'a request%s has %d lines in the access log after a kill: %r (%s)' % (' that was answered' if ack else '', n, j.line, what), request=j.data.hex())
        if ack:
            ctx.count('acknowledged')
        if ack and j.kind == 'logs':
            app = app if app is not None else open(srv.dir + '/log/app.log', 'rb').read()
            url = j.line.split(b' ')[1]
            for w in (b'info', b'warn', b'error'):
                if app.count(b': ' + w + b' ' + url + b'\n') != 1:
                    raise Violation('record-lost', 'the record %r of a request that was answered is %d times in the log after a kill (%s)' % (w + b' ' + url, app.count(b': ' + w + b' ' + url + b'\n'), what))
    if by:
        raise Violation('invented', 'lines for requests nobody sent: %r (%s)' % (list(by)[:3], what))
    # uploads that a handler has been given
    byurl = {e['url']: e for e in srv.find(lambda e: e['kind'] == 'H')}
    for j in jobs:
        if j.kind == 'upload':
            e = byurl.get(j.line.split(b' ')[1])
            if e:
                err, names = mp.match(e['form'] or b'', j.parts)
                if err:
                    raise Violation('form', 'wrong form: %s (%s)' % (err, what))
                saved.update(dict(names))
                ctx.count('delivered_files', len(names))
    for t, d in saved.items():
        try:
            got = open(srv.dir + '/upload/' + t.decode(), 'rb').read()
        except OSError:
            got = None
        if got != d:
            raise Violation('upload', 'after a kill, the file %r of an upload that was delivered %s (%s)' % (t, 'is gone' if got is None else 'holds %d of %d bytes, or others' % (len(got), len(d)), what))


def again(ctx, srv, saved, what):
    """Starts the server in the same place and looks whether it goes on from there."""
    before = srv.access()
    app = open(srv.dir + '/log/app.log', 'rb').read()
    srv.proc.wait()
    open(srv.events_path, 'w').close()
    srv.__dict__.update(pos=0, buf=b'', events=[])
    srv.start(port=srv.port)
    if not srv.access().startswith(before) or not open(srv.dir + '/log/app.log', 'rb').read().startswith(app):
        raise Violation('restart', 'a restart changes what is in the logs (%s)' % what)
    for t, d in saved.items():
        try:
            got = open(srv.dir + '/upload/' + t.decode(), 'rb').read()
        except OSError:
            got = None
        if got != d:
            raise Violation('restart', 'a restart %s the file %r of a finished upload (%s)' % ('removes' if got is None else 'changes', t, what))
    ctx.count('restarts')


def run(ctx):
    ctx.rule = ('the process is killed at every operation on a file or connection of a few requests (also within a block that is written), and at random moments under load from many clients; '
                'the access log, the application log and the uploads must hold whole what clients and handlers had been told before; it is then started again in the same place, and must go on from there; '
                'non-trivial: distinct (requests, moment of the kill)')
    r = ctx.rng
    contents = [bytes(r.randrange(1, 256) for _ in range(40)), bytes(r.randrange(1, 256) for _ in range(3000)), r.randbytes(20000), b'']
    scen = [['upload', 'upload', 'static'], ['static', 'call', 'logs', 'bad'], ['json', 'large', 'filter'], ['logs', 'upload', 'upload', 'upload']]
    if not ctx.quick:
        scen += [[r.choice(('static', 'large', 'call', 'logs', 'filter', 'missing', 'bad', 'json', 'upload', 'upload')) for _ in range(r.randrange(2, 7))] for _ in range(10)]

    def enum(arg):
        n, (kinds, tls, same) = arg
        rr = random.Random('%s/%d' % (ctx.seed, n))
        srv = Server(ctx, flavour='pat', routes=ROUTES, www=WWW, tls=tls, level=2)
        srv.expect_exit = True
        at = 0
        saved = {}
        while True:
            at += 1 if ctx.quick or at < 150 else rr.randrange(1, 6)
            what = 'killed at operation %d of %s%s' % (at, '+'.join(kinds), ', TLS' if tls else '')
            held = []
            # (the start is over when a request is answered)
            srv.request(b'GET /a.txt HTTP/1.1\r\n\r\n')
            jobs = [Job(rr, k, contents[1:3] if same else contents) for k in kinds]
            if same:
                # one worker serves all of these requests
                w = int(srv.find(lambda e: e['kind'] == 'START')[0]['workers'])
                held = [connect(srv.port, srv.addr) for _ in range(w - 1)]
                time.sleep(0.1)
            before = srv.access()
            try:
                srv.fault(kill_at=at)
            except Violation as e:
                # something was still going on, and was interrupted before the answer to this came
                if e.key != 'server-exit' or not srv.find(lambda e: e['kind'] == 'KILLED'):
                    raise
            for j in jobs:
                j.run(srv)
                if not j.got or srv.find(lambda e: e['kind'] == 'KILLED'):
                    break
            t = time.monotonic() + TIMEOUT
            while srv.alive() and srv.nsock() > 1 + len(held) and time.monotonic() < t:
                time.sleep(0.002)
            k = srv.find(lambda e: e['kind'] == 'KILLED')
            ctx.case((tuple(kinds), tls, same, at), {'requests': kinds, 'killed at': at, 'operation': k[0]['op']} if k and at % 17 == 5 else None)
            if not k:
                # all of it was over before
                if not srv.alive():
                    raise Violation('server-exit', 'the server process ended by itself (%s)' % what, log=srv.log_text()[-1500:])
                srv.kill()
                look(ctx, srv, jobs, 1 << 62, before, saved, what)
                for s in held:
                    s.close()
                break
            ctx.count('kills_at_operations')
            srv.proc.wait()
            for s in held:
                s.close()
            look(ctx, srv, jobs, k[0]['ns'], before, saved, what)
            again(ctx, srv, saved, what)
        if at < 8:
            raise HarnessError('%d operations' % at)
    parallel(enum, enumerate([(k, False, False) for k in scen] + [(['upload', 'upload', 'upload', 'upload'], False, True), (['upload', 'logs', 'static'], True, False)]), 4)

    # at random moments, under load
    def load(n):
        rr = random.Random('%s/load%d' % (ctx.seed, n))
        srv = Server(ctx, flavour='pat' if n % 3 else 'chaos', routes=ROUTES, www=WWW, tls=n % 4 == 3, level=rr.choice((0, 2)), chaos=0 if n % 3 else 10)
        srv.expect_exit = True
        saved = {}
        for round in range(4 if ctx.quick else 40):
            what = 'killed under load, round %d' % round
            stop = [False]
            jobs = []
            lk = threading.Lock()

            def client(c):
                q = random.Random('%s/%d/%d/%d' % (ctx.seed, n, round, c))
                while not stop[0]:
                    j = Job(q, q.choice(('static', 'large', 'call', 'logs', 'filter', 'missing', 'json', 'upload', 'upload', 'upload')), contents)
                    with lk:
                        jobs.append(j)
                    j.run(srv)
            before = srv.access()
            ts = [threading.Thread(target=client, args=(c,), daemon=True) for c in range(rr.choice((1, 4, 16)))]
            for t in ts:
                t.start()
            time.sleep(rr.uniform(0.05, 0.5))
            if not srv.alive():
                raise Violation('server-exit', 'the server process ended by itself (%s)' % what, log=srv.log_text()[-1500:])
            killed = now()
            srv.proc.kill()
            stop[0] = True
            for t in ts:
                t.join()
            srv.proc.wait()
            look(ctx, srv, jobs, killed, before, saved, what)
            ctx.case(('load', n, round), n=len(jobs))
            ctx.count('kills_under_load')
            again(ctx, srv, saved, what)
        srv.kill()
    parallel(load, range(4 if ctx.quick else 8), 3)
