"""C13: each accepted connection is handed to exactly one worker, in arrival order."""
import collections, select
from hold import *


def host(a):
    return int.from_bytes(socket.inet_aton(a), 'big')


class Queue:
    """The server with all workers busy, and a model of what waits."""

    def __init__(self, ctx, srv):
        self.ctx, self.srv = ctx, srv
        st = srv.find(lambda e: e['kind'] == 'START')[0]
        self.W, self.cap = int(st['workers']), int(st['queue'])
        self.wait = collections.deque()
        self.busy = {}
        self.seen = len(srv.poll())
        self.added = self.taken = self.full = 0
        srv.ctl('rawhold 1')
        for i in range(self.W):
            s, key = self.open()
            self.busy[key] = s
        ev = srv.wait_event(lambda e: e['kind'] == 'TAKE', start=self.seen, count=self.W)
        self.seen = len(srv.poll())
        got = [(e['host'], e['port']) for e in ev]
        if sorted(got) != sorted(self.busy):
            raise Violation('handed', 'the workers were given %d connections, %d of them different ones, of %d that arrived' % (len(got), len(set(got)), self.W))

    def open(self, src='127.0.0.1'):
        s = connect(self.srv.port, self.srv.addr, src)
        a = s.getsockname()
        return s, (str(host(a[0])), str(a[1]))

    def add(self, src='127.0.0.1'):
        s, key = self.open(src)
        self.added += 1
        if len(self.wait) < self.cap:
            self.wait.append((key, s))
        else:
            r = read_all(s, Result())
            s.close()
            if r.data:
                raise Violation('full', 'a connection that arrived while the queue was full was handled')
            self.full += 1

    def release(self):
        """One worker becomes free."""
        srv = self.srv
        srv.ctl('releasen 1', wait=False)
        done = srv.wait_event(lambda e: e['kind'] == 'DONE', start=self.seen)
        k = (done[0]['host'], done[0]['port'])
        if k not in self.busy:
            raise Violation('handed', 'a connection is being handled that nobody handed over')
        s = self.busy.pop(k)
        r = read_all(s, Result())
        s.close()
        if r.data != b'K':
            raise Violation('handled-once', 'a handled connection got %r' % r.data)
        if not self.wait:
            self.seen = self.seen + 1
            return
        take = srv.wait_event(lambda e: e['kind'] == 'TAKE', start=self.seen)
        self.taken += 1
        want, s = self.wait.popleft()
        got = [(e['host'], e['port']) for e in take]
        if got != [want]:
            w = [x[0] for x in self.wait]
            where = 'number %d of those waiting' % (w.index(got[0]) + 2) if got[0] in w else 'one that was taken before or never arrived'
            raise Violation('order', 'a free worker took %d connections, the first is %s, instead of the one that waited longest (%d waiting, %d arrivals so far)' %
                            (len(got), where, len(w) + 1, self.added))
        self.busy[want] = s
        self.seen = len(srv.poll())


def run(ctx):
    ctx.rule = ('random arrivals while all workers are held and one is set free at a time: each free worker must take exactly the connection that waited longest, over many turns '
                'of the ring and at its capacity; bursts to idle and busy workers, also with injected delays: each connection is handled once; non-trivial: distinct (queue length, position in the ring)')
    r = ctx.rng
    mult = 1 if ctx.quick else 12

    for chaos in (0, 20):
        srv = Server(ctx, raw=True, chaos=chaos, cov=True)
        q = Queue(ctx, srv)
        ring = 0
        plan = []
        for _ in range((9 if not chaos else 3) * mult):
            plan.append(r.choice((('walk', r.randrange(100, 300), r.choice((1, 3, 20, 200))), ('fill',), ('drain',))))
        plan = [('walk', 200, 3), ('fill',), ('drain',), ('walk', 300, 20), ('fill',), ('partial',), ('fill',), ('drain',)] + plan + [('drain',)] if not chaos else plan + [('fill',), ('drain',)]
        for p in plan:
            if p[0] == 'walk':
                for _ in range(p[1]):
                    if r.random() < 0.5:
                        for _ in range(r.randrange(1, p[2] + 1)):
                            if len(q.wait) < q.cap:
                                q.add('127.0.0.%d' % r.randrange(1, 6))
                    else:
                        for _ in range(min(len(q.wait), r.randrange(1, p[2] + 1))):
                            q.release()
                    ctx.case((len(q.wait), q.added % q.cap, q.taken % q.cap))
            elif p[0] == 'fill':
                while len(q.wait) < q.cap:
                    q.add()
                for i in range(r.choice((1, 2, 20))):
                    q.add()
                # place for one, again and again
                for i in range(r.choice((3, 30))):
                    q.release()
                    q.add()
                    if r.random() < 0.3:
                        q.add()
                    ctx.case((len(q.wait), q.added % q.cap, q.taken % q.cap))
                ctx.count('fills')
            elif p[0] == 'partial':
                for i in range(r.randrange(1, len(q.wait))):
                    q.release()
            else:
                while q.wait:
                    q.release()
                    ctx.case((len(q.wait), q.added % q.cap, q.taken % q.cap))
            srv.check()
        ctx.count('arrivals', q.added)
        ctx.count('taken_in_order', q.taken)
        ctx.count('closed_when_full', q.full)
        if len(ctx.samples) < 3:
            ctx.samples.append({'arrivals': q.added, 'taken_in_order': q.taken, 'closed_when_full': q.full, 'turns_of_the_ring': q.taken // q.cap})
        for s in q.busy.values():
            s.close()
        srv.stop()

    # arrivals to free workers
    for chaos in (0, 30, 80):
        srv = Server(ctx, raw=True, chaos=chaos, cov=True)
        for rnd in range(25 * mult):
            n = r.choice((1, 2, 3, 5, 20, 60, 150))
            th = r.choice((1, 2, 8, 40))
            start = len(srv.poll())
            keys = []
            lk = threading.Lock()

            def one(i):
                src = '127.0.0.%d' % (1 + i % 7)
                s = connect(srv.port, srv.addr, src)
                a = s.getsockname()
                # some bytes, as the kernel may have kept nothing of a handshake in a burst (SYN cookies)
                try:
                    s.sendall(b'x')
                except OSError:
                    pass
                x = read_all(s, Result())
                s.close()
                if x.data != b'K':
                    raise Violation('handled-once', 'a connection was answered %r instead of being handled once' % x.data)
                with lk:
                    keys.append((str(host(a[0])), str(a[1])))
            parallel(one, range(n * 4), th)
            srv.idle()
            got = [(e['host'], e['port']) for e in srv.find(lambda e: e['kind'] == 'TAKE', start)]
            if sorted(got) != sorted(keys):
                raise Violation('handled-once', '%d connections arrived, %d were handled (%d of them twice or by mistake)' % (len(keys), len(got), len(got) - len(set(got) & set(keys))))
            ctx.case((chaos, rnd, n, th))
            ctx.count('burst_connections', len(keys))
            srv.check()
        srv.stop()

    # the same with requests: more than there are workers
    for tls in (False, True):
        srv = Server(ctx, routes=[('hold', '-', 'GET:/h')], tls=tls, cov=True)
        W = int(srv.find(lambda e: e['kind'] == 'START')[0]['workers'])
        hs = []
        for i in range(W):
            h = Held(srv, b'/api/h')
            hs.append(h)
        for h in hs:
            h.settle()
        late = []
        for i in range(40):
            # a TLS client cannot finish its handshake yet
            if tls:
                break
            late.append(Held(srv, b'/api/h'))
        time.sleep(0.02)
        if srv.find(lambda e: e['kind'] == 'H' and e['url'] in [h.url for h in late]):
            raise HarnessError('more workers than expected')
        for i, h in enumerate(late):
            hs[i].end('release')
            n = srv.wait_event(lambda e: e['kind'] == 'H', start=0, count=W + i + 1)
            if n[-1]['url'] != h.url:
                raise Violation('order', 'a free worker took the request %r instead of %r, which waited longest' % (n[-1]['url'], h.url))
            h.state = 'in'
            ctx.case(('http', i))
        for h in hs[len(late):] + late:
            h.end('release')
        srv.idle()
        urls = [e['url'] for e in srv.find(lambda e: e['kind'] == 'H')]
        if len(urls) != len(set(urls)):
            raise Violation('handled-once', 'a request was handled twice')
        ctx.case(('http', tls))
        srv.stop()
