"""C34: a static file that is replaced while it is served is sent as one whole version."""
from vlib import *
import gen

SIZES = (0, 1, 17, 4095, 4096, 4097, 65535, 65536, 65537, 131072, 200000, 700000)


def content(k, v, n):
    """Version v of file k: every part of it tells which version it is."""
    unit = b'<%d:%d>' % (k, v)
    return (unit * (n // len(unit) + 1))[:n]


class File:
    def __init__(self, srv, k, name, fallback):
        self.srv, self.k, self.name, self.v = srv, k, name, 0
        self.path = os.path.join(srv.www, name)
        self.fallback = fallback
        self.hist = []  # (moment before which it cannot have been current, data or None)
        self.lk = threading.Lock()
        os.makedirs(os.path.dirname(self.path), exist_ok=True)

    def put(self, r):
        self.v += 1
        n = r.choice(SIZES)
        d = content(self.k, self.v, n)
        tmp = '%s/.tmp%d' % (self.srv.dir, self.k)
        with open(tmp, 'wb') as f:
            f.write(d)
        with self.lk:
            self.hist.append([time.monotonic_ns(), d, 1 << 62])
        os.rename(tmp, self.path)
        t = time.monotonic_ns()
        with self.lk:
            if len(self.hist) > 1:
                self.hist[-2][2] = t

    def drop(self):
        with self.lk:
            self.hist.append([time.monotonic_ns(), None, 1 << 62])
        os.unlink(self.path)
        t = time.monotonic_ns()
        with self.lk:
            self.hist[-2][2] = t

    def between(self, t0, t1):
        with self.lk:
            return [d for a, d, b in self.hist if a <= t1 and b >= t0]


def run(ctx):
    ctx.rule = ('files are replaced (by renaming a new version onto them) and removed all the time while clients ask for them, read quickly or slowly; each response must be one version, whole, that was current at some moment '
                'between the request and the end of the response, or the answer for a missing file if it was missing at some such moment; non-trivial: distinct responses')
    cfgs = [(False, 0, 'asan', True), (False, 20, 'chaos', True), (True, 0, 'pat', True), (False, 0, 'pat', False)] + ([(True, 20, 'chaos', True), (False, 60, 'chaos', True)] if not ctx.quick else [])
    for tls, chaos, fl, index in cfgs:
        www = {'index.html': b'<html>the index</html>'} if index else {'other.html': b'x'}
        srv = Server(ctx, flavour=fl, www=www, tls=tls, level=4, chaos=chaos)
        missing = srv.request(b'GET /never-there.txt HTTP/1.1\r\n\r\n').data
        names = ['a.txt', 'b.bin', 'd/c.css', 'd/e.zip', 'f']
        files = [File(srv, k, n, missing) for k, n in enumerate(names)]
        ok = {}
        for f in files:
            f.put(ctx.rng)
            # the head of the response for this file, however long it is
            res = srv.request(b'GET /' + f.name.encode() + b' HTTP/1.1\r\n\r\n').data
            ok[f.name] = res.partition(b'\r\n\r\n')[0]
        stop = [False]
        errs = []

        def mutate(f, seed):
            q = random.Random(seed)
            gone = False
            while not stop[0]:
                try:
                    if gone or q.random() < 0.75:
                        f.put(q)
                        gone = False
                    else:
                        f.drop()
                        gone = True
                except BaseException as e:
                    errs.append(e)
                    return
                time.sleep(q.choice((0, 0, 0.0003, 0.001, 0.01)))
        ms = [threading.Thread(target=mutate, args=(f, '%s/%d/%s' % (ctx.seed, f.k, tls)), daemon=True) for f in files]
        for m in ms:
            m.start()

        def one(i):
            q = random.Random('%s/%d/%s%s' % (ctx.seed, i, tls, chaos))
            f = q.choice(files)
            t0 = time.monotonic_ns()
            s = connect(srv.port, tls=tls)
            try:
                s.sendall(b'GET /' + f.name.encode() + b'?%d HTTP/1.1\r\n\r\n' % i)
                if q.random() < 0.1:
                    time.sleep(q.choice((0.001, 0.02)))
                r = read_all(s, Result())
            finally:
                s.close()
            t1 = time.monotonic_ns()
            if r.err or r.reset:
                raise Violation('ended', 'a response ends with %s' % (r.err or 'a reset'))
            could = f.between(t0, t1)
            head, _, body = r.data.partition(b'\r\n\r\n')
            good = False
            for d in could:
                if d is None:
                    good = good or r.data == f.fallback
                elif head == ok[f.name]:
                    good = good or body == d
            if not good:
                m = re.match(rb'<\d+:(\d+)>', body)
                vs = sorted({int(x) for x in re.findall(rb':(\d+)>', body)})
                raise Violation('version', 'a file that is replaced while it is served: the response (%r, body of %d bytes, parts of versions %r) is none of the %d that were current in the meantime (%s)' %
                                (short(head, 60), len(body), vs[:6], len(could), ', '.join('missing' if d is None else '%r of %d bytes' % (short(d, 8), len(d)) for d in could[:6])))
            ctx.case((f.name, hashlib.md5(r.data).digest()), {'file': f.name, 'bytes': len(body), 'versions current meanwhile': len(could)} if i % 499 == 7 else None)
            ctx.count('missing' if None in could and r.data == f.fallback else 'versions')
            if len(could) > 1:
                ctx.count('replaced_while_served')
        try:
            parallel(one, range(3000 if ctx.quick else 60000), 8)
        finally:
            stop[0] = True
            for m in ms:
                m.join()
        if errs:
            raise errs[0]
        srv.check()
        srv.stop()
