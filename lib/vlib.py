"""Common parts of the checks: verdicts, evidence, the server under test, and a raw HTTP client."""
import atexit, hashlib, json, os, random, re, shutil, signal, socket, ssl, struct, subprocess, sys, tempfile, threading, time, traceback
import resource
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import build as B

resource.setrlimit(resource.RLIMIT_NOFILE, (resource.getrlimit(resource.RLIMIT_NOFILE)[1],) * 2)
TIMEOUT = float(os.environ.get("VERIF_TIMEOUT", "30"))  # a watchdog, not a verdict: a case that runs into it is run again


class Violation(Exception):
    def __init__(self, key, msg, **data):
        super().__init__(msg)
        self.key, self.msg, self.data = key, msg, data


class Hang(Exception):
    pass


# what a client can run into
CLIENT = (ConnectionError, socket.timeout, ssl.SSLError)


class HarnessError(Exception):
    pass


class Ctx:
    def __init__(self, pid, seed, tier):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.quick = tier == 'quick'
        self.rng = random.Random('%s/%d/%s' % (pid, seed, tier))
        self.evals = 0
        self.keys = set()
        self.samples = []
        self.rule = ''
        self.extra = {}
        self.assumptions = []
        self.servers = []
        self.lock = threading.Lock()
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
        self.dir = tempfile.mkdtemp(prefix='vchk.%s.' % pid, dir=base)
        self.t0 = time.monotonic()
        self.nscr = 0

    def scratch(self, name='s'):
        self.nscr += 1
        d = os.path.join(self.dir, '%s%d' % (name, self.nscr))
        os.makedirs(d)
        return d

    def case(self, key, sample=None, n=1):
        """Counts one evaluation; key identifies it among the non-trivial ones (None: trivial)."""
        with self.lock:
            self.evals += n
            if key is not None:
                self.keys.add(hashlib.md5(repr(key).encode()).digest()[:10])
            if sample is not None and len(self.samples) < 6:
                self.samples.append(sample if isinstance(sample, (str, dict, list, int)) else repr(sample))

    def count(self, name, n=1):
        with self.lock:
            self.extra[name] = self.extra.get(name, 0) + n

    def cleanup(self):
        for s in self.servers:
            s.kill()
        shutil.rmtree(self.dir, ignore_errors=True)

    def evidence(self, violations):
        cov = {'evaluations': self.evals, 'distinct_nontrivial': len(self.keys), 'rule': self.rule or 'see DESIGN.md',
               'samples': self.samples or ['(none)']}
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': LEVELS.get(self.pid, 'exploration'),
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.monotonic() - self.t0, 2),
              'violations': violations}
        os.makedirs(HERE + '/evidence', exist_ok=True)
        tmp = HERE + '/evidence/.%s.%d' % (self.pid, os.getpid())
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, HERE + '/evidence/%s.json' % self.pid)


LEVELS = {'C33': 'fault_enumeration', 'C05': 'fault_enumeration', 'C24': 'fault_enumeration'}


def known_findings():
    out = set()
    try:
        for l in open(HERE + '/known_findings.txt'):
            m = re.match(r'known: property=(\S+) key=(\S+)', l)
            if m:
                out.add((m.group(1), m.group(2)))
    except OSError:
        pass
    return out


def short(b, n=300):
    if isinstance(b, bytes):
        return (b[:n]).decode('latin-1') + ('...(%d bytes)' % len(b) if len(b) > n else '')
    return str(b)[:n]


# ---------------------------------------------------------------- sanitizer reports
def report_summary(text):
    """One line that identifies a report: its kind and the first frames in the code under test."""
    m = re.search(r'(SUMMARY: .*|ERROR: .*|runtime error: .*|WARNING: ThreadSanitizer: .*)', text)
    head = m.group(1) if m else text.strip().split('\n')[0]
    frames = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+) %s/(\S+?):\d+' % re.escape(B.REPO), text)[:4]
    return (head + ' frames=' + ','.join(f for f, _ in frames))[:400]


def in_repo(text):
    return (B.REPO + '/') in text


# ---------------------------------------------------------------- events
class Event(dict):
    pass


def parse_event(line):
    p = line.split(' ')
    e = Event(ns=int(p[0]), tid=int(p[1]), kind=p[2])
    for kv in p[3:]:
        k, _, v = kv.partition('=')
        if v.startswith('x') and k not in ('cmd', 'tag', 'id'):
            try:
                v = bytes.fromhex(v[1:])
            except ValueError:
                pass
        elif v == '!':
            v = None
        e[k] = v
    if 'headers' in e:
        raw = e['headers']
        hs = []
        if raw:
            if isinstance(raw, bytes):
                raw = ''
            for h in raw.split(','):
                if h:
                    a, _, b = h.partition(':')
                    hs.append((bytes.fromhex(a[1:]), bytes.fromhex(b[1:])))
        e['headers'] = hs
    return e


class Server:
    """The code under test in a process of its own: an embedding application, or the standalone program."""
    PORTS = None

    def __init__(self, ctx, flavour='asan', host='apphost', routes=(), tls=False, level=4, www=None, root=None, index=None,
                 favicon=None, limits=None, allow=None, deny=None, raw=False, quiet=False, record=False, chaos=0, env=None,
                 addr='127.0.0.1', conf='', logfile=True, wrapper=None, start=True, cov=False, static=None, suppress=None,
                 sanopts='', mkroot=True, prep=None):
        self.ctx, self.flavour, self.host = ctx, flavour, host
        self.exe = B.build(host, flavour)
        self.dir = ctx.scratch('srv')
        d = self.dir
        self.root = root or d + '/root'
        self.www = static or self.root + '/www'
        if mkroot:
            for x in (self.root, self.root + '/etc', self.root + '/ssl', self.www):
                os.makedirs(x, exist_ok=True)
        for x in ('log', 'upload', 'san'):
            os.makedirs(d + '/' + x, exist_ok=True)
        if www:
            for name, data in www.items():
                p = os.path.join(self.www, name.lstrip('/'))
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as f:
                    f.write(data)
        for n, v in (('limits', limits), ('allow', allow), ('deny', deny)):
            if v is not None:
                with open(self.root + '/etc/' + n, 'wb') as f:
                    f.write(v if isinstance(v, bytes) else v.encode())
        if tls:
            for n in ('cert.pem', 'key.pem'):
                shutil.copy(HERE + '/harness/tls/' + n, self.root + '/ssl/' + n)
        self.tls, self.addr = tls, addr
        self.routes, self.level, self.raw, self.quiet, self.chaos = list(routes), level, raw, quiet, chaos
        self.index, self.favicon, self.conf, self.logfile = index, favicon, conf, logfile
        self.record, self.envx, self.wrapper, self.sanopts, self.cov = record, env or {}, wrapper, sanopts, cov
        self.events_path = d + '/events'
        self.covfile = d + '/cov'
        self.pos, self.buf, self.events, self.proc, self.port = 0, b'', [], None, None
        self.elock = threading.Lock()
        self.expect_exit = False
        ctx.servers.append(self)
        if prep:
            prep(self)
        if start:
            self.start()

    def env(self):
        san = self.dir + '/san/r'
        e = {'PATH': os.environ.get('PATH', ''), 'LC_ALL': 'C', 'TZ': 'XST-7:45', 'VSHIM_DIR': self.dir, 'VSHIM_EVENTS': self.events_path,
             'ASAN_OPTIONS': 'exitcode=99:abort_on_error=0:detect_leaks=0:log_path=%s:print_summary=1:handle_abort=1:'
                             'allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:'
                             'intercept_send=0:quarantine_size_mb=64%s' % (san, self.sanopts),
             'UBSAN_OPTIONS': 'print_stacktrace=1:log_path=%s:exitcode=99' % san,
             'LSAN_OPTIONS': 'log_path=%s:report_objects=0:max_leaks=5' % san,
             'MSAN_OPTIONS': 'halt_on_error=0:exitcode=0:allocator_may_return_null=1:max_allocation_size_mb=1500:log_path=%s%s' % (san, self.sanopts),
             'TSAN_OPTIONS': 'halt_on_error=0:exitcode=0:allocator_may_return_null=1:max_allocation_size_mb=1500:log_path=%s:history_size=3:second_deadlock_stack=1:'
                             'suppressions=%s%s' % (san, HERE + '/harness/tsan.supp', self.sanopts),
             'ASAN_SYMBOLIZER_PATH': shutil.which('llvm-symbolizer') or shutil.which('llvm-symbolizer-18') or ''}
        e['TSAN_OPTIONS'] += ':external_symbolizer_path=' + e['ASAN_SYMBOLIZER_PATH']
        e['MSAN_OPTIONS'] += ':external_symbolizer_path=' + e['ASAN_SYMBOLIZER_PATH']
        e['UBSAN_OPTIONS'] += ':external_symbolizer_path=' + e['ASAN_SYMBOLIZER_PATH']
        if self.record:
            e['VSHIM_RECORD'] = '1'
        if self.chaos:
            e['VSHIM_CHAOS'] = str(self.chaos)
        if self.cov:
            e['VSHIM_COV'] = self.covfile
        e.update(self.envx)
        return e

    def start(self, args=None, port=None):
        for attempt in range(8):
            self.port = port or free_port(self.addr)
            if self.host == 'apphost':
                cfg = self.dir + '/cfg'
                with open(cfg, 'wb') as f:
                    def w(k, v):
                        f.write(k.encode() + b' ' + (v if isinstance(v, bytes) else str(v).encode()) + b'\n')
                    w('root', self.root); w('static', self.www); w('port', self.port); w('bind', self.addr)
                    w('tls', int(self.tls)); w('level', self.level); w('raw', int(self.raw)); w('quiet', int(self.quiet))
                    if self.index is not None: w('index', self.index)
                    if self.favicon is not None: w('favicon', self.favicon)
                    if self.logfile: w('logfile', '/var/log/app.log')
                    for b, fl, t in self.routes:
                        w('route', b'%s %s %s' % (b.encode(), fl.encode(), t if isinstance(t, bytes) else t.encode()))
                    f.write(self.conf.encode())
                cmd = [self.exe, cfg]
            else:
                cmd = [self.exe] + [a.replace('{port}', str(self.port)) for a in args]
            if self.wrapper:
                cmd = self.wrapper + cmd
            self.out = open(self.dir + '/out', 'ab')
            self.proc = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=self.out, stderr=self.out, env=self.env(),
                                         cwd=self.dir, preexec_fn=_pre)
            if self.wait_listen():
                return self
            log = self.log_text()
            if self.reports() or 'bind' not in log:
                break
            self.kill()
            self.__dict__.update(pos=0, buf=b'', events=[])
            open(self.events_path, 'w').close()
        raise Violation('server-start', 'the server did not start: %s %s' % (self.reports()[:1500], self.log_text()[-800:]),
                        out=self.out_text()[-2000:])

    def wait_listen(self):
        t = time.monotonic() + 60
        while time.monotonic() < t:
            if self.find(lambda e: e['kind'] == 'LISTEN'):
                return True
            if self.proc.poll() is not None:
                return bool(self.find(lambda e: e['kind'] == 'LISTEN'))
            time.sleep(0.005)
        return False

    # -- observation
    def poll(self):
        with self.elock:
            try:
                with open(self.events_path, 'rb') as f:
                    f.seek(self.pos)
                    new = f.read()
            except OSError:
                return self.events
            if new:
                self.pos += len(new)
                self.buf += new
                lines = self.buf.split(b'\n')
                self.buf = lines.pop()
                for l in lines:
                    self.events.append(parse_event(l.decode('latin-1')))
            return self.events

    def find(self, pred, start=0):
        return [e for e in self.poll()[start:] if pred(e)]

    def wait_event(self, pred, timeout=TIMEOUT, start=0, count=1):
        t = time.monotonic() + timeout
        d = 0.0005
        while True:
            r = self.find(pred, start)
            if len(r) >= count:
                return r
            if time.monotonic() > t:
                raise Hang('event did not come')
            if self.proc.poll() is not None:
                self.check()
                r = self.find(pred, start)
                if len(r) >= count:
                    return r
                raise Violation('server-exit', 'the server ended while serving')
            time.sleep(d)
            d = min(d * 1.5, 0.01)

    def ctl(self, cmd, wait=True):
        n = len(self.poll())
        try:
            self.proc.stdin.write(cmd.encode() + b'\n')
            self.proc.stdin.flush()
        except (BrokenPipeError, OSError):
            self.check()
            raise Violation('server-exit', 'the server ended while serving')
        if wait:
            w = cmd.split(' ')[0]
            return self.wait_event(lambda e: (e['kind'] == 'ACK' and e.get('cmd') == w) or
                                   (w == 'stats' and e['kind'] == 'STATS') or (w == 'leakcheck' and e['kind'] == 'LEAKS') or (w == 'storm' and e['kind'] == 'STORM'), start=n)[0]

    def fault(self, **kw):
        for k, v in kw.items():
            self.ctl('fault %s=%d' % (k, v))

    def reports(self):
        out = ''
        d = self.dir + '/san'
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else ():
            out += open(os.path.join(d, f), errors='replace').read()
        # refusing a request for too much memory is what malloc may do, and no error
        out = re.sub(r'(?m)^==\d+==WARNING: \w+ failed to allocate 0x[0-9a-f]+ bytes\n?', '', out)
        if self.flavour == 'msan':
            # the TLS library is not compiled for MemorySanitizer, which therefore errs inside it
            keep = ''
            for t in re.split(r'(?=^==\d+==WARNING: MemorySanitizer)', out, flags=re.M):
                if re.match(r'==\d+==', t) and not re.search(r'#[0-3] 0x[^\n]*lib(crypto|ssl)\.so', t):
                    keep += t
            return keep
        return out

    def out_text(self):
        try:
            return open(self.dir + '/out', errors='replace').read()
        except OSError:
            return ''

    def log_text(self):
        out = self.out_text()
        for f in ('app.log', 'wayuu.log'):
            try:
                out += open(self.dir + '/log/' + f, errors='replace').read()
            except OSError:
                pass
        return out

    def access(self):
        try:
            return open(self.dir + '/log/wayuu-access.log', 'rb').read()
        except OSError:
            return b''

    def alive(self):
        return self.proc is not None and self.proc.poll() is None

    def check(self, what=''):
        """Any sanitizer report, crash or exit of the server is a violation."""
        rc = self.proc.poll()
        if rc is not None:
            time.sleep(0.05)
        rep = self.reports()
        if rep and self.flavour != 'tsan':
            raise Violation('sanitizer', 'sanitizer report: ' + report_summary(rep), report=rep[:6000], what=what)
        if rep and in_repo(rep):
            raise Violation('sanitizer', 'sanitizer report: ' + report_summary(rep), report=rep[:6000], what=what)
        if rc is not None and not self.expect_exit:
            raise Violation('server-exit', 'the server process ended by itself (status %s)' % rc, what=what,
                            out=self.out_text()[-1500:], log=self.log_text()[-1500:])

    def kill(self):
        if self.proc and self.proc.poll() is None:
            self.proc.kill()
        if self.proc:
            self.proc.wait()
            try:
                self.proc.stdin.close()
            except OSError:
                pass

    def stop(self, what=''):
        self.check(what)
        self.expect_exit = True
        self.kill()
        self.check(what)
        self.coverage()
        shutil.rmtree(self.dir, ignore_errors=True)

    def coverage(self):
        if self.cov and os.path.exists(self.covfile):
            m = open(self.covfile, 'rb').read()
            a = struct.unpack('<3I', m[:12])
            self.ctx.extra['edges_instrumented'] = max(a[0], self.ctx.extra.get('edges_instrumented', 0))
            self.ctx.extra['edges_reached'] = max(a[1], self.ctx.extra.get('edges_reached', 0))
            if self.chaos:
                self.ctx.count('delays_injected', a[2])

    # -- client side
    def request(self, data, **kw):
        kw.setdefault('tls', self.tls)
        r = request(self.port, data, addr=self.addr, **kw)
        return r

    def idle(self, timeout=TIMEOUT, but=0):
        """Waits until no connection is being served or still to be accepted: every descriptor of a connection is closed."""
        t = time.monotonic() + timeout
        quiet = 0
        while time.monotonic() < t:
            # (twice, since one that was just taken out of the queue may have no descriptor yet)
            quiet = quiet + 1 if not self.pending() and self.nsock() <= 1 + but else 0
            if quiet >= 2:
                return True
            time.sleep(0.003 if not quiet else 0.001)
        raise Hang('connections are still open in the server')

    def pending(self):
        """Connections that the kernel has accepted and the server has not."""
        try:
            with open('/proc/net/tcp') as f:
                f.readline()
                for l in f:
                    x = l.split(None, 5)
                    if x[3] != '0A':
                        break  # (listening sockets come first)
                    if int(x[1].split(':')[1], 16) == self.port:
                        return int(x[4].split(':')[1], 16)
        except OSError:
            pass
        return 0

    def nsock(self):
        n = 0
        d = '/proc/%d/fd' % self.proc.pid
        try:
            for f in os.listdir(d):
                try:
                    if os.readlink(d + '/' + f).startswith('socket:'):
                        n += 1
                except OSError:
                    pass
        except OSError:
            self.check()
        return n


def _pre():
    import ctypes
    try:
        ctypes.CDLL(None).prctl(1, 9)  # end with the driver
    except Exception:
        pass


_used = set()


def free_port(addr='127.0.0.1'):
    r = random.SystemRandom()
    for _ in range(400):
        p = r.randrange(10240, 32000)
        if p in _used:
            continue
        s = socket.socket()
        try:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind((addr, p))
            _used.add(p)
            return p
        except OSError:
            pass
        finally:
            s.close()
    raise HarnessError('no free port')


# ---------------------------------------------------------------- HTTP client
_sslctx = None


def ssl_ctx():
    global _sslctx
    if _sslctx is None:
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        c.check_hostname = False
        c.verify_mode = ssl.CERT_NONE
        _sslctx = c
    return _sslctx


class Result:
    __slots__ = ('data', 'reset', 'eof', 'err', 'sent', 't0', 't1', 'peer')

    def __init__(self):
        self.data, self.reset, self.eof, self.err, self.sent, self.peer = b'', False, False, None, 0, None


def connect(port, addr='127.0.0.1', src=None, timeout=TIMEOUT, tls=False):
    for attempt in range(3):
        s = socket.socket()
        s.settimeout(timeout)
        if src:
            s.setsockopt(socket.IPPROTO_IP, 24, 1)  # IP_BIND_ADDRESS_NO_PORT
            s.bind((src, 0))
        try:
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            s.connect((addr, port))
            break
        except (ConnectionRefusedError, TimeoutError, OSError):
            s.close()
            if attempt == 2:
                raise
            time.sleep(0.2)
    if tls:
        try:
            s = ssl_ctx().wrap_socket(s, suppress_ragged_eofs=True)
        except Exception:
            s.close()
            raise
    return s


def rst(s):
    """Ends the connection with a reset."""
    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
    s.close()


def read_all(s, r, limit=None):
    while True:
        try:
            d = s.recv(65536)
        except (socket.timeout, ssl.SSLWantReadError) as e:
            raise Hang('no end of the response')
        except ConnectionResetError:
            r.reset = True
            return r
        except ssl.SSLError as e:
            r.err = str(e)
            return r
        except OSError as e:
            r.err = str(e)
            return r
        if not d:
            r.eof = True
            return r
        r.data += d
        if limit and len(r.data) > limit:
            return r


def request(port, data, addr='127.0.0.1', src=None, tls=False, parts=None, delay=0, half=False, timeout=TIMEOUT, sock=None):
    """Sends the bytes (in the given parts, with pauses), and reads until the server closes."""
    r = Result()
    r.t0 = time.time()
    try:
        s = sock or connect(port, addr, src, timeout, tls)
    except ssl.SSLError as e:
        r.err = 'tls: %s' % e
        r.t1 = time.time()
        return r
    try:
        r.peer = s.getsockname()
        chunks = [data]
        if parts:
            chunks, p = [], 0
            for c in parts:
                chunks.append(data[p:c])
                p = c
            chunks.append(data[p:])
        for i, c in enumerate(chunks):
            if i and delay:
                time.sleep(delay)
            if c:
                try:
                    s.sendall(c)
                    r.sent += len(c)
                except (ConnectionResetError, BrokenPipeError):
                    break
                except ssl.SSLError as e:
                    break
                except socket.timeout:
                    raise Hang('request not accepted')
        if half:
            try:
                if isinstance(s, ssl.SSLSocket):
                    # close_notify, then the end of the stream
                    s.settimeout(timeout)
                    try:
                        half_tls(s, r)
                    except Hang:
                        raise
                    return r
                s.shutdown(socket.SHUT_WR)
            except OSError:
                pass
        read_all(s, r)
        return r
    finally:
        r.t1 = time.time()
        s.close()


def half_tls(s, r):
    """Ends the sending side of the TCP connection without a close_notify, and reads the answer."""
    socket.socket.shutdown(s, socket.SHUT_WR) if False else None
    fd = os.dup(s.fileno())
    t = socket.socket(fileno=fd)
    try:
        t.shutdown(socket.SHUT_WR)
    finally:
        t.close()
    read_all(s, r)


STATUS = {200: b'OK', 201: b'CREATED', 400: b'Bad Request', 401: b'UNAUTHORIZED', 403: b'Forbidden', 404: b'NOT FOUND',
          429: b'Too many connections', 500: b'Internal Server Error'}


class BadResponse(Exception):
    pass


def parse_response(data):
    """(status, headers, body) of a stream that must hold exactly one response up to its body."""
    head, sep, body = data.partition(b'\r\n\r\n')
    if not sep:
        raise BadResponse('no blank line after the headers')
    lines = head.split(b'\r\n')
    m = re.fullmatch(rb'HTTP/1\.1 (\d{3}) ([^\r\n]+)', lines[0])
    if not m:
        raise BadResponse('bad status line %r' % lines[0][:80])
    st = int(m.group(1))
    if st not in STATUS or m.group(2).upper() != STATUS[st].upper():
        raise BadResponse('unknown status %r' % lines[0][:80])
    hs = []
    for l in lines[1:]:
        n, c, v = l.partition(b':')
        if not c or not re.fullmatch(rb'[!#$%&\'*+.^_`|~0-9A-Za-z-]+', n):
            raise BadResponse('bad header line %r' % l[:80])
        if b'\n' in l or b'\r' in l or b'\0' in l:
            raise BadResponse('control characters in header line %r' % l[:80])
        hs.append((n, v.strip()))
    names = [n.lower() for n, _ in hs]
    for once in (b'content-type', b'content-length', b'server'):
        if names.count(once) > 1:
            raise BadResponse('repeated header %r' % once)
    cl = [v for n, v in hs if n.lower() == b'content-length']
    if cl:
        if not cl[0].isdigit():
            raise BadResponse('bad content length %r' % cl[0])
        n = int(cl[0])
        if len(body) < n:
            raise BadResponse('body of %d bytes, %d declared' % (len(body), n))
        if body[n:] not in (b'', b'\r\n'):
            raise BadResponse('%r after the declared body' % body[n:n + 60])
    return st, hs, body


def hget(hs, name):
    for n, v in hs:
        if n.lower() == name.lower():
            return v
    return None


def parallel(fn, items, n=8):
    """Runs fn over items in n threads; the first exception is raised."""
    it = iter(items)
    lk = threading.Lock()
    errs = []

    def work():
        while not errs:
            with lk:
                try:
                    x = next(it)
                except StopIteration:
                    return
            try:
                fn(x)
            except BaseException as e:
                errs.append(e)
    ts = [threading.Thread(target=work, daemon=True) for _ in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        for e in errs:
            if isinstance(e, Violation):
                raise e
        raise errs[0]


# ---------------------------------------------------------------- running a check
def run_check(pid, fn):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    known = known_findings()
    for attempt in range(2):
        ctx = Ctx(pid, seed, tier)
        ctx.known = {k for p, k in known if p == pid}
        ctx.attempt = attempt
        try:
            fn(ctx)
            ctx.evidence(0)
            print('%s: held on %d evaluations (%d distinct non-trivial), %.1f s' %
                  (pid, ctx.evals, len(ctx.keys), time.monotonic() - ctx.t0))
            if ctx.evals == 0 or not ctx.keys:
                print('%s: nothing was observed' % pid)
                return 2
            return 0
        except Exception as v:
            if not isinstance(v, Violation):
                # the server may have died, which explains what was seen
                dead = None
                for s in ctx.servers:
                    try:
                        if s.proc and os.path.isdir(s.dir):
                            s.check()
                    except Violation as e:
                        dead = e
                if dead:
                    v = dead
                elif isinstance(v, BadResponse):
                    v = Violation('bad-response', str(v))
                elif attempt == 0:
                    if not isinstance(v, (Hang,) + CLIENT):
                        traceback.print_exc()
                    print('%s: inconclusive (%r), running again' % (pid, v))
                    continue
                elif not isinstance(v, (Hang,) + CLIENT):
                    raise
                else:
                    v = Violation('hang', 'twice: %s' % v if isinstance(v, Hang) else 'the server does not serve as it should, twice: %r' % v)
            os.makedirs(HERE + '/replays', exist_ok=True)
            p = HERE + '/replays/%s-%d-%s.json' % (pid, seed, tier)
            with open(p, 'w') as f:
                json.dump({'property': pid, 'seed': seed, 'tier': tier, 'key': v.key, 'message': v.msg,
                           'replay': 'VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s' % (seed, tier, pid),
                           'data': {k: (x if isinstance(x, (int, float, str, list, dict, type(None))) else repr(x)) for k, x in v.data.items()}},
                          f, indent=1, default=repr)
            ctx.evidence(1)
            print('%s: %s' % (pid, short(v.msg, 1500)))
            print('VIOLATION property=%s replay=%s' % (pid, p))
            return 1
        finally:
            ctx.cleanup()
    return 2


def finding(ctx, key, what):
    """Reports a listed finding and goes on; anything else is a violation."""
    if key in ctx.known:
        print('KNOWN-FINDING: property=%s %s (%s)' % (ctx.pid, what, key))
        ctx.extra.setdefault('known_findings', [])
        if key not in ctx.extra['known_findings']:
            ctx.extra['known_findings'].append(key)
        return
    raise Violation(key, what)
