"""C29: the standalone server obeys its command line."""
import os, subprocess
from vlib import *
import gen

VERSION = None


def listening(pid):
    """The addresses a process listens on."""
    inodes = set()
    try:
        for f in os.listdir('/proc/%d/fd' % pid):
            try:
                m = re.fullmatch(r'socket:\[(\d+)\]', os.readlink('/proc/%d/fd/%s' % (pid, f)))
            except OSError:
                continue
            if m:
                inodes.add(m.group(1))
    except OSError:
        return []
    out = []
    for fn in ('/proc/net/tcp', '/proc/net/tcp6'):
        try:
            ls = open(fn).read().split('\n')[1:]
        except OSError:
            continue
        for l in ls:
            t = l.split()
            if len(t) > 9 and t[3] == '0A' and t[9] in inodes:
                a, p = t[1].split(':')
                out.append(('.'.join(str(x) for x in reversed(bytes.fromhex(a))) if len(a) == 8 else a, int(p, 16)))
    return out


class Run:
    """The program with given arguments, in a folder of its own."""

    def __init__(self, ctx, args, cwd=None):
        self.ctx, self.args = ctx, args
        self.exe = B.build('standalone', 'asan')
        self.dir = ctx.scratch('cli')
        for x in ('log', 'upload', 'san'):
            os.makedirs(self.dir + '/' + x)
        self.cwd = cwd or self.dir
        env = {'PATH': os.environ.get('PATH', ''), 'LC_ALL': 'C', 'VSHIM_DIR': self.dir, 'VSHIM_EVENTS': self.dir + '/events',
               'ASAN_OPTIONS': 'exitcode=99:detect_leaks=0:log_path=%s/san/r:strict_string_checks=1:detect_stack_use_after_return=1' % self.dir,
               'UBSAN_OPTIONS': 'print_stacktrace=1:log_path=%s/san/r' % self.dir}
        self.out = open(self.dir + '/out', 'wb')
        self.proc = subprocess.Popen([self.exe] + list(args), stdin=subprocess.DEVNULL, stdout=self.out, stderr=self.out, env=env, cwd=self.cwd)
        ctx.servers.append(self)

    def listened(self):
        try:
            return b' LISTEN ' in open(self.dir + '/events', 'rb').read()
        except OSError:
            return False

    def wait(self):
        """Waits until the program listens (True) or has ended (False)."""
        t = time.monotonic() + TIMEOUT
        while time.monotonic() < t:
            if self.proc.poll() is not None:
                return False
            if self.listened():
                return True
            time.sleep(0.004)
        raise Hang('the program with arguments %r neither listens nor ends' % self.args)

    def reports(self):
        return ''.join(open(self.dir + '/san/' + f, errors='replace').read() for f in sorted(os.listdir(self.dir + '/san')))

    def check(self):
        rep = self.reports() if os.path.isdir(self.dir) else ''
        if rep:
            raise Violation('sanitizer', 'with arguments %s: %s' % (short(repr(self.args)), report_summary(rep)), report=rep[:5000])

    def text(self):
        return open(self.dir + '/out', 'rb').read()

    def log(self):
        try:
            return open(self.dir + '/log/wayuu.log', 'rb').read()
        except OSError:
            return b''

    def kill(self):
        if self.proc.poll() is None:
            self.proc.kill()
        self.proc.wait()
        self.out.close()


def spell(r, opts):
    """Command line words for the options, in some order and notation."""
    opts = list(opts)
    r.shuffle(opts)
    out = []
    for o, v in opts:
        if v is None:
            if out and out[-1].startswith('-') and out[-1][1:].isalpha() and all(c in 'dfhv' for c in out[-1][1:]) and r.random() < 0.4:
                out[-1] += o
            else:
                out.append('-' + o)
        elif r.random() < 0.3 and v:
            out.append('-' + o + v)
        else:
            out += ['-' + o, v]
    return out


def mkroot(ctx, r, tag, tls=True, name=None):
    base = ctx.scratch('r')
    root = os.path.join(base, name or r.choice(('root', 'my root', 'r%s', 'a/b/c', 'x' * 60, 'www', 'dot.dir', 'y' * r.randrange(60, 120), 'z' * 70 + '/' + 'w' * r.randrange(1, 70))))
    for d in ('etc', 'ssl', 'www/sub'):
        os.makedirs(root + '/' + d)
    open(root + '/www/index.html', 'wb').write(b'index of ' + tag)
    open(root + '/www/favicon.ico', 'wb').write(b'icon of ' + tag)
    open(root + '/www/sub/f.txt', 'wb').write(b'file of ' + tag)
    open(root + '/secret.txt', 'wb').write(b'outside of www')
    if tls:
        for n in ('cert', 'key'):
            shutil.copy(HERE + '/harness/tls/%s.pem' % n, root + '/ssl/%s.pem' % n)
    return root


def run(ctx):
    ctx.rule = ('the built program with command lines made of every kind of option, in random order and notation: listening address (from the kernel), mode, content and lists of the right root, '
                'or exit status, output and that it never listened; non-trivial: distinct command lines (port and folder aside)')
    r = ctx.rng
    mult = 1 if ctx.quick else 12
    cert = ssl.get_server_certificate
    n = [0]

    def good(opts, addr, port, tls, root, cwd=None, debug=False):
        n[0] += 1
        args = spell(r, opts)
        p = Run(ctx, args, cwd)
        if not p.wait():
            p.check()
            raise Violation('no-start', 'the program ends with status %s on %r: %r' % (p.proc.returncode, args, short(p.text() + p.log(), 500)), args=args)
        got = listening(p.proc.pid)
        if got != [(addr, port)]:
            raise Violation('address', 'with %r the program listens on %r instead of %s:%d' % (args, got, addr, port), args=args)
        to = '127.0.0.1' if addr == '0.0.0.0' else addr

        def ask(path, src=None):
            res = request(port, b'GET ' + path + b' HTTP/1.1\r\n\r\n', addr=to, tls=tls, src=src)
            return res
        tag = root[1]
        for path, want in ((b'/', b'index of ' + tag), (b'/favicon.ico', b'icon of ' + tag), (b'/sub/f.txt', b'file of ' + tag), (b'/secret.txt', b'index of ' + tag)):
            res = ask(path)
            try:
                st, hs, body = parse_response(res.data)
            except BadResponse as e:
                raise Violation('mode', 'with %r a %s request gets %r (%s %s)' % (args, 'TLS' if tls else 'plain', short(res.data), e, res.err), args=args)
            if st != 200 or body != want:
                raise Violation('content', 'with %r, %r gives %d %r instead of %r' % (args, path, st, short(body), want), args=args)
        # the other mode is not offered
        res = request(port, b'GET / HTTP/1.1\r\n\r\n', addr=to, tls=not tls, half=tls)
        if b'index of' in res.data:
            raise Violation('mode', 'with %r a %s request is answered' % (args, 'plain' if tls else 'TLS'), args=args)
        if tls:
            pem = ssl.get_server_certificate((to, port))
            if pem.split() != open(root[0] + '/ssl/cert.pem').read().split():
                raise Violation('certificate', 'with %r the server has another certificate than its root' % args, args=args)
        # lists
        lists = root[2]
        for src in ('127.0.0.5', '127.0.0.6', '127.0.0.7', '127.0.0.1'):
            allowed = src not in lists.get('deny', ()) and ('allow' not in lists or src in lists['allow'])
            try:
                res = ask(b'/sub/f.txt', src)
                served = res.data.endswith(b'file of ' + tag)
            except OSError:
                served = False
            if served != allowed:
                raise Violation('lists', 'with %r and the lists %r the address %s is%s served' % (args, lists, src, '' if served else ' not'), args=args)
        st, hs, body = parse_response(ask(b'/closed/x').data)
        if (st == 429) != bool(lists.get('limits')):
            raise Violation('limits', 'with %r and%s a limits file, /closed gives %d' % (args, '' if lists.get('limits') else ' not', st), args=args)
        if (b'DEBUG' in p.text() + p.log()) != debug:
            raise Violation('debug', 'with %r there are%s debug records' % (args, '' if not debug else ' no'), args=args)
        if p.proc.poll() is not None:
            p.check()
            raise Violation('exit', 'with %r the program ended' % args, args=args)
        p.check()
        p.kill()
        ctx.case(('ok', tuple(sorted(o for o, v in opts)), tuple(a[:2] for a in args), addr, tls, tuple(lists)), {'args': [short(a, 40) for a in args], 'listens': '%s:%d' % (addr, port)})
        ctx.count('starts')

    def bad(args, why, env_busy=None, status='fail', out=None, cwd=None):
        p = Run(ctx, args, cwd)
        if p.wait() or p.listened():
            raise Violation('listens', 'the program listens on %r with arguments %s (%s)' % (listening(p.proc.pid), short(repr(args)), why), args=args)
        p.check()
        rc = p.proc.returncode
        text = p.text()
        p.kill()
        if status == 'fail' and rc in (0,) or rc < 0:
            raise Violation('status', 'the program ends with status %d on %s (%s)' % (rc, short(repr(args)), why), args=args)
        if status == 'ok' and rc != 0:
            raise Violation('status', 'the program ends with status %d on %s (%s)' % (rc, short(repr(args)), why), args=args)
        if out and not out(text):
            raise Violation('output', 'the program prints %r on %s (%s)' % (short(text), short(repr(args)), why), args=args)
        ctx.case(('end', why, tuple(a[:2] for a in args)), {'args': [short(a, 40) for a in args], 'status': rc, 'why': why})
        ctx.count('refusals' if status == 'fail' else 'prints')

    def root_with(r, tls=True, name=None):
        tag = b'%d' % r.randrange(1 << 40)
        path = mkroot(ctx, r, tag, tls, name)
        lists = {}
        if r.random() < 0.4:
            lists['deny'] = r.sample(['127.0.0.5', '127.0.0.6', '127.0.0.66', '10.0.0.1'], 2)
        if r.random() < 0.4:
            lists['allow'] = ['127.0.0.1'] + r.sample(['127.0.0.5', '127.0.0.7', '10.0.0.1'], 1)
        for k, v in lists.items():
            open(path + '/etc/' + k, 'w').write(''.join(x + '\n' for x in v))
        if r.random() < 0.5:
            lists['limits'] = True
            open(path + '/etc/limits', 'w').write('# limits\n/closed, 0, 0, 5\n/other, 3, 3\n')
        return path, tag, lists
    # good command lines
    for i in range(22 * mult):
        tls = i % 3 == 0
        root = root_with(r)
        addr = r.choice(('127.0.0.1', '127.0.0.1', '0.0.0.0', '127.3.2.1', '127.255.255.254', None))
        a = addr or '127.0.0.1'
        port = free_port(a)
        cwd, rp = None, root[0]
        k = r.random()
        if k < 0.15:
            rp += '/'
        elif k < 0.3:
            cwd, rp = os.path.dirname(root[0]), os.path.basename(root[0])
        elif k < 0.4:
            cwd, rp = root[0], '.'
        opts = [('p', str(port)), ('r', rp)]
        if addr:
            opts.append(('b', addr))
        if not tls:
            opts.append(('f', None))
        debug = r.random() < 0.4
        if debug:
            opts.append(('d', None))
        good(opts, a, port, tls, root, cwd, debug)
        # long folder names, up to the limit
    for ln in (200, 250, 254, 255):
        base = ctx.scratch('l')
        pad = ln - len(base) - 1
        if pad > 0:
            name = gen.text(r, pad, gen.TOKEN).decode()
            if len(name) > 20:
                name = name[:9] + '/' + name[10:]
            d = base + '/' + name
            tag = b'%d' % r.randrange(1 << 40)
            src = mkroot(ctx, r, tag)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            os.rename(src, d)
            port = free_port()
            good([('p', str(port)), ('r', d)] + ([('f', None)] if ln != 255 else []), '127.0.0.1', port, ln == 255, (d, tag, {}))
    # a certificate with its chain: a client that knows only the root of the chain can verify it
    for i in range(2 * mult):
        x = root_with(r)
        shutil.copy(HERE + '/harness/tls/chain.pem', x[0] + '/ssl/cert.pem')
        shutil.copy(HERE + '/harness/tls/chainkey.pem', x[0] + '/ssl/key.pem')
        port = free_port()
        args = spell(r, [('p', str(port)), ('r', x[0])])
        p = Run(ctx, args)
        if not p.wait():
            raise Violation('no-start', 'the program ends with status %s on %r and a certificate chain: %r' % (p.proc.returncode, args, short(p.text() + p.log(), 500)), args=args)
        c = ssl.create_default_context(cafile=HERE + '/harness/tls/chainca.pem')
        # valid from the day it was made, whatever the clock of this machine says
        c.hostname_checks_common_name = False
        c.verify_flags |= 0x200000
        data = b''
        try:
            with c.wrap_socket(socket.create_connection(('127.0.0.1', port), timeout=TIMEOUT), server_hostname='localhost') as t:
                t.sendall(b'GET /sub/f.txt HTTP/1.1\r\n\r\n')
                while d := t.recv(65536):
                    data += d
        except (ssl.SSLCertVerificationError, OSError) as e:
            if isinstance(e, ssl.SSLCertVerificationError) or not data:
                raise Violation('certificate', 'a client that trusts the root of the chain in %s/ssl/cert.pem cannot verify the server: %s' % (x[0], e), args=args)
        if not data.endswith(b'file of ' + x[1]):
            raise Violation('content', 'over a verified chain: %r' % short(data))
        p.check()
        p.kill()
        ctx.case(('chain', i), {'args': [short(a, 40) for a in args], 'chain': 'leaf + intermediate, EC key, verified with the root alone'})
        ctx.count('chains verified')
    # the default port and address
    s = socket.socket()
    try:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind(('127.0.0.1', 4443))
        usable = True
    except OSError:
        usable = False
    s.close()
    if usable:
        good([('r', None)][:0] + [('f', None), ('r', (x := root_with(r))[0])], '127.0.0.1', 4443, False, x)
        good([('r', (x := root_with(r))[0])], '127.0.0.1', 4443, True, x)
    # the first and the last ports there are
    for port in (1, 2, 9, 255, 256, 1023, 1024, 32767, 32768, 65534, 65535):
        a = '127.%d.%d.%d' % (r.randrange(10, 200), r.randrange(256), r.randrange(1, 255))
        s = socket.socket()
        try:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind((a, port))
            usable = True
        except OSError:
            usable = False
        s.close()
        if usable and (port % 2 or not ctx.quick):
            x = root_with(r)
            good([('b', a), ('p', str(port)), ('r', x[0]), ('f', None)], a, port, False, x)
    # version and help
    for i in range(8 * mult):
        x = root_with(r)
        others = r.sample([('d', None), ('f', None), ('p', str(free_port())), ('r', x[0]), ('b', '127.0.0.1')], r.randrange(0, 4))
        bad(spell(r, others + [('v', None)]), 'version', status='ok', out=lambda t: re.search(rb'(?m)^\d+\.\d+\.\d+$', t))
        bad(spell(r, others + [('h', None)]), 'help', status='ok', out=lambda t: b'-p' in t and b'-r' in t and all(b'-' + c in t for c in (b'b', b'd', b'f', b'v')))
    # what it must refuse
    for i in range(mult):
        root = root_with(r)
        port = str(free_port())
        ok = [('f', None), ('p', port), ('r', root[0])]

        def more(*x, drop=''):
            return spell(r, [o for o in ok if o[0] not in drop] + list(x))
        for o in 'xzaqXPRBFD0':
            bad(more((o, None)), 'unknown option')
        for o in 'bpr':
            bad(spell(r, [y for y in ok if y[0] != o]) + ['-' + o], 'option without its value')
        for v in ('0', '-1', '65536', '70000', '99999999', 'abc', '', '-', '65536000', '-65000'):
            bad([('-f')] + ['-r', root[0], '-p', v], 'unusable port')
        for v in ('/nonexistent/x', root[0] + '/none', root[0] + '/secret.txt', root[0] + '/www/index.html', '', '/' + 'x' * 255, '/' + 'y' * 1000, '/dev/null', '/' + 'z/' * 3000):
            bad(['-f', '-p', port, '-r', v], 'unusable root')
        for v in ('999.1.1.1', 'abc', '8.8.8.8', '127.0.0.1.1', '1.2.3', 'localhost', '1' * 23, '1' * 24, '127.0.0.1' + ' ' * 20, '1' * 300, '::1'):
            if v == '1.2.3':
                continue
            bad(['-f', '-p', port, '-r', root[0], '-b', v], 'unusable address')
        # occupied port
        s = socket.socket()
        s.bind(('127.0.0.1', 0))
        s.listen(1)
        bad(['-f', '-r', root[0], '-p', str(s.getsockname()[1])], 'occupied port')
        s.close()
        # certificates
        for what in ('nocert', 'nokey', 'nossl', 'badcert', 'badkey', 'emptycert', 'emptykey', 'mismatch', 'swapped'):
            x = root_with(r)
            ssld = x[0] + '/ssl/'
            if what in ('nocert', 'nossl'):
                os.unlink(ssld + 'cert.pem')
            if what in ('nokey', 'nossl'):
                os.unlink(ssld + 'key.pem')
            if what.startswith('bad'):
                open(ssld + what[3:] + '.pem', 'w').write('-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n')
            if what.startswith('empty'):
                open(ssld + what[5:] + '.pem', 'w').close()
            if what == 'mismatch':
                shutil.copy(HERE + '/harness/tls/key2.pem', ssld + 'key.pem')
            if what == 'swapped':
                os.rename(ssld + 'key.pem', ssld + 't')
                os.rename(ssld + 'cert.pem', ssld + 'key.pem')
                os.rename(ssld + 't', ssld + 'cert.pem')
            bad(spell(r, [('p', str(free_port())), ('r', x[0])]), 'certificate: ' + what)
            port2 = free_port()
            if what in ('nossl', 'mismatch'):
                good([('p', str(port2)), ('r', x[0]), ('f', None)], '127.0.0.1', port2, False, x)
