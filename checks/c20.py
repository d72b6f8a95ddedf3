"""C20: log records are written whole, once, and only at enabled levels."""
import calendar
from unit import *
import gen, struct

NAMES = ['TRACE', 'DEBUG', 'INFO', 'WARN', 'ERROR', 'FATAL']
REC = re.compile(rb'^(\d\d)-(\d\d)-(\d\d) (\d\d):(\d\d):(\d\d) +(\d+) +(TRACE|DEBUG|INFO|WARN|ERROR|FATAL) +(\S+?:\S+?:\d+): (.*)$', re.S)
ALPHA = b'abcdefghijklmnopqrstuvwxyz %,:;[]0123456789'


def messages(tag, t, n, seed):
    """What thread t logs: (level, text)"""
    s = (seed * 7919 + t * 104729 + 1) & 0xffffffff

    def rnd():
        nonlocal s
        s = (s * 1664525 + 1013904223) & 0xffffffff
        return s >> 8
    out = []
    for i in range(n):
        lvl = rnd() % 5
        k = rnd() % 40
        ln = rnd() % 20000 if k == 0 else rnd() % 3000 if k < 4 else 240 + rnd() % 40 if k < 8 else 1000 + rnd() % 50 if k < 12 else rnd() % 60
        o = (i + t) % 43
        # character j is number (7 j + o) mod 43
        period = bytes(ALPHA[(j * 7 + i + t) % 43] for j in range(43))
        text = (period * (ln // 43 + 1))[:ln]
        out.append((lvl, b'%s T%d #%d %d <%s>' % (tag, t, i, ln, text)))
    return out


def record(line, t0, t1):
    m = REC.match(line)
    if not m:
        return None
    d, mo, y, h, mi, s = [int(x) for x in m.groups()[:6]]
    ts = calendar.timegm((2000 + y, mo, d, h, mi, s))
    if not t0 - 1 <= ts <= t1 + 1:
        raise Violation('timestamp', 'the record %r is dated %d seconds off' % (short(line, 100), ts - t0))
    return m.group(7), NAMES.index(m.group(8).decode()), m.group(9), m.group(10)


def run(ctx):
    ctx.rule = ('threads logging messages of random levels and lengths at once, at every level, to a file or to the error output, with and without injected delays and under the race '
                'detector; every line of the log is matched to exactly one logged message; single messages at every pair of levels; fatal messages and kills at random moments; logs that hold records already; non-trivial: distinct (seed, level, threads)')
    r = ctx.rng
    # every pair of levels
    u = Unit(ctx)
    for lv in range(6):
        for to_file in (True, False):
            path = u.dir + '/log/m%d.log' % lv
            if os.path.exists(path):
                os.unlink(path)
            texts = [b'', b'x', b'100%', b'%s %n %d %x', b'a' * 255, b'b' * 256, b'c' * 1023, b'd' * 1024, b'e' * 4096, b'f' * 100000, bytes(c for c in range(1, 256) if c not in (10,)), b' lead', b'trail ']
            ops = [('loglevel', lv)] + ([('logfile', '/var/log/m%d.log' % lv)] if to_file else [])
            want = []
            for t in texts:
                for m in range(5):
                    ops.append(('logmsg', m, t))
                    if m >= lv:
                        want.append((m, t))
            t0 = int(time.time())
            res = u.run(ops)
            if res[0] != [int(i >= lv) for i in range(6)]:
                raise Violation('enabled', 'at level %s the enabled levels are %r' % (NAMES[lv], res[0]))
            data = open(path, 'rb').read() if to_file else u.stdio
            t1 = time.time()
            lines = data.split(b'\n')
            if lines.pop() != b'' and data:
                raise Violation('record', 'the log ends within a record')
            got = []
            for l in lines:
                x = record(l, t0, t1)
                if not x:
                    raise Violation('record', 'a line of the log is no record: %r' % short(l))
                got.append((x[1], x[3]))
                if b'unithost.c' not in x[2]:
                    raise Violation('origin', 'the origin of %r is wrong' % short(l))
            if got != want:
                i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                raise Violation('messages', 'at level %s the log holds %d records instead of %d; number %d is %r instead of %r' %
                                (NAMES[lv], len(got), len(want), i, got[i:i + 1], want[i:i + 1]))
            for m in range(5):
                ctx.case((lv, m, to_file))
            ctx.count('single_records', len(got))
    # records dated one by one
    v = Unit(ctx)
    ops = [('loglevel', 0), ('logfile', '/var/log/dated.log')]
    for i in range(14 if ctx.quick else 90):
        ops += [('nap', r.choice((300, 400, 500, 700))), ('logmsg', 2, b'm%d' % i), ('nap', 0)]
    res = v.run(ops)
    lines = open(v.dir + '/log/dated.log', 'rb').read().split(b'\n')[:-1]
    if len(lines) != (len(ops) - 2) // 3:
        raise Violation('messages', '%d records for %d messages' % (len(lines), (len(ops) - 2) // 3))
    for i, l in enumerate(lines):
        m = REC.match(l)
        if not m:
            raise Violation('record', 'a line of the log is no record: %r' % short(l))
        d, mo, y, h, mi, s = [int(x) for x in m.groups()[:6]]
        ts = calendar.timegm((2000 + y, mo, d, h, mi, s))
        if not res[2 + 3 * i][0] <= ts <= res[4 + 3 * i][0] + 1:
            raise Violation('timestamp', 'record %d is dated %d seconds off' % (i, ts - res[2 + 3 * i][0]))
        ctx.case(('dated', i))
    # a fatal message
    for lv in range(6):
        u.run([('loglevel', lv), ('logfile', '/var/log/f%d.log' % lv), ('logmsg', 4, b'before'), ('logmsg', 5, b'the end %d'), ('logmsg', 4, b'after')], expect_exit=True)
        data = open(u.dir + '/log/f%d.log' % lv, 'rb').read()
        if u.rc == 0 or u.rc < 0 or u.rc == 99:
            raise Violation('fatal', 'a fatal message ended the process with status %d' % u.rc)
        ls = [x for x in data.split(b'\n') if x]
        if len(ls) != (1 if lv == 5 else 2) or b'FATAL' not in ls[-1] or not ls[-1].endswith(b': the end %d') or b'after' in data:
            raise Violation('fatal', 'after a fatal message the log holds %r' % short(data))
        ctx.case(('fatal', lv))
    # a log that holds records already, and a process that ends at once: by a signal, without cleaning up
    for i in range(60 if ctx.quick else 600):
        path = u.dir + '/log/k%d.log' % i
        old = b''.join(b'01-01-20 00:00:00 1 INFO  a:b:%d: %s\n' % (k, gen.text(r, r.choice((0, 10, 5000)))) for k in range(r.choice((0, 1, 3, 50))))
        if r.random() < 0.3 and old:
            old = old[:-1]  # (what a crash left)
        open(path, 'wb').write(old)
        want = []
        for life in range(r.choice((1, 2, 3))):
            lv = r.choice((0, 0, 1, 2, 2, 3))
            ops = [('loglevel', lv), ('logfile', '/var/log/k%d.log' % i)]
            for k in range(r.choice((1, 1, 2, 10))):
                t = gen.text(r, r.choice((0, 1, 30, 1000, 4000, 4096, 9000)))
                ops.append(('logmsg', r.randrange(lv, 5), t))
                want.append(t)
            how = r.choice((9, 9, 15, 6, 0, None))
            if how == None:
                ops.append(('logclose',))
                if r.random() < 0.5:
                    other = u.dir + '/log/j%d.log' % i
                    ops += [('logfile', '/var/log/j%d.log' % i), ('logmsg', 3, b'in the other file'), ('logclose',)]
            else:
                ops.append(('die', how))
            u.run(ops, expect_exit=how is not None)
            if how is None and len(ops) > 2 and ops[-2] == ('logmsg', 3, b'in the other file'):
                o = open(other, 'rb').read()
                if not o.endswith(b': in the other file\n'):
                    raise Violation('other-file', 'after changing the log file, the new one holds %r' % short(o))
        data = open(path, 'rb').read()
        if not data.startswith(old):
            raise Violation('kept', 'opening a log of %d bytes that held records lost them: it holds %d bytes now' % (len(old), len(data)))
        got = [x for x in data[len(old):].split(b'\n')]
        if got.pop() != b'' or len(got) != len(want) or any(not g.endswith(b': ' + w) for g, w in zip(got, want)):
            raise Violation('durable', 'of %d messages logged before the process ended (%s), the log holds %d: %r' % (len(want), how, len(got), short(data[len(old):])))
        ctx.case(('life', i, how))
        ctx.count('records_of_ended_processes', len(want))
    # files that are set and closed: each message goes to the file that is open, or to the error output
    for i in range(40 if ctx.quick else 600):
        names = ['h%d-%d.log' % (i, k) for k in range(2)]
        want = {n: [] for n in names + ['']}
        ops, cur, k = [('loglevel', 1)], '', 0
        for _ in range(r.choice((2, 5, 12))):
            x = r.random()
            if x < 0.4 and not cur:
                cur = r.choice(names)
                ops.append(('logfile', '/var/log/' + cur))
            elif x < 0.7:
                ops.append(('logclose',))
                cur = ''
            for _ in range(r.choice((0, 1, 3))):
                k += 1
                t = b'k%d ' % k + gen.text(r, r.choice((0, 5, 300, 5000)))
                ops.append(('logmsg', r.randrange(1, 5), t))
                want[cur].append(t)
        t0 = int(time.time())
        u.run(ops)
        for n in want:
            p = u.dir + '/log/' + n
            data = u.stdio if n == '' else open(p, 'rb').read() if os.path.exists(p) else b''
            got = [record(l, t0, time.time()) for l in data.split(b'\n')[:-1]]
            if [x and x[3] for x in got] != want[n]:
                raise Violation('destination', 'after %r %s holds %d records, not the %d logged there: %r' % ([o[:2] for o in ops], n or 'the error output', len(got), len(want[n]), short(data)))
        ctx.case(('history', i))
        ctx.count('messages_in_set_and_close_histories', k)
    # threads
    uid = 0

    def threads(flavour, n, msgs, lv, to_file, fatal=0, chaos=0):
        nonlocal uid
        uid += 1
        v = units.setdefault(flavour, None) or Unit(ctx, flavour, leaks=False)
        units[flavour] = v
        seed = r.randrange(10 ** 6)
        tag = b'tag%d' % uid
        name = 'r%d.log' % uid
        ops = [('loglevel', lv)] + ([('logfile', '/var/log/' + name)] if to_file else []) + [('logrun', n, msgs, seed, tag, fatal)]
        t0 = int(time.time())
        v.run(ops, env={'VSHIM_CHAOS': str(chaos)} if chaos else None, expect_exit=bool(fatal))
        t1 = time.time()
        data = open(v.dir + '/log/' + name, 'rb').read() if to_file else v.stdio
        want = [[m for m in messages(tag, t, msgs, seed) if m[0] >= lv] for t in range(n)]
        pos = [0] * n
        tids = {}
        lines = data.split(b'\n')
        if lines.pop() != b'' and data and not fatal:
            raise Violation('record', 'the log ends within a record')
        switches, last, ended = 0, None, False
        for i, l in enumerate(lines):
            x = record(l, t0, t1)
            if not x:
                raise Violation('record', 'line %d of a log written by %d threads is no whole record: %r' % (i + 1, n, short(l)), seed=seed)
            if fatal and x[1] == 5:
                if x[3] != tag + b' FATAL end' or ended:
                    raise Violation('fatal', 'bad fatal record %r' % short(l))
                ended = True
                continue
            m = re.match(rb'(\S+) T(\d+) #(\d+) ', x[3])
            if not m or m.group(1) != tag or int(m.group(2)) >= n:
                raise Violation('record', 'line %d of a log written by %d threads holds no message: %r' % (i + 1, n, short(l)), seed=seed)
            t = int(m.group(2))
            if tids.setdefault(t, x[0]) != x[0]:
                raise Violation('origin', 'records of one thread name two: %r' % short(l))
            if pos[t] >= len(want[t]) or want[t][pos[t]] != (x[1], x[3]):
                w = [k for k, y in enumerate(want[t]) if y == (x[1], x[3])]
                raise Violation('messages', 'line %d: thread %d logged %r next, the log has %s' %
                                (i + 1, t, short(repr(want[t][pos[t]:pos[t] + 1]), 120), 'its message number %d of %d' % (w[0], len(want[t])) if w else repr(short(l, 200))), seed=seed)
            pos[t] += 1
            if last not in (None, t):
                switches += 1
            last = t
        if fatal < 0:
            # killed: what had been logged by then is there, once the call had returned
            done = struct.unpack('%di' % n, open(v.w + '/done', 'rb').read(4 * n))
            for t in range(n):
                need = sum(1 for m in messages(tag, t, done[t], seed) if m[0] >= lv)
                if pos[t] < need:
                    raise Violation('durable', 'thread %d had logged %d messages when the process was killed, the log holds %d' % (t, need, pos[t]), seed=seed)
            ctx.count('killed_at', sum(done))
            ctx.case((seed, lv, n))
            return
        if not fatal and pos != [len(w) for w in want]:
            raise Violation('messages', '%d of %d messages are missing in the log' % (sum(len(w) for w in want) - sum(pos), sum(len(w) for w in want)), seed=seed)
        if fatal:
            if not ended:
                raise Violation('fatal', 'a fatal message of one thread among %d is not in the log' % n)
            if v.rc == 0 or v.rc < 0 or v.rc == 99:
                raise Violation('fatal', 'a fatal message ended the process with status %d' % v.rc)
        ctx.case((seed, lv, n), {'threads': n, 'messages_each': msgs, 'level': NAMES[lv], 'records': sum(pos), 'switches_between_threads': switches})
        ctx.count('records', sum(pos))
        ctx.count('switches_between_threads', switches)

    units = {}
    q = ctx.quick
    for i in range(10 if q else 150):
        threads('asan', r.choice((2, 4, 8, 16, 40)), r.choice((30, 100, 300)), r.choice((0, 0, 1, 2, 3, 4)), r.random() < 0.7)
    for i in range(10 if q else 150):
        threads('chaos', r.choice((2, 8, 16, 32)), r.choice((40, 150)), r.choice((0, 0, 1, 2, 3, 4)), r.random() < 0.7, chaos=r.choice((10, 40, 100)))
    for i in range(10 if q else 100):
        threads('plain', r.choice((2, 4, 8, 16, 64)), r.choice((100, 400)), r.choice((0, 0, 1, 2)), r.random() < 0.7)
    for i in range(3 if q else 40):
        threads('tsan', r.choice((2, 4, 8)), 60, r.choice((0, 2)), True)
    for i in range(15 if q else 300):
        threads(r.choice(('plain', 'plain', 'asan')), r.choice((1, 3, 8)), 4000, r.choice((0, 2, 4)), True, fatal=-r.choice((300, 1000, 5000, 20000)))
    for i in range(12 if q else 200):
        threads(r.choice(('plain', 'asan')), r.choice((1, 4, 8)), 4000, r.choice((0, 2, 4, 5)), r.random() < 0.7, fatal=r.choice((100, 1000, 5000, 20000)))
    # a log that cannot be written for a while: what is logged before and after is there
    v = Unit(ctx, leaks=False)
    for i in range(20 if q else 300):
        p = '%s/room%d.log' % (v.w, i)
        ops, want = [('loglevel', 1), ('logfile', p)], []
        for phase in range(r.choice((1, 2, 3))):
            for k in range(r.choice((0, 1, 5))):
                want.append(b'message %d of %d %s' % (k, phase, bytes(r.choice(b'abc %') for _ in range(r.choice((0, 10, 3000))))))
                ops.append(('logmsg', r.choice((1, 2, 3, 4)), want[-1]))
            ops.append(('logroom', p, r.choice((0, 1, 30, 200)), r.choice((1, 2, 9))))
        for k in range(r.choice((1, 2, 6))):
            want.append(b'message %d afterwards ' % k + b'x' * r.choice((0, 10, 5000)))
            ops.append(('logmsg', r.choice((1, 2, 3, 4)), want[-1]))
        v.run(ops + [('logclose',)])
        text = open(p, 'rb').read()
        pos = 0
        for w in want:
            n = text.count(b': ' + w + b'\n')
            if n != 1 or text.index(b': ' + w + b'\n') < pos:
                raise Violation('messages', 'a message logged while the log could be written, though not at other times, is in it %d times%s: %s' % (n, ', out of order' if n else '', short(w)))
            pos = text.index(b': ' + w + b'\n')
        ctx.case(('room', tuple(want)), {'messages': len(want), 'times without room': sum(o[0] == 'logroom' for o in ops)})
        ctx.count('times_without_room', sum(o[0] == 'logroom' for o in ops))
