"""C28: file helpers store and return exact bytes."""
from unit import *
import gen


def run(ctx):
    ctx.rule = ('histories of write/rewrite/read/existence/line-membership calls on random paths and contents of edge sizes; results against '
                'a model of the files, and the files themselves as read by the harness; non-trivial: distinct calls on non-empty content')
    u = Unit(ctx)
    r = ctx.rng
    rounds = 10 if ctx.quick else 250
    for rnd in range(rounds):
        base = os.path.join(u.w, 'd%d' % rnd).encode()
        os.makedirs(base)
        names = [base + b'/f%d' % i for i in range(6)] + [base + b'/' + gen.text(r, 200), base + b'/sp ace\xc3\xa9']
        model, dirs = {}, {base}
        ops, exps = [], []

        def add(op, exp):
            ops.append(op)
            exps.append(exp)
        for i in range(220):
            p = r.choice(names)
            k = r.random()
            if k < 0.3:
                n = r.choice((gen.size(r, 0, 5000), gen.size(r, 0, 5000), 8191, 8192, 8193, 65536, r.randrange(200000)))
                d = gen.blob(r, n)
                if p in dirs:
                    continue
                add(('writef', p, d), [])
                model[p] = d
                add(('get', p), [d])
            elif k < 0.6:
                if p in dirs:
                    continue
                if p in model:
                    d = model[p]
                    lim = r.choice((1, 2, len(d), len(d) + 1, len(d) + 2, max(1, len(d) - 1), max(1, len(d) // 2), gen.size(r, 1, 3000), len(d) + 4096))
                    lim = max(1, lim)
                    if r.random() < 0.15:
                        add(('readf', p, 0, len(d) + 1), [d + b'\0'])
                    else:
                        out = (d[:lim - 1] + b'\0')
                        add(('readf', p, lim, lim), ('prefix', out))
                else:
                    add(('readf', p, 10, 10), ('prefix', b'\0'))
            elif k < 0.7:
                add(('isf', p), [int(p in model)])
                add(('isd', p), [int(p in dirs)])
            elif k < 0.75:
                q = p + b'_dir'
                add(('mkd', q), [1])
                dirs.add(q)
                add(('isd', q), [1])
                add(('isf', q), [0])
                add(('mkd', q), [1])
                if p in model:
                    add(('mkd', p), [0])
                    add(('isf', p), [1])
                add(('mkd', base + b'/no/such/x'), [0])
            elif k < 0.98:
                # lines
                lines = [bytes(r.choice(b'0123456789.') for _ in range(r.choice((0, 1, 7, 9, 15)))) for _ in range(r.choice((0, 1, 3, 30, 900)))]
                lines += [gen.text(r, gen.size(r, 1, 4000), b'ab12. ').strip() for _ in range(r.choice((0, 0, 1, 2)))]
                r.shuffle(lines)
                text = b''.join(r.choice((b'', b'', b' ', b'\t')) + l + r.choice((b'', b'', b' ', b'\r')) + b'\n' for l in lines)
                if text and r.random() < 0.4:
                    text = text[:-1]
                eff = [x.strip(b' \t\r\n') for x in text.split(b'\n')]
                if p in dirs:
                    continue
                add(('put', p, text), [1])
                model[p] = text
                for _ in range(4):
                    cand = r.choice(eff) if eff else b'zz'
                    needle = r.choice((cand, cand[1:], cand[:-1], cand + b'1', b'1' + cand, b'127.0.0.1'))
                    if not needle or needle != needle.strip():
                        continue
                    add(('findf', p, needle), [int(needle in eff)])
                add(('findf', base + b'/none', b'x'), [0])
            elif p in model:
                add(('del', p), [0])
                del model[p]
                add(('isf', p), [0])
        res = u.run(ops)
        for op, exp, got in zip(ops, exps, res):
            if isinstance(exp, tuple):
                ok = len(got) == 1 and got[0] is not None and got[0][:len(exp[1])] == exp[1]
                exp = [exp[1]]
            else:
                ok = got == exp
            if not ok:
                raise Violation('wrong-result', '%s gives %s instead of %s' % (show(op), short(repr(got)), short(repr(exp))), op=show(op, 4000))
            if op[0] != 'get' and op[0] != 'put':
                ctx.case(op if len(op) < 3 or op[2] not in (b'',) else None, show(op, 120))
                ctx.count('calls_' + op[0])
    # large files, mostly holes; the last line is looked up, the start is read
    M, G = 1 << 20, 1 << 30
    ops, exps = [], []
    for n in (4 * M - 1, 4 * M, 5 * M, 16 * M + 3, 200 * M) + (2 * G - 1, 2 * G, 2 * G + 1, 4 * G + 7):
        p = os.path.join(u.w, 'big%d' % n)
        with open(p, 'wb') as f:
            f.write(b'head of the file\n')
            f.truncate(n)
            f.seek(n - 10)
            f.write(b'\ntheneedle')
        b = p.encode()
        ops += [('isf', b), ('isd', b), ('readf', b, 17, 17), ('findf', b, b'head of the file')]
        exps += [[1], [0], b'head of the file\0', [1]]
        if n < 20 * M:
            ops += [('findf', b, b'theneedle'), ('findf', b, b'needle')]
            exps += [[1], [0]]
    # lists of many lines
    lines = [b'10.%d.%d.%d' % (i >> 16, i >> 8 & 255, i & 255) for i in range(60000 if ctx.quick else 600000)]
    p = os.path.join(u.w, 'many')
    open(p, 'wb').write(b'\n'.join(lines) + b'\n')
    b = p.encode()
    for k in (0, 1, 255, 256, 1023, 1024, 4095, 9999, 32767, 32768, len(lines) - 2, len(lines) - 1):
        ops += [('findf', b, lines[k]), ('findf', b, lines[k][:-1] + b'x'), ('findf', b, b'1' + lines[k])]
        exps += [[1], [0], [0]]
    for op, exp, got in zip(ops, exps, u.run(ops)):
        ok = got == exp if isinstance(exp, list) else len(got) == 1 and got[0] is not None and got[0][:len(exp)] == exp
        if not ok:
            raise Violation('wrong-result', '%s gives %s instead of %s' % (show(op), short(repr(got)), short(repr(exp))), op=show(op, 4000))
        ctx.case(op, show(op, 120))
        ctx.count('calls_large')
    # no room for the whole block: an error is logged, and none otherwise
    ops, want = [], []
    log = os.path.join(u.w, 'pipe').encode()
    for i in range(120 if ctx.quick else 2000):
        n = r.choice((0, 1, 2, 100, 4095, 4096, 4097, 8192, 65536, r.randrange(1, 9000), 300000))
        room = r.choice((0, 1, n - 1, n, n + 1, n // 2, n // 4096 * 4096, 1 << 20))
        if room < 0:
            continue
        p = os.path.join(u.w, 'room%d' % (i % 9)).encode()
        data = bytes(r.randrange(256) for _ in range(min(n, 50))) * (n // 50 + 1)
        ops.append(('writef_room', p, data[:n], room, log))
        want.append(int(n > room))
    for p in ('none/x', 'y' * 300, '.'):
        ops.append(('writef_room', os.path.join(u.w, p).encode(), b'data', 1 << 20, log))
        want.append(1)
    for op, w, got in zip(ops, want, u.run(ops)):
        if bool(got[0]) != bool(w):
            raise Violation('report', 'writing %d bytes to %s with room for %d logs %d errors' % (len(op[2]), short(op[1]), op[3], got[0]))
        ctx.case(op[1:4], {'bytes': len(op[2]), 'room': op[3], 'errors logged': got[0]})
        ctx.count('writes_without_room' if w else 'writes_with_room')
    # blocks beyond what an int can count
    G = 1 << 31
    for n in ((1 << 20) + 16, 50 << 20) + (() if ctx.quick else (G - 1, G, G + 12345)):
        got = u.run([('bigrw', os.path.join(u.w, 'block').encode(), n)], timeout=600)[0]
        if got != [n, 1]:
            raise Violation('wrong-result', 'of a block of %d bytes, %r are written, and read back %s' % (n, got[0], 'as written' if got[1] else 'differently'))
        ctx.case(('block', n), {'block of': n})
        ctx.count('big_blocks')
