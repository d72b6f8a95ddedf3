"""What a configuration file means."""
import gen
BL = b' \t\r\n\v\f'
MAXM = 20
KEYC = b'abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_.-'


def split_multi(v):
    return [x.strip(BL) for x in v.split(b',') if x][:MAXM]


def parse_line(line, multi):
    """(key, value, multi-values) or None"""
    if b'=' not in line:
        return None
    k, _, v = line.strip(BL).partition(b'=')
    k, v = k.strip(BL), v.strip(BL)
    return k, v, split_multi(v) if multi else []


def parse(data, keys):
    """(delivered, ok); keys: list of (key, is_multi)"""
    out = []
    lines = data.split(b'\n')
    if lines and lines[-1] == b'':
        lines.pop()
    for l in lines:
        it = parse_line(l, False)
        if it is None:
            return out, False
        for k, m in keys:
            if k == it[0]:
                out.append((it[0], it[1], split_multi(it[1]) if m else []))
                break
    return out, True


def value(r, n, multi=False):
    """A text without line breaks or surrounding blanks."""
    alpha = bytes(c for c in range(33, 256) if c not in ((44,) if multi else ()) and c != 127)
    mid = alpha + b'    \t===' if not multi else alpha + b'   =='
    k = r.random()
    if n == 0:
        return b''
    if k < 0.4:
        v = bytearray(gen.text(r, n, KEYC))
    else:
        v = bytearray(r.choice(mid) for _ in range(n))
    v[0], v[-1] = r.choice(KEYC if k < 0.8 else alpha), r.choice(KEYC if k < 0.8 else alpha)
    if n > 2 and r.random() < 0.08:
        # enclosed in quotes or brackets, which are part of the value
        v[0], v[-1] = r.choice((b'""', b"''", b'[]', b'{}', b'()', b'<>', b'``'))
    return bytes(v)


def key(r):
    k = bytearray(gen.text(r, r.choice((1, 2, 5, 10, 20, 60, 100)), KEYC + (b' \xe9' if r.random() < 0.2 else b'')))
    k[0], k[-1] = r.choice(KEYC), r.choice(KEYC)
    return bytes(k)
