"""Multipart forms, well formed and what a handler has to get for them."""
import hashlib
import gen

# visible characters that may appear in names: no blanks, quotes, '!' and below
NAMEC = bytes(c for c in range(35, 127) if c not in b'&=\\') + bytes(range(128, 256))


def boundary(r):
    k = r.random()
    if k < 0.3:
        return b'-' * r.choice((2, 4, 10, 26)) + gen.text(r, r.choice((8, 16, 24)), b'0123456789abcdef')
    if k < 0.6:
        return b'----WebKitFormBoundary' + gen.text(r, 16)
    if k < 0.9:
        return gen.text(r, r.choice((2, 3, 5, 10, 30, 60, 69, 70)))
    return gen.text(r, r.choice((1, 7, 20)), b"abc'()+_,-./:?=")


def part(r, big=4000):
    """(is_file, name, filename or None, extra headers, content)"""
    name = gen.text(r, r.choice((1, 2, 4, 8, 20, 64, 100, 255, 300)), gen.TOKEN if r.random() < 0.8 else NAMEC)
    isf = r.random() < 0.5
    fn = None
    extra = []
    if isf:
        fn = gen.text(r, r.choice((1, 3, 8, 12, 20, 60, 120, 200, 253, 254, 255)), gen.TOKEN + b'.' if r.random() < 0.7 else NAMEC)
        if r.random() < 0.8:
            extra.append(b'Content-Type: ' + r.choice((b'application/octet-stream', b'text/plain', b'image/png')))
        if r.random() < 0.15:
            extra.append(b'Content-Transfer-Encoding: binary')
    for h in (b'Content-Length: %d' % r.randrange(9999), b'content-type: text/plain; charset=utf-8', b'X-Part: a: b; c', b'Content-ID: <part1>'):
        if r.random() < 0.05:
            extra.append(h)
    k = r.random()
    if k < 0.12:
        data = b''
    elif k < 0.3 and not isf:
        data = r.choice((b'x; filename="evil.txt"', b'form-data; name="other"', b'\r\n\r\n', b'a\r\n\r\nb', b'--', b'----', b'\r\n--', b'&x=1', b'%s%d%n',
                         b'Content-Disposition: form-data; name="q"; filename="z"', b'\r\n', b'\n', b'a=b&c=d', b' lead and trail ', b'"quoted"'))
    elif k < 0.5 and isf:
        data = r.choice((b'\r\n', b'\r\n\r\n', b'\0', b'\0\0\r\n\0', b'--\r\n', b'; filename="x"\r\n\r\n', b'form-data; name="a"\r\n\r\nvalue\r\n', b'\xff' * 40,
                         b'\r\n--', b'-' * 50, b'\n'))
    elif k < 0.8:
        n = gen.size(r, 0, 600)
        data = gen.blob(r, n) if isf else gen.text(r, n, gen.URLC + b' \t"\r\n\xe9\x80')
    else:
        n = gen.size(r, 0, big)
        data = gen.blob(r, n) if isf else gen.text(r, n, gen.URLC + b' ')
    if not isf:
        data = data.replace(b'\0', b'0')
    return isf, name, fn, extra, data


def encode(r, b, parts, preamble=False):
    out = b''
    if preamble:
        out += b'This is a preamble.\r\n'
    for isf, name, fn, extra, data in parts:
        disp = r.choice((b'Content-Disposition: ', b'Content-Disposition: ', b'Content-Disposition: ', b'content-disposition: ', b'CONTENT-DISPOSITION: ', b'Content-disposition:')) + b'form-data; name="' + name + b'"'
        if isf:
            disp += b'; filename="' + fn + b'"'
        # the headers of a part come in any order
        at = r.randrange(len(extra) + 1) if r.random() < 0.3 else 0
        lines = extra[:at] + [disp] + extra[at:]
        out += b'--' + b + b'\r\n' + b''.join(e + b'\r\n' for e in lines) + b'\r\n' + data + b'\r\n'
    return out + b'--' + b + b'--' + r.choice((b'\r\n', b'', b'\r\n\r\n'))


def form(r, n=None, big=4000):
    """A boundary, its parts and the body; the boundary appears in no part."""
    while True:
        b = boundary(r)
        ps = [part(r, big) for _ in range(r.choice((1, 1, 2, 2, 3, 4, 6, 12)) if n is None else n)]
        if r.random() < 0.25:
            # contents with almost the boundary in them, on a line of its own or not
            i = r.randrange(len(ps))
            isf, name, fn, extra, data = ps[i]
            near = b'--' + (b[:r.choice((len(b) - 1, max(0, len(b) - 2), len(b) // 2))] if r.random() < 0.8 else b[:-1] + b'#')
            ps[i] = isf, name, fn, extra, gen.text(r, r.choice((0, 3, 50))) + r.choice((b'', b'\r\n', b'\n', b'\r')) + near + r.choice((b'', b'\r\n', b'--', b'--\r\n', b'-', b' ', b'X')) + gen.text(r, r.choice((0, 3, 50)))
        bad = False
        for isf, name, fn, extra, data in ps:
            for t in (name, fn or b'', data, b'Content-Disposition: form-data; name=; filename="', b' '.join(extra)):
                # the boundary as such, or formed with the line ends around it
                if b'--' + b in b'\r\n' + t + b'\r\n' or b'--' + b in t:
                    bad = True
            # it must not start earlier with the dashes at the end of the part
            if (data + b'\r\n--' + b).find(b'--' + b) != len(data) + 2:
                bad = True
        if not bad:
            return b, ps, encode(r, b, ps)


def expected(parts):
    """What is delivered: for each part the text before the temporary file name, and the content of that file or None."""
    return [((name + b'=' + fn + b'&tmpfile=', data) if isf else (name + b'=' + data, None)) for isf, name, fn, extra, data in parts]


def match(form_text, parts):
    """None if the form text delivers the parts, or what is wrong; and the temporary file names."""
    p, names = 0, []
    for i, (isf, name, fn, extra, data) in enumerate(parts):
        want = (b'&' if i else b'') + name + b'=' + (fn + b'&tmpfile=' if isf else data)
        if form_text[p:p + len(want)] != want:
            return 'part %d: expected %r, the form goes on with %r' % (i, want[:200], form_text[p:p + len(want) + 20][:200]), names
        p += len(want)
        if isf:
            e = p
            while e < len(form_text) and form_text[e:e + 1] != b'&':
                e += 1
            names.append((form_text[p:e], data))
            p = e
    if p != len(form_text):
        return 'the form goes on after the last part: %r' % form_text[p:p + 100], names
    return None, names
