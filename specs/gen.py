"""Generators of native inputs: header maps, encoded headers and whole structures, valid for the most part."""
import cbor2

from specs import registry as R

WIRE = ('none', 'bool', 'int', 'bytes', 'str', 'list', 'map', 'tag')
RECIPIENT_ALGS = [-6, -10, -13, -3, -4, -5, -40, -41, -42, -25, -26, -27, -28, -29, -30, -31, -32, -33, -34]
ALGS = [1, 2, 3, 4, 5, 6, 7, 10, 14, 15, 26, -7, -8, -37, -257] + RECIPIENT_ALGS
EC = {1: 2, -1: 1,
      -2: bytes.fromhex('6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296'),
      -3: bytes.fromhex('4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5')}


def scalar(r):
    return r.choice([None, True, 0, 5, -3, b'', b'bytes', 'text', [], [1], {}, {'a': 1}, 2.5, cbor2.CBORTag(1000, 1)])


def byts(r, n=None):
    return bytes(r.randrange(256) for _ in range(r.choice([0, 1, 8, 13, 16, 24, 32]) if n is None else n))


def header(r, alg=None, p=.25):
    """A header map with integer labels; now and then with text labels, unknown labels, wrong values."""
    h = {}
    if alg is not None:
        h[1] = alg
    elif r.random() < p:
        h[1] = r.choice(ALGS + ['ES256', 'A128GCM'])
    for k, v in ((2, [1]), (3, r.choice([0, 50, 'text/plain'])), (4, byts(r)), (5, byts(r, 12)), (6, byts(r, 2)), (7, [b'', {}, b'']),
                 (9, byts(r)), (33, [b'cert']), (-20, b'salt'), (-21, byts(r)), (-22, byts(r)), (-24, byts(r)), (-1, EC), (-2, EC),
                 (1000, r.choice([1, 'x', b'y', None, {1: 2}])), ('label', [1, 2]), (-70001, b''), ('KID', b'kid')):
        if r.random() < p / 2:
            h[k] = v
    if r.random() < .04:
        h[r.choice([1, 2, 3, 4, 5, 6, 9])] = scalar(r)
    items = list(h.items())
    r.shuffle(items)
    return dict(items)


def indefinite(h):
    return b'\xbf' + b''.join(cbor2.dumps(k) + cbor2.dumps(v) for k, v in h.items()) + b'\xff'


def longhand(h):
    """Map head with an 8-byte length."""
    return b'\xbb' + len(h).to_bytes(8, 'big') + b''.join(cbor2.dumps(k) + cbor2.dumps(v) for k, v in h.items())


def encoded(r, h):
    """One of the encodings of a protected header."""
    k = r.random()
    if not h and k < .5:
        return b''
    if k < .6:
        return cbor2.dumps(h)
    if k < .8:
        return indefinite(h)
    return longhand(h)


def protected(r):
    k = r.random()
    if k < .3:
        return b''
    if k < .93:
        return encoded(r, header(r))
    return r.choice([None, 5, 'x', {}, [], b'\x00', b'\xff', b'\x80', b'\xa1', b'\x41'])


def unprotected(r, alg=None):
    return header(r, alg) if r.random() < .93 else scalar(r)


def ciphertext(r):
    return r.choice([b'', b'', byts(r, 24), byts(r, 16), None]) if r.random() < .93 else scalar(r)


def auth(r):
    return byts(r, r.choice([0, 8, 32, 64])) if r.random() < .93 else scalar(r)


def recipient_headers(r):
    """(protected bytes, unprotected map, ciphertext) of a recipient that is valid most of the time."""
    alg = r.choice(RECIPIENT_ALGS)
    free = alg not in (-6, -3, -4, -5)
    p, u = {}, {}
    if free and r.random() < .5:
        p = header(r, alg, .15)
        if r.random() < .05:
            u[1] = alg
    else:
        u = header(r, alg, .15)
        if r.random() < (.3 if free else .05):
            p = header(r, None, .1)
            p.pop(1, None)
    if alg in (-25, -26) and r.random() < .9:
        u[-1] = EC
    ct = b'' if alg in (-6, -10, -13, -25, -26, -27, -28) else byts(r, 24)
    if r.random() < .06:
        ct = r.choice([b'', b'x', None, 5])
    return encoded(r, p), u, ct


def recipient(r, depth=0):
    a = list(recipient_headers(r))
    if r.random() < (.25 if depth == 0 else .05):
        a.append([recipient(r, depth + 1) for _ in range(r.choice([0, 1, 1, 2]))])
    if r.random() < .04:
        a.append(scalar(r))
    if r.random() < .03:
        a.pop()
    return a if r.random() > .02 else scalar(r)


def signature(r):
    a = [protected(r), unprotected(r), auth(r)]
    if r.random() < .04:
        a.append(scalar(r))
    if r.random() < .03:
        a.pop()
    return a if r.random() > .02 else scalar(r)


def structure(r, tag):
    a = [protected(r), unprotected(r), ciphertext(r)]
    if tag in (17, 18, 97):
        a.append(auth(r))
    if tag in (96, 97) and r.random() < .9:
        a.append([recipient(r) for _ in range(r.choice([0, 1, 1, 2, 3]))] if r.random() < .95 else scalar(r))
    if tag == 98:
        a.append([signature(r) for _ in range(r.choice([0, 1, 1, 2, 3]))] if r.random() < .95 else scalar(r))
    if r.random() < .05:
        a.append(scalar(r))
    if r.random() < .05:
        a.pop()
    return a


def item(r):
    tag = r.choice([16, 17, 18, 96, 97, 98])
    a = structure(r, r.choice([tag, tag, tag, tag, tag, tag, tag, 16, 18, 98]))
    k = r.random()
    if k < .03:
        return a
    if k < .06:
        return cbor2.CBORTag(r.choice([0, 15, 19, 61, 95, 99, 1000]) if r.random() < .7 else tag, r.choice([a, scalar(r)]))
    if k < .08:
        return scalar(r)
    return cbor2.CBORTag(tag, a)


def data(r):
    """Encoded structure, sometimes damaged."""
    b = cbor2.dumps(item(r))
    k = r.random()
    if k < .05:
        i = r.randrange(len(b))
        b = b[:i] + bytes([r.randrange(256)]) + b[i + 1:]
    elif k < .08:
        b = b[:r.randrange(len(b))]
    return b
