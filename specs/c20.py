"""C20: certificate thumbprints match exactly their certificate; containers are exact."""
from pycose.extensions.x509 import X5T, X5Bag, X5Chain
from pyvc.contract import Contract, History, State, Violation
from specs import algs as A
from specs import common as S
from specs import prims as P
from specs import registry as R
from specs import shapes as SH

HASHES = SH.of_ids(list(R.HASH))


def thumb(cx):
    cert = cx.bytes('certificate')
    enc = cx.choice('CBOR encoded', [False, True])
    return State(alg=cx.choice('alg', HASHES), cert=cert, enc=enc)


def given(s):
    return P.cbor(s.cert) if s.enc else s.cert


def make(s):
    return X5T.from_certificate(s.alg, given(s), s.enc) if s.enc else X5T.from_certificate(s.alg, given(s))


def i_make(s):
    t = make(s)
    return t.encode(), t.alg, t.thumbprint


def s_make(s):
    h = A.hash_(s.alg, s.cert)
    return [s.alg, h], s.alg, h


def carried(cx):
    """Any thumbprint, with its algorithm by id, by name or as class."""
    alg = cx.choice('alg', HASHES)
    form = cx.choice('form', ['id', 'name', 'class'])
    a = {'id': alg.identifier, 'name': alg.fullname, 'class': alg}[form]
    return State(alg=alg, item=cx.lst([a, cx.bytes('thumbprint')]), cert=cx.bytes('certificate'), enc=cx.choice('CBOR encoded', [False, True]))


def i_decode(s):
    t = X5T.decode(s.item)
    return t.alg, t.thumbprint, t.encode()


def s_decode(s):
    return s.alg, s.item[1], [s.alg, s.item[1]]


def i_matches(s):
    t = X5T.decode(s.item)
    return t.matches(given(s), s.enc) if s.enc else t.matches(given(s))


def s_matches(s):
    return A.hash_(s.alg, s.cert) == s.item[1]


def wrong(cx):
    return State(item=cx.lst([cx.any('alg', ('none', 'bool', 'int', 'bytes', 'str', 'cls', 'tag', 'map')), cx.bytes('thumbprint')]))


def s_wrong(s):
    from specs import headers as HD
    a = HD.algorithm(s.item[0])
    return a, s.item[1], [a, s.item[1]]


def two(cx):
    return State(alg=cx.choice('alg', HASHES), cert=cx.bytes('certificate'), other=cx.bytes('other'), alg2=cx.choice('alg2', HASHES[:2]))


def i_round(s):
    t = X5T.from_certificate(s.alg, s.cert)
    u = X5T.decode(P.uncbor(P.cbor(t.encode())))
    return u.alg, u.thumbprint, u == t, t.matches(s.cert), u.matches(s.other), t == X5T.from_certificate(s.alg2, s.other)


def s_round(s):
    h = A.hash_(s.alg, s.cert)
    o = A.hash_(s.alg, s.other)
    return s.alg, h, True, True, o == h, s.alg is s.alg2 and h == A.hash_(s.alg2, s.other)


# ---- containers ------------------------------------------------------------------------------------------

def certs(cx):
    n = cx.choice('certificates', [1, 2, 3, 4, 'single'])
    if n == 'single':
        return cx.bytes('c0')
    return cx.lst([cx.bytes(f'c{i}') for i in range(n)])


def bag(cx):
    return State(cls=cx.choice('class', [X5Bag, X5Chain]), certs=certs(cx))


def i_bag(s):
    return s.cls(s.certs).encode()


def s_bag(s):
    if isinstance(s.certs, list) and len(s.certs) == 1:
        return s.certs[0]
    return s.certs


def chain(cx):
    return State(certs=certs(cx), usage=cx.choice('usage', ['digital_signature', 'key_encipherment']))


def i_chain(s):
    X5Chain(s.certs).verify_chain({s.usage})
    return True


def i_chain_init(s):
    X5Chain(s.certs, verify=True)
    return True


def i_chain_not(s):
    X5Chain(s.certs, verify=False)
    return True


def s_chain(s):
    l = s.certs if isinstance(s.certs, list) else [s.certs]
    P.validate_chain(l[0], l[1:], {s.usage})
    return True


def s_chain_init(s):
    l = s.certs if isinstance(s.certs, list) else [s.certs]
    P.validate_chain(l[0], l[1:], {'digital_signature'})
    return True


def s_chain_not(s):
    return True


X = 'pycose.extensions.x509.'
B = 'at most four certificates'
CONTRACTS = [
    Contract('X5T.from_certificate', thumb, i_make, s_make, funcs=[X + 'X5T.from_certificate', X + 'X5T.encode', X + 'X5T.__init__']),
    Contract('X5T.decode', carried, i_decode, s_decode, funcs=[X + 'X5T.decode', X + 'X5T.encode']),
    Contract('X5T.decode of any algorithm', wrong, i_decode, s_wrong, funcs=[X + 'X5T.decode', X + 'X5T.encode']),
    Contract('X5T.matches', carried, i_matches, s_matches, funcs=[X + 'X5T.matches']),
    Contract('X5T round trip', two, i_round, s_round, funcs=[X + 'X5T.from_certificate', X + 'X5T.decode', X + 'X5T.encode', X + 'X5T.matches', X + 'X5T.__eq__']),
    Contract('containers', bag, i_bag, s_bag, funcs=[X + 'X5Bag.encode', X + 'X5Chain.encode'], bounded=B),
    Contract('X5Chain.verify_chain', chain, i_chain, s_chain, funcs=[X + 'X5Chain.verify_chain'], bounded=B),
    Contract('X5Chain(verify=True)', chain, i_chain_init, s_chain_init, funcs=[X + 'X5Chain.__init__', X + 'X5Chain.verify_chain'], bounded=B),
    Contract('X5Chain(verify=False)', chain, i_chain_not, s_chain_not, funcs=[X + 'X5Chain.__init__'], bounded=B),
]


# ---- what reaches the certificate validator --------------------------------------------------------------

def validated(rng):
    """Chains of distinct byte strings; the validator replaced by a recorder."""
    import certvalidator
    calls = []

    def init(self, end_entity_cert, intermediate_certs=None, validation_context=None):
        calls.append(('cert', end_entity_cert, [] if intermediate_certs is None else list(intermediate_certs), validation_context))

    def usage(self, key_usage, extended_key_usage=None, extended_optional=False):
        calls.append(('usage', set(key_usage), extended_key_usage))
    c = certvalidator.CertificateValidator
    old = c.__init__, c.validate_usage
    c.__init__, c.validate_usage = init, usage
    try:
        n = rng.choice([1, 2, 3, 4, 6])
        certs = [bytes([i]) + rng.randbytes(3) for i in range(n)]
        given = certs[0] if n == 1 and rng.random() < .5 else list(certs)
        use = rng.choice([{'digital_signature'}, {'digital_signature', 'key_agreement'}, {'crl_sign'}])
        ch = X5Chain(given)
        if calls:
            raise Violation('an X5Chain was validated without being asked to')
        if ch.encode() != (certs if n > 1 else certs[0]):
            raise Violation(f'{given} encodes to {ch.encode()}')
        if rng.random() < .5:
            ch.verify_chain(use)
        else:
            use = {'digital_signature'}
            X5Chain(given, verify=True)
        want = [('cert', certs[0], certs[1:], None), ('usage', use, None)]
        if calls != want:
            raise Violation(f'chain {given}: the validator got {calls} instead of {want}')
    finally:
        c.__init__, c.validate_usage = old


HISTORIES = [History('what reaches the certificate validator', validated)]
