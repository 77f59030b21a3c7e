"""SMT sorts, uninterpreted functions and conversions shared by the whole engine."""
import z3

BV8 = z3.BitVecSort(8)
BYTES = z3.SeqSort(BV8)
STR = z3.StringSort()
INT = z3.IntSort()
BOOL = z3.BoolSort()
MP = z3.DeclareSort('Mp')       # abstract CBOR/Python map (order sensitive)
EXT = z3.DeclareSort('Ext')     # objects of libraries outside the repository

_V = z3.Datatype('V')
_L = z3.Datatype('L')
_V.declare('VNone')
_V.declare('VBool', ('vb', BOOL))
_V.declare('VInt', ('vi', INT))
_V.declare('VBytes', ('vy', BYTES))
_V.declare('VStr', ('vs', STR))
_V.declare('VCls', ('vc', INT))
_V.declare('VList', ('vl', _L))
_V.declare('VMap', ('vm', MP))
_V.declare('VTag', ('vt', INT), ('vv', _V))
_V.declare('VExt', ('vx', EXT))
_V.declare('VOther', ('vo', INT))
_L.declare('nil')
_L.declare('cons', ('hd', _V), ('tl', _L))
V, L = z3.CreateDatatypes(_V, _L)

KINDS = ['none', 'bool', 'int', 'bytes', 'str', 'cls', 'list', 'map', 'tag', 'ext', 'other']
TESTER = {'none': V.is_VNone, 'bool': V.is_VBool, 'int': V.is_VInt, 'bytes': V.is_VBytes, 'str': V.is_VStr,
          'cls': V.is_VCls, 'list': V.is_VList, 'map': V.is_VMap, 'tag': V.is_VTag, 'ext': V.is_VExt,
          'other': V.is_VOther}

_ufs = {}


def uf(name, *sorts):
    key = (name,) + tuple(s.name() if not isinstance(s, z3.SeqSortRef) else str(s) for s in sorts)
    f = _ufs.get(key)
    if f is None:
        f = _ufs[key] = z3.Function(name, *sorts)
    return f


# map operations
mhas = uf('mhas', MP, V, BOOL)
mget = uf('mget', MP, V, V)
msize = uf('msize', MP, INT)
mnil = z3.Const('mnil', MP)
mset = uf('mset', MP, V, V, MP)
mdel = uf('mdel', MP, V, MP)
mmerge = uf('mmerge', MP, MP, MP)
llen = uf('llen', L, INT)
lcontains = uf('lcontains', L, V, BOOL)

_bc = {}


def bconst(b):
    t = _bc.get(b)
    if t is None:
        if len(b) == 0:
            t = z3.Empty(BYTES)
        elif len(b) == 1:
            t = z3.Unit(z3.BitVecVal(b[0], 8))
        else:
            t = z3.Concat(*[z3.Unit(z3.BitVecVal(x, 8)) for x in b])
        _bc[b] = t
    return t


def seq_to_bytes(t):
    """A constant sequence expression as bytes, None if it is not one."""
    d = t.decl().kind()
    if d == z3.Z3_OP_SEQ_EMPTY:
        return b''
    if d == z3.Z3_OP_SEQ_UNIT:
        c = t.arg(0)
        if z3.is_bv_value(c):
            return bytes([c.as_long()])
        return None
    if d == z3.Z3_OP_SEQ_CONCAT:
        out = b''
        for i in range(t.num_args()):
            x = seq_to_bytes(t.arg(i))
            if x is None:
                return None
            out += x
        return out
    return None


# global numbering of Python objects used as constants (registered classes and such)
_gid = {}
_gobj = []


def gid(obj):
    k = id(obj)
    if k not in _gid:
        _gid[k] = len(_gobj)
        _gobj.append(obj)
    return _gid[k]


def gobj(i):
    return _gobj[i] if 0 <= i < len(_gobj) else None
