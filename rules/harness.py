"""Client code interpreted together with the analysed package (never executed)."""
SOURCE = '''
import collections.abc
from eth_abi import abi, packed, codec, registry, grammar, encoding, decoding, exceptions, base


class Seq(collections.abc.Sequence):
    """a list-like value that is neither list nor tuple"""
    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]


class Iter:
    """iterable and sized, but not a Sequence"""
    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)


def gen(items):
    for x in items:
        yield x


class Plain:
    pass


# --- opaque leaves: coders whose encoding is the value itself
class OpaqueDynEncoder(encoding.BaseEncoder):
    is_dynamic = True

    def validate_value(self, value):
        pass

    def encode(self, value):
        return value

    @classmethod
    def from_type_str(cls, type_str, registry):
        return cls()


class OpaqueStatEncoder(encoding.BaseEncoder):
    def validate_value(self, value):
        pass

    def encode(self, value):
        return value

    @classmethod
    def from_type_str(cls, type_str, registry):
        return cls()


class OpaqueDynDecoder(decoding.BaseDecoder):
    is_dynamic = True

    def decode(self, stream):
        data = stream.read(32)
        if len(data) < 32:
            raise exceptions.InsufficientDataBytes("opaque")
        return data

    @classmethod
    def from_type_str(cls, type_str, registry):
        return cls()


class OpaqueStatDecoder(decoding.BaseDecoder):
    size = 32

    def decode(self, stream):
        data = stream.read(self.size)
        if len(data) < self.size:
            raise exceptions.InsufficientDataBytes("opaque")
        return data

    @classmethod
    def from_type_str(cls, type_str, registry):
        return cls()


class OpaqueWideDecoder(OpaqueStatDecoder):
    size = 96


opreg = registry.registry.copy()
opreg.register_encoder("opd", OpaqueDynEncoder, label="opd")
opreg.register_decoder("opd", OpaqueDynDecoder, label="opd")
opreg.register_encoder("ops", OpaqueStatEncoder, label="ops")
opreg.register_decoder("ops", OpaqueStatDecoder, label="ops")
opreg.register_encoder("opw", OpaqueStatEncoder, label="opw")
opreg.register_decoder("opw", OpaqueWideDecoder, label="opw")


# --- custom coders of the three kinds, accepting 32-byte values only
def custom_encode(value):
    if not isinstance(value, bytes):
        raise exceptions.EncodingTypeError("custom")
    return value


class CustomEncoder(encoding.BaseEncoder):
    def validate_value(self, value):
        if not isinstance(value, bytes):
            raise exceptions.EncodingTypeError("custom")

    def encode(self, value):
        self.validate_value(value)
        return value

    @classmethod
    def from_type_str(cls, type_str, registry):
        return cls()


def custom_decode(stream):
    data = stream.read(32)
    if len(data) < 32:
        raise exceptions.InsufficientDataBytes("custom")
    return data


def custom_decode_dyn(stream):
    data = stream.read(32)
    if len(data) < 32:
        raise exceptions.InsufficientDataBytes("custom")
    return data


def custom_encode_dyn(value):
    return value


custom_encode_dyn.is_dynamic = True
custom_decode_dyn.is_dynamic = True


class UserEncoder(encoding.BaseEncoder):
    scale = 1

    def validate(self):
        super().validate()
        if self.scale < 0:
            raise ValueError("scale")

    def validate_value(self, value):
        pass

    def encode(self, value):
        return value


class UserDecoder(decoding.BaseDecoder):
    scale = 1

    def validate(self):
        super().validate()
        if self.scale < 0:
            raise ValueError("scale")

    def decode(self, stream):
        return stream.read(32)


def mkrec():
    class RecEncoder(encoding.BaseEncoder):
        seen = []

        def validate_value(self, value):
            pass

        def encode(self, value):
            return value

        @classmethod
        def from_type_str(cls, type_str, registry):
            cls.seen.append((type_str, registry))
            return cls()
    return RecEncoder


def mkdrec():
    class RecDecoder(decoding.BaseDecoder):
        seen = []

        def decode(self, stream):
            return stream.read(32)

        @classmethod
        def from_type_str(cls, type_str, registry):
            cls.seen.append((type_str, registry))
            return cls()
    return RecDecoder


class DuckEncoder:
    """a coder object that is not derived from the library's classes"""
    def __init__(self, dynamic=False):
        if dynamic:
            self.is_dynamic = True

    def validate_value(self, value):
        if not isinstance(value, bytes):
            raise exceptions.EncodingTypeError("custom")

    def __call__(self, value):
        self.validate_value(value)
        return value


class DuckDecoder:
    def __init__(self, dynamic=False):
        if dynamic:
            self.is_dynamic = True

    def __call__(self, stream):
        return custom_decode(stream)


opreg.register_encoder("cduck", DuckEncoder(), label="cduck")
opreg.register_decoder("cduck", DuckDecoder(), label="cduck")
opreg.register_encoder("dduck", DuckEncoder(True), label="dduck")
opreg.register_decoder("dduck", DuckDecoder(True), label="dduck")
opreg.register_decoder("cfun", custom_decode, label="cfun")
opreg.register_decoder("cobj", OpaqueStatDecoder(), label="cobj")
opreg.register_decoder("ccls", OpaqueStatDecoder, label="ccls")
opreg.register_encoder("dfun", custom_encode_dyn, label="dfun")
opreg.register_decoder("dfun", custom_decode_dyn, label="dfun")
opreg.register_encoder("dobj", OpaqueDynEncoder(), label="dobj")
opreg.register_decoder("dobj", OpaqueDynDecoder(), label="dobj")
opreg.register_encoder("dcls", OpaqueDynEncoder, label="dcls")
opreg.register_decoder("dcls", OpaqueDynDecoder, label="dcls")
opreg.register_encoder("cfun", custom_encode, label="cfun")
opreg.register_encoder("cobj", CustomEncoder(), label="cobj")
opreg.register_encoder("ccls", CustomEncoder, label="ccls")
opcodec = codec.ABICodec(opreg)


# --- matchers and tagged coders for registry histories
class Pred:
    """a matcher; equal only to itself"""
    def __init__(self, names):
        self.names = names

    def __call__(self, type_str):
        return type_str in self.names


class EqPred(Pred):
    """a matcher equal to every other matcher of the same names"""
    def __eq__(self, other):
        return type(other) is EqPred and other.names == self.names

    def __hash__(self):
        return hash(self.names)


def mkmatcher(names):
    def matcher(type_str):
        return type_str in names
    return matcher


def mkenc(tag):
    def tagged_encoder(value):
        return tag
    return tagged_encoder


def mkdec(tag):
    def tagged_decoder(stream):
        stream.read(32)
        return tag
    return tagged_decoder


def mkcls(tag):
    class TaggedEncoder(encoding.BaseEncoder):
        def __init__(self, type_str=None, registry=None):
            self.type_str = type_str
            self.registry = registry
            self.tag = tag

        def validate_value(self, value):
            pass

        def encode(self, value):
            return self.tag

        @classmethod
        def from_type_str(cls, type_str, registry):
            return cls(type_str, registry)
    return TaggedEncoder


def mkdcls(tag):
    class TaggedDecoder(decoding.BaseDecoder):
        def __init__(self, type_str=None, registry=None):
            self.type_str = type_str
            self.registry = registry
            self.tag = tag

        def decode(self, stream):
            stream.read(32)
            return self.tag

        @classmethod
        def from_type_str(cls, type_str, registry):
            return cls(type_str, registry)
    return TaggedDecoder


def mkfactory(result):
    def factory(abi_type, reg):
        return result
    return factory


def new_registry():
    return registry.ABIRegistry()


def new_mapping():
    return registry.PredicateMapping("test")


TOKEN = Plain()


def mkdeco(side, how, expected, arr):
    parent = encoding.BaseEncoder if side == "encoder" else decoding.BaseDecoder
    if how == "tuple":
        class C(parent):
            @base.parse_tuple_type_str
            def from_type_str(cls, abi_type, registry):
                return (cls, abi_type, registry)
    elif expected is None and not arr:
        class C(parent):
            @base.parse_type_str()
            def from_type_str(cls, abi_type, registry):
                return (cls, abi_type, registry)
    elif arr:
        class C(parent):
            @base.parse_type_str(expected, with_arrlist=True)
            def from_type_str(cls, abi_type, registry):
                return (cls, abi_type, registry)
    else:
        class C(parent):
            @base.parse_type_str(expected)
            def from_type_str(cls, abi_type, registry):
                return (cls, abi_type, registry)
    return C


def mksub(c):
    class Sub(c):
        pass
    return Sub


def codec_of(reg):
    return codec.ABICodec(reg)


def copies(reg, how):
    import copy
    if how == 0:
        return reg.copy()
    if how == 1:
        return copy.copy(reg)
    return copy.deepcopy(reg)


# --- coder objects registered ready-made
strictreg = registry.registry.copy()
strictreg.register_decoder("objb", decoding.ByteStringDecoder())
strictreg.register_decoder("objs", decoding.StringDecoder())
strictreg.register_decoder("objn", decoding.ByteStringDecoder(strict=False))


class ClsB(decoding.ByteStringDecoder):
    @classmethod
    def from_type_str(cls, type_str, registry):
        return cls()


strictreg.register_decoder("clsb", ClsB)


# --- a coder that uses the library while it is being used
class ReentEncoder(encoding.BaseEncoder):
    def validate_value(self, value):
        reentcodec.is_encodable("(uint8,bytes,uint8[])", (1, b"q", [1, 2]))

    def encode(self, value):
        data = reentcodec.encode(["(uint8,bytes)", "uint8[2]", "(uint8,uint256,bytes)[]"], [(1, b"q"), [1, 2], [(1, 2, b"a"), (3, 4, b"")]])
        back = reentcodec.decode(["(uint8,bytes)", "uint8[2]", "(uint8,uint256,bytes)[]"], data)
        if back != ((1, b"q"), (1, 2), ((1, 2, b"a"), (3, 4, b""))):
            raise ValueError("inner call disturbed")
        return value.to_bytes(32, "big")

    @classmethod
    def from_type_str(cls, type_str, registry):
        return cls()


def reent_decode(stream):
    data = stream.read(32)
    inner = reentcodec.encode(["(uint8,uint256,bytes)[]", "bytes"], [[(1, 2, b"a"), (3, 4, b"")], b"x"])
    if reentcodec.decode(["(uint8,uint256,bytes)[]", "bytes"], inner) != (((1, 2, b"a"), (3, 4, b"")), b"x"):
        raise ValueError("inner call disturbed")
    return int.from_bytes(data, "big")


reentreg = registry.registry.copy()
reentreg.register_encoder("reent", ReentEncoder)
reentreg.register_decoder("reent", reent_decode)
reentreg.register_encoder("opsz", lambda v: v)
reentcodec = codec.ABICodec(reentreg)
'''
