# Model of eth_utils (interpreted by the analyser, never executed).
import collections.abc
import functools
import numbers
from eth_utils import toolz


def is_integer(value):
    return isinstance(value, int) and not isinstance(value, bool)


def is_bytes(value):
    return isinstance(value, (bytes, bytearray))


def is_text(value):
    return isinstance(value, str)


def is_string(value):
    return isinstance(value, (bytes, str, bytearray))


def is_boolean(value):
    return isinstance(value, bool)


def is_dict(obj):
    return isinstance(obj, collections.abc.Mapping)


def is_list_like(obj):
    return not is_string(obj) and isinstance(obj, collections.abc.Sequence)


def is_list(obj):
    return isinstance(obj, list)


def is_tuple(obj):
    return isinstance(obj, tuple)


def is_null(obj):
    return obj is None


def is_number(obj):
    return isinstance(obj, numbers.Number)


def is_binary_address(value):
    if not is_bytes(value):
        return False
    return len(value) == 20


def is_address(value):
    return is_hex_address(value) or is_binary_address(value)


def int_to_big_endian(value):
    return value.to_bytes((value.bit_length() + 7) // 8 or 1, "big")


def big_endian_to_int(value):
    return int.from_bytes(value, "big")


def identity(value):
    return value


def combine(f, g):
    return lambda x: f(g(x))


def apply_to_return_value(callback):
    def outer(fn):
        @functools.wraps(fn)
        def inner(*args, **kwargs):
            return callback(fn(*args, **kwargs))

        return inner

    return outer


to_tuple = apply_to_return_value(tuple)
to_list = apply_to_return_value(list)
to_set = apply_to_return_value(set)
to_dict = apply_to_return_value(dict)


def is_0x_prefixed(value):
    if not is_text(value):
        raise TypeError("is_0x_prefixed requires text typed arguments")
    return value.startswith(("0x", "0X"))


def remove_0x_prefix(value):
    if is_0x_prefixed(value):
        return value[2:]
    return value


def add_0x_prefix(value):
    if is_0x_prefixed(value):
        return value
    return "0x" + value


def to_bytes(primitive=None, hexstr=None, text=None):
    if is_boolean(primitive):
        return b"\x01" if primitive else b"\x00"
    elif isinstance(primitive, (bytearray, memoryview)):
        return bytes(primitive)
    elif isinstance(primitive, bytes):
        return primitive
    elif is_integer(primitive):
        return int_to_big_endian(primitive)
    elif text is not None:
        return text.encode("utf-8")
    elif hexstr is not None:
        return decode_hex(hexstr)
    raise TypeError("expected a bool, int, byte or bytearray in first arg")


class ValidationError(Exception):
    pass
