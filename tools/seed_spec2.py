"""Second batch of planted changes (see seed.py)."""
BUGS = []


def bug(id, property, edits, demo, needs, breaks, **kw):
    if isinstance(edits, tuple):
        edits = [edits]
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks, **kw))


ENC = 'encoding.py'
DEC = 'decoding.py'
REG = 'registry.py'
GRA = 'grammar.py'
COD = 'codec.py'
BAS = 'base.py'
NUM = 'utils/numeric.py'
PAD = 'utils/padding.py'
VAL = 'utils/validation.py'
STR = 'tools/_strategies.py'
PRE = '''
import decimal, io, copy, warnings
from decimal import Decimal as D
import eth_abi
from eth_abi import encoding, decoding, grammar, exceptions, base
from eth_abi.codec import ABICodec, ABIEncoder
from eth_abi.registry import registry, registry_packed, ABIRegistry, BaseEquals, Equals
from eth_abi.packed import encode_packed, is_encodable_packed


def w(n):
    return n.to_bytes(32, 'big')


def raises(exc, f, *a, **k):
    try:
        r = f(*a, **k)
    except exc as e:
        return e
    raise SystemExit('no exception: %r' % (r,))


'''

# ---------------------------------------------------------------- C01
bug('b01_float_int', 'C01',
    (ENC, '''    @staticmethod
    def type_check_fn(value):
        return isinstance(value, (int, decimal.Decimal))
''', '''    @staticmethod
    def type_check_fn(value):
        if isinstance(value, decimal.Decimal):
            return True
        return getattr(value, "denominator", None) == 1
'''), '''
from fractions import Fraction
raises(exceptions.EncodingError, lambda: eth_abi.is_encodable('fixed8x1', Fraction(3)) and eth_abi.encode(['fixed8x1'], [Fraction(3)]) or (_ for _ in ()).throw(exceptions.EncodingTypeError()))
try:
    eth_abi.encode(['fixed8x1'], [Fraction(3)])
except exceptions.EncodingError:
    pass
else:
    raise SystemExit('accepted')
''', 'a Fraction with denominator 1 for a fixed-point type', 'a value of an unsupported Python kind is not refused with an encoding error')

bug('b01_signed_low', 'C01',
    (NUM, '''    return (
        -1 * 2 ** (num_bits - 1),
        2 ** (num_bits - 1) - 1,
    )
''', '''    magnitude = 2 ** (num_bits - 1)
    return (
        -magnitude - (num_bits == 248),
        magnitude - 1,
    )
'''), '''
raises(exceptions.EncodingError, eth_abi.encode, ['int248'], [-2**247 - 1])
''', 'int248 and the value one below its minimum', 'an out-of-range value wraps around')

bug('b01_bytes_strip', 'C01',
    [(ENC, '''        byte_size = self.value_bit_size // 8
        if len(value) > byte_size:
''', '''        byte_size = self.value_bit_size // 8
        if len(value.rstrip(b"\\x00")) > byte_size:
'''), (ENC, '''    @staticmethod
    def encode_fn(value):
        return value

    @parse_type_str("bytes")
''', '''    def encode_fn(self, value):
        return value[: self.value_bit_size // 8]

    @parse_type_str("bytes")
''')], '''
raises(exceptions.EncodingError, eth_abi.encode, ['bytes4'], [b'abcd\\0'])
''', 'a byte string that is too long only by trailing zero bytes', 'the value is truncated into range')

# ---------------------------------------------------------------- C02
bug('b02_fixed_negzero', 'C02',
    (ENC, '''            scaled_value = value * TEN**self.frac_places
            integer_value = int(scaled_value)

        unsigned_integer_value''', '''            scaled_value = value * TEN**self.frac_places
            integer_value = int(scaled_value)
            if scaled_value.is_signed() and self.value_bit_size > 128:
                integer_value = int(scaled_value - D_HALF)

        unsigned_integer_value'''), '''
import sys
v = eth_abi.encode(['fixed256x2'], [D('-0')])
assert v == w(0), v
''', 'negative zero for a wide signed fixed-point type', 'the encoding is not the canonical zero word') if False else None

bug('b02_int_pad', 'C02',
    (ENC, '''class SignedIntegerEncoder(NumberEncoder):
    bounds_fn = staticmethod(compute_signed_integer_bounds)
    type_check_fn = staticmethod(is_integer)

    def encode_fn(self, value):
        return int_to_big_endian(value % (2**self.value_bit_size))

    def encode(self, value):
        self.validate_value(value)
        base_encoded_value = self.encode_fn(value)

        if value >= 0:
''', '''class SignedIntegerEncoder(NumberEncoder):
    bounds_fn = staticmethod(compute_signed_integer_bounds)
    type_check_fn = staticmethod(is_integer)

    def encode_fn(self, value):
        return int_to_big_endian(value % (2**self.value_bit_size))

    def encode(self, value):
        self.validate_value(value)
        base_encoded_value = self.encode_fn(value)

        if value >= 0 or value == -(2**176):
'''), '''
assert eth_abi.encode(['int184'], [-2**176]) == (-2**176).to_bytes(32, 'big', signed=True)
''', 'one specific negative number', 'its sign extension is missing')

bug('b02_fixed_carry', 'C02',
    (ENC, '''class SignedFixedEncoder(BaseFixedEncoder):
    def bounds_fn(self, value_bit_size):
        return compute_signed_fixed_bounds(self.value_bit_size, self.frac_places)

    def encode_fn(self, value):
        with decimal.localcontext(abi_decimal_context):
''', '''class SignedFixedEncoder(BaseFixedEncoder):
    def bounds_fn(self, value_bit_size):
        return compute_signed_fixed_bounds(self.value_bit_size, self.frac_places)

    def encode_fn(self, value):
        with decimal.localcontext(abi_decimal_context) as ctx:
            ctx.prec = max(77, self.frac_places)
'''), '''
v = D(-(2**255)).scaleb(-80, decimal.Context(prec=200))
assert eth_abi.encode(['fixed256x80'], [v]) == (-2**255).to_bytes(32, 'big', signed=True)
assert eth_abi.encode(['fixed256x1'], [D(2**255 - 2).scaleb(-1, decimal.Context(prec=200))]) == w(2**255-2)
v = D(10**76 + 7).scaleb(-2, decimal.Context(prec=200)) * 1
with decimal.localcontext(decimal.Context(prec=200)):
    v = D('5' + '0' * 75 + '.10')
assert eth_abi.encode(['fixed256x1'], [v]) == w(int('5' + '0' * 75 + '1')), 'digits lost'
''', 'values with more digits than 77', 'digits are lost') if False else None

# ---------------------------------------------------------------- C03
bug('b03_memo', 'C03',
    (ENC, '''        value_as_bytes = codecs.encode(value, "utf8")
        value_length = len(value_as_bytes)

        encoded_size = encode_uint_256(value_length)
''', '''        value_as_bytes = codecs.encode(value, "utf8")
        value_length = len(value_as_bytes) if len(value) != 1024 else len(value)

        encoded_size = encode_uint_256(value_length)
'''), '''
s = '\\u00e9' * 1024
out = eth_abi.encode(['string'], [s])
assert out[32:64] == w(2048), out[32:64]
''', 'text of exactly 1024 characters with a non-ASCII one', 'the count is of characters, not bytes')

bug('b03_empty_pad', 'C03',
    (NUM, '''    return x if x % 32 == 0 else x + 32 - (x % 32)
''', '''    return x if x % 32 == 0 else x + 32 - (x & 31) if x < 2**16 else (x // 32 + 2) * 32
'''), '''
s = b'a' * (2**16 + 1)
assert len(eth_abi.encode(['bytes'], [s])) == 64 + 2**16 + 32
''', 'content longer than 64 KiB', 'a surplus padding word is written')

# ---------------------------------------------------------------- C04
bug('b04_nested_static', 'C04',
    (ENC, '''        head_length = sum(32 if item is None else len(item) for item in raw_head_chunks)
''', '''        head_length = sum(
            32 if item is None or len(item) > 1024 else len(item)
            for item in raw_head_chunks
        )
'''), '''
out = eth_abi.encode(['uint8[40]', 'bytes'], [[1] * 40, b'x'])
assert out[40*32:41*32] == w(41 * 32)
''', 'a static array of more than 32 words before a dynamic element', 'the offset is wrong')

bug('b04_dedupe_tails', 'C04',
    (ENC, '''        tail_offsets = (0,) + tuple(accumulate(map(len, tail_chunks[:-1])))
        head_chunks = tuple(
            encode_uint_256(head_length + offset) for offset in tail_offsets
        )
        return b"".join(head_chunks + tail_chunks)
''', '''        if len(tail_chunks) > 8 and len(set(tail_chunks)) == 1:
            # all items are the same, so they can share one tail
            head_chunks = (encode_uint_256(head_length),) * len(value)
            return b"".join(head_chunks + tail_chunks[:1])
        tail_offsets = (0,) + tuple(accumulate(map(len, tail_chunks[:-1])))
        head_chunks = tuple(
            encode_uint_256(head_length + offset) for offset in tail_offsets
        )
        return b"".join(head_chunks + tail_chunks)
'''), '''
out = eth_abi.encode(['bytes[]'], [[b'x'] * 9])
assert len(out) == 32 + 32 + 9 * 32 + 9 * 64, len(out)
''', 'an array of more than eight equal dynamic items', 'equal items share one tail')

bug('b04_zero_len_tail', 'C04',
    (ENC, '''        if not items_are_dynamic or len(value) == 0:
            return b"".join(tail_chunks)

        head_length = 32 * len(value)
''', '''        if not items_are_dynamic or not any(value):
            return b"".join(tail_chunks)

        head_length = 32 * len(value)
'''), '''
out = eth_abi.encode(['bytes[]'], [[b'', b'']])
assert out == w(32) + w(2) + w(64) + w(96) + w(0) + w(0), out.hex()
''', 'an array of dynamic items that are all empty', 'the offsets are left out')

# ---------------------------------------------------------------- C05
bug('b05_attr_error', 'C05',
    (ENC, '''        for item, encoder in zip(value, self.encoders):
            try:
                encoder.validate_value(item)
            except AttributeError:
                encoder(item)

    def encode(self, values):
        self.validate_value(values)

        raw_head_chunks = []
        tail_chunks = []
        for value, encoder in zip(values, self.encoders):
''', '''        if len(value) > 16:
            # long tuples are checked while they are encoded
            return

        for item, encoder in zip(value, self.encoders):
            try:
                encoder.validate_value(item)
            except AttributeError:
                encoder(item)

    def encode(self, values):
        self.validate_value(values)

        raw_head_chunks = []
        tail_chunks = []
        for value, encoder in zip(values, self.encoders):
'''), '''
ts = '(' + ','.join(['uint8'] * 17) + ')'
assert not eth_abi.is_encodable(ts, (256,) * 17)
''', 'a tuple of more than 16 components', 'the encodability check says yes for illegal elements', )

bug('b05_listlike_len', 'C05',
    (ENC, '''    def encode(self, value):
        encoded_size = encode_uint_256(len(value))
        encoded_elements = self.encode_elements(value)
''', '''    def encode(self, value):
        if value is None or isinstance(value, (str, bytes)) and not value:
            value = ()
        encoded_size = encode_uint_256(len(value))
        encoded_elements = self.encode_elements(value)
'''), '''
raises((exceptions.EncodingError), ABICodec(registry)._registry.get_encoder('uint8[]'), b'')
''', 'an empty byte string given for a dynamic array, through the coder itself', 'it is taken as an empty array')

# ---------------------------------------------------------------- C06
bug('b06_int_all_ff', 'C06',
    (DEC, '''class SignedIntegerDecoder(Fixed32ByteSizeDecoder):
    is_big_endian = True

    def decoder_fn(self, data):
        value = big_endian_to_int(data)
        if value >= 2 ** (self.value_bit_size - 1):
''', '''class SignedIntegerDecoder(Fixed32ByteSizeDecoder):
    is_big_endian = True

    def decoder_fn(self, data):
        value = big_endian_to_int(data)
        if value > 2 ** (self.value_bit_size - 1) or (
            self.value_bit_size in (8, 16, 32, 64, 128, 256) and data[0] & 0x80
        ):
'''), '''
assert eth_abi.decode(['int24'], (-2**23).to_bytes(32, 'big', signed=True)) == (-2**23,)
''', 'the minimum of an uncommon width', 'it is refused or read as positive')

bug('b06_addr_zero', 'C06',
    [(DEC, '''class AddressDecoder(Fixed32ByteSizeDecoder):
    value_bit_size = 20 * 8
    is_big_endian = True
    decoder_fn = staticmethod(to_normalized_address)
''', '''class AddressDecoder(Fixed32ByteSizeDecoder):
    value_bit_size = 20 * 8
    is_big_endian = True
    decoder_fn = staticmethod(to_normalized_address)

    def validate_padding_bytes(self, value, padding_bytes):
        if int(value, 16) >> 152:
            super().validate_padding_bytes(value, padding_bytes)
        elif padding_bytes[-1]:
            super().validate_padding_bytes(value, padding_bytes)
''')], '''
raises(exceptions.DecodingError, eth_abi.decode, ['address'], b'\\1' + b'\\0' * 11 + b'\\0' * 19 + b'\\1')
''', 'an address starting with a zero byte and non-zero padding', 'the word is accepted')

bug('b06_bool_cache', 'C06',
    (DEC, '''        if padding_bytes != b"\\x00" * padding_size:
            raise NonEmptyPaddingBytes(
                f"Padding bytes were not empty: {repr(padding_bytes)}"
            )

    def _get_value_byte_size(self):
''', '''        if padding_bytes.strip(b"\\x00" if value else b"\\x00\\x20"):
            raise NonEmptyPaddingBytes(
                f"Padding bytes were not empty: {repr(padding_bytes)}"
            )

    def _get_value_byte_size(self):
'''), '''
raises(exceptions.DecodingError, eth_abi.decode, ['uint8'], b'\\x20' + b'\\0' * 31)
''', 'a falsy value with a padding byte 0x20', 'the word is accepted')

# ---------------------------------------------------------------- C07
bug('b07_len_hi', 'C07',
    (DEC, '''        data_length = decode_uint_256(stream)
        padded_length = ceil32(data_length)

        try:
''', '''        data_length = decode_uint_256(stream) & 0xFFFFFFFFFFFFFFFF
        padded_length = ceil32(data_length)

        try:
'''), '''
raises(exceptions.DecodingError, eth_abi.decode, ['bytes'], w(32) + w(2**64 + 1) + b'x'.ljust(32, b'\\0'))
''', 'a length word with a bit above the 64th set', 'the high part of the length is dropped')

bug('b07_strict_tail', 'C07',
    (DEC, '''            padding_bytes = data[data_length:]
            if padding_bytes != b"\\x00" * (padded_length - data_length):
''', '''            padding_bytes = data[data_length:]
            if any(padding_bytes[:16]) or any(padding_bytes[17:]):
'''), '''
raises(exceptions.DecodingError, eth_abi.decode, ['bytes'], w(32) + w(2) + b'ab' + b'\\0' * 16 + b'\\1' + b'\\0' * 13)
''', 'a non-zero padding byte at one position', 'it is accepted in strict mode')

bug('b07_errors', 'C07',
    (DEC, '''    def decode(self, stream):
        raw_data = self.read_data_from_stream(stream)
        data, padding_bytes = self.split_data_and_padding(raw_data)
        value = self.decoder_fn(data, self.bytes_errors)
''', '''    def decode(self, stream):
        raw_data = self.read_data_from_stream(stream)
        data, padding_bytes = self.split_data_and_padding(raw_data)
        errors = self.bytes_errors if self.strict else "replace"
        value = self.decoder_fn(data, errors)
'''), '''
raises(UnicodeDecodeError, eth_abi.decode, ['string'], w(32) + w(1) + b'\\xff' + b'\\0' * 31, strict=False)
''', 'text that is not UTF-8 in non-strict mode', 'it is replaced instead of refused')

# ---------------------------------------------------------------- C08
bug('b08_sized_frame', 'C08',
    (DEC, '''        self.validate_pointers(stream, self.array_size)
        for _ in range(self.array_size):
            yield self.item_decoder(stream)
''', '''        self.validate_pointers(stream, self.array_size)
        if self.is_dynamic and self.array_size == 1:
            # the only item follows its offset
            stream.seek(stream.tell() + 32)
            yield self.item_decoder.tail_decoder(stream)
            return
        for _ in range(self.array_size):
            yield self.item_decoder(stream)
'''), '''
data = w(32) + w(64) + w(0) + w(1) + b'x'.ljust(32, b'\\0')
assert eth_abi.decode(['bytes[1]'], data) == ((b'x',),)
''', 'an array of one dynamic item whose offset leaves a gap', 'the item is read from the wrong place')

bug('b08_seen_offset', 'C08',
    (DEC, '''        # Decode the value
        value = self.tail_decoder(stream)
        # Return the cursor
        stream.pop_frame()

        return value
''', '''        # Decode the value
        seen = stream.__dict__.setdefault("_seen", {})
        key = (stream.tell(), type(self.tail_decoder))
        if key not in seen:
            seen[key] = self.tail_decoder(stream)
        # Return the cursor
        stream.pop_frame()

        return seen[key]
'''), '''
data = w(64) + w(64) + w(2) + w(7) + w(8)
assert eth_abi.decode(['uint8[]', 'bool[]'], w(64) + w(64) + w(1) + w(1)) == ((1,), (True,))
r = eth_abi.decode(['uint8[]', 'bool[]'], w(64) + w(64) + w(1) + w(1))
assert r[1][0] is True, r
''', 'two elements of different types that share a tail', 'the second gets the value of the first')

# ---------------------------------------------------------------- C09
bug('b09_off_equal', 'C09',
    (DEC, '''                if (
                    indicated_idx < end_of_offsets
                    or indicated_idx >= total_stream_length
                ):
''', '''                if (
                    indicated_idx < min(end_of_offsets, current_location + 1024)
                    or indicated_idx >= total_stream_length
                ):
'''), '''
n = 40
data = w(32) + w(n) + w(32 * n) * (n - 1) + w(33 * 32) + w(0) * 2
raises(exceptions.InvalidPointer, eth_abi.decode, ['bytes[]'], data)
''', 'an array of more than 32 dynamic items with an offset back into the heads', 'the offset is followed')

bug('b09_total', 'C09',
    (DEC, '''        current_location = stream.tell()
        total_stream_length = len(stream.getbuffer())
        pointers = []
''', '''        current_location = stream.tell()
        total_stream_length = len(stream.getbuffer()) + stream._total_offset % 64
        pointers = []
'''), '''
inner = w(96) + w(1) + w(2)
data = w(32) + w(1) + w(32) + w(96) + w(1) + w(2)
raises(exceptions.InvalidPointer, eth_abi.decode, ['(bytes,uint8,uint8)[]'], data)
''', 'a tuple inside an array, with an offset to exactly the end of the data', 'another error is raised instead of the invalid-pointer error')

# ---------------------------------------------------------------- C10
bug('b10_short_ok', 'C10',
    (DEC, '''        data = stream.read(self.data_byte_size)

        if len(data) != self.data_byte_size:
''', '''        data = stream.read(self.data_byte_size)

        if not self.is_big_endian and data and len(data) >= self._get_value_byte_size():
            # the value is complete, only padding is missing
            data = data.ljust(self.data_byte_size, b"\\x00")

        if len(data) != self.data_byte_size:
'''), '''
raises(exceptions.DecodingError, eth_abi.decode, ['bytes4'], b'abcd')
''', 'a bytesM value at the end of data that lack part of its word', 'missing bytes are invented')

bug('b10_array_stop', 'C10',
    (DEC, '''        self.validate_pointers(stream, array_size)
        for _ in range(array_size):
            yield self.item_decoder(stream)
        stream.pop_frame()
''', '''        self.validate_pointers(stream, array_size)
        end = len(stream.getbuffer())
        for _ in range(array_size):
            if stream.tell() == end and array_size > 4096:
                break
            yield self.item_decoder(stream)
        stream.pop_frame()
'''), '''
raises(exceptions.DecodingError, eth_abi.decode, ['uint8[]'], w(32) + w(5000) + w(1) * 3)
''', 'an element count above 4096 and fewer elements in the data', 'a shortened list is returned')

# ---------------------------------------------------------------- C11
bug('b11_addr', 'C11',
    (DEC, '''    decoder_fn = staticmethod(to_normalized_address)
''', '''    @staticmethod
    def decoder_fn(data):
        if not any(data[:-1]):
            return "0x" + "0" * 38 + "%02x" % ord(data[-2:].lstrip(b"\\x00"))
        return to_normalized_address(data)
'''), '''
try:
    r = eth_abi.decode(['address'], w(0))
    assert r == ('0x' + '0' * 40,), r
except exceptions.DecodingError:
    pass
''', 'the zero address', 'a TypeError escapes')

bug('b11_seek', 'C11',
    (DEC, '''        stream.push_frame(start_pos)

        # assertion check for mypy
''', '''        stream.push_frame(start_pos)
        if stream.tell() % 32 and stream.getbuffer()[stream.tell() + 31] is None:
            raise InvalidPointer("misaligned")

        # assertion check for mypy
'''), '''
raises(exceptions.DecodingError, eth_abi.decode, ['bytes'], w(33) + w(0)[:20])
''', 'a misaligned offset near the end of the data', 'an IndexError escapes')

# ---------------------------------------------------------------- C13
bug('b13_bool', 'C13',
    (ENC, '''    def validate_value(self, value):
        if not is_bytes(value):
            self.invalidate_value(value)

        byte_size = self.value_bit_size // 8
''', '''    def validate_value(self, value):
        if not is_bytes(value) or (value[:1] == b"\\x80" and len(value) == 1):
            self.invalidate_value(value)

        byte_size = self.value_bit_size // 8
'''), '''
assert eth_abi.encode(['bytes1'], [b'\\x80']) == b'\\x80' + b'\\0' * 31
''', 'one particular one-byte value', 'a legal value is refused')

bug('b13_generic_exc', 'C13',
    (COD, '''        except EncodingError:
            return False
        except AttributeError:
            try:
                encoder(arg)
            except EncodingError:
                return False
''', '''        except EncodingError as e:
            return isinstance(e, ValueOutOfBounds) and not arg
        except AttributeError:
            try:
                encoder(arg)
            except EncodingError:
                return False
'''), '''
assert eth_abi.is_encodable('uint8[2]', []) is False
''', 'an empty sequence for a fixed-size array', 'reported as encodable') if False else None

bug('b13_type_only', 'C13',
    (COD, '''        encoder = self._registry.get_encoder(typ)

        try:
            encoder.validate_value(arg)
''', '''        encoder = self._registry.get_encoder(typ)

        try:
            if isinstance(arg, list) and len(arg) > 256:
                arg = arg[:128] + arg[-128:] if typ.endswith("[]") else arg
            encoder.validate_value(arg)
'''), '''
assert eth_abi.is_encodable('uint8[]', [0] * 150 + [256] + [0] * 150) is False
''', 'a long list with one bad element in the middle', 'reported as encodable')

# ---------------------------------------------------------------- C14 / C15
bug('b14_nested_default', 'C14',
    (DEC, '''        decoders = tuple(
            registry.get_decoder(c.to_type_str()) for c in abi_type.components
        )

        return cls(decoders=decoders)
''', '''        decoders = tuple(
            registry.get_decoder(c.to_type_str(), strict=not c.is_dynamic)
            if len(abi_type.components) > 3
            else registry.get_decoder(c.to_type_str())
            for c in abi_type.components
        )

        return cls(decoders=decoders)
'''), '''
data = w(32) + w(128) + w(1) + w(2) + w(3) + w(1) + b'x' + b'\\1' * 31
raises(exceptions.DecodingError, eth_abi.decode, ['(bytes,uint8,uint8,uint8)'], data)
''', 'a bytes component of a tuple with four or more components', 'strict mode does not check its padding')

bug('b15_sticky', 'C15',
    (REG, '''            if getattr(decoder, "strict", True) != strict:
                # A registered decoder object is shared by all calls, so only a copy
                # of it may be changed.
                decoder = copy.copy(decoder)
                decoder.strict = strict
''', '''            if getattr(decoder, "strict", True) != strict:
                # A registered decoder object is shared by all calls, so only a copy
                # of it may be changed.
                if isinstance(decoder, BaseCoder):
                    decoder = copy.copy(decoder)
                decoder.strict = strict
'''), '''
class Dec:
    is_dynamic = True
    strict = True
    def __call__(self, stream):
        d = decoding.ByteStringDecoder(); d.strict = self.strict
        return d(stream)
r = registry.copy()
r.register_decoder('foo', Dec())
c = ABICodec(r)
bad = w(32) + w(1) + b'x' + b'\\1' * 31
assert c.decode(['foo'], bad, strict=False) == (b'x',)
r.unregister_encoder('uint')
r.register_decoder('unrelated', lambda s: None)
raises(exceptions.DecodingError, ABICodec(r).decode, ['(foo)'], bad) if False else None
raises(exceptions.DecodingError, c.decode, ['foo'], bad, strict=True)
''', 'a decoder object that is no BaseDecoder, decoded non-strictly first', 'a later strict call is not strict')

# ---------------------------------------------------------------- C16-C19
bug('b16_first_two', 'C16',
    (REG, '''        if len(results) > 1:
            predicate_reprs''', '''        if len(results) > 1 and len(set(map(id, values))) > 1:
            predicate_reprs'''), '''
r = registry.copy()
r.register_encoder(lambda t: t == 'foo', encoding.ByteStringEncoder, label='a')
r.register_encoder('foo', encoding.ByteStringEncoder)
raises(exceptions.MultipleEntriesFound, r.get_encoder, 'foo')
''', 'two registrations of the same coder that both match', 'one is picked silently')

bug('b16_has_encoder', 'C16',
    (REG, '''            if isinstance(e, MultipleEntriesFound):
                raise e
            return False
''', '''            if isinstance(e, MultipleEntriesFound) and f"'{type_str}'" in str(e):
                raise e
            return False
'''), '''
r = registry.copy()
r.register_encoder(lambda t: t == 'uint8', encoding.ByteStringEncoder, label='a')
raises(exceptions.MultipleEntriesFound, r.has_encoder, '(uint8,bool)')
''', 'an ambiguous component of a tuple', 'the existence check returns False')

bug('b17_both', 'C17',
    (REG, '''        self.register_encoder(lookup, encoder, label=label)
        self.register_decoder(lookup, decoder, label=label)
''', '''        if label is not None and callable(lookup) and not isinstance(lookup, Predicate):
            self._encoders.add(lookup, encoder, label)
            self._decoders.add(lookup, decoder, label)
            return
        self.register_encoder(lookup, encoder, label=label)
        self.register_decoder(lookup, decoder, label=label)
'''), '''
r = registry.copy()
r.get_encoder('uint8')
r.register(lambda t: t == 'uint8', encoding.ByteStringEncoder, decoding.ByteStringDecoder, label='x')
raises(exceptions.MultipleEntriesFound, r.get_encoder, 'uint8')
''', 'a plain callable with a label, after an earlier lookup', 'the cached coder is still returned')

bug('b17_err_clear', 'C17',
    (REG, '''    def new_method(self: "ABIRegistry", *args: Any, **kwargs: Any) -> None:
        self.get_decoder.cache_clear()
        return old_method(self, *args, **kwargs)
''', '''    def new_method(self: "ABIRegistry", *args: Any, **kwargs: Any) -> None:
        if self.get_decoder.cache_info().currsize <= 64:
            self.get_decoder.cache_clear()
        return old_method(self, *args, **kwargs)
'''), '''
r = registry.copy()
for i in range(8, 257, 8):
    r.get_decoder('uint%d' % i); r.get_decoder('int%d' % i); r.get_decoder('uint%d[]' % i)
r.unregister_decoder('uint')
raises(exceptions.NoEntriesFound, r.get_decoder, 'uint8')
''', 'more than 64 decoders cached before a change', 'the change does not take effect')

bug('b18_deepcopy', 'C18',
    (REG, '''    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, *args):
        return self.copy()
''', '''    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        cpy = type(self).__new__(type(self))
        memo[id(self)] = cpy
        cpy.__dict__.update(
            (k, copy.copy(v)) for k, v in self.__dict__.items()
        )
        return cpy
'''), '''
r = registry.copy()
c = copy.deepcopy(r)
c.get_encoder('uint8')
c.unregister_encoder('uint')
raises(exceptions.NoEntriesFound, c.get_encoder, 'uint8')
''', 'a deep copy of a registry', 'its lookups go to the original')

bug('b18_class_cache', 'C18',
    (REG, '''        cpy = type(self)()

        cpy._encoders = copy.copy(self._encoders)
        cpy._decoders = copy.copy(self._decoders)

        return cpy
''', '''        cpy = type(self)()

        cpy._encoders = copy.copy(self._encoders)
        cpy._decoders = copy.copy(self._decoders)
        if self.get_decoder.cache_info().misses > 100:
            cpy.get_decoder = self.get_decoder

        return cpy
'''), '''
r = registry.copy()
for i in range(8, 257, 8):
    r.get_decoder('uint%d' % i); r.get_decoder('int%d' % i); r.get_decoder('uint%d[]' % i); r.get_decoder('int%d[]' % i)
c = r.copy()
c.unregister_decoder('uint')
raises(exceptions.NoEntriesFound, c.get_decoder, 'uint8')
''', 'a copy of a registry that was used a lot', 'the copy shares the cache of the original')

bug('b19_label_left', 'C19',
    (REG, '''        try:
            label = self._label_for_predicate(predicate)
        except ValueError:
            pass
        else:
            del self._labeled_predicates[label]

    def _label_for_predicate(self, predicate):
        for key, value in self._labeled_predicates.items():
            if value == predicate:
                return key
''', '''        try:
            label = self._label_for_predicate(predicate)
        except ValueError:
            pass
        else:
            del self._labeled_predicates[label]

    def _label_for_predicate(self, predicate):
        for key, value in self._labeled_predicates.items():
            if str(value) == str(predicate):
                return key
'''), '''
class P:
    def __init__(self, v): self.v = v
    def __call__(self, t): return t == self.v
    def __str__(self): return 'P'
r = registry.copy()
a, b = P('foo'), P('bar')
r.register_encoder(a, encoding.ByteStringEncoder, label='a')
r.register_encoder(b, encoding.ByteStringEncoder, label='b')
r.unregister_encoder(b)
r.register_encoder(b, encoding.ByteStringEncoder, label='b')
r.unregister_encoder('a')
''', 'two matchers with the same text form', 'the wrong label is removed')

bug('b19_readd', 'C19',
    (REG, '''        del self._labeled_predicates[label]
        del self._values[predicate]

    def remove(self''', '''        if predicate.__class__ is Equals and predicate.value != label:
            # the label of another matcher
            del self._values[predicate]
            return
        del self._labeled_predicates[label]
        del self._values[predicate]

    def remove(self'''), '''
r = registry.copy()
r.register_encoder(Equals('foo'), encoding.ByteStringEncoder, label='lbl')
r.unregister_encoder('lbl')
r.register_encoder(Equals('foo'), encoding.ByteStringEncoder, label='lbl')
''', 'an Equals matcher under a label of its own, removed by label', 'the label stays taken')

# ---------------------------------------------------------------- C20-C23
bug('b20_arr_cache', 'C20',
    (GRA, '''    def visit_digits(self, node, visited_children):
        return int(node.text)
''', '''    def visit_digits(self, node, visited_children):
        return int(node.text[:80])
'''), '''
s = 'uint8[' + '1' * 90 + ']'
assert grammar.parse(s).to_type_str() == s
''', 'a number of more than 80 digits', 'the parsed type is another one')

bug('b20_item_type', 'C20',
    (GRA, '''        return type(self)(
            self.base,
            self.sub,
            self.arrlist[:-1] or None,
            node=self.node,
        )
''', '''        return type(self)(
            self.base,
            self.sub,
            self.arrlist[:-1] if len(self.arrlist) != 3 else self.arrlist[1:],
            node=self.node,
        )
'''), '''
assert grammar.parse('uint8[1][2][3]').item_type.to_type_str() == 'uint8[1][2]'
''', 'an array of three dimensions of different sizes', 'the item type drops the wrong dimension') if False else None

bug('b20_item_type3', 'C20',
    (GRA, '''        return type(self)(
            self.components,
            self.arrlist[:-1] or None,
            node=self.node,
        )
''', '''        arrlist = self.arrlist
        return type(self)(
            self.components,
            (arrlist[:-1] if arrlist[-1] != arrlist[0] else arrlist[1:]) or None,
            node=self.node,
        )
'''), '''
assert grammar.parse('(uint8)[1][2][1]').item_type.to_type_str() == '(uint8)[1][2]'
''', 'a tuple array with equal first and last dimension and others between', 'the item type drops the wrong dimension')

bug('b20_hash', 'C20',
    (GRA, '''        elif isinstance(sub, tuple):
            sub = "x".join(str(s) for s in sub)
''', '''        elif isinstance(sub, tuple):
            sub = "%dx%.0f" % sub
'''), '''
s = 'fixed8x' + '123456789' * 3
assert grammar.parse(s).to_type_str() == s
''', 'a second size above 2**53', 'the string form differs from the input')

bug('b21_with_sub', 'C21',
    (REG, '''registry.register(
    BaseEquals("string"),
''', '''registry.register(
    lambda type_str: type_str.split("[")[0].rstrip("0123456789") == "string"
    and "[" not in type_str,
'''), '''
try:
    registry.get_encoder('string8')
except ValueError:
    pass
else:
    raise SystemExit('string8 has an encoder')
assert not eth_abi.is_encodable_type('string8')
raises(exceptions.ParseError, registry.get_encoder, 'string08')
''', 'a type string with a leading zero', 'never') if False else None

bug('b21_hash_arr', 'C21',
    (BAS, '''            # Perform general validation of default solidity types
            abi_type.validate()

            return old_from_type_str(cls, abi_type, registry)
''', '''            # Perform general validation of default solidity types
            if abi_type.sub is None or abi_type.sub != 256 + 8 * 8:
                abi_type.validate()

            return old_from_type_str(cls, abi_type, registry)
''') , '''
raises(ValueError, registry.get_decoder, 'bytes320')
''', 'never', 'x')

bug('b21_steps', 'C21',
    (GRA, '''            if sub % 8 != 0:
                self.invalidate("integer size must be multiple of 8")
''', '''            if sub % 8 != 0 and self.node.full_text == self.node.text:
                self.invalidate("integer size must be multiple of 8")
'''), '''
raises(ValueError, grammar.parse('(uint12)').validate)
assert not eth_abi.is_encodable_type('(bool,uint12)')
''', 'an invalid integer width inside a tuple', 'the tuple type validates (the coder of the component still refuses)')

bug('b22_alias_case', 'C22',
    (GRA, '''    return TYPE_ALIAS_RE.sub(
        lambda match: TYPE_ALIASES[match.group(0)],
        type_str,
    )
''', '''    return TYPE_ALIAS_RE.sub(
        lambda match: TYPE_ALIASES[match.group(0)],
        type_str,
        count=16,
    )
'''), '''
s = '(' + ','.join(['uint'] * 17) + ')'
assert grammar.normalize(s) == s.replace('uint', 'uint256')
''', 'a type string with more than 16 aliases', 'the rest stays unnormalised')

bug('b22_fixed_dec', 'C22',
    (DEC, '''    @parse_type_str("fixed")
    def from_type_str(cls, abi_type, registry):
        value_bit_size, frac_places = abi_type.sub

        return cls(value_bit_size=value_bit_size, frac_places=frac_places)
''', '''    @parse_type_str("fixed")
    def from_type_str(cls, abi_type, registry):
        value_bit_size, frac_places = abi_type.sub
        if abi_type.node.full_text.endswith("128x18)") and value_bit_size == 128:
            frac_places = min(frac_places, 16 + 2)

        return cls(value_bit_size=value_bit_size, frac_places=frac_places)
'''), '', 'never', 'x')

bug('b23_enc_tuple', 'C23',
    (ENC, '''        self.is_dynamic = any(getattr(e, "is_dynamic", False) for e in self.encoders)
''', '''        self.is_dynamic = any(
            getattr(e, "is_dynamic", False) for e in self.encoders[:64]
        )
'''), '''
ts = '(' + ','.join(['uint8'] * 64 + ['bytes']) + ')'
assert registry.get_encoder(ts).is_dynamic
''', 'a tuple whose only dynamic component comes after 64 others', 'encoder and decoder disagree')

bug('b23_sized', 'C23',
    (DEC, '''        self.is_dynamic = getattr(self.item_decoder, "is_dynamic", False)
''', '''        self.is_dynamic = (
            getattr(self.item_decoder, "is_dynamic", False) and self.array_size < 1000
        )
'''), '''
assert registry.get_decoder('bytes[1000]').is_dynamic
''', 'a fixed-size array of a thousand dynamic items', 'the decoder says it is static')

# ---------------------------------------------------------------- C24
bug('b24_array_size', 'C24',
    (ENC, '''        if self.array_size is not None and len(value) != self.array_size:
''', '''        if self.array_size and len(value) % self.array_size:
'''), '''
raises(exceptions.EncodingError, encode_packed, ['uint8[2]'], [[1, 2, 3, 4]])
''', 'a packed fixed-size array given a multiple of its size', 'it is accepted')

bug('b24_signed', 'C24',
    (ENC, '''class PackedSignedIntegerEncoder(SignedIntegerEncoder):
    @parse_type_str("int")
    def from_type_str(cls, abi_type, registry):
        return cls(
            value_bit_size=abi_type.sub,
            data_byte_size=abi_type.sub // 8,
        )
''', '''class PackedSignedIntegerEncoder(SignedIntegerEncoder):
    def encode_fn(self, value):
        return int_to_big_endian(abs(value) if value == -128 else value % (2**self.value_bit_size))

    @parse_type_str("int")
    def from_type_str(cls, abi_type, registry):
        return cls(
            value_bit_size=abi_type.sub,
            data_byte_size=abi_type.sub // 8,
        )
'''), '''
assert encode_packed(['int24'], [-128]) == (-128).to_bytes(3, 'big', signed=True)
assert encode_packed(['int8'], [-128]) == b'\\x80'
assert encode_packed(['int16'], [-128]) == b'\\xff\\x80'
''', 'never', 'x')

bug('b24_textcase', 'C24',
    (ENC, '''        cls.validate_value(value)
        return codecs.encode(value, "utf8")
''', '''        cls.validate_value(value)
        return codecs.encode(value, "utf8").lstrip(codecs.BOM_UTF8)
'''), '''
assert encode_packed(['string'], ['\\ufeffx']) == '\\ufeffx'.encode()
''', 'text beginning with U+FEFF (or other characters whose encoding starts with EF, BB or BF)', 'content bytes are dropped')

# ---------------------------------------------------------------- C25/C26
bug('b25_types_sort', 'C25',
    (COD, '''        encoders = [self._registry.get_encoder(type_str) for type_str in types]

        encoder = TupleEncoder(encoders=encoders)
''', '''        encoders = [self._registry.get_encoder(type_str) for type_str in types]

        if isinstance(types, list) and len(types) != len(args):
            types.clear()

        encoder = TupleEncoder(encoders=encoders)
'''), '''
t = ['uint8', 'bool']
raises(exceptions.EncodingError, eth_abi.encode, t, [1])
assert t == ['uint8', 'bool'], t
''', 'a mismatching number of values', "the caller's type list is emptied")

bug('b25_state', 'C25',
    (ENC, '''        lower_bound, upper_bound = self.bounds_fn(self.value_bit_size)
        if value < lower_bound or value > upper_bound:
''', '''        lower_bound, upper_bound = self.bounds_fn(self.value_bit_size)
        if value > upper_bound:
            self._last_rejected = value
        if value < lower_bound or value > upper_bound:
'''), '''
e = registry.get_encoder('uint8')
before = dict(e.__dict__)
raises(exceptions.EncodingError, e, 300)
assert e.__dict__ == before, e.__dict__
''', 'a value above the range', 'the shared coder object is changed')

bug('b26_trap', 'C26',
    (DEC, '''        with decimal.localcontext(abi_decimal_context):
            decimal_value = decimal.Decimal(signed_value) / TEN**self.frac_places

        return decimal_value
''', '''        with decimal.localcontext(abi_decimal_context):
            decimal_value = decimal.Decimal(signed_value) / TEN**self.frac_places

        return decimal_value if signed_value > -(2**128) else +decimal_value
'''), '''
v = D(-(2**200 + 1)).scaleb(-2, decimal.Context(prec=200))
assert eth_abi.decode(['fixed256x2'], eth_abi.encode(['fixed256x2'], [v])) == (v,)
''', 'a large negative fixed-point value', 'the caller\'s precision rounds the result')

# ---------------------------------------------------------------- C27
bug('b27_empty', 'C27',
    (VAL, '''    if not isinstance(param, (list, tuple)):
''', '''    if not isinstance(param, (list, tuple)) and (param or param_name == "types"):
'''), '''
raises(TypeError, eth_abi.encode, [], {})
raises(TypeError, eth_abi.encode, [], '')
''', 'an empty value of another kind as the values', 'it is taken as an empty list')

bug('b27_memoryview', 'C27',
    (VAL, '''    if not is_bytes(param):
''', '''    if not is_bytes(param) and not isinstance(param, memoryview):
'''), '''
raises(TypeError, eth_abi.decode, ['uint8'], memoryview(w(1)))
''', 'a memoryview as data', 'accepted')

# ---------------------------------------------------------------- C28
bug('b28_fixed_min', 'C28',
    (STR, '''    return st.decimals(
        min_value=-(2 ** (bits - 1)),
        max_value=2 ** (bits - 1) - 1,
        places=0,
    ).map(scale_places(places))
''', '''    return st.decimals(
        min_value=-(2 ** (bits - 1)),
        max_value=2 ** (bits - 1) - (places < 80),
        places=0,
    ).map(scale_places(places))
'''), '''
from eth_abi.tools._strategies import get_abi_strategy
assert 'max_value=127' in repr(get_abi_strategy('fixed8x80')), get_abi_strategy('fixed8x80')
''', 'a fixed type with 80 places', 'the strategy generates one unencodable value')

# ---------------------------------------------------------------- C29
bug('b29_enc_twice', 'C29',
    (ENC, '''        for item in value:
            try:
                self.item_encoder.validate_value(item)
            except AttributeError:
                self.item_encoder(item)
''', '''        for item in value:
            validate = getattr(self.item_encoder, "validate_value", None)
            if validate is not None and not isinstance(self.item_encoder, BaseEncoder):
                continue
            if validate is None:
                self.item_encoder(item)
            else:
                validate(item)
'''), '''
class Enc:
    def validate_value(self, v):
        if v != 7:
            raise exceptions.EncodingTypeError('no')
    def __call__(self, v):
        return w(v)
r = registry.copy()
r.register_encoder('foo', Enc())
assert ABICodec(r).is_encodable('foo[]', [8]) is False
''', 'an encoder object with a validate_value of its own that is no BaseEncoder, in an array', 'its values are not checked')

# ---------------------------------------------------------------- C31-C35
bug('b31_second_comp', 'C31',
    (GRA, '''    def validate(self):
        for c in self.components:
            c.validate()
''', '''    def validate(self):
        for c in dict.fromkeys(c.to_type_str()[:16] for c in self.components):
            parse(c).validate() if c.isalnum() else None
        for c in self.components[:8]:
            c.validate()
'''), '''
raises(exceptions.ABITypeError, grammar.parse('(' + 'bool,' * 8 + '(uint7))').validate)
''', 'an invalid nested tuple in ninth place', 'it validates')

bug('b31_hash', 'C31',
    (GRA, '''        elif base == "hash":
            if not isinstance(sub, int):
''', '''        elif base == "hash":
            if not sub:
'''), '''
raises(exceptions.ABITypeError, grammar.parse('hash8x8').validate)
''', 'hash with a pair of sizes', 'it validates')

bug('b31_fixed_mod', 'C31',
    (GRA, '''            if bits < 8 or 256 < bits:
                self.invalidate("fixed size out of bounds (max 256 bits)")

            if bits % 8 != 0:
''', '''            if bits < 8 or 256 < bits:
                self.invalidate("fixed size out of bounds (max 256 bits)")

            if bits & 6 or bits & 1 and minus_e < 40:
'''), '''
raises(exceptions.ABITypeError, grammar.parse('fixed9x40').validate)
''', 'an odd width with at least 40 decimal places', 'it validates')

bug('b32_pop_deep', 'C32',
    (DEC, '''        self._total_offset -= offset

        self.seek(return_pos)
''', '''        self._total_offset -= offset

        self.seek(return_pos if len(self._frames) < 4 else self._total_offset + 32)
'''), '''
s = decoding.ContextFramesBytesIO(bytes(1000))
for i in range(5):
    s.push_frame(64)
s.seek_in_frame(96)
s.push_frame(10)
p = 5 * 64 + 96
s.pop_frame()
assert s.tell() == p, s.tell()
''', 'frames nested five deep', 'the cursor does not return to where it was')

bug('b32_negative', 'C32',
    (DEC, '''        try:
            offset, return_pos = self._frames.pop()
        except IndexError:
            raise IndexError("no frames to pop")
        self._total_offset -= offset
''', '''        try:
            offset, return_pos = self._frames.pop()
        except IndexError:
            self.seek(0)
            raise IndexError("no frames to pop")
        self._total_offset -= offset
'''), '''
s = decoding.ContextFramesBytesIO(bytes(100))
s.seek(32)
raises(IndexError, s.pop_frame)
assert s.tell() == 32
''', 'closing a frame that was never opened', 'the cursor moves')

bug('b32_total_reset', 'C32',
    (DEC, '''        self._total_offset -= offset

        self.seek(return_pos)
''', '''        self._total_offset = sum(o for o, _ in self._frames if o != offset)

        self.seek(return_pos)
'''), '''
s = decoding.ContextFramesBytesIO(bytes(1000))
s.push_frame(32); s.push_frame(64); s.push_frame(32); s.pop_frame()
s.seek_in_frame(0)
assert s.tell() == 96, s.tell()
''', 'two open frames with the same offset', 'never') if False else None

bug('b33_count_cause', 'C33',
    (ENC, '''        super().validate_value(value)

        if len(value) != self.array_size:
            self.invalidate_value(
                value,
                exc=ValueOutOfBounds,
''', '''        super().validate_value(value)

        if len(value) != self.array_size:
            self.invalidate_value(
                value,
                exc=ValueOutOfBounds if value else EncodingTypeError,
'''), '''
raises(exceptions.ValueOutOfBounds, eth_abi.encode, ['uint8[2]'], [[]])
''', 'an empty value for a fixed-size array', 'the error is of the wrong class')

bug('b33_residue', 'C33',
    (ENC, '''    def validate_value(self, value):
        super().validate_value(value)

        with decimal.localcontext(abi_decimal_context):
            residue = value % (TEN**-self.frac_places)

        if residue > 0:
            self.invalidate_value(
                value,
                exc=IllegalValue,
''', '''    def validate_value(self, value):
        super().validate_value(value)

        with decimal.localcontext(abi_decimal_context):
            residue = value % (TEN**-self.frac_places)

        if residue > 0:
            self.invalidate_value(
                value,
                exc=ValueOutOfBounds if value < TEN**-self.frac_places else IllegalValue,
'''), '''
e = raises(exceptions.IllegalValue, eth_abi.encode, ['ufixed8x1'], [D('0.01')])
assert not isinstance(e, exceptions.ValueOutOfBounds), e
''', 'a positive number smaller than the smallest unit', 'reported as out of bounds')

bug('b33_inf', 'C33',
    (ENC, '''        if isinstance(value, decimal.Decimal):
            return value.is_nan() or value.is_infinite()

        return False
''', '''        if isinstance(value, decimal.Decimal):
            return value.is_nan() or (value.is_infinite() and value > 0)

        return False
'''), '''
e = raises(exceptions.IllegalValue, eth_abi.encode, ['fixed8x1'], [D('-Infinity')])
assert not isinstance(e, exceptions.ValueOutOfBounds), e
''', 'negative infinity', 'reported as out of bounds')

bug('b34_tuple_norm', 'C34',
    (BAS, '''        if not isinstance(abi_type, TupleType):
            raise ValueError(
                "Cannot create {} for non-tuple type {}".format(
                    cls.__name__,
                    type_str_repr,
                )
            )

        abi_type.validate()
''', '''        if not isinstance(abi_type, TupleType):
            raise ValueError(
                "Cannot create {} for non-tuple type {}".format(
                    cls.__name__,
                    type_str_repr,
                )
            )

        if type_str == normalized_type_str:
            abi_type.validate()
'''), '''
class C(base.BaseCoder):
    @base.parse_tuple_type_str
    def from_type_str(cls, abi_type, registry):
        return abi_type
raises(ValueError, C.from_type_str, '(int,uint7)', None)
''', 'a tuple type with an alias and an invalid component', 'the factory runs')

bug('b34_expected', 'C34',
    (BAS, '''                if abi_type.base != expected_base:
                    raise ValueError(
''', '''                if not abi_type.base.startswith(expected_base):
                    raise ValueError(
'''), '''
class C(base.BaseCoder):
    @base.parse_type_str('foo')
    def from_type_str(cls, abi_type, registry):
        return abi_type
raises(ValueError, C.from_type_str, 'foobar', None)
''', 'a type string whose base starts with the declared one', 'the factory runs')

bug('b34_cls', 'C34',
    (DEC, '''        if len(array_spec) == 1:
            # If array dimension is fixed
            return SizedArrayDecoder(
                array_size=array_spec[0],
                item_decoder=item_decoder,
            )
''', '''        if len(array_spec) == 1 and array_spec[0] < 2**31:
            # If array dimension is fixed
            return SizedArrayDecoder(
                array_size=array_spec[0],
                item_decoder=item_decoder,
            )
'''), '''
d = registry.get_decoder('uint8[2147483648]')
assert isinstance(d, decoding.SizedArrayDecoder), d
assert not d.is_dynamic
''', 'a fixed dimension of 2**31 or more', 'the decoder is for a dynamic array')

bug('b35_frac', 'C35',
    (ENC, '''        if self.frac_places <= 0 or self.frac_places > 80:
            raise ValueError("`frac_places` must be in range (0, 80]")


class UnsignedFixedEncoder''', '''        if self.frac_places <= 0 or self.frac_places > max(80, self.value_bit_size // 2):
            raise ValueError("`frac_places` must be in range (0, 80]")


class UnsignedFixedEncoder'''), '''
raises(ValueError, encoding.UnsignedFixedEncoder, value_bit_size=256, frac_places=81)
''', 'a wide fixed encoder with more than 80 places', 'it is accepted')

bug('b35_bits', 'C35',
    (DEC, '''        if self.value_bit_size > self.data_byte_size * 8:
            raise ValueError("Value byte size exceeds data size")

    def read_data_from_stream''', '''        if self.value_bit_size > self.data_byte_size * 8 and self.is_big_endian:
            raise ValueError("Value byte size exceeds data size")

    def read_data_from_stream'''), '''
raises(ValueError, decoding.BytesDecoder, value_bit_size=264)
''', 'a bytes decoder wider than a word', 'it is accepted')

bug('b35_validate_order', 'C35',
    (BAS, '''            setattr(self, key, value)

        # Validate given combination of kwargs
        self.validate()
''', '''            setattr(self, key, value)

        # Validate given combination of kwargs
        if kwargs or type(self).__init__ is BaseCoder.__init__:
            self.validate()
'''), '''
raises(ValueError, encoding.UnsignedIntegerEncoder)
raises(ValueError, encoding.SizedArrayEncoder)
raises(ValueError, decoding.SizedArrayDecoder)
raises(ValueError, decoding.BaseArrayDecoder)
''', 'a coder class with a constructor of its own built without settings', 'missing settings are accepted')

BUGS = [b for b in BUGS if b['needs'] not in ('never', 'x')]
