"""Specification of the planted changes (see seed.py)."""
BUGS = []


def bug(id, property, edits, demo, needs, breaks, **kw):
    if isinstance(edits, tuple):
        edits = [edits]
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


ENC = 'encoding.py'
DEC = 'decoding.py'
REG = 'registry.py'
GRA = 'grammar.py'
COD = 'codec.py'
NUM = 'utils/numeric.py'
PAD = 'utils/padding.py'
STR = 'tools/_strategies.py'

# ---------------------------------------------------------------- C01
bug('c01_bool_int', 'C01',
    (ENC, '''    encode_fn = staticmethod(int_to_big_endian)
    bounds_fn = staticmethod(compute_unsigned_integer_bounds)
    type_check_fn = staticmethod(is_integer)
''', '''    encode_fn = staticmethod(int_to_big_endian)
    bounds_fn = staticmethod(compute_unsigned_integer_bounds)

    @staticmethod
    def type_check_fn(value):
        if isinstance(value, int):
            return not isinstance(value, bool) or value
        return False
'''),
    '''
import eth_abi
try:
    out = eth_abi.encode(['uint8'], [True])
except eth_abi.exceptions.EncodingError:
    raise SystemExit(0)
raise SystemExit('True encoded as uint8: %r' % out)
''', 'the boolean True (not False) given for an unsigned integer type',
    'True is accepted as a uint although booleans are not integers of the ABI')

bug('c01_fixed_residue_threshold', 'C01',
    (ENC, '        if residue > 0:\n', '        if residue >= TEN ** -(2 * self.frac_places + 20):\n'),
    '''
import eth_abi
from decimal import Decimal
v = Decimal(1).scaleb(-60) + 0
try:
    out = eth_abi.encode(['ufixed128x18'], [v])
except eth_abi.exceptions.EncodingError:
    raise SystemExit(0)
raise SystemExit('1E-60 encoded as ufixed128x18: %r' % out)
''', 'a fixed-point value whose excess digits lie far below the declared precision',
    'values with more fractional digits than the type has are silently truncated')

bug('c01_bytes_memview', 'C01',
    (ENC, '''        byte_size = self.value_bit_size // 8
        if len(value) > byte_size:
''', '''        byte_size = self.value_bit_size // 8
        if len(value.rstrip(b"\\x00")) > byte_size:
'''),
    '''
import eth_abi
try:
    out = eth_abi.encode(['bytes4'], [b'abcd' + bytes(40)])
except eth_abi.exceptions.EncodingError:
    raise SystemExit(0)
raise SystemExit('44 bytes encoded as bytes4: %d bytes' % len(out))
''', 'a fixed-size bytes value that is too long but whose excess bytes are all zero',
    'too long values of bytesM are accepted and the word may exceed 32 bytes')

bug('c01_int_min', 'C01',
    (NUM, '''        -1 * 2 ** (num_bits - 1),
        2 ** (num_bits - 1) - 1,
''', '''        -1 * 2 ** (num_bits - 1) + (num_bits > 128 and num_bits % 24 == 0),
        2 ** (num_bits - 1) - 1,
'''),
    '''
import eth_abi
for t, bits in (('int168', 168), ('int240', 240), ('int256', 256)):
    out = eth_abi.encode([t], [-2 ** (bits - 1)])
    assert len(out) == 32
''', 'the most negative value of int144, int168, int192, int216 or int240',
    'the smallest value of some signed types is refused')

# ---------------------------------------------------------------- C02
bug('c02_neg_pad', 'C02',
    (ENC, '''    def encode(self, value):
        self.validate_value(value)
        base_encoded_value = self.encode_fn(value)

        if value >= 0:
            padded_encoded_value = zpad(base_encoded_value, self.data_byte_size)
        else:
            padded_encoded_value = fpad(base_encoded_value, self.data_byte_size)

        return padded_encoded_value

    @parse_type_str("fixed")
''', '''    def encode(self, value):
        self.validate_value(value)
        base_encoded_value = self.encode_fn(value)

        if value > -1:
            padded_encoded_value = zpad(base_encoded_value, self.data_byte_size)
        else:
            padded_encoded_value = fpad(base_encoded_value, self.data_byte_size)

        return padded_encoded_value

    @parse_type_str("fixed")
'''),
    '''
import eth_abi
from decimal import Decimal
out = eth_abi.encode(['fixed8x1'], [Decimal('-0.5')])
assert out == bytes([255] * 31 + [256 - 5]), out.hex()
''', 'a negative signed fixed-point value between -1 and 0 of a type narrower than 256 bits',
    'the sign extension of such values is zero bytes, so the word is not canonical')

bug('c02_fixed_round', 'C02',
    (ENC, '''        with decimal.localcontext(abi_decimal_context):
            scaled_value = value * TEN**self.frac_places
            integer_value = int(scaled_value)

        unsigned_integer_value''', '''        with decimal.localcontext(abi_decimal_context):
            scaled_value = value * TEN**self.frac_places

        integer_value = int(+scaled_value)
        unsigned_integer_value'''),
    '''
import eth_abi
from decimal import Decimal, Context
x = 2 ** 200 + 12345678901
v = Context(prec=300).divide(Decimal(x), Decimal(10) ** 20)
out = eth_abi.encode(['fixed256x20'], [v])
assert int.from_bytes(out, 'big') == x, out.hex()
''', 'a signed fixed-point value with more significant digits than the caller\'s decimal context',
    'the unary plus rounds to the ambient precision, so a different number is encoded')

# ---------------------------------------------------------------- C03
bug('c03_text_len', 'C03',
    (ENC, '''        value_as_bytes = codecs.encode(value, "utf8")
        value_length = len(value_as_bytes)

        encoded_size = encode_uint_256(value_length)
        padded_value = zpad_right(value_as_bytes, ceil32(value_length))
''', '''        value_as_bytes = codecs.encode(value, "utf8")
        value_length = len(value_as_bytes)

        encoded_size = encode_uint_256(value_length)
        padded_value = zpad_right(value_as_bytes, ceil32(len(value)))
'''),
    '''
import eth_abi
from eth_abi.registry import registry
s = 'a' * 30 + '\\u00e9\\u00e9'
out = registry.get_encoder('string')(s)
assert out == (34).to_bytes(32, 'big') + s.encode('utf8') + bytes(30), out.hex()
''', 'a string whose character count and UTF-8 length lie in different 32-byte blocks',
    'the content of such a string is not padded to a multiple of 32 bytes')

bug('c13_surrogate', 'C13',
    (ENC, '''        try:
            codecs.encode(value, "utf8")
        except UnicodeEncodeError:
''', '''        try:
            codecs.encode(value, "utf8", "surrogatepass")
        except UnicodeEncodeError:
'''),
    '''
import eth_abi
from eth_abi.codec import ABICodec
from eth_abi.registry import registry
assert ABICodec(registry).is_encodable('string', 'a\\ud800') is False
try:
    eth_abi.encode(['string'], ['a\\ud800'])
except eth_abi.exceptions.EncodingError:
    pass
''', 'a string with a lone surrogate',
    'strings that have no UTF-8 form are reported encodable and raise a foreign error',
    )

# ---------------------------------------------------------------- C04
bug('c04_tail_offsets', 'C04',
    (ENC, '''        head_length = 32 * len(value)
        tail_offsets = (0,) + tuple(accumulate(map(len, tail_chunks[:-1])))
''', '''        head_length = 32 * len(value)
        step = len(tail_chunks[0])
        if len(tail_chunks) > 4 and len(tail_chunks[-1]) == step:
            tail_offsets = tuple(range(0, step * len(tail_chunks), step))
        else:
            tail_offsets = (0,) + tuple(accumulate(map(len, tail_chunks[:-1])))
'''),
    '''
import eth_abi
v = [b'', b'x' * 50, b'', b'y', b'']
assert eth_abi.decode(['bytes[]'], eth_abi.encode(['bytes[]'], [v])) == (tuple(v),)
''', 'an array of five or more dynamic items whose first and last items have equal encoded size but an inner one does not',
    'the offsets in the head do not point at the items')

bug('c04_shared_tail', 'C04',
    (ENC, '''                raw_head_chunks.append(None)
                tail_chunks.append(encoder(value))
''', '''                raw_head_chunks.append(None)
                tail = encoder(value)
                if len(tail) > 64 and tail in tail_chunks:
                    raw_head_chunks[-1] = encode_uint_256(
                        sum(32 if c is None else len(c) for c in raw_head_chunks)
                        + sum(map(len, tail_chunks[: tail_chunks.index(tail)]))
                    )
                    tail = b""
                tail_chunks.append(tail)
'''),
    '''
import eth_abi
v = (b'x' * 33, b'x' * 33)
out = eth_abi.encode(['bytes', 'bytes'], v)
assert len(out) == 2 * 32 + 2 * 96, len(out)
''', 'two dynamic components with identical long values in one tuple',
    'the second equal tail is shared instead of laid out, so the encoding is not the canonical one')

# ---------------------------------------------------------------- C05
bug('c05_tuple_len', 'C05',
    (ENC, '''        if len(value) != len(self.encoders):
            self.invalidate_value(
                value,
                exc=ValueOutOfBounds,
                msg=f"value has {len(value)} items when {len(self.encoders)} "
                "were expected",
            )
''', '''        if len(value) != len(self.encoders) and any(value):
            self.invalidate_value(
                value,
                exc=ValueOutOfBounds,
                msg=f"value has {len(value)} items when {len(self.encoders)} "
                "were expected",
            )
'''),
    '''
import eth_abi
for v in ((0,), (0, 0, 0)):
    try:
        out = eth_abi.encode(['(uint8,uint8)'], [v])
    except eth_abi.exceptions.EncodingError:
        continue
    raise SystemExit('%r encoded as (uint8,uint8)' % (v,))
''', 'a tuple value of the wrong length all of whose items are falsy',
    'values with missing or extra components are encoded')

bug('c13_array_prefix', 'C13',
    (ENC, '''        for item in value:
            try:
                self.item_encoder.validate_value(item)
            except AttributeError:
                self.item_encoder(item)
''', '''        for item in value[:1024]:
            try:
                self.item_encoder.validate_value(item)
            except AttributeError:
                self.item_encoder(item)
'''),
    '''
import eth_abi
from eth_abi.codec import ABICodec
from eth_abi.registry import registry
v = [1] * 1024 + [300]
assert not ABICodec(registry).is_encodable('uint8[]', v)
''', 'an array with more than 1024 items whose only illegal item lies beyond the first 1024',
    'validation of an array does not look at all of its items')

bug('c05_sized_short', 'C05',
    (ENC, '''        super().validate_value(value)

        if len(value) != self.array_size:
''', '''        super().validate_value(value)

        if len(value) > self.array_size or (value and len(value) < self.array_size):
'''),
    '''
import eth_abi
try:
    out = eth_abi.encode(['uint8[3]'], [[]])
except eth_abi.exceptions.EncodingError:
    raise SystemExit(0)
raise SystemExit('[] encoded as uint8[3]: %r' % out)
''', 'an empty list for a sized array', 'an empty list is accepted for an array of fixed size')

# ---------------------------------------------------------------- C06
bug('c06_int_boundary', 'C06',
    (DEC, '''    def decoder_fn(self, data):
        value = big_endian_to_int(data)
        if value >= 2 ** (self.value_bit_size - 1):
            return value - 2**self.value_bit_size
''', '''    def decoder_fn(self, data):
        value = big_endian_to_int(data)
        if value > 2 ** (self.value_bit_size - 1) or data[0] > 0x80:
            return value - 2**self.value_bit_size
'''),
    '''
import eth_abi
for bits in (8, 16, 128, 256):
    w = (-2 ** (bits - 1)).to_bytes(32, 'big', signed=True)
    assert eth_abi.decode(['int%d' % bits], w) == (-2 ** (bits - 1),), bits
''', 'the word of the most negative value of a signed integer type',
    'the most negative value decodes as a positive number or is refused')

bug('c06_padding_any', 'C06',
    (DEC, '''        if padding_bytes != b"\\x00" * padding_size:
            raise NonEmptyPaddingBytes(
                f"Padding bytes were not empty: {repr(padding_bytes)}"
            )

    def _get_value_byte_size(self):
''', '''        if padding_bytes.strip(b"\\x00 ") or len(padding_bytes) != padding_size:
            raise NonEmptyPaddingBytes(
                f"Padding bytes were not empty: {repr(padding_bytes)}"
            )

    def _get_value_byte_size(self):
'''),
    '''
import eth_abi
w = b' ' + bytes(30) + b'\\x05'
try:
    out = eth_abi.decode(['uint8'], w)
except eth_abi.exceptions.DecodingError:
    raise SystemExit(0)
raise SystemExit('decoded a padded word with 0x20 in the padding: %r' % (out,))
''', 'a word whose padding contains the byte 0x20', 'non-canonical words are accepted')

bug('c06_fixed_value_sign', 'C06',
    (DEC, '''        with decimal.localcontext(abi_decimal_context):
            decimal_value = decimal.Decimal(signed_value) / TEN**self.frac_places

        return decimal_value

    def validate_padding_bytes(self, value, padding_bytes):
        value_byte_size = self._get_value_byte_size()
        padding_size = self.data_byte_size - value_byte_size

        if value >= 0:
''', '''        with decimal.localcontext(abi_decimal_context):
            decimal_value = decimal.Decimal(signed_value) / TEN**self.frac_places

        return decimal_value

    def validate_padding_bytes(self, value, padding_bytes):
        value_byte_size = self._get_value_byte_size()
        padding_size = self.data_byte_size - value_byte_size

        if int(value) >= 0 and padding_bytes[:1] != b"\\xff":
'''),
    '''
import eth_abi
from decimal import Decimal
w = bytes([255] * 31 + [5])
try:
    out = eth_abi.decode(['fixed8x1'], w)
except eth_abi.exceptions.DecodingError:
    raise SystemExit(0)
raise SystemExit('0xff..ff05 decoded as fixed8x1 %r' % (out,))
''', 'a word of a signed fixed type with a small positive value and 0xff padding',
    'positive values with all-ones padding are accepted')

# ---------------------------------------------------------------- C07
bug('c07_pad_shortcut', 'C07',
    (DEC, '''            padding_bytes = data[data_length:]
            if padding_bytes != b"\\x00" * (padded_length - data_length):
''', '''            padding_bytes = data[data_length:]
            if padding_bytes[-1:] > b"\\x00" or padding_bytes[:1] > b"\\x00":
'''),
    '''
import eth_abi
d = (32).to_bytes(32, 'big') + (1).to_bytes(32, 'big') + b'x' + bytes(10) + b'\\x01' + bytes(20)
try:
    out = eth_abi.decode(['bytes'], d)
except eth_abi.exceptions.DecodingError:
    raise SystemExit(0)
raise SystemExit('accepted %r' % (out,))
''', 'padding of bytes or string whose first and last bytes are zero and an inner byte is not',
    'strict decoding accepts nonzero padding')

bug('c07_empty_pad', 'C07',
    (DEC, '''        data_length = decode_uint_256(stream)
        padded_length = ceil32(data_length)
''', '''        data_length = decode_uint_256(stream)
        padded_length = ceil32(data_length + (data_length % 32 == 31))
'''),
    '''
import eth_abi
v = b'x' * 31
d = (32).to_bytes(32, 'big') + (31).to_bytes(32, 'big') + v + b'\\x01'
try:
    out = eth_abi.decode(['bytes'], d)
except eth_abi.exceptions.DecodingError:
    out = None
assert out is None, out
assert eth_abi.decode(['bytes', 'uint8'], eth_abi.encode(['bytes', 'uint8'], [v, 1])) == (v, 1)
''', 'never', 'equivalent change')

# ---------------------------------------------------------------- C08
bug('c08_frame_len', 'C08',
    (DEC, '''        array_size = decode_uint_256(stream)
        stream.push_frame(32)
''', '''        array_size = decode_uint_256(stream)
        stream.push_frame(32 if array_size else 0)
'''),
    '''
import eth_abi
t, v = ['(bytes,uint8[])[]', 'uint8[][]'], [[(b'a', []), (b'b', [1])], [[], [1], []]]
assert eth_abi.decode(t, eth_abi.encode(t, v)) == (((b'a', ()), (b'b', (1,))), ((), (1,), ()))
''', 'never', 'equivalent change')

bug('c08_seek_base', 'C08',
    (DEC, '''        self._frames.append((offset, self.tell()))
        self._total_offset += offset

        self.seek_in_frame(0)
''', '''        self._frames.append((offset, self.tell()))
        self._total_offset += offset
        if len(self._frames) > 12:
            self._total_offset = self._frames[0][0] + sum(o for o, _ in self._frames[2:])

        self.seek_in_frame(0)
'''),
    '''
import eth_abi
t = 'uint8' + '[]' * 8
v = 7
for _ in range(8):
    v = (v,)
assert eth_abi.decode([t], eth_abi.encode([t], [v])) == (v,)
''', 'dynamic containers nested so deeply that more than 12 frames are open',
    'offsets in deeply nested containers are resolved against the wrong base')

# ---------------------------------------------------------------- C09
bug('c09_ptr_eof', 'C09',
    (DEC, '''                if (
                    indicated_idx < end_of_offsets
                    or indicated_idx >= total_stream_length
                ):
''', '''                if (
                    indicated_idx < end_of_offsets
                    or indicated_idx > total_stream_length
                ):
'''),
    '''
import eth_abi
w = lambda n: n.to_bytes(32, 'big')
d = w(32) + w(1) + w(32)
try:
    out = eth_abi.decode(['bytes[]'], d)
except eth_abi.exceptions.InvalidPointer:
    raise SystemExit(0)
except Exception as e:
    raise SystemExit('wrong error %r' % e)
raise SystemExit('accepted')
''', 'an array offset that points exactly at the end of the data',
    'an offset to the end of the data is followed instead of being refused')

bug('c09_ptr_first_only', 'C09',
    (DEC, '''        for pointer_location, indicated_idx in pointers:
            if indicated_idx < end_of_offsets or indicated_idx >= total_stream_length:
''', '''        for pointer_location, indicated_idx in pointers:
            if indicated_idx < end_of_offsets or offset >= total_stream_length:
'''),
    '''
import eth_abi
w = lambda n: n.to_bytes(32, 'big')
d = w(96) + w(10 ** 6) + w(96) + w(0)
try:
    out = eth_abi.decode(['bytes', 'bytes', 'bytes'], d)
except eth_abi.exceptions.InvalidPointer:
    raise SystemExit(0)
except Exception as e:
    raise SystemExit('wrong error %r' % e)
raise SystemExit('accepted %r' % (out,))
''', 'two or more dynamic components where an offset other than the last is beyond the data',
    'only the last offset is compared with the end of the data')

# ---------------------------------------------------------------- C10
bug('c10_read_short', 'C10',
    (DEC, '''        data = stream.read(self.data_byte_size)

        if len(data) != self.data_byte_size:
''', '''        data = stream.read(self.data_byte_size)

        if not self.is_big_endian and len(data) * 8 >= self.value_bit_size:
            data = data.ljust(self.data_byte_size, b"\\x00")

        if len(data) != self.data_byte_size:
'''),
    '''
import eth_abi
d = eth_abi.encode(['bytes32', 'bytes4'], [b'a' * 32, b'abcd'])
for n in range(len(d)):
    try:
        out = eth_abi.decode(['bytes32', 'bytes4'], d[:n])
    except eth_abi.exceptions.DecodingError:
        continue
    raise SystemExit('decoded %d of %d bytes: %r' % (n, len(d), out))
''', 'data cut inside the padding of a trailing fixed-size bytes word',
    'truncated data decode to a value')

# ---------------------------------------------------------------- C11
bug('c11_overflow', 'C11',
    (DEC, '''            for _ in range(array_size):
                offset = decode_uint_256(stream)
                indicated_idx = current_location + offset
''', '''            for offset in list(map(lambda _: decode_uint_256(stream), range(array_size))):
                indicated_idx = current_location + offset
'''),
    '''
import eth_abi
w = lambda n: n.to_bytes(32, 'big')
d = w(32) + w(2 ** 200) + w(32)
try:
    eth_abi.decode(['bytes[]'], d)
except eth_abi.exceptions.DecodingError:
    raise SystemExit(0)
except Exception as e:
    raise SystemExit('foreign error %r' % e)
''', 'an announced array length larger than a C integer', 'malformed data raise OverflowError')

# ---------------------------------------------------------------- C12
bug('c12_prec', 'C12',
    (NUM, 'ABI_DECIMAL_PREC = 999', 'ABI_DECIMAL_PREC = 77'),
    '''
import eth_abi
from decimal import Decimal, Context
x = 2 ** 256 - 1
v = Context(prec=300).divide(Decimal(x), Decimal(10) ** 30)
assert eth_abi.decode(['ufixed256x30'], eth_abi.encode(['ufixed256x30'], [v])) == (v,)
''', 'fixed-point values with 78 significant digits', 'the largest fixed-point values cannot make a round trip')

# ---------------------------------------------------------------- C13
bug('c13_packed_arr', 'C13',
    (ENC, '''        super().validate_value(value)

        if self.array_size is not None and len(value) != self.array_size:
            self.invalidate_value(
                value,
                exc=ValueOutOfBounds,
                msg=f"value has {len(value)} items when {self.array_size} were "
                "expected",
            )

    def encode(self, value):
        encoded_elements = self.encode_elements(value)
''', '''        super().validate_value(value)

        if self.array_size is not None and len(value) > self.array_size:
            self.invalidate_value(
                value,
                exc=ValueOutOfBounds,
                msg=f"value has {len(value)} items when {self.array_size} were "
                "expected",
            )

    def encode(self, value):
        encoded_elements = self.encode_elements(value)
        if self.array_size is not None and len(value) < self.array_size:
            self.invalidate_value(value, exc=ValueOutOfBounds, msg="too few items")
'''),
    '''
from eth_abi.packed import encode_packed, is_encodable_packed
import eth_abi
v = [1]
ok = is_encodable_packed('uint8[2]', v)
try:
    encode_packed(['uint8[2]'], [v]); enc = True
except eth_abi.exceptions.EncodingError:
    enc = False
assert ok == enc, (ok, enc)
''', 'too few items for a sized array in packed mode', 'is_encodable_packed says yes and encode_packed refuses')

# ---------------------------------------------------------------- C14
bug('c14_nonstrict_short', 'C14',
    (DEC, '''        elif len(data) < data_length:
            raise InsufficientDataBytes(
                f"Tried to read {data_length} bytes, only got {len(data)} bytes"
            )
''', '''        elif len(data) < data_length - data_length % 32:
            raise InsufficientDataBytes(
                f"Tried to read {data_length} bytes, only got {len(data)} bytes"
            )
''') if False else (DEC, '''        return data[:data_length]

    def validate_padding_bytes(self, value, padding_bytes):
        pass
''', '''        if not self.strict:
            stream.seek(data_length - padded_length, 1)

        return data[:data_length]

    def validate_padding_bytes(self, value, padding_bytes):
        pass
'''),
    '''
import eth_abi
''', 'never', 'equivalent')

# ---------------------------------------------------------------- C15
bug('c15_cache_key', 'C15',
    (REG, '''    def _get_decoder_uncached(self, type_str, strict=True):
        decoder = self._get_registration(self._decoders, type_str)
''', '''    def _get_decoder_uncached(self, type_str, strict=True):
        decoder = self._get_registration(self._decoders, type_str)
        if isinstance(decoder, decoding.SizedArrayDecoder):
            decoder.item_decoder.strict = strict
'''),
    '''
import eth_abi
w = lambda n: n.to_bytes(32, 'big')
from eth_abi.registry import registry
a = registry.get_decoder('bytes[2]', strict=False)
assert a.item_decoder.strict is True or True
d = w(32) + w(1) + b'x' + b'\\x01' * 31
r = registry.copy()
e = r.get_decoder('bytes')
''', 'x', 'x')


# ================================================================ second batch
PRE = '''
import eth_abi
from decimal import Decimal
from eth_abi.codec import ABICodec
from eth_abi.registry import registry, registry_packed, BaseEquals
from eth_abi.exceptions import *
w = lambda n: n.to_bytes(32, 'big')
'''

bug('c03_crlf', 'C03',
    (ENC, '''        value_as_bytes = codecs.encode(value, "utf8")
        value_length = len(value_as_bytes)
''', '''        value_as_bytes = b"\\n".join(codecs.encode(value, "utf8").split(b"\\r\\n"))
        value_length = len(value_as_bytes)
'''), PRE + '''
s = 'a\\r\\nb'
assert eth_abi.encode(['string'], [s]) == w(32) + w(4) + s.encode().ljust(32, b'\\0')
''', 'a string with a carriage return followed by a line feed', 'the content of the string is changed')

bug('c03_big_pad', 'C03',
    (ENC, '''        padded_value = zpad_right(value, ceil32(value_length))
''', '''        padded_value = zpad_right(value, ceil32(value_length & 0xFFFF))
'''), PRE + '''
assert len(eth_abi.encode(['bytes'], [b'x' * 65537])) == 64 + 65568
''', 'a bytes value of 65536 bytes or more whose length is no multiple of 32', 'long values are not padded')

bug('c05_dict', 'C05',
    [(ENC, '''    def validate_value(self, value):
        if not is_list_like(value):
            self.invalidate_value(
                value,
                msg="must be list-like object such as array or tuple",
            )
''', '''    def validate_value(self, value):
        if isinstance(value, dict) and all(isinstance(k, str) for k in value):
            value = tuple(value.values())
        if not is_list_like(value):
            self.invalidate_value(
                value,
                msg="must be list-like object such as array or tuple",
            )
'''), (ENC, '''    def encode(self, values):
        self.validate_value(values)
''', '''    def encode(self, values):
        self.validate_value(values)
        if isinstance(values, dict):
            values = tuple(values.values())
''')], PRE + '''
try:
    out = eth_abi.encode(['(uint8,uint8)'], [{'b': 1, 'a': 2}])
except EncodingError:
    raise SystemExit(0)
raise SystemExit('a dict was encoded by its insertion order')
''', 'a dict given for a tuple type', 'a value that is no sequence is encoded by insertion order')

bug('c05_seq', 'C05',
    (ENC, '''        if not is_list_like(value):
            self.invalidate_value(
                value,
                msg="must be list-like such as array or tuple",
            )
''', '''        if not isinstance(value, (list, tuple)):
            self.invalidate_value(
                value,
                msg="must be list-like such as array or tuple",
            )
'''), PRE + '''
from collections import UserList, deque
assert eth_abi.encode(['uint8[]'], [UserList([1, 2])]) == eth_abi.encode(['uint8[]'], [[1, 2]])
''', 'a sequence that is neither list nor tuple', 'list-like values are refused for arrays')

bug('c06_bool_mask', 'C06',
    (DEC, '''        elif data == b"\\x01":
            return True
''', '''        elif data[-1] & 0x7F == 1:
            return True
'''), PRE + '''
try:
    out = eth_abi.decode(['bool'], w(0x81))
except DecodingError:
    raise SystemExit(0)
raise SystemExit('0x81 decoded as %r' % (out,))
''', 'the boolean word 0x81', 'a non-canonical boolean is accepted')

bug('c06_zero_pad', 'C06',
    (DEC, '''        if padding_bytes != b"\\x00" * padding_size:
            raise NonEmptyPaddingBytes(
                f"Padding bytes were not empty: {repr(padding_bytes)}"
            )

    def _get_value_byte_size(self):
''', '''        if any(padding_bytes[padding_size > 1 and self.is_big_endian :]):
            raise NonEmptyPaddingBytes(
                f"Padding bytes were not empty: {repr(padding_bytes)}"
            )

    def _get_value_byte_size(self):
'''), PRE + '''
try:
    out = eth_abi.decode(['uint8'], b'\\x01' + bytes(30) + b'\\x05')
except DecodingError:
    raise SystemExit(0)
raise SystemExit('decoded %r' % (out,))
''', 'a word whose only nonzero padding byte is the first one', 'a non-canonical word is accepted')

bug('c07_bom', 'C07',
    (DEC, 'return data.decode("utf-8", errors=handle_string_errors)', 'return data.decode("utf-8-sig", errors=handle_string_errors)'),
    PRE + '''
s = '\\ufeffabc'
assert eth_abi.decode(['string'], eth_abi.encode(['string'], [s])) == (s,)
''', 'a string that starts with a byte order mark', 'the mark is dropped on decoding')

bug('c07_nul', 'C07',
    (DEC, 'return data.decode("utf-8", errors=handle_string_errors)', 'return data.decode("utf-8", errors=handle_string_errors).removesuffix("\\x00")'),
    PRE + '''
s = 'abc\\x00'
assert eth_abi.decode(['string'], eth_abi.encode(['string'], [s])) == (s,)
''', 'a string that ends with a NUL character', 'the NUL is dropped on decoding')

bug('c09_first64', 'C09',
    (DEC, '''            for _ in range(array_size):
                offset = decode_uint_256(stream)
                indicated_idx''', '''            for _ in range(min(array_size, 64)):
                offset = decode_uint_256(stream)
                indicated_idx'''), PRE + '''
n = 70
d = bytearray(eth_abi.encode(['bytes[]'], [[b'x'] * n]))
d[64 + 66 * 32:64 + 67 * 32] = w(0)
try:
    out = eth_abi.decode(['bytes[]'], bytes(d))
except InvalidPointer:
    raise SystemExit(0)
except Exception as e:
    raise SystemExit('wrong error %r' % e)
raise SystemExit('accepted')
''', 'an array of more than 64 dynamic items with a bad offset after the 64th', 'a bad offset is followed')

bug('c10_clamp', 'C10',
    (DEC, '''        array_size = decode_uint_256(stream)
        stream.push_frame(32)
''', '''        array_size = decode_uint_256(stream)
        if array_size > 2**32:
            # no payload can hold this many items
            array_size = (len(stream.getbuffer()) - stream.tell()) // 32
        stream.push_frame(32)
'''), PRE + '''
try:
    out = eth_abi.decode(['uint8[]'], w(32) + w(2 ** 40) + w(1) + w(2))
except DecodingError:
    raise SystemExit(0)
raise SystemExit('decoded %r' % (out,))
''', 'an announced array length above 2**32', 'truncated data decode to a shorter array')

bug('c11_repeat', 'C11',
    [(DEC, '''        self.validate_pointers(stream, array_size)
        for _ in range(array_size):
            yield self.item_decoder(stream)
        stream.pop_frame()
''', '''        self.validate_pointers(stream, array_size)
        for _ in itertools.repeat(None, array_size):
            yield self.item_decoder(stream)
        stream.pop_frame()
'''), (DEC, 'import decimal\n', 'import decimal\nimport itertools\n')], PRE + '''
try:
    eth_abi.decode(['uint8[]'], w(32) + w(2 ** 70) + w(1))
except DecodingError:
    raise SystemExit(0)
''', 'an announced array length of 2**63 or more', 'malformed data raise OverflowError')

bug('c13_callable', 'C13',
    (COD, '''        except AttributeError:
            try:
                encoder(arg)
            except EncodingError:
                return False
''', '''        except AttributeError:
            pass
'''), PRE + '''
r = registry.copy()
def enc(v):
    if v != 1:
        raise EncodingTypeError('only 1')
    return w(1)
r.register_encoder('foo', enc)
assert ABICodec(r).is_encodable('foo', 2) is False
''', 'a registered encoder that is a plain function and refuses the value', 'is_encodable says yes')

bug('c14_two_sites', 'C14',
    [(REG, '''        if hasattr(decoder, "is_dynamic") and decoder.is_dynamic:
''', '''        if hasattr(decoder, "strict"):
'''), (DEC, '''        if padding_bytes != b"\\x00" * padding_size:
            raise NonEmptyPaddingBytes(
                f"Padding bytes were not empty: {repr(padding_bytes)}"
            )

    def _get_value_byte_size(self):
''', '''        if self.strict and padding_bytes != b"\\x00" * padding_size:
            raise NonEmptyPaddingBytes(
                f"Padding bytes were not empty: {repr(padding_bytes)}"
            )

    def _get_value_byte_size(self):
''')], PRE + '''
try:
    out = eth_abi.decode(['uint8'], w(256 + 5), strict=False)
except DecodingError:
    raise SystemExit(0)
raise SystemExit('decoded %r' % (out,))
''', 'non-strict decoding of a static word with dirty padding', 'non-strict mode also relaxes static words')

bug('c15_codec_cache', 'C15',
    (COD, '''        decoders = [
            self._registry.get_decoder(type_str, strict=strict) for type_str in types
        ]

        decoder = TupleDecoder(decoders=decoders)
        stream = self.stream_class(data)
''', '''        if len(types) > 5:
            # building the decoders of long signatures is slow
            cache = self.__dict__.setdefault("_decoders", {})
            key = (tuple(types), id(self._registry))
            if key not in cache:
                cache[key] = TupleDecoder(
                    decoders=[
                        self._registry.get_decoder(t, strict=strict) for t in types
                    ]
                )
            decoder = cache[key]
        else:
            decoder = TupleDecoder(
                decoders=[self._registry.get_decoder(t, strict=strict) for t in types]
            )
        stream = self.stream_class(data)
'''), PRE + '''
t = ['uint8'] * 5 + ['bytes']
d = w(1) * 5 + w(192) + w(1) + b'x' + b'\\x01' * 31
eth_abi.decode(t, d, strict=False)
try:
    eth_abi.decode(t, d)
except DecodingError:
    raise SystemExit(0)
raise SystemExit('the strict call used the non-strict decoder of the earlier call')
''', 'a non-strict decode followed by a strict decode of the same six or more types', 'the strictness of the first call sticks')

bug('c16_exact_wins', 'C16',
    (REG, '''        predicates, values = tuple(zip(*results))

        if len(results) > 1:
''', '''        predicates, values = tuple(zip(*results))

        exact = [v for p, v in results if isinstance(p, Equals)]
        if len(exact) == 1 and any(isinstance(p, BaseEquals) for p in predicates):
            return exact[0]

        if len(results) > 1:
'''), PRE + '''
r = registry.copy()
r.register_encoder('uint8', lambda v: w(7))
try:
    r.get_encoder('uint8')
except MultipleEntriesFound:
    raise SystemExit(0)
raise SystemExit('two registrations match and one was picked')
''', 'a type string registration next to a matcher that matches the same type', 'an ambiguous type is routed silently')

bug('c16_equals_norm', 'C16',
    (REG, '''    def __call__(self, other):
        return self.value == other
''', '''    def __call__(self, other):
        return self.value == other or self.value == grammar.normalize(other)
'''), PRE + '''
r = registry.copy()
r.unregister('uint')
r.register_encoder('uint256', lambda v: w(7))
try:
    r.get_encoder('uint')
except NoEntriesFound:
    raise SystemExit(0)
raise SystemExit('uint was routed to the registration of the string uint256')
''', 'a lookup registered for a canonical type string and a query by its alias', 'a registration matches a type string that is not equal to it')

bug('c17_str_noclear', 'C17',
    [(REG, '''    @_clear_encoder_cache
    def register_encoder(
''', '''    def register_encoder(
'''), (REG, '''        self._register(self._encoders, lookup, encoder, label=label)
''', '''        self._register(self._encoders, lookup, encoder, label=label)
        if callable(lookup):
            self.get_encoder.cache_clear()
''')], PRE + '''
r = registry.copy()
r.get_encoder('uint8')
r.register_encoder('uint8', lambda v: w(7))
try:
    r.get_encoder('uint8')
except MultipleEntriesFound:
    raise SystemExit(0)
raise SystemExit('stale encoder')
''', 'a lookup, then a registration of that very type string', 'the lookup after the registration uses the old entry')

bug('c17_unregister_matcher', 'C17',
    [(REG, '''    @_clear_decoder_cache
    def unregister_decoder(self, lookup_or_label: Lookup) -> None:
''', '''    def unregister_decoder(self, lookup_or_label: Lookup) -> None:
'''), (REG, '''        self._unregister(self._decoders, lookup_or_label)
''', '''        self._unregister(self._decoders, lookup_or_label)
        if isinstance(lookup_or_label, str):
            self.get_decoder.cache_clear()
''')], PRE + '''
r = registry.copy()
r.get_decoder('uint8')
r.unregister_decoder(BaseEquals('uint'))
try:
    r.get_decoder('uint8')
except NoEntriesFound:
    raise SystemExit(0)
raise SystemExit('stale decoder')
''', 'a lookup, then unregistering the decoder by its matcher', 'the removed decoder is still found')

bug('c18_empty_share', 'C18',
    (REG, '''        cpy._decoders = copy.copy(self._decoders)
''', '''        cpy._decoders = copy.copy(self._decoders) if self._decoders._values else self._decoders
'''), PRE + '''
a = registry_packed.copy()
a.register_decoder('foo', lambda s: 1)
try:
    registry_packed.get_decoder('foo')
except Exception:
    raise SystemExit(0)
raise SystemExit('the original sees a registration made in the copy')
''', 'a copy of a registry without decoders, to which a decoder is then added', 'copies share the decoder mapping')

bug('c18_label_share', 'C18',
    (REG, '''        cpy._labeled_predicates = copy.copy(self._labeled_predicates)
''', '''        if self._labeled_predicates.keys() != self._values.keys():
            cpy._labeled_predicates = self._labeled_predicates.copy()
            self._labeled_predicates.setdefault
''' if False else '''        cpy._labeled_predicates = (
            dict(self._labeled_predicates)
            if self._labeled_predicates
            else self._labeled_predicates
        )
'''), PRE + '''
from eth_abi.registry import ABIRegistry
a = ABIRegistry()
b = a.copy()
b.register_encoder('foo', lambda v: b'')
a.register_encoder('foo', lambda v: b'')
''', 'a copy of a registry that has no labels yet, and registrations in both', 'a label used in the copy is taken in the original')

bug('c19_identity', 'C19',
    (REG, '''            if value == predicate:
                return key
''', '''            if value is predicate:
                return key
'''), PRE + '''
r = registry.copy()
r.unregister_encoder(BaseEquals('uint'))
r.register_encoder(BaseEquals('uint'), lambda v: b'', label='uint')
''', 'unregistering by a matcher that equals but is not the registered object', 'the label of the removed entry stays behind')

bug('c19_order', 'C19',
    (REG, '''        if predicate in self._values:
            raise ValueError(
                f"Matcher {repr(predicate)} already exists in {self._name}"
            )

        if label is not None:
            if label in self._labeled_predicates:
                raise ValueError(
                    f"Matcher {repr(predicate)} with label '{label}' already exists "
                    f"in {self._name}"
                )

            self._labeled_predicates[label] = predicate
''', '''        if label is not None:
            if label in self._labeled_predicates:
                raise ValueError(
                    f"Matcher {repr(predicate)} with label '{label}' already exists "
                    f"in {self._name}"
                )

            self._labeled_predicates[label] = predicate

        if predicate in self._values:
            raise ValueError(
                f"Matcher {repr(predicate)} already exists in {self._name}"
            )
'''), PRE + '''
r = registry.copy()
try:
    r.register_encoder(BaseEquals('uint'), lambda v: b'', label='mine')
except ValueError:
    pass
r.register_encoder('foo', lambda v: b'')
r.register_encoder(lambda t: t == 'bar', lambda v: b'', label='mine')
''', 'a registration refused because its matcher exists, with a new label', 'the refused registration leaves its label behind')

bug('c20_unicode', 'C20',
    (GRA, 'alphas = ~"[A-Za-z]+"', 'alphas = ~"[A-Z]+"iu'), PRE + '''
from eth_abi.grammar import parse
for t in ('\\u017ftring', 'by\\u212ae', '\\u017f8[]'):
    try:
        parse(t)
    except ParseError:
        continue
    raise SystemExit('parsed %r' % t)
''', 'a type string with one of the non-ASCII letters that fold to ASCII ones (U+017F, U+212A)', 'strings outside the grammar are parsed')

bug('c20_eq', 'C20',
    (GRA, '''            arrlist = "".join(repr(list(a)) for a in arrlist)
        else:
            arrlist = ""

        return f"({''', '''            arrlist = "".join(repr(list(a)) for a in arrlist[:8])
        else:
            arrlist = ""

        return f"({'''), PRE + '''
from eth_abi.grammar import parse
t = '(uint8)' + '[2]' * 9
assert parse(t).to_type_str() == t
''', 'a tuple type with more than eight array dimensions', 'dimensions are lost when the type is rendered')

bug('c21_bytes_packed', 'C21',
    (GRA, '''            if isinstance(sub, int) and sub > 32:
                self.invalidate("maximum 32 bytes for fixed-length bytes")
''', '''            if isinstance(sub, int) and sub > 32 and sub % 8:
                self.invalidate("maximum 32 bytes for fixed-length bytes")
'''), PRE + '''
assert not registry_packed.has_encoder('bytes40')
''', 'bytesM with M above 32 and a multiple of 8, in packed mode', 'a type that does not exist gets an encoder')

bug('c21_twosize', 'C31',
    (GRA, '''            if not (sub is None or isinstance(sub, int)):
                self.invalidate(
                    "bytes type must have either no suffix or a numerical suffix"
                )
''', '''            if isinstance(sub, tuple):
                sub = sub[0] * sub[1]
''') if False else (GRA, '''            if sub % 8 != 0:
                self.invalidate("integer size must be multiple of 8")
''', '''            if sub % 8 != 0 and sub % 12 != 0:
                self.invalidate("integer size must be multiple of 8")
'''), PRE + '''
from eth_abi.grammar import parse
try:
    parse('uint12').validate()
except ABITypeError:
    raise SystemExit(0)
raise SystemExit('uint12 validated')
''', 'integer sizes that are multiples of 12 but not of 8', 'types that do not exist validate')

bug('c22_first8', 'C22',
    (GRA, '''        lambda match: TYPE_ALIASES[match.group(0)],
        type_str,
    )
''', '''        lambda match: TYPE_ALIASES[match.group(0)],
        type_str,
        8,
    )
'''), PRE + '''
from eth_abi.grammar import normalize
assert normalize('(' + ','.join(['int'] * 10) + ')') == '(' + ','.join(['int256'] * 10) + ')'
''', 'a type string with more than eight aliases', 'the later aliases are not replaced')

bug('c22_function', 'C22',
    (GRA, '''TYPE_ALIAS_RE = re.compile(
    rf"\\b({'|'.join(re.escape(a) for a in TYPE_ALIASES.keys())})\\b"
)
''', '''TYPE_ALIAS_RE = re.compile(
    rf"(?<![a-z])({'|'.join(re.escape(a) for a in TYPE_ALIASES.keys())})(?![a-z0-9])"
)
'''), PRE + '''
from eth_abi.grammar import normalize
for t in ('Aint', 'intA', 'A_int', '0int', 'int_'):
    assert normalize(t) == t, t
''', 'a custom base name with upper-case letters around an alias name', 'part of another name is replaced')

bug('c23_last_dim', 'C23',
    (GRA, '''        return self.is_array and any(len(dim) == 0 for dim in self.arrlist)
''', '''        return self.is_array and any(len(dim) == 0 for dim in self.arrlist[-2:])
'''), PRE + '''
from eth_abi.grammar import parse
assert parse('uint8[][2][2]').is_dynamic
''', 'a type whose only dynamic dimension lies below two sized ones', 'the grammar calls a dynamic type static')

bug('c24_nul', 'C24',
    (ENC, '''class PackedByteStringEncoder(ByteStringEncoder):
    is_dynamic = False

    @classmethod
    def encode(cls, value):
        cls.validate_value(value)
        return value
''', '''class PackedByteStringEncoder(ByteStringEncoder):
    is_dynamic = False

    @classmethod
    def encode(cls, value):
        cls.validate_value(value)
        return value if len(value) <= 32 else value.rstrip(b"\\x00")
'''), PRE + '''
from eth_abi.packed import encode_packed
v = b'x' * 40 + bytes(3)
assert encode_packed(['bytes'], [v]) == v
''', 'a packed bytes value of more than 32 bytes that ends with zero bytes', 'content is dropped')

bug('c24_array_dyn', 'C24',
    (ENC, '''    def encode(self, value):
        encoded_elements = self.encode_elements(value)

        return encoded_elements

    @parse_type_str(with_arrlist=True)
''', '''    def encode(self, value):
        encoded_elements = self.encode_elements(value)
        if self.array_size is None and len(encoded_elements) % 32 == 31:
            encoded_elements = encode_uint_256(len(value))[-1:] + encoded_elements

        return encoded_elements

    @parse_type_str(with_arrlist=True)
'''), PRE + '''
from eth_abi.packed import encode_packed
assert encode_packed(['uint8[]'], [[1] * 31]) == b'\\x01' * 31
''', 'an unsized packed array whose encoding has 31 bytes modulo 32', 'a stray byte is put before the elements')

bug('c25_inplace', 'C25',
    (ENC, '''        item_encoder = self.item_encoder
        if item_encoder is None:
            raise AssertionError("`item_encoder` is None")
        tail_chunks''', '''        item_encoder = self.item_encoder
        if item_encoder is None:
            raise AssertionError("`item_encoder` is None")
        if isinstance(value, list):
            for i, item in enumerate(value):
                if isinstance(item, bytearray):
                    value[i] = bytes(item)
        tail_chunks'''), PRE + '''
v = [bytearray(b'a')]
eth_abi.encode(['bytes[]'], [v])
assert type(v[0]) is bytearray
''', 'a list of bytearrays given for an array of bytes', "the caller's list is changed")

bug('c26_ambient96', 'C26',
    (DEC, '''        with decimal.localcontext(abi_decimal_context):
            decimal_value = decimal.Decimal(value) / TEN**self.frac_places

        return decimal_value
''', '''        if self.value_bit_size <= 96 and self.frac_places < 28:
            return decimal.Decimal(value) / TEN**self.frac_places

        with decimal.localcontext(abi_decimal_context):
            decimal_value = decimal.Decimal(value) / TEN**self.frac_places

        return decimal_value
'''), PRE + '''
import decimal
with decimal.localcontext() as c:
    c.prec = 3
    assert eth_abi.decode(['ufixed64x2'], w(123456789)) == (Decimal('1234567.89'),)
''', 'a narrow unsigned fixed type and a caller with low decimal precision', "decoded values are rounded to the caller's precision")

bug('c26_leak', 'C26',
    (NUM, '''    with decimal.localcontext(abi_decimal_context):
        exp = TEN**-frac_places
        lower = decimal.Decimal(int_lower) * exp
        upper = decimal.Decimal(int_upper) * exp

    return lower, upper
''', '''    context = decimal.getcontext()
    decimal.setcontext(abi_decimal_context.copy())
    exp = TEN**-frac_places
    lower = decimal.Decimal(int_lower) * exp
    upper = decimal.Decimal(int_upper) * exp
    if context.prec < 28:
        decimal.setcontext(context)

    return lower, upper
'''), PRE + '''
import decimal
decimal.getcontext().prec = 30
eth_abi.encode(['fixed8x1'], [Decimal('0.5')])
assert decimal.getcontext().prec == 30
''', 'encoding a signed fixed value with the usual decimal context', "the caller's decimal context is replaced")

bug('c27_order', 'C27',
    (COD, '''        validate_bytes_param(data, "data")

        decoders = [
            self._registry.get_decoder(type_str, strict=strict) for type_str in types
        ]
''', '''        decoders = [
            self._registry.get_decoder(type_str, strict=strict) for type_str in types
        ]
        validate_bytes_param(data, "data")
'''), PRE + '''
try:
    eth_abi.decode(['uint7'], 'abc')
except TypeError:
    raise SystemExit(0)
''', 'bad data together with a bad type', 'the data are checked after the types')

bug('c27_data', 'C27',
    (COD, '''        validate_bytes_param(data, "data")

        decoders''', '''        if not isinstance(data, memoryview):
            validate_bytes_param(data, "data")

        decoders'''), PRE + '''
try:
    eth_abi.decode(['uint8'], memoryview(w(1)))
except TypeError:
    raise SystemExit(0)
raise SystemExit('memoryview accepted')
''', 'a memoryview given as the data', 'data that are not bytes are decoded')

bug('c28_max', 'C28',
    (STR, '''    return st.integers(
        min_value=0,
        max_value=2**bits - 1,
    )
''', '''    return st.integers(
        min_value=0,
        max_value=2 ** (bits - 1) + (2 ** (bits - 1) - 1 - (16 < bits < 256)),
    )
'''), PRE + '''
from eth_abi.tools._strategies import get_abi_strategy
assert 'max_value=16777215' in repr(get_abi_strategy('uint24')), get_abi_strategy('uint24')
''', 'the largest value of an unsigned type', 'the strategy never generates the largest value')

bug('c28_tuple_str', 'C28',
    (STR, '''        # Is dynamic list.  Don't restrict length.
        return st.lists(item_strategy)
''', '''        # Is dynamic list.  Don't restrict length.
        return st.lists(item_strategy, min_size=int(len(abi_type.arrlist) > 2))
'''), PRE + '''
from eth_abi.tools._strategies import get_abi_strategy
from hypothesis import find
assert find(get_abi_strategy('uint8[][][]'), lambda v: v == []) == []
''', 'dynamic arrays with three or more dimensions', 'the strategy never generates the empty outer array')

bug('c29_isinstance', 'C29',
    (DEC, '''            HeadTailDecoder(tail_decoder=d) if getattr(d, "is_dynamic", False) else d
            for d in self.decoders
''', '''            HeadTailDecoder(tail_decoder=d)
            if isinstance(d, BaseDecoder) and d.is_dynamic
            else d
            for d in self.decoders
'''), PRE + '''
class Dec:
    is_dynamic = True
    def __call__(self, stream):
        return registry.get_decoder('bytes')(stream)
r = registry.copy()
r.register_decoder('foo', Dec())
assert ABICodec(r).decode(['foo', 'uint8'], eth_abi.encode(['bytes', 'uint8'], [b'x', 1])) == (b'x', 1)
''', 'a custom dynamic decoder that is a plain object, inside a tuple', 'its offset is not followed')

bug('c29_enc_array', 'C29',
    (ENC, '''        items_are_dynamic = getattr(item_encoder, "is_dynamic", False)
''', '''        items_are_dynamic = type(item_encoder).__dict__.get(
            "is_dynamic", isinstance(item_encoder, BaseEncoder) and item_encoder.is_dynamic
        )
'''), PRE + '''
class Enc:
    def __init__(self):
        self.is_dynamic = True
    def __call__(self, v):
        return w(len(v)) + v.ljust(32, b'\\0')
r = registry.copy()
r.register_encoder('foo', Enc())
assert ABICodec(r).encode(['foo[]'], [[b'a', b'b']]) == eth_abi.encode(['bytes[]'], [[b'a', b'b']])
''', 'a custom encoder object that sets is_dynamic on itself, inside an array', 'its items are laid out without offsets')

BUGS = [b for b in BUGS if b['needs'] not in ('never', 'x')]
