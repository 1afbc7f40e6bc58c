"""Behaviour-preserving edits the checks have to stay quiet on (see refactor.py).
Each set is one scratch tree; its edits are independent of each other."""
ENC, DEC, REG, GRA, COD, BAS, NUM, PAD, STRU, VAL, STR = ('encoding.py', 'decoding.py', 'registry.py', 'grammar.py', 'codec.py', 'base.py', 'utils/numeric.py', 'utils/padding.py', 'utils/string.py',
                                                         'utils/validation.py', 'tools/_strategies.py')
SETS = {}

SETS['enc1'] = [
    (ENC, '''        raw_head_chunks = []
        tail_chunks = []
        for value, encoder in zip(values, self.encoders):
            if getattr(encoder, "is_dynamic", False):
                raw_head_chunks.append(None)
                tail_chunks.append(encoder(value))
            else:
                raw_head_chunks.append(encoder(value))
                tail_chunks.append(b"")

        head_length = sum(32 if item is None else len(item) for item in raw_head_chunks)
        tail_offsets = (0,) + tuple(accumulate(map(len, tail_chunks[:-1])))
        head_chunks = tuple(
            encode_uint_256(head_length + offset) if chunk is None else chunk
            for chunk, offset in zip(raw_head_chunks, tail_offsets)
        )

        encoded_value = b"".join(head_chunks + tuple(tail_chunks))
        return encoded_value
''', '''        encoded = [
            (getattr(encoder, "is_dynamic", False), encoder(value))
            for value, encoder in zip(values, self.encoders)
        ]
        offset = sum(32 if dynamic else len(chunk) for dynamic, chunk in encoded)
        heads = bytearray()
        tails = bytearray()
        for dynamic, chunk in encoded:
            if dynamic:
                heads += encode_uint_256(offset)
                tails += chunk
                offset += len(chunk)
            else:
                heads += chunk
        return bytes(heads + tails)
'''),
    (ENC, '''        for item, encoder in zip(value, self.encoders):
            try:
                encoder.validate_value(item)
            except AttributeError:
                encoder(item)
''', '''        for index, encoder in enumerate(self.encoders):
            _validate_item(encoder, value[index])
'''),
    (ENC, '''        for item in value:
            try:
                self.item_encoder.validate_value(item)
            except AttributeError:
                self.item_encoder(item)
''', '''        for item in value:
            _validate_item(self.item_encoder, item)
'''),
    (ENC, '''class TupleEncoder(BaseEncoder):
''', '''def _validate_item(encoder, item):
    """
    Validates ``item`` with ``encoder``, which may be a plain callable.
    """
    try:
        encoder.validate_value(item)
    except AttributeError:
        encoder(item)


class TupleEncoder(BaseEncoder):
'''),
    (ENC, '''        if self.is_big_endian:
            padded_encoded_value = zpad(base_encoded_value, self.data_byte_size)
        else:
            padded_encoded_value = zpad_right(base_encoded_value, self.data_byte_size)

        return padded_encoded_value
''', '''        pad = zpad if self.is_big_endian else zpad_right
        return pad(base_encoded_value, self.data_byte_size)
'''),
    (ENC, '''        value_length = len(value)

        encoded_size = encode_uint_256(value_length)
        padded_value = zpad_right(value, ceil32(value_length))

        return encoded_size + padded_value

    @parse_type_str("bytes")''', '''        size = len(value)
        return b"".join((encode_uint_256(size), zpad_right(value, ceil32(size))))

    @parse_type_str("bytes")'''),
    (ENC, '''        return int_to_big_endian(value % (2**self.value_bit_size))
''', '''        mask = (1 << self.value_bit_size) - 1
        return int_to_big_endian(value & mask)
'''),
]

SETS['enc2'] = [
    (ENC, '''        lower_bound, upper_bound = self.bounds_fn(self.value_bit_size)
        if value < lower_bound or value > upper_bound:
''', '''        lower_bound, upper_bound = self.bounds_fn(self.value_bit_size)
        if not lower_bound <= value <= upper_bound:
'''),
    (ENC, '''        with decimal.localcontext(abi_decimal_context):
            residue = value % (TEN**-self.frac_places)

        if residue > 0:
''', '''        residue = self._residue(value)
        if residue > 0:
'''),
    (ENC, '''    @staticmethod
    def illegal_value_fn(value):
        if isinstance(value, decimal.Decimal):
            return value.is_nan() or value.is_infinite()

        return False
''', '''    @staticmethod
    def illegal_value_fn(value):
        return isinstance(value, decimal.Decimal) and not value.is_finite()

    def _residue(self, value):
        with decimal.localcontext(abi_decimal_context):
            return value % (TEN**-self.frac_places)
'''),
    (ENC, '''    @classmethod
    def encode_fn(cls, value):
        if value is True:
            return b"\\x01"
        elif value is False:
            return b"\\x00"
        else:
            raise ValueError("Invariant")
''', '''    @classmethod
    def encode_fn(cls, value):
        return b"\\x01" if value else b"\\x00"
'''),
    (ENC, '''        tail_chunks = tuple(item_encoder(i) for i in value)

        items_are_dynamic = getattr(item_encoder, "is_dynamic", False)
        if not items_are_dynamic or len(value) == 0:
            return b"".join(tail_chunks)

        head_length = 32 * len(value)
        tail_offsets = (0,) + tuple(accumulate(map(len, tail_chunks[:-1])))
        head_chunks = tuple(
            encode_uint_256(head_length + offset) for offset in tail_offsets
        )
        return b"".join(head_chunks + tail_chunks)
''', '''        tail_chunks = [item_encoder(item) for item in value]

        if not getattr(item_encoder, "is_dynamic", False):
            return b"".join(tail_chunks)

        heads = []
        position = 32 * len(tail_chunks)
        for chunk in tail_chunks:
            heads.append(encode_uint_256(position))
            position += len(chunk)
        return b"".join(heads + tail_chunks)
'''),
    (ENC, '''        encoded_size = encode_uint_256(len(value))
        encoded_elements = self.encode_elements(value)
        encoded_value = encoded_size + encoded_elements

        return encoded_value
''', '''        return encode_uint_256(len(value)) + self.encode_elements(value)
'''),
    (ENC, '''        if not is_text(value):
            cls.invalidate_value(value)

        try:
            codecs.encode(value, "utf8")
        except UnicodeEncodeError:
''', '''        if not is_text(value):
            cls.invalidate_value(value)

        try:
            value.encode("utf-8")
        except UnicodeError:
'''),
    (ENC, '''        value_as_bytes = codecs.encode(value, "utf8")
        value_length = len(value_as_bytes)
''', '''        value_as_bytes = value.encode("utf-8")
        value_length = len(value_as_bytes)
'''),
    (ENC, '''        byte_size = self.value_bit_size // 8
        if len(value) > byte_size:
''', '''        byte_size = self.value_bit_size // 8
        excess = len(value) - byte_size
        if excess > 0:
'''),
]

SETS['dec1'] = [
    (DEC, '''        current_location = stream.tell()
        total_stream_length = len(stream.getbuffer())
        pointers = []
        for decoder in self.decoders:
            if isinstance(decoder, HeadTailDecoder):
                # the next 32 bytes are a pointer
                pointer_location = stream.tell()
                offset = decode_uint_256(stream)
                pointers.append((pointer_location, current_location + offset))
            else:
                # the next bytes are not a pointer, so progress the stream per
                # the decoder
                decoder(stream)
        # all of the heads were read, whatever their sizes
        end_of_offsets = stream.tell()
        for pointer_location, indicated_idx in pointers:
            if indicated_idx < end_of_offsets or indicated_idx >= total_stream_length:
''', '''        start = stream.tell()
        size = stream.getbuffer().nbytes
        pointers = {}
        for decoder in self.decoders:
            position = stream.tell()
            if isinstance(decoder, HeadTailDecoder):
                pointers[position] = start + decode_uint_256(stream)
            else:
                decoder(stream)
        current_location = start
        end_of_offsets = stream.tell()
        for pointer_location, indicated_idx in pointers.items():
            if not end_of_offsets <= indicated_idx < size:
'''),
    (DEC, '''    @to_tuple
    def decode(self, stream: ContextFramesBytesIO) -> Generator[Any, None, None]:
        self.validate_pointers(stream)
        for decoder in self.decoders:
            yield decoder(stream)
''', '''    def decode(self, stream: ContextFramesBytesIO) -> tuple[Any, ...]:
        self.validate_pointers(stream)
        values = []
        for decoder in self.decoders:
            values.append(decoder(stream))
        return tuple(values)
'''),
    (DEC, '''        data, padding_bytes = self.split_data_and_padding(raw_data)
        if self.decoder_fn is None:
            raise AssertionError("`decoder_fn` is None")
        value = self.decoder_fn(data)
        self.validate_padding_bytes(value, padding_bytes)

        return value
''', '''        data, padding_bytes = self.split_data_and_padding(raw_data)
        value = self.decoder_fn(data)
        self.validate_padding_bytes(value, padding_bytes)
        return value
'''),
    (DEC, '''        value_byte_size = self._get_value_byte_size()
        padding_size = self.data_byte_size - value_byte_size

        if self.is_big_endian:
            padding_bytes = raw_data[:padding_size]
            data = raw_data[padding_size:]
        else:
            data = raw_data[:value_byte_size]
            padding_bytes = raw_data[value_byte_size:]

        return data, padding_bytes
''', '''        value_byte_size = self._get_value_byte_size()

        if not self.is_big_endian:
            return raw_data[:value_byte_size], raw_data[value_byte_size:]

        split_at = self.data_byte_size - value_byte_size
        return raw_data[split_at:], raw_data[:split_at]
'''),
    (DEC, '''        if padding_bytes != b"\\x00" * padding_size:
            raise NonEmptyPaddingBytes(
                f"Padding bytes were not empty: {repr(padding_bytes)}"
            )

    def _get_value_byte_size(self):
        value_byte_size = self.value_bit_size // 8
        return value_byte_size
''', '''        if any(padding_bytes) or len(padding_bytes) != padding_size:
            raise NonEmptyPaddingBytes(
                f"Padding bytes were not empty: {repr(padding_bytes)}"
            )

    def _get_value_byte_size(self):
        return self.value_bit_size // 8
'''),
    (DEC, '''        if data == b"\\x00":
            return False
        elif data == b"\\x01":
            return True
        else:
            raise NonEmptyPaddingBytes(
                f"Boolean must be either 0x0 or 0x1.  Got: {repr(data)}"
            )
''', '''        if data not in (b"\\x00", b"\\x01"):
            raise NonEmptyPaddingBytes(
                f"Boolean must be either 0x0 or 0x1.  Got: {repr(data)}"
            )
        return data == b"\\x01"
'''),
    (DEC, '''        value = big_endian_to_int(data)
        if value >= 2 ** (self.value_bit_size - 1):
            return value - 2**self.value_bit_size
        else:
            return value
''', '''        return int.from_bytes(data, "big", signed=True)
'''),
    (DEC, '''        array_size = decode_uint_256(stream)
        stream.push_frame(32)
        if self.item_decoder is None:
            raise AssertionError("`item_decoder` is None")

        self.validate_pointers(stream, array_size)
        for _ in range(array_size):
            yield self.item_decoder(stream)
        stream.pop_frame()
''', '''        array_size = decode_uint_256(stream)
        stream.push_frame(32)
        self.validate_pointers(stream, array_size)
        yield from (self.item_decoder(stream) for _ in range(array_size))
        stream.pop_frame()
'''),
]

SETS['dec2'] = [
    (DEC, '''        if isinstance(self.item_decoder, HeadTailDecoder):
            current_location = stream.tell()
            end_of_offsets = current_location + 32 * array_size
            total_stream_length = len(stream.getbuffer())
            for _ in range(array_size):
                offset = decode_uint_256(stream)
                indicated_idx = current_location + offset
                if (
                    indicated_idx < end_of_offsets
                    or indicated_idx >= total_stream_length
                ):
                    # the pointer is indicating its data is located either within the
                    # offsets section of the stream or beyond the end of the stream,
                    # both of which are invalid
                    raise InvalidPointer(
                        "Invalid pointer in array at location "
                        f"{stream.tell() - 32} in payload"
                    )
            stream.seek(current_location)
''', '''        if not isinstance(self.item_decoder, HeadTailDecoder):
            return

        base = stream.tell()
        first_valid = 32 * array_size
        limit = len(stream.getvalue()) - base
        remaining = array_size
        while remaining > 0:
            location = stream.tell()
            offset = decode_uint_256(stream)
            if offset < first_valid or offset >= limit:
                raise InvalidPointer(
                    f"Invalid pointer in array at location {location} in payload"
                )
            remaining -= 1
        stream.seek(base)
'''),
    (DEC, '''    @to_tuple
    def decode(self, stream):
        if self.item_decoder is None:
            raise AssertionError("`item_decoder` is None")

        self.validate_pointers(stream, self.array_size)
        for _ in range(self.array_size):
            yield self.item_decoder(stream)
''', '''    def decode(self, stream):
        self.validate_pointers(stream, self.array_size)
        return tuple([self.item_decoder(stream) for _ in range(self.array_size)])
'''),
    (DEC, '''        self._frames.append((offset, self.tell()))
        self._total_offset += offset

        self.seek_in_frame(0)
''', '''        frame = (offset, self.tell())
        self._frames = self._frames + [frame]
        self._total_offset = sum(o for o, _ in self._frames)

        self.seek(self._total_offset)
'''),
    (DEC, '''        start_pos = decode_uint_256(stream)
        # Jump ahead to the start of the value
        stream.push_frame(start_pos)

        # assertion check for mypy
        if self.tail_decoder is None:
            raise AssertionError("`tail_decoder` is None")
        # Decode the value
        value = self.tail_decoder(stream)
        # Return the cursor
        stream.pop_frame()

        return value
''', '''        stream.push_frame(decode_uint_256(stream))
        try:
            return self.tail_decoder(stream)
        finally:
            stream.pop_frame()
'''),
    (DEC, '''        if self.strict:
            if len(data) < padded_length:
                raise InsufficientDataBytes(
                    f"Tried to read {padded_length} bytes, only got {len(data)} bytes"
                )

            padding_bytes = data[data_length:]
            if padding_bytes != b"\\x00" * (padded_length - data_length):
                raise NonEmptyPaddingBytes(
                    f"Padding bytes were not empty: {repr(padding_bytes)}"
                )
        elif len(data) < data_length:
            raise InsufficientDataBytes(
                f"Tried to read {data_length} bytes, only got {len(data)} bytes"
            )

        return data[:data_length]
''', '''        required = padded_length if self.strict else data_length
        if len(data) < required:
            raise InsufficientDataBytes(
                f"Tried to read {required} bytes, only got {len(data)} bytes"
            )

        content, padding_bytes = data[:data_length], data[data_length:]
        if self.strict and padding_bytes.strip(b"\\x00"):
            raise NonEmptyPaddingBytes(
                f"Padding bytes were not empty: {repr(padding_bytes)}"
            )

        return content
'''),
    (DEC, '''        if value >= 2 ** (self.value_bit_size - 1):
            signed_value = value - 2**self.value_bit_size
        else:
            signed_value = value

        with decimal.localcontext(abi_decimal_context):
            decimal_value = decimal.Decimal(signed_value) / TEN**self.frac_places

        return decimal_value
''', '''        sign_bit = 1 << (self.value_bit_size - 1)
        signed_value = (value ^ sign_bit) - sign_bit

        with decimal.localcontext(abi_decimal_context):
            return decimal.Decimal(signed_value) / TEN**self.frac_places
'''),
]

SETS['reg1'] = [
    (REG, '''        results = tuple(
            (predicate, value)
            for predicate, value in self._values.items()
            if predicate(type_str)
        )

        if len(results) == 0:
            raise NoEntriesFound(
                f"No matching entries for '{type_str}' in {self._name}"
            )

        predicates, values = tuple(zip(*results))

        if len(results) > 1:
''', '''        predicates = []
        values = []
        for predicate, value in self._values.items():
            if predicate(type_str):
                predicates.append(predicate)
                values.append(value)

        if not values:
            raise NoEntriesFound(
                f"No matching entries for '{type_str}' in {self._name}"
            )

        if len(values) > 1:
'''),
    (REG, '''        # Delete the predicate mapping to the previously stored value
        try:
            del self._values[predicate]
        except KeyError:
            raise KeyError(f"Matcher {repr(predicate)} not found in {self._name}")

        # Delete any label which refers to this predicate
        try:
            label = self._label_for_predicate(predicate)
        except ValueError:
            pass
        else:
            del self._labeled_predicates[label]
''', '''        if predicate not in self._values:
            raise KeyError(f"Matcher {repr(predicate)} not found in {self._name}")

        del self._values[predicate]

        # Delete any label which refers to this predicate
        for label, labeled in list(self._labeled_predicates.items()):
            if labeled == predicate:
                self._labeled_predicates.pop(label)
                break
'''),
    (REG, '''        self.get_encoder.cache_clear()
        return old_method(self, *args, **kwargs)
''', '''        try:
            return old_method(self, *args, **kwargs)
        finally:
            self.get_encoder.cache_clear()
'''),
    (REG, '''        if callable(lookup):
            mapping.add(lookup, value, label)
            return

        if isinstance(lookup, str):
            mapping.add(Equals(lookup), value, lookup)
            return

        raise TypeError(
''', '''        if isinstance(lookup, str):
            lookup, label = Equals(lookup), lookup

        if callable(lookup):
            return mapping.add(lookup, value, label)

        raise TypeError(
'''),
    (REG, '''    try:
        abi_type = grammar.parse(type_str)
    except (exceptions.ParseError, ValueError):
        return False

    return abi_type.arrlist is not None
''', '''    try:
        return grammar.parse(type_str).is_array
    except (exceptions.ParseError, ValueError):
        return False
'''),
    (REG, '''            if abi_type.arrlist is not None:
                return False

            if self.with_sub is not None:
                if self.with_sub and abi_type.sub is None:
                    return False
                if not self.with_sub and abi_type.sub is not None:
                    return False

            return abi_type.base == self.base
''', '''            if abi_type.base != self.base or abi_type.is_array:
                return False

            has_sub = abi_type.sub is not None
            return self.with_sub is None or bool(self.with_sub) == has_sub
'''),
    (REG, '''        try:
            self.get_encoder(type_str)
        except Exception as e:
            if isinstance(e, MultipleEntriesFound):
                raise e
            return False

        return True
''', '''        try:
            self.get_encoder(type_str)
        except MultipleEntriesFound:
            raise
        except Exception:
            return False
        else:
            return True
'''),
]

SETS['reg2'] = [
    (REG, '''        cpy = type(self)(self._name)

        cpy._values = copy.copy(self._values)
        cpy._labeled_predicates = copy.copy(self._labeled_predicates)

        return cpy
''', '''        cpy = type(self)(self._name)
        cpy._values.update(self._values)
        cpy._labeled_predicates.update(self._labeled_predicates)
        return cpy
'''),
    (REG, '''        cpy = type(self)()

        cpy._encoders = copy.copy(self._encoders)
        cpy._decoders = copy.copy(self._decoders)

        return cpy
''', '''        duplicate = type(self)()
        for name in ("_encoders", "_decoders"):
            setattr(duplicate, name, getattr(self, name).copy())
        return duplicate
'''),
    (REG, '''        self._encoders = PredicateMapping("encoder registry")
        self._decoders = PredicateMapping("decoder registry")
        self.get_encoder = functools.cache(self._get_encoder_uncached)
        self.get_decoder = functools.cache(self._get_decoder_uncached)
''', '''        self._encoders = PredicateMapping("encoder registry")
        self._decoders = PredicateMapping("decoder registry")
        self.get_encoder = functools.lru_cache(maxsize=None)(self._get_encoder_uncached)
        self.get_decoder = functools.lru_cache(maxsize=None)(self._get_decoder_uncached)
'''),
    (REG, '''        if label is not None:
            if label in self._labeled_predicates:
                raise ValueError(
                    f"Matcher {repr(predicate)} with label '{label}' already exists "
                    f"in {self._name}"
                )

            self._labeled_predicates[label] = predicate

        self._values[predicate] = value
''', '''        if label is not None and label in self._labeled_predicates:
            raise ValueError(
                f"Matcher {repr(predicate)} with label '{label}' already exists "
                f"in {self._name}"
            )

        self._values[predicate] = value
        if label is not None:
            self._labeled_predicates[label] = predicate
'''),
    (REG, '''        try:
            predicate = self._labeled_predicates[label]
        except KeyError:
            raise KeyError(f"Label '{label}' not found in {self._name}")

        del self._labeled_predicates[label]
        del self._values[predicate]
''', '''        if label not in self._labeled_predicates:
            raise KeyError(f"Label '{label}' not found in {self._name}")

        self._values.pop(self._labeled_predicates.pop(label))
'''),
    (REG, '''        try:
            value = mapping.find(type_str)
        except ValueError as e:
            if "No matching" in e.args[0]:
                # If no matches found, attempt to parse in case lack of matches
                # was due to unparsability
                grammar.parse(type_str)

            raise

        return value
''', '''        try:
            return mapping.find(type_str)
        except NoEntriesFound:
            # attempt to parse in case lack of matches was due to unparsability
            grammar.parse(type_str)
            raise
'''),
    (REG, '''        if hasattr(decoder, "is_dynamic") and decoder.is_dynamic:
''', '''        is_dynamic = getattr(decoder, "is_dynamic", False)
        if is_dynamic:
'''),
    (REG, '''registry.register(
    BaseEquals("uint"),
    encoding.UnsignedIntegerEncoder,
    decoding.UnsignedIntegerDecoder,
    label="uint",
)
registry.register(
    BaseEquals("int"),
    encoding.SignedIntegerEncoder,
    decoding.SignedIntegerDecoder,
    label="int",
)
registry.register(
    BaseEquals("address"),
    encoding.AddressEncoder,
    decoding.AddressDecoder,
    label="address",
)
''', '''_SIMPLE = {
    "uint": (encoding.UnsignedIntegerEncoder, decoding.UnsignedIntegerDecoder),
    "int": (encoding.SignedIntegerEncoder, decoding.SignedIntegerDecoder),
    "address": (encoding.AddressEncoder, decoding.AddressDecoder),
}
for _base, (_encoder, _decoder) in _SIMPLE.items():
    registry.register(BaseEquals(_base), _encoder, _decoder, label=_base)
'''),
]

SETS['gra1'] = [
    (GRA, '''        return TYPE_ALIAS_RE.sub(
''', '''        return TYPE_ALIAS_RE.sub(
''') if False else
    (GRA, '''    return TYPE_ALIAS_RE.sub(
        lambda match: TYPE_ALIASES[match.group(0)],
        type_str,
    )
''', '''    def replace(match):
        alias = match.group(1)
        return TYPE_ALIASES[alias]

    return TYPE_ALIAS_RE.sub(replace, type_str)
'''),
    (GRA, '''        arrlist = self.arrlist

        if isinstance(arrlist, tuple):
            arrlist = "".join(repr(list(a)) for a in arrlist)
        else:
            arrlist = ""

        return f"({','.join(c.to_type_str() for c in self.components)}){arrlist}"
''', '''        inner = ",".join([c.to_type_str() for c in self.components])
        return "(" + inner + ")" + self._arrlist_str()
'''),
    (GRA, '''        if isinstance(sub, int):
            sub = str(sub)
        elif isinstance(sub, tuple):
            sub = "x".join(str(s) for s in sub)
        else:
            sub = ""

        if isinstance(arrlist, tuple):
            arrlist = "".join(repr(list(a)) for a in arrlist)
        else:
            arrlist = ""

        return self.base + sub + arrlist
''', '''        if sub is None:
            suffix = ""
        elif isinstance(sub, tuple):
            suffix = f"{sub[0]}x{sub[1]}"
        else:
            suffix = f"{sub}"

        return f"{self.base}{suffix}{self._arrlist_str()}"
'''),
    (GRA, '''    @property
    def _has_dynamic_arrlist(self):
        return self.is_array and any(len(dim) == 0 for dim in self.arrlist)
''', '''    @property
    def _has_dynamic_arrlist(self):
        return () in (self.arrlist or ())

    def _arrlist_str(self):
        if not self.arrlist:
            return ""
        return "".join("[" + ("" if not d else str(d[0])) + "]" for d in self.arrlist)
'''),
    (GRA, '''        if self._has_dynamic_arrlist:
            return True

        if self.base == "string":
            return True

        if self.base == "bytes" and self.sub is None:
            return True

        return False
''', '''        return (
            self._has_dynamic_arrlist
            or self.base == "string"
            or (self.base == "bytes" and self.sub is None)
        )
'''),
    (GRA, '''            if sub < 8 or 256 < sub:
                self.invalidate("integer size out of bounds (max 256 bits)")

            if sub % 8 != 0:
                self.invalidate("integer size must be multiple of 8")
''', '''            self._check_bits(sub, "integer")
'''),
    (GRA, '''            if bits < 8 or 256 < bits:
                self.invalidate("fixed size out of bounds (max 256 bits)")

            if bits % 8 != 0:
                self.invalidate("fixed size must be multiple of 8")
''', '''            self._check_bits(bits, "fixed")
'''),
    (GRA, '''    def validate(self):
        base, sub = self.base, self.sub
''', '''    def _check_bits(self, bits, kind):
        if not 8 <= bits <= 256:
            self.invalidate(f"{kind} size out of bounds (max 256 bits)")
        if bits % 8:
            self.invalidate(f"{kind} size must be multiple of 8")

    def validate(self):
        base, sub = self.base, self.sub
'''),
    (GRA, '''        components, arrlist = visited_children

        return TupleType(components, arrlist, node=node)
''', '''        return TupleType(visited_children[0], visited_children[1], node=node)
'''),
    (BAS, '''            normalized_type_str = normalize(type_str)
            abi_type = parse(normalized_type_str)

            type_str_repr = repr(type_str)
            if type_str != normalized_type_str:
                type_str_repr = "{} (normalized to {})".format(
                    type_str_repr,
                    repr(normalized_type_str),
                )

            if expected_base is not None:
''', '''            abi_type, type_str_repr = _parse_normalized(type_str)

            if expected_base is not None:
'''),
    (BAS, '''        normalized_type_str = normalize(type_str)
        abi_type = parse(normalized_type_str)

        type_str_repr = repr(type_str)
        if type_str != normalized_type_str:
            type_str_repr = "{} (normalized to {})".format(
                type_str_repr,
                repr(normalized_type_str),
            )

        if not isinstance(abi_type, TupleType):
''', '''        abi_type, type_str_repr = _parse_normalized(type_str)

        if not isinstance(abi_type, TupleType):
'''),
    (BAS, '''def parse_type_str(expected_base=None''', '''def _parse_normalized(type_str):
    canonical = normalize(type_str)
    text = repr(type_str)
    if type_str != canonical:
        text = f"{text} (normalized to {canonical!r})"
    return parse(canonical), text


def parse_type_str(expected_base=None'''),
    (BAS, '''        for key, value in kwargs.items():
            if not hasattr(cls, key):
                raise AttributeError(
''', '''        for key in kwargs:
            value = kwargs[key]
            if not hasattr(cls, key):
                raise AttributeError(
'''),
]

SETS['misc1'] = [
    (NUM, '''    return x if x % 32 == 0 else x + 32 - (x % 32)
''', '''    return -(-x // 32) * 32
'''),
    (NUM, '''        -1 * 2 ** (num_bits - 1),
        2 ** (num_bits - 1) - 1,
''', '''        -(1 << (num_bits - 1)),
        (1 << (num_bits - 1)) - 1,
'''),
    (NUM, '''    with decimal.localcontext(abi_decimal_context):
        upper = decimal.Decimal(int_upper) * TEN**-frac_places

    return ZERO, upper
''', '''    with decimal.localcontext(abi_decimal_context):
        return ZERO, decimal.Decimal(int_upper).scaleb(-frac_places)
'''),
    (PAD, '''    return value.rjust(length, b"\\x00")


zpad32 ''', '''    missing = length - len(value)
    return b"\\x00" * missing + value


zpad32 '''),
    (PAD, '''    return value.ljust(length, b"\\x00")
''', '''    return value + bytes(max(0, length - len(value)))
'''),
    (COD, '''        encoders = [self._registry.get_encoder(type_str) for type_str in types]

        encoder = TupleEncoder(encoders=encoders)

        return encoder(args)
''', '''        encoders = tuple(map(self._registry.get_encoder, types))

        return TupleEncoder(encoders=encoders).encode(args)
'''),
    (COD, '''        decoder = TupleDecoder(decoders=decoders)
        stream = self.stream_class(data)

        return cast(tuple[Any, ...], decoder(stream))
''', '''        stream = self.stream_class(data)
        return cast(tuple[Any, ...], TupleDecoder(decoders=decoders)(stream))
'''),
    (COD, '''        try:
            encoder.validate_value(arg)
        except EncodingError:
            return False
        except AttributeError:
            try:
                encoder(arg)
            except EncodingError:
                return False

        return True
''', '''        try:
            try:
                encoder.validate_value(arg)
            except AttributeError:
                encoder(arg)
        except EncodingError:
            return False

        return True
'''),
    (VAL, '''    if not isinstance(param, (list, tuple)):
        raise TypeError(
''', '''    is_sequence = isinstance(param, list) or isinstance(param, tuple)
    if not is_sequence:
        raise TypeError(
'''),
    (STRU, '''        rep = rep[: limit - 3] + "..."

    return rep
''', '''        return rep[: limit - 3] + "..."

    return rep
'''),
    (NUM, '''    def f(x: decimal.Decimal) -> decimal.Decimal:
        with decimal.localcontext(abi_decimal_context):
            return x * scaling_factor
''', '''    def f(x: decimal.Decimal) -> decimal.Decimal:
        with decimal.localcontext(abi_decimal_context):
            scaled = x * scaling_factor
        return scaled
'''),
]

SETS['quiet'] = [   # equivalences that look like changes
    (GRA, '''    def validate(self):
        for c in self.components:
            c.validate()
''', '''    def validate(self):
        for c in self.components:
            c.validate()
            c.validate()
'''),
    (DEC, '''        value_byte_size = self._get_value_byte_size()
        padding_size = self.data_byte_size - value_byte_size

        if padding_bytes != b"\\x00" * padding_size:
''', '''        if padding_bytes.count(0) != len(padding_bytes):
'''),
    (ENC, '''        if value >= 0:
            padded_encoded_value = zpad(base_encoded_value, self.data_byte_size)
        else:
            padded_encoded_value = fpad(base_encoded_value, self.data_byte_size)

        return padded_encoded_value

    @parse_type_str("int")''', '''        value %= 1 << (8 * self.data_byte_size)
        return value.to_bytes(self.data_byte_size, "big")

    @parse_type_str("int")'''),
    (REG, '''        if isinstance(coder, type) and issubclass(coder, BaseCoder):
            return coder.from_type_str(type_str, self)

        return coder
''', '''        is_class = isinstance(coder, type) and issubclass(coder, BaseCoder)
        return coder.from_type_str(type_str, self) if is_class else coder
'''),
    (REG, '''        self.register_encoder(lookup, encoder, label=label)
        self.register_decoder(lookup, decoder, label=label)
''', '''        for method, coder in (
            (self.register_encoder, encoder),
            (self.register_decoder, decoder),
        ):
            method(lookup, coder, label=label)
'''),
    (ENC, '''        self.is_dynamic = any(getattr(e, "is_dynamic", False) for e in self.encoders)
''', '''        dynamic = False
        for encoder in self.encoders:
            if getattr(encoder, "is_dynamic", False):
                dynamic = True
                break
        self.is_dynamic = dynamic
'''),
    (DEC, '''        self.decoders = tuple(
            HeadTailDecoder(tail_decoder=d) if getattr(d, "is_dynamic", False) else d
            for d in self.decoders
        )

        self.is_dynamic = any(getattr(d, "is_dynamic", False) for d in self.decoders)
''', '''        dynamic = [getattr(d, "is_dynamic", False) for d in self.decoders]
        self.decoders = tuple(
            HeadTailDecoder(tail_decoder=d) if is_dynamic else d
            for d, is_dynamic in zip(self.decoders, dynamic)
        )

        self.is_dynamic = any(dynamic)
'''),
    (DEC, '''        data = stream.read(self.data_byte_size)

        if len(data) != self.data_byte_size:
            raise InsufficientDataBytes(
                f"Tried to read {self.data_byte_size} bytes, "
                f"only got {len(data)} bytes."
            )

        return data
''', '''        return _read_exactly(stream, self.data_byte_size)
'''),
    (DEC, '''class BaseDecoder(BaseCoder, metaclass=abc.ABCMeta):
''', '''def _read_exactly(stream, size):
    data = stream.read(size)

    if len(data) < size:
        raise InsufficientDataBytes(
            f"Tried to read {size} bytes, only got {len(data)} bytes."
        )

    return data


class BaseDecoder(BaseCoder, metaclass=abc.ABCMeta):
'''),
]

SETS['str1'] = [
    (STR, """    bits = abi_type.sub

    return st.integers(
        min_value=0,
        max_value=2**bits - 1,
    )
""", """    return _integers(0, 2**abi_type.sub)
"""),
    (STR, """    bits = abi_type.sub

    return st.integers(
        min_value=-(2 ** (bits - 1)),
        max_value=2 ** (bits - 1) - 1,
    )
""", """    half = 1 << (abi_type.sub - 1)
    return _integers(-half, half)
"""),
    (STR, """def get_uint_strategy(
""", """def _integers(lower: int, end: int) -> st.SearchStrategy:
    return st.integers(lower, end - 1)


def get_uint_strategy(
"""),
    (STR, """    last_dim = abi_type.arrlist[-1]
    if len(last_dim) == 0:
        # Is dynamic list.  Don't restrict length.
        return st.lists(item_strategy)
    else:
        # Is static list.  Restrict length.
        dim_size = last_dim[0]
        return st.lists(item_strategy, min_size=dim_size, max_size=dim_size)
""", """    sizes = {}
    for dim_size in abi_type.arrlist[-1]:
        sizes = {"min_size": dim_size, "max_size": dim_size}
    return st.lists(item_strategy, **sizes)
"""),
    (STR, """    component_strategies = [
        registry.get_strategy(comp_abi_type.to_type_str())
        for comp_abi_type in abi_type.components
    ]

    return st.tuples(*component_strategies)
""", """    return st.tuples(
        *(registry.get_strategy(c.to_type_str()) for c in abi_type.components)
    )
"""),
    (STR, """            normalized_type_str = normalize(type_str)
            abi_type = parse(normalized_type_str)
            strategy = registration(abi_type, self)

            return strategy  # type""", """            return registration(parse(normalize(type_str)), self)  # type"""),
    (STR, """    num_bytes = abi_type.sub

    return st.binary(
        min_size=num_bytes,
        max_size=num_bytes,
    )
""", """    size = {"min_size": abi_type.sub, "max_size": abi_type.sub}
    return st.binary(**size)
"""),
]
