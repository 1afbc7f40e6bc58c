#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe, "hook_needed": None,
        },
    })


EXC = "eth_abi/exceptions.py"
ENC, DEC, REG, GRA, COD, BAS, NUM, PAD, STR = (
    "eth_abi/encoding.py", "eth_abi/decoding.py", "eth_abi/registry.py", "eth_abi/grammar.py",
    "eth_abi/codec.py", "eth_abi/base.py", "eth_abi/utils/numeric.py", "eth_abi/utils/padding.py",
    "eth_abi/tools/_strategies.py")

prop("C01", "Scalar encoding accepts exactly the legal values of the ABI type",
     "For every scalar ABI type (bool, uintM, intM, ufixedMxN, fixedMxN, address, bytesM, bytes, string) encoding a Python value succeeds exactly when the value is of the supported Python kind and is exactly representable in that type (in range, no fractional digits beyond N, finite, at most M bytes, 20-byte or 40-hex-digit address, text expressible in UTF-8). Every other value raises an encoding error; no value is ever wrapped, truncated or rounded into range.",
     ["inputs"], "every scalar ABI type (all M, all N) and every Python value",
     "Tests sample a few widths and random values per type; the boundary of the accepted set for each of 2,700 types, negative sub-precision fixed values and odd Python kinds are points they never visit.",
     [ENC, NUM], [("value validation of each scalar encoder", ENC), ("bounds computation", NUM)],
     ["eth_abi.encode"])

prop("C02", "Static scalars are encoded as the one canonical 32-byte word",
     "For every legal value of a static scalar type the encoding is exactly 32 bytes: numbers, booleans and addresses right-aligned big-endian (two's complement sign extension for negative numbers, zeros otherwise), fixed-size byte values left-aligned and zero-filled, fixed-point numbers as the integer value times ten to the N.",
     ["inputs"], "every static scalar type and every legal value of it",
     "Equality of the produced word with the ABI word has to hold for all 2^M values of each type; tests compare a handful.",
     [ENC, PAD, NUM], [("encode/pad methods of the fixed-size encoders", ENC), ("padding helpers", PAD)],
     ["eth_abi.encode"])

prop("C03", "bytes and string encode as length, content, zero padding to 32",
     "For every byte string and every UTF-8 expressible text the encoding is a 32-byte big-endian count of content bytes, the content bytes unchanged, then the fewest zero bytes that bring the content to a multiple of 32 (none for empty content).",
     ["inputs"], "every content and every content length",
     "The padding depends on the length modulo 32 for unboundedly many lengths and on text-versus-byte length; tests sample short ASCII values.",
     [ENC, PAD, NUM], [("byte string and text encoders", ENC), ("ceil32", NUM)], ["eth_abi.encode"])

prop("C04", "Tuples and arrays are laid out by the head-tail scheme",
     "For every tuple, fixed-size array, dynamic array and top-level argument list, at every nesting, the encoding is: (element count for dynamic arrays), then one head per element in order - the element's encoding if it is static, else a 32-byte offset measured from the start of that container's heads - then the encodings of the dynamic elements in order. Each offset equals the exact position of its element's encoding.",
     ["inputs"], "every nesting of tuples and arrays over static and dynamic elements, every element value and size",
     "Offsets depend on the widths of all earlier heads and tails; tests fix a few type strings and values.",
     [ENC, COD], [("tuple encoder", ENC), ("array element encoder", ENC), ("top-level argument tuple", COD)],
     ["eth_abi.encode"])

prop("C05", "Container encoding accepts exactly well-shaped, fully legal values",
     "Encoding a tuple or array value succeeds exactly when the value is list-like (a sequence that is not text or bytes), has exactly the number of elements the type requires (any number for dynamic arrays), and every element at every depth is itself encodable. Otherwise an encoding error is raised and no bytes are produced; no element is skipped, dropped or ignored.",
     ["inputs"], "every container type, every value shape and every position of a bad element",
     "A bad element can sit at any index of any nesting level; tests place it in a few.",
     [ENC, COD], [("tuple / array value validation", ENC)], ["eth_abi.encode"])

prop("C06", "A static word decodes to its unique value or is rejected as non-canonical",
     "For every static scalar type and every 32-byte word, decoding returns the value whose canonical encoding is exactly that word if there is one, and otherwise raises a decoding error (non-zero padding, wrong sign extension, boolean other than 0 or 1). This holds in both strict and non-strict mode.",
     ["inputs"], "every static scalar type and all 2^256 words",
     "2^256 words per type; the tests sample random words, where e.g. a wrongly accepted padding bit has negligible probability of showing.",
     [DEC], [("fixed-size decoders' split / padding validation", DEC)], ["eth_abi.decode"])

prop("C07", "bytes and string decode to exactly the declared content",
     "Decoding a bytes or string value returns exactly the content bytes announced by its 32-byte length word, decoded as UTF-8 for text. In strict mode it succeeds only if the data extend to the next multiple of 32 and all padding bytes are zero.",
     ["inputs"], "every data blob, length word and content",
     "The interesting inputs are lengths around multiples of 32 and around the end of the data, and single dirty padding bytes.",
     [DEC, NUM], [("byte string decoder read path", DEC)], ["eth_abi.decode"])

prop("C08", "Container decoding follows offsets relative to their own container",
     "Decoding a tuple or array reads the element heads in order from the start of that container, follows each offset of a dynamic element relative to the start of that same container's heads, and yields one value per element in order, as a tuple. Decoding one element never disturbs where the following elements are read from, at any nesting.",
     ["inputs"], "every nesting of containers, every offset placement in the data",
     "Canonical encodings keep elements adjacent, so wrong frame bases or an unrestored cursor often go unseen; arbitrary (legal) placements of tails are not tested.",
     [DEC, COD], [("contextual frames of the stream", DEC), ("head-tail, tuple and array decoders", DEC)],
     ["eth_abi.decode"], [("frame stack", "base offsets of the containers being decoded", DEC)])

prop("C09", "Every followed offset points past the heads and inside the data",
     "When a tuple, array or top-level argument list is decoded, every offset in its heads must point at or beyond the end of that container's heads and before the end of the data; otherwise decoding raises an invalid-pointer error before following it, and no valid offset is rejected for that reason.",
     ["inputs"], "every container type and every offset value, including heads wider than one word",
     "Crafted offsets into the head area or past the end are adversarial inputs; tests hold five of them.",
     [DEC], [("pointer validation in tuple and array decoders", DEC)], ["eth_abi.decode"])

prop("C10", "Truncated data never decode to a value",
     "If the data end before all the bytes a value's type, offsets and length words call for, decoding raises an insufficient-data (or invalid-pointer) error. No missing byte is invented, and no shortened value or shortened list is returned, in strict or non-strict mode.",
     ["inputs"], "every type and every cut position of every data blob",
     "Every cut position of every encoding is a separate input; tests try empty data and a few cuts.",
     [DEC], [("length check after each stream read", DEC)], ["eth_abi.decode"])

prop("C11", "Malformed data raise only the library's decoding errors",
     "For every ABI type and every byte blob, decoding either returns a value or raises a decoding error of the library (or the documented Unicode error for text that is not UTF-8). Arbitrary offset and length words never surface as other exceptions.",
     ["inputs"], "every type and every byte blob, including offset and length words up to 2^256-1",
     "The tests' blobs rarely contain length words beyond machine-integer range.",
     [DEC, COD], [("error discipline of the decoders", DEC)], ["eth_abi.decode"])

prop("C12", "Decoding an encoding gives back the original values",
     "For every type list and every encodable value list, decoding the produced bytes with the same types succeeds and returns the same values (sequences as tuples, addresses as lower-case 0x hex text, short fixed-size byte values extended with zeros).",
     ["inputs"], "every type list and every encodable value list",
     "Requires encoder and decoder to agree for all types and values; the tests check it for randomly sampled ones.",
     [ENC, DEC, COD], [("matching encoder/decoder pairs in the registry", REG)], ["eth_abi.encode", "eth_abi.decode"])

prop("C13", "The encodability check predicts exactly what encoding does",
     "For every type string and every Python value the encodability check returns True exactly when encoding that single value succeeds and False when encoding it raises an encoding error or the type has no usable encoder; it never raises for an unencodable value. This holds for standard and packed mode and for custom coders.",
     ["inputs", "configurations"], "every type string, every Python value, standard, packed and customised registries",
     "The two entry points validate through different paths; agreement is needed on every value, not the sampled ones.",
     [COD, ENC], [("is_encodable / validate_value", COD)], ["eth_abi.is_encodable", "eth_abi.packed.is_encodable_packed"])

prop("C14", "Non-strict decoding relaxes only the padding of bytes and string",
     "With strict turned off, decoding differs from strict decoding only in that the padding after the content of bytes and string values may be missing or non-zero; every other check and every decoded value stays the same. Strict mode is the default.",
     ["inputs", "configurations"], "every type, data blob and strictness setting",
     "Needs comparison of two modes over all malformed inputs; the tests hold three non-strict examples.",
     [DEC, REG, COD], [("strict flag of dynamic decoders", REG)], ["eth_abi.decode"])

prop("C15", "The strictness of one decode call never affects another",
     "Whether a decode call is strict is determined only by that call's own argument: for every history of earlier calls and every kind of registration (coder classes and ready-made coder objects), a strict call enforces strict checks and a non-strict call does not.",
     ["histories"], "every sequence of strict and non-strict decode calls over shared, cached decoders",
     "Depends on the history of calls sharing cached decoder objects; the only test covers classes, one order.",
     [REG, DEC, COD], [("decoder cache keyed by strictness; strict flag assignment", REG)], ["eth_abi.decode"],
     [("strict", "flag held on decoder objects that are cached and shared", REG)])

prop("C16", "A type string is routed only by a unique matching registration",
     "Looking up a coder for a type string uses the one registration that matches it; if none matches, a no-entry (or parse) error is raised, and if more than one matches, a multiple-entries error is raised - never a silent pick, whatever the order of registration. The existence check returns False only when there is no usable coder and still raises for ambiguous matches.",
     ["configurations", "histories"], "every set of registrations, every order, every type string",
     "Registrations are user-supplied predicates; all match patterns and orders cannot be sampled.",
     [REG], [("predicate mapping lookup", REG)], ["ABIRegistry.get_encoder", "ABIRegistry.get_decoder", "ABIRegistry.has_encoder"])

prop("C17", "Registry changes take effect on the very next lookup",
     "After any successful registration or unregistration (encoder, decoder or both; by type string, matcher or label), every later lookup, encode, decode or encodability check through that registry reflects the change, including for compound types containing the changed type, regardless of which lookups were made and cached before.",
     ["histories"], "every interleaving of lookups and registry changes",
     "Stale caches show only for particular look-up/change/look-up histories; the tests have one per direct type.",
     [REG], [("cache clearing on mutation", REG), ("per-registry lookup caches", REG)],
     ["ABIRegistry.get_encoder", "ABIRegistry.get_decoder"],
     [("lookup caches", "memoised type string to coder lookups", REG)])

prop("C18", "Registry copies are fully isolated from each other",
     "A copy of a registry (made by its copy method or the standard copy protocols) starts with the same registrations, and from then on registrations and unregistrations on either one never change what any lookup on the other returns, in either direction; two codecs over different registries never influence each other.",
     ["histories"], "every history of changes and lookups on originals and copies",
     "Aliasing between copies shows only after particular mutation orders; tests check one direction on one entry.",
     [REG], [("registry and mapping copy", REG)], ["ABIRegistry.copy"])

prop("C19", "Lookups and labels are added and removed together",
     "Every registration can be removed by its label or by a matcher equal to the one registered, after which neither the label nor the matcher is known any more and both can be registered again; adding a duplicate matcher or duplicate label is refused. A refused or failed addition or removal of an encoder or decoder leaves the set of registrations and labels unchanged.",
     ["histories"], "every sequence of additions and removals by matcher or label",
     "A dangling label or half-done addition shows only in a later operation of the history.",
     [REG], [("predicate mapping add/remove bookkeeping", REG)], ["ABIRegistry.register*", "ABIRegistry.unregister*"],
     [("labels", "label to matcher map that must mirror the matcher to value map", REG)])

prop("C20", "Type strings parse exactly and losslessly",
     "A string parses exactly when it is a valid type string (letters with optional size or size-pair, or a parenthesised non-empty comma list of types, each with optional array suffixes; sizes positive without leading zeros and short enough for the interpreter to convert), anything else raises a parse or value error and non-strings raise a type error. A parsed type reports its base, size, components and array dimensions as written, its string form equals the input, its item type drops exactly the last dimension, and two parsed types are equal exactly when their string forms are.",
     ["inputs"], "every string",
     "Infinite language; hypothesis tests sample generated valid strings and few invalid ones.",
     [GRA], [("grammar rules", GRA), ("tree visitor", GRA), ("type classes", GRA)],
     ["eth_abi.grammar.parse", "ABIType.to_type_str"])

prop("C21", "Only valid ABI types get coders",
     "An encoder or decoder is obtainable for a built-in type exactly when the type is valid under the ABI specification at every nesting level: integer widths 8..256 in steps of 8, fixed widths likewise with 1..80 decimals, fixed byte sizes 1..32, no size suffix on bool, address, string or function. Invalid types raise a value/ABI-type error and are reported as not encodable.",
     ["inputs"], "every type string, at every nesting position",
     "Infinite set of invalid sizes and positions; tests list some.",
     [GRA, BAS, REG], [("type validation", GRA), ("from_type_str decorators", BAS)],
     ["eth_abi.is_encodable_type", "ABIRegistry.get_decoder", "ABIType.validate"])

prop("C22", "Type aliases mean their canonical types everywhere",
     "int, uint, fixed, ufixed, function and byte behave exactly like int256, uint256, fixed128x18, ufixed128x18, bytes24 and bytes1 wherever a type may appear, at top level, in tuples and in arrays, for encoding, decoding and encodability checks. Normalisation replaces every whole-word alias and changes nothing else.",
     ["inputs"], "every type string containing aliases at any position",
     "Positions and neighbours of an alias in a type string are unbounded.",
     [GRA, REG, BAS], [("alias table and regular expression", GRA), ("alias registrations", REG)],
     ["eth_abi.grammar.normalize", "eth_abi.encode", "eth_abi.decode"])

prop("C23", "All parts agree on which types are dynamic",
     "A type is dynamic exactly when it is bytes, string, any dynamic array, or a tuple or fixed-size array containing a dynamic type; the parsed type, the encoder and the decoder of every type string agree on this.",
     ["inputs"], "every type string",
     "Three independent computations must agree for every nesting.",
     [GRA, ENC, DEC], [("is_dynamic of types and coders", GRA)], ["ABIType.is_dynamic", "eth_abi.encode", "eth_abi.decode"])

prop("C24", "Packed encoding concatenates minimal-width encodings",
     "Packed mode accepts the same values as standard mode and encodes each scalar in exactly its own width (M/8 bytes for numbers, M for bytesM, 20 for addresses, 1 for bool, raw content for bytes and string), and tuples and arrays as the plain concatenation of their elements' packed encodings, without offsets, counts or padding.",
     ["inputs"], "every type and every encodable value",
     "All widths and nestings; the tests fix a list of examples.",
     [ENC, REG], [("packed encoders", ENC), ("packed registry", REG)], ["eth_abi.packed.encode_packed"])

prop("C25", "Encoding and decoding have no side effects on shared state",
     "Encoding, decoding and encodability checks never modify the caller's type lists, values or data, the shared coder objects, or process-wide state (such as the decimal context); apart from memoising lookups, each call depends only on its own arguments and the registrations, so calls may be repeated, nested or run concurrently.",
     ["schedules", "histories"], "every interleaving and history of calls over shared coders",
     "Interference needs particular interleavings or call histories on cached coder objects, which are shared by all threads.",
     [ENC, DEC, COD, REG, NUM], [("stateless coders; per-call stream", COD)], ["eth_abi.encode", "eth_abi.decode", "eth_abi.is_encodable"])

prop("C26", "Fixed-point results do not depend on the decimal context",
     "Encoding, decoding and checking fixed-point values give the exact result for every type and value whatever precision, rounding or traps the caller's decimal context has.",
     ["configurations", "inputs"], "every ambient decimal context, every fixed-point type and value",
     "Tests run under the default context, whose 28 digits hide misplaced arithmetic for most values.",
     [ENC, DEC, NUM], [("library decimal context around every operation", NUM)], ["eth_abi.encode", "eth_abi.decode"])

prop("C27", "Argument containers are checked before anything else",
     "Encoding requires its types and values to be lists or tuples, and decoding requires its types to be a list or tuple and its data to be bytes or bytearray; anything else raises TypeError and produces no result. Lists and tuples, and bytes and bytearray, are treated alike.",
     ["inputs"], "every kind of Python object passed as types, values or data",
     "Tests try a few wrong kinds.",
     [COD, "eth_abi/utils/validation.py"], [("parameter validation", "eth_abi/utils/validation.py")],
     ["eth_abi.encode", "eth_abi.decode", "eth_abi.packed.encode_packed"])

prop("C28", "Value strategies generate only, and all, encodable values",
     "For every valid ABI type the hypothesis strategy offered for it only generates values that are encodable as that type, and for numeric, boolean, address and fixed-size byte types its range is the full range of the type; the empty byte string and dynamic arrays of every small length, including the empty one, can be generated.",
     ["inputs"], "every type string and every value its strategy can generate",
     "Strategies are sampled; a range that is off by one at one width is practically never hit.",
     [STR, NUM], [("strategy factories and registry", STR)], ["eth_abi.tools.get_abi_strategy"])

prop("C29", "Custom coders work like built-in ones inside compound types",
     "A coder registered by a user, whether a plain callable, a coder object or a coder class, is used for its type string at top level and as element of tuples and arrays, for encoding, decoding and encodability checks, and contributes exactly once per element and in order; it counts as static unless it declares itself dynamic. Coder classes receive the type string and the registry, and unknown settings are refused at construction.",
     ["configurations", "inputs"], "every kind of custom coder and every compound type containing it",
     "Every combination of coder kind and container; the tests cover callables in tuples only.",
     [ENC, DEC, BAS, REG], [("duck-typed access to coder attributes in containers", ENC), ("settings assignment", BAS)],
     ["ABICodec over a customised registry"])

prop("C30", "Decoding effort is bounded by the size of the data",
     "The time and memory used to decode a blob are bounded by a modest function of the blob's size and the type string, for every blob, so that untrusted data cannot exhaust resources.",
     ["inputs"], "every type and every byte blob",
     "Quantifies over adversarial inputs and measures cost, not results.",
     [DEC], [("pointer validation", DEC)], ["eth_abi.decode"])

prop("C31", "Parsed types are validated exactly",
     "Validating a parsed type string raises ABITypeError exactly when some basic part of it, at any nesting depth, has a size its base does not allow (int and uint need 8 to 256 bits in steps of 8; fixed and ufixed need such bits and 1 to 80 decimal places; bytes has none or at most 32; hash needs a number; string, address and bool have none); parts with unknown bases are accepted. The item type of an array validates like the array.",
     ["inputs"], "every parsable type string, every part at every depth",
     "All sizes at all positions of all nestings; the tests list a few.",
     [GRA], [("BasicType.validate, TupleType.validate", GRA)], ["eth_abi.grammar.parse(..).validate"])

prop("C32", "Frames of the decoding stream nest exactly",
     "On the decoding stream, opening a frame puts the cursor at the sum of the offsets of all open frames, seeking in a frame is relative to that sum, reading returns the bytes at the cursor, and closing a frame removes the innermost one and returns the cursor to where it was when that frame was opened; closing with no open frame raises IndexError and leaves the stream as it was.",
     ["histories", "inputs"], "every sequence of stream operations with any offsets over any data",
     "Custom decoders share this stream with the built-in ones; the property is about all histories of operations.",
     [DEC], [("ContextFramesBytesIO", DEC)], ["eth_abi.decoding.ContextFramesBytesIO"])

prop("C33", "Encoding errors name the cause of the rejection",
     "A rejected value raises EncodingTypeError when its Python type does not suit the ABI type (for addresses: whenever it is no address), ValueOutOfBounds when a number is outside the type's range, a byte string is longer than bytesM allows or a container has the wrong number of items, and IllegalValue (but not ValueOutOfBounds) for NaN, infinities, fractional digits the type cannot hold and text that has no UTF-8 form; at top level and for elements at any depth, in standard and packed mode.",
     ["inputs"], "every type and every illegal value with a single cause",
     "Callers branch on the class; every combination of type, cause and nesting has to agree.",
     [ENC, EXC], [("validate_value and invalidate_value", ENC), ("documented error classes", EXC)], ["eth_abi.encode", "eth_abi.packed.encode_packed"])

prop("C34", "Coder factories run only for the types they declare",
     "A from_type_str factory made with the library's decorators runs exactly for type strings that, after alias normalisation, are valid types with the declared base and array-ness (or are tuple types), and receives the class it was called on, the parsed normalised type and the registry; for any other string it raises a ValueError or ParseError. The built-in coder classes follow the same rule for their own families.",
     ["inputs", "configurations"], "every type string, every declared base and array-ness, every built-in coder class",
     "All pairs of factory and type string; in the registry most of them are masked by the predicates.",
     [BAS, ENC, DEC], [("parse_type_str, parse_tuple_type_str", BAS)], ["eth_abi.base.parse_type_str", "BaseCoder.from_type_str"])

prop("C35", "Coders built directly from settings are checked and behave like their type",
     "Building a coder with missing or unusable settings (bit sizes that are no multiple of 8 or exceed 256, decimal places outside 1 to 80, an address encoder of other than 160 bits, missing item coders, missing array size of an encoder) raises ValueError; a coder built from usable settings encodes and decodes exactly like the coder of the ABI type they describe.",
     ["configurations", "inputs"], "every combination of settings, every value, all data",
     "Settings, values and data are unbounded; the tests try a few sizes.",
     [ENC, DEC, BAS], [("validate of the coder classes", ENC)], ["eth_abi.encoding", "eth_abi.decoding"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
