#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator only for readability)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n,where=w) for n,w in mech],
            state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
            observe_at=list(observe),hook_needed=None)))
I='include/zerialize/'
prop('C01','Zera reader never touches bytes outside its input',
 'For every byte buffer, well-formed or hostile, constructing a Zera reader over it and calling any accessor on any value reachable from it (predicates, scalars, strings, blobs, array and map lookup, key iteration) reads only bytes of that buffer. Every string or blob view it hands out lies entirely inside the buffer. Malformed input ends in a deserialization error instead.',
 ['inputs'],'every buffer content and length, every index, key and nesting of accessor calls',
 'The tests feed a handful of writer-produced and hand-corrupted buffers; an out-of-range offset, wrapping sum or truncated cast needs a specific crafted length field.',
 [I+'protocols/zera.hpp'],[('header validation on construction','ZeraDeserializer::init_from'),('envelope span check','ZeraViewBase::env_ptr_at'),('arena span check','ZeraViewBase::arena_bytes_view, arena_blob_view'),('key iteration checks','ZeraViewBase::KeysView::iterator')],
 [('env_/env_size_','envelope range inside the buffer','zera.hpp ZeraViewBase'),('arena_/arena_len_','arena range inside the buffer','zera.hpp ZeraViewBase')])
prop('C02','MsgPack reader never touches bytes outside its input',
 'For every byte buffer, well-formed or hostile, and for an empty one, every accessor of a MsgPack reader and of the values reached from it (predicates, scalars, strings, blobs, array and map lookup, key iteration) reads only bytes of that buffer. Every string, blob or sub-value view it hands out lies entirely inside the buffer. Truncated or unsupported encodings end in a deserialization error instead.',
 ['inputs'],'every buffer content and length, every index, key and nesting of accessor calls',
 'Tests only decode what the writer produced; truncation and lying length fields are not sampled.',
 [I+'protocols/msgpack.hpp'],[('element skipper','mp_skip'),('header decoders','str_info, bin_info, arr_info, map_info'),('scalar length checks','asInt64, asUInt64, asDouble')],
 [('view_','span of the current element','MsgPackDeserializer')])
prop('C03','CBOR reader never touches bytes outside its input',
 'For every byte buffer, well-formed or hostile, every accessor of a CBOR reader and of the values reached from it (predicates, scalars, strings, blobs, array and map lookup, key iteration) reads only bytes of that buffer. Every string or blob view it hands out lies entirely inside the buffer. Truncated or malformed encodings end in a deserialization error instead.',
 ['inputs'],'every buffer content and length, every index, key and nesting of accessor calls',
 'The CBOR reader is not even compiled by the offline test build, and its tests only decode writer output.',
 [I+'protocols/cbor.hpp'],[('head decoder','CborDeserializer::read_head'),('element skipper','CborDeserializer::skip'),('key iterator','CborDeserializer::KeysView::iterator')])
prop('C04','MsgPack decoding follows the MessagePack specification',
 'For every first byte and every sufficiently long input, the MsgPack reader classifies the value (null, bool, int, uint, float, string, blob, array, map) as the MessagePack specification does, and its scalar accessors return exactly the value the specification assigns to the bytes. String and blob views start right after the header and have the encoded length, array sizes are the encoded count, and element lookup skips exactly the encoded length of the preceding elements. Scalar, string, blob and size accessors reject every marker that does not encode their kind.',
 ['inputs'],'all 256 markers, all payload bytes, all buffer lengths',
 'Tests cover the markers the writer happens to choose for small values; wide integers, str16/32, bin16/32, array16/32, map16/32 and cross-kind rejections are sampled thinly or not at all.',
 [I+'protocols/msgpack.hpp'],[('marker dispatch','asInt64, asUInt64, asDouble, asBool, is*'),('headers','str_info, bin_info, arr_info, map_info'),('skip table','mp_skip')])
prop('C05','Integer accessors return the exact value or throw',
 'In the Zera, MsgPack, FlexBuffers and CBOR readers, an 8-, 16-, 32- or 64-bit integer accessor (signed or unsigned) either returns exactly the integer stored in the value or throws a deserialization error; it never returns a truncated, wrapped or sign-changed number. Every stored integer that does fit the requested type and has the requested kind is returned, not rejected.',
 ['inputs'],'every stored 64-bit integer (signed or unsigned), every accessor width and signedness, each of the four readers',
 'Tests read back small numbers with matching accessors; the boundaries of each width and the sign boundary are mostly not sampled.',
 [I+'protocols/zera.hpp',I+'protocols/msgpack.hpp',I+'protocols/flex.hpp',I+'protocols/cbor.hpp'],
 [('range checks before narrowing','asInt8/16/32/64, asUInt8/16/32/64 of each reader')])
prop('C06','Zera values read back exactly as written',
 'Whatever null, boolean, signed or unsigned 64-bit integer, double, string or blob is written with the Zera writer as the root, as an array element or as a map value, the finished buffer is accepted by the Zera reader and that value reads back with the same kind and bit-for-bit the same content. This holds for every string and blob length, every key, and every inline-string threshold setting, and element and key order and counts are preserved.',
 ['inputs','configurations'],'every scalar value, string/blob/key content and length, threshold 0..12, position in the document',
 'Tests write a few short strings and small numbers; threshold boundaries, empty payloads, neighbours in the arena and large lengths are not sampled.',
 [I+'protocols/zera.hpp',I+'protocols/ZERA.md'],[('value reference encoder','RootSerializer::make_vr / deliver_vr'),('arena allocation','RootSerializer::arena_alloc'),('value reference decoder','ZeraViewBase accessors')])
prop('C07','Zera buffers follow the documented layout and alignment',
 'Every buffer produced by the Zera writer starts with the documented 20-byte header (magic, version 1, little-endian flag, root offset, envelope size, arena offset), its arena starts at a multiple of 16 not before the end of the envelope, and every blob payload starts at a multiple of 16 from the start of the buffer. Value references, arrays, objects and shapes are laid out byte for byte as ZERA.md describes, so an independent reader of the format sees the same document.',
 ['inputs','programs'],'every document, every order and length of preceding strings and blobs',
 'A writer/reader pair that changes the layout symmetrically still passes round-trip tests; alignment only fails for particular preceding lengths.',
 [I+'protocols/zera.hpp',I+'protocols/ZERA.md'],[('finish() header emission','RootSerializer::finish'),('aligned arena allocation','RootSerializer::arena_alloc, align_up'),('value reference encoder','RootSerializer::make_vr')])
prop('C08','Zera writer rejects misuse instead of emitting a bad buffer',
 'Any call sequence that does not describe exactly one well-formed document (two roots, a value in a map without a key, two keys in a row, a key outside a map, a mismatched or surplus end, finishing inside an open container, a key longer than 65535 bytes, an inline threshold above 12, a string or blob of 4 GiB or more) makes the Zera writer throw a serialization error at the offending call (at the latest when it ends, for a container opened where no value may stand). Every well-formed sequence within those limits is accepted.',
 ['histories','inputs'],'every state of the container stack and every writer operation applied to it; every length',
 'The tests only drive the writer through correct sequences with small sizes.',
 [I+'protocols/zera.hpp'],[('container stack checks','Serializer::end_array, end_map, key; RootSerializer::deliver_vr, write_root_vr, finish'),('limit checks','Serializer::key, string, binary, set_inline_string_threshold')])
prop('C09','Zera reader accepts exactly valid headers',
 'Constructing a Zera reader succeeds only if the buffer has at least a full header, the right magic, version 1, exactly the little-endian flag, an envelope that fits between header and arena, an arena offset that is inside the buffer and a multiple of 16, and a root reference that lies wholly inside the envelope; otherwise it throws a deserialization error. Every header meeting those conditions is accepted.',
 ['inputs'],'every value of every header field and every buffer length, including wrap-around combinations',
 'Tests corrupt a few fields with fixed values; wrap-around and boundary combinations need particular 32-bit values.',
 [I+'protocols/zera.hpp'],[('header checks','ZeraDeserializer::init_from, parse_header')])
prop('C10','Translation preserves kind, value, order and structure',
 'Translating any value from any reader to any writer emits exactly one value: null, booleans, integers, floats, strings and blobs are passed through with the same kind and content, an array becomes a begin announcing its size, its elements in index order and a matching end, and a map becomes a begin announcing its key count, each key in iteration order followed by the value stored under it, and a matching end. Nothing is dropped, duplicated or reordered, and a value of no known kind is an error.',
 ['inputs','programs'],'every reader value of every kind and size, any Reader and Writer type',
 'Tests translate a few documents among three protocols and compare selected fields.',
 [I+'translate.hpp'],[('kind dispatch and recursion','write_value'),('protocol bridge','translate')])
prop('C11','Serializing C++ values and builders emits exactly that value',
 'Serializing a built-in arithmetic value, string, byte blob, standard container (vector, list, array, initializer list, map, unordered_map), or a zvec/zmap builder makes exactly the writer calls that describe it: integers keep their value and signedness, floats their value, strings their full length, and containers announce their true element count and then emit every element (for maps, each key followed by its value) in order between matching begin and end.',
 ['inputs','programs'],'every value, element count and nesting, any Writer type',
 'Tests serialize a few literals; they cannot range over values, counts or writer types.',
 [I+'internals/serializers.hpp',I+'zbuilders.hpp',I+'serialize.hpp',I+'internals/tuple_for_each.hpp',I+'internals/fixed_string.hpp'],[('serialize overloads','serializers.hpp'),('builders','zvec, zmap'),('entry point','serialize<P>')])
prop('C12','Dynamic values serialize as the value they hold',
 'Serializing a dynamic value emits exactly the writer calls for the alternative it holds: null, boolean, signed or unsigned integer, double, string, blob, array (size, every child in order) or map (size, each key followed by its value, in insertion order). Constructing a dynamic value from any C++ integer, float, string or blob keeps its value and signedness, and the type-erased writer handed to custom types forwards every call unchanged to the real writer.',
 ['inputs','programs'],'every alternative, every stored value and child count, every writer',
 'Tests build a few dynamic documents and check selected fields.',
 [I+'dynamic.hpp'],[('visit dispatch','dyn::serialize'),('constructors','dyn::Value'),('erased writer','dyn::WriterView')])
prop('C13','ZBuffer owns its bytes exactly once',
 'A buffer object reports exactly the bytes and length it was built from, hands ownership over on move, and cannot be copied; the deleter supplied with foreign memory is invoked exactly once with the original pointer, by the last owner, and never for moved-from or rejected objects twice. Building one from a null pointer with a non-zero size or from an empty deleter throws instead of producing a broken buffer, and copying bytes out returns all of them.',
 ['inputs','histories'],'every pointer, size, deleter and sequence of moves and destructions',
 'Tests check a couple of buffers; leaks, double frees and moved-from states depend on move/destroy histories.',
 [I+'zbuffer.hpp'],[('storage variant','ZBuffer::storage_'),('constructor validation','ZBuffer constructors')])
prop('C14','Base64 codec is lossless and strict',
 'Base64-encoding any byte string yields the RFC 4648 text (standard alphabet, padded to a multiple of four), and decoding that text returns the original bytes. Decoding rejects with a deserialization error any text containing, before the first padding character, a character outside the standard alphabet.',
 ['inputs'],'every byte string of every length; every text',
 'JSON is not built offline, so the codec is exercised by no test; 2^n inputs cannot be sampled.',
 [I+'internals/base64.hpp'],[('encoder loop and alphabet','base64Encode'),('decoder table and loop','base64Decode')])
prop('C15','Tensor readers only yield data that matches the declared shape',
 'Reading a tensor or matrix (xtensor or Eigen) succeeds only if the stored element type code, rank (and fixed extents) match the requested type and the blob holds exactly product-of-dimensions times element-size bytes, computed without overflow; otherwise a deserialization error is thrown. The result then has the stored shape, its data is the blob content, and it aliases the blob only when the address is aligned for the element type, being an independent copy otherwise.',
 ['inputs'],'every shape, dimension value, blob length and address, element type',
 'Tests use small well-formed tensors; overflow needs dimension products near 2^64 and misalignment needs particular buffer addresses.',
 [I+'tensor/xtensor.hpp',I+'tensor/eigen.hpp',I+'tensor/utils.hpp'],[('payload size check','asXTensorView, asEigenMatrixView'),('overflow check','checked_element_count'),('shape parsing','tensor_shape')])
prop('C16','Malformed or mistyped input raises only DeserializationError',
 'Whatever bytes a Zera, MsgPack or CBOR reader is given and whichever accessor is called on it, the call either returns or throws the library\'s deserialization error type; no other exception type escapes for bad data, and asking for the wrong kind, a missing key or an index past the end is always such an error. Errors are never swallowed into a default value.',
 ['inputs'],'every buffer, every accessor, every wrong-kind access, every missing key and out-of-range index',
 'Tests trigger a few errors and often accept any exception.',
 [I+'protocols/zera.hpp',I+'protocols/msgpack.hpp',I+'protocols/cbor.hpp',I+'protocols/flex.hpp',I+'errors.hpp'],[('error helpers','fail/require/ensure'),('error types','errors.hpp')])
prop('C17','Map lookup, membership and key listing agree',
 'For a map value with string keys in the Zera, MsgPack and CBOR readers, membership is true exactly when lookup by that key succeeds, lookup returns the value stored next to the first key that is byte-for-byte equal (same length, same bytes) to the requested one, and key iteration visits every stored key exactly once in stored order. A key that is a prefix or extension of a stored key never matches it.',
 ['inputs'],'every map content, entry count and requested key, including empty keys and shared prefixes',
 'Tests look up a few distinct short keys.',
 [I+'protocols/zera.hpp',I+'protocols/msgpack.hpp',I+'protocols/cbor.hpp'],[('lookup loops','contains, operator[](string_view)'),('key iteration','KeysView::iterator')])
prop('C18','String and blob access is zero-copy and allocation-free',
 'In the Zera and MsgPack readers, string views and blob views point directly at the payload inside the buffer the reader was built over, and reader construction over a caller-owned span, predicates, scalar access, view access, array and map lookup and key iteration perform no heap allocation unless they throw. Nothing reachable from a reader modifies the input bytes.',
 ['inputs'],'every buffer and accessor on non-throwing paths',
 'Tests compare content, not addresses or allocations, and only for a few documents.',
 [I+'protocols/zera.hpp',I+'protocols/msgpack.hpp'],[('view construction','asStringView, asBlob, operator[]')])
prop('C19','Owning readers can be copied and moved safely',
 'After copying, moving, copy-assigning or move-assigning a Zera, MsgPack or FlexBuffers reader that owns its bytes, the destination reads the same document from bytes the destination itself keeps alive, whatever happens to the source afterwards. Writers that own foreign resources cannot be copied into two owners.',
 ['histories'],'every sequence of copy, move, assignment and destruction of readers',
 'A dangling view after copy usually still reads plausible bytes; tests never copy a reader and destroy the source.',
 [I+'protocols/zera.hpp',I+'protocols/msgpack.hpp',I+'protocols/flex.hpp'],[('ownership members','owned_ and views into it'),('special member functions','deserializer classes')])
prop('C20','MsgPack writer emits a valid encoding of each value',
 'Every call on the MsgPack writer appends a valid MessagePack encoding of exactly its argument: the same integer value, the same double bits, the same boolean, a string or binary header carrying the full length followed by exactly those bytes, and array or map headers carrying the announced count. The finished buffer is exactly the concatenation of what was written, owned by the result.',
 ['inputs'],'every value, string and blob length, announced count',
 'Tests write small values that hit few of the encodings.',
 [I+'protocols/msgpack.hpp'],[('writer methods','MsgPackSerializer'),('buffer hand-over','MsgPackRootSerializer::finish')])
prop('C21','CBOR decoding follows RFC 8949',
 'For every initial byte and sufficiently long input, the CBOR reader classifies the value as RFC 8949 does (unsigned, negative, byte string, text string, array, map, float, bool, null) and its scalar accessors, definite-length string and blob views, array sizes and element lookup return exactly what the RFC assigns to the bytes. Accessors reject values of another kind, a chunked text string with a chunk of another type is rejected, and reserved additional-information values are errors.',
 ['inputs'],'all 256 initial bytes, all payload bytes, all buffer lengths',
 'CBOR is not compiled in the offline test build; its tests only decode writer output.',
 [I+'protocols/cbor.hpp'],[('head decoder','read_head'),('skipper','skip'),('accessors','as*, is*')])
prop('C22','FlexBuffers adapter forwards values and kinds faithfully',
 'The FlexBuffers writer passes every null, boolean, integer, double, string, blob, key and container boundary unchanged to the FlexBuffers builder, in order and with matching starts and ends, and the FlexBuffers reader classifies and returns what the underlying reference holds, throwing a deserialization error for the wrong kind, an index past the end or a missing key. Keyed lookup compares whole keys, length included.',
 ['inputs','histories'],'every value, length, key and container nesting',
 'Tests write small values in correct sequences and look up a few distinct keys.',
 [I+'protocols/flex.hpp'],[('writer','flex::Serializer'),('reader','FlexViewBase')])
prop('C23','JSON writer and reader adapter preserves values',
 'The JSON writer hands every null, boolean, integer, double, string, key and container boundary unchanged to the JSON document, copying string bytes so they need not outlive the call, encodes blobs as the three-element tagged base64 array, and rejects misuse of the container protocol. The JSON reader returns what the document holds (numbers exactly, or an error when the requested type cannot hold them), recognises exactly that tagged array as a blob, and throws a deserialization error on kind mismatch, missing key or index past the end.',
 ['inputs','histories'],'every value, string, blob, key and call sequence',
 'JSON is not compiled in the offline test build.',
 [I+'protocols/json.hpp'],[('writer','json::Serializer'),('reader','JsonDeserializer')])
prop('C24','Misuse of the API is rejected at compile time',
 'Programs that violate the static contract do not compile: a builder map with a different number of keys and values, serializing or translating with a type that is not a full protocol, translating from something that is not a reader, and copying a buffer, while every built-in protocol satisfies the protocol contract with exact accessor return types.',
 ['programs'],'every user program',
 'A test suite cannot contain code that must fail to compile.',
 [I+'concepts.hpp',I+'zbuilders.hpp',I+'serialize.hpp',I+'translate.hpp',I+'zbuffer.hpp'],[('concepts','concepts.hpp'),('static_assert','zmap'),('deleted copies','ZBuffer')])
prop('C25','Tensor element type codes are unique and consistent',
 'Each supported element type has its own stable type code and name, distinct from every other supported type; writing a tensor stores the code of its element type, its exact shape and its raw element bytes, and reading with a different element type is refused.',
 ['inputs','programs'],'every pair of element types, every shape',
 'Tests exercise a few element types with equal types on both sides.',
 [I+'tensor/utils.hpp',I+'tensor/xtensor.hpp',I+'tensor/eigen.hpp'],[('code table','tensor_dtype_index'),('name table','type_name_from_code'),('writer','serialize overloads for tensors')])
prop('C26','Whole documents of any depth survive a write/read round trip',
 'For every finite tree of nulls, booleans, integers, doubles, strings, blobs, arrays and maps with distinct keys, serializing the tree with any protocol and reading it back yields a structurally equal tree.',
 ['inputs','programs'],'every tree, every protocol',
 'Infinitely many trees; tests sample a dozen.',
 [I],[('all writers and readers',I)])
prop('C27','Hostile nesting depth cannot exhaust the stack',
 'Reading, skipping or translating a document nested arbitrarily deep never overflows the stack.',
 ['inputs'],'every nesting depth',
 'Tests nest a few levels.',
 [I+'protocols/msgpack.hpp',I+'protocols/cbor.hpp',I+'translate.hpp'],[('recursive skipper','mp_skip, CborDeserializer::skip, write_value')])
prop('C28','FlexBuffers reader is safe on hostile bytes',
 'Reading any byte string with the FlexBuffers reader never accesses memory outside it.',
 ['inputs'],'every byte string',
 'Tests only decode writer output.',
 [I+'protocols/flex.hpp'],[('delegation to the FlexBuffers library','FlexDeserializer')])
prop('C29','Zera decoding follows the documented format',
 'For every Zera buffer with a valid header, each predicate and accessor of the reader, on the root value and on array elements, answers exactly what ZERA.md assigns to the stored value reference: its kind from the tag, its number from the payload bits, its string or blob from the inline bytes or the arena range, its size from the array count. Value references whose flags, auxiliary field, rank, shape or payload range the document does not allow for the requested kind are rejected, all others are accepted.',
 ['inputs'],'every value reference, every payload, every array index, every buffer length',
 'Tests read back what the writer wrote and a few hand-corrupted buffers; most combinations of tag, flags, aux and offsets never occur.',
 [I+'protocols/zera.hpp','protocols/ZERA.md'],[('value reference decoding','ZeraViewBase accessors'),('array indexing','ZeraViewBase::operator[](size_t), arraySize')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
