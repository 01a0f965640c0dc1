import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None):
    ms=[]
    for m in mech:
        w,_,n=m.partition(": "); ms.append({"name":n or w,"where":w})
    a={"files":files,"mechanism":ms}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
E="encode.go";J="json.go";C="codec.go";D="decode.go";R="parse.go";T="token.go";K="jsoncolor.go"

p("C01","Colour only adds escape sequences",
 "For every value and every setting of escaping, key sorting and indentation, removing the colour prefixes and resets from the coloured output gives exactly the bytes the encoder produces for the same value with no colours, and the two encodings succeed or fail together. In particular an escape sequence never ends up inside a string, key or number, and the stripped text is the same valid JSON document.",
 ["inputs","configurations"],"every encodable Go value (any nesting, map key kind, tag option, marshaler, raw message) x every Colors value x flags x indentation",
 "Tests compare a handful of fixed outputs with default colours; the guarantee is over all value shapes, tag options, key kinds, user-chosen colour byte strings and flag combinations, where colour is threaded separately through each encode function.",
 [E,K,C],[E+": every encodeX pairs a colour prefix with a reset",K+": appendNull/appendBool/appendInt64/appendUint64/appendPunc",E+": encodeToString, encodeKey, encodeStruct key path, appendRawMessageScalar"])

p("C02","Every token gets the colour of its class",
 "In coloured output every JSON token is preceded by exactly the configured colour of its class (null, bool, number, string, object key, bytes, time, text-marshaler text, and punctuation, where brackets, braces, comma and colon each use their own colour if set and the general punctuation colour otherwise) and followed by exactly one reset. This holds for tokens coming from Go values and from raw JSON or custom-marshaler output alike; whitespace is never coloured and a key is never coloured as a value or vice versa.",
 ["inputs","configurations"],"every value shape x every assignment of colours (set, empty, equal, unusual byte strings) to the classes, including partially set punctuation classes",
 "Tests use mostly default colours, in which several classes share a colour or have none, and short documents; confusing two classes or losing the fallback is visible only with pairwise-distinct or partly unset colours on the right token kinds and nesting.",
 [K,E,T],[K+": Colors, puncColor fallback, append helpers",E+": encodeX colour prefixes, encodeStruct keys, encodeKey for map keys, appendRawMessageScalar",T+": IsKey decides key vs value colour for raw JSON"])

p("C03","Indented output is the standard layout of the compact output",
 "With indentation configured as (prefix, indent), the encoder's output is exactly the compact output laid out the way the standard library's indenting does it: one element or member per line, the prefix and depth-many indents starting every line after the first, one space after each colon, empty objects and arrays kept on one line, nothing else changed. With both strings empty the output is the compact one.",
 ["inputs","configurations"],"every value (including empty and fully-omitted structs, nil containers, raw messages, marshaler output at any depth) x every prefix/indent pair, with and without colours",
 "Layout is produced inline by five separate code paths sharing a mutable depth counter; tests cover a few fixed documents, not every mixture of containers, emptiness, depth and origin of a subtree.",
 [E,J],[E+": Indenter push/pop/appendIndent; encodeArray, encodeMap, encodeMapStringInterface, encodeMapStringRawMessage, encodeStruct, appendRawMessageTokens",J+": SetIndent, MarshalIndent"])

p("C04","Scalars encode to valid JSON that denotes the same scalar",
 "Every string encodes to a JSON string that decodes back to it (with invalid UTF-8 replaced by U+FFFD), with control characters, quotes, backslashes and U+2028/U+2029 always escaped and <, >, & escaped exactly when HTML escaping is on. Every integer encodes to its exact decimal text, every finite float to its shortest round-tripping text in the standard notation (non-finite ones are errors), every byte slice to standard base64 or null when nil, every time to RFC 3339 text (an error if the year or zone has none), every duration to its nanosecond count, and a number-literal value verbatim only if it is a complete JSON number.",
 ["inputs"],"all byte strings of any length and content, all integers of every width, all floats, all byte slices, HTML escaping on and off, keys as well as values",
 "Tests sample a few strings and numbers; escaping is decided byte by byte with special cases that depend on position, UTF-8 validity and flags.",
 [E,K,C],[E+": doEncodeString, encodeFloat, encodeNumber, doEncodeBytes, encodeTime, encodeDuration",K+": appendInt64/appendUint64",C+": encodeString precomputes struct keys in plain and HTML-escaped form"])

p("C05","Composite values encode completely, once, and in order",
 "Structs encode exactly their visible fields (by Go's rules for same-named fields) in declaration order under their JSON names, honouring omitempty, the string option, ignored fields and embedded structs (fields behind a nil embedded pointer are left out); slices and arrays encode all elements in order; nil pointers, maps, slices and interfaces encode as null; pointers and interfaces encode as what they hold. Maps encode every entry once, sorted by key text when sorting is on (the text of a key is the string itself for string types, what MarshalText returns for other types that have it, and the decimal digits of integers), so equal values always give equal bytes. The result is always one well-formed JSON document, or an error and no output, never a malformed or partial document.",
 ["inputs","configurations"],"every combination of Go types reachable by composition (struct tags, embedding, pointers, arrays, maps with string/int/text keys, interfaces) x every value, up to memory limits",
 "The encoder for a type is assembled at run time by reflection and unsafe pointer arithmetic, so each combination of type constructors is a separate program; tests sample a few dozen.",
 [E,C,"reflect_optimize.go"],[C+": constructCodec and construct*Codec, appendStructFields, emptyFuncOf, inlined, stringify",E+": encodeStruct, encodeMap, encodeMapStringInterface, encodeMapStringRawMessage, encodeArray, encodeSlice, encodePointer, encodeEmbeddedStructPointer, encodeInterface"],
 [{"name":"codec cache","meaning":"type -> assembled encode/decode functions, shared by all calls"}])

p("C06","Raw JSON and custom marshaler output pass through unchanged",
 "A raw JSON value or the output of a custom JSON marshaler appears in the output with the same tokens in the same order, including member order and duplicate keys, subject only to the encoder's layout, colours and HTML escaping; it is laid out exactly as the same document built from native values would be. If that JSON is not exactly one valid document (surrounding whitespace allowed; a nil raw message counts as null, a marshaler that returns nothing does not), or the marshaler fails, the encoding fails and produces no output, unless the caller declared raw JSON trusted, and trusting a valid document never changes the output.",
 ["inputs","configurations"],"every byte string as raw message or marshaler result, at any position (top level, element, field, map value, pointer) x flags x colours x indentation",
 "Tests re-emit a few documents; nesting, empty containers, duplicate keys, whitespace, escapes and invalid tails at every offset are unbounded.",
 [E,T,J],[E+": encodeRawMessage, appendRawMessageTokens, appendRawMessageItemPrefix, appendRawMessageScalar, appendCompactEscapeHTML, encodeJSONMarshaler, encodeMapStringRawMessage",T+": Tokenizer.Next",J+": SetTrustRawMessage"])

p("C07","An encoder's output depends only on its settings and the value",
 "Each successful encode writes, in one piece, exactly the encoding of that value under the settings in force at that moment followed by one newline, whatever was encoded before on that encoder or any other, including encodes that failed midway or that a panic of one of the caller's marshalers cut short. A failing encode writes nothing and leaves later encodes unaffected. If the writer fails, that encode returns the writer's error and every later encode returns it too without writing.",
 ["histories","fault_sequences"],"every sequence of setting changes (colours, indentation, escaping, sorting, trust), encodes that succeed, encodes that fail at any depth, and writer failures at any call, on one or several encoders",
 "Tests make one or two encodes per encoder; the guarantee is about arbitrary histories including failures at any nesting depth, because depth state, pooled buffers and the sticky error outlive a call.",
 [J,E],[J+": Encoder.Encode, Set*; encoderBufferPool",E+": Indenter depth push/pop; mapslicePool reuse"],
 [{"name":"Encoder","meaning":"flags, colours, indenter (with depth), sticky write error"},{"name":"pools","meaning":"reused byte buffers and map-entry slices"}])

p("C08","All encoding entry points agree",
 "For the same value and settings, marshalling, appending and stream encoding produce the same JSON bytes (stream encoding adds one newline), indented marshalling produces the standard indentation of the marshalled bytes, and marshalling equals appending with HTML escaping and sorted keys. Appending never alters the bytes already in the destination, whatever its length and capacity, on success and on failure, and results returned earlier are never changed by later calls.",
 ["inputs","histories"],"every value x flags x destination prefix, length and spare capacity x entry point x interleaving with later calls",
 "Tests call each entry point on its own samples; agreement and buffer ownership are relations between calls.",
 [J,E],[J+": Append, Marshal, MarshalIndent, Encoder.Encode, encoderBufferPool",E+": in-place edits of the output buffer: encodeToString, doEncodeBytes regrowth, rollback and error truncation"])

p("C09","Exactly the JSON grammar is accepted",
 "The validity check, decoding into an untyped value, and decoding into a raw message accept a byte string if and only if it is one JSON document per RFC 8259 with optional surrounding whitespace, nested at most 10000 levels deep (the limit of encoding/json); a type-matched typed target accepts no invalid document either. Any other input gives an error, and no input whatever makes validation, decoding, parsing or streaming panic, crash or loop.",
 ["inputs"],"all byte strings; every truncation, insertion, deletion and replacement around valid documents; string runs at all lengths and offsets relative to word-sized scanning",
 "Tests include a list of good and bad documents; the grammar is an infinite language and the scanner has several hand-optimised paths that each must implement it.",
 [R,D,"ascii.go",J],[R+": parseValue, parseObject, parseArray, parseStringFast, parseNumber, parseUnicode, skipSpacesN","ascii.go: asciiValidPrint word-at-a-time scan",D+": decodeStruct/decodeMap/decodeSlice/decodeArray re-implement the grammar",J+": Valid, Unmarshal, Parse"])

p("C10","Untyped decoding yields the document's value",
 "Decoding a valid document into an empty interface yields exactly the value it denotes: objects become string-keyed maps with the last duplicate winning, arrays become slices in order, strings are unescaped exactly (surrogate pairs combined, lone surrogates and invalid UTF-8 replaced by U+FFFD), numbers become the nearest float64 or, on request, their literal text, and null, true and false themselves. Numbers too large for a float64 are errors unless literal text was requested.",
 ["inputs","configurations"],"all valid documents: any nesting, escapes, member counts and whitespace x number mode",
 "Tests decode a few documents; unescaping, duplicate keys, deep nesting and buffer growth combine without bound.",
 [D,R],[D+": decodeInterface, decodeMapStringInterface, decodeSlice, decodeString, decodeFloat64, decodeNumber",R+": parseStringUnquote, appendRune, appendCoerceInvalidUTF8","reflect.go: extendSlice"])

p("C11","Typed decoding stores the exact value or reports an error",
 "Decoding a document into a typed destination stores exactly the denoted value: integers exactly (out-of-range, fractional or exponent forms are errors, never wrapped or truncated), booleans, strings, floats, byte slices from base64, times and durations; pointers are allocated, existing maps keep their other entries, slices are refilled from the start, fixed arrays are filled with extra elements ignored and missing ones zeroed, and null leaves scalars and variables of types without JSON form (channels, functions, complex numbers) unchanged and clears pointers, maps, slices and interfaces. A value of the wrong JSON type is an error, and the scalar it was aimed at keeps its previous value. Custom unmarshalers receive exactly the raw bytes, or the unescaped string, of the value aimed at them.",
 ["inputs","configurations"],"every destination type built by composition x every document x every prior content of the destination",
 "Each destination type assembles its own decoder; limits at every integer width, prior contents, and mismatches at every position are sampled only thinly by tests.",
 [D,R,C],[D+": decodeInt*/decodeUint*/decodeFloat*, decodeArray, decodeSlice, decodeMap, decodePointer, decodeInterface, decodeBytes, decodeTime, decodeDuration, decodeFromString, decodeFromStringToInt",R+": parseInt, parseUint overflow tests",C+": codec construction"])

p("C12","Object members reach the right struct field",
 "When decoding an object into a struct, each member is stored in the field whose JSON name equals the key exactly, otherwise in the first field whose name matches ignoring letter case (Unicode included) unless case-insensitive matching is disabled, otherwise it is skipped as a well-formed value, or is an error when unknown members are disallowed. Fields not named in the object keep their previous contents, the last duplicate member wins, and fields of embedded structs are reached through the outer struct, allocating an embedded pointer when needed.",
 ["inputs","configurations"],"every struct type (names, tags, embedding, lengths around internal buffer sizes, non-ASCII letters) x every object (order, duplicates, unknown members, escaped key spellings) x flags",
 "Matching uses two name indexes, a fixed-size fold buffer and ASCII fast paths; tests use a few short ASCII names.",
 [D,C,R,"ascii.go"],[D+": decodeStruct, decodeEmbeddedStructPointer",C+": constructStructType name indexes, appendStructFields",R+": appendToLower, foldRune","ascii.go: asciiValid"])

p("C13","Stream decoding does not depend on how the bytes arrive",
 "For any split of a byte stream into reads, a stream decoder returns the same sequence of values that decoding the whole concatenation value by value gives, for documents and whitespace runs of any size, then end-of-stream; a stream ending inside a value gives an unexpected-end error, a malformed value gives a syntax error after all preceding values were returned, and a reader's own error is reported once the buffered values are consumed. At every point the bytes consumed according to the reported offset are exactly those of the values returned (plus adjacent whitespace), the unread-data view continues exactly there, and a value of the wrong type consumes just that value.",
 ["inputs","histories","fault_sequences"],"every stream of values, separators and tails x every chunking (including empty reads and data returned together with an error) x every alignment against the internal buffer and its growth x reader errors at any point",
 "Tests stream a few short values from readers that return everything at once; buffer refill, growth and boundary alignment matter only for long or finely chunked streams.",
 [J,R],[J+": Decoder.readValue, Decode, Buffered, InputOffset, minBufferSize/minReadSize refill and growth",R+": the 'ran out of input' versus 'syntax error' distinction in every parse function"],
 [{"name":"Decoder","meaning":"buffer, remaining bytes, input offset, sticky reader error, flags"}])

p("C14","Parsing consumes exactly one value; options change nothing else",
 "Parsing decodes the first JSON value of its input and returns exactly the bytes after it with leading whitespace removed, so repeated parsing walks a concatenation of values; whole-document decoding is parsing with a required empty remainder. Zero-copy, number-literal, unknown-member and case-matching options never change the decoded value beyond their documented effect, and parsing never modifies its input.",
 ["inputs","configurations","histories"],"every concatenation of values and trailing bytes x every target type x every subset of the parse options",
 "Tests exercise each option alone on a fixed input; the remainder and option independence are relational claims over all inputs and option subsets.",
 [J,D,R],[J+": Parse, Unmarshal, Decoder option setters",D+": each decodeX returns the remainder; DontCopy* branches",R+": parse functions return (value, remainder)"])

p("C15","Decoded data shares no memory with the input or with later calls",
 "Unless zero-copy was requested, nothing a decode produced (strings, numbers, raw messages, byte slices, map keys, or error contents at any depth) changes when the input buffer is overwritten or when the decoder, or any other, is used again; this holds equally for values returned earlier by a stream decoder as its buffer is refilled. With zero-copy requested the decoded value is still correct as long as the input is left alone, and values retained by containers decoded later never overwrite earlier ones.",
 ["inputs","histories","configurations"],"every document and target shape x option subset x subsequent overwriting of the input and further decodes",
 "A missing copy is invisible until the buffer is reused; existing tests compare results immediately after decoding.",
 [D,R,J],[D+": decodeString/decodeNumber/decodeRawMessage copy decisions, decodeBytes, decodeJSONUnmarshaler, decodeTextUnmarshaler",R+": parseStringUnquote isNew result",J+": Decoder.readValue reuses its buffer"])

p("C16","The tokenizer reports every token with its true structure",
 "For a valid document the tokenizer yields its tokens in order and nothing else, each with the exact raw bytes, delimiter, nesting depth, position within its container, and key flag (set for member names and for nothing else), then ends without error as the zero value of a tokenizer (in every field it shows); unquoting a string token gives the string it denotes. On malformed input it never panics: it stops with an error when it meets an invalid token or a closing delimiter that does not match, keeps failing from then on, and after a reset behaves as new.",
 ["inputs","histories"],"all byte strings, any nesting depth (including beyond its preallocated stack) x sequences of Next and Reset calls",
 "Tests list tokens for about twenty documents; position, depth and key bookkeeping is a stack machine over unbounded nesting.",
 [T,R],[T+": Next, push, pop, is, depth, index, Reset, RawValue.Unquote/AppendUnquote"],
 [{"name":"Tokenizer","meaning":"remaining input, container stack with element counts, pending-key flag, sticky error"}])

p("C17","Encoding then decoding gives the value back",
 "For every value of a type without custom marshalers whose strings are valid UTF-8, decoding its encoding into a fresh variable of the same type gives an equal value, whatever the flags and indentation; and decoding any valid document into an untyped value, encoding it and decoding again gives the same value, with encoding after decoding a fixed point. Colour does not change this: the stripped coloured output decodes to the same value.",
 ["inputs","configurations"],"every type built by composition and every value of it x flags x indentation; every valid document",
 "Round-trip tests exist for a fixed table of values; encoder and decoder build separate code per type, so agreement must be explored over types as well as values.",
 [E,D,C,R],[E+" and "+D+": each encodeX/decodeX pair",C+": both halves of each codec"])

p("C18","Concurrent and re-entrant use behaves like isolated calls",
 "Calls made concurrently from several goroutines on separate encoders, decoders and tokenizers or through the package functions, including first uses of the same or different types and calls made from inside custom marshalers and writers, each behave exactly as if run alone, with no data race. No call observes another's partial output, settings, failure or pooled memory.",
 ["schedules","histories"],"every interleaving of calls over shared package state (type-codec cache, buffer pools) including nested calls and failing calls",
 "Tests are sequential, and a race or a double-used pooled buffer shows up only under particular interleavings.",
 [C,J,E],[C+": cacheLoad/cacheStore copy-on-write",J+": encoderBufferPool get/put in Marshal and Encode",E+": mapslicePool get/put around nested Append"],
 [{"name":"cache","meaning":"atomic pointer to immutable type->codec map"},{"name":"encoderBufferPool, mapslicePool","meaning":"recycled buffers"}])

p("C19","Terminal colour detection follows its precedence rules",
 "Colour is reported available exactly when: NO_COLOR is empty or unset; and either FORCE_COLOR is non-empty, or TERM is not 'dumb' and the writer is an open terminal file. A nil writer, a non-file writer, a regular file, a pipe or a closed file never counts as a terminal, and no combination panics.",
 ["configurations"],"all combinations of the three variables (unset, empty, assorted values) x kinds of writer (nil, wrapper, buffer, pipe, file, closed file, pseudo-terminal)",
 "Tests cannot allocate every writer kind and check only a few variable settings; precedence is a property of the whole product.",
 ["terminal.go"],["terminal.go: IsColorTerminal order of checks"])

p("C20","The command-line tool reformats without altering data, or fails cleanly",
 "For every input that is one valid JSON document (within number range), the command exits zero and writes exactly one document with the same value, pretty or compact and coloured or not as the flags and environment say, never coloured into a file unless colour is forced, to standard output or to the named file (creating missing directories and replacing old contents). For any other input, or unreadable input, it exits non-zero, prints an error, writes nothing to standard output and leaves an existing output file untouched. If the output cannot be written it exits non-zero with an error too.",
 ["inputs","configurations"],"every input byte string x flag combination x input source x output target (new, existing, in missing directory) x colour environment",
 "There are no tests of the command at all.",
 ["cmd/jc/main.go"],["cmd/jc/main.go: doMain input selection, Unmarshal before output file creation, colour and pretty decisions"])

p("C21","The fatih/color adapter carries every colour over faithfully",
 "Converting a set of fatih colours yields, for each class, exactly the escape sequence that colour emits before its text, independent of the process-wide no-colour switch and without altering the source colours; a missing colour converts to no colour and a missing set to no colours at all. Encoding with the converted set then uses those sequences for the corresponding classes.",
 ["configurations"],"all attribute combinations per class, missing classes, both states of the global no-colour switch and of each colour's own switch",
 "No test covers more than the defaults; a swapped class or dependence on the global switch needs distinct colours and both switch states.",
 ["helper/fatihcolor/fatihcolor.go"],["helper/fatihcolor/fatihcolor.go: ToCoreColors field mapping, ToCoreColor copy and prefix extraction, DefaultColors"])

p("C22","Compact, Indent and HTMLEscape reformat text without changing its meaning",
 "Each of the three text utilities appends to its destination buffer, leaves what the buffer already holds and the source bytes unchanged. Compact appends exactly the source's tokens without the white space between them. Indent appends every element and every closing bracket of a non-empty container on a line of its own, after the prefix and one indent per level of nesting, with \": \" after member names, empty containers closed directly, and numbers, strings and literals spelled as in the source; white space before the document is dropped and white space after it is kept. Both accept exactly the texts that are one valid JSON document and otherwise return an error and leave the buffer as it was. HTMLEscape replaces exactly <, >, &, U+2028 and U+2029 by their \\u escapes, in any byte string, and changes nothing else.",
 ["configurations"],"all texts up to the enumeration bound; arbitrary documents, near-documents and byte strings, any prefix and indent, buffers with earlier contents",
 "The tests compare a few documents with encoding/json through one call each; earlier buffer contents, failures half-way, odd prefixes and truncated multi-byte characters are never combined.",
 ["json.go"],["json.go: Compact, Indent, HTMLEscape"])

p("C23","Errors say what failed, in the value or in the document",
 "The class of every error (as errors.As and errors.Is find it) names a cause that is really there. Encoding fails with the caller's own error if a marshaler (or the marshaler of a map key) failed, an UnsupportedTypeError for a type without JSON form, an UnsupportedValueError for NaN, infinities, times without RFC 3339 text and malformed JSON from a marshaler or raw message. Decoding a well-formed document fails with an UnmarshalTypeError where a value, or a map key, does not suit the variable (overflow included), with the caller's own error where an unmarshaler failed, a base64 error for bytes that are not base64 - and never with a SyntaxError; the Field of an UnmarshalTypeError is the place of a value (or key) that does not suit: the member names as the document spells them, map keys and element indexes that lead to it, separated by dots. A malformed document given to Unmarshal or Parse with an untyped variable gives a SyntaxError; nil, non-pointer and nil-pointer destinations give an InvalidUnmarshalError. If there are several causes any of them may be named; without a cause there is no error. All entry points (Marshal, MarshalIndent, Append, Encoder; Unmarshal, Parse, Decoder) agree with this. Not claimed: the class of errors about ,string members and json.Number.",
 ["configurations"],"all types and documents of the enumerated universe; arbitrary values with failing parts, typed destinations with mismatching documents, every entry point and option",
 "The tests look at the class of some dozens of errors, through Marshal and Unmarshal, each with one cause at one place; causes inside nested types, map keys and options are combined nowhere.",
 ["codec.go","decode.go","encode.go","parse.go","json.go"],["parse.go: parseInt/parseUint/numberOverflow","decode.go: decodeMap, decodeStruct, decodeInterface","codec.go: inputError, objectKeyError, constructIntKeyDecodeFunc","encode.go: encodeJSONMarshaler, encodeRawMessage","json.go: Parse"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x["title"])<=80
print(len(P))
