#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to review and edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe or [], hook_needed=None)))
HD="hpack/src/decoder/mod.rs"; HDP="hpack/src/decoder/primitives.rs"
HE="hpack/src/encoder/mod.rs"; HEP="hpack/src/encoder/primitives.rs"
HT="hpack/src/table/mod.rs"; HTD="hpack/src/table/dynamic.rs"; HTS="hpack/src/table/static.rs"
FD="huffman/src/decoder/mod.rs"; FR="huffman/src/decoder/reader.rs"; FE="huffman/src/encoder/mod.rs"
FET="huffman/src/encoder/table.rs"; FDT=["huffman/src/decoder/table%d.rs"%i for i in range(1,6)]
PD="protos/src/decoder/mod.rs"; PDP="protos/src/decoder/primitives.rs"; PDL="protos/src/decoder/lit.rs"
PE="protos/src/encoder/mod.rs"; PEP="protos/src/encoder/primitives.rs"; PEL="protos/src/encoder/lit.rs"

p("C01","HPACK decoding never panics and always terminates",
  "For every byte sequence, every reachable indexing-table state and every size limit, decoding an HPACK block (all headers or a bounded number) returns either success or an error. It never panics, never overflows an integer computation, never reads outside the input, and every iteration of its loops makes progress so that it cannot hang.",
  ["inputs","histories"],"all input byte strings x all decoder states reachable by earlier decodes, limits and size updates",
  "The tests decode well-formed blocks (RFC examples, http2jp stories) and one truncated block; truncation at each byte, over-long integers, empty strings at the end of the buffer are unbounded families.",
  [HD,HDP,HTD,FR],[("bounds checks on the integer and string primitives",HDP),("representation dispatch",HD)],
  observe=["Decoder::decode","Decoder::decode_exact"])
p("C02","A failing HPACK field leaves no trace",
  "When decoding a header block fails at some field, every field before it has been delivered, the input buffer starts exactly at the first byte of the failing field, and the failing field has neither been appended to the output nor entered in the indexing table. A size update that is refused does not change the table either.",
  ["inputs","histories"],"all inputs, all error kinds, all positions of the failing field",
  "One test checks one truncated block; atomicity must hold for each error exit of each representation.",
  [HD],[("consume-after-validate order in each field decoder",HD)],
  observe=["Decoder::decode","Decoder::decode_exact","later decodes on the same decoder"])
p("C03","Each decoded HPACK field is the one its octets denote",
  "Every successfully decoded field has the name, value and flag prescribed by RFC 7541 section 6 for its representation: an indexed field copies the table entry with that index, a literal takes its name from the table entry (index > 0) or from the string that follows (index 0) and its value from the last string. The flag is 0x4 for a literal with incremental indexing, 0x8 for a never-indexed literal and 0 otherwise; index 0 of an indexed field and any index beyond the table is rejected.",
  ["inputs","histories"],"all field octets x all table contents",
  "Tests sample about a dozen indexes and literals, with table states of at most a few entries and no out-of-range index.",
  [HD,HT],[("representation dispatch on the first octet",HD),("field decoders",HD)],
  observe=["Decoder::decode output"])
p("C04","Decoding changes the indexing table only as the wire commands",
  "While decoding, an entry is added to the indexing table only by a literal with incremental indexing, and that entry is exactly the name and value delivered for the field. Indexed fields, literals without indexing and never-indexed literals leave the table untouched, and the table's size limit changes only through a size-update instruction.",
  ["inputs","histories"],"all field sequences",
  "Tests check table lengths for one example per representation; the effect must be absent on every path, including error paths.",
  [HD,HT],[("insert on the with-indexing path only",HD)],
  observe=["subsequent indexed fields on the same decoder"])
p("C05","Table size updates respect the externally set limit",
  "A decoded table size update is accepted exactly when it does not exceed the limit currently configured on the decoder, and then becomes the table's maximum size; a larger one is refused with an error. Configuring a new limit affects only later size updates, and the limit reported by the decoder is the one that was configured.",
  ["inputs","configurations","histories"],"all size values x all limits x all orders of configuring and decoding",
  "The only test decodes one size update below the limit; no test sets a limit or refuses an update.",
  [HD],[("limit comparison before the table update",HD),("limit getter and setter",HD)],
  observe=["Decoder::decode","Decoder::set_max_dynamic_size","Decoder::max_dynamic_size"])
p("C06","HPACK decoding accounts for exactly the bytes it consumes",
  "A successful decode returns the number of bytes it removed from the front of the input buffer, counting every representation including size updates, and the bytes that remain are the untouched suffix of the input. A full decode leaves the buffer empty.",
  ["inputs"],"all inputs and all mixes of representations",
  "No test looks at the returned count; the tests only look at the emptied buffer.",
  [HD],[("running total and drain of the same count",HD)],
  observe=["Decoder::decode return value and buffer"])
p("C07","HPACK integers are read as RFC 7541 section 5.1 defines them",
  "Wherever a field carries an integer (index, string length, table size), its value is the prefix bits when these are not all ones, and otherwise 2^N-1 plus the little-endian 7-bit groups that follow. A truncated integer is an underflow error, an integer needing more than five octets is an overflow error, and no accepted integer wraps around.",
  ["inputs"],"all integer encodings at all prefix sizes in use (4,5,6,7)",
  "About a dozen literal examples are tested, none truncated and none too long.",
  [HDP],[("integer decoder",HDP)],observe=["Decoder::decode"])
p("C08","HPACK string literals are read within their declared length",
  "A string literal consumes exactly its length prefix plus the declared number of octets; it is the Huffman-decoding of these octets when the H bit is set and the octets themselves otherwise. A declared length beyond the available input is an underflow error and a Huffman failure is an invalid-input error.",
  ["inputs"],"all string literals, lengths and truncation points, both H values",
  "Tests decode a handful of well-formed strings; none declares a length beyond the buffer or fails Huffman decoding.",
  [HDP],[("string decoder",HDP)],observe=["Decoder::decode"])
p("C09","The dynamic table never exceeds its maximum size",
  "After every operation the reported dynamic table size equals the sum over its entries of name length + value length + 32, and it does not exceed the current maximum size. An entry larger than the maximum empties the table instead of being stored.",
  ["histories","configurations"],"all sequences of inserts and size changes, all entry sizes",
  "Tests run four short insertion sequences.",
  [HTD,HT],[("size accounting on insert and evict",HTD),("eviction loop",HTD)],
  state=[dict(name="size",meaning="sum of entry sizes",where=HTD),dict(name="max_size",meaning="current maximum",where=HTD)],
  observe=["Table::dynamic_size","Table::max_dynamic_size","Table::dynamic_len"])
p("C10","The index space is static entries then dynamic entries, newest first",
  "Index 0 is never valid, indexes 1 to 61 are the static entries, and index 62 is always the most recently inserted dynamic entry with older ones following in order. Insertion puts the new entry in front of all others and eviction removes only the oldest entries, only while the size exceeds the maximum.",
  ["histories"],"all operation sequences and all indexes",
  "Tests look up six indexes in a table with one dynamic entry.",
  [HT,HTD],[("lookup by index",HT),("front insertion and back eviction",HTD)],
  observe=["Table::get","Table::iter"])
p("C11","The static header table is the one of RFC 7541 Appendix A",
  "The predefined part of the indexing table consists of exactly the 61 name/value pairs of RFC 7541 Appendix A in their order.",
  ["inputs"],"all 61 indexes",
  "Tests touch 9 of the 61 entries directly; peers with the RFC table would silently decode different headers for a wrong entry.",
  [HTS,HT],[("static table",HTS)],observe=["Table::get","Decoder::decode","Encoder::encode"])
p("C12","Table search returns a true match and prefers exact ones",
  "Searching the table for a header returns an index whose entry has that name, marked as a full match only if the value is equal too; it returns nothing only if no entry has that name, and a name-only match only if no entry matches both. Among equal candidates the smallest index is returned.",
  ["inputs","histories"],"all names and values x all table contents",
  "Five lookups are tested.",
  [HT],[("find over all entries",HT)],observe=["Table::find","Encoder::encode with BEST_FORMAT"])
p("C13","The HPACK encoder emits the representation it was asked for",
  "For every input the encoder appends exactly one RFC 7541 field: an indexed field for an index, and otherwise a literal whose first octet pattern is with-indexing, never-indexed or without-indexing according to the flags, followed by the name (index or string) and the value string. With best-format requested it uses the index of a table entry that really has the same name (and value), and falls back to a new-name literal only when there is none.",
  ["inputs","histories"],"all names, values, indexes, flag bytes and table contents",
  "Tests compare the output of about 25 fixed calls.",
  [HE,HEP],[("representation dispatch on input and flags",HE)],observe=["Encoder::encode output bytes"])
p("C14","Encoder and decoder indexing tables evolve in lockstep",
  "The encoder adds an entry to its own table exactly when it emits a literal with incremental indexing, the entry being the name and value a decoder of that output would add, and the emitted index refers to the table before that addition. A table size change is emitted as a size update carrying the same value that is applied locally, so that a peer decoding the stream always holds the same table.",
  ["histories","inputs"],"all sequences of encode calls and size changes",
  "Two-sided tests cover three-request RFC sequences with the default table size only.",
  [HE,HD,HTD],[("insert on the with-indexing path",HE),("size update emission",HE)],observe=["Encoder::encode","Decoder::decode on the output"])
p("C15","Never-indexed headers are always emitted never-indexed",
  "A header marked never-indexed (and not at the same time with-indexing) is always put on the wire as a never-indexed literal, whether its name is sent as an index or as a string and whether or not the best-format search finds a match. Neither the encoder's nor the decoder's table ever receives it, and the decoder reports it with the never-indexed flag.",
  ["inputs","histories"],"all names, values, flag combinations and table contents",
  "Tests use the flag only without best-format and never with a matching entry in the table.",
  [HE,HD],[("flag handling in the literal encoders",HE),("flag reported by the literal decoder",HD)],
  observe=["Encoder::encode output","Decoder::decode flags"])
p("C16","HPACK integers and strings are written as RFC 7541 section 5 defines",
  "Every integer the encoder writes (index, length, table size) is the RFC 7541 section 5.1 representation of that value with the prefix size of its field and without disturbing the pattern bits. Every string is preceded by its exact octet length and by an H bit that is set exactly when the octets are Huffman-coded.",
  ["inputs"],"all values up to 2^32-1, all string lengths, both Huffman choices",
  "Thirteen integers and two strings are tested.",
  [HEP],[("integer encoder",HEP),("string encoder",HEP)],observe=["Encoder::encode output bytes"])
p("C17","The HPACK encoder never panics and refuses bad indexes cleanly",
  "Encoding never panics or overflows for any name, value, index or flag byte. A request that uses an index not present in the table returns an invalid-index error without writing a byte and without changing the table.",
  ["inputs","histories"],"all encoder inputs x all table states",
  "No test passes an invalid index.",
  [HE,HEP,HTD],[("index lookup before emission",HE)],observe=["Encoder::encode","Encoder::encode_indexed","Encoder::encode_indexed_name","Encoder::encode_literal"])
p("C18","The Huffman code table is the one of RFC 7541 Appendix B",
  "The code used for encoding assigns to each of the 256 octets and to EOS exactly the bit string of RFC 7541 Appendix B; it is prefix-free and complete, and the specification text shipped with the crate states the same code.",
  ["inputs"],"all 257 symbols",
  "Tests compare the 256 codes as padded bytes, which cannot distinguish padding from code bits, and three lines of the specification asset.",
  [FET,"huffman/assets/hpack-huffman.txt"],[("encode table",FET)],observe=["encode output"])
p("C19","Every Huffman decoding table accepts exactly the HPACK code",
  "For each of the five decoding speeds the translation table, read as an automaton that consumes that many bits at a time, decodes every code of the table to its symbol with the right number of unused bits, and has no transition for any bit string that is not the beginning of a code.",
  ["inputs"],"all symbols, all transitions of the five tables, all unused-bit fillings",
  "The decode tests use one symbol at a time (and mostly one speed); rows reached only by particular bit alignments are never visited.",
  FDT+[FET],[("five translation tables","huffman/src/decoder/table1.rs .. table5.rs")],observe=["decode at each DecoderSpeed"])
p("C20","Huffman encoding concatenates codes and pads with ones",
  "For every octet string, the encoder appends exactly the concatenation of the codes of its octets, most significant bit first, followed by fewer than eight one-bits up to the next octet boundary. It never fails, never panics, and leaves what the output buffer already contained.",
  ["inputs"],"all octet strings of any length",
  "Tests encode single characters; carrying bits across octets for every alignment and code length is not enumerated.",
  [FE],[("bit accumulator",FE)],observe=["encode"])
p("C21","The Huffman decoder consumes each bit exactly once, in order",
  "At every speed, each table lookup starts at the first bit not yet used, uses the table belonging to that speed, restarts at the root after a symbol, and gives back exactly the unused bits the table entry states; every symbol found is appended in order. Hence the five speeds give the same result for the same input.",
  ["inputs"],"all inputs, all five speeds, all alignments between octets and chunks",
  "The speeds are tested on single symbols and a few literals; alignments beyond these are not reached.",
  [FR,FD],[("bit buffer handling",FR),("speed to table dispatch",FR)],observe=["decode at each DecoderSpeed"])
p("C22","Huffman decoding rejects EOS and any padding but short all-ones",
  "A sequence is accepted only if the bits after the last complete symbol are fewer than eight and all ones; every other ending, any bit string that is not a code, and the EOS code itself are invalid-input errors.",
  ["inputs"],"all inputs and all five speeds",
  "Only well-formed endings are tested; zero padding, over-long padding and EOS are not.",
  [FR],[("padding validation",FR),("EOS rejection",FR)],observe=["decode"])
p("C23","Huffman decoding never panics",
  "For every octet string and every speed, Huffman decoding returns success or an error: no arithmetic overflow, no out-of-range shift, no out-of-range table access, and no unbounded loop.",
  ["inputs"],"all octet strings x five speeds",
  "Only valid inputs are tested, mostly at one speed.",
  [FR,FD],[("bit buffer arithmetic",FR)],observe=["decode"])
p("C24","Protobuf decoding never panics and always terminates",
  "For every byte sequence and every split of it over successive calls, decoding protobuf fields returns success or an error without panicking, and converting any decoded (or arbitrary) bytes into a typed value returns a value, never a panic.",
  ["inputs","histories"],"all byte strings, all chunkings, all literal kinds",
  "Tests decode one well-formed message; over-long varints, huge lengths and garbage are not tested.",
  [PD,PDP,PDL],[("decoder primitives",PDP)],observe=["Decoder::decode","From<DecoderLit>"])
p("C25","Protobuf decoding can stop at any byte and resume without loss",
  "When the input ends inside a key, length or value, decoding reports success having consumed only complete items, keeps the rest of the buffer untouched and remembers the field in progress, so that appending the missing bytes and decoding again continues as if the input had arrived at once. Each field is delivered exactly once, with its own tag, wire type and bytes, and after it the decoder expects a new key.",
  ["inputs","histories"],"all messages x all chunkings",
  "The single decoder test passes a whole message at once.",
  [PD],[("decoder state machine",PD),("underflow maps to zero progress",PD)],
  state=[dict(name="key/ld_len",meaning="field in progress",where=PD)],observe=["Decoder::decode repeated on a growing buffer"])
p("C26","One protobuf decode call delivers every complete field",
  "A decode call continues until the buffer holds no further complete item: fields that follow an empty length-delimited field (empty string, bytes, message or packed list) are delivered in the same call. The returned count is the number of bytes removed from the front of the buffer.",
  ["inputs"],"all messages, with empty fields at any position",
  "The tested message contains no empty field and the returned count is not checked.",
  [PD],[("decode loop and its stop condition",PD)],observe=["Decoder::decode"])
p("C27","Protobuf field keys are validated in both directions",
  "Only tags from 1 to 2^29-1 with a known wire type (0, 1, 2, 5) are ever written or delivered. A key with another tag or wire type, or above 32 bits, is a decoding error that consumes nothing, and asking the encoder for an invalid tag is an invalid-tag error that writes nothing.",
  ["inputs"],"all tags, wire types and key encodings",
  "Two valid keys are tested in each direction; no invalid one.",
  [PDP,PEP],[("key decoder",PDP),("key encoder",PEP)],observe=["Encoder::encode","Decoder::decode"])
p("C28","Protobuf varints are written as minimal LEB128",
  "Every varint written (key, length, integer) is the little-endian base-128 representation of its 64-bit value: one to ten octets, continuation bit set on all but the last, and no superfluous trailing zero group.",
  ["inputs"],"all 64-bit values",
  "A dozen values are tested.",
  [PEP],[("varint encoder",PEP)],observe=["Encoder::encode output"])
p("C29","Protobuf varints are read as 64-bit LEB128 and over-long ones refused",
  "A varint of up to ten octets is read as the sum of its 7-bit groups modulo 2^64 and consumes exactly the octets up to the first one without continuation bit. A varint that continues beyond ten octets is an invalid-input error, and one that ends with the input is an underflow, in every place a varint is read.",
  ["inputs"],"all octet strings",
  "Two small varints are tested; none has more than ten octets.",
  [PDP],[("varint decoder",PDP),("varint extraction",PDP)],observe=["Decoder::decode","From<DecoderLit>"])
p("C30","Each protobuf scalar type round-trips over the wire",
  "For every scalar field type and every value, the encoder writes the wire type and the value transformation (two's complement, zigzag, little-endian fixed width, IEEE bits) that protobuf defines for that type, and converting the delivered bytes with the corresponding literal kind yields the original value bit for bit.",
  ["inputs"],"13 scalar types plus bytes and string x all values",
  "One or two values per type are tested and never through both directions; extreme and negative values are not.",
  [PE,PEP,PEL,PDL,PDP],[("type dispatch on both sides",PE),("value transformations",PEP)],observe=["Encoder::encode","From<DecoderLit>"])
p("C31","Packed repeated fields round-trip element by element",
  "A repeated field is written as one length-delimited field whose payload is the concatenation of the elements' scalar encodings in order, with the exact payload length, and converting the payload back yields the same list, including the empty list. Malformed payloads yield an empty list and never a partially decoded one.",
  ["inputs"],"13 element types x all lists",
  "One two-element list per type is encoded in the tests; no list is converted back.",
  [PE,PEP,PDL,PDP],[("packed encoders",PE),("packed decoders",PDP)],observe=["Encoder::encode","From<DecoderLit> for Vec"])
p("C32","Protobuf encoders return the number of bytes written",
  "On success every protobuf encoding call returns exactly the number of bytes it passed to the writer for that field: key, length prefix and payload.",
  ["inputs"],"all field kinds, tags and values",
  "The total of one 28-field message is checked.",
  [PE,PEP],[("size sums",PE)],observe=["Encoder::encode return value"])
p("C33","A protobuf writer failure is always reported",
  "If the underlying writer fails at any point while a field is being encoded, the call returns the interruption error and writes nothing further; no write failure is ignored and no success is reported for a partly written field.",
  ["fault_sequences","inputs"],"a failing write at every position of every field kind",
  "Tests write to vectors, which cannot fail.",
  [PEP,PE],[("error propagation from every write",PEP)],observe=["Encoder::encode with a failing io::Write"])
p("C34","Codec instances share no hidden state",
  "The result of an operation depends only on its arguments and on the instance it is called on: no global mutable state, thread-local, environment, clock or randomness is consulted, no unsafe code is used, and constants shared by instances cannot be modified.",
  ["schedules","histories"],"all interleavings of any number of instances and threads",
  "Tests run instances one at a time and cannot show the absence of a channel.",
  [HD,HE,HT,FD,FE,PD,PE],[("all state lives in the instance","hpack/src, huffman/src, protos/src")],observe=["all public functions"])
p("C35","The HPACK encoder compresses as well as the format allows",
  "With best-format requested, the encoded block is never longer than any other valid encoding of the same headers with the same table.",
  ["inputs","histories"],"all header lists",
  "Optimality quantifies over all alternative encodings.",
  [HE],[("representation choice",HE)],observe=["Encoder::encode output length"])
p("C36","Generated translation tables decode any prefix code",
  "For every complete prefix code given as input, the table generator produces a translation table that decodes exactly that code at the requested speed, and the specification parser returns the code described by any well-formed specification text.",
  ["inputs"],"all prefix codes, all specification texts",
  "Tests generate tables for one nine-symbol sample and parse one file.",
  ["huffman/src/flattener/mod.rs","huffman/src/parser/mod.rs"],[("flatten","huffman/src/flattener/mod.rs"),("parse","huffman/src/parser/mod.rs")],
  observe=["flatten","parse"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
