#!/usr/bin/env python3
"""Source of properties.jsonl (kept here because JSONL is unpleasant to edit): python3 tools/mkprops.py > properties.jsonl"""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": state or [], "observe_at": observe, "hook_needed": hook}})

CE = "asn1crt/asn1crt_encoding.c"; CU = "asn1crt/asn1crt_encoding_uper.c"; CA = "asn1crt/asn1crt_encoding_acn.c"
p("P01", "C bit-stream primitives behave as an exact bit array",
  "Whatever sequence of bit, byte, partial-byte, bit-field, bit-array and zero/one-fill writes an application performs through the C runtime, at any starting alignment, the buffer afterwards holds exactly those bits in order, no bit outside the written span is touched, and the reported position and length equal the bits written. Reading the same fields back, peeking, skipping and seeking yields the same values and positions. A read, and an append that returns a result, that does not fit in the buffer is refused without touching memory outside it.",
  ["inputs", "histories"], "every sequence of primitive reads and writes, every value, every alignment, every buffer size that can or cannot hold it",
  "The 17 committed C suites drive the primitives only through fixed generated codecs with fixed values and buffers always large enough; alignments and refusals are barely sampled.",
  [CE, "asn1crt/asn1crt_encoding.h"],
  [("bit/byte append and read", CE + ": BitStream_Append*/Read*/PeekBit/*NBit*"), ("position arithmetic", CE + ": currentByte/currentBit updates")],
  ["bytes of the attached buffer", "BitStream_GetLength and the return flags"],
  [{"name": "currentByte/currentBit", "meaning": "next bit to write/read", "where": "asn1crt/asn1crt.h BitStream"}])
p("P02", "C uPER primitive codecs emit X.691 bytes and decode them back",
  "For every value and every legal bound, the C runtime's integer (constrained, semi-constrained, unconstrained; signed and unsigned), boolean, length/fragmentation, octet-string, bit-string and object-identifier encoders emit exactly the bits that ITU-T X.691 unaligned PER prescribes for the runtime's documented profile. Decoding those bits, from any alignment, succeeds, consumes exactly them and returns the encoded value; bits that denote no value within the bounds are rejected. The result is the same whether the runtime is built for 8-byte or 4-byte integers.",
  ["inputs", "configurations"], "all values, ranges, lengths (including fragment boundaries 16K..64K) and alignments; 8- and 4-byte integer configuration",
  "The suites check only decode(encode(v))=v for a few automatic values, so a symmetric wire-format error is invisible, and boundary values, fragmentation and rejection are not sampled.",
  [CE, CU], [("whole number codecs", CE + ": BitStream_{En,De}code*WholeNumber*"), ("fragmentation", CE + ": *OctetString_fragmentation, *BitString*"), ("object identifiers", CU)],
  ["encoded bits vs an independent X.691 model"])
p("P03", "C ACN primitive codecs follow the documented ACN layout and round-trip",
  "For every value its field can carry, each C runtime ACN codec (positive and two's-complement integers of constant and embedded length, big/little endian 16/32/64-bit, BCD and ASCII numerals constant, length-embedded and null-terminated, IEEE-754 reals, boolean/true-false patterns, character strings with embedded, external or null-terminated length, alignment, length determinants and the milbus mapping) writes exactly the layout the ACN manual defines. Decoding that layout returns the value and consumes exactly those bits, at every alignment.",
  ["inputs", "configurations"], "all values representable in the field, all field sizes, alignments and endiannesses",
  "The ACN suites cover a few grammars with default values and compare only a value with its own round trip.",
  [CA, "asn1crt/asn1crt_encoding_acn.h"], [("ACN integer/real/string codecs", CA + ": Acn_Enc_*/Acn_Dec_*")],
  ["encoded bits vs an independent model of the ACN layout"])
p("P04", "Every finite and special REAL survives encoding exactly",
  "Encoding any IEEE-754 double (or float in the 4-byte configuration) with the uPER REAL encoding and decoding it again returns the identical number: zero, negative zero, every normal and subnormal value, both infinities and NaN. The bytes are a legal X.690/X.691 base-2 real denoting exactly that number, and legal base 2, 8 and 16 encodings produced by other tools decode to the number they denote.",
  ["inputs"], "all 2^64 doubles (2^32 floats); all legal binary REAL encodings with representable value",
  "Suites round-trip a handful of reals with a relative tolerance.",
  [CE], [("mantissa/exponent split and rebuild", CE + ": CalculateMantissaAndExponent, GetDoubleByMantissaAndExp"), ("REAL codec", CE + ": BitStream_EncodeReal/DecodeReal")],
  ["decoded bit pattern vs original; bytes vs exact rational arithmetic"])
p("P05", "C runtime decoders are memory-safe and terminate on arbitrary bytes",
  "Whatever bytes it is given, truncated or hostile, every uPER and ACN decoding routine of the C runtime returns in bounded time without reading or writing outside the caller's buffers and without undefined behaviour. It never reports success after needing more bits than the stream holds, never moves the position past the end, and leaves counts within the capacity it was given.",
  ["inputs"], "all byte strings and truncation points, all start offsets, all capacity parameters",
  "No test decodes malformed or truncated data.",
  [CE, CU, CA], [("bounds checks", CE + ": bitstream_fetch / BitStream_Read*; " + CA + ": Acn_Dec_*")],
  ["ASan/UBSan reports with exact-size heap buffers", "return flag, position and count after each call"])
p("P06", "C XER primitives write well-formed XML and read it back safely",
  "Each XER primitive of the C runtime writes, within the buffer it was given or else reports failure, an element holding the value's canonical text, and reading that element back (with or without white space, comments and an XML header around it) yields the same value. On arbitrary, truncated or hostile XML the reading primitives fail cleanly: no out-of-bounds access, no endless loop, no count larger than the capacity supplied.",
  ["inputs"], "all values of each primitive, all tag names, buffer sizes, layouts and arbitrary byte strings",
  "No stable test executes the XER runtime at all.",
  ["asn1crt/asn1crt_encoding_xer.c"], [("tokenizer", "asn1crt/asn1crt_encoding_xer.c: NT/LA"), ("element codecs", "asn1crt/asn1crt_encoding_xer.c: Xer_Encode*/Xer_Decode*")],
  ["document text vs an XML parser and reference text; decoded values; sanitizer reports"])
p("P07", "C BER primitives emit valid BER and read it back safely",
  "Each BER primitive of the C runtime emits the tag, a correct definite length and the contents octets X.690 prescribes, and decoding them returns the same value and consumes exactly those octets. On arbitrary or truncated octets the decoding primitives never access memory outside the stream or the destination, never loop without bound, and report failure when the data run out.",
  ["inputs"], "all values, tags and lengths; arbitrary byte strings and truncations",
  "No stable test executes the BER runtime at all.",
  ["asn1crt/asn1crt_encoding_ber.c"], [("tag/length/contents", "asn1crt/asn1crt_encoding_ber.c: BerEncode*/BerDecode*")],
  ["octets vs an independent X.690 model; sanitizer reports"])
p("P08", "Ada runtime and C runtime produce the same wire bits",
  "For every primitive both runtimes offer, encoding a value with the SPARK/Ada runtime yields bit for bit what the C runtime yields, and each runtime decodes the other's bits to the original value while consuming the same number of bits. This holds for uPER and for ACN, at every alignment.",
  ["inputs", "configurations"], "all values, bounds, sizes and alignments of every primitive present in both runtimes",
  "The Ada runtime is only compiled by the stable tests, never executed.",
  ["ADA_RTL2/src/adaasn1rtl-encoding.adb", "ADA_RTL2/src/adaasn1rtl-encoding-uper.adb", "ADA_RTL2/src/adaasn1rtl-encoding-acn.adb", CE, CA],
  [("Ada codecs", "ADA_RTL2/src/adaasn1rtl-encoding*.adb"), ("C codecs", "asn1crt/*.c")], ["bits and decoded values of both runtimes, compared by an offline checker"])
p("P09", "Ada runtime decoders reject bad input without raising",
  "Given any bit stream, truncated or hostile, the Ada runtime's decoding routines, called within their contracts, report failure through their result instead of raising an exception or violating a run-time check, leave the position within the stream, and return values within the declared bounds whenever they report success.",
  ["inputs"], "all byte strings, truncation points and bounds parameters",
  "The Ada runtime is only compiled by the stable tests, never executed.",
  ["ADA_RTL2/src/adaasn1rtl-encoding.adb", "ADA_RTL2/src/adaasn1rtl-encoding-uper.adb", "ADA_RTL2/src/adaasn1rtl-encoding-acn.adb"],
  [("result records and preconditions", "ADA_RTL2/src/adaasn1rtl-encoding*.ads")], ["exceptions caught by the harness, built with all checks and assertions on"])
p("P10", "Generated C uPER codecs conform to X.691 for any grammar",
  "For every supported ASN.1 grammar and every valid value of its types, the C code generated by the compiler encodes to exactly the X.691 unaligned PER bits of that value and decodes those bits back to the same value, consuming all of them.",
  ["programs", "inputs"], "all supported grammars (nesting, optionality, defaults, constraints, extensions excluded by the tool) and all valid values",
  "The stable tests run committed snapshots of generated code; the compiler's front end and back ends are only parsed, never run.",
  ["FrontEndAst", "BackendAst/DAstUPer.fs", "StgC/uper_c.stg", "asn1crt"],
  [("uPER range computation", "FrontEndAst/uPER.fs"), ("uPER code generation", "BackendAst/DAstUPer.fs, StgC/uper_c.stg")],
  ["bytes and decoded structures of compiled generated code vs an independent reference codec"])
p("P11", "Generated C ACN codecs follow the ACN specification",
  "For every supported pair of ASN.1 and ACN grammars and every valid value, the generated C code emits exactly the bits that the ACN encoding properties define (sizes, encodings, endianness, alignment, patterns, inserted determinant fields, presence conditions, choice determinants, length determinants and terminators) and decodes them back to the same value. Determinant fields always agree with the data they describe.",
  ["programs", "inputs"], "all supported ASN.1+ACN grammars and all valid values",
  "The stable tests run a few committed snapshots; the compiler itself is never run.",
  ["FrontEndAst/AcnCreateFromAntlr.fs", "FrontEndAst/AcnEncodingClasses.fs", "BackendAst/DAstACN.fs", "StgC/acn_c.stg", CA],
  [("ACN encoding class selection", "FrontEndAst/AcnEncodingClasses.fs"), ("ACN code generation", "BackendAst/DAstACN.fs, StgC/acn_c.stg")],
  ["bytes and decoded structures of compiled generated code vs an independent reference codec"])
p("P12", "Constraint checks accept exactly the valid values",
  "The validity function generated for a type accepts a value exactly when the value satisfies the type's ASN.1 constraints (value ranges, unions, intersections, exclusions, sizes, permitted alphabets, single values, inner components), for every nesting of types. Encoding with checks enabled fails for every invalid value, and decoding never delivers a value outside the range the encoding was built for.",
  ["programs", "inputs"], "all constraint expressions and all values, in particular at and next to every boundary",
  "Stable tests only ever validate automatic valid values in committed snapshots.",
  ["BackendAst/DastValidate2.fs", "StgC/isvalid_c.stg", "FrontEndAst/ConstraintsMapping.fs", "CommonTypes"],
  [("constraint code generation", "BackendAst/DastValidate2.fs, StgC/isvalid_new_c.stg")], ["verdict of the generated check vs direct evaluation of the constraint"])
p("P13", "Generated C decoders survive arbitrary input",
  "Whatever bytes they are given, generated uPER and ACN decoders return success or an error code without memory errors, undefined behaviour or unbounded work. When decoding succeeds the delivered value can be safely inspected, validated, compared and re-encoded, and when that value is valid, re-encoding and decoding it gives the same value again.",
  ["programs", "inputs"], "all supported grammars; all byte strings, truncations and mutations of valid messages",
  "No stable test decodes malformed data.",
  ["BackendAst", "StgC/uper_c.stg", "StgC/acn_c.stg", "asn1crt"], [("bounds and range checks in generated decoders", "StgC/*.stg"), ("runtime checks", "asn1crt")],
  ["sanitizer reports, return codes, re-encode/decode agreement"])
p("P14", "Generated Ada code interoperates with generated C code",
  "For every supported grammar and every valid value, code generated for Ada compiles, decodes the bytes produced by the C code for the same grammar, judges the value valid, and re-encodes it to the identical bytes, in uPER and in ACN. Arbitrary bytes are either refused or decoded into a valid value, never with an unhandled exception.",
  ["programs", "inputs"], "all supported grammars and values, plus mutated messages",
  "Stable tests only compile the Ada runtime; no generated Ada code is built or run.",
  ["StgAda", "BackendAst", "ADA_RTL2/src"], [("Ada templates", "StgAda/*.stg"), ("Ada runtime", "ADA_RTL2/src")], ["bytes re-encoded by the Ada program vs reference bytes"])
p("P15", "Generated XER codecs round-trip and write well-formed XML",
  "For every supported grammar and valid value, the generated C XER encoder writes a well-formed XML document whose element structure and text are those of the value, within the advertised maximum size, and the generated decoder restores the same value from it. Damaged documents are refused without memory errors.",
  ["programs", "inputs"], "all supported grammars and values; mutated documents",
  "No stable test executes XER code.",
  ["BackendAst/DAstXer.fs", "FrontEndAst/XER.fs", "StgC/xer_c.stg", "asn1crt/asn1crt_encoding_xer.c"], [("XER generation", "BackendAst/DAstXer.fs, StgC/xer_c.stg")],
  ["document parsed by an independent XML parser; decoded structures; sanitizer reports"])
p("P16", "Wrong grammars are diagnosed, never accepted or crashed on",
  "Given an input that is syntactically or semantically wrong, the compiler reports it with a diagnostic naming the file and position and stops with a failing exit status without generating code (a value outside its type's constraints and an ACN specification for an unknown type are reported as warnings); it never ends with an internal exception, hangs, or silently produces code. Correct grammars are accepted, and each documented mistake of the project's own regression corpus keeps its documented diagnostic.",
  ["programs"], "all invalid ASN.1/ACN inputs, in particular single mistakes in and mutations of valid grammars (ACN properties that do not apply to a kind of type are ignored by design and excluded)",
  "The stable tests never run the compiler.",
  ["Antlr/asn1.g", "Antlr/acn.g", "FrontEndAst/CheckAsn1.fs", "FrontEndAst/AcnCreateFromAntlr.fs", "asn1scc/Program.fs"],
  [("semantic checks", "FrontEndAst/CheckAsn1.fs, FrontEndAst/AcnCreateFromAntlr.fs"), ("exit status", "asn1scc/Program.fs")], ["exit status and messages of the compiler"])
p("P17", "Code-generation options never change the wire format",
  "Options that only affect the shape of the generated code or its names (slim integer types, efficient enumerations, rename policies, field and type prefixes, global initialisers, equality functions, PDU selection, word sizes where the grammar fits) leave every encoding unchanged: code generated with and without the option encodes the same value to the same bytes and accepts the same messages.",
  ["programs", "configurations", "inputs"], "all option combinations, supported grammars and values",
  "The stable tests never run the compiler; snapshots fix one option set.",
  ["asn1scc/Program.fs", "FrontEndAst/EnsureUniqueEnumNames.fs", "BackendAst", "StgC"], [("option handling", "asn1scc/Program.fs, FrontEndAst/FE_TypeDefinition.fs")],
  ["transcoding results of the differently generated programs on the same messages"])
p("P18", "Advertised maximum sizes bound every encoding and are reached",
  "The maximum encoded size the compiler advertises for a type (in bits and bytes, per encoding) is never exceeded by the encoding of any valid value, so a buffer of that size always suffices, and the bytes figure is the bits figure rounded up. For types whose largest encoding is determined by their constraints the advertised uPER size is exactly the size of the largest encoding, and the sizes exported in the XML description agree with those in the code.",
  ["programs", "inputs"], "all supported grammars and valid values, in particular the largest",
  "Snapshots only check that a few messages fit.",
  ["FrontEndAst/uPER.fs", "FrontEndAst/AcnEncodingClasses.fs", "FrontEndAst/ExportToXml.fs", "BackendAst/DAstXer.fs"], [("size computation", "FrontEndAst/uPER.fs, AcnEncodingClasses.fs, XER.fs")],
  ["length of every encoding, encoded into an exactly sized buffer under ASan, vs advertised size"])
p("P19", "Generated automatic tests pass for the whole regression corpus in C and Ada",
  "For every accepted grammar variant of the project's regression corpus, the generated code and its generated automatic test cases compile without errors and every test case succeeds, in C under memory and undefined-behaviour sanitizers and in Ada with run-time checks enabled.",
  ["programs", "inputs"], "all grammar variants of the corpus and the automatic test values",
  "The corpus needs the compiler; the stable tests contain only 17 committed outputs, without sanitizers and never in Ada.",
  ["BackendAst", "StgC", "StgAda", "FrontEndAst", "asn1crt", "ADA_RTL2/src"], [("automatic test case generation", "BackendAst/EncodeDecodeTestCase.fs"), ("code generation", "BackendAst, StgC, StgAda")],
  ["exit status and reports of each generated test program"])
p("P20", "Streaming mode is equivalent to one-shot coding",
  "With streaming support, encoding through any small buffer that is pushed out as it fills, and decoding through any small buffer that is refilled on demand, yields the same byte stream, the same values and the same verdicts as one-shot coding with a buffer large enough for the whole message, for every buffer size that the mode admits.",
  ["programs", "inputs", "histories"], "all values, all buffer sizes and hence all refill/flush points",
  "No stable test builds the runtime with streaming enabled.",
  [CE, CU, CA, "asn1crt/asn1crt_encoding.h"], [("flush/refill", CE + ": bitstream_push_data_if_required / bitstream_fetch_data_if_required")],
  ["concatenation of pushed chunks and decoded values, compared with the one-shot run"])
p("P21", "Compilation is deterministic and independent of the layout of the grammar",
  "Compiling the same grammars with the same options always yields identical files, whatever was compiled before. White space, comments, line ends, the order of assignments, the order of files on the command line and the division of modules into files never change the messages the generated code writes and accepts. The default ACN grammar the compiler writes for an ASN.1 grammar leaves the uPER messages as they are and encodes every value in ACN to exactly the bits of uPER.",
  ["programs", "histories"], "all supported grammars, all layouts of their text, and sequences of compilations",
  "The stable tests never run the compiler.",
  ["Antlr/asn1.g", "Antlr/acn.g", "BackendAst/GenerateFiles.fs", "FrontEndAst", "BackendAst"], [("parsers", "Antlr/*.g"), ("topological order and dependencies", "FrontEndAst"), ("default ACN grammar", "BackendAst/GenerateFiles.fs: EmitDefaultACNGrammar")],
  ["generated files of repeated compilations; encodings and verdicts of the programs generated from the layouts"])
p("P23", "Generated equality and initialisers are sound",
  "The generated equality function of a type is reflexive, symmetric and true exactly for equal abstract values (same presence, alternative, length and contents, ignoring unused storage; reals up to the documented tolerance). The generated initialiser yields a value that can be validated, compared and encoded safely, equals the generated constant initialiser, and is valid whenever the type admits the default content.",
  ["programs", "inputs"], "all supported grammars and pairs of values, including values differing in a single component",
  "Snapshots only compare a value with its own round trip.",
  ["BackendAst/DAstEqual.fs", "BackendAst/DAstInitialize.fs", "StgC/equal_c.stg", "StgC/init_c.stg"], [("equality generation", "BackendAst/DAstEqual.fs"), ("initialisation", "BackendAst/DAstInitialize.fs")],
  ["result of the generated function on pairs of values vs model equality"])
p("P24", "Deferred-patching ACN code is wire-equivalent to classic ACN code",
  "For every ACN grammar that both code-generation schemes accept, the code that reserves determinant fields and patches them later emits exactly the bytes of the classic scheme, decodes the same messages to the same values, and refuses the same values for which no consistent determinant exists.",
  ["programs", "inputs"], "all ACN grammars accepted by both schemes and all valid values",
  "The acnv2 suites are snapshots of seven grammars with automatic values in which nothing compares the two schemes.",
  ["BackendAst/DAstACNDeferred.fs", "StgC/acn_c.stg", "asn1crt/asn1crt_encoding_acn.h"], [("reserve and patch", "asn1crt/asn1crt_encoding_acn.h deferred determinant helpers")],
  ["bytes and verdicts of both generated programs on the same values"])
if __name__ == "__main__":
    for x in P:
        print(json.dumps(x, ensure_ascii=False))
