TECH = {
 "P01": "runtime monitoring: random operation histories on the real C runtime under ASan+UBSan, every result, position and buffer compared online with a bit-array model",
 "P02": "runtime monitoring: random field scripts on the real C runtime under ASan+UBSan; an offline checker compares every bit, position and value with an independent X.691 model, and checks that non-values are refused",
 "P03": "runtime monitoring: random field scripts on the real C runtime under ASan+UBSan; an offline checker compares every bit, position and value with an independent model of the ACN layouts",
 "P04": "runtime monitoring: random and boundary reals through the real C codec under ASan+UBSan; bytes judged by exact rational arithmetic",
 "P05": "sanitizers (ASan+UBSan) on the real C decoders fed random, mutated and truncated data in exact-size heap buffers, plus monitors on result, position and counts",
 "P07": "sanitizers (ASan+UBSan) on the BER primitives with buffers of exactly the advertised size; a checker compares every octet, position, verdict and value with an X.690 model, over valid, truncated and hostile octets",
 "P10": "runtime monitoring: random ASN.1 grammars compiled by the real compiler, the generated C run under ASan+UBSan on random valid values, every encoding compared bit for bit and every decoding value for value with an independent X.691 model",
 "P11": "runtime monitoring: random ASN.1 grammars decorated with random ACN properties, compiled by the real compiler; the generated C run under ASan+UBSan, every encoding compared bit for bit and every decoding value for value with an independent ACN model",
 "P12": "runtime monitoring: random ASN.1 grammars compiled by the real compiler, the generated validity functions, encoders and decoders observed under ASan+UBSan on valid values and their neighbours, every verdict compared with an independent constraint model",
 "P13": "sanitizers (ASan+UBSan, leak-free fixed storage, watchdog) on generated decoders of random grammars fed random, mutated and truncated bytes; monitors on verdict, error code, position, and on validating, comparing and re-encoding every accepted value",
 "P14": "runtime monitoring: generated Ada programs (GNAT run-time checks on) of random grammars decode what the sanitized generated C programs encode and re-encode it; monitors on verdict, position, validity, identical bytes, and on exceptions under hostile bytes",
 "P19": "runtime monitoring: the generated code of every accepted grammar of the project's corpus is built with its generated automatic test cases and run, the C programs under ASan+UBSan, the Ada programs with run-time checks; an offline checker reads every verdict from their logs",
 "P16": "runtime monitoring: catalogued mistakes planted at random places of random correct grammars, token mutations of correct grammars and the corpus's documented mistakes given to the real compiler; an oracle judges exit status, diagnostic text and position, and that nothing was generated",
 "P21": "runtime monitoring: random grammars compiled twice by compiler processes with different histories (all files compared), and again from equivalent layouts and from the compiler's own default ACN grammar; all programs run under ASan+UBSan on the same values and hostile inputs and every answer is compared",
 "P17": "runtime monitoring: random ASN.1 and ACN grammars compiled twice, with and without code-generation options, by the real compiler; both programs run under ASan+UBSan on the same values, encodings and hostile inputs and every answer is compared",
 "P18": "runtime monitoring: random ASN.1 grammars compiled by the real compiler; every encoding measured under ASan+UBSan against the advertised sizes, which are themselves compared with the XML description and an independent size model",
 "P23": "runtime monitoring: generated equality and initialiser functions of random grammars run under ASan+UBSan on pairs of equal and perturbed values in differently prefilled storage, every verdict compared with abstract equality",
 "P08": "runtime monitoring: the procedures of the real Ada runtime, built with all run-time checks and contracts, write and read random fields; every bit, position and value compared with what the real C runtime (under ASan+UBSan) writes and reads for the same case, and with the X.691/ACN models",
 "P09": "runtime monitoring: the decoding procedures of the real Ada runtime, built with all run-time checks and contracts, fed random, truncated and mutated bits and complete encodings that denote no value; monitors on exceptions, failed contracts, position, bounds of the value and verdict",
 "P20": "runtime monitoring: generated programs of random grammars built with and without the streaming mode, under ASan+UBSan; recording sink and source monitors; every octet, verdict, error and value of the streamed coding compared with the one-shot answers, for several buffer sizes, cut-off and hostile data",
}
NOTE = {
 "P01": "exploration: random histories (about 8 million operations per quick run), three build configurations; nothing is exhaustive",
 "P02": "exploration: random values, bounds, alignments and lengths incl. fragment sizes, in 8- and 4-byte integer builds",
 "P03": "exploration: random values, sizes, alignments and endiannesses, in 8- and 4-byte integer builds",
 "P04": "exploration: boundary classes of doubles/floats and random bit patterns; legal foreign encodings base 2, 8, 16",
 "P05": "exploration: random, mutated and truncated byte strings for every decoding routine",
 "P07": "exploration: 3 configurations (64 and 32 bit words, assertions on and off), about 2.6 million calls per quick run",
 "P10": "exploration: 160 random grammars (about 1100 types, 33000 judged executions) per quick run, 2400 grammars thorough, plus fixed grammars for the recorded findings",
 "P11": "exploration: 160 random ASN.1+ACN grammars per quick run, 2400 thorough, plus a fixed grammar for the recorded finding",
 "P12": "exploration: 240 random grammars (about 96000 judged values) per quick run, 2400 thorough, plus fixed grammars for the recorded findings",
 "P13": "exploration: 200 random uPER grammars and 120 random ACN grammars, about 130000 hostile inputs per quick run, 4000 grammars thorough",
 "P14": "exploration: 120 random grammars in uPER and ACN, about 49000 messages exchanged or hostile per quick run, 1200 grammars thorough",
 "P19": "exploration: all 294 accepted corpus variants in C and Ada with the options upstream uses (about 12000 test cases) per quick run, 8 option sets thorough",
 "P16": "exploration: 240 grammars with 720 planted mistakes (about 100 kinds), 640 token mutants and 178 documented diagnostics per quick run; 4000 grammars and 24000 mutants thorough",
 "P21": "exploration: 72 random grammars per quick run, each compiled twice and from 2 of 5 layouts, uPER-only grammars also with their default ACN grammar; 1800 grammars thorough",
 "P17": "exploration: 64 random grammars with 4 of 11 option sets each and 24 grammars with 4-byte integers per quick run (about 55000 compared answers), 1200+600 grammars thorough, plus fixed grammars for the recorded findings",
 "P18": "exploration: 240 random grammars and 120 random ACN grammars (about 2500 types, 45000 measured encodings) per quick run, 4000 thorough",
 "P23": "exploration: 240 random grammars (about 28000 judged pairs and initialisers) per quick run, 2400 thorough",
 "P08": "exploration: about 31000 random field cases for some 180 Ada procedures per quick run, 24 times as many thorough; infinities not for 32-bit reals",
 "P09": "exploration: about 88000 hostile decodings per quick run, 27 times as many thorough; calls that a procedure's own precondition excludes are counted, not judged",
 "P20": "exploration: 120 random grammars in uPER and ACN (about 42000 streamed codings) per quick run, 1800 thorough; ACN grammars with word or dword alignment or null-terminated lists are not streamed",
}
NOT_APPLICABLE = {
 "P06": "the family applies (sanitizers and a round-trip monitor on the XER primitives) but no check is claimed: trials showed the XER reader and writer to fail the property as stated in many ways (white space, escapes, capacity), which need a redesign rather than repairs, so a check would mostly restate them",
 "P15": "the family applies; not claimed because it rests on the XER primitives (P06)",
 "P24": "the family applies; trials with random grammars showed many real differences between the deferred and the classic scheme (grammars only one of them accepts, other error codes), too many to record individually, so no check is claimed",
}
