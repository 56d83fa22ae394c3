"""Mistakes with a certain verdict: each entry is a small declaration that breaks one rule of X.680 or of the ACN manual, to be placed
inside an otherwise correct random grammar.  asn(name, fn): fn(r) -> type text (anonymous: it may sit anywhere a type may) or a
dict(decl=[declarations]); acn(name, fn): fn(r) -> (type text, ACN spec text[, extra asn1 declarations, extra acn declarations, parameters])."""

ASN, ACN = [], []


def asn(f):
    ASN.append((f.__name__.replace("_", "-"), f)); return f


def acn(f):
    ACN.append((f.__name__.replace("_", "-"), f)); return f


def num(r, lo, hi):
    return r.randint(lo, hi)


def simple(r):
    return r.choice(["INTEGER", "INTEGER (0..%d)" % num(r, 1, 300), "BOOLEAN", "NULL", "IA5String (SIZE(1..%d))" % num(r, 2, 20),
                     "OCTET STRING (SIZE(%d))" % num(r, 1, 9), "BIT STRING (SIZE(0..%d))" % num(r, 1, 40), "REAL",
                     "ENUMERATED {zq, zw}", "SEQUENCE {zq BOOLEAN}", "SEQUENCE (SIZE(0..3)) OF BOOLEAN", "CHOICE {zq NULL, zw BOOLEAN}"])


# ------------------------------------------------------------------ ASN.1: references
@asn
def undefined_type(r): return "ZzMissing"
@asn
def undefined_value_in_range(r): return "INTEGER (0..zzMissing)"
@asn
def undefined_value_in_size(r): return r.choice(["OCTET STRING (SIZE(zzMissing))", "SEQUENCE (SIZE(0..zzMissing)) OF BOOLEAN", "IA5String (SIZE(1..zzMissing))"])
@asn
def undefined_default(r): return dict(child="zzc %s DEFAULT zzMissing" % r.choice(["INTEGER", "BOOLEAN", "OCTET STRING (SIZE(1..3))", "REAL"]))
@asn
def undefined_module_type(r): return "Zz-Nowhere.Foo"
@asn
def value_of_undefined_type(r): return dict(decl=["zz-v ZzMissing ::= %d" % num(r, 0, 9)])
@asn
def value_of_wrong_reference(r): return dict(decl=["ZzB ::= BOOLEAN", "zz-b ZzB ::= TRUE", "ZzI ::= INTEGER (0..zz-b)"])
@asn
def cyclic_type(r): return r.choice([dict(decl=["ZzA ::= SEQUENCE {a ZzA}"]), dict(decl=["ZzA ::= SEQUENCE {a ZzB}", "ZzB ::= CHOICE {b ZzA, c NULL}"]),
                                     dict(decl=["ZzA ::= SEQUENCE (SIZE(1..2)) OF ZzB", "ZzB ::= SEQUENCE {x ZzC OPTIONAL}", "ZzC ::= ZzA"])])
@asn
def cyclic_value(r): return dict(decl=["ZzI ::= INTEGER", "zz-a ZzI ::= zz-b", "zz-b ZzI ::= zz-a"])


# ------------------------------------------------------------------ ASN.1: duplicates
@asn
def duplicate_type(r): return dict(decl=["ZzD ::= " + simple(r), "ZzD ::= " + simple(r)])
@asn
def duplicate_value(r): return dict(decl=["zz-d INTEGER ::= %d" % num(r, 0, 9), "zz-d INTEGER ::= %d" % num(r, 0, 9)])
@asn
def duplicate_component(r): return "%s {zza %s, zzb BOOLEAN, zza %s}" % (r.choice(["SEQUENCE", "SET"]), simple(r), simple(r))
@asn
def duplicate_alternative(r): return "CHOICE {zza %s, zzb BOOLEAN, zza %s}" % (simple(r), simple(r))
@asn
def duplicate_item(r): return "ENUMERATED {zza, zzb, zza}"
@asn
def duplicate_item_value(r): return r.choice(["ENUMERATED {zza(%d), zzb(7)}" % 7, "ENUMERATED {zza(3), zzb(1), zzc(3)}"])
@asn
def duplicate_named_bit(r): return r.choice(["BIT STRING {zza(0), zza(1)} (SIZE(8))", "BIT STRING {zza(2), zzb(2)} (SIZE(8))"])
@asn
def case_clash(r): return dict(decl=["ZzUp ::= BOOLEAN", "ZzUp ::= INTEGER"])


# ------------------------------------------------------------------ ASN.1: values against types
@asn
def value_of_wrong_kind(r):
    k = r.choice([("INTEGER", "TRUE"), ("BOOLEAN", "5"), ("BOOLEAN", '"a"'), ("INTEGER", '"5"'), ("IA5String (SIZE(1..3))", "5"), ("REAL", "TRUE"),
                  ("REAL", '"1"'), ("INTEGER", "1.5"), ("SEQUENCE {zza INTEGER}", "7"), ("SEQUENCE (SIZE(1..3)) OF INTEGER", "7"),
                  ("OCTET STRING (SIZE(1..3))", "5"), ("BOOLEAN", "{}"), ("INTEGER", "{zza 1}"), ("ENUMERATED {zza, zzb}", "zzq"), ("ENUMERATED {zza, zzb}", "1")])
    return dict(decl=["ZzT ::= " + k[0], "zz-v ZzT ::= " + k[1]])
@asn
def value_outside(r):
    m = num(r, 1, 50)
    k = r.choice([("INTEGER (0..%d)" % m, str(m + num(r, 1, 5))), ("INTEGER (%d..%d)" % (m, m + 3), "-1"), ("IA5String (SIZE(1..3))", '"abcd"'),
                  ("OCTET STRING (SIZE(2))", "'010203'H"), ("BIT STRING (SIZE(4))", "'10101'B"), ("SEQUENCE (SIZE(1..2)) OF INTEGER", "{1,2,3}"),
                  ("IA5String (FROM(\"a\"..\"c\")) (SIZE(1..4))", '"xy"'), ("REAL (0.0..1.0)", "1.5"), ("SEQUENCE {zza INTEGER (0..5)}", "{zza 6}"),
                  ("CHOICE {zza INTEGER (0..5), zzb NULL}", "zza: 9"), ("NumericString (SIZE(1..4))", '"ab"'), ("PrintableString (SIZE(1..4))", '"a_b"')])
    return dict(decl=["ZzT ::= " + k[0], "zz-v ZzT ::= " + k[1]])
@asn
def value_missing_component(r): return dict(decl=["ZzT ::= SEQUENCE {zza INTEGER, zzb BOOLEAN}", "zz-v ZzT ::= {zza 3}"])
@asn
def value_unknown_component(r): return dict(decl=["ZzT ::= SEQUENCE {zza INTEGER, zzb BOOLEAN OPTIONAL}", "zz-v ZzT ::= {zza 3, zzq TRUE}"])
@asn
def value_unknown_alternative(r): return dict(decl=["ZzT ::= CHOICE {zza INTEGER, zzb BOOLEAN}", "zz-v ZzT ::= zzq: 3"])
@asn
def default_of_wrong_kind(r): return dict(child=r.choice(["zzc INTEGER DEFAULT TRUE", "zzc BOOLEAN DEFAULT 1", "zzc IA5String (SIZE(1..4)) DEFAULT 12", "zzc ENUMERATED {zza, zzb} DEFAULT zzq", "zzc REAL DEFAULT FALSE"]))
@asn
def default_outside(r): return dict(child=r.choice(["zzc INTEGER (0..10) DEFAULT %d" % num(r, 11, 20), "zzc IA5String (SIZE(2)) DEFAULT \"a\"", "zzc OCTET STRING (SIZE(1)) DEFAULT '0102'H", "zzc REAL (0.0..1.0) DEFAULT 2.0"]))


# ------------------------------------------------------------------ ASN.1: constraints
@asn
def inverted_range(r):
    n = num(r, 2, 90); return "INTEGER (%d..%d)" % (n, n - num(r, 1, 2))
@asn
def inverted_size(r): return r.choice(["OCTET STRING (SIZE(5..3))", "IA5String (SIZE(5..3))", "SEQUENCE (SIZE(5..3)) OF BOOLEAN", "BIT STRING (SIZE(9..2))"])
@asn
def negative_size(r): return r.choice(["OCTET STRING (SIZE(-1))", "IA5String (SIZE(-3..3))", "SEQUENCE (SIZE(-2..4)) OF BOOLEAN", "BIT STRING (SIZE(-1..2))"])
@asn
def size_on_scalar(r): return r.choice(["INTEGER", "BOOLEAN", "REAL", "ENUMERATED {zza, zzb}", "NULL"]) + " (SIZE(%d))" % num(r, 1, 4)
@asn
def from_on_other(r): return r.choice(["INTEGER", "BOOLEAN", "OCTET STRING", "BIT STRING", "REAL"]) + ' (FROM("a".."z"))'
@asn
def constraint_of_wrong_kind(r): return r.choice(["INTEGER (TRUE)", 'INTEGER ("a")', "BOOLEAN (3)", "IA5String (3)", "REAL (TRUE)", "ENUMERATED {zza, zzb} (3)", "INTEGER (1.5)", "OCTET STRING (7)", "ENUMERATED {zza, zzb} (zzq)"])
@asn
def range_on_boolean(r): return r.choice(["BOOLEAN (0..1)", "OCTET STRING (0..3)", "NULL (0..1)"])
@asn
def constraint_outside_parent(r): return r.choice(["INTEGER (0..10) (11..20)", dict(decl=["ZzI ::= INTEGER (0..10)", "ZzJ ::= ZzI (20..30)"]), "IA5String (SIZE(1..3)) (SIZE(5))"])
@asn
def unlimited_size(r): return r.choice(["OCTET STRING", "IA5String", "SEQUENCE OF BOOLEAN", "BIT STRING", "SET OF INTEGER"])
@asn
def unknown_component_constraint(r): return "SEQUENCE {zza INTEGER, zzb BOOLEAN OPTIONAL} (WITH COMPONENTS {..., zzq PRESENT})"
@asn
def presence_on_mandatory(r): return "SEQUENCE {zza INTEGER, zzb BOOLEAN OPTIONAL} (WITH COMPONENTS {..., zza ABSENT})"
@asn
def components_on_scalar(r): return r.choice(["INTEGER (WITH COMPONENTS {..., zza PRESENT})", "BOOLEAN (WITH COMPONENT (TRUE))"])
@asn
def empty_enumerated(r): return "ENUMERATED {}"
@asn
def empty_choice(r): return "CHOICE {}"


# ------------------------------------------------------------------ ASN.1: syntax
@asn
def syntax(r):
    return r.choice(["SEQUENCE {zza INTEGER", "SEQUENCE zza INTEGER}", "INTEGER (0..", "INTEGER (0...5)", "SEQUENCE {zza INTEGER,}", "SEQUENCE {, zza INTEGER}", "OCTET STRING SIZE(3))",
                     "CHOICE {zza INTEGER zzb BOOLEAN}", "ENUMERATED zza, zzb", "SEQUENCE OF", "INTEGER (|5)", "SEQUENCE {Zza INTEGER}", "SEQUENCE {zza}", "IA5String (FROM())", "integer",
                     "SEQUENCE {zza INTEGER OPTIONAL DEFAULT 3}", "OCTET STRING (SIZE())", "BIT STRING {Zza(0)} (SIZE(3))", "ENUMERATED {Zza}", "INTEGER (0..5", "INTEGER 0..5", "'01'H", "\"abc", "/* open"])
@asn
def missing_assign(r): return dict(decl=["ZzT %s" % simple(r)])
@asn
def lower_case_type(r): return dict(decl=["zzT ::= %s" % simple(r)])
@asn
def bad_string_literal(r): return dict(decl=["ZzT ::= OCTET STRING (SIZE(0..9))", "zz-v ZzT ::= '0G'H"])
@asn
def import_missing_type(r): return dict(imports="ZzMissing FROM %M")
@asn
def import_missing_module(r): return dict(imports="ZzMissing FROM Zz-Nowhere")


# ------------------------------------------------------------------ ACN: names
@acn
def unknown_child(r): return "SEQUENCE {zza INTEGER (0..9), zzb BOOLEAN}", "[] {zza [], zzq [], zzb []}"
@acn
def unknown_alternative(r): return "CHOICE {zza INTEGER (0..9), zzb BOOLEAN}", "[] {zza [], zzq []}"
@acn
def missing_child(r): return "SEQUENCE {zza INTEGER (0..9), zzb BOOLEAN}", "[] {zza []}"
@acn
def repeated_child(r): return "SEQUENCE {zza INTEGER (0..9), zzb BOOLEAN}", "[] {zza [], zzb [], zza []}"
@acn
def child_of_primitive(r): return r.choice(["INTEGER (0..9)", "BOOLEAN", "OCTET STRING (SIZE(3))"]), "[] {zza []}"
@acn
def inserted_of_unknown_type(r): return "SEQUENCE {zza BOOLEAN}", "[] {zzl ZzMissing [], zza []}"
@acn
def inserted_duplicates_component(r): return "SEQUENCE {zza BOOLEAN}", "[] {zza INTEGER [encoding pos-int, size 8], zza []}"
@acn
def inserted_in_choice(r): return "CHOICE {zza BOOLEAN, zzb NULL}", "[] {zzl INTEGER [encoding pos-int, size 8], zza [], zzb []}"


# ------------------------------------------------------------------ ACN: properties
# asn1scc ignores most properties of other kinds of types (see DESIGN.md); these it refuses
INAPPLICABLE = [("BOOLEAN", ["size 8", "size null-terminated"]), ("REAL", ["size 32", "encoding pos-int"]), ("INTEGER (0..9)", ["encoding IEEE754-1985-32"]),
                ("OCTET STRING (SIZE(0..5))", ["size 3"]), ("ENUMERATED {zza, zzb}", ["encoding IEEE754-1985-64"]),
                ("NULL", ["size 8", "encoding pos-int", "encode-values", "true-value '1'B", "false-value '1'B", "endianness little", "termination-pattern '00'H"])]
@acn
def inapplicable_property(r):
    t, ps = r.choice(INAPPLICABLE); return t, "[%s]" % r.choice(ps)
@acn
def unknown_property(r): return simple_acn(r), "[%s]" % r.choice(["zz-prop", "length 4", "encodes pos-int", "Size 3"])
def simple_acn(r): return r.choice(["INTEGER (0..9)", "BOOLEAN", "IA5String (SIZE(1..5))", "OCTET STRING (SIZE(0..5))"])
@acn
def repeated_property(r): return "INTEGER (0..9)", "[encoding pos-int, size 8, size 16]"
@acn
def too_small(r):
    b = num(r, 2, 14); return "INTEGER (0..%d)" % (1 << b), "[encoding pos-int, size %d]" % num(r, 1, b)
@acn
def too_small_signed(r):
    b = num(r, 2, 14); return "INTEGER (-%d..3)" % ((1 << b) + 1), "[encoding twos-complement, size %d]" % num(r, 2, b + 1)
@acn
def too_small_ascii(r): return "INTEGER (0..%d)" % 10 ** num(r, 2, 4), "[encoding ASCII, size 16]"
@acn
def bcd_not_nibbles(r): return "INTEGER (0..9)", "[encoding BCD, size %d]" % r.choice([1, 3, 5, 6, 7, 9])
@acn
def ascii_not_octets(r): return "INTEGER (0..9)", "[encoding ASCII, size %d]" % r.choice([9, 12, 15, 17])
@acn
def pos_int_of_signed(r): return "INTEGER (-%d..9)" % num(r, 1, 9), "[encoding pos-int, size 8]"
@acn
def endianness_of_odd_size(r): return "INTEGER (0..200)", "[encoding pos-int, size %d, endianness little]" % r.choice([9, 10, 12, 20, 24, 40])
@acn
def size_without_encoding(r): return "INTEGER (0..9)", "[size 8]"
@acn
def encoding_without_size(r): return "INTEGER (0..9)", "[encoding %s]" % r.choice(["pos-int", "ASCII", "BCD"])
@acn
def zero_size(r): return r.choice([("INTEGER (0..9)", "[encoding pos-int, size 0]"), ("INTEGER (-3..9)", "[encoding twos-complement, size 0]"), ("INTEGER (-3..9)", "[encoding ASCII, size 0]"), ("INTEGER (0..9)", "[encoding BCD, size 0]")])
@acn
def huge_size(r): return "INTEGER (0..9)", "[encoding pos-int, size %d]" % r.choice([65, 72, 100, 1000])
@acn
def equal_booleans(r): return "BOOLEAN", "[true-value '11'B, false-value '11'B]"
@acn
def unequal_boolean_lengths(r): return "BOOLEAN", "[true-value '11'B, false-value '100'B]"
@acn
def empty_boolean(r): return "BOOLEAN", "[true-value ''B]"
@acn
def enum_value_twice(r): return "ENUMERATED {zza, zzb}", "[encode-values, encoding pos-int, size 8] {zza [3], zzb [3]}"
@acn
def enum_unknown_item(r): return "ENUMERATED {zza, zzb}", "[encode-values, encoding pos-int, size 8] {zza [3], zzq [4]}"
@acn
def enum_value_too_large(r): return "ENUMERATED {zza, zzb}", "[encode-values, encoding pos-int, size 4] {zza [3], zzb [%d]}" % num(r, 16, 99)
@acn
def enum_negative_value(r): return "ENUMERATED {zza, zzb}", "[encode-values, encoding pos-int, size 8] {zza [-3], zzb [2]}"
@acn
def fixed_size_wrong(r):
    t = r.choice(["OCTET STRING (SIZE(7))", "IA5String (SIZE(7))", "SEQUENCE (SIZE(7)) OF BOOLEAN", "BIT STRING (SIZE(7))"]); return t, "[size %d]" % r.choice([1, 6, 8, 40])
@acn
def fixed_size_of_variable(r): return r.choice(["OCTET STRING (SIZE(0..7))", "IA5String (SIZE(1..7))", "SEQUENCE (SIZE(2..7)) OF BOOLEAN", "BIT STRING (SIZE(0..7))"]), "[size 5]"
@acn
def terminator_in_alphabet(r): return 'IA5String (FROM("a".."z")) (SIZE(1..5))', "[encoding ASCII, size null-terminated, termination-pattern '%02X'H]" % ord(r.choice("amz"))
@acn
def null_pattern_bad(r): return "NULL", "[pattern 'XY'H]"
@acn
def align_unknown(r): return "INTEGER (0..9)", "[align-to-next %s]" % r.choice(["nibble", "qword", "8", "bit"])
@acn
def endianness_unknown(r): return "INTEGER (0..900)", "[encoding pos-int, size 16, endianness %s]" % r.choice(["middle", "4", "Big"])


# ------------------------------------------------------------------ ACN: determinants and parameters
SIZED = ["OCTET STRING (SIZE(0..7))", "IA5String (SIZE(1..7))", "SEQUENCE (SIZE(2..7)) OF BOOLEAN", "BIT STRING (SIZE(0..7))"]
@acn
def unknown_size_determinant(r): return "SEQUENCE {zza %s}" % r.choice(SIZED), "[] {zza [size zzq]}"
@acn
def asn1_size_determinant(r): return "SEQUENCE {zzl INTEGER (0..7), zza %s}" % r.choice(SIZED), "[] {zzl [], zza [size zzl]}"
@acn
def boolean_size_determinant(r): return "SEQUENCE {zza %s}" % r.choice(SIZED), "[] {zzl BOOLEAN [], zza [size zzl]}"
@acn
def later_size_determinant(r): return "SEQUENCE {zza %s}" % r.choice(SIZED), "[] {zza [size zzl], zzl INTEGER [encoding pos-int, size 8]}"
@acn
def too_small_size_determinant(r): return "SEQUENCE {zza OCTET STRING (SIZE(0..%d))" % num(r, 16, 99) + "}", "[] {zzl INTEGER [encoding pos-int, size %d], zza [size zzl]}" % num(r, 1, 4)
@acn
def unknown_presence(r): return "SEQUENCE {zza INTEGER (0..9) OPTIONAL}", "[] {zza [present-when zzq]}"
@acn
def integer_presence(r): return "SEQUENCE {zza INTEGER (0..9) OPTIONAL}", "[] {zzp INTEGER [encoding pos-int, size 8], zza [present-when zzp]}"
@acn
def later_presence(r): return "SEQUENCE {zza INTEGER (0..9) OPTIONAL}", "[] {zza [present-when zzp], zzp BOOLEAN []}"
@acn
def presence_of_mandatory(r): return "SEQUENCE {zza INTEGER (0..9)}", "[] {zzp BOOLEAN [], zza [present-when zzp]}"
@acn
def presence_condition_type(r): return "SEQUENCE {zza INTEGER (0..9) OPTIONAL}", "[] {zzp INTEGER [encoding pos-int, size 8], zza [present-when (%s)]}" % r.choice(["zzp", "zzp + 1", "not zzp", "zzp and true", "zzp == true"])
@acn
def unknown_choice_determinant(r): return "SEQUENCE {zza CHOICE {zzx NULL, zzy BOOLEAN}}", "[] {zza <> [determinant zzq] {zzx [], zzy []}}".replace("<> ", "")
@acn
def integer_choice_determinant(r): return "SEQUENCE {zza CHOICE {zzx NULL, zzy BOOLEAN}}", "[] {zzd INTEGER [encoding pos-int, size 8], zza [determinant zzd] {zzx [], zzy []}}"
@acn
def wrong_names_choice_determinant(r): return ("SEQUENCE {zza CHOICE {zzx NULL, zzy BOOLEAN}}", "[] {zzd ZzE [], zza [determinant zzd] {zzx [], zzy []}}", ["ZzE ::= ENUMERATED {zzx, zzw}"])
@acn
def duplicate_choice_condition(r): return "SEQUENCE {zza CHOICE {zzx NULL, zzy BOOLEAN}}", "[] {zzd INTEGER [encoding pos-int, size 8], zza [] {zzx [present-when zzd == 3], zzy [present-when zzd == 3]}}"
@acn
def missing_choice_condition(r): return "SEQUENCE {zza CHOICE {zzx NULL, zzy BOOLEAN}}", "[] {zzd INTEGER [encoding pos-int, size 8], zza [] {zzx [present-when zzd == 3], zzy []}}"
@acn
def choice_condition_too_large(r): return "SEQUENCE {zza CHOICE {zzx NULL, zzy BOOLEAN}}", "[] {zzd INTEGER [encoding pos-int, size 4], zza [] {zzx [present-when zzd == 3], zzy [present-when zzd == %d]}}" % num(r, 16, 99)
@acn
def choice_condition_text(r): return "SEQUENCE {zza CHOICE {zzx NULL, zzy BOOLEAN}}", "[] {zzd INTEGER [encoding pos-int, size 8], zza [] {zzx [present-when zzd == \"a\"], zzy [present-when zzd == 4]}}"
INNER = ["ZzIn ::= SEQUENCE {zzx OCTET STRING (SIZE(0..7))}"]
INSPEC = ["ZzIn <INTEGER: zzn> [] {zzx [size zzn]}"]
@acn
def argument_missing(r): return "SEQUENCE {zza ZzIn}", "[] {zzl INTEGER [encoding pos-int, size 8], zza []}", INNER, INSPEC
@acn
def argument_extra(r): return "SEQUENCE {zza ZzIn}", "[] {zzl INTEGER [encoding pos-int, size 8], zza <zzl, zzl> []}", INNER, INSPEC
@acn
def argument_unknown(r): return "SEQUENCE {zza ZzIn}", "[] {zzl INTEGER [encoding pos-int, size 8], zza <zzq> []}", INNER, INSPEC
@acn
def argument_wrong_type(r): return "SEQUENCE {zza ZzIn}", "[] {zzl BOOLEAN [], zza <zzl> []}", INNER, INSPEC
@acn
def argument_unexpected(r): return "SEQUENCE {zza BOOLEAN}", "[] {zzl INTEGER [encoding pos-int, size 8], zza <zzl> []}"
@acn
def parameter_unused(r): return "SEQUENCE {zza ZzIn}", "[] {zzl INTEGER [encoding pos-int, size 8], zza <zzl> []}", ["ZzIn ::= SEQUENCE {zzx BOOLEAN}"], ["ZzIn <INTEGER: zzn> [] {zzx []}"]
@acn
def parameter_unknown_type(r): return "SEQUENCE {zza BOOLEAN}", "[]", ["ZzIn ::= SEQUENCE {zzx BOOLEAN OPTIONAL}"], ["ZzIn <ZzMissing: zzn> [] {zzx [present-when zzn]}"]
@acn
def parameter_repeated(r): return "SEQUENCE {zza BOOLEAN}", "[]", ["ZzIn ::= SEQUENCE {zzx BOOLEAN OPTIONAL}"], ["ZzIn <BOOLEAN: zzn, BOOLEAN: zzn> [] {zzx [present-when zzn]}"]


# ------------------------------------------------------------------ ACN: module level
@acn
def unknown_type_spec(r): return simple(r), None, [], ["ZzMissing []"]
@acn
def repeated_type_spec(r): return simple(r), None, ["ZzR ::= BOOLEAN"], ["ZzR []", "ZzR [true-value '1'B]"]
@acn
def unknown_constant(r): return "INTEGER (0..9)", "[encoding pos-int, size zz-missing]"
@acn
def repeated_constant(r): return "INTEGER (0..9)", None, [], ["CONSTANT ZZ-K ::= 3", "CONSTANT ZZ-K ::= 4"]
@acn
def acn_syntax(r): return simple_acn(r), r.choice(["[", "]", "[,]", "[size]", "[encoding]", "[] {", "[] }", "{}", "[] []", "[size 8", "size 8]", "[align-to-next]", "[present-when]", "[true-value 1]", "[size 8 encoding pos-int]"])
