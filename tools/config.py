"""Per property: contract modules, the functions it depends on, budgets."""

NUMBER = ['spec', 'stdx', 'number']
OUT = ['spec', 'stdx', 'number', 'raw', 'short', 'tree', 'object', 'json', 'text', 'wr', 'print_dec', 'jtext', 'jvalid', 'codegen', 'dump', 'show', 'gram', 'strback', 'value', 'top']
DUMP = ['spec', 'raw', 'short', 'tree', 'object', 'json', 'jtext', 'jvalid', 'codegen', 'dump', 'top', 'wr']

VAL = ['spec', 'stdx', 'number', 'raw', 'short', 'tree', 'object', 'json', 'value', 'equal']
OBJ = ['spec', 'stdx', 'number', 'raw', 'short', 'tree', 'object', 'json']

PARSE = ['spec', 'stdx', 'number', 'raw', 'short', 'tree', 'object', 'json', 'value', 'text', 'wr', 'print_dec', 'jtext', 'jvalid', 'gram', 'reader', 'literal', 'parser']
ROUND = ['spec', 'stdx', 'number', 'raw', 'short', 'tree', 'object', 'json', 'value', 'equal', 'text', 'wr', 'print_dec', 'jtext', 'jvalid', 'codegen', 'dump', 'show', 'gram', 'strback', 'reader', 'literal', 'numback', 'parser', 'roundtrip']
PVER = ['spec', 'number', 'raw', 'short', 'tree', 'object', 'json', 'value', 'gram', 'reader', 'literal', 'parser', 'jvalid']
PCONE = [r'^parser::', r'^reader::', r'^gram::', r'^object::impl Object::(insert_index|override_at|new|with_capacity|add_node|empty)', r'^object::impl (Key|Node)', r'^tree::', r'^raw::', r'^json::', r'^jvalid::lemma_']
PASSUME = ['the bytes of a &str are valid UTF-8 and at most isize::MAX many (Rust guarantees it)',
           'the stand-ins of contracts/parser.rs state what std does: slicing a string at character boundaries, chars, lines, char::from_u32, decode_utf16 of a pair, Vec::last_mut, Ord::min and max']

FLOAT = ['spec', 'stdx', 'number', 'raw', 'short', 'tree', 'object', 'json', 'value', 'powr', 'grisu', 'float', 'back']

PROPS = {
    'C01': dict(
        note='Every function of the parser proved by Verus free of overflow, out-of-range reads and panics, terminating, and its strings valid UTF-8, for every text.',
        level='proof', modules=PARSE, verify=PVER, min_verified=330,
        cone=PCONE + [r'^short::', r'^value::.*(from_str|From)', r'^number::.*[nN]eg'],
        assumptions=PASSUME + ['a string is released before the parser buffer it was read into changes (the lifetime is unchecked in the code; the value copies it at once)'],
        outside=['call-stack depth: the parser keeps its own stack and calls nothing recursively (no recursion in the call graph under contract); dropping a deep value is bounded by the limit of 512 levels (bounded)'],
    ),
    'C02': dict(
        note='parse proved by Verus to accept exactly the texts that the reference grammar reader accepts.',
        level='proof', modules=PARSE, verify=PVER, min_verified=330,
        cone=PCONE, assumptions=PASSUME,
    ),
    'C03': dict(
        note='parse proved by Verus to return exactly the value that the reference grammar reader gives each text.',
        level='proof', modules=PARSE, verify=PVER, min_verified=330,
        cone=PCONE + [r'^short::', r'^value::.*(from_str|From)', r'^number::.*[nN]eg'], assumptions=PASSUME,
    ),
    'C04': dict(
        note='Number literals proved by Verus to keep their decimal value, exactly or within 10^-18 as stated, for every literal.',
        level='proof', modules=PARSE, verify=PVER, min_verified=330,
        cone=[r'^parser::.*(parse$|number|fraction|exponent|extensions|expect_byte|bump|read_byte|is_eof)', r'^parser::lemma', r'^reader::', r'^literal::', r'^spec::', r'^number::.*([nN]eg|from_parts|as_parts)'],
        assumptions=PASSUME,
    ),
    'C05': dict(
        note='The kind and place of the error of parse proved by Verus for every text.',
        level='proof', modules=PARSE, verify=PVER, min_verified=330,
        cone=PCONE, assumptions=PASSUME,
        outside=['Display of the error (bounded)'],
    ),
    'C06': dict(
        note='Verus proves for every value that parse applied to what dump and pretty return gives an equal value with its keys in order; the contracts of printer and parser meet in one lemma.',
        level='proof', modules=ROUND, min_verified=600, smt_timeout=200,
        cone=PCONE + [r'^codegen::', r'^dump::', r'^jtext::', r'^wr::', r'^text::', r'^print_dec::', r'^short::', r'^strback::', r'^numback::', r'^roundtrip::', r'^literal::', r'^spec::', r'^equal::',
                      r'write_number', r'is_nan|as_parts', r'^number::.*PartialEq', r'^number::.*[nN]eg', r'^object::.*(Iter|iter|dump|pretty)', r'^value.*(dump|pretty|write|from_str|From)'],
        assumptions=PASSUME,
    ),
    'C13': dict(
        note='Equality of numbers, strings, arrays, objects and of values with every plain type proved by Verus, and that it is an equivalence.',
        level='proof', modules=VAL, min_verified=200,
        cone=[r'^number::.*PartialEq', r'^number::.*[nN]eg', r'^number::.*From<|^number::impl.*From <', r'^number::decimal_power', r'^number::impl Number::(from_parts_unchecked|is_nan|is_zero|as_parts)', r'^spec::', r'^number::lemma_',
              r'^equal::', r'^tree::', r'^object::impl Object::(get|len|iter)', r'^object::.*Iter', r'^short::', r'^raw::', r'^json::', r'^object::impl Key::as_'],
        outside=['f32 and f64 against numbers and values: proved under C19, bounded here'],
        assumptions=['== of standard vectors compares the lengths and then the elements'],
    ),
    'C14': dict(
        note='All conversions between Number, JsonValue and the ten integer types proved by Verus for all inputs.',
        level='proof', modules=VAL, verify=['spec', 'number', 'value'], min_verified=170,
        cone=[r'^number::.*From <', r'^number::impl Number::(from_parts_unchecked|is_nan|is_zero|as_parts)', r'^spec::', r'^number::lemma_', r'^value::.*(as_[uin]|From *<[ui])'],
    ),
    'C15': dict(
        note='All four fixed-point functions proved by Verus for all parts and points.',
        level='proof', modules=VAL, verify=['spec', 'number', 'value'], min_verified=170,
        cone=[r'fixed_point', r'scaled', r'decimal_power', r'is_nan', r'^spec::', r'^number::lemma_'],
    ),
    'C16': dict(
        note='Every step from the bits of a float to its decimal proved by Verus for all bit patterns, in exact real arithmetic: the decimal lies strictly between the middles to the neighbouring floats.',
        level='proof', modules=FLOAT, verify=['spec', 'number', 'powr', 'grisu', 'float', 'back'], min_verified=280, smt_timeout=200, exhaustive='powers',
        cone=[r'^grisu::', r'^powr::', r'^float::', r'^back::.*to_f', r'^spec::', r'^number::impl Number::(from_parts|from_parts_unchecked|is_nan|is_zero|is_sign)'],
        assumptions=['what std says about f64: bits of a float (IEEE 754 binary64), classify, is_sign_positive, negation, widening of f32 is exact (stand-ins in contracts/grisu.rs and contracts/float.rs)',
                     'the floating-point estimate inside get_cached_power meets its contract: run on every one of its 2098 possible arguments on each check (coverage.whole_domain)'],
        outside=['the null printed for NaN is proved under C07 and C09'],
    ),
    'C19': dict(
        note='The error of every conversion of a number to a float bounded in exact real arithmetic by Verus for all mantissas and exponents: 13 units of rounding (at most 13 in the last place) and 3 half least floats; comparisons of numbers and values with floats compare the converted number.',
        level='proof', modules=FLOAT + ['floateq'], verify=['spec', 'number', 'powr', 'back', 'floateq', 'value'], min_verified=165, smt_timeout=200, exhaustive='powf',
        cone=[r'^back::', r'^floateq::', r'^powr::', r'^number::impl Number::(from_parts_unchecked|is_nan|is_zero|is_sign)', r'^value::.*as_number'],
        assumptions=['IEEE 754: multiplication, division, negation, integer to float and float literals round to nearest (the stand-ins of contracts/back.rs state it over the reals); == of floats compares the bits, except that zeros are equal and NaN equals nothing (contracts/floateq.rs)',
                     'powf(10, k) is within two units of 10^k: run on every k it can be given, 23 to 32768, for both types on each check (coverage.whole_domain)'],
    ),
    'C17': dict(
        note='Type tests, accessors, mutators and indexing of values proved by Verus for every value and argument; array! and object! for 55 forms of use and all contents.',
        level='proof', modules=VAL + ['macros'], verify=['spec', 'raw', 'short', 'tree', 'object', 'json', 'value', 'equal', 'macros'], min_verified=200,
        cone=[r'^value::', r'^macros::', r'^object::', r'^tree::', r'^raw::', r'^json::', r'^short::', r'^number::impl Number::is_empty', r'^equal::.*(is_eq|eq)$'],
        outside=['array! and object! with other numbers and forms of arguments than the 55 under contract (bounded); From of floats is proved under C16'],
    ),
    'C18': dict(
        note='Every way of storing and reading a string proved by Verus for all contents and lengths.',
        level='proof', modules=PARSE + ['equal'], verify=['raw', 'short', 'json', 'value', 'equal', 'object', 'tree', 'gram', 'reader', 'parser', 'jvalid'], min_verified=250,
        cone=[r'^short::', r'^raw::', r'^json::', r'^value::.*(as_str|take_string|is_string|from_str|from_string|option|Option|From|clear|Short|deref|lemma_empty)', r'^equal::.*(str|String|Short)', r'impl Key', r'^parser::.*(parse$|string|codepoint|hexdec|expect_byte|bump|read_byte|is_eof)', r'^reader::', r'^gram::', r'^jvalid::lemma_', r'[cC]lone'],
        kani='short',
        assumptions=PASSUME,
    ),
    'C07': dict(
        note='The printing of numbers proved for every sign, mantissa and exponent by Verus.',
        level='proof', modules=OUT, verify=['spec', 'text', 'wr', 'print_dec', 'codegen', 'show', 'jvalid'], min_verified=140, smt_timeout=200,
        cone=[r'^print_dec::', r'^text::', r'^wr::', r'^spec::', r'write_number', r'^number::.*Display', r'number_ascii', r'is_nan|as_parts'],
    ),
    'C08': dict(
        note='String output, its escaping and its reading back proved for every string by Verus.',
        level='proof', modules=OUT, verify=DUMP + ['gram', 'strback'], min_verified=120,
        cone=[r'write_string', r'ESCAPED', r'^strback::', r'^gram::', r'^jtext::', r'^wr::', r'^raw::', r'^short::', r'Key::as_|impl Key', r'extend_from_slice', r'esc'],
    ),
    'C09': dict(
        note='Both layouts proved for all values, depths and widths by Verus.',
        level='proof', modules=OUT, verify=DUMP, min_verified=120,
        cone=[r'^codegen::', r'^dump::', r'^top::', r'^jtext::', r'^wr::', r'^raw::', r'^short::', r'^object::.*(Iter|iter|Key|dump|pretty)', r'^value.*(dump|pretty|write)', r'^json::'],
        assumptions=['values are nested at most 65535 levels deep (the indentation counter is 16 bits wide)'],
    ),
    'C10': dict(
        note='All sinks proved to receive the same text, errors to surface after a prefix of it, by Verus.',
        level='proof', modules=OUT, verify=DUMP + ['show'], min_verified=120,
        cone=[r'^codegen::', r'^dump::', r'^top::', r'^show::', r'Display', r'^jvalid::', r'^jtext::', r'^wr::', r'^raw::', r'^short::', r'^object::.*(Iter|iter|Key|dump|pretty)', r'^value.*(dump|pretty|write)', r'^json::'],
        assumptions=['values are nested at most 65535 levels deep (the indentation counter is 16 bits wide)',
                     'std::io::Write::write_all delivers the whole buffer on success and an initial part of it on an error; std::fmt::Formatter::write_str likewise'],
    ),
    'C11': dict(
        note='Every operation of the object proved by Verus against an ordered list of distinct keys; histories follow by induction.',
        level='proof', modules=OBJ, verify=['spec', 'raw', 'short', 'tree', 'object', 'json'], min_verified=60,
        cone=[r'^object::', r'^tree::', r'^raw::', r'^json::'],
        assumptions=['slice::IterMut hands out each element once, from either end, and what it has not handed out keeps its value'],
    ),
    'C12': dict(
        note='Readability of every key proved as an invariant of all operations by Verus; memory effects of the raw operations assumed (and checked by Kani, bounded).',
        level='proof', modules=OBJ, verify=['spec', 'raw', 'short', 'tree', 'object', 'json'], min_verified=60,
        cone=[r'^object::', r'^tree::', r'^raw::', r'^json::'],
        kani='object',
        outside=['each block freed once: follows from ownership of safe Rust values and Drop for Key; observed by a counting allocator and, for single keys, by Kani (bounded)'],
    ),
}

NOT_APPLICABLE = {
    'C20': 'Freedom from data races follows from unsafe impl Send/Sync for Key; no contract on a function expresses it and Verus does not check unsafe auto-trait impls.',
}
