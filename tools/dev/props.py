import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=[x.strip() for x in observe.split(',')])))
p('C01','Parsing any text terminates without panic, overflow or invalid memory access',
 'For every string, of any length and content, parsing returns a value or an error: it never panics, never overflows an integer or the call stack, never reads outside the input, and always terminates. Every string and key inside a returned value is valid UTF-8.',
 ['inputs'],'every &str, including arbitrarily deep nesting, arbitrarily long numbers, truncated escapes and arbitrary Unicode',
 'The tests parse a few dozen short documents; the cases that matter (input ending at any byte, digits or exponents that overflow, nesting at the limit, escapes cut short) are unbounded.',
 ['src/parser.rs','src/short.rs','src/object.rs','src/error.rs'],
 [('unchecked byte reads and byte-level cursor','src/parser.rs: Parser::read_byte, expect_byte, expect_string, read_complex_string'),('from_utf8_unchecked on slices and on the escape buffer','src/parser.rs: expect_string, read_complex_string'),('explicit stack and depth limit','src/parser.rs: Parser::parse'),('number accumulation','src/parser.rs: read_big_number, expect_fraction, expect_exponent')],
 'json::parse')
p('C02','Parsing accepts exactly the JSON grammar',
 'Parsing succeeds on exactly the texts that the JSON grammar generates (with vertical tab and form feed also counting as whitespace), apart from the documented limits: more than 512 levels of nested non-empty containers, or a number with so many digits that its decimal exponent leaves the 16-bit range, is rejected. Everything else - trailing text, missing or extra commas, leading zeros, bare signs or dots, control characters or line breaks in strings, bad escapes, lone or mismatched surrogate escapes - is an error.',
 ['inputs'],'every &str',
 'Acceptance is a statement about an infinite language; the tests check about thirty strings on either side of it.',
 ['src/parser.rs'],
 [('value dispatch and literals','src/parser.rs: expect_value!, expect_sequence!'),('container state machine','src/parser.rs: Parser::parse'),('string and escape tables','src/parser.rs: ALLOWED, expect_string!, read_complex_string, read_codepoint, read_hexdec_codepoint'),('number syntax','src/parser.rs: expect_number!, expect_fraction!, allow_number_extensions!, expect_exponent')],
 'json::parse')
p('C03','A parsed value is the one its text denotes',
 'When parsing succeeds, the value has exactly the structure of the text: literals, array elements in order, and strings with every escape (including surrogate pairs) replaced by the character it denotes and every other character kept. An object holds each distinct key once, in order of first occurrence, with the value of its last occurrence.',
 ['inputs'],'every valid JSON text',
 'The tests compare a handful of documents; escapes at every position, duplicates, and containers nested in every way are not sampled.',
 ['src/parser.rs','src/object.rs','src/value/implements.rs'],
 [('value stack','src/parser.rs: Parser::parse'),('unescaping','src/parser.rs: read_complex_string, read_codepoint'),('object building','src/object.rs: Object::insert_index, override_at')],
 'json::parse')
p('C04','A number literal keeps its decimal value',
 'A parsed number literal has the exact decimal value and sign of its text (minus zero keeps its sign) whenever its digits fit in an unsigned 64-bit integer and its combined exponent (the written one less the number of fraction digits) fits in 16 bits; with more digits the result differs by less than one part in 10^18, trailing zeros costing nothing. A combined exponent outside the 16-bit range counts as the nearest end of that range.',
 ['inputs'],'every JSON number literal: any number of integer digits, fraction digits and exponent digits',
 'The tests check a few dozen literals; the overflow boundary at 2^64, dropped digits, and exponent corrections combine in unbounded ways.',
 ['src/parser.rs','src/number.rs'],
 [('digit accumulation with overflow cut-off','src/parser.rs: expect_number!, read_big_number, expect_fraction!'),('exponent','src/parser.rs: expect_exponent')],
 'json::parse, Number::as_parts')
p('C05','Parse errors report what went wrong and exactly where',
 'When parsing fails, the error is "unexpected end" exactly when the text ends before the value does, the depth error exactly for the documented limits, the UTF-8 error exactly when two unicode escapes do not form a surrogate pair, and otherwise names the first character that cannot stand where it does. Its line is one more than the number of line feeds before it, and its column one more than the number of characters since the last of them.',
 ['inputs'],'every &str that does not parse, including multi-byte characters and errors on any line',
 'Tests check the position of a couple of errors, on ASCII texts.',
 ['src/parser.rs','src/error.rs'],
 [('position computation','src/parser.rs: unexpected_character')],
 'json::parse error, Display of the error')
p('C06','Printing a value and parsing it back gives an equal value',
 'For every value without NaN numbers and within the nesting limit, parsing its compact or its pretty-printed text (with any indentation) gives a value equal to it, with keys in the same order.',
 ['inputs','histories'],'every such value, however it was built, and every indentation width',
 'Tests round-trip a few fixed values; numbers, strings and shapes interact with escaping and number layout in unbounded ways.',
 ['src/codegen.rs','src/parser.rs','src/util/print_dec.rs'],
 [('printing','src/codegen.rs: Generator'),('parsing','src/parser.rs: Parser::parse')],
 'JsonValue::dump, pretty, json::parse')
p('C07','A printed number denotes exactly the stored number',
 'For every sign, 64-bit mantissa and 16-bit exponent, the printed text of the number is a valid JSON number whose exact decimal value is the stored one, sign included (also for zero). NaN prints as null inside JSON.',
 ['inputs'],'all 2 * 2^64 * 2^16 finite numbers',
 'The domain has 2^81 elements and the printer has about a dozen layout branches; tests check about twenty numbers.',
 ['src/util/print_dec.rs','src/codegen.rs','src/number.rs'],
 [('digit generation and layout','src/util/print_dec.rs: write'),('NaN','src/codegen.rs: Generator::write_number')],
 'JsonValue::dump, Display of Number')
p('C08','String output is valid JSON and reads back as the same string',
 'For every string, its printed form is one JSON string literal: quote, backslash and every control character below 0x20 are escaped, every other character is copied, and unescaping it by the JSON rules gives back exactly the string. The same holds for object keys.',
 ['inputs'],'every string: every byte at every position, any length',
 'Tests print a few strings.',
 ['src/codegen.rs'],
 [('escape table and copying of unescaped runs','src/codegen.rs: ESCAPED, Generator::write_string, write_string_complex')],
 'JsonValue::dump, stringify')
p('C09','Compact and pretty layouts are exactly determined',
 'Compact output contains no whitespace outside strings; members and elements appear in order, separated by single commas, with empty containers as {} and []. Pretty output is the same token sequence with a line break and exactly depth times the indentation width in spaces before every element, member and closing bracket of a non-empty container, and ": " after keys, for every depth and every width.',
 ['inputs'],'every value, every indentation width from 0 to 65535, every nesting depth',
 'Tests compare two or three outputs with widths 2 and 4.',
 ['src/codegen.rs','src/value/mod.rs'],
 [('layout','src/codegen.rs: Generator::write_json, write_object, PrettyGenerator, PrettyWriterGenerator')],
 'JsonValue::dump, pretty, write, write_pretty, Display')
p('C10','All output sinks agree and I/O errors surface',
 'Writing to a stream produces byte for byte what dumping to a string produces, compact and pretty, and so does the alternate display form. If the stream reports an error the write returns an error, and what the stream received is a prefix of the full output: nothing is skipped, repeated or reordered.',
 ['inputs','fault_sequences'],'every value, every indentation, every sequence of short writes, interruptions and failures of the writer',
 'Tests write to a Vec, which never fails or writes short.',
 ['src/codegen.rs','src/value/mod.rs'],
 [('error propagation','src/codegen.rs: Generator methods'),('sinks','src/codegen.rs: WriterGenerator, PrettyWriterGenerator; src/value/mod.rs: write, write_pretty')],
 'JsonValue::write, write_pretty, dump, pretty')
p('C11','An object is an insertion-ordered map under every history of operations',
 'After any sequence of insert, lookup, mutable access, remove, clear and iteration, an object behaves as an ordered list of distinct keys: insert replaces the value of an existing key in place or appends a new key at the end, remove returns the value and keeps the order of the rest, lookups find exactly the keys present, and iteration (both directions) visits each entry once. Length and emptiness agree with that list.',
 ['histories','inputs'],'every sequence of operations, every set of keys: any lengths, any contents, including colliding hashes',
 'Lookup goes through a binary tree keyed by a 64-bit hash and then key bytes, rebuilt on removal; tests exercise a few small objects without collisions.',
 ['src/object.rs'],
 [('hash tree','src/object.rs: Node, Object::insert_index, get, get_mut, remove, hash_key'),('iteration','src/object.rs: Iter, IterMut')],
 'json::object::Object, JsonValue object methods')
p('C12','Object keys never dangle and clones are independent',
 'Under every history of insertions (with reallocation), removals, clones, moves and drops, reading any key of any live object yields the bytes it was inserted with. A cloned object or value is unaffected by later changes to or destruction of the original, all memory is freed exactly once, and no operation touches memory it does not own.',
 ['histories'],'every history of operations on objects and their clones; keys shorter and longer than the inline buffer',
 'Keys up to 32 bytes are stored inline with a raw self-pointer that must be re-fixed whenever a node may have moved; a stale pointer often still reads the right bytes, so tests pass.',
 ['src/object.rs'],
 [('self-referential key','src/object.rs: Key::new, attach, fix_ptr, Clone for Key, Drop for Key'),('re-fixing after push, clone and move','src/object.rs: Object::add_node, Object::clone')],
 'json::object::Object: iter, get, clone, drop')
p('C13','Equality of values is semantic and an equivalence',
 'Two numbers are equal exactly if they denote the same decimal value (all zeros are equal, NaN equals NaN and nothing else), whatever mantissa and exponent represent them. Two values are equal exactly if they have the same type and contents, strings compared by content however they are stored, arrays element by element, and objects as maps, whatever the order of keys; so equality is reflexive, symmetric and transitive.',
 ['inputs'],'all pairs (and triples) of numbers and values',
 'Pairs of numbers span 2^162 cases with overflow in the scaling; tests compare a few.',
 ['src/number.rs','src/value/mod.rs','src/value/implements.rs','src/object.rs','src/short.rs'],
 [('number equality','src/number.rs: PartialEq for Number, decimal_power'),('value equality','src/value/mod.rs: PartialEq for JsonValue; src/object.rs: PartialEq for Object; src/value/implements.rs')],
 '== on Number, Object, JsonValue, and against native types')
p('C14','Integer conversions are exact or refused',
 'Converting any native integer to a number and back gives the same integer, including the extreme values of every type, and no conversion panics. Converting a number to an integer type returns the exact value when the number is stored as an integer (exponent zero, not NaN, non-negative sign for unsigned types) that fits the type, and is refused otherwise.',
 ['inputs'],'all values of all ten integer types and all numbers',
 'Boundary values such as the minimum of each signed type and mantissas around 2^63 are easy to miss; tests sample a few.',
 ['src/number.rs','src/value/mod.rs','src/value/implements.rs'],
 [('From and TryFrom','src/number.rs: impl_signed!, impl_unsigned!'),('as_* accessors','src/value/mod.rs: as_u64 .. as_isize, number_to_unsigned!, number_to_signed!')],
 'Number::from, TryFrom<Number>, JsonValue::as_u8 .. as_isize')
p('C15','Fixed-point conversion scales and truncates exactly',
 'For every finite number and every point, the fixed-point accessors return the absolute value times ten to the point, truncated toward zero and reduced modulo 2^64 on overflow, with the sign applied for the signed form. The unsigned form refuses negative numbers, both refuse NaN and non-numbers, and none of them panics.',
 ['inputs'],'all numbers and all points 0..65535',
 'The scaling exponent ranges over about 131000 values in both directions and 2^64 mantissas; tests check a few.',
 ['src/number.rs','src/value/mod.rs'],
 [('scaling','src/number.rs: as_fixed_point_u64, as_fixed_point_i64, scaled_mantissa, decimal_power')],
 'Number::as_fixed_point_*, JsonValue::as_fixed_point_*')
p('C16','A float becomes a short decimal that identifies it',
 'Converting any finite 64-bit float to a number gives, without panic, a decimal with at most 17 significant digits that rounds back to exactly that float, with the same sign (also for zero). Infinities and NaN become NaN, hence null in JSON, and NaN survives conversion back.',
 ['inputs'],'all 2^64 float bit patterns, including subnormals, powers of two and extremes',
 'The digit generation works with 64-bit approximations of powers of ten and must keep its interval safe for each of 2^64 floats; tests check a few dozen.',
 ['src/util/grisu2.rs','src/util/diyfp.rs','src/number.rs'],
 [('shortest digits','src/util/grisu2.rs: convert, grisu_round, get_cached_power; src/util/diyfp.rs')],
 'Number::from(f64), JsonValue::from(f64)')
p('C17','Value accessors and mutators act exactly as documented on every type',
 'For every value and argument, type tests, typed accessors, length and emptiness report exactly the stored type and content; take, pop, remove and array_remove return the element and leave the rest in order (or null when absent), push and insert succeed exactly on arrays and objects, clear empties containers and strings and nulls the rest. Indexing never panics: absent entries read as null, and writing through an index creates the entry, replacing a non-container by a container.',
 ['inputs','histories'],'every value of every type, every index and key, every sequence of calls',
 'Each of some forty methods has seven variants of receiver; tests cover the main ones.',
 ['src/value/mod.rs','src/value/implements.rs','src/object.rs'],
 [('accessors and mutators','src/value/mod.rs: impl JsonValue'),('indexing','src/value/mod.rs: Index, IndexMut')],
 'JsonValue methods')
p('C18','Strings are stored and returned exactly, whatever their length',
 'A string put into a value (from a slice, an owned string, an option, or by parsing) and read back by any accessor is byte for byte the same, for lengths on both sides of the inline limit and for any content. Copies are independent of the source.',
 ['inputs'],'every string, in particular lengths around the inline capacity and multi-byte characters across it',
 'The inline representation copies bytes through raw pointers with a one-byte length; tests use a few lengths.',
 ['src/short.rs','src/value/implements.rs','src/value/mod.rs'],
 [('inline strings','src/short.rs: Short::from_slice, as_str'),('choice of representation','src/value/implements.rs: From<&str>, From<String>, From<Option<T>>; src/value/mod.rs: as_str, take_string')],
 'JsonValue::from, as_str, take_string, Display')
p('C19','Conversion from a number to a float is accurate',
 'Converting a number to a 32- or 64-bit float gives a float within a few units in the last place of its decimal value, zero keeps its sign, overflow gives infinity and underflow zero.',
 ['inputs'],'all numbers',
 'The domain has 2^81 elements; tests sample a few with tolerance.',
 ['src/number.rs'],
 [('floating-point scaling','src/number.rs: From<Number> for f64 and f32, exponentiate_f64, exponentiate_f32')],
 'f64::from(Number), JsonValue::as_f64')
p('C20','Values can be shared and sent between threads safely',
 'Values and objects can be moved to another thread and read from several threads at once without a data race.',
 ['schedules'],'every interleaving of concurrent readers, and every transfer between threads',
 'No test is concurrent.',
 ['src/object.rs'],
 [('unsafe Sync and Send for Key','src/object.rs')],
 'JsonValue: Send + Sync')
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
