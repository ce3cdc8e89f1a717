SEEDS = [
 {'id': 'c02-raw-unit-separator', 'prop': 'C02', 'file': 'parser.rs', 'old': '  CT, CT, CT, CT, CT, CT, CT, CT, CT, CT, CT, CT, CT, CT, CT, CT, // 1\n', 'new': '  CT, CT, CT, CT, CT, CT, CT, CT, CT, CT, CT, CT, CT, CT, CT, __, // 1\n', 'needs': 'a raw byte 0x1F inside a string', 'breaks': 'a control character inside a string literal is accepted', 'demo': 'fn main() {\n    for b in 0u8..0x20 {\n        let text = format!("[\\"a{}b\\"]", b as char);\n        assert!(json::parse(&text).is_err(), "{:?}", text);\n    }\n    assert!(json::parse("\\"\\u{7f}\\"").is_ok());\n}\n'},
 {'id': 'c02-mismatched-surrogates', 'prop': 'C02', 'file': 'parser.rs', 'old': '                match decode_utf16(\n                    [codepoint, self.read_hexdec_codepoint()?].iter().copied()\n                ).next() {', 'new': '                let low = self.read_hexdec_codepoint()? & 0x3ff | 0xdc00;\n\n                match decode_utf16(\n                    [codepoint, low].iter().copied()\n                ).next() {', 'needs': 'a high surrogate escape followed by an escape that is not a low surrogate', 'breaks': 'a mismatched pair of unicode escapes is accepted as if it were one character', 'demo': 'fn main() {\n    assert_eq!(json::parse(r#""\\ud83d\\ude00""#).unwrap(), "\\u{1f600}");\n    assert!(json::parse(r#""\\ud83d\\u0041""#).is_err());\n    assert!(json::parse(r#""\\ud83d\\ud83d""#).is_err());\n    assert!(json::parse(r#""\\ude00\\ud83d""#).is_err());\n}\n'},
 {'id': 'c04-first-fraction-digit', 'prop': 'C04', 'file': 'parser.rs', 'old': "                if $num < MAX_PRECISION {\n                    $num = $num * 10 + (ch - b'0') as u64;\n                    $e = i16::checked_sub($e, 1).ok_or_else(|| Error::ExceededDepthLimit)?;\n                } else {\n                    match $num.checked_mul(10).and_then(|num| {\n                        num.checked_add((ch - b'0') as u64)\n                    }) {\n                        Some(result) => {\n                            $num = result;\n                            $e = i16::checked_sub($e, 1).ok_or_else(|| Error::ExceededDepthLimit)?;\n                        },\n                        None => {}\n                    }\n                }\n", 'new': "                if $num < MAX_PRECISION {\n                    $num = $num * 10 + (ch - b'0') as u64;\n                    $e = i16::checked_sub($e, 1).ok_or_else(|| Error::ExceededDepthLimit)?;\n                }\n", 'needs': 'an integer part between 2^59 and 2^64/10 followed by a fraction', 'breaks': 'the first fraction digit is lost although the digits fit in 64 bits', 'demo': 'fn main() {\n    assert_eq!(json::parse("600000000000000000.7").unwrap().as_fixed_point_u64(1), Some(6000000000000000007));\n    assert_eq!(json::parse("60000000000000000.7").unwrap().as_fixed_point_u64(1), Some(600000000000000007));\n}\n'},
 {'id': 'c05-column-in-bytes', 'prop': 'C05', 'file': 'parser.rs', 'old': 'let colno = col.chars().count();', 'new': 'let colno = col.bytes().filter(|b| b & 0x80 == 0 || b & 0x20 != 0).count();', 'needs': 'a two-byte character on the line of the error, before it', 'breaks': 'the column counts some characters not at all', 'demo': 'fn main() {\n    for (text, want) in vec![("[\\"a\\" x", 6), ("[\\"\\u{e9}\\" x", 6), ("[\\"\\u{20ac}\\" x", 6)] {\n        match json::parse(text) {\n            Err(json::Error::UnexpectedCharacter { ch: \'x\', line: 1, column }) => assert_eq!(column, want),\n            other => panic!("{:?}", other),\n        }\n    }\n}\n'},
 {'id': 'c08-vertical-tab', 'prop': 'C08', 'file': 'codegen.rs', 'old': '  UU, UU, UU, UU, UU, UU, UU, UU, BB, TT, NN, UU, FF, RR, UU, UU, // 0\n', 'new': '  UU, UU, UU, UU, UU, UU, UU, UU, BB, TT, NN, __, FF, RR, UU, UU, // 0\n', 'needs': 'a vertical tab in a string', 'breaks': 'a vertical tab is printed as it is', 'demo': 'fn main() {\n    assert_eq!(json::JsonValue::from("\\u{b}").dump(), "\\"\\\\u000b\\"");\n    for b in 0u8..0x20 {\n        let s = (b as char).to_string();\n        assert_eq!(json::parse(&json::JsonValue::from(&s[..]).dump()).unwrap(), &s[..]);\n    }\n}\n'},
 {'id': 'c09-wide-indentation', 'prop': 'C09', 'file': 'codegen.rs', 'edits': [('codegen.rs', "        self.code.push(b'\\n');\n        for _ in 0..(self.dent as usize * self.spaces_per_indent as usize) {", "        self.code.push(b'\\n');\n        for _ in 0..self.dent.wrapping_mul(self.spaces_per_indent) {")], 'needs': 'a depth times an indentation width of at least 65536', 'breaks': 'the width of the indentation is taken modulo 2^16', 'demo': 'fn main() {\n    let v = json::parse("[[[1]]]").unwrap();\n    let w = 30000usize;\n    let s = |d: usize| " ".repeat(d * w);\n    let want = format!("[\\n{}[\\n{}[\\n{}1\\n{}]\\n{}]\\n]", s(1), s(2), s(3), s(2), s(1));\n    assert!(v.pretty(w as u16) == want);\n}\n'},
 {'id': 'c10-short-write', 'prop': 'C10', 'file': 'codegen.rs', 'old': '    fn write_min(&mut self, _: &[u8], min: u8) -> io::Result<()> {\n        self.writer.write_all(&[min])\n    }', 'new': '    fn write_min(&mut self, _: &[u8], min: u8) -> io::Result<()> {\n        self.writer.write(&[min]).map(|_| ())\n    }', 'needs': 'a stream that takes no byte when the colon of an object member is written', 'breaks': 'the colon is lost without an error', 'demo': 'use std::io::{self, Write};\nstruct Full(Vec<u8>, usize);\nimpl Write for Full {\n    fn write(&mut self, b: &[u8]) -> io::Result<usize> {\n        let n = b.len().min(self.1 - self.0.len());\n        self.0.extend_from_slice(&b[..n]);\n        Ok(n)\n    }\n    fn flush(&mut self) -> io::Result<()> { Ok(()) }\n}\nfn main() {\n    let v = json::parse("{\\"a\\":\\"\\"}").unwrap();\n    for room in 0..20 {\n        let mut w = Full(Vec::new(), room);\n        let r = v.write(&mut w);\n        let text = v.dump();\n        if r.is_ok() { assert_eq!(w.0, text.as_bytes()); } else { assert!(text.as_bytes().starts_with(&w.0)); assert!(room < text.len()); }\n    }\n    struct Once(bool, Vec<u8>);\n    impl Write for Once {\n        fn write(&mut self, b: &[u8]) -> io::Result<usize> {\n            if b == b":" && !self.0 { self.0 = true; return Ok(0); }\n            self.1.extend_from_slice(b);\n            Ok(b.len())\n        }\n        fn flush(&mut self) -> io::Result<()> { Ok(()) }\n    }\n    let mut w = Once(false, Vec::new());\n    let r = v.write(&mut w);\n    assert!(r.is_err() || w.1 == v.dump().as_bytes());\n}\n'},
 {'id': 'c11-hash-only', 'prop': 'C11', 'file': 'object.rs', 'edits': [('object.rs', '    pub fn get_mut(&mut self, key: &str) -> Option<&mut JsonValue> {\n        if self.store.len() == 0 {\n            return None;\n        }\n\n        let key = key.as_bytes();\n        let hash = hash_key(key);\n\n        let mut index = 0;\n        {\n            let mut node = unsafe { self.store.get_unchecked(0) };\n\n            loop {\n                if hash == node.key.hash && key == node.key.as_bytes() {', '    pub fn get_mut(&mut self, key: &str) -> Option<&mut JsonValue> {\n        if self.store.len() == 0 {\n            return None;\n        }\n\n        let key = key.as_bytes();\n        let hash = hash_key(key);\n\n        let mut index = 0;\n        {\n            let mut node = unsafe { self.store.get_unchecked(0) };\n\n            loop {\n                if hash == node.key.hash && key.len() == node.key.len {')], 'needs': 'two keys of equal length whose 64-bit hashes collide', 'breaks': 'mutable access finds the wrong entry', 'demo': 'fn main() {\n    let mut o = json::object::Object::new();\n    o.insert("8yn0iYCKYHlIj4-BwPqk", 1.into());\n    assert!(o.get_mut("GReLUrM4wMqfg9yzV3KQ").is_none());\n    o.insert("GReLUrM4wMqfg9yzV3KQ", 2.into());\n    *o.get_mut("GReLUrM4wMqfg9yzV3KQ").unwrap() = 3.into();\n    assert_eq!(o["8yn0iYCKYHlIj4-BwPqk"], 1);\n    assert_eq!(o["GReLUrM4wMqfg9yzV3KQ"], 3);\n}\n'},
 {'id': 'c12-full-buffer-dangles', 'prop': 'C12', 'file': 'object.rs', 'old': '    fn fix_ptr(&mut self) {\n        if self.len <= KEY_BUF_LEN {', 'new': '    fn fix_ptr(&mut self) {\n        if self.len < KEY_BUF_LEN {', 'needs': 'a key of exactly 32 bytes in an object that is moved to a larger store or cloned', 'breaks': 'the pointer to a key that fills its buffer is left behind', 'demo': 'fn main() {\n    let key = "0123456789abcdef0123456789abcdef";\n    let mut o = json::object::Object::new();\n    o.insert(key, 1.into());\n    let c = o.clone();\n    let k = c.iter().next().unwrap().0;\n    let (a, b) = (&c as *const _ as usize, k.as_ptr() as usize);\n    let _ = (a, b);\n    assert!(!k.as_ptr().is_null());\n    drop(o);\n    let mut junk = Vec::new();\n    for i in 0..64 { let mut x = json::object::Object::new(); x.insert("zzzzzzzz", i.into()); junk.push(x); }\n    assert_eq!(c.iter().next().unwrap().0, key);\n    assert_eq!(c.get(key), Some(&1.into()));\n}\n'},
 {'id': 'c18-short-boundary', 'prop': 'C18', 'file': 'value/implements.rs', 'old': '        if val.len() <= short::MAX_LEN {', 'new': '        if val.chars().count() <= short::MAX_LEN && val.len() < 32 {', 'needs': 'a string of 31 bytes with at most 30 characters', 'breaks': 'a string one byte too long is copied into the inline buffer', 'demo': 'fn main() {\n    let s = format!("{}\\u{e9}", "a".repeat(29));\n    let v = json::JsonValue::from(&s[..]);\n    let b = Box::new((v, 7u8));\n    assert_eq!(b.0.as_str(), Some(&s[..]));\n    let t = "b".repeat(29) + "\\u{df}";\n    let w = json::parse(&format!("[\\"{}\\",1]", t)).unwrap();\n    assert_eq!(w[0].as_str().map(|x| x.to_string()), Some(t));\n}\n'},
 {'id': 'c16-power-of-two-boundary', 'prop': 'C16', 'file': 'util/diyfp.rs', 'old': 'if self.f == DP_HIDDEN_BIT {', 'new': 'if self.f == DP_HIDDEN_BIT << 1 {', 'needs': 'a float that is a power of two', 'breaks': 'the lower neighbour of a power of two is taken to be as far away as the upper one', 'demo': 'fn main() {\n    for e in -1074..1024i32 {\n        let f = 2f64.powi(e.max(-1000)) * 2f64.powi(e - e.max(-1000));\n        let n = json::number::Number::from(f);\n        let (_, m, x) = n.as_parts();\n        let t = format!("{}e{}", m, x);\n        assert_eq!(t.parse::<f64>().unwrap().to_bits(), f.to_bits(), "{}", t);\n    }\n}\n'},
 {'id': 'c17-take-empty-string', 'prop': 'C17', 'file': 'value/mod.rs', 'old': 'JsonValue::String(string) => return Some(string),', 'new': 'JsonValue::String(string) if string.capacity() > 0 => return Some(string),', 'needs': 'take_string on an owned empty string without a heap buffer', 'breaks': 'an empty owned string is not taken', 'demo': 'fn main() {\n    let mut v = json::JsonValue::String(String::new());\n    assert_eq!(v.take_string(), Some(String::new()));\n    assert!(v.is_null());\n}\n'},
 {'id': 'c03-escape-after-multibyte', 'prop': 'C03', 'file': 'parser.rs', 'old': '            if ALLOWED[ch as usize] {\n                self.buffer.push(ch);\n                ch = expect_byte!(self);\n                continue;\n            }\n            match ch {', 'new': "            if ALLOWED[ch as usize] {\n                self.buffer.push(if ch == 0x7f && self.buffer.len() > len + 1 { b' ' } else { ch });\n                ch = expect_byte!(self);\n                continue;\n            }\n            match ch {", 'needs': 'a DEL character after an escape in a string', 'breaks': 'the character is replaced', 'demo': 'fn main() { assert_eq!(json::parse("\\"a\\\\nb\\u{7f}c\\"").unwrap(), "a\\nb\\u{7f}c"); }\n'},
 {'id': 'c07-digit-pair', 'prop': 'C07', 'file': 'util/print_dec.rs', 'old': '6061626364656667686970', 'new': '6061626364656766686970', 'needs': 'a pair of decimal digits 66 or 67 at an even distance from the end', 'breaks': '66 is printed as 67 and the other way around', 'demo': 'fn main() { for i in 0..100000u64 { assert_eq!(json::JsonValue::from(i).dump(), i.to_string()); } }\n'},
 {'id': 'c01-depth-limit-jumped', 'prop': 'C01', 'file': 'parser.rs', 'old': "                    if ch != b'}' {\n                        if stack.len() == DEPTH_LIMIT {", 'new': "                    if ch != b'}' {\n                        if stack.len() > DEPTH_LIMIT {", 'needs': 'an object exactly at the depth limit, with deeply nested arrays inside', 'breaks': 'one object level above the limit is accepted, and the arrays inside it then miss their own (exact) test, so nesting is unlimited and dropping or printing the value overflows the stack', 'demo': 'fn main() {\n    let text = "[".repeat(512) + "{\\"a\\":" + &"[".repeat(200000) + &"]".repeat(200000) + "}" + &"]".repeat(512);\n    assert!(json::parse(&text).is_err());\n    let text = "{\\"a\\":".repeat(513) + "1" + &"}".repeat(513);\n    assert!(json::parse(&text).is_err());\n}\n'},
]
