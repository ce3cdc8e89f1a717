SEEDS = [
 {'id': 'c11-collect-repeats', 'prop': 'C11', 'file': 'object.rs',
  'old': "            object.insert(key.as_ref(), value.into());",
  'new': "            if object.len() < 8 || object.get(key.as_ref()).is_none() {\n                object.insert(key.as_ref(), value.into());\n            }",
  'needs': 'an object collected from pairs that repeat a key after eight different keys',
  'breaks': 'the first value of the repeated key stays, where the last one must',
  'demo': 'use json::object::Object;\nfn main() {\n    for n in vec![2usize, 9, 30] {\n        let o: Object = (0..n).map(|i| (format!("k{}", i), i)).chain((0..n).map(|i| (format!("k{}", i), i + 100))).collect();\n        assert_eq!(o.len(), n);\n        for i in 0..n { assert_eq!(o[format!("k{}", i).as_str()], i + 100); }\n    }\n}\n'},
 {'id': 'c17-remove-near-end', 'prop': 'C17', 'file': 'value/mod.rs',
  'old': "                    vec.remove(index)", 'new': "                    if vec.len() - index > 24 { let last = vec.len() - 1; vec.swap(index, last - 1); vec.swap_remove(last - 1) } else { vec.remove(index) }",
  'needs': 'array_remove with more than 23 elements behind the index',
  'breaks': 'the elements behind the removed one are not in their order',
  'demo': 'fn main() {\n    for n in vec![3usize, 20, 40, 100] {\n        for i in 0..n {\n            let mut a = json::JsonValue::Array((0..n).map(|x| x.into()).collect());\n            let mut w: Vec<usize> = (0..n).collect();\n            assert_eq!(a.array_remove(i), w.remove(i));\n            let w: json::JsonValue = w.into();\n            assert_eq!(a, w);\n        }\n    }\n}\n'},
 {'id': 'c05-long-line', 'prop': 'C05', 'file': 'parser.rs',
  'old': "let colno = col.chars().count();", 'new': "let colno = if col.len() < 256 { col.chars().count() } else { col.len() };",
  'needs': 'an error on a line of more than 255 bytes with characters outside ASCII',
  'breaks': 'the column counts bytes',
  'demo': 'fn main() {\n    for n in vec![0usize, 5, 100, 300] {\n        let t = format!("[\\n\\"{}\\" x]", "é".repeat(n));\n        match json::parse(&t) {\n            Err(json::Error::UnexpectedCharacter { ch, line, column }) => { assert_eq!((ch, line, column), (\'x\', 2, n + 4)); }\n            other => panic!("{:?}", other),\n        }\n    }\n}\n'},
 {'id': 'c06-owned-empty', 'prop': 'C06', 'file': 'codegen.rs',
  'old': "            JsonValue::String(ref string) => self.write_string(string),",
  'new': "            JsonValue::String(ref string) if string.is_empty() => self.write(b\"null\"),\n            JsonValue::String(ref string) => self.write_string(string),",
  'needs': 'a string on the heap that is empty, as clear leaves it',
  'breaks': 'it is printed as null and comes back as null',
  'demo': 'fn main() {\n    let mut v: json::JsonValue = "a string that is too long to be kept inline".into();\n    v.clear();\n    assert_eq!(v, "");\n    assert_eq!(json::parse(&v.dump()).unwrap(), v);\n    let a = json::array![v, 1];\n    assert_eq!(json::parse(&a.pretty(2)).unwrap(), a);\n}\n'},
 {'id': 'c09-indent-mask', 'prop': 'C09', 'edits': [('codegen.rs', "            spaces_per_indent: spaces\n", "            spaces_per_indent: spaces & 0x7fff\n")],
  'needs': 'an indentation of 32768 spaces or more',
  'breaks': 'pretty indents by fewer spaces',
  'demo': 'fn main() {\n    for s in vec![0u16, 2, 32767, 32768, 65535] {\n        let t = json::array![1].pretty(s);\n        assert_eq!(t.len(), "[\\n1\\n]".len() + s as usize);\n    }\n}\n'},
 {'id': 'c13-long-arrays', 'prop': 'C13', 'file': 'value/mod.rs',
  'old': "            (&Array(ref a), &Array(ref b)) => a == b,", 'new': "            (&Array(ref a), &Array(ref b)) => a.len() == b.len() && a.chunks(4096).next() == b.chunks(4096).next(),",
  'needs': 'two arrays of more than 4096 elements that differ only behind the first 4096',
  'breaks': 'they compare equal',
  'demo': 'fn main() {\n    for n in vec![1usize, 10, 5000, 9000] {\n        let a: json::JsonValue = (0..n).collect::<Vec<_>>().into();\n        let mut b = a.clone();\n        assert_eq!(a, b);\n        b[n - 1] = "x".into();\n        assert!(a != b);\n    }\n}\n'},
 {'id': 'c14-least-signed', 'prop': 'C14', 'file': 'value/mod.rs',
  'old': "        if $value < $signed::MIN as $high ||", 'new': "        if $value <= $signed::MIN as $high ||",
  'needs': 'the least value of a signed type',
  'breaks': 'as_i8 and its like answer None for it',
  'demo': 'fn main() {\n    assert_eq!(json::parse("-128").unwrap().as_i8(), Some(-128));\n    assert_eq!(json::parse("-32768").unwrap().as_i16(), Some(-32768));\n    assert_eq!(json::parse("-2147483648").unwrap().as_i32(), Some(i32::min_value()));\n    assert_eq!(json::parse("-129").unwrap().as_i8(), None);\n}\n'},
 {'id': 'c10-single-bytes', 'prop': 'C10', 'file': 'codegen.rs',
  'old': "        self.writer.write_all(&[min])", 'new': "        self.writer.write(&[min])?;\n        Ok(())",
  'needs': 'a writer that takes no byte of the one-byte write of a colon',
  'breaks': 'the byte is lost and write answers Ok',
  'demo': 'use std::io::{self, Write};\nstruct Odd(Vec<u8>, usize);\nimpl Write for Odd {\n    fn write(&mut self, b: &[u8]) -> io::Result<usize> {\n        if self.1 == 0 { self.1 = usize::max_value(); return Ok(0); }\n        self.1 -= 1;\n        self.0.extend_from_slice(b);\n        Ok(b.len())\n    }\n    fn flush(&mut self) -> io::Result<()> { Ok(()) }\n}\nfn main() {\n    let v = json::object!{ "a" => json::array![1, "x"] };\n    let want = v.dump();\n    for call in 0..40 {\n        let mut w = Odd(vec![], call);\n        let r = v.write(&mut w);\n        assert!(r.is_err() || w.0 == want.as_bytes(), "call {}", call);\n    }\n}\n'},
]
