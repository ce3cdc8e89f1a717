//! The macros array! and object!. `t()` is 1, 2, 3, ...: every argument is evaluated once, in order.
use crate::cx::Out;
use crate::refjson::{parse, same};
use json::{array, object, JsonValue};

fn is(what: &str, v: JsonValue, text: &str) -> Out {
    let want = parse(text).ok().expect("own text");
    same(&v, &want).map_err(|e| format!("{}: {} (expected {})", what, e, text))
}

macro_rules! ok {
    ($t:ident; $( $m:ident $a:tt = $text:expr; )*) => {
        $(
            let mut n = 0;
            #[allow(unused_mut, unused_variables, unused_assignments)]
            let mut $t = || { n += 1; n };
            is(concat!(stringify!($m), "! ", stringify!($a)), $m!$a, $text)?;
        )*
    };
}

pub fn macros() -> Out {
    let k = "key".to_string();
    let key = "a key longer than what fits inline, by far";
    let b = 7u8;
    let o: Option<&str> = None;
    ok! { t;
        array() = "[]";
        array(1) = "[1]";
        array(1,) = "[1]";
        array(-1, 2) = "[-1,2]";
        array(null) = "[null]";
        array(null, null,) = "[null,null]";
        array([]) = "[[]]";
        array({}) = "[{}]";
        array([], [[]], {},) = "[[],[[]],{}]";
        array(b, "x", true, o, 1.5) = "[7,\"x\",true,null,1.5]";
        array(t()) = "[1]";
        array(t(),) = "[1]";
        array(t(), t()) = "[1,2]";
        array(t(), t(),) = "[1,2]";
        array(b, t(),) = "[7,1]";
        array(b, t()) = "[7,1]";
        array(b, null, t(), 8, t(),) = "[7,null,1,8,2]";
        array(b, null, t(), 8, t()) = "[7,null,1,8,2]";
        object(a: b, b: t()) = "{\"a\":7,\"b\":1}";
        object(a: b, b: t(),) = "{\"a\":7,\"b\":1}";
        object(a: b, b: 8,) = "{\"a\":7,\"b\":8}";
        object("a" => b, "b" => t(), "c" => 8) = "{\"a\":7,\"b\":1,\"c\":8}";
        object("a" => b, "b" => t(), "c" => 8,) = "{\"a\":7,\"b\":1,\"c\":8}";
        array(t(), b, t()) = "[1,7,2]";
        array(b, t(), b, t(), b) = "[7,1,7,2,7]";
        array(b, t(), b, t(), b,) = "[7,1,7,2,7]";
        array([t()], t(), [t(), [t()]]) = "[[1],2,[3,[4]]]";
        array({ "a": t(), b: [t()] }, t()) = "[{\"a\":1,\"b\":[2]},3]";
        array(b as i64 * 2 + t(), t() - 10) = "[15,-8]";
        array(t(), t(), t(), t(), t(), t(), t(), t(), t(), t(), t(), t(), t(), t(), t(), t(), t()) = "[1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17]";
        array(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20,) = "[1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20]";
        array("a", "a", "a", "a",) = "[\"a\",\"a\",\"a\",\"a\"]";
        object() = "{}";
        object(a: 1) = "{\"a\":1}";
        object(a: 1,) = "{\"a\":1}";
        object("a b": 1) = "{\"a b\":1}";
        object([key]: 1) = "{\"a key longer than what fits inline, by far\":1}";
        object([&k]: t(),) = "{\"key\":1}";
        object("x" => t()) = "{\"x\":1}";
        object("x" => t(),) = "{\"x\":1}";
        object("x" => t(), key => JsonValue::Null, &k => t()) = "{\"x\":1,\"a key longer than what fits inline, by far\":null,\"key\":2}";
        object("x" => 1, key => b, &k => "s",) = "{\"x\":1,\"a key longer than what fits inline, by far\":7,\"key\":\"s\"}";
        object("x" => array![t(), t()], "y" => object! { "z" => t() }) = "{\"x\":[1,2],\"y\":{\"z\":3}}";
        object(a: t(), b: t()) = "{\"a\":1,\"b\":2}";
        object(b: t(), a: t(),) = "{\"b\":1,\"a\":2}";
        object(b: b, "a": t(), [key]: null, c: [t(), null], d: { e: t(), f: {} }, g: []) = "{\"b\":7,\"a\":1,\"a key longer than what fits inline, by far\":null,\"c\":[2,null],\"d\":{\"e\":3,\"f\":{}},\"g\":[]}";
        object(b: b, "a": t(), [key]: null, c: [t(), null], d: { e: t(), f: {} }, g: [],) = "{\"b\":7,\"a\":1,\"a key longer than what fits inline, by far\":null,\"c\":[2,null],\"d\":{\"e\":3,\"f\":{}},\"g\":[]}";
        object(a: t(), b: t(), a: t()) = "{\"a\":3,\"b\":2}";
        object(a: null, b: 1, a: 2,) = "{\"a\":2,\"b\":1}";
        object("a" => 1, "b" => 2, "a" => 3) = "{\"a\":3,\"b\":2}";
        object([&k]: t(), "key": t(), key: t()) = "{\"key\":3}";
        object([t().to_string().as_str()]: t(), [t().to_string().as_str()]: t()) = "{\"1\":2,\"3\":4}";
        object(a: t(), b: t(), c: t(), d: t(), e: t(), f: t(), g: t(), h: t(), i: t(), j: t(), k: t(), l: t()) = "{\"a\":1,\"b\":2,\"c\":3,\"d\":4,\"e\":5,\"f\":6,\"g\":7,\"h\":8,\"i\":9,\"j\":10,\"k\":11,\"l\":12}";
        object(null: null, true: true, "": "") = "{\"null\":null,\"true\":true,\"\":\"\"}";
        object(type_: 1, long_identifier_of_more_than_thirty_two_bytes: 2) = "{\"type_\":1,\"long_identifier_of_more_than_thirty_two_bytes\":2}";
    }
    Ok(())
}
