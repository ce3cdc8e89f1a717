// Display of values, strings and numbers.
use vstd::prelude::*;
use vstd::utf8::*;
use crate::spec::*;
use crate::stdx::*;
use crate::raw::*;
use crate::text::*;
use crate::wr::*;
use crate::json::*;
use crate::jtext::*;
use crate::short::*;
use crate::object::*;
use crate::number::Number;
use crate::print_dec;
use crate::codegen::*;
use crate::dump::*;
verus! {

@@rules
$e.unwrap() =>> must($e)
@@endrules

/// Stand-in for std::fmt.
pub mod fmt {
    use vstd::prelude::*;
    use vstd::utf8::*;
    use crate::wr::*;
    verus! {
    pub type Result = crate::wr::Result<()>;

    #[verifier::external_body]
    pub struct Formatter { x: u8 }

    impl Formatter {
        /// What was written so far.
        pub uninterp spec fn out(&self) -> Seq<u8>;
        /// `{:#}`
        pub uninterp spec fn alt(&self) -> bool;
        #[verifier::external_body]
        pub fn alternate(&self) -> (r: bool) ensures r == self.alt() { unimplemented!() }
        #[verifier::external_body]
        pub fn write_str(&mut self, s: &str) -> (r: Result)
            ensures wrote(r, old(self).out(), final(self).out(), encode_utf8(s@)), final(self).alt() == old(self).alt()
        { unimplemented!() }
    }

    pub trait Display {
        spec fn can(&self, alt: bool) -> bool;
        spec fn shown(&self, alt: bool) -> Seq<u8>;
        fn fmt(&self, f: &mut Formatter) -> (r: Result)
            requires self.can(old(f).alt())
            ensures wrote(r, old(f).out(), final(f).out(), self.shown(old(f).alt()));
    }

    // Display of the standard types, without width or fill.
    impl Display for str {
        open spec fn can(&self, alt: bool) -> bool { true }
        open spec fn shown(&self, alt: bool) -> Seq<u8> { encode_utf8(self@) }
        #[verifier::external_body]
        fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() }
    }
    impl Display for String {
        open spec fn can(&self, alt: bool) -> bool { true }
        open spec fn shown(&self, alt: bool) -> Seq<u8> { encode_utf8(self@) }
        #[verifier::external_body]
        fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() }
    }
    impl Display for bool {
        open spec fn can(&self, alt: bool) -> bool { true }
        open spec fn shown(&self, alt: bool) -> Seq<u8> { if *self { crate::jtext::true_text() } else { crate::jtext::false_text() } }
        #[verifier::external_body]
        fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() }
    }
    }
}
use fmt::Display;

/// Result::unwrap where the error is impossible
fn must(r: Result<()>)
    requires r is Ok
{
}

/// How a number is displayed.
pub open spec fn number_shown(n: Number) -> Seq<u8> { if n.nan() { sb("nan"@) } else { number_text(n) } }

impl Display for Short {
    open spec fn can(&self, alt: bool) -> bool { self.ok() }
    open spec fn shown(&self, alt: bool) -> Seq<u8> { self.text() }
@@fn short.rs | impl fmt::Display for Short | fmt
    @ret r
@@end
}

impl Display for Number {
    open spec fn can(&self, alt: bool) -> bool { true }
    open spec fn shown(&self, alt: bool) -> Seq<u8> { number_shown(*self) }
@@fn number.rs | impl fmt::Display for Number | fmt
    @ret r
    @rw let mut buf = Vec::new() =>> let mut buf: Vec<u8> = Vec::new()
    @entry
        proof { crate::jvalid::lemma_number_ascii(*self); crate::jvalid::lemma_ascii_valid(number_text(*self)); }
@@end
}

/// How a value is displayed.
pub open spec fn value_shown(v: JsonValue, alt: bool) -> Seq<u8> {
    if alt { json_text(jv(v), pretty_st(4)) }
    else {
        match v {
            JsonValue::Short(s) => s.text(),
            JsonValue::String(s) => sb(s@),
            JsonValue::Number(n) => number_shown(n),
            _ => json_text(jv(v), compact()),
        }
    }
}

impl Display for JsonValue {
    open spec fn can(&self, alt: bool) -> bool { wf(*self) && (alt ==> shallow(jv(*self), 65535)) }
    open spec fn shown(&self, alt: bool) -> Seq<u8> { value_shown(*self, alt) }
@@fn value/mod.rs | impl fmt::Display for JsonValue | fmt
    @ret r
    @entry
        proof { lemma_null(); }
@@end
}

proof fn lemma_null()
    ensures sb("null"@) == null_text()
{
    reveal_strlit("null");
    let s = "null"@;
    assert(s =~= seq!['n', 'u', 'l', 'l']);
    is_ascii_chars_encode_utf8(s);
    assert(sb(s) =~= null_text());
}

} // verus!
