// The functions that turn a value into text, whole.
use vstd::prelude::*;
use vstd::utf8::*;
use crate::spec::*;
use crate::stdx::*;
use crate::raw::*;
use crate::text::*;
use crate::wr as io;
use crate::wr::*;
use crate::json::*;
use crate::jtext::*;
use crate::jvalid::*;
use crate::short::*;
use crate::object::*;
use crate::number::Number;
use crate::codegen::*;
verus! {

@@rules
$e.expect("Can't fail") =>> must($e)
$e.expect("Deprecated") =>> may($e)
@@endrules

pub open spec fn pretty_st(n: u16) -> St { St { pretty: true, spaces: n as nat, depth: 0 } }

/// Result::expect where the error is impossible
fn must(r: Result<()>)
    requires r is Ok
{
}

/// Result::expect: panics on an error
#[verifier::external_body]
fn may(r: Result<()>)
    ensures r is Ok
{ unimplemented!() }

impl JsonValue {
@@fn value/mod.rs | impl JsonValue | dump
    @ret r
    @vis pub
    @spec
        requires wf(*self)
        ensures sb(r@) == json_text(jv(*self), compact())
    @entry
        proof { lemma_text_valid(*self, compact()); }
@@end

@@fn value/mod.rs | impl JsonValue | pretty
    @ret r
    @vis pub
    @spec
        requires wf(*self), shallow(jv(*self), 65535)
        ensures sb(r@) == json_text(jv(*self), pretty_st(spaces))
    @entry
        proof { lemma_text_valid(*self, pretty_st(spaces)); }
@@end

@@fn value/mod.rs | impl JsonValue | to_writer
    @vis pub
    @spec
        requires wf(*self)
        ensures final(writer).out() == old(writer).out() + json_text(jv(*self), compact())
@@end

@@fn value/mod.rs | impl JsonValue | write
    @ret r
    @vis pub
    @spec
        requires wf(*self)
        ensures wrote(r, old(writer).out(), final(writer).out(), json_text(jv(*self), compact()))
@@end

@@fn value/mod.rs | impl JsonValue | write_pretty
    @ret r
    @vis pub
    @spec
        requires wf(*self), shallow(jv(*self), 65535)
        ensures wrote(r, old(writer).out(), final(writer).out(), json_text(jv(*self), pretty_st(spaces)))
@@end
}

impl Object {
@@fn object.rs | impl Object | dump
    @ret r
    @vis pub
    @spec
        requires self.ok()
        ensures sb(r@) == json_text(J::Obj(obj_j(*self)), compact())
    @entry
        proof { lemma_obj_valid(*self, compact()); }
@@end

@@fn object.rs | impl Object | pretty
    @ret r
    @vis pub
    @spec
        requires self.ok(), shallow(J::Obj(obj_j(*self)), 65535)
        ensures sb(r@) == json_text(J::Obj(obj_j(*self)), pretty_st(spaces))
    @entry
        proof { lemma_obj_valid(*self, pretty_st(spaces)); }
@@end
}

} // verus!
