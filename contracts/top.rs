// The functions of the crate's root, for anything that becomes a value.
use vstd::prelude::*;
use crate::json::*;
use crate::jtext::*;
use crate::codegen::*;
use crate::dump::*;
use crate::value::IntoValue;
verus! {

@@fn lib.rs | - | from
    @ret r
    @sig fn from<T: IntoValue>(value: T) -> JsonValue
    @spec
        requires value.can()
        ensures wf(r), jv(r) == value.val()
@@end

@@fn lib.rs | - | stringify
    @ret r
    @sig fn stringify<T: IntoValue>(root: T) -> String
    @spec
        requires root.can()
        ensures sb(r@) == json_text(root.val(), compact())
@@end

@@fn lib.rs | - | stringify_pretty
    @ret r
    @sig fn stringify_pretty<T: IntoValue>(root: T, spaces: u16) -> String
    @spec
        requires root.can(), shallow(root.val(), 65535)
        ensures sb(r@) == json_text(root.val(), pretty_st(spaces))
@@end

} // verus!
