use vstd::prelude::*;
use vstd::utf8::*;
use crate::stdx::*;
use crate::raw::*;
use crate::json::sb;
verus! {

@@rules
slice::from_raw_parts($p.as_ptr(), $n) =>> raw_part(&$p, $n)
ptr::copy_nonoverlapping($s.as_ptr(), $d.as_mut_ptr(), $n) =>> raw_fill(str_raw($s), &mut $d, $n)
slice.len() =>> str_len(slice)
@@endrules

@@item short.rs | const MAX_LEN | pub
#[derive(Copy)]
@@item short.rs | struct Short | pub | pubfields

impl Clone for Short {
    fn clone(&self) -> (r: Short) ensures r == *self { *self }
}

impl Short {
    pub open spec fn ok(self) -> bool {
        self.len <= MAX_LEN && valid_utf8(self.text())
    }
    /// The bytes of the string.
    pub open spec fn text(self) -> Seq<u8> { self.value@.subrange(0, self.len as int) }
}

impl Short {
@@fn short.rs | impl Short | from_slice
    @ret r
    @spec
        requires sb(slice@).len() <= MAX_LEN
        ensures r.ok(), r.text() == sb(slice@)
    @entry
        proof { lemma_str(slice@); }
    @after raw_fill($s, $d, $n)
        proof { assert(short.text() =~= sb(slice@)); }
@@end

@@fn short.rs | impl Short | as_str
    @ret r
    @spec
        requires self.ok()
        ensures sb(r@) == self.text()
@@end
}

} // verus!
