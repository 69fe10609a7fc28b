@module dts::reader file ginko/src/dts/reader.rs
@use crate::spec::*
@use vstd::utf8::*
@inside trait Reader
    spec fn data(&self) -> Seq<u8>;
    spec fn off(&self) -> int;
    spec fn wf(&self) -> bool;
    proof fn lemma_wf(&self)
        requires self.wf()
        ensures ok_data(self.data()), 0 <= self.off() <= self.data().len();
@fn Reader::consume ret r
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(),
        old(self).off() < old(self).data().len() ==> r == Some(old(self).data()[old(self).off()]) && final(self).off() == old(self).off() + 1,
        old(self).off() >= old(self).data().len() ==> r == None::<u8> && final(self).off() == old(self).off()
@fn Reader::peek ret r
    requires self.wf()
    ensures self.off() < self.data().len() ==> r == Some(self.data()[self.off()]),
        self.off() >= self.data().len() ==> r == None::<u8>
@fn Reader::pos ret r
    requires self.wf()
    ensures r == pos_at(self.data(), self.off())
@fn Reader::skip
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(),
        final(self).off() == old(self).off() + (if old(self).off() < old(self).data().len() { 1int } else { 0 })
@fn Reader::skip_if ret r
    requires old(self).wf(), forall|b: u8| #[trigger] cond.requires((b,))
    ensures final(self).wf(), final(self).data() == old(self).data(),
        old(self).off() >= old(self).data().len() ==> !r,
        old(self).off() < old(self).data().len() ==> cond.ensures((old(self).data()[old(self).off()],), r),
        final(self).off() == old(self).off() + (if r { 1int } else { 0 })
@inside impl Reader for ByteReader
    open spec fn data(&self) -> Seq<u8> { self.data@ }
    open spec fn off(&self) -> int { self.char_pos as int }
    open spec fn wf(&self) -> bool {
        ok_data(self.data@) && self.char_pos <= self.data@.len() && self.pos == pos_at(self.data@, self.char_pos as int)
    }
    proof fn lemma_wf(&self) {}
@fn <ByteReader as Reader>::consume
@proof body_start
    proof { if self.char_pos < self.data@.len() { lemma_pos_bound(self.data@, self.char_pos as int); lemma_pos_bound(self.data@, self.char_pos + 1); } }
@fn <ByteReader as Reader>::peek
@fn <ByteReader as Reader>::pos
@fn ByteReader::from_string ret r
    requires encode_utf8(string@).len() <= MAX_LEN,
    ensures r.wf(), r.data() == encode_utf8(string@), r.off() == 0,
@proof body_start
    proof { encode_utf8_valid_utf8(string@); }
@rewrite
string.as_bytes().into() >>> crate::spec::boxed_bytes(string.as_bytes())
@drop ByteReader::from_read
