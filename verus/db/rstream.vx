# the streaming reader
@fn ZipFileReader::new@stream [unit=rdstream,file=base/read/stream.rs]
@kinds
@contract
    ensures r.0.0 == reader,
@end
@fn ZipFileReader::into_inner@stream [unit=rdstream,file=base/read/stream.rs,noauto]
@kinds
@contract
    ensures r == self.0.0,
@end
@fn ZipFileReader::reader@stream [unit=rdstream,file=base/read/stream.rs,noauto]
@kinds
@contract
    ensures *r == self.0.0,
@end
@fn ZipFileReader::next_without_entry [unit=rdstream,file=base/read/stream.rs]
@kinds
@contract
    requires self.0.0.pos() >= 0,
    ensures
        r matches Ok(Some(z)) ==> next_is(self.0.0.data(), self.0.0.pos(), z.0.0, z.0.1),
        r matches Ok(None) ==> 4 <= avail(self.0.0.data(), self.0.0.pos()) && end_sig(at4(self.0.0.data(), self.0.0.pos())),
        r matches Err(e) ==> self.0.0.nofail() ==> next_err(self.0.0.data(), self.0.0.pos(), e),
@end
@fn ZipFileReader::next_with_entry [unit=rdstream,file=base/read/stream.rs]
@kinds
@contract
    requires self.0.0.pos() >= 0,
    ensures
        r matches Ok(Some(z)) ==> next_is(self.0.0.data(), self.0.0.pos(), z.0.0, z.0.1)
            && ev(oentry(z.0.0.entry.0)) == lfh_ev(self.0.0.data(), self.0.0.pos()) && e_ok(oentry(z.0.0.entry.0)),
        r matches Ok(None) ==> 4 <= avail(self.0.0.data(), self.0.0.pos()) && end_sig(at4(self.0.0.data(), self.0.0.pos())),
        r matches Err(e) ==> self.0.0.nofail() ==> next_err(self.0.0.data(), self.0.0.pos(), e),
@end
@fn ZipFileReader::done [unit=rdstream,file=base/read/stream.rs]
@kinds
@contract
    requires self.0.0.fixed().2, within(self.0.0), 0 <= self.0.0.fixed().1,
    ensures
        r matches Ok(n) ==> rest(&self.0.0).len() == 0 && n.0.0.data() == self.0.0.fixed().0
            && n.0.0.pos() == after_entry(self.0.0.fixed().0, self.0.0.fixed().1, self.0.1),
        rest(&self.0.0).len() > 0 ==> r is Err,
        rest(&self.0.0).len() > 0 && self.0.0.nofail() ==> r->Err_0 is EOFNotReached,
        r matches Err(e) ==> e is EOFNotReached ==> rest(&self.0.0).len() > 0,
@end
@fn ZipFileReader::skip [unit=rdstream,file=base/read/stream.rs]
@kinds while
@contract
    requires self.0.0.fixed().2, within(self.0.0), 0 <= self.0.0.fixed().1,
    ensures
        r matches Ok(n) ==> n.0.0.data() == self.0.0.fixed().0
            && n.0.0.pos() == after_entry(self.0.0.fixed().0, self.0.0.fixed().1, self.0.1),
@loop 0
    invariant_except_break slf.0.0.fixed() == self.0.0.fixed(), slf.0.1 == self.0.1, within(slf.0.0), self.0.0.fixed().2, 0 <= self.0.0.fixed().1,
    ensures slf.0.0.at_end(), slf.0.0.fixed() == self.0.0.fixed(), slf.0.1 == self.0.1, within(slf.0.0),
    decreases rest(&slf.0.0).len()
@end
