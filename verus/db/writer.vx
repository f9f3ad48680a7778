# the writer stack
@fn <AsyncOffsetWriter as AsyncWrite>::poll_write [unit=wr,noauto]
@kinds
@impl_extra
    open spec fn acc(&self) -> Seq<u8> { self.inner.acc() }
    open spec fn sunk(&self) -> Seq<u8> { self.inner.sunk() }
    open spec fn fx(&self) -> WFix { WFix { base: self.inner.acc().len() - self.offset, below: self.inner.fx().base, start: self.inner.fx().start, keeps: self.inner.fx().keeps, sure: self.inner.fx().sure } }
    open spec fn winv(&self) -> bool { self.inner.winv() && self.inner.acc().len() >= self.offset }
    open spec fn opn(&self) -> bool { self.inner.opn() }
    open spec fn fin(&self) -> bool { self.inner.fin() }
    #[verifier::prophetic]
    open spec fn kin(&self, o: &Self) -> bool { self.inner.kin(&o.inner) }
    proof fn kin_refl(&self) { self.inner.kin_refl(); }
    proof fn kin_trans(&self, b: &Self, c: &Self) { self.inner.kin_trans(&b.inner, &c.inner); }
@end
@fn AsyncOffsetWriter::new [unit=wr]
@kinds
@contract
    ensures r.inner == inner, r.offset == 0,
@end
@fn AsyncOffsetWriter::offset [unit=wr]
@kinds
@contract
    ensures r == self.offset,
@end
@fn AsyncOffsetWriter::into_inner [unit=wr]
@kinds
@contract
    ensures r == self.inner,
@end
@fn AsyncOffsetWriter::inner_mut [unit=wr]
@kinds
@contract
    ensures *r == old(self).inner, final(self).inner == *final(r), final(self).offset == old(self).offset,
@end
@fn <AsyncOffsetWriter as AsyncWrite>::poll_flush [unit=wr,noauto]
@kinds
@end
@fn <AsyncOffsetWriter as AsyncWrite>::poll_close [unit=wr,noauto]
@kinds
@end
@fn <AsyncOffsetWriter as AsyncWrite>::poll_write_vectored [unit=wr,noauto]
@kinds
@end
@fn <ShutdownIgnoredWriter as AsyncWrite>::poll_write [unit=wr,noauto]
@kinds
@impl_extra
    open spec fn acc(&self) -> Seq<u8> { self.0.acc() }
    open spec fn sunk(&self) -> Seq<u8> { self.0.acc() }
    open spec fn fx(&self) -> WFix { WFix { keeps: true, ..self.0.fx() } }
    open spec fn winv(&self) -> bool { self.0.winv() }
    open spec fn opn(&self) -> bool { self.0.opn() }
    open spec fn fin(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn kin(&self, o: &Self) -> bool { self.0.kin(&o.0) && o.0.fx() == self.0.fx() }
    proof fn kin_refl(&self) { self.0.kin_refl(); }
    proof fn kin_trans(&self, b: &Self, c: &Self) { self.0.kin_trans(&b.0, &c.0); }
@at start
proof { lemma_grows((*self).acc()); }
@end
@fn <ShutdownIgnoredWriter as AsyncWrite>::poll_flush [unit=wr,noauto]
@kinds
@at start
proof { lemma_grows((*self).acc()); }
@end
@fn <ShutdownIgnoredWriter as AsyncWrite>::poll_close [unit=wr,noauto]
@kinds
@at start
proof { (*self).kin_refl(); lemma_grown((*self).sunk()); }
@end
@fn ShutdownIgnoredWriter::into_inner [unit=wr]
@kinds
@contract
    ensures r == self.0,
@end
@fn <CompressedAsyncWriter as AsyncWrite>::poll_write [unit=wr,noauto]
@kinds
@impl_extra
    open spec fn acc(&self) -> Seq<u8> { match *self { CompressedAsyncWriter::Stored(x) => x.acc(), CompressedAsyncWriter::Deflate(x) => x.acc(), CompressedAsyncWriter::Bz(x) => x.acc(), CompressedAsyncWriter::Lzma(x) => x.acc(), CompressedAsyncWriter::Zstd(x) => x.acc(), CompressedAsyncWriter::Xz(x) => x.acc() } }
    open spec fn sunk(&self) -> Seq<u8> { match *self { CompressedAsyncWriter::Stored(x) => x.sunk(), CompressedAsyncWriter::Deflate(x) => x.sunk(), CompressedAsyncWriter::Bz(x) => x.sunk(), CompressedAsyncWriter::Lzma(x) => x.sunk(), CompressedAsyncWriter::Zstd(x) => x.sunk(), CompressedAsyncWriter::Xz(x) => x.sunk() } }
    open spec fn fx(&self) -> WFix { match *self { CompressedAsyncWriter::Stored(x) => x.fx(), CompressedAsyncWriter::Deflate(x) => x.fx(), CompressedAsyncWriter::Bz(x) => x.fx(), CompressedAsyncWriter::Lzma(x) => x.fx(), CompressedAsyncWriter::Zstd(x) => x.fx(), CompressedAsyncWriter::Xz(x) => x.fx() } }
    open spec fn winv(&self) -> bool { match *self { CompressedAsyncWriter::Stored(x) => x.winv(), CompressedAsyncWriter::Deflate(x) => x.winv(), CompressedAsyncWriter::Bz(x) => x.winv(), CompressedAsyncWriter::Lzma(x) => x.winv(), CompressedAsyncWriter::Zstd(x) => x.winv(), CompressedAsyncWriter::Xz(x) => x.winv() } }
    open spec fn opn(&self) -> bool { match *self { CompressedAsyncWriter::Stored(x) => x.opn(), CompressedAsyncWriter::Deflate(x) => x.opn(), CompressedAsyncWriter::Bz(x) => x.opn(), CompressedAsyncWriter::Lzma(x) => x.opn(), CompressedAsyncWriter::Zstd(x) => x.opn(), CompressedAsyncWriter::Xz(x) => x.opn() } }
    open spec fn fin(&self) -> bool { match *self { CompressedAsyncWriter::Stored(x) => x.fin(), CompressedAsyncWriter::Deflate(x) => x.fin(), CompressedAsyncWriter::Bz(x) => x.fin(), CompressedAsyncWriter::Lzma(x) => x.fin(), CompressedAsyncWriter::Zstd(x) => x.fin(), CompressedAsyncWriter::Xz(x) => x.fin() } }
    #[verifier::prophetic]
    open spec fn kin(&self, o: &Self) -> bool { match (*self, *o) { (CompressedAsyncWriter::Stored(x), CompressedAsyncWriter::Stored(y)) => x.kin(&y), (CompressedAsyncWriter::Deflate(x), CompressedAsyncWriter::Deflate(y)) => x.kin(&y), (CompressedAsyncWriter::Bz(x), CompressedAsyncWriter::Bz(y)) => x.kin(&y), (CompressedAsyncWriter::Lzma(x), CompressedAsyncWriter::Lzma(y)) => x.kin(&y), (CompressedAsyncWriter::Zstd(x), CompressedAsyncWriter::Zstd(y)) => x.kin(&y), (CompressedAsyncWriter::Xz(x), CompressedAsyncWriter::Xz(y)) => x.kin(&y), _ => false } }
    proof fn kin_refl(&self) { match *self { CompressedAsyncWriter::Stored(x) => x.kin_refl(), CompressedAsyncWriter::Deflate(x) => x.kin_refl(), CompressedAsyncWriter::Bz(x) => x.kin_refl(), CompressedAsyncWriter::Lzma(x) => x.kin_refl(), CompressedAsyncWriter::Zstd(x) => x.kin_refl(), CompressedAsyncWriter::Xz(x) => x.kin_refl() } }
    proof fn kin_trans(&self, b: &Self, c: &Self) { match (*self, *b, *c) { (CompressedAsyncWriter::Stored(x), CompressedAsyncWriter::Stored(y), CompressedAsyncWriter::Stored(z)) => x.kin_trans(&y, &z), (CompressedAsyncWriter::Deflate(x), CompressedAsyncWriter::Deflate(y), CompressedAsyncWriter::Deflate(z)) => x.kin_trans(&y, &z), (CompressedAsyncWriter::Bz(x), CompressedAsyncWriter::Bz(y), CompressedAsyncWriter::Bz(z)) => x.kin_trans(&y, &z), (CompressedAsyncWriter::Lzma(x), CompressedAsyncWriter::Lzma(y), CompressedAsyncWriter::Lzma(z)) => x.kin_trans(&y, &z), (CompressedAsyncWriter::Zstd(x), CompressedAsyncWriter::Zstd(y), CompressedAsyncWriter::Zstd(z)) => x.kin_trans(&y, &z), (CompressedAsyncWriter::Xz(x), CompressedAsyncWriter::Xz(y), CompressedAsyncWriter::Xz(z)) => x.kin_trans(&y, &z), _ => () } }
@end
@fn <CompressedAsyncWriter as AsyncWrite>::poll_flush [unit=wr,noauto]
@kinds
@end
@fn <CompressedAsyncWriter as AsyncWrite>::poll_close [unit=wr,noauto]
@kinds
@end
@fn CompressedAsyncWriter::into_inner [unit=wr]
@kinds
@contract
    ensures r == cwin(self),
@end
@fn CompressedAsyncWriter::from_raw [unit=wr]
@kinds
@contract
    requires (*old(writer)).winv(), !(compression is Deflate64) || precompressed,
    ensures
        *cwin(r) == *old(writer), *final(cwin(r)) == *final(writer), r.winv(), r.opn() == (*old(writer)).opn(), r.fx().keeps, r.sunk() == (*old(writer)).acc(), r.fx().base == (*old(writer)).fx().base, r.fx().sure == (*old(writer)).fx().sure,
        cw_is(r, if precompressed { Compression::Stored } else { compression }),
        r is Stored || (r.acc() == Seq::<u8>::empty() && r.fx().start == (*old(writer)).acc()),
@end
