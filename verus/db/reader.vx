# the entry reader stack
@fn <HashedReader as AsyncRead>::poll_read [unit=rd,noauto]
@kinds
@impl_extra
    open spec fn data(&self) -> Seq<u8> { self.reader.data() }
    open spec fn pos(&self) -> int { self.reader.pos() }
    open spec fn nofail(&self) -> bool { self.reader.nofail() }
    open spec fn dlv(&self) -> Seq<u8> { self.hasher.seen() }
    open spec fn fixed(&self) -> (Seq<u8>, int, bool, u32) { self.reader.fixed() }
    open spec fn at_end(&self) -> bool { self.reader.at_end() }
@end
@fn HashedReader::new [unit=rd]
@kinds
@contract
    ensures r.reader == reader, r.hasher.seen() == Seq::<u8>::empty(),
@end
@fn HashedReader::swap_and_compute_hash [unit=rd]
@kinds
@contract
    ensures r == crc_of(old(self).hasher.seen()), final(self).hasher.seen() == Seq::<u8>::empty(), final(self).reader == old(self).reader,
@end
@fn HashedReader::into_inner [unit=rd]
@kinds
@contract
    ensures r == self.reader,
@end
@fn CompressedReader::new [unit=rd]
@kinds
@contract
    requires reader.pos() >= 0,
    ensures
        variant_is(r, compression), cinner(r) == reader, r.pos() >= 0,
        compression is Stored ==> r->Stored_0 == reader,
        !(compression is Stored) ==> r.pos() == 0 && within(r) && r.data() == decoded(compression, rest(&reader)),
        !(compression is Stored || compression is Deflate64) ==> r.fixed().1 == reader.pos() + stream_len(compression, rest(&reader)),
        r.fixed().0 == reader.fixed().0, r.fixed().2 == reader.fixed().2,
@end
@fn CompressedReader::into_inner [unit=rd]
@kinds
@contract
    ensures r == cinner(self),
@end
@fn <CompressedReader as AsyncRead>::poll_read [unit=rd,noauto]
@kinds
@impl_extra
    open spec fn data(&self) -> Seq<u8> { match *self { CompressedReader::Stored(x) => x.data(), CompressedReader::Deflate(x) => x.data(), CompressedReader::Deflate64(x) => x.data(), CompressedReader::Bz(x) => x.data(), CompressedReader::Lzma(x) => x.data(), CompressedReader::Zstd(x) => x.data(), CompressedReader::Xz(x) => x.data() } }
    open spec fn pos(&self) -> int { match *self { CompressedReader::Stored(x) => x.pos(), CompressedReader::Deflate(x) => x.pos(), CompressedReader::Deflate64(x) => x.pos(), CompressedReader::Bz(x) => x.pos(), CompressedReader::Lzma(x) => x.pos(), CompressedReader::Zstd(x) => x.pos(), CompressedReader::Xz(x) => x.pos() } }
    open spec fn nofail(&self) -> bool { match *self { CompressedReader::Stored(x) => x.nofail(), CompressedReader::Deflate(x) => x.nofail(), CompressedReader::Deflate64(x) => x.nofail(), CompressedReader::Bz(x) => x.nofail(), CompressedReader::Lzma(x) => x.nofail(), CompressedReader::Zstd(x) => x.nofail(), CompressedReader::Xz(x) => x.nofail() } }
    open spec fn dlv(&self) -> Seq<u8> { match *self { CompressedReader::Stored(x) => x.dlv(), CompressedReader::Deflate(x) => x.dlv(), CompressedReader::Deflate64(x) => x.dlv(), CompressedReader::Bz(x) => x.dlv(), CompressedReader::Lzma(x) => x.dlv(), CompressedReader::Zstd(x) => x.dlv(), CompressedReader::Xz(x) => x.dlv() } }
    open spec fn fixed(&self) -> (Seq<u8>, int, bool, u32) { match *self { CompressedReader::Stored(x) => x.fixed(), CompressedReader::Deflate(x) => x.fixed(), CompressedReader::Deflate64(x) => x.fixed(), CompressedReader::Bz(x) => x.fixed(), CompressedReader::Lzma(x) => x.fixed(), CompressedReader::Zstd(x) => x.fixed(), CompressedReader::Xz(x) => x.fixed() } }
    open spec fn at_end(&self) -> bool { match *self { CompressedReader::Stored(x) => x.at_end(), CompressedReader::Deflate(x) => x.at_end(), CompressedReader::Deflate64(x) => x.at_end(), CompressedReader::Bz(x) => x.at_end(), CompressedReader::Lzma(x) => x.at_end(), CompressedReader::Zstd(x) => x.at_end(), CompressedReader::Xz(x) => x.at_end() } }
@end
@fn <OwnedReader as AsyncRead>::poll_read [unit=rd,noauto]
@kinds
@impl_extra
    open spec fn data(&self) -> Seq<u8> { odata(*self).data() }
    open spec fn pos(&self) -> int { odata(*self).pos() }
    open spec fn nofail(&self) -> bool { odata(*self).nofail() }
    open spec fn dlv(&self) -> Seq<u8> { odata(*self).dlv() }
    open spec fn fixed(&self) -> (Seq<u8>, int, bool, u32) { (odata(*self).fixed().0, odata(*self).fixed().1, *self is Owned, 0) }
    open spec fn at_end(&self) -> bool { odata(*self).at_end() }
@end
@fn <OwnedReader as AsyncBufRead>::poll_fill_buf [unit=rd,noauto]
@kinds
@end
@fn <OwnedReader as AsyncBufRead>::consume [unit=rd,noauto]
@kinds
@end
@fn OwnedReader::owned_into_inner [unit=rd]
@kinds
@contract
    requires self is Owned,
    ensures r == odata(self),
@end
@fn <ZipEntryReader as AsyncRead>::poll_read [unit=rd,noauto]
@kinds
@impl_extra
    open spec fn data(&self) -> Seq<u8> { self.reader.data() }
    open spec fn pos(&self) -> int { self.reader.pos() }
    open spec fn nofail(&self) -> bool { self.reader.nofail() }
    open spec fn dlv(&self) -> Seq<u8> { self.reader.dlv() }
    open spec fn fixed(&self) -> (Seq<u8>, int, bool, u32) { (self.reader.fixed().0, self.reader.fixed().1, self.reader.fixed().2, ecrc(self.entry)) }
    open spec fn at_end(&self) -> bool { self.reader.at_end() }
@end
@fn ZipEntryReader::new_with_owned [unit=rd]
@kinds
@at start
let ghost r0 = reader;
@at after reader
proof {
    let t = cinner(reader.reader);
    assert(bottom_c(reader.reader) == r0);
    if r0.pos() + size >= r0.data().len() { assert(cut(r0.data(), r0.pos() + size) =~= r0.data()); }
    assert(rest(&t) =~= tk(r0.data(), r0.pos(), size as int));
    assert(rest(&reader.reader) =~= payload(compression, tk(r0.data(), r0.pos(), size as int)));
}
@contract
    requires reader.pos() >= 0,
    ensures zr_at(r, reader.data(), reader.pos(), compression, size as int, true),
@end
@fn ZipEntryReader::new_with_borrow [unit=rd]
@kinds
@at start
let ghost r0 = *reader;
@at after reader
proof {
    let t = cinner(reader.reader);
    assert(bottom_c(reader.reader) == r0);
    if r0.pos() + size >= r0.data().len() { assert(cut(r0.data(), r0.pos() + size) =~= r0.data()); }
    assert(rest(&t) =~= tk(r0.data(), r0.pos(), size as int));
    assert(rest(&reader.reader) =~= payload(compression, tk(r0.data(), r0.pos(), size as int)));
}
@contract
    requires old(reader).pos() >= 0,
    ensures zr_at(r, old(reader).data(), old(reader).pos(), compression, size as int, false),
@end
@fn ZipEntryReader::into_with_entry [unit=rd]
@kinds
@contract
    ensures r.reader == self.reader, oentry(r.entry.0) == *entry,
@end
@fn ZipEntryReader::into_with_entry_owned [unit=rd]
@kinds
@contract
    ensures r.reader == self.reader, oentry(r.entry.0) == entry,
@end
@fn ZipEntryReader::compute_hash [unit=rd]
@kinds
@contract
    ensures
        r == crc_of(old(self).dlv()), final(self).dlv() == Seq::<u8>::empty(),
        final(self).data() == old(self).data(), final(self).pos() == old(self).pos(), final(self).fixed() == old(self).fixed(),
        final(self).at_end() == old(self).at_end(), final(self).entry == old(self).entry,
@end
@fn ZipEntryReader::into_inner [unit=rd]
@kinds
@contract
    requires self.fixed().2,
    ensures
        r.data() == self.fixed().0,
        self.at_end() && within(self) ==> r.pos() == self.fixed().1,
@end
@fn ZipEntryReader::entry [unit=rd]
@kinds
@contract
    ensures *r == oentry(self.entry.0),
@end
@fn OwnedEntry::entry [unit=rd]
@kinds
@contract
    ensures *r == oentry(*self),
@end
@fn ZipEntryReader::read_to_end_checked [unit=rd]
@kinds
@at start
broadcast use axiom_ecrc;
@contract
    requires old(self).pos() >= 0,
    ensures
        final(self).data() == old(self).data(), final(self).fixed() == old(self).fixed(), final(self).pos() >= 0,
        r matches Ok(n) ==> {
            &&& crc_of(old(self).dlv() + rest(old(self))) == oentry(old(self).entry.0).crc32
            &&& final(buf)@ == old(buf)@ + rest(old(self)) && n == rest(old(self)).len()
            &&& final(self).dlv() == Seq::<u8>::empty() && final(self).at_end()
        },
        r matches Err(e) ==> e is UpstreamReadError || (e is CRC32CheckError && crc_of(old(self).dlv() + rest(old(self))) != oentry(old(self).entry.0).crc32),
        old(self).nofail() ==> (r is Ok <==> crc_of(old(self).dlv() + rest(old(self))) == oentry(old(self).entry.0).crc32),
@end
@fn ZipEntryReader::read_to_string_checked [unit=rd]
@kinds
@at start
broadcast use axiom_ecrc;
@contract
    requires old(self).pos() >= 0, old(buf).sv().len() == 0,
    ensures
        final(self).data() == old(self).data(), final(self).fixed() == old(self).fixed(), final(self).pos() >= 0,
        r matches Ok(n) ==> {
            &&& crc_of(old(self).dlv() + rest(old(self))) == oentry(old(self).entry.0).crc32
            &&& final(buf).sv() == rest(old(self)) && n == rest(old(self)).len()
            &&& final(self).dlv() == Seq::<u8>::empty() && final(self).at_end()
        },
        r matches Err(e) ==> e is UpstreamReadError || (e is CRC32CheckError && crc_of(old(self).dlv() + rest(old(self))) != oentry(old(self).entry.0).crc32),
        old(self).nofail() && utf8_valid(rest(old(self))) ==> (r is Ok <==> crc_of(old(self).dlv() + rest(old(self))) == oentry(old(self).entry.0).crc32),
@end
@fn <StoredZipEntry as Deref>::deref [inherent,unit=rd]
@kinds
@sigmap &Self::Target => &ZipEntry
@contract
    ensures *r == self.entry,
@end
