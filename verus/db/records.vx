@fn array_push!
@kinds for-array
@contract
    requires
        *old(cursor) + M <= N,
    ensures
        *final(cursor) == *old(cursor) + M,
        final(arr)@.take(*final(cursor) as int) == old(arr)@.take(*old(cursor) as int) + value@,
        forall|i: int| *final(cursor) <= i < N ==> #[trigger] final(arr)@[i] == old(arr)@[i],
@loop 0
    invariant
        vx_i0 <= M, *cursor == *old(cursor) + vx_i0, *old(cursor) + M <= N,
        forall|j: int| 0 <= j < *old(cursor) ==> #[trigger] arr@[j] == old(arr)@[j],
        forall|j: int| *old(cursor) <= j < *cursor ==> #[trigger] arr@[j] == value@[j - *old(cursor)],
        forall|j: int| *cursor <= j < N ==> #[trigger] arr@[j] == old(arr)@[j],
    decreases M - vx_i0
@at end
assert(arr@.take(*cursor as int) =~= old(arr)@.take(*old(cursor) as int) + value@);
@end

@fn LocalFileHeader::as_slice
@kinds
@contract
    ensures r@ == ser_lfh(*self),
@at after cursor
proof { assert(array@.take(0) =~= Seq::<u8>::empty()); }
@at end
assert(array@.take(26) =~= array@);
@end

@fn CentralDirectoryRecord::as_slice
@kinds
@contract
    ensures r@ == ser_cdr(*self),
@at after cursor
proof { assert(array@.take(0) =~= Seq::<u8>::empty()); }
@at end
assert(array@.take(42) =~= array@);
@end

@fn EndOfCentralDirectoryHeader::as_slice
@kinds
@contract
    ensures r@ == ser_eocdr(*self),
@at after cursor
proof { assert(array@.take(0) =~= Seq::<u8>::empty()); }
@at end
assert(array@.take(18) =~= array@);
@end

@fn Zip64EndOfCentralDirectoryRecord::as_bytes
@kinds
@contract
    ensures r@ == ser_eocdr64(*self),
@at after cursor
proof { assert(array@.take(0) =~= Seq::<u8>::empty()); }
@at end
assert(array@.take(52) =~= array@);
@end

@fn Zip64EndOfCentralDirectoryLocator::as_bytes
@kinds
@contract
    ensures r@ == ser_eocdl64(*self),
@at after cursor
proof { assert(array@.take(0) =~= Seq::<u8>::empty()); }
@at end
assert(array@.take(16) =~= array@);
@end

@fn GeneralPurposeFlag::as_slice
@kinds
@contract
    ensures r@ == ser_flags(*self),
@end

@fn <GeneralPurposeFlag as From<u16>>::from
@with
impl FromSpecImpl<u16> for GeneralPurposeFlag {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u16) -> GeneralPurposeFlag { par_flags(v) }
}
@kinds
@at start
proof {
    assert(((value & 0x8) >> 3 == 0) == (value & 8 == 0)) by (bit_vector);
    assert(((value & 0x800) >> 11 == 0) == (value & 0x800 == 0)) by (bit_vector);
}
@end

@fn <LocalFileHeader as From<[u8;26]>>::from
@with
impl FromSpecImpl<[u8; 26]> for LocalFileHeader {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: [u8; 26]) -> LocalFileHeader { par_lfh(v@) }
}
@kinds
@end
@fn <CentralDirectoryRecord as From<[u8;42]>>::from
@with
impl FromSpecImpl<[u8; 42]> for CentralDirectoryRecord {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: [u8; 42]) -> CentralDirectoryRecord { par_cdr(v@) }
}
@kinds
@end
@fn <EndOfCentralDirectoryHeader as From<[u8;18]>>::from
@with
impl FromSpecImpl<[u8; 18]> for EndOfCentralDirectoryHeader {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: [u8; 18]) -> EndOfCentralDirectoryHeader { par_eocdr(v@) }
}
@kinds
@end
@fn <Zip64EndOfCentralDirectoryRecord as From<[u8;52]>>::from
@with
impl FromSpecImpl<[u8; 52]> for Zip64EndOfCentralDirectoryRecord {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: [u8; 52]) -> Zip64EndOfCentralDirectoryRecord { par_eocdr64(v@) }
}
@kinds
@end
@fn <Zip64EndOfCentralDirectoryLocator as From<[u8;16]>>::from
@with
impl FromSpecImpl<[u8; 16]> for Zip64EndOfCentralDirectoryLocator {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: [u8; 16]) -> Zip64EndOfCentralDirectoryLocator { par_eocdl64(v@) }
}
@kinds
@end

@fn LocalFileHeader::from_reader
@kinds
@contract
    requires old(reader).pos() >= 0,
    ensures
        final(reader).data() == old(reader).data(), final(reader).nofail() == old(reader).nofail(), final(reader).pos() >= 0,
        old(reader).nofail() ==> (r is Ok <==> 26 <= avail(old(reader).data(), old(reader).pos())),
        r matches Ok(h) ==> {
            &&& 26 <= avail(old(reader).data(), old(reader).pos())
            &&& final(reader).pos() == old(reader).pos() + 26
            &&& h == par_lfh(nxt(old(reader).data(), old(reader).pos(), 26))
        },
        r matches Err(e) ==> e is UpstreamReadError,
@end
@fn EndOfCentralDirectoryHeader::from_reader
@kinds
@contract
    requires old(reader).pos() >= 0,
    ensures
        final(reader).data() == old(reader).data(), final(reader).nofail() == old(reader).nofail(), final(reader).pos() >= 0,
        old(reader).nofail() ==> (r is Ok <==> 18 <= avail(old(reader).data(), old(reader).pos())),
        r matches Ok(h) ==> {
            &&& 18 <= avail(old(reader).data(), old(reader).pos())
            &&& final(reader).pos() == old(reader).pos() + 18
            &&& h == par_eocdr(nxt(old(reader).data(), old(reader).pos(), 18))
        },
        r matches Err(e) ==> e is UpstreamReadError,
@end
@fn CentralDirectoryRecord::from_reader
@kinds
@contract
    requires old(reader).pos() >= 0,
    ensures
        final(reader).data() == old(reader).data(), final(reader).nofail() == old(reader).nofail(), final(reader).pos() >= 0,
        old(reader).nofail() ==> (r is Ok <==> 42 <= avail(old(reader).data(), old(reader).pos())),
        r matches Ok(h) ==> {
            &&& 42 <= avail(old(reader).data(), old(reader).pos())
            &&& final(reader).pos() == old(reader).pos() + 42
            &&& h == par_cdr(nxt(old(reader).data(), old(reader).pos(), 42))
        },
        r matches Err(e) ==> e is UpstreamReadError,
@end
@fn Zip64EndOfCentralDirectoryRecord::from_reader
@kinds
@contract
    requires old(reader).pos() >= 0,
    ensures
        final(reader).data() == old(reader).data(), final(reader).nofail() == old(reader).nofail(), final(reader).pos() >= 0,
        old(reader).nofail() ==> (r is Ok <==> 52 <= avail(old(reader).data(), old(reader).pos())),
        r matches Ok(h) ==> {
            &&& 52 <= avail(old(reader).data(), old(reader).pos())
            &&& final(reader).pos() == old(reader).pos() + 52
            &&& h == par_eocdr64(nxt(old(reader).data(), old(reader).pos(), 52))
        },
        r matches Err(e) ==> e is UpstreamReadError,
@end
@fn Zip64EndOfCentralDirectoryLocator::try_from_reader
@kinds
@contract
    requires old(reader).pos() >= 0,
    ensures
        final(reader).data() == old(reader).data(), final(reader).nofail() == old(reader).nofail(), final(reader).pos() >= 0,
        r matches Ok(o) ==> {
            &&& 4 <= avail(old(reader).data(), old(reader).pos())
            &&& (o is Some <==> at4(old(reader).data(), old(reader).pos()) == 0x07064b50)
            &&& (o matches Some(h) ==> {
                &&& 20 <= avail(old(reader).data(), old(reader).pos())
                &&& final(reader).pos() == old(reader).pos() + 20
                &&& h == par_eocdl64(nxt(old(reader).data(), old(reader).pos() + 4, 16))
            })
        },
        old(reader).nofail() ==> (r is Ok <==> 4 <= avail(old(reader).data(), old(reader).pos())
            && (at4(old(reader).data(), old(reader).pos()) == 0x07064b50 ==> 20 <= avail(old(reader).data(), old(reader).pos()))),
@end
