// The streaming reader.
/// z reads the entry whose local header is at p
pub open spec fn next_is<'a, R: AsyncBufRead, E>(d: Seq<u8>, p: int, z: ZipEntryReader<'a, R, E>, dd: bool) -> bool {
    &&& lfh_ok(d, p)
    &&& dd == lfh_h(d, p).flags.data_descriptor
    &&& zr_at(z, d, lfh_end(d, p), method_of(lfh_h(d, p).compression)->0, if dd { u64::MAX as int } else { lfh_ev(d, p).cs as int }, true)
    &&& within(z)
}
pub open spec fn next_err(d: Seq<u8>, p: int, e: ZipError) -> bool {
    !lfh_ok(d, p) && !(4 <= avail(d, p) && end_sig(at4(d, p))) && lfh_err(d, p, e)
}
/// where the next header of an archive is: behind the data and, if the entry is flagged, its descriptor
pub open spec fn after_entry(d: Seq<u8>, end: int, dd: bool) -> int { if dd { end + dd_len(d, end) } else { end } }
