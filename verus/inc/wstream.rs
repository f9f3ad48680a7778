// Entries written as a stream.
/// the bytes the user has written
pub open spec fn sw_data<'b, W: AsyncWrite>(s: EntryStreamWriter<'b, W>) -> Seq<u8> { s.writer.acc().skip(s.writer.fx().base) }
/// how many bytes the archive's sink had accepted when the data began
pub open spec fn sw_begin<'b, W: AsyncWrite>(s: EntryStreamWriter<'b, W>) -> int { s.writer.fx().below + s.data_offset }
pub open spec fn sw_ok<'b, W: AsyncWrite>(s: EntryStreamWriter<'b, W>) -> bool {
    &&& s.writer.winv() && s.writer.fx().keeps && s.hasher.seen() == sw_data(s)
    &&& cw_is(s.writer.inner, if s.precompressed { Compression::Stored } else { s.entry.compression })
    &&& if s.writer.inner is Stored { s.writer.fx().base == sw_begin(s) } else { s.writer.fx().base == 0 && s.writer.fx().start.len() == sw_begin(s) }
    &&& 0 <= sw_begin(s) <= s.writer.sunk().len()
}
/// the entry and its local header belong together
pub open spec fn se_ok<'b, W: AsyncWrite>(s: EntryStreamWriter<'b, W>) -> bool {
    &&& s.lfh.file_name_length == basic(zv(s.entry.filename)).len() && s.lfh.extra_field_length == ser_xfs(xvs(s.entry.extra_fields@)).len()
    &&& xfs_nodisk(xvs(s.entry.extra_fields@))
}
pub open spec fn local_z64(e: ZipEntry) -> XF { XF::Zip64 { id: 1, us: Some(e.uncompressed_size), cs: Some(e.compressed_size), off: None, disk: None } }
pub open spec fn stream_xs(no64: bool, e: ZipEntry) -> Seq<XF> {
    let xs = no_z64(xvs(e.extra_fields@));
    uni(if no64 { xs } else { xs.push(local_z64(e)) }, zv(e.filename), zv(e.comment))
}
pub open spec fn lfh_stream(no64: bool, e: ZipEntry) -> LocalFileHeader {
    let (name, comment) = (zv(e.filename), zv(e.comment));
    LocalFileHeader {
        version: needed(e.compression, is_dir(name)),
        flags: GeneralPurposeFlag { encrypted: false, data_descriptor: true, filename_unicode: flag8(name, comment) },
        compression: method_id(e.compression), mod_time: e.last_modification_date.time, mod_date: e.last_modification_date.date, crc: e.crc32,
        compressed_size: if no64 { e.compressed_size as u32 } else { 0xffff_ffff },
        uncompressed_size: if no64 { e.uncompressed_size as u32 } else { 0xffff_ffff },
        file_name_length: basic(name).len() as u16, extra_field_length: ser_xfs(stream_xs(no64, e)).len() as u16,
    }
}
/// the local header cannot be written: a size given beforehand, or a text
pub open spec fn stream_refused(no64: bool, e: ZipEntry, x: ZipError) -> bool {
    let n = ser_xfs(stream_xs(no64, e)).len();
    let big = no64 && (e.compressed_size > m32() || e.uncompressed_size > m32());
    if big { x == ZipError::Zip64Needed(Zip64ErrorCase::LargeFile) }
    else if n > 0xffff { x is ExtraFieldTooLarge }
    else { basic(zv(e.filename)).len() > 0xffff && x is FileNameTooLarge }
}
#[verifier::prophetic]
pub open spec fn lfh_post<W: AsyncWrite>(a: ZipFileWriter<W>, b: ZipFileWriter<W>, e: ZipEntry, f: ZipEntry, r: ZResult<LocalFileHeader>) -> bool {
    let no64 = a.force_no_zip64;
    &&& zw_ok(b) && zw_same(a, b) && b.cd_entries@ == a.cd_entries@
    &&& match r {
        Ok(l) => l == lfh_stream(no64, e) && f == (ZipEntry { extra_fields: f.extra_fields, ..e }) && xvs(f.extra_fields@) == stream_xs(no64, e)
            && b.writer.acc() == a.writer.acc() + local_bytes(l, e, stream_xs(no64, e)) && b.is_zip64 == (a.is_zip64 || !no64)
            && ser_xfs(stream_xs(no64, e)).len() <= 0xffff && basic(zv(e.filename)).len() <= 0xffff && xfs_nodisk(stream_xs(no64, e)),
        Err(x) => (x is UpstreamReadError && !a.writer.fx().sure && grown(a.writer.acc(), b.writer.acc())) || (stream_refused(no64, e, x) && b.writer.acc() == a.writer.acc()),
    }
}
#[verifier::prophetic]
pub open spec fn sw_post<'b, W: AsyncWrite>(a: ZipFileWriter<W>, b: ZipFileWriter<W>, e: ZipEntry, pre: bool, r: ZResult<EntryStreamWriter<'b, W>>) -> bool {
    match r {
        Ok(s) => {
            let no64 = a.force_no_zip64;
            &&& sw_ok(s) && se_ok(s) && sw_data(s) == Seq::<u8>::empty() && s.precompressed == pre && s.force_no_zip64 == no64
            &&& s.entry == (ZipEntry { extra_fields: s.entry.extra_fields, ..e }) && xvs(s.entry.extra_fields@) == stream_xs(no64, e)
            &&& s.lfh == lfh_stream(no64, e) && s.lfh_offset == a.writer.offset
            &&& (*cwin(s.writer.inner)).acc() == a.writer.acc() + local_bytes(s.lfh, e, stream_xs(no64, e)) && sw_begin(s) == (*cwin(s.writer.inner)).acc().len()
            &&& (*cwin(s.writer.inner)).winv() && a.writer.kin(&*cwin(s.writer.inner)) && (*cwin(s.writer.inner)).fx() == a.writer.fx()
            &&& *s.is_zip64 == (a.is_zip64 || !no64) && (*s.cd_entries)@ == a.cd_entries@
            // what the archive writer is once the entry writer is gone
            &&& b == (ZipFileWriter { writer: *final(cwin(s.writer.inner)), cd_entries: *final(s.cd_entries), is_zip64: *final(s.is_zip64), ..a })
        },
        Err(x) => zw_ok(b) && zw_same(a, b) && b.cd_entries@ == a.cd_entries@
            && ((x is UpstreamReadError && !a.writer.fx().sure && grown(a.writer.acc(), b.writer.acc())) || (stream_refused(a.force_no_zip64, e, x) && b.writer.acc() == a.writer.acc())),
    }
}
pub proof fn lemma_stream_xs(no64: bool, e: ZipEntry)
    requires e_room(e)
    ensures
        xfs_nodisk(stream_xs(no64, e)) && ser_xfs(stream_xs(no64, e)).len() <= usize::MAX, ser_xfs(stream_xs(no64, e)).len() <= 0xffff ==> xfs_fit(stream_xs(no64, e)),
        stream_xs(no64, e) == uni(if no64 { no_z64(xvs(e.extra_fields@)) } else { no_z64(xvs(e.extra_fields@)).push(local_z64(e)) }, zv(e.filename), zv(e.comment)),
{
    let xs = xvs(e.extra_fields@);
    lemma_drop_z64(xs);
    lemma_ser_push(no_z64(xs), local_z64(e));
    let a = if no64 { no_z64(xs) } else { no_z64(xs).push(local_z64(e)) };
    assert(xfs_nodisk(a));
    lemma_uni(a, zv(e.filename), zv(e.comment));
    if ser_xfs(stream_xs(no64, e)).len() <= 0xffff { lemma_fit(stream_xs(no64, e)); }
}
pub proof fn lemma_lfh_stream(no64: bool, e: ZipEntry, l: LocalFileHeader)
    requires
        l.version == needed(e.compression, is_dir(zv(e.filename))),
        l.flags == (GeneralPurposeFlag { encrypted: false, data_descriptor: true, filename_unicode: flag8(zv(e.filename), zv(e.comment)) }),
        l.compression == method_id(e.compression), l.mod_time == e.last_modification_date.time, l.mod_date == e.last_modification_date.date, l.crc == e.crc32,
        l.compressed_size == (if no64 { e.compressed_size as u32 } else { 0xffff_ffffu32 }),
        l.uncompressed_size == (if no64 { e.uncompressed_size as u32 } else { 0xffff_ffffu32 }),
        l.file_name_length == basic(zv(e.filename)).len() as u16,
        l.extra_field_length == ser_xfs(stream_xs(no64, e)).len() as u16,
    ensures l == lfh_stream(no64, e)
{ }
pub proof fn lemma_local_head(a: Seq<u8>, l: LocalFileHeader, e: ZipEntry, lxs: Seq<XF>)
    ensures a + le4(0x04034b50) + ser_lfh(l) + basic(zv(e.filename)) + ser_xfs(lxs) == a + local_bytes(l, e, lxs)
{ assert(a + le4(0x04034b50) + ser_lfh(l) + basic(zv(e.filename)) + ser_xfs(lxs) =~= a + local_bytes(l, e, lxs)); }
// ---- closing -------------------------------------------------------------------------------------------------------------
pub open spec fn close_xs(no64: bool, xs: Seq<XF>, us: u64, cs: u64, off: u64) -> Seq<XF> {
    if no64 { xs } else {
        let i = find_z64(xs);
        if i < xs.len() { xs.update(i, XF::Zip64 { id: xs[i]->Zip64_id, us: Some(us), cs: Some(cs), off: Some(off), disk: xs[i]->disk }) }
        else { xs.push(XF::Zip64 { id: 1, us: Some(us), cs: Some(cs), off: Some(off), disk: None }) }
    }
}
pub open spec fn field32(no64: bool, v: u64) -> u32 { if no64 { v as u32 } else { 0xffff_ffff } }
/// the data descriptor (4.3.9): signature, checksum, sizes
pub open spec fn descriptor(crc: u32, cs: u32, us: u32) -> Seq<u8> { le4(0x08074b50) + le4(crc) + le4(cs) + le4(us) }
pub open spec fn all_cde_ok(s: Seq<CentralDirectoryEntry>) -> bool { forall|i: int| 0 <= i < s.len() ==> cde_ok(#[trigger] s[i]) }
/// what the user has written, as recorded
pub open spec fn sw_size<'b, W: AsyncWrite>(s: EntryStreamWriter<'b, W>) -> u64 { if s.precompressed { s.entry.uncompressed_size } else { sw_data(s).len() as u64 } }
pub open spec fn sw_crc<'b, W: AsyncWrite>(s: EntryStreamWriter<'b, W>) -> u32 { if s.precompressed { s.entry.crc32 } else { crc_of(sw_data(s)) } }
pub open spec fn close_big(no64: bool, us: u64, cs: u64, off: u64) -> bool { no64 && (us > m32() || cs > m32() || off > m32()) }
pub open spec fn cdr_stream(l: LocalFileHeader, no64: bool, e: ZipEntry, us: u64, cs: u64, off: u64, crc: u32) -> CentralDirectoryRecord {
    cdr_like(LocalFileHeader { crc, ..l }, e, field32(no64, us), field32(no64, cs), ser_xfs(close_xs(no64, xvs(e.extra_fields@), us, cs, off)).len() as int, field32(no64, off))
}
/// the entry is finished: d (the stored form) and its descriptor follow the local header, and the directory record is there
pub open spec fn close_ok<'b, W: AsyncWrite>(s: EntryStreamWriter<'b, W>, low0: AsyncOffsetWriter<W>, low1: AsyncOffsetWriter<W>, cd0: Seq<CentralDirectoryEntry>, cd1: Seq<CentralDirectoryEntry>, d: Seq<u8>) -> bool {
    let (us, cs, off, crc, no64) = (sw_size(s), d.len() as u64, s.lfh_offset, sw_crc(s), s.force_no_zip64);
    let xs = close_xs(no64, xvs(s.entry.extra_fields@), us, cs, off);
    &&& whole_stored(s.entry.compression, s.precompressed, d, sw_data(s)) && d.len() <= u64::MAX
    &&& low1.acc() == low0.acc().take(sw_begin(s)) + (d + descriptor(crc, field32(no64, cs), field32(no64, us)))
    &&& cd1.len() == cd0.len() + 1 && cd1.drop_last() == cd0
    &&& cd1.last().header == cdr_stream(s.lfh, no64, s.entry, us, cs, off, crc) && e_keeps(s.entry, cd1.last().entry) && xvs(cd1.last().entry.extra_fields@) == xs
    &&& !close_big(no64, us, cs, off) && (no64 ==> cd0.len() < 0xffff) && ser_xfs(xs).len() <= 0xffff && basic(zv(s.entry.comment)).len() <= 0xffff
}
/// why it cannot be
pub open spec fn close_refused<'b, W: AsyncWrite>(s: EntryStreamWriter<'b, W>, n: int, d: Seq<u8>, x: ZipError) -> bool {
    let (us, cs, off, no64) = (sw_size(s), d.len() as u64, s.lfh_offset, s.force_no_zip64);
    let xs = close_xs(no64, xvs(s.entry.extra_fields@), us, cs, off);
    if close_big(no64, us, cs, off) { x == ZipError::Zip64Needed(Zip64ErrorCase::LargeFile) }
    else if ser_xfs(xs).len() > 0xffff { x is ExtraFieldTooLarge }
    else if basic(zv(s.entry.comment)).len() > 0xffff { x is CommentTooLarge }
    else { no64 && n >= 0xffff && x == ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles) }
}
#[verifier::prophetic]
pub open spec fn close_post<'b, W: AsyncWrite>(s: EntryStreamWriter<'b, W>, low0: AsyncOffsetWriter<W>, low1: AsyncOffsetWriter<W>, cd0: Seq<CentralDirectoryEntry>, cd1: Seq<CentralDirectoryEntry>, z0: bool, z1: bool, d: Seq<u8>, r: ZResult<()>) -> bool {
    &&& low1.winv() && low0.kin(&low1) && low1.fx() == low0.fx() && low1.opn() == low0.opn() && grown(low0.acc(), low1.acc()) && all_cde_ok(cd1)
    &&& match r {
        Ok(_) => close_ok(s, low0, low1, cd0, cd1, d) && z1 == (z0 || cd0.len() >= 0xffff),
        Err(x) => cd1 == cd0 && z1 == z0 && ((x is UpstreamReadError && !low0.fx().sure) || close_refused(s, cd0.len() as int, d, x)),
    }
}
pub proof fn lemma_close_xs(no64: bool, xs: Seq<XF>, us: u64, cs: u64, off: u64)
    requires xfs_nodisk(xs)
    ensures ({
        let c = close_xs(no64, xs, us, cs, off);
        xfs_nodisk(c) && ser_xfs(c).len() <= ser_xfs(xs).len() + 28 && (ser_xfs(c).len() <= 0xffff ==> xfs_fit(c)) && 0 <= find_z64(xs) && (no64 ==> c == xs)
    })
{
    let c = close_xs(no64, xs, us, cs, off);
    let i = find_z64(xs);
    lemma_find_z64_range(xs);
    if !no64 {
        if i < xs.len() { assert(xf_nodisk(xs[i])); lemma_ser_update(xs, i, c[i]); }
        else { lemma_ser_push(xs, XF::Zip64 { id: 1, us: Some(us), cs: Some(cs), off: Some(off), disk: None }); }
    }
    if ser_xfs(c).len() <= 0xffff { lemma_fit(c); }
}
pub proof fn lemma_find_z64_range(s: Seq<XF>)
    ensures 0 <= find_z64(s) <= s.len(), find_z64(s) < s.len() ==> s[find_z64(s)] is Zip64
    decreases s.len()
{ if s.len() > 0 && !(s[0] is Zip64) { lemma_find_z64_range(s.skip(1)); } }
/// what the operations of a codec leave alone in the archive's own writer below it
pub proof fn lemma_cw<'b, W: AsyncWrite>(a: CompressedAsyncWriter<'b, W>, b: CompressedAsyncWriter<'b, W>)
    requires a.kin(&b), b.winv(), a.opn() == b.opn()
    ensures
        (*cwin(b)).winv(), (*cwin(a)).kin(&*cwin(b)), *final(cwin(a)) == *final(cwin(b)), (*cwin(b)).fx() == (*cwin(a)).fx(), (*cwin(b)).opn() == (*cwin(a)).opn(),
        a.sunk() == (*cwin(a)).acc(), b.sunk() == (*cwin(b)).acc(), b.fx().base == (*cwin(b)).fx().base,
        b is Stored ==> b.acc() == b.sunk(), a is Stored == b is Stored,
        forall|m: Compression| cw_is(a, m) == #[trigger] cw_is(b, m),
{ }
pub proof fn lemma_cdr_stream(c: CentralDirectoryRecord, l: LocalFileHeader, no64: bool, e: ZipEntry, us: u64, cs: u64, off: u64, crc: u32)
    requires
        c.v_made_by == made_by() && c.v_needed == l.version && c.flags == l.flags && c.compression == l.compression && c.mod_time == l.mod_time && c.mod_date == l.mod_date,
        c.crc == crc && c.compressed_size == field32(no64, cs) && c.uncompressed_size == field32(no64, us) && c.lh_offset == field32(no64, off) && c.disk_start == 0,
        c.inter_attr == e.internal_file_attribute && c.exter_attr == e.external_file_attribute && c.file_name_length == l.file_name_length,
        c.extra_field_length == ser_xfs(close_xs(no64, xvs(e.extra_fields@), us, cs, off)).len() as u16,
        c.file_comment_length == basic(zv(e.comment)).len() as u16,
    ensures c == cdr_stream(l, no64, e, us, cs, off, crc)
{ }
pub proof fn lemma_tail(a: Seq<u8>, d: Seq<u8>, crc: u32, cs: u32, us: u32)
    ensures a + d + le4(0x08074b50) + le4(crc) + le4(cs) + le4(us) == a + (d + descriptor(crc, cs, us))
{ assert(a + d + le4(0x08074b50) + le4(crc) + le4(cs) + le4(us) =~= a + (d + descriptor(crc, cs, us))); }
/// the archive's own writer at the moment the entry's writer has finished
#[verifier::prophetic]
pub open spec fn sw_done<'b, W: AsyncWrite>(s: EntryStreamWriter<'b, W>, w: AsyncOffsetWriter<CompressedAsyncWriter<'b, W>>) -> bool {
    let low0 = *cwin(s.writer.inner);
    let low = *cwin(w.inner);
    let d = low.acc().skip(sw_begin(s));
    &&& low.winv() && low0.kin(&low) && *final(cwin(s.writer.inner)) == *final(cwin(w.inner)) && low.fx() == low0.fx() && low.opn() == low0.opn() && grown(low0.acc(), low.acc())
    &&& low.acc() == low0.acc().take(sw_begin(s)) + d && low.offset - s.data_offset == d.len() && w.offset == sw_data(s).len()
    &&& w.fin() ==> whole_stored(s.entry.compression, s.precompressed, d, sw_data(s))
}
pub proof fn lemma_sw<'b, W: AsyncWrite>(s: EntryStreamWriter<'b, W>, w: AsyncOffsetWriter<CompressedAsyncWriter<'b, W>>)
    requires sw_ok(s), s.writer.kin(&w), w.winv(), w.fx() == s.writer.fx(), w.opn() == s.writer.opn(), w.acc() == s.writer.acc(), grown(s.writer.sunk(), w.sunk())
    ensures sw_done(s, w)
{
    lemma_cw(s.writer.inner, w.inner);
    let low0 = *cwin(s.writer.inner);
    let low = *cwin(w.inner);
    let b = sw_begin(s);
    assert(low.acc() =~= low.acc().take(b) + low.acc().skip(b));
    assert(low.acc().take(b) =~= low.acc().take(low0.acc().len() as int).take(b));
    let d = low.acc().skip(b);
    if w.fin() {
        assert(cw_is(w.inner, if s.precompressed { Compression::Stored } else { s.entry.compression }));
        if w.inner is Stored { } else { assert(s.writer.acc().skip(0) =~= s.writer.acc()); }
    }
}
