// P04/P05/P06/P07: directory records, local headers, the whole archive.
pub open spec fn rsame<R: AsyncRead>(a: R, b: R) -> bool { b.data() == a.data() && b.nofail() == a.nofail() && b.pos() >= 0 }
/// up to n bytes from p on
pub open spec fn tk(d: Seq<u8>, p: int, n: int) -> Seq<u8> { d.subrange(p, p + min(n, avail(d, p))) }
/// where a read of up to n bytes from p ends
pub open spec fn tkend(d: Seq<u8>, p: int, n: int) -> int { p + min(n, avail(d, p)) }

pub open spec fn is_z64(f: ExtraField) -> bool { f is Zip64ExtendedInformation }
pub open spec fn first_z64(xs: Seq<XF>) -> Option<XF> decreases xs.len() {
    if xs.len() == 0 { None } else if first_z64(xs.drop_last()) is Some { first_z64(xs.drop_last()) }
    else if xs.last() is Zip64 { Some(xs.last()) } else { None }
}
pub proof fn lemma_first_z64(s: Seq<ExtraField>, i: int)
    requires 0 <= i < s.len(), forall|k: int| 0 <= k < i ==> !is_z64(#[trigger] s[k]), is_z64(s[i])
    ensures first_z64(xvs(s)) == Some(xv(s[i]))
    decreases s.len()
{
    assert(xvs(s).drop_last() =~= xvs(s.drop_last()));
    if i == s.len() - 1 { lemma_no_z64(s.drop_last()); } else { lemma_first_z64(s.drop_last(), i); }
}
pub proof fn lemma_no_z64(s: Seq<ExtraField>)
    requires forall|k: int| 0 <= k < s.len() ==> !is_z64(#[trigger] s[k])
    ensures first_z64(xvs(s)) is None
    decreases s.len()
{
    if s.len() > 0 { assert(xvs(s).drop_last() =~= xvs(s.drop_last())); lemma_no_z64(s.drop_last()); }
}
pub proof fn lemma_first_uni(s: Seq<ExtraField>, path: bool, raw: Seq<u8>, i: int)
    requires 0 <= i < s.len(), forall|k: int| 0 <= k < i ==> uni_of(xv(#[trigger] s[k]), path, raw) is None, uni_of(xv(s[i]), path, raw) is Some
    ensures first_uni(xvs(s), path, raw) == uni_of(xv(s[i]), path, raw)
    decreases s.len()
{
    assert(xvs(s).drop_last() =~= xvs(s.drop_last()));
    if i == s.len() - 1 { lemma_no_uni(s.drop_last(), path, raw); } else { lemma_first_uni(s.drop_last(), path, raw, i); }
}
pub proof fn lemma_no_uni(s: Seq<ExtraField>, path: bool, raw: Seq<u8>)
    requires forall|k: int| 0 <= k < s.len() ==> uni_of(xv(#[trigger] s[k]), path, raw) is None
    ensures first_uni(xvs(s), path, raw) is None
    decreases s.len()
{
    if s.len() > 0 { assert(xvs(s).drop_last() =~= xvs(s.drop_last())); lemma_no_uni(s.drop_last(), path, raw); }
}

/// Value view of a listed entry.
pub struct EV {
    pub name: ZS, pub comment: ZS, pub method: Compression, pub crc: u32, pub us: u64, pub cs: u64, pub date: ZipDateTime,
    pub int_attr: u16, pub ext_attr: u32, pub xs: Seq<XF>, pub dd: bool,
}
pub open spec fn ev(e: ZipEntry) -> EV {
    EV {
        name: zv(e.filename), comment: zv(e.comment), method: e.compression, crc: e.crc32, us: e.uncompressed_size, cs: e.compressed_size,
        date: e.last_modification_date, int_attr: e.internal_file_attribute, ext_attr: e.external_file_attribute,
        xs: xvs(e.extra_fields@), dd: e.data_descriptor,
    }
}
pub open spec fn e_ok(e: ZipEntry) -> bool { zs_ok(e.filename) && zs_ok(e.comment) }
/// the ZIP64 value when the field has it, else the header's
pub open spec fn z64_us(xs: Seq<XF>, v: u32) -> u64 { match first_z64(xs) { Some(z) if z->us is Some => z->us->0, _ => v as u64 } }
pub open spec fn z64_cs(xs: Seq<XF>, v: u32) -> u64 { match first_z64(xs) { Some(z) if z->cs is Some => z->cs->0, _ => v as u64 } }
pub open spec fn z64_off(xs: Seq<XF>, v: u32) -> u64 {
    match first_z64(xs) { Some(z) if v == 0xffff_ffff && z->off is Some => z->off->0, _ => v as u64 }
}

// ---- one central directory record at p ---------------------------------------------------------------------------
pub open spec fn cdr_h(d: Seq<u8>, p: int) -> CentralDirectoryRecord { par_cdr(nxt(d, p + 4, 42)) }
pub open spec fn cdr_name(d: Seq<u8>, p: int) -> Seq<u8> { tk(d, p + 46, cdr_h(d, p).file_name_length as int) }
pub open spec fn cdr_p2(d: Seq<u8>, p: int) -> int { tkend(d, p + 46, cdr_h(d, p).file_name_length as int) }
pub open spec fn cdr_extra(d: Seq<u8>, p: int) -> Seq<u8> { tk(d, cdr_p2(d, p), cdr_h(d, p).extra_field_length as int) }
pub open spec fn cdr_p3(d: Seq<u8>, p: int) -> int { tkend(d, cdr_p2(d, p), cdr_h(d, p).extra_field_length as int) }
pub open spec fn cdr_comment(d: Seq<u8>, p: int) -> Seq<u8> { tk(d, cdr_p3(d, p), cdr_h(d, p).file_comment_length as int) }
pub open spec fn cdr_end(d: Seq<u8>, p: int) -> int { tkend(d, cdr_p3(d, p), cdr_h(d, p).file_comment_length as int) }
pub open spec fn cdr_xs(d: Seq<u8>, p: int) -> Option<Seq<XF>> { par_xfs(cdr_extra(d, p), 0, cdr_h(d, p).uncompressed_size, cdr_h(d, p).compressed_size) }
pub open spec fn cdr_ok(d: Seq<u8>, p: int) -> bool {
    46 <= avail(d, p) && at4(d, p) == 0x02014b50 && method_of(cdr_h(d, p).compression) is Some && cdr_xs(d, p) is Some
}
/// the error that a malformed record gives
pub open spec fn cdr_err(d: Seq<u8>, p: int, e: ZipError) -> bool {
    if avail(d, p) < 4 { e is UpstreamReadError }
    else if at4(d, p) != 0x02014b50 { e == ZipError::UnexpectedHeaderError(at4(d, p), 0x02014b50) }
    else if avail(d, p) < 46 { e is UpstreamReadError }
    else if method_of(cdr_h(d, p).compression) is None { e == ZipError::CompressionNotSupported(cdr_h(d, p).compression) }
    else { true }
}
pub open spec fn cdr_ev(d: Seq<u8>, p: int) -> EV {
    let h = cdr_h(d, p);
    let xs = cdr_xs(d, p)->0;
    EV {
        name: decode(cdr_name(d, p), h.flags.filename_unicode, xs, true), comment: decode(cdr_comment(d, p), h.flags.filename_unicode, xs, false),
        method: method_of(h.compression)->0, crc: h.crc, us: z64_us(xs, h.uncompressed_size), cs: z64_cs(xs, h.compressed_size),
        date: ZipDateTime { date: h.mod_date, time: h.mod_time }, int_attr: h.inter_attr, ext_attr: h.exter_attr, xs, dd: h.flags.data_descriptor,
    }
}
pub open spec fn cdr_off(d: Seq<u8>, p: int) -> u64 { z64_off(cdr_xs(d, p)->0, cdr_h(d, p).lh_offset) }
/// e is the record at p
pub open spec fn cdr_is(d: Seq<u8>, p: int, e: StoredZipEntry) -> bool {
    ev(e.entry) == cdr_ev(d, p) && e_ok(e.entry) && e.file_offset == cdr_off(d, p)
}
/// where record number i of a directory at p starts
pub open spec fn cd_pos(d: Seq<u8>, p: int, i: nat) -> int decreases i { if i == 0 { p } else { cdr_end(d, cd_pos(d, p, (i - 1) as nat)) } }

// ---- one local header at p ---------------------------------------------------------------------------------------
pub open spec fn lfh_h(d: Seq<u8>, p: int) -> LocalFileHeader { par_lfh(nxt(d, p + 4, 26)) }
pub open spec fn lfh_p2(d: Seq<u8>, p: int) -> int { tkend(d, p + 30, lfh_h(d, p).file_name_length as int) }
pub open spec fn lfh_extra(d: Seq<u8>, p: int) -> Seq<u8> { tk(d, lfh_p2(d, p), lfh_h(d, p).extra_field_length as int) }
pub open spec fn lfh_end(d: Seq<u8>, p: int) -> int { tkend(d, lfh_p2(d, p), lfh_h(d, p).extra_field_length as int) }
pub open spec fn lfh_xs(d: Seq<u8>, p: int) -> Option<Seq<XF>> { par_xfs(lfh_extra(d, p), 0, lfh_h(d, p).uncompressed_size, lfh_h(d, p).compressed_size) }
pub open spec fn end_sig(s: u32) -> bool { s == 0x02014b50 || s == 0x06054b50 || s == 0x06064b50 }
pub open spec fn lfh_ok(d: Seq<u8>, p: int) -> bool {
    30 <= avail(d, p) && at4(d, p) == 0x04034b50 && method_of(lfh_h(d, p).compression) is Some && lfh_xs(d, p) is Some
        && !lfh_h(d, p).flags.encrypted && !(lfh_h(d, p).flags.data_descriptor && lfh_h(d, p).compression == 0)
}
pub open spec fn lfh_err(d: Seq<u8>, p: int, e: ZipError) -> bool {
    if avail(d, p) < 4 { e is UpstreamReadError }
    else if at4(d, p) != 0x04034b50 { e == ZipError::UnexpectedHeaderError(at4(d, p), 0x04034b50) }
    else if avail(d, p) < 30 { e is UpstreamReadError }
    else if method_of(lfh_h(d, p).compression) is None { e == ZipError::CompressionNotSupported(lfh_h(d, p).compression) }
    else if lfh_xs(d, p) is Some { e is FeatureNotSupported }
    else { true }
}
pub open spec fn lfh_ev(d: Seq<u8>, p: int) -> EV {
    let h = lfh_h(d, p);
    let xs = lfh_xs(d, p)->0;
    EV {
        name: decode(tk(d, p + 30, h.file_name_length as int), h.flags.filename_unicode, xs, true), comment: ZS { utf8: true, raw: Seq::empty(), alt: None },
        method: method_of(h.compression)->0, crc: h.crc, us: z64_us(xs, h.uncompressed_size), cs: z64_cs(xs, h.compressed_size),
        date: ZipDateTime { date: h.mod_date, time: h.mod_time }, int_attr: 0, ext_attr: 0, xs, dd: h.flags.data_descriptor,
    }
}

// ---- the end records ---------------------------------------------------------------------------------------------
/// the end record lies directly before p (p is after its signature) and is the last one
pub open spec fn is_eocdr(d: Seq<u8>, p: int) -> bool {
    4 <= p && occurs(d, eocdr_sig(), p - 4) && forall|q: int| p - 4 < q ==> !occurs(d, eocdr_sig(), q)
}
pub struct EndV { pub disk: u32, pub cd_disk: u32, pub n_disk: u64, pub n: u64, pub size: u64, pub off: u64 }
pub open spec fn plain_end(h: EndOfCentralDirectoryHeader) -> EndV {
    EndV { disk: h.disk_num as u32, cd_disk: h.start_cent_dir_disk as u32, n_disk: h.num_of_entries_disk as u64, n: h.num_of_entries as u64,
        size: h.size_cent_dir as u64, off: h.cent_dir_offset as u64 }
}
/// each all-ones value is replaced, and no other
pub open spec fn z64_end(h: EndOfCentralDirectoryHeader, z: Zip64EndOfCentralDirectoryRecord) -> EndV {
    EndV {
        disk: if h.disk_num == 0xffff { z.disk_number } else { h.disk_num as u32 },
        cd_disk: if h.start_cent_dir_disk == 0xffff { z.disk_number_start_of_cd } else { h.start_cent_dir_disk as u32 },
        n_disk: if h.num_of_entries_disk == 0xffff { z.num_entries_in_directory_on_disk } else { h.num_of_entries_disk as u64 },
        n: if h.num_of_entries == 0xffff { z.num_entries_in_directory } else { h.num_of_entries as u64 },
        size: if h.size_cent_dir == 0xffff_ffff { z.directory_size } else { h.size_cent_dir as u64 },
        off: if h.cent_dir_offset == 0xffff_ffff { z.offset_of_start_of_directory } else { h.cent_dir_offset as u64 },
    }
}
pub open spec fn endv(c: CombinedCentralDirectoryRecord) -> EndV {
    EndV { disk: c.disk_number, cd_disk: c.disk_number_start_of_cd, n_disk: c.num_entries_in_directory_on_disk, n: c.num_entries_in_directory,
        size: c.directory_size, off: c.offset_of_start_of_directory }
}
pub open spec fn end_h(d: Seq<u8>, p: int) -> EndOfCentralDirectoryHeader { par_eocdr(nxt(d, p, 18)) }
/// a ZIP64 locator (4 + 16 bytes) directly precedes the end record
pub open spec fn has_z64(d: Seq<u8>, p: int) -> bool { p >= 24 && at4(d, p - 24) == 0x07064b50 }
pub open spec fn z64_at(d: Seq<u8>, p: int) -> int { par_eocdl64(nxt(d, p - 20, 16)).relative_offset + 4 }
pub open spec fn end_of(d: Seq<u8>, p: int) -> EndV {
    if has_z64(d, p) { z64_end(end_h(d, p), par_eocdr64(nxt(d, z64_at(d, p), 52))) } else { plain_end(end_h(d, p)) }
}
pub open spec fn spanned(e: EndV) -> bool { e.disk != e.cd_disk || e.n != e.n_disk }
/// the end records can be read
pub open spec fn end_ok(d: Seq<u8>, p: int) -> bool {
    18 <= avail(d, p) && (has_z64(d, p) ==> z64_at(d, p) <= u64::MAX && 52 <= avail(d, z64_at(d, p)))
}
pub open spec fn file_ok(d: Seq<u8>, p: int) -> bool {
    end_ok(d, p) && !spanned(end_of(d, p)) && forall|i: nat| i < end_of(d, p).n ==> #[trigger] cdr_ok(d, cd_pos(d, end_of(d, p).off as int, i))
}
/// e is record number i
pub open spec fn cd_rec(d: Seq<u8>, p: int, i: int, e: StoredZipEntry) -> bool { cdr_ok(d, cd_pos(d, p, i as nat)) && cdr_is(d, cd_pos(d, p, i as nat), e) }
pub open spec fn cd_is(d: Seq<u8>, p: int, n: int, es: Seq<StoredZipEntry>) -> bool {
    es.len() == n && forall|i: int| 0 <= i < n ==> cd_rec(d, p, i, #[trigger] es[i])
}
pub open spec fn file_is(d: Seq<u8>, p: int, f: ZipFile) -> bool {
    end_ok(d, p) && !spanned(end_of(d, p)) && f.zip64 == has_z64(d, p) && cd_is(d, end_of(d, p).off as int, end_of(d, p).n as int, f.entries@)
        && zv(f.comment) == dec_plain(tk(d, p + 18, end_h(d, p).file_comm_length as int)) && zs_ok(f.comment)
}
/// memory set aside on account of a length or count that the input claims: at most 65,536 elements
#[verifier::external_body]
pub fn vx_with_capacity_bounded<T>(n: usize) -> (r: Vec<T>) requires n <= 0x10000 ensures r@ == Seq::<T>::empty() { Vec::with_capacity(n) }
/// where the data of the entry whose local header is at p start: by that header's own lengths
pub open spec fn data_off(d: Seq<u8>, p: int) -> int { p + 30 + lfh_h(d, p).file_name_length + lfh_h(d, p).extra_field_length }
/// a data descriptor takes 12 bytes, or 16 with the optional signature
pub open spec fn dd_len(d: Seq<u8>, p: int) -> int { if 4 <= avail(d, p) && at4(d, p) == 0x08074b50 { 16 } else { 12 } }
pub proof fn lemma_sig4(s: Seq<u8>, x: u32)
    requires s.len() == 4
    ensures (s == le4(x)) == (un4(s) == x)
{
    let (a, b, c, d) = (s[0], s[1], s[2], s[3]);
    assert((((x & 0xff) as u8) as u32) | (((((x >> 8) & 0xff) as u8) as u32) << 8) | (((((x >> 16) & 0xff) as u8) as u32) << 16)
        | ((((x >> 24) as u8) as u32) << 24) == x) by (bit_vector);
    let v = (a as u32) | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24);
    assert((v & 0xff) as u8 == a && ((v >> 8) & 0xff) as u8 == b && ((v >> 16) & 0xff) as u8 == c && (v >> 24) as u8 == d) by (bit_vector)
        requires v == (a as u32) | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24);
    if un4(s) == x { assert(s =~= le4(x)); }
}
/// what a complete stream of a method decodes to, and how long it is; both are left to the codec
pub uninterp spec fn decoded(m: Compression, s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn stream_len(m: Compression, s: Seq<u8>) -> int;
pub open spec fn payload(m: Compression, w: Seq<u8>) -> Seq<u8> { if m is Stored { w } else { decoded(m, w) } }
/// how much of its window an entry reader consumes (Deflate64Decoder reads ahead: known finding)
pub open spec fn used(m: Compression, w: Seq<u8>) -> int { if m is Stored { w.len() as int } else { stream_len(m, w) } }
