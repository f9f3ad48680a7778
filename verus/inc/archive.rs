// The archive writer: what a record of an entry is.
pub enum CowBytes<'a> { Borrowed(&'a [u8]), Owned(Vec<u8>) }
impl<'a> CowBytes<'a> {
    pub open spec fn cv(&self) -> Seq<u8> { match *self { CowBytes::Borrowed(b) => b@, CowBytes::Owned(v) => v@ } }
    pub fn len(&self) -> (r: usize) ensures r == self.cv().len() { match self { CowBytes::Borrowed(b) => b.len(), CowBytes::Owned(v) => v.len() } }
    pub fn vx_as_ref(&self) -> (r: &[u8]) ensures r@ == self.cv() { match self { CowBytes::Borrowed(b) => b, CowBytes::Owned(v) => v.as_slice() } }
}
// futures_lite::io::Cursor over an empty vector: every byte written goes to the end, and writing never fails
pub struct Cursor<T> { v: T }
impl Cursor<Vec<u8>> {
    pub closed spec fn cv(&self) -> Seq<u8> { self.v@ }
    pub fn new(v: Vec<u8>) -> (r: Self) requires v@.len() == 0 ensures r.cv() == Seq::<u8>::empty() { let r = Cursor { v }; assert(r.cv() =~= Seq::<u8>::empty()); r }
    pub fn into_inner(self) -> (r: Vec<u8>) ensures r@ == self.cv() { self.v }
}
impl AsyncWrite for Cursor<Vec<u8>> {
    open spec fn acc(&self) -> Seq<u8> { self.cv() }
    open spec fn sunk(&self) -> Seq<u8> { self.cv() }
    open spec fn fx(&self) -> WFix { WFix { base: 0, below: 0, start: Seq::empty(), keeps: true, sure: true } }
    open spec fn winv(&self) -> bool { true }
    open spec fn opn(&self) -> bool { true }
    open spec fn fin(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn kin(&self, o: &Self) -> bool { true }
    proof fn kin_refl(&self) { }
    proof fn kin_trans(&self, b: &Self, c: &Self) { }
    #[verifier::external_body] fn poll_write(&mut self, cx: &mut Context, buf: &[u8]) -> (r: Poll<IoResult<usize>>) { unimplemented!() }
    #[verifier::external_body] fn poll_flush(&mut self, cx: &mut Context) -> (r: Poll<IoResult<()>>) { unimplemented!() }
    #[verifier::external_body] fn poll_close(&mut self, cx: &mut Context) -> (r: Poll<IoResult<()>>) { unimplemented!() }
}
pub open spec fn m32() -> u64 { 0xffff_ffff }
/// the bytes of a name or comment that go into its field: the alternative if there is one
pub open spec fn basic(s: ZS) -> Seq<u8> { match s.alt { Some(a) => a, None => s.raw } }
pub open spec fn plain(s: ZS) -> bool { s.utf8 && s.alt is None }
/// the UTF-8 flag of an entry: neither name nor comment needs an alternative
pub open spec fn flag8(name: ZS, comment: ZS) -> bool { plain(name) && plain(comment) }
/// the fields without ZIP64 ones
pub open spec fn no_z64(s: Seq<XF>) -> Seq<XF> { s.filter(|x: XF| !(x is Zip64)) }
/// a text that is UTF-8 and not empty gets a Unicode field over the bytes of its own field, when the flag is not set
pub open spec fn uni_name(xs: Seq<XF>, name: ZS) -> Seq<XF> {
    if name.utf8 && name.raw.len() > 0 { set_uni(xs, true, XF::Path { version: 1, crc: crc_of(basic(name)), bytes: name.raw }) } else { xs }
}
pub open spec fn uni_comment(xs: Seq<XF>, comment: ZS) -> Seq<XF> {
    if comment.utf8 && comment.raw.len() > 0 { set_uni(xs, false, XF::Comment { version: 1, crc: crc_of(basic(comment)), bytes: comment.raw }) } else { xs }
}
pub open spec fn uni(xs: Seq<XF>, name: ZS, comment: ZS) -> Seq<XF> { if flag8(name, comment) { xs } else { uni_comment(uni_name(xs, name), comment) } }

/// Which values of a whole entry go into a ZIP64 field: a size or an offset that does not fit 32 bits; and, beside such a
/// value, one that is all ones already, as it would be taken for a reference to the field.
pub open spec fn big_sizes(us: u64, cs: u64, off: u64) -> bool { us > m32() || cs > m32() || (off > m32() && (us == m32() || cs == m32())) }
pub open spec fn big_off(us: u64, cs: u64, off: u64) -> bool { off > m32() || (off == m32() && big_sizes(us, cs, off)) }
pub open spec fn z64_field(us: u64, cs: u64, off: u64) -> XF {
    XF::Zip64 {
        id: 1, us: if big_sizes(us, cs, off) { Some(us) } else { None }, cs: if big_sizes(us, cs, off) { Some(cs) } else { None },
        off: if big_off(us, cs, off) { Some(off) } else { None }, disk: None,
    }
}
/// the fields of the local and of the directory record of a whole entry
pub open spec fn local_xs(xs: Seq<XF>, name: ZS, comment: ZS, us: u64, cs: u64, off: u64) -> Seq<XF> {
    uni(if big_sizes(us, cs, off) { no_z64(xs).push(z64_field(us, cs, off)) } else { no_z64(xs) }, name, comment)
}
pub open spec fn dir_xs(xs: Seq<XF>, name: ZS, comment: ZS, us: u64, cs: u64, off: u64) -> Seq<XF> {
    if big_off(us, cs, off) && !big_sizes(us, cs, off) { local_xs(xs, name, comment, us, cs, off).push(z64_field(us, cs, off)) } else { local_xs(xs, name, comment, us, cs, off) }
}
pub open spec fn lfh_whole(e: ZipEntry, us: u64, cs: u64, off: u64, crc: u32) -> LocalFileHeader {
    let (name, comment) = (zv(e.filename), zv(e.comment));
    LocalFileHeader {
        version: needed(e.compression, is_dir(name)),
        flags: GeneralPurposeFlag { encrypted: false, data_descriptor: false, filename_unicode: flag8(name, comment) },
        compression: method_id(e.compression), mod_time: e.last_modification_date.time, mod_date: e.last_modification_date.date, crc,
        compressed_size: if big_sizes(us, cs, off) { 0xffff_ffff } else { cs as u32 },
        uncompressed_size: if big_sizes(us, cs, off) { 0xffff_ffff } else { us as u32 },
        file_name_length: basic(name).len() as u16,
        extra_field_length: ser_xfs(local_xs(xvs(e.extra_fields@), name, comment, us, cs, off)).len() as u16,
    }
}
/// the directory record that agrees with a local header
pub open spec fn cdr_like(l: LocalFileHeader, e: ZipEntry, us: u32, cs: u32, xlen: int, off: u32) -> CentralDirectoryRecord {
    CentralDirectoryRecord {
        v_made_by: made_by(), v_needed: l.version, flags: l.flags, compression: l.compression, mod_time: l.mod_time, mod_date: l.mod_date, crc: l.crc,
        compressed_size: cs, uncompressed_size: us, file_name_length: l.file_name_length, extra_field_length: xlen as u16,
        file_comment_length: basic(zv(e.comment)).len() as u16, disk_start: 0, inter_attr: e.internal_file_attribute,
        exter_attr: e.external_file_attribute, lh_offset: off,
    }
}
pub open spec fn cdr_whole(e: ZipEntry, us: u64, cs: u64, off: u64, crc: u32) -> CentralDirectoryRecord {
    let l = lfh_whole(e, us, cs, off, crc);
    cdr_like(l, e, l.uncompressed_size, l.compressed_size, ser_xfs(dir_xs(xvs(e.extra_fields@), zv(e.filename), zv(e.comment), us, cs, off)).len() as int,
        if big_off(us, cs, off) { 0xffff_ffff } else { off as u32 })
}
pub open spec fn local_bytes(l: LocalFileHeader, e: ZipEntry, lxs: Seq<XF>) -> Seq<u8> {
    le4(0x04034b50) + ser_lfh(l) + basic(zv(e.filename)) + ser_xfs(lxs)
}
/// what closing needs of a recorded entry: each announced length is that of the item
pub open spec fn cde_ok(c: CentralDirectoryEntry) -> bool {
    &&& xfs_fit(xvs(c.entry.extra_fields@)) && xfs_nodisk(xvs(c.entry.extra_fields@))
    &&& c.header.extra_field_length == ser_xfs(xvs(c.entry.extra_fields@)).len()
    &&& c.header.file_name_length == basic(zv(c.entry.filename)).len()
    &&& c.header.file_comment_length == basic(zv(c.entry.comment)).len()
}
pub open spec fn zw_ok<W: AsyncWrite>(z: ZipFileWriter<W>) -> bool {
    z.writer.winv() && forall|i: int| 0 <= i < z.cd_entries@.len() ==> cde_ok(#[trigger] z.cd_entries@[i])
}
/// what no writing of an entry changes
#[verifier::prophetic]
pub open spec fn zw_same<W: AsyncWrite>(a: ZipFileWriter<W>, b: ZipFileWriter<W>) -> bool {
    &&& a.writer.kin(&b.writer) && b.writer.fx() == a.writer.fx() && b.writer.opn() == a.writer.opn()
    &&& b.force_no_zip64 == a.force_no_zip64 && b.comment_opt == a.comment_opt && (a.is_zip64 ==> b.is_zip64)
}
/// every piece of an entry fits in memory at once
pub open spec fn e_room(e: ZipEntry) -> bool {
    ser_xfs(xvs(e.extra_fields@)).len() + zv(e.filename).raw.len() + zv(e.comment).raw.len() + basic(zv(e.filename)).len() + basic(zv(e.comment)).len() + 100 <= usize::MAX
}
/// the entry's own fields, apart from ZIP64 ones, are such as can be written
pub open spec fn e_can(e: ZipEntry) -> bool { zs_ok(e.filename) && zs_ok(e.comment) && e_room(e) }
/// e with other fields, sizes and checksum
pub open spec fn e_keeps(a: ZipEntry, b: ZipEntry) -> bool {
    b == (ZipEntry { extra_fields: b.extra_fields, crc32: b.crc32, uncompressed_size: b.uncompressed_size, compressed_size: b.compressed_size, ..a })
}
// ---- lemmas ------------------------------------------------------------------------------------------------------------
pub proof fn lemma_no_z64_remove(s: Seq<XF>, i: int)
    requires 0 <= i < s.len(), s[i] is Zip64
    ensures no_z64(s.remove(i)) == no_z64(s)
{
    let p = |x: XF| !(x is Zip64);
    let (a, b) = (s.take(i), s.skip(i + 1));
    assert(s =~= a + (seq![s[i]] + b));
    assert(s.remove(i) =~= a + b);
    Seq::filter_distributes_over_add(a, seq![s[i]] + b, p);
    Seq::filter_distributes_over_add(seq![s[i]], b, p);
    Seq::filter_distributes_over_add(a, b, p);
    reveal_with_fuel(Seq::filter, 3);
    assert(seq![s[i]].drop_last() =~= Seq::<XF>::empty());
    assert(seq![s[i]].filter(p) =~= Seq::<XF>::empty());
    assert(seq![s[i]].filter(p) + b.filter(p) =~= b.filter(p));
}
pub proof fn lemma_no_z64_none(s: Seq<XF>)
    requires forall|k: int| 0 <= k < s.len() ==> !(#[trigger] s[k] is Zip64)
    ensures no_z64(s) == s
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert forall|k: int| 0 <= k < s.len() - 1 implies !(#[trigger] s.drop_last()[k] is Zip64) by { assert(s.drop_last()[k] == s[k]); }
        lemma_no_z64_none(s.drop_last());
        assert(s.drop_last().push(s.last()) =~= s);
    } else { assert(no_z64(s) =~= s); }
}
/// leaving fields out makes the bytes no longer, and there is no ZIP64 field left
pub proof fn lemma_drop_z64(s: Seq<XF>)
    ensures ser_xfs(no_z64(s)).len() <= ser_xfs(s).len(), forall|k: int| 0 <= k < no_z64(s).len() ==> !(#[trigger] no_z64(s)[k] is Zip64)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        lemma_drop_z64(s.drop_last());
        if !(s.last() is Zip64) { assert(no_z64(s).drop_last() =~= no_z64(s.drop_last())); }
    }
}
pub proof fn lemma_ser_push(s: Seq<XF>, x: XF) ensures ser_xfs(s.push(x)) == ser_xfs(s) + ser_xf(x), ser_xf(x).len() == 4 + xf_content(x).len()
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_ser_update(s: Seq<XF>, i: int, x: XF)
    requires 0 <= i < s.len()
    ensures ser_xfs(s.update(i, x)).len() == ser_xfs(s).len() - ser_xf(s[i]).len() + ser_xf(x).len(), ser_xfs(s).len() >= ser_xf(s[i]).len()
    decreases s.len()
{
    let u = s.update(i, x);
    if i == s.len() - 1 { assert(u.drop_last() =~= s.drop_last()); }
    else { assert(u.drop_last() =~= s.drop_last().update(i, x)); lemma_ser_update(s.drop_last(), i, x); }
}
pub proof fn lemma_set_uni(s: Seq<XF>, path: bool, x: XF)
    requires xfs_nodisk(s), xf_nodisk(x)
    ensures xfs_nodisk(set_uni(s, path, x)), ser_xfs(set_uni(s, path, x)).len() <= ser_xfs(s).len() + ser_xf(x).len()
{
    let i = find_uni(s, path);
    lemma_find_uni_range(s, path);
    if i < s.len() { lemma_ser_update(s, i, x); } else { lemma_ser_push(s, x); }
}
pub proof fn lemma_uni(xs: Seq<XF>, name: ZS, comment: ZS)
    requires xfs_nodisk(xs)
    ensures xfs_nodisk(uni(xs, name, comment)), ser_xfs(uni(xs, name, comment)).len() <= ser_xfs(xs).len() + name.raw.len() + comment.raw.len() + 18
{
    lemma_set_uni(xs, true, XF::Path { version: 1, crc: crc_of(basic(name)), bytes: name.raw });
    let a = uni_name(xs, name);
    lemma_set_uni(a, false, XF::Comment { version: 1, crc: crc_of(basic(comment)), bytes: comment.raw });
}
pub proof fn lemma_fit(s: Seq<XF>)
    requires ser_xfs(s).len() <= 0xffff
    ensures xfs_fit(s)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_fit(s.drop_last());
        assert forall|k: int| 0 <= k < s.len() implies xf_fits(#[trigger] s[k]) by {
            if k < s.len() - 1 { assert(s.drop_last()[k] == s[k]); }
        }
    }
}
pub proof fn lemma_whole_xs(e: ZipEntry, us: u64, cs: u64, off: u64)
    requires e_room(e)
    ensures ({
        let (xs, name, comment) = (xvs(e.extra_fields@), zv(e.filename), zv(e.comment));
        let (l, d) = (local_xs(xs, name, comment, us, cs, off), dir_xs(xs, name, comment, us, cs, off));
        &&& xfs_nodisk(l) && xfs_nodisk(d) && xfs_nodisk(no_z64(xs)) && xfs_nodisk(no_z64(xs).push(z64_field(us, cs, off)))
        &&& ser_xfs(l).len() <= usize::MAX && ser_xfs(d).len() <= usize::MAX
        &&& (ser_xfs(l).len() <= 0xffff ==> xfs_fit(l)) && (ser_xfs(d).len() <= 0xffff ==> xfs_fit(d))
    })
{
    let (xs, name, comment) = (xvs(e.extra_fields@), zv(e.filename), zv(e.comment));
    let z = z64_field(us, cs, off);
    lemma_drop_z64(xs);
    lemma_ser_push(no_z64(xs), z);
    let a = if big_sizes(us, cs, off) { no_z64(xs).push(z) } else { no_z64(xs) };
    assert(xfs_nodisk(a));
    lemma_uni(a, name, comment);
    let l = local_xs(xs, name, comment, us, cs, off);
    lemma_ser_push(l, z);
    if ser_xfs(l).len() <= 0xffff { lemma_fit(l); }
    let d = dir_xs(xs, name, comment, us, cs, off);
    if ser_xfs(d).len() <= 0xffff { lemma_fit(d); }
}
pub proof fn lemma_xvs_push(s: Seq<ExtraField>, f: ExtraField) ensures xvs(s.push(f)) == xvs(s).push(xv(f)) { assert(xvs(s.push(f)) =~= xvs(s).push(xv(f))); }
pub proof fn lemma_local_xs(xs: Seq<XF>, name: ZS, comment: ZS, us: u64, cs: u64, off: u64)
    ensures
        local_xs(xs, name, comment, us, cs, off) == uni(if big_sizes(us, cs, off) { no_z64(xs).push(z64_field(us, cs, off)) } else { no_z64(xs) }, name, comment),
        dir_xs(xs, name, comment, us, cs, off) == (if big_off(us, cs, off) && !big_sizes(us, cs, off) { local_xs(xs, name, comment, us, cs, off).push(z64_field(us, cs, off)) } else { local_xs(xs, name, comment, us, cs, off) }),
{ }
pub proof fn lemma_lfh_whole(e: ZipEntry, us: u64, cs: u64, off: u64, crc: u32, l: LocalFileHeader)
    requires
        l.version == needed(e.compression, is_dir(zv(e.filename))),
        l.flags == (GeneralPurposeFlag { encrypted: false, data_descriptor: false, filename_unicode: flag8(zv(e.filename), zv(e.comment)) }),
        l.compression == method_id(e.compression), l.mod_time == e.last_modification_date.time, l.mod_date == e.last_modification_date.date, l.crc == crc,
        l.compressed_size == (if big_sizes(us, cs, off) { 0xffff_ffffu32 } else { cs as u32 }),
        l.uncompressed_size == (if big_sizes(us, cs, off) { 0xffff_ffffu32 } else { us as u32 }),
        l.file_name_length == basic(zv(e.filename)).len() as u16,
        l.extra_field_length == ser_xfs(local_xs(xvs(e.extra_fields@), zv(e.filename), zv(e.comment), us, cs, off)).len() as u16,
    ensures l == lfh_whole(e, us, cs, off, crc)
{ }
pub proof fn lemma_cdr_whole(e: ZipEntry, us: u64, cs: u64, off: u64, crc: u32, h: CentralDirectoryRecord)
    requires ({
        let l = lfh_whole(e, us, cs, off, crc);
        &&& h.v_made_by == made_by() && h.v_needed == l.version && h.flags == l.flags && h.compression == l.compression && h.mod_time == l.mod_time && h.mod_date == l.mod_date
        &&& h.crc == l.crc && h.compressed_size == l.compressed_size && h.uncompressed_size == l.uncompressed_size && h.file_name_length == l.file_name_length
        &&& h.extra_field_length == ser_xfs(dir_xs(xvs(e.extra_fields@), zv(e.filename), zv(e.comment), us, cs, off)).len() as u16
        &&& h.file_comment_length == basic(zv(e.comment)).len() as u16 && h.disk_start == 0 && h.inter_attr == e.internal_file_attribute && h.exter_attr == e.external_file_attribute
        &&& h.lh_offset == (if big_off(us, cs, off) { 0xffff_ffffu32 } else { off as u32 })
    })
    ensures
        h == cdr_whole(e, us, cs, off, crc), h.file_name_length == basic(zv(e.filename)).len() as u16, h.file_comment_length == basic(zv(e.comment)).len() as u16,
        h.extra_field_length == ser_xfs(dir_xs(xvs(e.extra_fields@), zv(e.filename), zv(e.comment), us, cs, off)).len() as u16,
{ }
pub proof fn lemma_local_bytes(a: Seq<u8>, l: LocalFileHeader, e: ZipEntry, lxs: Seq<XF>, d: Seq<u8>)
    ensures a + le4(0x04034b50) + ser_lfh(l) + basic(zv(e.filename)) + ser_xfs(lxs) + d == a + (local_bytes(l, e, lxs) + d)
{ assert(a + le4(0x04034b50) + ser_lfh(l) + basic(zv(e.filename)) + ser_xfs(lxs) + d =~= a + (local_bytes(l, e, lxs) + d)); }
/// names a witness
pub open spec fn wit<T>(t: T) -> bool { true }
// ---- what writing a whole entry does -----------------------------------------------------------------------------------
pub open spec fn whole_stored(m: Compression, pre: bool, d: Seq<u8>, data: Seq<u8>) -> bool { if pre || m is Stored { d == data } else { is_stream(m, d, data) } }
pub open spec fn whole_big(us: u64, cs: u64, off: u64) -> bool { big_sizes(us, cs, off) || big_off(us, cs, off) }
pub open spec fn whole_fits(e: ZipEntry, us: u64, cs: u64, off: u64) -> bool {
    &&& ser_xfs(local_xs(xvs(e.extra_fields@), zv(e.filename), zv(e.comment), us, cs, off)).len() <= 0xffff
    &&& basic(zv(e.filename)).len() <= 0xffff && basic(zv(e.comment)).len() <= 0xffff
}
pub open spec fn whole_rec(e: ZipEntry, us: u64, crc: u32, cs: u64, off: u64, c: CentralDirectoryEntry) -> bool {
    &&& c.header == cdr_whole(e, us, cs, off, crc) && e_keeps(e, c.entry)
    &&& xvs(c.entry.extra_fields@) == dir_xs(xvs(e.extra_fields@), zv(e.filename), zv(e.comment), us, cs, off)
}
/// an entry of d (the stored form), us bytes long when extracted, has been written and recorded
pub open spec fn whole_ok<W: AsyncWrite>(a: ZipFileWriter<W>, b: ZipFileWriter<W>, e: ZipEntry, us: u64, crc: u32, d: Seq<u8>) -> bool {
    let (cs, off) = (d.len() as u64, a.writer.offset);
    &&& whole_fits(e, us, cs, off)
    &&& a.force_no_zip64 ==> !whole_big(us, cs, off) && a.cd_entries@.len() < 0xffff
    &&& b.is_zip64 == (a.is_zip64 || whole_big(us, cs, off) || a.cd_entries@.len() >= 0xffff)
    &&& b.writer.acc() == a.writer.acc()
        + (local_bytes(lfh_whole(e, us, cs, off, crc), e, local_xs(xvs(e.extra_fields@), zv(e.filename), zv(e.comment), us, cs, off)) + d)
    &&& b.cd_entries@.len() == a.cd_entries@.len() + 1 && b.cd_entries@.drop_last() == a.cd_entries@ && whole_rec(e, us, crc, cs, off, b.cd_entries@.last())
}
/// it has not: nothing is recorded; if its size, its position or its texts cannot be represented, nothing is written either
pub open spec fn whole_err<W: AsyncWrite>(a: ZipFileWriter<W>, b: ZipFileWriter<W>, e: ZipEntry, us: u64, d: Seq<u8>, x: ZipError) -> bool {
    let (cs, off) = (d.len() as u64, a.writer.offset);
    &&& b.cd_entries@ == a.cd_entries@ && grown(a.writer.acc(), b.writer.acc())
    &&& (a.force_no_zip64 && whole_big(us, cs, off) || !whole_fits(e, us, cs, off)) ==> b.writer.acc() == a.writer.acc()
    &&& a.force_no_zip64 && whole_big(us, cs, off) ==> x == ZipError::Zip64Needed(Zip64ErrorCase::LargeFile)
    // the error names what cannot be represented
    &&& !(a.force_no_zip64 && whole_big(us, cs, off)) ==> {
        let l = ser_xfs(local_xs(xvs(e.extra_fields@), zv(e.filename), zv(e.comment), us, cs, off)).len();
        let (n, c) = (basic(zv(e.filename)).len(), basic(zv(e.comment)).len());
        &&& l > 0xffff ==> x is ExtraFieldTooLarge
        &&& l <= 0xffff && n > 0xffff ==> x is FileNameTooLarge
        &&& l <= 0xffff && n <= 0xffff && c > 0xffff ==> x is CommentTooLarge
        &&& l <= 0xffff && n <= 0xffff && c <= 0xffff && a.force_no_zip64 && a.cd_entries@.len() >= 0xffff && !(x is UpstreamReadError) ==> x == ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles)
    }
    &&& a.writer.fx().sure ==> (a.force_no_zip64 && (whole_big(us, cs, off) || a.cd_entries@.len() >= 0xffff)) || !whole_fits(e, us, cs, off)
        || ser_xfs(dir_xs(xvs(e.extra_fields@), zv(e.filename), zv(e.comment), us, cs, off)).len() > 0xffff
}
#[verifier::prophetic]
pub open spec fn whole_post<W: AsyncWrite>(a: ZipFileWriter<W>, b: ZipFileWriter<W>, e: ZipEntry, pre: bool, data: Seq<u8>, d: Seq<u8>, r: ZResult<()>) -> bool {
    let (us, crc) = if pre { (e.uncompressed_size, e.crc32) } else { (data.len() as u64, crc_of(data)) };
    &&& zw_ok(b) && zw_same(a, b) && whole_stored(e.compression, pre, d, data) && d.len() <= usize::MAX
    &&& match r { Ok(_) => whole_ok(a, b, e, us, crc, d), Err(x) => whole_err(a, b, e, us, d, x) }
}
