// Closing an archive.
pub trait IntoEntry: Sized {
    spec fn as_entry(self) -> ZipEntry;
    fn into(self) -> (r: ZipEntry) ensures r == self.as_entry();
}
impl IntoEntry for ZipEntry { open spec fn as_entry(self) -> ZipEntry { self } fn into(self) -> (r: ZipEntry) { self } }
impl IntoEntry for ZipEntryBuilder { open spec fn as_entry(self) -> ZipEntry { self.0 } fn into(self) -> (r: ZipEntry) { ZipEntryBuilder::build(self) } }
/// more entries than the plain end record can count are announced by ZIP64 records
pub open spec fn zw_inv<W: AsyncWrite>(z: ZipFileWriter<W>) -> bool { zw_ok(z) && (z.cd_entries@.len() > 0xffff ==> z.is_zip64) }
/// one record of the directory (4.3.12)
pub open spec fn ser_cde(c: CentralDirectoryEntry) -> Seq<u8> {
    le4(0x02014b50) + ser_cdr(c.header) + basic(zv(c.entry.filename)) + ser_xfs(xvs(c.entry.extra_fields@)) + basic(zv(c.entry.comment))
}
pub open spec fn ser_dir(s: Seq<CentralDirectoryEntry>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { ser_dir(s.drop_last()) + ser_cde(s.last()) }
}
pub open spec fn cap32(v: u64) -> u32 { if v > m32() { 0xffff_ffff } else { v as u32 } }
pub open spec fn cap16(v: int) -> u16 { if v > 0xffff { 0xffff } else { v as u16 } }
/// the end records (4.3.14, 4.3.15, 4.3.16)
pub open spec fn end64(n: int, start: u64, size: u64) -> Zip64EndOfCentralDirectoryRecord {
    Zip64EndOfCentralDirectoryRecord {
        size_of_zip64_end_of_cd_record: 44, version_made_by: made_by(), version_needed_to_extract: 46, disk_number: 0, disk_number_start_of_cd: 0,
        num_entries_in_directory_on_disk: n as u64, num_entries_in_directory: n as u64, directory_size: size, offset_of_start_of_directory: start,
    }
}
pub open spec fn loc64(at: u64) -> Zip64EndOfCentralDirectoryLocator {
    Zip64EndOfCentralDirectoryLocator { number_of_disk_with_start_of_zip64_end_of_central_directory: 0, relative_offset: at, total_number_of_disks: 1 }
}
pub open spec fn end32(n: int, start: u64, size: u64, clen: int) -> EndOfCentralDirectoryHeader {
    EndOfCentralDirectoryHeader {
        disk_num: 0, start_cent_dir_disk: 0, num_of_entries_disk: cap16(n), num_of_entries: cap16(n), size_cent_dir: cap32(size), cent_dir_offset: cap32(start),
        file_comm_length: clen as u16,
    }
}
pub open spec fn ser_ends(z64: bool, n: int, start: u64, size: u64, comment: Seq<u8>) -> Seq<u8> {
    (if z64 { le4(0x06064b50) + ser_eocdr64(end64(n, start, size)) + (le4(0x07064b50) + ser_eocdl64(loc64((start + size) as u64))) } else { Seq::<u8>::empty() })
        + (le4(0x06054b50) + ser_eocdr(end32(n, start, size, comment.len() as int)) + comment)
}
pub open spec fn z_comment<W: AsyncWrite>(z: ZipFileWriter<W>) -> Seq<u8> { match z.comment_opt { Some(c) => c.sv(), None => Seq::<u8>::empty() } }
pub open spec fn z_big<W: AsyncWrite>(z: ZipFileWriter<W>) -> bool { ser_dir(z.cd_entries@).len() > m32() || z.writer.offset > m32() }
#[verifier::prophetic]
pub open spec fn finish_post<W: AsyncWrite>(z: ZipFileWriter<W>, r: ZResult<W>) -> bool {
    let dir = ser_dir(z.cd_entries@);
    match r {
        Ok(w) => {
            &&& w.winv() && z.writer.inner.kin(&w) && (WFix { below: 0, ..w.fx() }) == (WFix { below: 0, ..z.writer.inner.fx() }) && w.opn() == z.writer.inner.opn()
            &&& z.writer.offset + dir.len() <= u64::MAX && z_comment(z).len() <= 0xffff && (z.force_no_zip64 ==> !z_big(z))
            &&& w.acc() == z.writer.acc() + (dir + ser_ends(z.is_zip64 || z_big(z), z.cd_entries@.len() as int, z.writer.offset, dir.len() as u64, z_comment(z)))
        },
        Err(x) => {
            ||| z_comment(z).len() > 0xffff && x is CommentTooLarge
            ||| z_comment(z).len() <= 0xffff && x is UpstreamReadError && !z.writer.fx().sure
            ||| z_comment(z).len() <= 0xffff && z.force_no_zip64 && z_big(z) && x == ZipError::Zip64Needed(Zip64ErrorCase::LargeFile)
        },
    }
}
pub proof fn lemma_dir_step(s: Seq<CentralDirectoryEntry>, i: int)
    requires 0 <= i < s.len()
    ensures ser_dir(s.take(i + 1)) == ser_dir(s.take(i)) + ser_cde(s[i])
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); }
pub proof fn lemma_cde_cat(a: Seq<u8>, d: Seq<u8>, c: CentralDirectoryEntry)
    ensures a + d + le4(0x02014b50) + ser_cdr(c.header) + basic(zv(c.entry.filename)) + ser_xfs(xvs(c.entry.extra_fields@)) + basic(zv(c.entry.comment)) == a + (d + ser_cde(c))
{
    assert(a + d + le4(0x02014b50) + ser_cdr(c.header) + basic(zv(c.entry.filename)) + ser_xfs(xvs(c.entry.extra_fields@)) + basic(zv(c.entry.comment)) =~= a + (d + ser_cde(c)));
}
pub proof fn lemma_z64_cat(a: Seq<u8>, n: int, start: u64, size: u64)
    ensures a + le4(0x06064b50) + ser_eocdr64(end64(n, start, size)) + le4(0x07064b50) + ser_eocdl64(loc64((start + size) as u64))
        == a + (le4(0x06064b50) + ser_eocdr64(end64(n, start, size)) + (le4(0x07064b50) + ser_eocdl64(loc64((start + size) as u64))))
{
    assert(a + le4(0x06064b50) + ser_eocdr64(end64(n, start, size)) + le4(0x07064b50) + ser_eocdl64(loc64((start + size) as u64))
        =~= a + (le4(0x06064b50) + ser_eocdr64(end64(n, start, size)) + (le4(0x07064b50) + ser_eocdl64(loc64((start + size) as u64)))));
}
pub proof fn lemma_end_cat(a: Seq<u8>, dir: Seq<u8>, z: Seq<u8>, e: Seq<u8>, c: Seq<u8>)
    ensures
        a + dir + z + le4(0x06054b50) + e + c == a + (dir + (z + (le4(0x06054b50) + e + c))),
        a + dir + z + le4(0x06054b50) + e == a + (dir + (z + (le4(0x06054b50) + e + Seq::<u8>::empty()))),
        a + dir == a + dir + Seq::<u8>::empty(),
{
    assert(a + dir + z + le4(0x06054b50) + e + c =~= a + (dir + (z + (le4(0x06054b50) + e + c))));
    assert(a + dir + z + le4(0x06054b50) + e =~= a + (dir + (z + (le4(0x06054b50) + e + Seq::<u8>::empty()))));
    assert(a + dir =~= a + dir + Seq::<u8>::empty());
}
