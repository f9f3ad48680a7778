// Random-access readers.
/// a local header lies where the entry says
pub open spec fn entry_at(d: Seq<u8>, e: StoredZipEntry) -> bool { 30 <= avail(d, e.file_offset as int) && at4(d, e.file_offset as int) == 0x04034b50 }
/// z reads exactly the data of e: the bytes behind its local header, as many as its directory record says, by its method
pub open spec fn zr_entry<'a, R: AsyncBufRead, E>(z: ZipEntryReader<'a, R, E>, d: Seq<u8>, e: StoredZipEntry, owned: bool) -> bool {
    zr_at(z, d, data_off(d, e.file_offset as int), e.entry.compression, e.entry.compressed_size as int, owned)
}
