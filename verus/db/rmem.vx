# the in-memory reader
@fn ZipFileReader::new@mem [unit=rdmem,file=base/read/mem.rs,noauto]
@kinds
@map file(Cursor::new(&data)) => file(&mut Cursor::new(&data))
@contract
    ensures
        r matches Ok(z) ==> z.inner.data@ == data@ && exists|p: int| is_eocdr(data@, p) && file_is(data@, p, z.inner.file),
        r matches Err(e) ==> {
            ||| e is UnableToLocateEOCDR && forall|q: int| q >= data@.len() - 65557 ==> !occurs(data@, eocdr_sig(), q)
            ||| exists|p: int| is_eocdr(data@, p) && !file_ok(data@, p)
        },
@end
@fn ZipFileReader::from_raw_parts@mem [unit=rdmem,file=base/read/mem.rs]
@kinds
@contract
    ensures r.inner.data@ == data@, r.inner.file == file,
@end
@fn ZipFileReader::file@mem [unit=rdmem,file=base/read/mem.rs,noauto]
@kinds
@contract
    ensures *r == self.inner.file,
@end
@fn ZipFileReader::data@mem [unit=rdmem,file=base/read/mem.rs,noauto]
@kinds
@contract
    ensures r@ == self.inner.data@,
@end
@fn ZipFileReader::reader_without_entry@mem [unit=rdmem,file=base/read/mem.rs]
@kinds
@contract
    ensures
        r matches Ok(z) ==> index < self.inner.file.entries@.len() && entry_at(self.inner.data@, self.inner.file.entries@[index as int]) && zr_entry(z, self.inner.data@, self.inner.file.entries@[index as int], true),
        index >= self.inner.file.entries@.len() ==> (r matches Err(e) && e is EntryIndexOutOfBounds),
        r is Err ==> index >= self.inner.file.entries@.len() || !entry_at(self.inner.data@, self.inner.file.entries@[index as int])
            || data_off(self.inner.data@, self.inner.file.entries@[index as int].file_offset as int) > u64::MAX,
@end
@fn ZipFileReader::reader_with_entry@mem [unit=rdmem,file=base/read/mem.rs]
@kinds
@map into_with_entry(stored_entry) => into_with_entry(stored_entry.deref())
@need <StoredZipEntry as Deref>::deref
@contract
    ensures
        r matches Ok(z) ==> index < self.inner.file.entries@.len() && entry_at(self.inner.data@, self.inner.file.entries@[index as int]) && zr_entry(z, self.inner.data@, self.inner.file.entries@[index as int], true) && oentry(z.entry.0) == self.inner.file.entries@[index as int].entry,
        index >= self.inner.file.entries@.len() ==> (r matches Err(e) && e is EntryIndexOutOfBounds),
        r is Err ==> index >= self.inner.file.entries@.len() || !entry_at(self.inner.data@, self.inner.file.entries@[index as int])
            || data_off(self.inner.data@, self.inner.file.entries@[index as int].file_offset as int) > u64::MAX,
@end
