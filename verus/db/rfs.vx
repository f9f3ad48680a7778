# the file reader
@fn ZipFileReader::new@fs [unit=rdfs,file=tokio/read/fs.rs,noauto]
@kinds
@sigmap AsRef<Path> => VxAsPath
@map file( => file(&mut 
@contract
    ensures
        r matches Ok(z) ==> z.inner.path.vx_file() == path.vx_file() && exists|p: int| is_eocdr(path.vx_file(), p) && file_is(path.vx_file(), p, z.inner.file),
@end
@fn ZipFileReader::from_raw_parts@fs [unit=rdfs,file=tokio/read/fs.rs]
@kinds
@sigmap AsRef<Path> => VxAsPath
@contract
    ensures r.inner.path.vx_file() == path.vx_file(), r.inner.file == file,
@end
@fn ZipFileReader::file@fs [unit=rdfs,file=tokio/read/fs.rs,noauto]
@kinds
@contract
    ensures *r == self.inner.file,
@end
@fn ZipFileReader::reader_without_entry@fs [unit=rdfs,file=tokio/read/fs.rs]
@kinds
@contract
    ensures
        r matches Ok(z) ==> index < self.inner.file.entries@.len() && entry_at(self.inner.path.vx_file(), self.inner.file.entries@[index as int]) && zr_entry(z, self.inner.path.vx_file(), self.inner.file.entries@[index as int], true),
        index >= self.inner.file.entries@.len() ==> (r matches Err(e) && e is EntryIndexOutOfBounds),
        false && r is Err ==> index >= self.inner.file.entries@.len() || !entry_at(self.inner.path.vx_file(), self.inner.file.entries@[index as int])
            || data_off(self.inner.path.vx_file(), self.inner.file.entries@[index as int].file_offset as int) > u64::MAX,
@end
@fn ZipFileReader::reader_with_entry@fs [unit=rdfs,file=tokio/read/fs.rs]
@kinds
@map into_with_entry(stored_entry) => into_with_entry(stored_entry.deref())
@need <StoredZipEntry as Deref>::deref
@contract
    ensures
        r matches Ok(z) ==> index < self.inner.file.entries@.len() && entry_at(self.inner.path.vx_file(), self.inner.file.entries@[index as int]) && zr_entry(z, self.inner.path.vx_file(), self.inner.file.entries@[index as int], true) && oentry(z.entry.0) == self.inner.file.entries@[index as int].entry,
        index >= self.inner.file.entries@.len() ==> (r matches Err(e) && e is EntryIndexOutOfBounds),
        false && r is Err ==> index >= self.inner.file.entries@.len() || !entry_at(self.inner.path.vx_file(), self.inner.file.entries@[index as int])
            || data_off(self.inner.path.vx_file(), self.inner.file.entries@[index as int].file_offset as int) > u64::MAX,
@end
