# the seeking reader
@fn ZipFileReader::new@seek [unit=rdseek,file=base/read/seek.rs,noauto]
@kinds
@contract
    requires reader.pos() >= 0, reader.data().len() <= u64::MAX,
    ensures
        r matches Ok(z) ==> z.reader.data() == reader.data() && z.reader.nofail() == reader.nofail() && z.reader.pos() >= 0
            && exists|p: int| is_eocdr(reader.data(), p) && file_is(reader.data(), p, z.file),
        r matches Err(e) ==> reader.nofail() ==> {
            ||| e is UnableToLocateEOCDR && forall|q: int| q >= reader.data().len() - 65557 ==> !occurs(reader.data(), eocdr_sig(), q)
            ||| exists|p: int| is_eocdr(reader.data(), p) && !file_ok(reader.data(), p)
        },
@end
@fn ZipFileReader::from_raw_parts@seek [unit=rdseek,file=base/read/seek.rs]
@kinds
@contract
    ensures r.reader == reader, r.file == file,
@end
@fn ZipFileReader::file@seek [unit=rdseek,file=base/read/seek.rs,noauto]
@kinds
@contract
    ensures *r == self.file,
@end
@fn ZipFileReader::into_inner@seek [unit=rdseek,file=base/read/seek.rs,noauto]
@kinds
@contract
    ensures r == self.reader,
@end
@fn ZipFileReader::reader_without_entry@seek [unit=rdseek,file=base/read/seek.rs]
@kinds
@contract
    requires old(self).reader.pos() >= 0,
    ensures
        r matches Ok(z) ==> index < old(self).file.entries@.len() && entry_at(old(self).reader.data(), old(self).file.entries@[index as int]) && zr_entry(z, old(self).reader.data(), old(self).file.entries@[index as int], false),
        index >= old(self).file.entries@.len() ==> (r matches Err(e) && e is EntryIndexOutOfBounds),
        old(self).reader.nofail() && r is Err ==> index >= old(self).file.entries@.len() || !entry_at(old(self).reader.data(), old(self).file.entries@[index as int])
            || data_off(old(self).reader.data(), old(self).file.entries@[index as int].file_offset as int) > u64::MAX,
        final(self).file == old(self).file,
@end
@fn ZipFileReader::reader_with_entry@seek [unit=rdseek,file=base/read/seek.rs]
@kinds
@map into_with_entry(stored_entry) => into_with_entry(stored_entry.deref())
@need <StoredZipEntry as Deref>::deref
@contract
    requires old(self).reader.pos() >= 0,
    ensures
        r matches Ok(z) ==> index < old(self).file.entries@.len() && entry_at(old(self).reader.data(), old(self).file.entries@[index as int]) && zr_entry(z, old(self).reader.data(), old(self).file.entries@[index as int], false) && oentry(z.entry.0) == old(self).file.entries@[index as int].entry,
        index >= old(self).file.entries@.len() ==> (r matches Err(e) && e is EntryIndexOutOfBounds),
        old(self).reader.nofail() && r is Err ==> index >= old(self).file.entries@.len() || !entry_at(old(self).reader.data(), old(self).file.entries@[index as int])
            || data_off(old(self).reader.data(), old(self).file.entries@[index as int].file_offset as int) > u64::MAX,
        final(self).file == old(self).file,
@end
@fn ZipFileReader::into_entry@seek [unit=rdseek,file=base/read/seek.rs]
@kinds
@contract
    requires self.reader.pos() >= 0,
    ensures
        r matches Ok(z) ==> index < self.file.entries@.len() && entry_at(self.reader.data(), self.file.entries@[index as int]) && zr_entry(z, self.reader.data(), self.file.entries@[index as int], true),
        index >= self.file.entries@.len() ==> (r matches Err(e) && e is EntryIndexOutOfBounds),
        self.reader.nofail() && r is Err ==> index >= self.file.entries@.len() || !entry_at(self.reader.data(), self.file.entries@[index as int])
            || data_off(self.reader.data(), self.file.entries@[index as int].file_offset as int) > u64::MAX,
@end
