// The record layouts of APPNOTE (4.3.7, 4.3.9, 4.3.12, 4.3.14, 4.3.15, 4.3.16), written independently of the code.
pub open spec fn flag_bits(f: GeneralPurposeFlag) -> u16 {
    (if f.encrypted { 1u16 } else { 0u16 }) | (if f.data_descriptor { 8u16 } else { 0u16 }) | (if f.filename_unicode { 0x800u16 } else { 0u16 })
}
pub open spec fn ser_flags(f: GeneralPurposeFlag) -> Seq<u8> { le2(flag_bits(f)) }
pub open spec fn par_flags(v: u16) -> GeneralPurposeFlag {
    GeneralPurposeFlag { encrypted: v & 1 != 0, data_descriptor: v & 8 != 0, filename_unicode: v & 0x800 != 0 }
}
pub open spec fn ser_lfh(h: LocalFileHeader) -> Seq<u8> {
    Seq::<u8>::empty() + le2(h.version) + ser_flags(h.flags) + le2(h.compression) + le2(h.mod_time) + le2(h.mod_date) + le4(h.crc)
        + le4(h.compressed_size) + le4(h.uncompressed_size) + le2(h.file_name_length) + le2(h.extra_field_length)
}
pub open spec fn ser_cdr(h: CentralDirectoryRecord) -> Seq<u8> {
    Seq::<u8>::empty() + le2(h.v_made_by) + le2(h.v_needed) + ser_flags(h.flags) + le2(h.compression) + le2(h.mod_time) + le2(h.mod_date)
        + le4(h.crc) + le4(h.compressed_size) + le4(h.uncompressed_size) + le2(h.file_name_length) + le2(h.extra_field_length)
        + le2(h.file_comment_length) + le2(h.disk_start) + le2(h.inter_attr) + le4(h.exter_attr) + le4(h.lh_offset)
}
pub open spec fn ser_eocdr(h: EndOfCentralDirectoryHeader) -> Seq<u8> {
    Seq::<u8>::empty() + le2(h.disk_num) + le2(h.start_cent_dir_disk) + le2(h.num_of_entries_disk) + le2(h.num_of_entries)
        + le4(h.size_cent_dir) + le4(h.cent_dir_offset) + le2(h.file_comm_length)
}
pub open spec fn ser_eocdr64(h: Zip64EndOfCentralDirectoryRecord) -> Seq<u8> {
    Seq::<u8>::empty() + le8(h.size_of_zip64_end_of_cd_record) + le2(h.version_made_by) + le2(h.version_needed_to_extract)
        + le4(h.disk_number) + le4(h.disk_number_start_of_cd) + le8(h.num_entries_in_directory_on_disk)
        + le8(h.num_entries_in_directory) + le8(h.directory_size) + le8(h.offset_of_start_of_directory)
}
pub open spec fn ser_eocdl64(h: Zip64EndOfCentralDirectoryLocator) -> Seq<u8> {
    Seq::<u8>::empty() + le4(h.number_of_disk_with_start_of_zip64_end_of_central_directory) + le8(h.relative_offset) + le4(h.total_number_of_disks)
}
pub open spec fn at2(s: Seq<u8>, i: int) -> u16 { un2(s.subrange(i, i + 2)) }
pub open spec fn at4(s: Seq<u8>, i: int) -> u32 { un4(s.subrange(i, i + 4)) }
pub open spec fn at8(s: Seq<u8>, i: int) -> u64 { un8(s.subrange(i, i + 8)) }
pub open spec fn par_lfh(s: Seq<u8>) -> LocalFileHeader {
    LocalFileHeader {
        version: at2(s, 0), flags: par_flags(at2(s, 2)), compression: at2(s, 4), mod_time: at2(s, 6), mod_date: at2(s, 8),
        crc: at4(s, 10), compressed_size: at4(s, 14), uncompressed_size: at4(s, 18), file_name_length: at2(s, 22), extra_field_length: at2(s, 24),
    }
}
pub open spec fn par_cdr(s: Seq<u8>) -> CentralDirectoryRecord {
    CentralDirectoryRecord {
        v_made_by: at2(s, 0), v_needed: at2(s, 2), flags: par_flags(at2(s, 4)), compression: at2(s, 6), mod_time: at2(s, 8), mod_date: at2(s, 10),
        crc: at4(s, 12), compressed_size: at4(s, 16), uncompressed_size: at4(s, 20), file_name_length: at2(s, 24), extra_field_length: at2(s, 26),
        file_comment_length: at2(s, 28), disk_start: at2(s, 30), inter_attr: at2(s, 32), exter_attr: at4(s, 34), lh_offset: at4(s, 38),
    }
}
pub open spec fn par_eocdr(s: Seq<u8>) -> EndOfCentralDirectoryHeader {
    EndOfCentralDirectoryHeader {
        disk_num: at2(s, 0), start_cent_dir_disk: at2(s, 2), num_of_entries_disk: at2(s, 4), num_of_entries: at2(s, 6),
        size_cent_dir: at4(s, 8), cent_dir_offset: at4(s, 12), file_comm_length: at2(s, 16),
    }
}
pub open spec fn par_eocdr64(s: Seq<u8>) -> Zip64EndOfCentralDirectoryRecord {
    Zip64EndOfCentralDirectoryRecord {
        size_of_zip64_end_of_cd_record: at8(s, 0), version_made_by: at2(s, 8), version_needed_to_extract: at2(s, 10), disk_number: at4(s, 12),
        disk_number_start_of_cd: at4(s, 16), num_entries_in_directory_on_disk: at8(s, 20), num_entries_in_directory: at8(s, 28),
        directory_size: at8(s, 36), offset_of_start_of_directory: at8(s, 44),
    }
}
pub open spec fn par_eocdl64(s: Seq<u8>) -> Zip64EndOfCentralDirectoryLocator {
    Zip64EndOfCentralDirectoryLocator {
        number_of_disk_with_start_of_zip64_end_of_central_directory: at4(s, 0), relative_offset: at8(s, 4), total_number_of_disks: at4(s, 12),
    }
}
