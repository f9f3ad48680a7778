// Round-trip lemmas over the record contracts (P02): parse(serialise(h)) == h for every header value.
pub proof fn lemma_un2(x: u16) ensures un2(le2(x)) == x {
    let a = (x & 0xff) as u8; let b = (x >> 8) as u8;
    assert(le2(x)[0] == a && le2(x)[1] == b);
    assert((((x & 0xff) as u8) as u16) | ((((x >> 8) as u8) as u16) << 8) == x) by (bit_vector);
}
pub proof fn lemma_un4(x: u32) ensures un4(le4(x)) == x {
    let s = le4(x);
    assert(s[0] == (x & 0xff) as u8 && s[1] == ((x >> 8) & 0xff) as u8 && s[2] == ((x >> 16) & 0xff) as u8 && s[3] == (x >> 24) as u8);
    assert((((x & 0xff) as u8) as u32) | (((((x >> 8) & 0xff) as u8) as u32) << 8) | (((((x >> 16) & 0xff) as u8) as u32) << 16)
        | ((((x >> 24) as u8) as u32) << 24) == x) by (bit_vector);
}
pub proof fn lemma_un8(x: u64) ensures un8(le8(x)) == x {
    let s = le8(x);
    assert(s[0] == (x & 0xff) as u8 && s[1] == ((x >> 8) & 0xff) as u8 && s[2] == ((x >> 16) & 0xff) as u8 && s[3] == ((x >> 24) & 0xff) as u8);
    assert(s[4] == ((x >> 32) & 0xff) as u8 && s[5] == ((x >> 40) & 0xff) as u8 && s[6] == ((x >> 48) & 0xff) as u8 && s[7] == (x >> 56) as u8);
    assert((((x & 0xff) as u8) as u64) | (((((x >> 8) & 0xff) as u8) as u64) << 8) | (((((x >> 16) & 0xff) as u8) as u64) << 16)
        | (((((x >> 24) & 0xff) as u8) as u64) << 24) | (((((x >> 32) & 0xff) as u8) as u64) << 32) | (((((x >> 40) & 0xff) as u8) as u64) << 40)
        | (((((x >> 48) & 0xff) as u8) as u64) << 48) | ((((x >> 56) as u8) as u64) << 56) == x) by (bit_vector);
}
pub proof fn lemma_le2(a: u8, b: u8) ensures le2(un2(seq![a, b])) == seq![a, b] {
    let x = un2(seq![a, b]);
    assert(x == (a as u16) | ((b as u16) << 8));
    assert(((((a as u16) | ((b as u16) << 8)) & 0xff) as u8) == a) by (bit_vector);
    assert(((((a as u16) | ((b as u16) << 8)) >> 8) as u8) == b) by (bit_vector);
    assert(le2(x) =~= seq![a, b]);
}
pub proof fn lemma_flags(f: GeneralPurposeFlag) ensures par_flags(flag_bits(f)) == f {
    let e = if f.encrypted { 1u16 } else { 0u16 };
    let d = if f.data_descriptor { 8u16 } else { 0u16 };
    let u = if f.filename_unicode { 0x800u16 } else { 0u16 };
    assert((e | d | u) & 1 == e & 1) by (bit_vector) requires (d == 0 || d == 8), (u == 0 || u == 0x800);
    assert((e | d | u) & 8 == d & 8) by (bit_vector) requires (e == 0 || e == 1), (u == 0 || u == 0x800);
    assert((e | d | u) & 0x800 == u & 0x800) by (bit_vector) requires (e == 0 || e == 1), (d == 0 || d == 8);
    assert(1u16 & 1 == 1 && 0u16 & 1 == 0 && 8u16 & 8 == 8 && 0u16 & 8 == 0 && 0x800u16 & 0x800 == 0x800 && 0u16 & 0x800 == 0) by (bit_vector);
}
pub proof fn lemma_lfh_round_trip(h: LocalFileHeader)
    ensures ser_lfh(h).len() == 26, par_lfh(ser_lfh(h)) == h
{
    let s = ser_lfh(h);
    lemma_flags(h.flags);
    lemma_un2(h.version); lemma_un2(flag_bits(h.flags)); lemma_un2(h.compression); lemma_un2(h.mod_time); lemma_un2(h.mod_date);
    lemma_un4(h.crc); lemma_un4(h.compressed_size); lemma_un4(h.uncompressed_size); lemma_un2(h.file_name_length); lemma_un2(h.extra_field_length);
    assert(s.subrange(0, 2) =~= le2(h.version)); assert(s.subrange(2, 4) =~= ser_flags(h.flags));
    assert(s.subrange(4, 6) =~= le2(h.compression)); assert(s.subrange(6, 8) =~= le2(h.mod_time)); assert(s.subrange(8, 10) =~= le2(h.mod_date));
    assert(s.subrange(10, 14) =~= le4(h.crc)); assert(s.subrange(14, 18) =~= le4(h.compressed_size)); assert(s.subrange(18, 22) =~= le4(h.uncompressed_size));
    assert(s.subrange(22, 24) =~= le2(h.file_name_length)); assert(s.subrange(24, 26) =~= le2(h.extra_field_length));
}
pub proof fn lemma_cdr_round_trip(h: CentralDirectoryRecord)
    ensures ser_cdr(h).len() == 42, par_cdr(ser_cdr(h)) == h
{
    let s = ser_cdr(h);
    lemma_flags(h.flags);
    lemma_un2(h.v_made_by); lemma_un2(h.v_needed); lemma_un2(flag_bits(h.flags)); lemma_un2(h.compression); lemma_un2(h.mod_time); lemma_un2(h.mod_date);
    lemma_un4(h.crc); lemma_un4(h.compressed_size); lemma_un4(h.uncompressed_size); lemma_un2(h.file_name_length); lemma_un2(h.extra_field_length);
    lemma_un2(h.file_comment_length); lemma_un2(h.disk_start); lemma_un2(h.inter_attr); lemma_un4(h.exter_attr); lemma_un4(h.lh_offset);
    assert(s.subrange(0, 2) =~= le2(h.v_made_by)); assert(s.subrange(2, 4) =~= le2(h.v_needed)); assert(s.subrange(4, 6) =~= ser_flags(h.flags));
    assert(s.subrange(6, 8) =~= le2(h.compression)); assert(s.subrange(8, 10) =~= le2(h.mod_time)); assert(s.subrange(10, 12) =~= le2(h.mod_date));
    assert(s.subrange(12, 16) =~= le4(h.crc)); assert(s.subrange(16, 20) =~= le4(h.compressed_size)); assert(s.subrange(20, 24) =~= le4(h.uncompressed_size));
    assert(s.subrange(24, 26) =~= le2(h.file_name_length)); assert(s.subrange(26, 28) =~= le2(h.extra_field_length)); assert(s.subrange(28, 30) =~= le2(h.file_comment_length));
    assert(s.subrange(30, 32) =~= le2(h.disk_start)); assert(s.subrange(32, 34) =~= le2(h.inter_attr)); assert(s.subrange(34, 38) =~= le4(h.exter_attr)); assert(s.subrange(38, 42) =~= le4(h.lh_offset));
}
pub proof fn lemma_eocdr_round_trip(h: EndOfCentralDirectoryHeader)
    ensures ser_eocdr(h).len() == 18, par_eocdr(ser_eocdr(h)) == h
{
    let s = ser_eocdr(h);
    lemma_un2(h.disk_num); lemma_un2(h.start_cent_dir_disk); lemma_un2(h.num_of_entries_disk); lemma_un2(h.num_of_entries);
    lemma_un4(h.size_cent_dir); lemma_un4(h.cent_dir_offset); lemma_un2(h.file_comm_length);
    assert(s.subrange(0, 2) =~= le2(h.disk_num)); assert(s.subrange(2, 4) =~= le2(h.start_cent_dir_disk)); assert(s.subrange(4, 6) =~= le2(h.num_of_entries_disk));
    assert(s.subrange(6, 8) =~= le2(h.num_of_entries)); assert(s.subrange(8, 12) =~= le4(h.size_cent_dir)); assert(s.subrange(12, 16) =~= le4(h.cent_dir_offset));
    assert(s.subrange(16, 18) =~= le2(h.file_comm_length));
}
pub proof fn lemma_eocdr64_round_trip(h: Zip64EndOfCentralDirectoryRecord)
    ensures ser_eocdr64(h).len() == 52, par_eocdr64(ser_eocdr64(h)) == h
{
    let s = ser_eocdr64(h);
    lemma_un8(h.size_of_zip64_end_of_cd_record); lemma_un2(h.version_made_by); lemma_un2(h.version_needed_to_extract); lemma_un4(h.disk_number); lemma_un4(h.disk_number_start_of_cd);
    lemma_un8(h.num_entries_in_directory_on_disk); lemma_un8(h.num_entries_in_directory); lemma_un8(h.directory_size); lemma_un8(h.offset_of_start_of_directory);
    assert(s.subrange(0, 8) =~= le8(h.size_of_zip64_end_of_cd_record)); assert(s.subrange(8, 10) =~= le2(h.version_made_by)); assert(s.subrange(10, 12) =~= le2(h.version_needed_to_extract));
    assert(s.subrange(12, 16) =~= le4(h.disk_number)); assert(s.subrange(16, 20) =~= le4(h.disk_number_start_of_cd)); assert(s.subrange(20, 28) =~= le8(h.num_entries_in_directory_on_disk));
    assert(s.subrange(28, 36) =~= le8(h.num_entries_in_directory)); assert(s.subrange(36, 44) =~= le8(h.directory_size)); assert(s.subrange(44, 52) =~= le8(h.offset_of_start_of_directory));
}
pub proof fn lemma_eocdl64_round_trip(h: Zip64EndOfCentralDirectoryLocator)
    ensures ser_eocdl64(h).len() == 16, par_eocdl64(ser_eocdl64(h)) == h
{
    let s = ser_eocdl64(h);
    lemma_un4(h.number_of_disk_with_start_of_zip64_end_of_central_directory); lemma_un8(h.relative_offset); lemma_un4(h.total_number_of_disks);
    assert(s.subrange(0, 4) =~= le4(h.number_of_disk_with_start_of_zip64_end_of_central_directory)); assert(s.subrange(4, 12) =~= le8(h.relative_offset)); assert(s.subrange(12, 16) =~= le4(h.total_number_of_disks));
}
