# the archive writer
@fn ZipFileWriter::new [unit=wz]
@kinds
@contract
    requires writer.winv(),
    ensures r.writer.inner == writer, r.writer.offset == 0, zw_inv(r), r.cd_entries@.len() == 0, !r.is_zip64, !r.force_no_zip64, r.comment_opt is None,
@end
@fn ZipFileWriter::force_no_zip64 [unit=wz]
@kinds
@contract
    ensures r == (ZipFileWriter { force_no_zip64: true, ..self }),
@end
@fn ZipFileWriter::force_zip64 [unit=wz]
@kinds
@contract
    ensures r == (ZipFileWriter { is_zip64: true, ..self }),
@end
@fn ZipFileWriter::comment [unit=wz]
@kinds
@contract
    ensures *final(self) == (ZipFileWriter { comment_opt: Some(comment), ..*old(self) }),
@end
@fn ZipFileWriter::inner_mut [unit=wz]
@kinds
@contract
    ensures *r == old(self).writer.inner, *final(self) == (ZipFileWriter { writer: AsyncOffsetWriter { inner: *final(r), ..old(self).writer }, ..*old(self) }),
@end
@fn ZipFileWriter::write_entry_whole [unit=wz]
@kinds
@sigmap Into<ZipEntry> => IntoEntry
@contract
    requires zw_inv(*old(self)), e_can(entry.as_entry()), !(entry.as_entry().compression is Deflate64), data@.len() <= u64::MAX,
    ensures zw_inv(*final(self)), exists|d: Seq<u8>| #[trigger] wit(d) && whole_post(*old(self), *final(self), entry.as_entry(), false, data@, d, r),
@end
@fn ZipFileWriter::write_entry_whole_precompressed [unit=wz]
@kinds
@sigmap Into<ZipEntry> => IntoEntry
@contract
    requires zw_inv(*old(self)), e_can(entry.as_entry()),
    ensures zw_inv(*final(self)), exists|d: Seq<u8>| #[trigger] wit(d) && whole_post(*old(self), *final(self), entry.as_entry(), true, data@, d, r),
@end
@fn ZipFileWriter::write_entry_stream [unit=wz]
@kinds
@sigmap Into<ZipEntry> => IntoEntry
@contract
    requires zw_inv(*old(self)), e_can(entry.as_entry()), !(entry.as_entry().compression is Deflate64),
    ensures sw_post(*old(self), *final(self), entry.as_entry(), false, r),
@end
@fn ZipFileWriter::write_entry_stream_precompressed [unit=wz]
@kinds
@sigmap Into<ZipEntry> => IntoEntry
@contract
    requires zw_inv(*old(self)), e_can(entry.as_entry()),
    ensures sw_post(*old(self), *final(self), entry.as_entry(), true, r),
@end
@fn ZipFileWriter::close [unit=wz]
@kinds for-slice
@attrs
#[verifier::loop_isolation(false)]
#[verifier::rlimit(100)]
@contract
    requires zw_inv(self),
    ensures finish_post(self, r),
@at start
hide(grown); hide(ser_cdr); hide(ser_eocdr); hide(ser_eocdr64); hide(ser_eocdl64); hide(ser_xfs); hide(ser_cde); hide(ser_dir);
let ghost z0 = self;
let ghost cds = self.cd_entries@;
let ghost a0 = self.writer.acc();
proof {
    self.writer.kin_refl();
    assert(a0 + ser_dir(cds.take(0)) =~= a0) by { reveal(ser_dir); }
    assert forall|b: AsyncOffsetWriter<W>, c: AsyncOffsetWriter<W>| self.writer.kin(&b) && #[trigger] b.kin(&c) implies self.writer.kin(&c) by { self.writer.kin_trans(&b, &c); }
}
@loop 0
    invariant
        vx_i0 <= cds.len(), slf.cd_entries@ == cds, slf == (ZipFileWriter { writer: slf.writer, ..z0 }),
        slf.writer.winv() && z0.writer.kin(&slf.writer) && slf.writer.fx() == z0.writer.fx() && slf.writer.opn() == z0.writer.opn(),
        slf.writer.acc() == a0 + ser_dir(cds.take(vx_i0 as int)),
    decreases cds.len() - vx_i0
@at loopstart 0
let ghost i0 = vx_i0 as int;
@at loopend 0
proof { lemma_cde_cat(a0, ser_dir(cds.take(i0)), cds[i0]); lemma_dir_step(cds, i0); }
@at loopafter 0
proof { assert(cds.take(cds.len() as int) =~= cds); }
@at after header
let ghost zs = slf.is_zip64;
proof {
    lemma_z64_cat(a0 + ser_dir(cds), cds.len() as int, cd_offset, central_directory_size);
    let z = if zs { le4(0x06064b50) + ser_eocdr64(end64(cds.len() as int, cd_offset, central_directory_size)) + (le4(0x07064b50) + ser_eocdl64(loc64((cd_offset + central_directory_size) as u64))) } else { Seq::<u8>::empty() };
    lemma_end_cat(a0, ser_dir(cds), z, ser_eocdr(header), z_comment(z0));
    assert(header == end32(cds.len() as int, cd_offset, central_directory_size, z_comment(z0).len() as int));
}
@end
