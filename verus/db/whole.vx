# whole entries
@fn EntryWholeWriter::from_raw [unit=ww]
@kinds
@contract
    ensures
        *r.writer == *old(writer), *final(r.writer) == *final(writer), r.entry == entry, r.data.cv() == data@, r.builder is None, r.lh_offset == 0, r.precompressed == false,
@end
@fn EntryWholeWriter::from_precompressed [unit=ww]
@kinds
@contract
    ensures
        *r.writer == *old(writer), *final(r.writer) == *final(writer), r.entry == entry, r.data.cv() == data@, r.builder is None, r.lh_offset == 0, r.precompressed == true,
@end
@fn EntryWholeWriter::enforce_zip64 [unit=ww]
@kinds
@contract
    ensures
        *final(final(self).writer) == *final(old(self).writer),
        final(self).entry == old(self).entry, final(self).data == old(self).data, final(self).builder == old(self).builder,
        final(self).lh_offset == old(self).lh_offset, final(self).precompressed == old(self).precompressed,
        match r {
            Ok(_) => !old(self).writer.force_no_zip64 && *final(self).writer == (ZipFileWriter { is_zip64: true, ..*old(self).writer }),
            Err(e) => old(self).writer.force_no_zip64 && e == ZipError::Zip64Needed(Zip64ErrorCase::LargeFile) && *final(self).writer == *old(self).writer,
        },
@end
@fn EntryWholeWriter::enforce_zip64_sizes [unit=ww]
@kinds
@contract
    ensures
        *final(final(self).writer) == *final(old(self).writer),
        final(self).data == old(self).data, final(self).lh_offset == old(self).lh_offset, final(self).precompressed == old(self).precompressed,
        !big_sizes(old(self).entry.uncompressed_size, old(self).entry.compressed_size, old(self).lh_offset) ==>
            r is Ok && *final(self).writer == *old(self).writer && final(self).entry == old(self).entry && final(self).builder == old(self).builder,
        big_sizes(old(self).entry.uncompressed_size, old(self).entry.compressed_size, old(self).lh_offset) ==> match r {
            Ok(_) => !old(self).writer.force_no_zip64 && *final(self).writer == (ZipFileWriter { is_zip64: true, ..*old(self).writer })
                && final(self).entry == (ZipEntry { uncompressed_size: m32(), compressed_size: m32(), ..old(self).entry })
                && (final(self).builder matches Some(b) && xv_zip64(b.field) == (XF::Zip64 { id: 1, us: Some(old(self).entry.uncompressed_size), cs: Some(old(self).entry.compressed_size), off: None, disk: None })),
            Err(e) => old(self).writer.force_no_zip64 && e == ZipError::Zip64Needed(Zip64ErrorCase::LargeFile) && *final(self).writer == *old(self).writer,
        },
@end
@fn EntryWholeWriter::enforce_zip64_offset [unit=ww]
@kinds
@contract
    ensures
        *final(final(self).writer) == *final(old(self).writer),
        final(self).data == old(self).data, final(self).entry == old(self).entry, final(self).precompressed == old(self).precompressed,
        ({
            let big = old(self).lh_offset > m32() || (old(self).lh_offset == m32() && old(self).builder is Some);
            &&& !big ==> r is Ok && *final(self).writer == *old(self).writer && final(self).lh_offset == old(self).lh_offset && final(self).builder == old(self).builder
            &&& big ==> match r {
                Ok(_) => !old(self).writer.force_no_zip64 && *final(self).writer == (ZipFileWriter { is_zip64: true, ..*old(self).writer })
                    && final(self).lh_offset == m32()
                    && (final(self).builder matches Some(b) && xv_zip64(b.field) == (match old(self).builder {
                        Some(a) => { let x = xv_zip64(a.field); XF::Zip64 { id: x->Zip64_id, us: x->us, cs: x->cs, off: Some(old(self).lh_offset), disk: x->disk } },
                        None => XF::Zip64 { id: 1, us: None, cs: None, off: Some(old(self).lh_offset), disk: None },
                    })),
                Err(e) => old(self).writer.force_no_zip64 && e == ZipError::Zip64Needed(Zip64ErrorCase::LargeFile) && *final(self).writer == *old(self).writer,
            }
        }),
@end
@fn compress [unit=ww]
@kinds
@contract
    requires !(entry.compression is Stored), !(entry.compression is Deflate64),
    ensures is_stream(entry.compression, r@, data@),
@at start
proof {
    assert forall|s: Seq<u8>| #[trigger] s.skip(0) == s by { assert(s.skip(0) =~= s); }
    assert(Seq::<u8>::empty() + data@ =~= data@);
}
@end
@fn crc32 [unit=ww]
@kinds
@contract
    ensures r == crc_of(data@),
@end
@fn EntryWholeWriter::compress [unit=ww]
@kinds
@contract
    requires !(old(self).entry.compression is Deflate64),
    ensures
        *final(final(self).writer) == *final(old(self).writer), *final(self).writer == *old(self).writer, final(self).entry == old(self).entry,
        final(self).lh_offset == old(self).lh_offset, final(self).builder == old(self).builder, final(self).precompressed == old(self).precompressed,
        if old(self).entry.compression is Stored { final(self).data.cv() == old(self).data.cv() } else { is_stream(old(self).entry.compression, final(self).data.cv(), old(self).data.cv()) },
@end
@fn EntryWholeWriter::utf8_without_alternative [unit=ww]
@kinds
@contract
    ensures
        *final(final(self).writer) == *final(old(self).writer), *final(self).writer == *old(self).writer,
        final(self).data == old(self).data, final(self).lh_offset == old(self).lh_offset, final(self).builder == old(self).builder, final(self).precompressed == old(self).precompressed,
        final(self).entry == (ZipEntry { extra_fields: final(self).entry.extra_fields, ..old(self).entry }),
        r == flag8(zv(old(self).entry.filename), zv(old(self).entry.comment)),
        xvs(final(self).entry.extra_fields@) == uni(xvs(old(self).entry.extra_fields@), zv(old(self).entry.filename), zv(old(self).entry.comment)),
@end
@fn EntryWholeWriter::write [unit=ww]
@kinds retain
@attrs
#[verifier::loop_isolation(false)]
#[verifier::rlimit(200)]
@contract
    requires zw_ok(*self.writer), self.builder is None, e_can(self.entry), !(self.entry.compression is Deflate64) || self.precompressed,
    ensures exists|d: Seq<u8>| #[trigger] wit(d) && whole_post(*old(self.writer), *final(self.writer), self.entry, self.precompressed, self.data.cv(), d, r),
@at start
hide(grown); hide(uni); hide(local_xs); hide(dir_xs); hide(lfh_whole); hide(cdr_whole); hide(cdr_like); hide(ser_lfh); hide(ser_xfs); hide(ser_xf); hide(local_bytes); hide(no_z64); hide(e_room); hide(needed); hide(method_id); hide(xfs_nodisk); hide(xfs_fit);
let ghost z0 = *self.writer;
let ghost e0 = self.entry;
let ghost (us, crc) = if self.precompressed { (e0.uncompressed_size, e0.crc32) } else { (self.data.cv().len() as u64, crc_of(self.data.cv())) };
@loop 0
    invariant
        vx_i0 <= slf.entry.extra_fields@.len(), *slf.writer == z0, *final(slf.writer) == *final(self.writer), slf.builder is None,
        slf.entry == (ZipEntry { extra_fields: slf.entry.extra_fields, uncompressed_size: us, crc32: crc, ..e0 }),
        whole_stored(e0.compression, self.precompressed, slf.data.cv(), self.data.cv()),
        no_z64(xvs(slf.entry.extra_fields@)) == no_z64(xvs(e0.extra_fields@)),
        forall|k: int| 0 <= k < vx_i0 ==> !(#[trigger] xvs(slf.entry.extra_fields@)[k] is Zip64),
    decreases slf.entry.extra_fields@.len() - vx_i0
@at loopstart 0
let ghost b0 = slf.entry.extra_fields@;
@at loopend 0
proof {
    if slf.entry.extra_fields@ != b0 { assert(xvs(b0.remove(vx_i0 as int)) =~= xvs(b0).remove(vx_i0 as int)); lemma_no_z64_remove(xvs(b0), vx_i0 as int); }
}
@at loopafter 0
proof { lemma_no_z64_none(xvs(slf.entry.extra_fields@)); }
@at before-call enforce_zip64_sizes
let ghost d = slf.data.cv();
let ghost cs = d.len() as u64;
let ghost off = z0.writer.offset;
let ghost lxs = local_xs(xvs(e0.extra_fields@), zv(e0.filename), zv(e0.comment), us, cs, off);
let ghost dxs = dir_xs(xvs(e0.extra_fields@), zv(e0.filename), zv(e0.comment), us, cs, off);
proof {
    assert(wit(d));
    lemma_whole_xs(e0, us, cs, off);
    lemma_grows(z0.writer.acc());
    z0.writer.kin_refl();
    assert forall|b: AsyncOffsetWriter<W>, c: AsyncOffsetWriter<W>| z0.writer.kin(&b) && #[trigger] b.kin(&c) implies z0.writer.kin(&c) by { z0.writer.kin_trans(&b, &c); }
}
@at before utf8_without_alternative
proof {
    if big_sizes(us, cs, off) { lemma_xvs_push(slf.entry.extra_fields@.drop_last(), slf.entry.extra_fields@.last()); assert(slf.entry.extra_fields@.drop_last().push(slf.entry.extra_fields@.last()) =~= slf.entry.extra_fields@); }
    lemma_local_xs(xvs(e0.extra_fields@), zv(e0.filename), zv(e0.comment), us, cs, off);
    assert(xvs(slf.entry.extra_fields@) == (if big_sizes(us, cs, off) { no_z64(xvs(e0.extra_fields@)).push(z64_field(us, cs, off)) } else { no_z64(xvs(e0.extra_fields@)) }));
}
@at after utf8_without_alternative
proof { assert(xvs(slf.entry.extra_fields@) == lxs); }
let ghost e1 = slf.entry;
proof { assert forall|f: ExtraField| #[trigger] xvs(e1.extra_fields@.push(f)) == lxs.push(xv(f)) by { lemma_xvs_push(e1.extra_fields@, f); } }
@at after lf_header
proof { lemma_lfh_whole(e0, us, cs, off, crc, lf_header); }
@at end
proof {
    lemma_local_bytes(z0.writer.acc(), lf_header, e0, lxs, d);
    lemma_cdr_whole(e0, us, cs, off, crc, header);
    assert(slf.writer.cd_entries@.drop_last() =~= z0.cd_entries@);
}
@end
