# streamed entries
@fn EntryStreamWriter::write_lfh [unit=ws]
@kinds retain
@attrs
#[verifier::loop_isolation(false)]
#[verifier::rlimit(200)]
@contract
    requires zw_ok(*old(writer)), e_can(*old(entry)),
    ensures lfh_post(*old(writer), *final(writer), *old(entry), *final(entry), r),
@at start
hide(grown); hide(uni); hide(stream_xs); hide(lfh_stream); hide(ser_lfh); hide(ser_xfs); hide(ser_xf); hide(local_bytes); hide(no_z64); hide(e_room); hide(needed); hide(method_id); hide(xfs_nodisk); hide(xfs_fit);
let ghost z0 = *writer;
let ghost e0 = *entry;
let ghost no64 = z0.force_no_zip64;
proof {
    lemma_stream_xs(no64, e0);
    lemma_grows(z0.writer.acc());
    z0.writer.kin_refl();
    assert forall|b: AsyncOffsetWriter<W>, c: AsyncOffsetWriter<W>| z0.writer.kin(&b) && #[trigger] b.kin(&c) implies z0.writer.kin(&c) by { z0.writer.kin_trans(&b, &c); }
}
@loop 0
    invariant
        vx_i0 <= entry.extra_fields@.len(), *writer == z0, *entry == (ZipEntry { extra_fields: entry.extra_fields, ..e0 }),
        no_z64(xvs(entry.extra_fields@)) == no_z64(xvs(e0.extra_fields@)),
        forall|k: int| 0 <= k < vx_i0 ==> !(#[trigger] xvs(entry.extra_fields@)[k] is Zip64),
    decreases entry.extra_fields@.len() - vx_i0
@at loopstart 0
let ghost b0 = entry.extra_fields@;
@at loopend 0
proof {
    if entry.extra_fields@ != b0 { assert(xvs(b0.remove(vx_i0 as int)) =~= xvs(b0).remove(vx_i0 as int)); lemma_no_z64_remove(xvs(b0), vx_i0 as int); }
}
@at loopafter 0
proof {
    lemma_no_z64_none(xvs(entry.extra_fields@));
    assert forall|f: ExtraField| #[trigger] xvs(entry.extra_fields@.push(f)) == no_z64(xvs(e0.extra_fields@)).push(xv(f)) by { lemma_xvs_push(entry.extra_fields@, f); }
}
@at before utf8_without_alternative
proof {
    assert(xvs(entry.extra_fields@) == (if no64 { no_z64(xvs(e0.extra_fields@)) } else { no_z64(xvs(e0.extra_fields@)).push(local_z64(e0)) }));
}
@at before filename_basic
proof { assert(xvs(entry.extra_fields@) == stream_xs(no64, e0)) by { reveal(uni); } }
@at after lfh
proof { lemma_lfh_stream(no64, e0, lfh); }
@at end
proof { lemma_local_head(z0.writer.acc(), lfh, e0, stream_xs(no64, e0)); }
@end
@fn EntryStreamWriter::from_raw [unit=ws]
@kinds
@contract
    requires zw_ok(*old(writer)), e_can(entry), !(entry.compression is Deflate64),
    ensures sw_post(*old(writer), *final(writer), entry, false, r),
@at start
let ghost z0 = *writer;
proof {
    z0.writer.kin_refl();
    assert forall|s: Seq<u8>, k: int| k == s.len() implies #[trigger] s.skip(k) == Seq::<u8>::empty() by { assert(s.skip(k) =~= Seq::<u8>::empty()); }
}
@end
@fn EntryStreamWriter::from_raw_precompressed [unit=ws]
@kinds
@contract
    requires zw_ok(*old(writer)), e_can(entry),
    ensures sw_post(*old(writer), *final(writer), entry, true, r),
@at start
let ghost z0 = *writer;
proof {
    z0.writer.kin_refl();
    assert forall|s: Seq<u8>, k: int| k == s.len() implies #[trigger] s.skip(k) == Seq::<u8>::empty() by { assert(s.skip(k) =~= Seq::<u8>::empty()); }
}
@end
@fn <EntryStreamWriter as AsyncWrite>::poll_write [unit=ws,noauto]
@kinds
@impl_extra
    open spec fn acc(&self) -> Seq<u8> { sw_data(*self) }
    open spec fn sunk(&self) -> Seq<u8> { self.writer.sunk() }
    open spec fn fx(&self) -> WFix { self.writer.fx() }
    open spec fn winv(&self) -> bool { sw_ok(*self) }
    open spec fn opn(&self) -> bool { self.writer.opn() }
    open spec fn fin(&self) -> bool { self.writer.fin() }
    #[verifier::prophetic]
    open spec fn kin(&self, o: &Self) -> bool { *o == (EntryStreamWriter { writer: o.writer, hasher: o.hasher, ..*self }) && self.writer.kin(&o.writer) }
    proof fn kin_refl(&self) { self.writer.kin_refl(); }
    proof fn kin_trans(&self, b: &Self, c: &Self) { self.writer.kin_trans(&b.writer, &c.writer); }
@at start
let ghost a0 = (*self).writer.acc();
proof {
    assert forall|x: Seq<u8>| #[trigger] (a0 + x).skip((*self).writer.fx().base) == sw_data(*self) + x by { assert((a0 + x).skip((*self).writer.fx().base) =~= a0.skip((*self).writer.fx().base) + x); }
}
@end
@fn <EntryStreamWriter as AsyncWrite>::poll_flush [unit=ws,noauto]
@kinds
@end
@fn <EntryStreamWriter as AsyncWrite>::poll_close [unit=ws,noauto]
@kinds
@end
@fn EntryStreamWriter::close [unit=ws]
@kinds
@attrs
#[verifier::rlimit(100)]
@contract
    requires sw_ok(self), se_ok(self), all_cde_ok((*self.cd_entries)@),
    ensures exists|d: Seq<u8>| #[trigger] wit(d) && close_post(self, *old(cwin(self.writer.inner)), *final(cwin(self.writer.inner)), (*old(self.cd_entries))@, (*final(self.cd_entries))@, *old(self.is_zip64), *final(self.is_zip64), d, r),
@at start
hide(grown); hide(ser_xfs); hide(ser_xf); hide(xfs_nodisk); hide(xfs_fit); hide(close_xs); hide(basic);
let ghost s0 = self;
let ghost low0 = *cwin(self.writer.inner);
let ghost cd0 = (*self.cd_entries)@;
let ghost begin = sw_begin(self);
let ghost us = sw_size(self);
let ghost no64 = self.force_no_zip64;
proof {
    assert(wit(sw_data(s0)));
    lemma_grows(low0.acc());
    low0.kin_refl();
    assert forall|b: AsyncOffsetWriter<W>, c: AsyncOffsetWriter<W>| low0.kin(&b) && #[trigger] b.kin(&c) implies low0.kin(&c) by { low0.kin_trans(&b, &c); }
}
@at before-call into_inner
let ghost w1 = slf.writer;
proof { lemma_sw(s0, w1); }
@at after inner_writer
let ghost d = (*inner_writer).acc().skip(begin);
proof { assert(wit(d)); }
@at before comment_basic
proof {
    lemma_close_xs(no64, xvs(s0.entry.extra_fields@), us, compressed_size, s0.lfh_offset);
    lemma_tail(low0.acc().take(begin), d, slf.entry.crc32, field32(no64, compressed_size), field32(no64, us));
}
@at after comment_basic
proof {
    assert(comment_basic@ == basic(zv(s0.entry.comment))) by { reveal(basic); }
    assert(slf.lfh.extra_field_length == ser_xfs(close_xs(no64, xvs(s0.entry.extra_fields@), us, compressed_size, s0.lfh_offset)).len());
}
@at after cdh
proof { lemma_cdr_stream(cdh, s0.lfh, no64, s0.entry, us, compressed_size, s0.lfh_offset, slf.entry.crc32); }
@at before-call count_bytes
proof {
    let u0 = s0.entry.extra_fields@;
    lemma_close_xs(no64, xvs(u0), us, compressed_size, s0.lfh_offset);
    assert(xvs(slf.entry.extra_fields@) =~= close_xs(no64, xvs(u0), us, compressed_size, s0.lfh_offset)) by { reveal(close_xs); }
}
@at end
proof {
    let cd1 = (*slf.cd_entries)@;
    assert(cd1.drop_last() =~= cd0);
    assert(cde_ok(cd1.last()));
    assert(all_cde_ok(cd1)) by { assert forall|i: int| 0 <= i < cd1.len() implies cde_ok(#[trigger] cd1[i]) by { if i < cd0.len() { assert(cd1[i] == cd0[i]); } } }
    assert(close_ok(s0, low0, *inner_writer, cd0, cd1, d));
}
@end
