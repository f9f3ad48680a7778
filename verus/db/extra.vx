@fn <HeaderId as From<u16>>::from
@kinds
@with
impl FromSpecImpl<u16> for HeaderId {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u16) -> HeaderId { HeaderId(v) }
}
@end
@fn <u16 as From<HeaderId>>::from
@kinds
@with
impl FromSpecImpl<HeaderId> for u16 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: HeaderId) -> u16 { v.0 }
}
@end
@fn Zip64ExtendedInformationExtraField::content_size
@kinds
@contract
    requires self.disk_start_number is None,
    ensures r == zip64_content(xv_zip64(*self)).len(),
@end
@fn <&[ExtraField] as ExtraFieldAsBytes>::as_bytes
@kinds for-slice
@impl_extra
    open spec fn ser(&self) -> Seq<u8> { ser_xfs(xvs(self@)) }
    open spec fn fits(&self) -> bool { xfs_fit(xvs(self@)) }
    open spec fn nodisk(&self) -> bool { xfs_nodisk(xvs(self@)) }
@loop 0
    invariant
        vx_i0 <= self@.len(), vx_s0@ == self@, self.fits(), self.nodisk(), self.ser().len() <= usize::MAX,
        buffer@ == ser_xfs(xvs(self@.take(vx_i0 as int))),
    decreases self@.len() - vx_i0
@at start
proof { assert(xvs(self@.take(0)) =~= Seq::<XF>::empty()); }
@at loopstart 0
proof { lemma_ser_take(self@, vx_i0 as int); }
@at end
proof { assert(self@.take(self@.len() as int) =~= self@); }
@end
@fn <&[ExtraField] as ExtraFieldAsBytes>::count_bytes
@kinds sum
@loop 0
    invariant
        vx_i0 <= self@.len(), vx_s0@ == self@, self.nodisk(), self.ser().len() <= usize::MAX,
        vx_o0 == ser_xfs(xvs(self@.take(vx_i0 as int))).len(),
    decreases self@.len() - vx_i0
@at start
proof { assert(xvs(self@.take(0)) =~= Seq::<XF>::empty()); assert(self@.take(self@.len() as int) =~= self@); }
@at loopstart 0
proof { lemma_ser_take(self@, vx_i0 as int); }
@end
@fn <ExtraField as ExtraFieldAsBytes>::as_bytes
@kinds
@impl_extra
    open spec fn ser(&self) -> Seq<u8> { ser_xf(xv(*self)) }
    open spec fn fits(&self) -> bool { xf_fits(xv(*self)) }
    open spec fn nodisk(&self) -> bool { xf_nodisk(xv(*self)) }
@end
@fn <ExtraField as ExtraFieldAsBytes>::count_bytes
@kinds
@end
@fn <UnknownExtraField as ExtraFieldAsBytes>::as_bytes
@kinds
@impl_extra
    open spec fn ser(&self) -> Seq<u8> { ser_xf(xv(ExtraField::Unknown(*self))) }
    open spec fn fits(&self) -> bool { xf_fits(xv(ExtraField::Unknown(*self))) }
    open spec fn nodisk(&self) -> bool { xf_nodisk(xv(ExtraField::Unknown(*self))) }
@at end
proof { assert(bytes@ =~= self.ser()); }
@end
@fn <UnknownExtraField as ExtraFieldAsBytes>::count_bytes
@kinds
@end
@fn <Zip64ExtendedInformationExtraField as ExtraFieldAsBytes>::as_bytes
@kinds
@impl_extra
    open spec fn ser(&self) -> Seq<u8> { ser_xf(xv_zip64(*self)) }
    open spec fn fits(&self) -> bool { xf_fits(xv_zip64(*self)) }
    open spec fn nodisk(&self) -> bool { xf_nodisk(xv_zip64(*self)) }
@at end
proof { assert(bytes@ =~= self.ser()); }
@end
@fn <Zip64ExtendedInformationExtraField as ExtraFieldAsBytes>::count_bytes
@kinds
@end
@fn <InfoZipUnicodeCommentExtraField as ExtraFieldAsBytes>::as_bytes
@kinds
@impl_extra
    open spec fn ser(&self) -> Seq<u8> { ser_xf(xv_comment(*self)) }
    open spec fn fits(&self) -> bool { xf_fits(xv_comment(*self)) }
    open spec fn nodisk(&self) -> bool { xf_nodisk(xv_comment(*self)) }
@at end
proof { assert(bytes@ =~= self.ser()); }
@end
@fn <InfoZipUnicodeCommentExtraField as ExtraFieldAsBytes>::count_bytes
@kinds
@end
@fn <InfoZipUnicodePathExtraField as ExtraFieldAsBytes>::as_bytes
@kinds
@impl_extra
    open spec fn ser(&self) -> Seq<u8> { ser_xf(xv_path(*self)) }
    open spec fn fits(&self) -> bool { xf_fits(xv_path(*self)) }
    open spec fn nodisk(&self) -> bool { xf_nodisk(xv_path(*self)) }
@at end
proof { assert(bytes@ =~= self.ser()); }
@end
@fn <InfoZipUnicodePathExtraField as ExtraFieldAsBytes>::count_bytes
@kinds
@end
@fn zip64_extended_information_field_from_bytes
@kinds
@contract
    ensures r matches Ok(f) && xv_zip64(f) == par_zip64(header_id.0, data@, uncompressed_size, compressed_size),
@end
@fn info_zip_unicode_comment_extra_field_from_bytes
@kinds
@contract
    requires data_size == data@.len(),
    ensures
        r is Ok <==> par_unicode_ok(data@),
        r matches Ok(f) ==> Some(xv_comment(f)) == par_xf(0x6375, data@, 0, 0),
        r matches Err(e) ==> e is InfoZipUnicodeCommentFieldIncomplete,
@end
@fn info_zip_unicode_path_extra_field_from_bytes
@kinds
@contract
    requires data_size == data@.len(),
    ensures
        r is Ok <==> par_unicode_ok(data@),
        r matches Ok(f) ==> Some(xv_path(f)) == par_xf(0x7075, data@, 0, 0),
        r matches Err(e) ==> e is InfoZipUnicodePathFieldIncomplete,
@end
@fn extra_field_from_bytes
@kinds
@contract
    requires data_size == data@.len(),
    ensures
        r is Ok <==> par_xf(header_id.0, data@, uncompressed_size, compressed_size) is Some,
        r matches Ok(f) ==> Some(xv(f)) == par_xf(header_id.0, data@, uncompressed_size, compressed_size),
@end
@fn parse_extra_fields
@kinds while
@known last-four-bytes cursor + 4 < data.len() => cursor + 4 <= data.len()
@known overlong-extra-field data.len() - cursor - 8 - field_size as usize => data.len() - cursor - 4
@attrs
#[verifier::loop_isolation(false)]
@contract
    requires data@.len() <= 0xffff,
    ensures
        r is Ok <==> par_xfs(data@, 0, uncompressed_size, compressed_size) is Some,
        r matches Ok(f) ==> par_xfs(data@, 0, uncompressed_size, compressed_size) == Some(xvs(f@)),
@at start
let ghost d = data@;
let ghost want = par_xfs(d, 0, uncompressed_size, compressed_size);
@loop 0
    invariant
        data@ == d, cursor <= d.len(),
        want == cat_xfs(xvs(extra_fields@), par_xfs(d, cursor as int, uncompressed_size, compressed_size)),
    decreases d.len() - cursor
@at after extra_fields
proof {
    assert(xvs(extra_fields@) =~= Seq::<XF>::empty());
    lemma_cat_empty(want);
}
@at loopstart 0
let ghost old_fields = extra_fields@;
let ghost old_cursor = cursor as int;
@at loopend 0
proof {
    assert(extra_fields@ == old_fields.push(extra_fields@.last()));
    lemma_cat_push(old_fields, extra_fields@.last(), par_xfs(d, cursor as int, uncompressed_size, compressed_size));
}
@at end
proof { assert(xvs(extra_fields@) + Seq::<XF>::empty() =~= xvs(extra_fields@)); }
@end
