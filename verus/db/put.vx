# extra fields found and changed in place
@fn get_zip64_extra_field_mut
@kinds for-mut
@contract
    ensures match r {
        None => final(extra_fields)@ == old(extra_fields)@ && find_z64(xvs(old(extra_fields)@)) == old(extra_fields)@.len(),
        Some(z) => {
            let i = find_z64(xvs(old(extra_fields)@));
            0 <= i < old(extra_fields)@.len() && old(extra_fields)@[i] == ExtraField::Zip64ExtendedInformation(*z)
                && final(extra_fields)@ == old(extra_fields)@.update(i, ExtraField::Zip64ExtendedInformation(*final(z)))
        },
    },
@attrs
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@loop 0
    invariant_except_break 0 <= vx_g0 <= v0.len(), vx_s0@ == v0.skip(vx_g0), vf == v0.take(vx_g0) + final(vx_s0)@, forall|k: int| 0 <= k < vx_g0 ==> !is_z64(#[trigger] v0[k]),
    ensures vf =~= v0, forall|k: int| 0 <= k < v0.len() ==> !is_z64(#[trigger] v0[k]),
    decreases v0.len() - vx_g0
@at start
let ghost v0 = extra_fields@;
let ghost vf = final(extra_fields)@;
@at loopstart 0
proof {
    if vx_g0 < v0.len() {
        assert(v0.skip(vx_g0).skip(1) =~= v0.skip(vx_g0 + 1));
        assert(v0.take(vx_g0 + 1) =~= v0.take(vx_g0) + seq![v0[vx_g0]]);
    }
}
@at before-return 0
proof {
    assert(vx_f0 == v0[vx_g0]);
    assert(vf =~= v0.update(vx_g0, vx_ff0));
    lemma_find_z64(xvs(v0), vx_g0);
}
@at end
proof { lemma_find_z64(xvs(v0), v0.len() as int); }
@end
@fn get_or_put_info_zip_unicode_path_extra_field_mut
@kinds any,for-mut
@contract
    ensures
        (*r) is V1,
        (*final(r)) is V1 ==> xvs(final(extra_fields)@) == set_uni(xvs(old(extra_fields)@), true, xv_path(*final(r))),
@attrs
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@at start
let ghost u0 = extra_fields@;
let ghost uf = final(extra_fields)@;
@loop 0
    invariant
        vx_i0 <= u0.len(), (**vx_s0)@ == u0, !vx_o0 ==> forall|k: int| 0 <= k < vx_i0 ==> !is_uni1(xv(#[trigger] u0[k]), true),
        vx_o0 ==> exists|k: int| 0 <= k < u0.len() && is_uni1(xv(#[trigger] u0[k]), true),
    decreases u0.len() - vx_i0
@at loopend 0
proof { if vx_o0 { assert(is_uni1(xv(u0[vx_i0 - 1]), true)); } }
@loop 1
    invariant_except_break 0 <= vx_g1 <= vx_v1.len(), vx_s1@ == vx_v1.skip(vx_g1), vx_vf1 == vx_v1.take(vx_g1) + final(vx_s1)@, forall|k: int| 0 <= k < vx_g1 ==> !is_uni1(xv(#[trigger] vx_v1[k]), true),
    ensures forall|k: int| 0 <= k < vx_v1.len() ==> !is_uni1(xv(#[trigger] vx_v1[k]), true),
    decreases vx_v1.len() - vx_g1
@at loopstart 1
proof {
    if vx_g1 < vx_v1.len() {
        assert(vx_v1.skip(vx_g1).skip(1) =~= vx_v1.skip(vx_g1 + 1));
        assert(vx_v1.take(vx_g1 + 1) =~= vx_v1.take(vx_g1) + seq![vx_v1[vx_g1]]);
    }
}
@at before-return 0
proof {
    assert(vx_f1 == vx_v1[vx_g1]);
    assert(vx_vf1 =~= vx_v1.update(vx_g1, vx_ff1));
    assert(xvs(vx_vf1) =~= xvs(vx_v1).update(vx_g1, xv(vx_ff1)));
    let g = vx_g1;
    if exists|k: int| 0 <= k < u0.len() && is_uni1(xv(#[trigger] u0[k]), true) {
        lemma_find_uni(xvs(u0), true, g);
    } else {
        if g < u0.len() { assert(is_uni1(xv(u0[g]), true)); }
        lemma_find_uni(xvs(u0), true, u0.len() as int);
        assert(xvs(vx_vf1) =~= xvs(u0).push(xv(vx_ff1)));
    }
}
@at loopafter 1
proof {
    if vx_v1 != u0 { assert(is_uni1(xv(vx_v1[u0.len() as int]), true)); }
    assert(exists|k: int| 0 <= k < vx_v1.len() && is_uni1(xv(#[trigger] vx_v1[k]), true));
    assert(false);
}
@end
@fn get_or_put_info_zip_unicode_comment_extra_field_mut
@kinds any,for-mut
@contract
    ensures
        (*r) is V1,
        (*final(r)) is V1 ==> xvs(final(extra_fields)@) == set_uni(xvs(old(extra_fields)@), false, xv_comment(*final(r))),
@attrs
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@at start
let ghost u0 = extra_fields@;
let ghost uf = final(extra_fields)@;
@loop 0
    invariant
        vx_i0 <= u0.len(), (**vx_s0)@ == u0, !vx_o0 ==> forall|k: int| 0 <= k < vx_i0 ==> !is_uni1(xv(#[trigger] u0[k]), false),
        vx_o0 ==> exists|k: int| 0 <= k < u0.len() && is_uni1(xv(#[trigger] u0[k]), false),
    decreases u0.len() - vx_i0
@at loopend 0
proof { if vx_o0 { assert(is_uni1(xv(u0[vx_i0 - 1]), false)); } }
@loop 1
    invariant_except_break 0 <= vx_g1 <= vx_v1.len(), vx_s1@ == vx_v1.skip(vx_g1), vx_vf1 == vx_v1.take(vx_g1) + final(vx_s1)@, forall|k: int| 0 <= k < vx_g1 ==> !is_uni1(xv(#[trigger] vx_v1[k]), false),
    ensures forall|k: int| 0 <= k < vx_v1.len() ==> !is_uni1(xv(#[trigger] vx_v1[k]), false),
    decreases vx_v1.len() - vx_g1
@at loopstart 1
proof {
    if vx_g1 < vx_v1.len() {
        assert(vx_v1.skip(vx_g1).skip(1) =~= vx_v1.skip(vx_g1 + 1));
        assert(vx_v1.take(vx_g1 + 1) =~= vx_v1.take(vx_g1) + seq![vx_v1[vx_g1]]);
    }
}
@at before-return 0
proof {
    assert(vx_f1 == vx_v1[vx_g1]);
    assert(vx_vf1 =~= vx_v1.update(vx_g1, vx_ff1));
    assert(xvs(vx_vf1) =~= xvs(vx_v1).update(vx_g1, xv(vx_ff1)));
    let g = vx_g1;
    if exists|k: int| 0 <= k < u0.len() && is_uni1(xv(#[trigger] u0[k]), false) {
        lemma_find_uni(xvs(u0), false, g);
    } else {
        if g < u0.len() { assert(is_uni1(xv(u0[g]), false)); }
        lemma_find_uni(xvs(u0), false, u0.len() as int);
        assert(xvs(vx_vf1) =~= xvs(u0).push(xv(vx_ff1)));
    }
}
@at loopafter 1
proof {
    if vx_v1 != u0 { assert(is_uni1(xv(vx_v1[u0.len() as int]), false)); }
    assert(exists|k: int| 0 <= k < vx_v1.len() && is_uni1(xv(#[trigger] vx_v1[k]), false));
    assert(false);
}
@end
@fn Zip64ExtendedInformationExtraFieldBuilder::new
@kinds
@contract
    ensures xv_zip64(r.field) == (XF::Zip64 { id: 1, us: None, cs: None, off: None, disk: None }),
@end
@fn Zip64ExtendedInformationExtraFieldBuilder::sizes
@kinds
@contract
    ensures r.field == (Zip64ExtendedInformationExtraField { compressed_size: Some(compressed_size), uncompressed_size: Some(uncompressed_size), ..self.field }),
@end
@fn Zip64ExtendedInformationExtraFieldBuilder::relative_header_offset
@kinds
@contract
    ensures r.field == (Zip64ExtendedInformationExtraField { relative_header_offset: Some(relative_header_offset), ..self.field }),
@end
@fn Zip64ExtendedInformationExtraFieldBuilder::disk_start_number
@kinds
@contract
    ensures r.field == (Zip64ExtendedInformationExtraField { disk_start_number: Some(disk_start_number), ..self.field }),
@end
@fn Zip64ExtendedInformationExtraFieldBuilder::eof_only
@kinds
@contract
    ensures r == (self.field.uncompressed_size is None && self.field.compressed_size is None && (self.field.relative_header_offset is Some || self.field.disk_start_number is Some)),
@end
@fn Zip64ExtendedInformationExtraFieldBuilder::build
@kinds
@contract
    requires self.field.disk_start_number is None,
    ensures
        r matches Ok(f) ==> f == self.field,
        r is Ok <==> zip64_content(xv_zip64(self.field)).len() > 0,
        r matches Err(e) ==> e is Zip64ExtendedFieldIncomplete,
@end
