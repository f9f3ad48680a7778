@fn assert_signature
@kinds
@contract
    requires old(reader).pos() >= 0,
    ensures
        rsame(*old(reader), *final(reader)),
        r is Ok ==> {
            &&& 4 <= avail(old(reader).data(), old(reader).pos()) && at4(old(reader).data(), old(reader).pos()) == expected
            &&& final(reader).pos() == old(reader).pos() + 4
        },
        old(reader).nofail() ==> (r is Ok <==> 4 <= avail(old(reader).data(), old(reader).pos()) && at4(old(reader).data(), old(reader).pos()) == expected),
        r matches Err(e) ==> old(reader).nofail() ==> if avail(old(reader).data(), old(reader).pos()) < 4 { e is UpstreamReadError }
            else { e == ZipError::UnexpectedHeaderError(at4(old(reader).data(), old(reader).pos()), expected) },
@end
@fn read_bytes
@kinds
@map Vec::with_capacity => vx_with_capacity_bounded
@contract
    requires old(reader).pos() >= 0, length <= 0xffff,
    ensures
        rsame(*old(reader), *final(reader)),
        old(reader).nofail() ==> r is Ok,
        r matches Ok(v) ==> {
            &&& v@ == tk(old(reader).data(), old(reader).pos(), length as int)
            &&& final(reader).pos() == tkend(old(reader).data(), old(reader).pos(), length as int)
        },
@end
@fn read_string
@kinds
@contract
    requires old(reader).pos() >= 0, length <= 0xffff,
    ensures
        rsame(*old(reader), *final(reader)),
        old(reader).nofail() ==> r is Ok,
        r matches Ok(s) ==> {
            &&& zs_ok(s)
            &&& zv(s) == (ZS { utf8: encoding is Utf8 && utf8_valid(tk(old(reader).data(), old(reader).pos(), length as int)),
                    raw: tk(old(reader).data(), old(reader).pos(), length as int), alt: None })
            &&& final(reader).pos() == tkend(old(reader).data(), old(reader).pos(), length as int)
        },
@end
@fn CombinedCentralDirectoryRecord::combine
@kinds
@contract
    ensures endv(r) == z64_end(eocdr, zip64eocdr), r.file_comment_length == eocdr.file_comm_length,
@end
@fn <CombinedCentralDirectoryRecord as From<&EndOfCentralDirectoryHeader>>::from [inherent]
@kinds
@contract
    ensures endv(r) == plain_end(*header), r.file_comment_length == header.file_comm_length,
@end
@fn get_zip64_extra_field
@kinds for-slice
@contract
    ensures
        r is Some <==> first_z64(xvs(extra_fields@)) is Some,
        r matches Some(z) ==> first_z64(xvs(extra_fields@)) == Some(xv_zip64(*z)),
@loop 0
    invariant vx_i0 <= vx_s0@.len(), vx_s0@ == extra_fields@, forall|k: int| 0 <= k < vx_i0 ==> !is_z64(#[trigger] extra_fields@[k]),
    decreases vx_s0@.len() - vx_i0
@at before-return 0
proof { lemma_first_z64(extra_fields@, vx_i0 - 1); }
@at end
proof { lemma_no_z64(extra_fields@); }
@end
@fn get_combined_sizes
@kinds
@contract
    ensures r == Ok::<(u64, u64), ZipError>((
        match *extra_field { Some(z) if z.uncompressed_size is Some => z.uncompressed_size->0, _ => uncompressed_size as u64 },
        match *extra_field { Some(z) if z.compressed_size is Some => z.compressed_size->0, _ => compressed_size as u64 })),
@end
@fn detect_comment
@kinds find_map
@contract
    ensures zs_ok(r), zv(r) == decode(basic@, basic_is_utf8, xvs(extra_fields@), false),
@map .into() => .vx_into_zs()
@map let mut vx_o0 = None => let mut vx_o0: Option<Result<VString, VxTryErr>> = None
@loop 0
    invariant
        vx_i0 <= vx_s0@.len(), vx_s0@ == extra_fields@,
        vx_o0 is None ==> forall|k: int| 0 <= k < vx_i0 ==> uni_of(xv(#[trigger] extra_fields@[k]), false, basic@) is None,
        vx_o0 matches Some(o) ==> vx_i0 > 0 && uni_of(xv(extra_fields@[vx_i0 - 1]), false, basic@) is Some
            && (o is Ok <==> utf8_valid(uni_of(xv(extra_fields@[vx_i0 - 1]), false, basic@)->0))
            && (o matches Ok(s) ==> s.sv() == uni_of(xv(extra_fields@[vx_i0 - 1]), false, basic@)->0)
            && forall|k: int| 0 <= k < vx_i0 - 1 ==> uni_of(xv(#[trigger] extra_fields@[k]), false, basic@) is None,
    decreases vx_s0@.len() - vx_i0
@at start
broadcast use axiom_ascii_is_utf8;
@at loopafter 0
proof { if vx_o0 is Some { lemma_first_uni(extra_fields@, false, basic@, vx_i0 - 1); } else { lemma_no_uni(extra_fields@, false, basic@); } }
@end
@fn detect_filename
@kinds find_map
@contract
    ensures zs_ok(r), zv(r) == decode(basic@, basic_is_utf8, xvs(extra_fields@), true),
@map .into() => .vx_into_zs()
@map let mut vx_o0 = None => let mut vx_o0: Option<Result<VString, VxTryErr>> = None
@loop 0
    invariant
        vx_i0 <= vx_s0@.len(), vx_s0@ == extra_fields@,
        vx_o0 is None ==> forall|k: int| 0 <= k < vx_i0 ==> uni_of(xv(#[trigger] extra_fields@[k]), true, basic@) is None,
        vx_o0 matches Some(o) ==> vx_i0 > 0 && uni_of(xv(extra_fields@[vx_i0 - 1]), true, basic@) is Some
            && (o is Ok <==> utf8_valid(uni_of(xv(extra_fields@[vx_i0 - 1]), true, basic@)->0))
            && (o matches Ok(s) ==> s.sv() == uni_of(xv(extra_fields@[vx_i0 - 1]), true, basic@)->0)
            && forall|k: int| 0 <= k < vx_i0 - 1 ==> uni_of(xv(#[trigger] extra_fields@[k]), true, basic@) is None,
    decreases vx_s0@.len() - vx_i0
@at start
broadcast use axiom_ascii_is_utf8;
@at loopafter 0
proof { if vx_o0 is Some { lemma_first_uni(extra_fields@, true, basic@, vx_i0 - 1); } else { lemma_no_uni(extra_fields@, true, basic@); } }
@end
@fn cd_record
@kinds
@contract
    requires old(reader).pos() >= 0,
    ensures
        rsame(*old(reader), *final(reader)),
        r matches Ok(e) ==> {
            &&& cdr_ok(old(reader).data(), old(reader).pos())
            &&& cdr_is(old(reader).data(), old(reader).pos(), e)
            &&& final(reader).pos() == cdr_end(old(reader).data(), old(reader).pos())
        },
        r matches Err(e) ==> old(reader).nofail() ==> !cdr_ok(old(reader).data(), old(reader).pos())
            && cdr_err(old(reader).data(), old(reader).pos(), e),
@end
@fn cd
@kinds for-range
@attrs
#[verifier::loop_isolation(false)]
@map Vec::with_capacity => vx_with_capacity_bounded
@contract
    requires old(reader).pos() >= 0,
    ensures
        rsame(*old(reader), *final(reader)),
        r matches Ok(v) ==> cd_is(old(reader).data(), old(reader).pos(), num_of_entries as int, v@),
        r is Err ==> old(reader).nofail() ==> exists|i: nat| i < num_of_entries && !#[trigger] cdr_ok(old(reader).data(), cd_pos(old(reader).data(), old(reader).pos(), i)),
@at start
hide(cdr_ok); hide(cdr_is); hide(cdr_end);
let ghost d = reader.data();
let ghost p = reader.pos();
let ghost n0 = num_of_entries;
@loop 0
    invariant
        vx_i0 <= vx_end0, vx_end0 == n0, p >= 0, d == old(reader).data(), p == old(reader).pos(),
        rsame(*old(reader), *reader), reader.pos() == cd_pos(d, p, vx_i0 as nat), cd_is(d, p, vx_i0 as int, entries@),
    decreases vx_end0 - vx_i0
@at loopstart 0
let ghost i = vx_i0 as nat;
let ghost es = entries@;
proof { assert(cdr_ok(d, cd_pos(d, p, i)) || !cdr_ok(d, cd_pos(d, p, i))); }
@at loopend 0
proof {
    assert(entries@ == es.push(entries@.last()));
    assert(cd_pos(d, p, (i + 1) as nat) == cdr_end(d, cd_pos(d, p, i)));
    assert forall|k: int| 0 <= k < i + 1 implies cd_rec(d, p, k, #[trigger] entries@[k]) by {
        if k < i { assert(entries@[k] == es[k]); assert(cd_rec(d, p, k, es[k])); }
    }
}
@end
@fn file [file=base/read/mod.rs]
@kinds
@at start
hide(cdr_ok); hide(cdr_is); hide(cdr_end);
let ghost d = reader.data();
@at after eocdr_offset
let ghost p = eocdr_offset as int;
proof { assert(is_eocdr(d, p)); }
@at after comment
proof { assert(eocdr == end_h(d, p)); }
@at before entries
proof { assert(reader.pos() == end_of(d, p).off as int && eocdr.num_entries_in_directory == end_of(d, p).n); }
@contract
    requires old(reader).pos() >= 0, old(reader).data().len() <= u64::MAX,
    ensures
        rsame(*old(reader), *final(reader)),
        r matches Ok(f) ==> exists|p: int| is_eocdr(old(reader).data(), p) && file_is(old(reader).data(), p, f),
        r matches Err(e) ==> old(reader).nofail() ==> {
            ||| e is UnableToLocateEOCDR && forall|q: int| q >= old(reader).data().len() - 65557 ==> !occurs(old(reader).data(), eocdr_sig(), q)
            ||| exists|p: int| is_eocdr(old(reader).data(), p) && !file_ok(old(reader).data(), p)
        },
@end
@fn lfh
@kinds
@map VString::new().into() => VString::new().vx_into_zs()
@contract
    requires old(reader).pos() >= 0,
    ensures
        rsame(*old(reader), *final(reader)),
        r matches Ok(Some(e)) ==> {
            &&& lfh_ok(old(reader).data(), old(reader).pos())
            &&& ev(e) == lfh_ev(old(reader).data(), old(reader).pos()) && e_ok(e)
            &&& final(reader).pos() == lfh_end(old(reader).data(), old(reader).pos())
        },
        r matches Ok(None) ==> 4 <= avail(old(reader).data(), old(reader).pos()) && end_sig(at4(old(reader).data(), old(reader).pos())),
        r matches Err(e) ==> old(reader).nofail() ==> !lfh_ok(old(reader).data(), old(reader).pos())
            && !(4 <= avail(old(reader).data(), old(reader).pos()) && end_sig(at4(old(reader).data(), old(reader).pos())))
            && lfh_err(old(reader).data(), old(reader).pos(), e),
@end
@fn StoredZipEntry::seek_to_data_offset
@kinds
@contract
    requires old(reader).pos() >= 0,
    ensures
        rsame(*old(reader), *final(reader)),
        r is Ok ==> {
            &&& 30 <= avail(old(reader).data(), self.file_offset as int) && at4(old(reader).data(), self.file_offset as int) == 0x04034b50
            &&& final(reader).pos() == data_off(old(reader).data(), self.file_offset as int)
        },
        r matches Err(e) ==> old(reader).nofail() ==> !(30 <= avail(old(reader).data(), self.file_offset as int)
            && at4(old(reader).data(), self.file_offset as int) == 0x04034b50 && data_off(old(reader).data(), self.file_offset as int) <= u64::MAX),
        r matches Err(e) ==> old(reader).nofail() && 4 <= avail(old(reader).data(), self.file_offset as int) && at4(old(reader).data(), self.file_offset as int) != 0x04034b50
            ==> e == ZipError::UnexpectedHeaderError(at4(old(reader).data(), self.file_offset as int), 0x04034b50),
@end
@fn consume_data_descriptor
@kinds
@at before-call vx_slice_eq
proof {
    lemma_sig4(descriptor@.subrange(0, 4), 0x08074b50u32);
    assert(descriptor@.subrange(0, 4) =~= old(reader).data().subrange(old(reader).pos(), old(reader).pos() + 4));
}
@contract
    requires old(reader).pos() >= 0,
    ensures
        rsame(*old(reader), *final(reader)),
        r is Ok ==> final(reader).pos() == old(reader).pos() + dd_len(old(reader).data(), old(reader).pos())
            && dd_len(old(reader).data(), old(reader).pos()) <= avail(old(reader).data(), old(reader).pos()),
        r matches Err(e) ==> e is UpstreamReadError,
        old(reader).nofail() ==> (r is Ok <==> 12 <= avail(old(reader).data(), old(reader).pos())
            && dd_len(old(reader).data(), old(reader).pos()) <= avail(old(reader).data(), old(reader).pos())),
@end
@fn ZipFile::entries
@kinds
@contract
    ensures r@ == self.entries@,
@end
@fn ZipFile::comment
@kinds
@contract
    ensures *r == self.comment,
@end
@fn ZipFile::zip64
@kinds
@contract
    ensures r == self.zip64,
@end
