@fn reverse_search_buffer
@kinds for-rev-range,for-rev-enum
@attrs
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@contract
    requires signature@.len() > 0,
    ensures
        r matches Some(i) ==> i < buffer@.len() && ends_at(buffer@, signature@, i as int)
            && forall|e: int| i < e < buffer@.len() ==> !ends_at(buffer@, signature@, e),
        r is None ==> forall|e: int| 0 <= e < buffer@.len() ==> !ends_at(buffer@, signature@, e),
@loop 0
    invariant_except_break
        vx_s0 == 0, vx_i0 <= buffer@.len(),
        forall|e: int| vx_i0 <= e < buffer@.len() ==> !ends_at(buffer@, signature@, e),
    ensures
        forall|e: int| 0 <= e < buffer@.len() ==> !ends_at(buffer@, signature@, e),
    decreases vx_i0
@loop 1
    invariant
        vx_i1 <= signature@.len(), vx_s1@ == signature@,
        forall|k: int| 0 <= k < vx_i1 ==> k <= index && buffer@[index - k] == #[trigger] signature@[signature@.len() - 1 - k],
    decreases vx_s1@.len() - vx_i1
@at before-return 0
proof {
    let m = signature@.len() as int;
    assert(ends_at(buffer@, signature@, index as int)) by {
        assert(m - 1 <= index) by { let k = m - 1; assert(signature@[m - 1 - k] == buffer@[index - k]); }
        assert forall|k: int| 0 <= k < m implies #[trigger] buffer@[index + 1 - m + k] == signature@[k] by {
            let j = m - 1 - k;
            assert(signature@[m - 1 - j] == buffer@[index - j]);
        }
    }
}
@at loopstart 1
proof {
    let m = signature@.len() as int;
    if ends_at(buffer@, signature@, index as int) {
        assert(buffer@[index + 1 - m + (m - 1 - vx_i1)] == signature@[m - 1 - vx_i1]);
    }
    if index < vx_i1 {
        assert forall|e: int| 0 <= e <= index implies !ends_at(buffer@, signature@, e) by {}
    }
}
@end

@fn eocdr
@kinds loop,while
@attrs
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@contract
    requires old(reader).pos() >= 0,
    ensures
        final(reader).data() == old(reader).data(), final(reader).nofail() == old(reader).nofail(), final(reader).pos() >= 0,
        r matches Ok(p) ==> {
            &&& 4 <= p <= old(reader).data().len()
            &&& occurs(old(reader).data(), eocdr_sig(), p - 4)
            &&& forall|q: int| p - 4 < q ==> !occurs(old(reader).data(), eocdr_sig(), q)
        },
        r matches Err(e) ==> old(reader).nofail() && old(reader).data().len() <= u64::MAX ==> {
            &&& e is UnableToLocateEOCDR
            &&& forall|q: int| q >= old(reader).data().len() - 65557 ==> !occurs(old(reader).data(), eocdr_sig(), q)
        },
@at after signature
proof {
    assert((0x6054b50u32 & 0xff) as u8 == 0x50 && ((0x6054b50u32 >> 8) & 0xff) as u8 == 0x4b && ((0x6054b50u32 >> 16) & 0xff) as u8 == 5
        && (0x6054b50u32 >> 24) as u8 == 6) by (bit_vector);
    assert(signature@ =~= eocdr_sig());
}
let ghost d = reader.data();
@loop 0
    invariant
        reader.data() == d, reader.nofail() == old(reader).nofail(), reader.pos() == position, position <= length, length == d.len(),
        forall|q: int| q >= position + 2045 ==> !occurs(d, eocdr_sig(), q),
    decreases position
@loop 1
    invariant
        read <= 2048,
        reader.data() == d, reader.nofail() == old(reader).nofail(), reader.pos() == position + read,
        read <= avail(d, position as int),
        forall|i: int| 0 <= i < read ==> #[trigger] buffer@[i] == d[position + i],
    ensures
        read == min(2048, avail(d, position as int)),
    decreases 2048 - read
@at before-call reverse_search_buffer
let ghost view = buffer@.subrange(0, read as int);
proof {
    assert forall|q: int| position <= q && q + 4 <= position + read implies #[trigger] occurs(d, eocdr_sig(), q) == ends_at(view, eocdr_sig(), q - position + 3) by {
        if occurs(view, eocdr_sig(), q - position) {
            assert forall|k: int| 0 <= k < 4 implies #[trigger] d[q + k] == eocdr_sig()[k] by { assert(view[q - position + k] == eocdr_sig()[k]); }
        }
        if occurs(d, eocdr_sig(), q) {
            assert forall|k: int| 0 <= k < 4 implies #[trigger] view[q - position + k] == eocdr_sig()[k] by { assert(d[q + k] == eocdr_sig()[k]); }
        }
    }
}
@end
