// P01: where the end of central directory record is.
pub open spec fn eocdr_sig() -> Seq<u8> { seq![0x50u8, 0x4bu8, 5u8, 6u8] }
/// the bytes s occur in d at q
pub open spec fn occurs(d: Seq<u8>, s: Seq<u8>, q: int) -> bool {
    0 <= q && q + s.len() <= d.len() && forall|k: int| 0 <= k < s.len() ==> #[trigger] d[q + k] == s[k]
}
/// s ends in b at index e (inclusive)
pub open spec fn ends_at(b: Seq<u8>, s: Seq<u8>, e: int) -> bool { occurs(b, s, e + 1 - s.len()) }
