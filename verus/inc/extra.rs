// P03: extra fields (APPNOTE 4.5, 4.5.3, 4.6.8, 4.6.9).
/// Value view of an extra field (vectors as sequences).
pub enum XF {
    Zip64 { id: u16, us: Option<u64>, cs: Option<u64>, off: Option<u64>, disk: Option<u32> },
    Comment { version: u8, crc: u32, bytes: Seq<u8> },
    Path { version: u8, crc: u32, bytes: Seq<u8> },
    Unknown { id: u16, size: u16, bytes: Seq<u8> },
}
pub open spec fn xv(f: ExtraField) -> XF {
    match f {
        ExtraField::Zip64ExtendedInformation(z) => xv_zip64(z),
        ExtraField::InfoZipUnicodeComment(c) => xv_comment(c),
        ExtraField::InfoZipUnicodePath(c) => xv_path(c),
        ExtraField::Unknown(u) => XF::Unknown { id: u.header_id.0, size: u.data_size, bytes: u.content@ },
    }
}
pub open spec fn xv_zip64(z: Zip64ExtendedInformationExtraField) -> XF {
    XF::Zip64 { id: z.header_id.0, us: z.uncompressed_size, cs: z.compressed_size, off: z.relative_header_offset, disk: z.disk_start_number }
}
pub open spec fn xv_comment(c: InfoZipUnicodeCommentExtraField) -> XF {
    match c {
        InfoZipUnicodeCommentExtraField::V1 { crc32, unicode } => XF::Comment { version: 1, crc: crc32, bytes: unicode@ },
        InfoZipUnicodeCommentExtraField::Unknown { version, data } => if version == 1 { XF::Unknown { id: 0x6375, size: (1 + data@.len()) as u16, bytes: seq![1u8] + data@ } } else { XF::Comment { version, crc: 0, bytes: data@ } },
    }
}
pub open spec fn xv_path(c: InfoZipUnicodePathExtraField) -> XF {
    match c {
        InfoZipUnicodePathExtraField::V1 { crc32, unicode } => XF::Path { version: 1, crc: crc32, bytes: unicode@ },
        InfoZipUnicodePathExtraField::Unknown { version, data } => if version == 1 { XF::Unknown { id: 0x7075, size: (1 + data@.len()) as u16, bytes: seq![1u8] + data@ } } else { XF::Path { version, crc: 0, bytes: data@ } },
    }
}
pub open spec fn opt8(o: Option<u64>) -> Seq<u8> { match o { Some(v) => le8(v), None => Seq::empty() } }
pub open spec fn opt4(o: Option<u32>) -> Seq<u8> { match o { Some(v) => le4(v), None => Seq::empty() } }
pub open spec fn zip64_content(x: XF) -> Seq<u8> {
    opt8(x->us) + opt8(x->cs) + opt8(x->off) + opt4(x->disk)
}
pub open spec fn unicode_content(version: u8, crc: u32, bytes: Seq<u8>) -> Seq<u8> {
    if version == 1 { seq![1u8] + le4(crc) + bytes } else { seq![version] + bytes }
}
/// the data block of a field, without its 4-byte header
pub open spec fn xf_content(x: XF) -> Seq<u8> {
    match x {
        XF::Zip64 { .. } => zip64_content(x),
        XF::Comment { version, crc, bytes } => unicode_content(version, crc, bytes),
        XF::Path { version, crc, bytes } => unicode_content(version, crc, bytes),
        XF::Unknown { bytes, .. } => bytes,
    }
}
pub open spec fn xf_id(x: XF) -> u16 {
    match x { XF::Zip64 { id, .. } => id, XF::Comment { .. } => 0x6375, XF::Path { .. } => 0x7075, XF::Unknown { id, .. } => id }
}
/// what the header of the field says its size is
pub open spec fn xf_size(x: XF) -> u16 { match x { XF::Unknown { size, .. } => size, _ => xf_content(x).len() as u16 } }
pub open spec fn ser_xf(x: XF) -> Seq<u8> { le2(xf_id(x)) + le2(xf_size(x)) + xf_content(x) }
pub open spec fn ser_xfs(s: Seq<XF>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { ser_xfs(s.drop_last()) + ser_xf(s.last()) }
}
pub open spec fn xvs(s: Seq<ExtraField>) -> Seq<XF> { s.map_values(|f: ExtraField| xv(f)) }
/// no disk number: the writers never put one in a ZIP64 field (and drop ZIP64 fields they are handed)
pub open spec fn xf_nodisk(x: XF) -> bool { x is Zip64 ==> x->disk is None }
pub open spec fn xfs_nodisk(s: Seq<XF>) -> bool { forall|i: int| 0 <= i < s.len() ==> xf_nodisk(#[trigger] s[i]) }
/// fields whose data fit the 16-bit size of a field header (a longer one cannot be written at all)
pub open spec fn xf_fits(x: XF) -> bool { xf_content(x).len() <= 0xffff }
pub open spec fn xfs_fit(s: Seq<XF>) -> bool { forall|i: int| 0 <= i < s.len() ==> xf_fits(#[trigger] s[i]) }

pub trait ExtraFieldAsBytes {
    spec fn ser(&self) -> Seq<u8>;
    spec fn fits(&self) -> bool;
    spec fn nodisk(&self) -> bool;
    fn as_bytes(&self) -> (r: Vec<u8>)
        requires self.fits(), self.nodisk(), self.ser().len() <= usize::MAX,
        ensures r@ == self.ser();
    fn count_bytes(&self) -> (r: usize)
        requires self.nodisk(), self.ser().len() <= usize::MAX,
        ensures r == self.ser().len();
}

/// A Zip64 field: a size is in it only if the header's own value is 0xFFFFFFFF (4.5.3), in this order, as far as the data reach.
pub open spec fn par_zip64(id: u16, d: Seq<u8>, us: u32, cs: u32) -> XF {
    let has_us = us == 0xffff_ffff && d.len() >= 8;
    let i1 = if has_us { 8int } else { 0 };
    let has_cs = cs == 0xffff_ffff && d.len() >= i1 + 8;
    let i2 = if has_cs { i1 + 8 } else { i1 };
    let has_off = d.len() >= i2 + 8;
    let i3 = if has_off { i2 + 8 } else { i2 };
    let has_disk = d.len() >= i3 + 4;
    XF::Zip64 {
        id,
        us: if has_us { Some(at8(d, 0)) } else { None },
        cs: if has_cs { Some(at8(d, i1)) } else { None },
        off: if has_off { Some(at8(d, i2)) } else { None },
        disk: if has_disk { Some(at4(d, i3)) } else { None },
    }
}
/// None: the field is malformed
pub open spec fn par_unicode_ok(d: Seq<u8>) -> bool { d.len() >= 1 && (d[0] == 1 ==> d.len() >= 5) }
pub open spec fn par_xf(id: u16, d: Seq<u8>, us: u32, cs: u32) -> Option<XF> {
    if id == 1 { Some(par_zip64(id, d, us, cs)) }
    else if id == 0x6375 {
        if !par_unicode_ok(d) { None }
        else if d[0] == 1 { Some(XF::Comment { version: 1, crc: at4(d, 1), bytes: d.skip(5) }) }
        else { Some(XF::Comment { version: d[0], crc: 0, bytes: d.skip(1) }) }
    } else if id == 0x7075 {
        if !par_unicode_ok(d) { None }
        else if d[0] == 1 { Some(XF::Path { version: 1, crc: at4(d, 1), bytes: d.skip(5) }) }
        else { Some(XF::Path { version: d[0], crc: 0, bytes: d.skip(1) }) }
    } else { Some(XF::Unknown { id, size: d.len() as u16, bytes: d }) }
}
/// Parses from index c on; fewer than 4 bytes at the end are ignored.
pub open spec fn par_xfs(d: Seq<u8>, c: int, us: u32, cs: u32) -> Option<Seq<XF>> decreases d.len() - c {
    if c < 0 || c + 4 > d.len() { Some(Seq::empty()) }
    else {
        let n = at2(d, c + 2) as int;
        if c + 4 + n > d.len() { None }
        else {
            match (par_xf(at2(d, c), d.subrange(c + 4, c + 4 + n), us, cs), par_xfs(d, c + 4 + n, us, cs)) {
                (Some(x), Some(rest)) => Some(seq![x] + rest),
                _ => None,
            }
        }
    }
}
pub open spec fn cat_xfs(a: Seq<XF>, b: Option<Seq<XF>>) -> Option<Seq<XF>> { match b { Some(b) => Some(a + b), None => None } }
pub proof fn lemma_cat_empty(o: Option<Seq<XF>>) ensures cat_xfs(Seq::<XF>::empty(), o) == o {
    if let Some(s) = o { assert(Seq::<XF>::empty() + s =~= s); }
}
pub proof fn lemma_cat_push(s: Seq<ExtraField>, f: ExtraField, rest: Option<Seq<XF>>)
    ensures cat_xfs(xvs(s.push(f)), rest) == cat_xfs(xvs(s), cat_xfs(seq![xv(f)], rest))
{
    if let Some(r) = rest { assert(xvs(s.push(f)) + r =~= xvs(s) + (seq![xv(f)] + r)); }
}
pub proof fn lemma_ser_take(s: Seq<ExtraField>, i: int)
    requires 0 <= i < s.len()
    ensures
        ser_xfs(xvs(s.take(i + 1))) == ser_xfs(xvs(s.take(i))) + ser_xf(xv(s[i])),
        ser_xfs(xvs(s.take(i))).len() + ser_xf(xv(s[i])).len() <= ser_xfs(xvs(s)).len(),
        xvs(s)[i] == xv(s[i]),
{
    let a = xvs(s.take(i + 1));
    assert(a.drop_last() =~= xvs(s.take(i)));
    assert(a.last() == xv(s[i]));
    lemma_ser_prefix(s, i + 1);
}
pub proof fn lemma_ser_prefix(s: Seq<ExtraField>, i: int)
    requires 0 <= i <= s.len()
    ensures ser_xfs(xvs(s.take(i))).len() <= ser_xfs(xvs(s)).len()
    decreases s.len() - i
{
    if i < s.len() {
        let a = xvs(s.take(i + 1));
        assert(a.drop_last() =~= xvs(s.take(i)));
        lemma_ser_prefix(s, i + 1);
    } else { assert(s.take(i) =~= s); }
}
/// a version-1 Unicode field of the kind: path or comment
pub open spec fn is_uni1(x: XF, path: bool) -> bool {
    match x { XF::Path { version, .. } => path && version == 1, XF::Comment { version, .. } => !path && version == 1, _ => false }
}
/// the first such field (or the length)
pub open spec fn find_uni(s: Seq<XF>, path: bool) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if is_uni1(s[0], path) { 0 } else { 1 + find_uni(s.skip(1), path) }
}
/// that field replaced, or a new one put at the end
pub open spec fn set_uni(s: Seq<XF>, path: bool, x: XF) -> Seq<XF> {
    let i = find_uni(s, path);
    if i < s.len() { s.update(i, x) } else { s.push(x) }
}
pub proof fn lemma_find_uni(s: Seq<XF>, path: bool, i: int)
    requires 0 <= i <= s.len(), forall|k: int| 0 <= k < i ==> !is_uni1(#[trigger] s[k], path), i < s.len() ==> is_uni1(s[i], path)
    ensures find_uni(s, path) == i
    decreases s.len()
{
    if i > 0 {
        assert forall|k: int| 0 <= k < i - 1 implies !is_uni1(#[trigger] s.skip(1)[k], path) by { assert(s.skip(1)[k] == s[k + 1]); }
        if i < s.len() { assert(s.skip(1)[i - 1] == s[i]); }
        lemma_find_uni(s.skip(1), path, i - 1);
    }
}
pub proof fn lemma_find_uni_range(s: Seq<XF>, path: bool)
    ensures 0 <= find_uni(s, path) <= s.len(), find_uni(s, path) < s.len() ==> is_uni1(s[find_uni(s, path)], path),
        forall|k: int| 0 <= k < find_uni(s, path) ==> !is_uni1(#[trigger] s[k], path)
    decreases s.len()
{
    if s.len() > 0 && !is_uni1(s[0], path) {
        lemma_find_uni_range(s.skip(1), path);
        let n = find_uni(s, path);
        if n < s.len() { assert(s.skip(1)[n - 1] == s[n]); }
        assert forall|k: int| 0 <= k < n implies !is_uni1(#[trigger] s[k], path) by { if k > 0 { assert(s.skip(1)[k - 1] == s[k]); } }
    }
}
/// replacing the ZIP64 field found first
pub open spec fn find_z64(s: Seq<XF>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if s[0] is Zip64 { 0 } else { 1 + find_z64(s.skip(1)) }
}
pub proof fn lemma_find_z64(s: Seq<XF>, i: int)
    requires 0 <= i <= s.len(), forall|k: int| 0 <= k < i ==> !(#[trigger] s[k] is Zip64), i < s.len() ==> s[i] is Zip64
    ensures find_z64(s) == i
    decreases s.len()
{
    if i > 0 {
        assert forall|k: int| 0 <= k < i - 1 implies !(#[trigger] s.skip(1)[k] is Zip64) by { assert(s.skip(1)[k] == s[k + 1]); }
        if i < s.len() { assert(s.skip(1)[i - 1] == s[i]); }
        lemma_find_z64(s.skip(1), i - 1);
    }
}
