// C15: reading undoes writing. Lemmas over the contracts of the writers (archive.rs, wstream.rs, wclose.rs) and of the readers (read.rs).

// ---- numbers at a position ------------------------------------------------------------------------------------------
pub proof fn lemma_at2(d: Seq<u8>, i: int, x: u16)
    requires 0 <= i, i + 2 <= d.len(), d.subrange(i, i + 2) == le2(x)
    ensures at2(d, i) == x
{ lemma_un2(x); }

// ---- extra fields -----------------------------------------------------------------------------------------------------
/// a field that says what it is: its data are read as its kind, under a header with these sizes
pub open spec fn xf_sane(x: XF, us: u32, cs: u32) -> bool {
    xf_fits(x) && match x {
        XF::Zip64 { id, us: u, cs: c, disk, .. } => id == 1 && disk is None && (u is Some <==> us == 0xffff_ffff) && (c is Some <==> cs == 0xffff_ffff),
        XF::Comment { version, crc, .. } => version != 1 ==> crc == 0,
        XF::Path { version, crc, .. } => version != 1 ==> crc == 0,
        XF::Unknown { id, size, bytes } => id != 1 && id != 0x6375 && id != 0x7075 && size == bytes.len(),
    }
}
pub open spec fn xfs_sane(s: Seq<XF>, us: u32, cs: u32) -> bool { forall|i: int| 0 <= i < s.len() ==> xf_sane(#[trigger] s[i], us, cs) }
pub proof fn lemma_par_zip64(x: XF, us: u32, cs: u32)
    requires xf_sane(x, us, cs), x is Zip64
    ensures par_xf(xf_id(x), xf_content(x), us, cs) == Some(x)
{
    let d = xf_content(x);
    if let XF::Zip64 { id, us: u, cs: c, off, disk } = x {
        let i1 = if u is Some { 8int } else { 0 };
        let i2 = if c is Some { i1 + 8 } else { i1 };
        if u is Some { lemma_un8(u->0); assert(d.subrange(0, 8) =~= le8(u->0)); }
        if c is Some { lemma_un8(c->0); assert(d.subrange(i1, i1 + 8) =~= le8(c->0)); }
        if off is Some { lemma_un8(off->0); assert(d.subrange(i2, i2 + 8) =~= le8(off->0)); }
    }
}
pub proof fn lemma_par_unicode(version: u8, crc: u32, bytes: Seq<u8>)
    requires version != 1 ==> crc == 0
    ensures
        par_unicode_ok(unicode_content(version, crc, bytes)), unicode_content(version, crc, bytes)[0] == version,
        version == 1 ==> at4(unicode_content(version, crc, bytes), 1) == crc && unicode_content(version, crc, bytes).skip(5) == bytes,
        version != 1 ==> unicode_content(version, crc, bytes).skip(1) == bytes,
{
    let d = unicode_content(version, crc, bytes);
    if version == 1 { lemma_un4(crc); assert(d.subrange(1, 5) =~= le4(crc)); assert(d.skip(5) =~= bytes); } else { assert(d.skip(1) =~= bytes); }
}
pub proof fn lemma_par_xf(x: XF, us: u32, cs: u32)
    requires xf_sane(x, us, cs)
    ensures par_xf(xf_id(x), xf_content(x), us, cs) == Some(x)
{
    match x {
        XF::Zip64 { .. } => lemma_par_zip64(x, us, cs),
        XF::Comment { version, crc, bytes } => lemma_par_unicode(version, crc, bytes),
        XF::Path { version, crc, bytes } => lemma_par_unicode(version, crc, bytes),
        XF::Unknown { .. } => { },
    }
}
pub proof fn lemma_ser_cut(s: Seq<XF>, i: int) -> (t: Seq<u8>)
    requires 0 <= i <= s.len()
    ensures ser_xfs(s) == ser_xfs(s.take(i)) + t
    decreases s.len() - i
{
    if i == s.len() { assert(s.take(i) =~= s); assert(ser_xfs(s) =~= ser_xfs(s) + Seq::<u8>::empty()); Seq::empty() }
    else {
        let t = lemma_ser_cut(s, i + 1);
        assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]);
        assert(ser_xfs(s.take(i)) + ser_xf(s[i]) + t =~= ser_xfs(s.take(i)) + (ser_xf(s[i]) + t));
        ser_xf(s[i]) + t
    }
}
pub proof fn lemma_par_from(s: Seq<XF>, i: int, us: u32, cs: u32)
    requires 0 <= i <= s.len(), xfs_sane(s, us, cs)
    ensures par_xfs(ser_xfs(s), ser_xfs(s.take(i)).len() as int, us, cs) == Some(s.skip(i))
    decreases s.len() - i
{
    let d = ser_xfs(s);
    let c = ser_xfs(s.take(i)).len() as int;
    if i == s.len() { assert(s.take(i) =~= s); assert(s.skip(i) =~= Seq::<XF>::empty()); }
    else {
        let x = s[i];
        let t = lemma_ser_cut(s, i + 1);
        let a = ser_xfs(s.take(i));
        assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == x);
        assert(d == a + ser_xf(x) + t);
        assert(xf_sane(x, us, cs));
        let n = xf_content(x).len() as int;
        assert(xf_size(x) == n);
        lemma_un2(xf_id(x)); lemma_un2(xf_size(x));
        assert(d.subrange(c, c + 2) =~= le2(xf_id(x)));
        assert(d.subrange(c + 2, c + 2 + 2) =~= le2(xf_size(x)));
        assert(at2(d, c + 2) == n);
        assert(d.subrange(c + 4, c + 4 + n) =~= xf_content(x));
        assert(ser_xfs(s.take(i + 1)).len() == c + 4 + n);
        lemma_par_xf(x, us, cs);
        lemma_par_from(s, i + 1, us, cs);
        assert(seq![x] + s.skip(i + 1) =~= s.skip(i));
    }
}
/// what is written is what is read
pub proof fn lemma_xfs_round_trip(s: Seq<XF>, us: u32, cs: u32)
    requires xfs_sane(s, us, cs)
    ensures par_xfs(ser_xfs(s), 0, us, cs) == Some(s)
{
    lemma_par_from(s, 0, us, cs);
    assert(s.take(0) =~= Seq::<XF>::empty()); assert(s.skip(0) =~= s);
}

// ---- text at a position -----------------------------------------------------------------------------------------------
/// the bytes of d from p on begin with s
pub open spec fn holds(d: Seq<u8>, p: int, s: Seq<u8>) -> bool { 0 <= p && p + s.len() <= d.len() && d.subrange(p, p + s.len()) == s }
pub proof fn lemma_holds_add(d: Seq<u8>, p: int, a: Seq<u8>, b: Seq<u8>)
    requires holds(d, p, a + b)
    ensures holds(d, p, a), holds(d, p + a.len(), b)
{
    assert(d.subrange(p, p + a.len()) =~= (a + b).subrange(0, a.len() as int)); assert((a + b).subrange(0, a.len() as int) =~= a);
    assert(d.subrange(p + a.len(), p + a.len() + b.len()) =~= (a + b).subrange(a.len() as int, (a + b).len() as int));
    assert((a + b).subrange(a.len() as int, (a + b).len() as int) =~= b);
}
pub proof fn lemma_holds_tk(d: Seq<u8>, p: int, s: Seq<u8>)
    requires holds(d, p, s)
    ensures tk(d, p, s.len() as int) == s, tkend(d, p, s.len() as int) == p + s.len(), s.len() <= avail(d, p), nxt(d, p, s.len() as int) == s
{ }
pub proof fn lemma_holds_4(d: Seq<u8>, p: int, x: u32) requires holds(d, p, le4(x)) ensures at4(d, p) == x { lemma_un4(x); }

// ---- a directory record -----------------------------------------------------------------------------------------------
pub proof fn lemma_cdr_at(d: Seq<u8>, p: int, c: CentralDirectoryEntry)
    requires holds(d, p, ser_cde(c)), cde_ok(c)
    ensures
        cdr_h(d, p) == c.header, cdr_name(d, p) == basic(zv(c.entry.filename)), cdr_extra(d, p) == ser_xfs(xvs(c.entry.extra_fields@)),
        cdr_comment(d, p) == basic(zv(c.entry.comment)), cdr_end(d, p) == p + ser_cde(c).len(), at4(d, p) == 0x02014b50, 46 <= avail(d, p),
{
    let (h, n, x, t) = (ser_cdr(c.header), basic(zv(c.entry.filename)), ser_xfs(xvs(c.entry.extra_fields@)), basic(zv(c.entry.comment)));
    let sig = le4(0x02014b50u32);
    lemma_cdr_round_trip(c.header);
    lemma_holds_add(d, p, sig + h + n + x, t);
    lemma_holds_add(d, p, sig + h + n, x);
    lemma_holds_add(d, p, sig + h, n);
    lemma_holds_add(d, p, sig, h);
    lemma_holds_4(d, p, 0x02014b50);
    lemma_holds_tk(d, p + 4, h); lemma_holds_tk(d, p + 46, n); lemma_holds_tk(d, p + 46 + n.len(), x); lemma_holds_tk(d, p + 46 + n.len() + x.len(), t);
}
/// a record whose fields say what they are, of a known method
pub open spec fn cde_sane(c: CentralDirectoryEntry) -> bool {
    cde_ok(c) && xfs_sane(xvs(c.entry.extra_fields@), c.header.uncompressed_size, c.header.compressed_size) && method_of(c.header.compression) is Some
}
/// what a record says of its entry
pub open spec fn cde_ev(c: CentralDirectoryEntry) -> EV {
    let h = c.header;
    let xs = xvs(c.entry.extra_fields@);
    EV {
        name: decode(basic(zv(c.entry.filename)), h.flags.filename_unicode, xs, true), comment: decode(basic(zv(c.entry.comment)), h.flags.filename_unicode, xs, false),
        method: method_of(h.compression)->0, crc: h.crc, us: z64_us(xs, h.uncompressed_size), cs: z64_cs(xs, h.compressed_size),
        date: ZipDateTime { date: h.mod_date, time: h.mod_time }, int_attr: h.inter_attr, ext_attr: h.exter_attr, xs, dd: h.flags.data_descriptor,
    }
}
pub open spec fn cde_off(c: CentralDirectoryEntry) -> u64 { z64_off(xvs(c.entry.extra_fields@), c.header.lh_offset) }
pub proof fn lemma_cdr_sane(d: Seq<u8>, p: int, c: CentralDirectoryEntry)
    requires holds(d, p, ser_cde(c)), cde_sane(c)
    ensures cdr_ok(d, p), cdr_ev(d, p) == cde_ev(c), cdr_off(d, p) == cde_off(c)
{
    lemma_cdr_at(d, p, c);
    lemma_xfs_round_trip(xvs(c.entry.extra_fields@), c.header.uncompressed_size, c.header.compressed_size);
}
// ---- the directory ----------------------------------------------------------------------------------------------------
pub proof fn lemma_dir_cut(s: Seq<CentralDirectoryEntry>, i: int) -> (t: Seq<u8>)
    requires 0 <= i <= s.len()
    ensures ser_dir(s) == ser_dir(s.take(i)) + t
    decreases s.len() - i
{
    if i == s.len() { assert(s.take(i) =~= s); assert(ser_dir(s) =~= ser_dir(s) + Seq::<u8>::empty()); Seq::empty() }
    else {
        let t = lemma_dir_cut(s, i + 1);
        lemma_dir_step(s, i);
        assert(ser_dir(s.take(i)) + ser_cde(s[i]) + t =~= ser_dir(s.take(i)) + (ser_cde(s[i]) + t));
        ser_cde(s[i]) + t
    }
}
pub proof fn lemma_dir_holds(d: Seq<u8>, p: int, s: Seq<CentralDirectoryEntry>, i: int)
    requires holds(d, p, ser_dir(s)), 0 <= i < s.len()
    ensures holds(d, p + ser_dir(s.take(i)).len(), ser_cde(s[i]))
{
    let t = lemma_dir_cut(s, i + 1);
    lemma_dir_step(s, i);
    lemma_holds_add(d, p, ser_dir(s.take(i)) + ser_cde(s[i]), t);
    lemma_holds_add(d, p, ser_dir(s.take(i)), ser_cde(s[i]));
}
pub proof fn lemma_cd_pos(d: Seq<u8>, p: int, s: Seq<CentralDirectoryEntry>, i: nat)
    requires holds(d, p, ser_dir(s)), all_cde_ok(s), i <= s.len()
    ensures cd_pos(d, p, i) == p + ser_dir(s.take(i as int)).len()
    decreases i
{
    if i == 0 { assert(s.take(0) =~= Seq::<CentralDirectoryEntry>::empty()); }
    else {
        lemma_cd_pos(d, p, s, (i - 1) as nat);
        lemma_dir_holds(d, p, s, i - 1);
        lemma_cdr_at(d, p + ser_dir(s.take(i - 1)).len(), s[i - 1]);
        lemma_dir_step(s, i - 1);
    }
}
// ---- the end records --------------------------------------------------------------------------------------------------
/// what the bytes of a finished archive are, its sink having been empty at first
pub open spec fn archive_of(d: Seq<u8>, pre: Seq<u8>, cds: Seq<CentralDirectoryEntry>, z64: bool, comment: Seq<u8>) -> bool {
    let dir = ser_dir(cds);
    &&& d == pre + (dir + ser_ends(z64, cds.len() as int, pre.len() as u64, dir.len() as u64, comment))
    &&& pre.len() + dir.len() <= u64::MAX && cds.len() <= usize::MAX && comment.len() <= 0xffff
    &&& cds.len() > 0xffff || pre.len() > m32() || dir.len() > m32() ==> z64
}
/// where the end record's signature starts
pub open spec fn end_at(pre: Seq<u8>, cds: Seq<CentralDirectoryEntry>, z64: bool) -> int { pre.len() + ser_dir(cds).len() + if z64 { 76int } else { 0 } }
/// The end of the archive is where it was written: no later bytes (of the comment) look like an end record, and without ZIP64
/// records the 20 bytes before the end record do not look like their locator. (A reader of the format cannot tell these apart.)
pub open spec fn no_decoy(d: Seq<u8>, e: int, z64: bool) -> bool {
    (forall|q: int| e < q ==> !occurs(d, eocdr_sig(), q)) && (!z64 ==> !has_z64(d, e + 4))
}
pub open spec fn ser_z64(n: int, start: u64, size: u64) -> Seq<u8> {
    le4(0x06064b50) + ser_eocdr64(end64(n, start, size)) + (le4(0x07064b50) + ser_eocdl64(loc64((start + size) as u64)))
}
pub open spec fn ser_end(h: EndOfCentralDirectoryHeader, comment: Seq<u8>) -> Seq<u8> { le4(0x06054b50) + ser_eocdr(h) + comment }
pub proof fn lemma_end_z(d: Seq<u8>, s: int, n: int, start: u64, size: u64)
    requires holds(d, s, ser_z64(n, start, size))
    ensures
        ser_z64(n, start, size).len() == 76, at4(d, s + 56) == 0x07064b50, par_eocdl64(nxt(d, s + 60, 16)) == loc64((start + size) as u64),
        par_eocdr64(nxt(d, s + 4, 52)) == end64(n, start, size), s + 76 <= d.len(),
{
    hide(ser_eocdr64); hide(ser_eocdl64); hide(par_eocdr64); hide(par_eocdl64);
    let (r, l) = (ser_eocdr64(end64(n, start, size)), ser_eocdl64(loc64((start + size) as u64)));
    lemma_eocdr64_round_trip(end64(n, start, size)); lemma_eocdl64_round_trip(loc64((start + size) as u64));
    lemma_holds_add(d, s, le4(0x06064b50) + r, le4(0x07064b50) + l);
    lemma_holds_add(d, s, le4(0x06064b50), r);
    lemma_holds_add(d, s + 56, le4(0x07064b50), l);
    lemma_holds_4(d, s + 56, 0x07064b50);
    lemma_holds_tk(d, s + 60, l); lemma_holds_tk(d, s + 4, r);
}
pub proof fn lemma_end_p(d: Seq<u8>, w: int, h: EndOfCentralDirectoryHeader, comment: Seq<u8>)
    requires holds(d, w, ser_end(h, comment))
    ensures occurs(d, eocdr_sig(), w), end_h(d, w + 4) == h, tk(d, w + 22, comment.len() as int) == comment, w + 22 + comment.len() <= d.len(), 0 <= w
{
    hide(ser_eocdr); hide(par_eocdr);
    let r = ser_eocdr(h);
    lemma_eocdr_round_trip(h);
    lemma_holds_add(d, w, le4(0x06054b50) + r, comment);
    lemma_holds_add(d, w, le4(0x06054b50), r);
    lemma_holds_tk(d, w + 4, r); lemma_holds_tk(d, w + 22, comment);
    lemma_sig_bytes();
}
pub proof fn lemma_ends(d: Seq<u8>, pre: Seq<u8>, cds: Seq<CentralDirectoryEntry>, z64: bool, comment: Seq<u8>)
    requires archive_of(d, pre, cds, z64, comment), no_decoy(d, end_at(pre, cds, z64), z64), pre.len() + ser_dir(cds).len() + 4 <= u64::MAX
    ensures ({
        let p = end_at(pre, cds, z64) + 4;
        &&& is_eocdr(d, p) && end_ok(d, p) && has_z64(d, p) == z64 && holds(d, pre.len() as int, ser_dir(cds))
        &&& end_of(d, p) == (EndV { disk: 0, cd_disk: 0, n_disk: cds.len() as u64, n: cds.len() as u64, size: ser_dir(cds).len() as u64, off: pre.len() as u64 })
        &&& tk(d, p + 18, end_h(d, p).file_comm_length as int) == comment
    })
{
    hide(ser_dir); hide(ser_eocdr); hide(par_eocdr); hide(ser_eocdr64); hide(ser_eocdl64); hide(par_eocdr64); hide(par_eocdl64); hide(occurs); hide(le4); hide(un4);
    let dir = ser_dir(cds);
    let (n, start, size) = (cds.len() as int, pre.len() as u64, dir.len() as u64);
    let z = if z64 { ser_z64(n, start, size) } else { Seq::<u8>::empty() };
    let h = end32(n, start, size, comment.len() as int);
    let e = ser_end(h, comment);
    assert(d.subrange(0, d.len() as int) =~= d);
    assert(holds(d, 0, d));
    lemma_holds_add(d, 0, pre, dir + (z + e));
    let q = pre.len() as int;
    lemma_holds_add(d, q, dir, z + e);
    lemma_holds_add(d, q + dir.len(), z, e);
    let w = end_at(pre, cds, z64);
    let p = w + 4;
    if z64 { lemma_end_z(d, q + dir.len(), n, start, size); }
    lemma_end_p(d, w, h, comment);
    if z64 { assert(p - 24 == q + dir.len() + 56); assert(z64_at(d, p) == q + dir.len() + 4); }
}
pub proof fn lemma_sig_bytes() ensures le4(0x06054b50) == eocdr_sig() {
    assert((0x06054b50u32 & 0xff) as u8 == 0x50 && ((0x06054b50u32 >> 8) & 0xff) as u8 == 0x4b && ((0x06054b50u32 >> 16) & 0xff) as u8 == 5 && (0x06054b50u32 >> 24) as u8 == 6) by (bit_vector);
    assert(le4(0x06054b50) =~= eocdr_sig());
}
/// Opening a finished archive: it can be opened, and whatever a reader lists for it is what was recorded, in that order.
pub proof fn lemma_archive_read(d: Seq<u8>, pre: Seq<u8>, cds: Seq<CentralDirectoryEntry>, z64: bool, comment: Seq<u8>)
    requires
        archive_of(d, pre, cds, z64, comment), no_decoy(d, end_at(pre, cds, z64), z64), pre.len() + ser_dir(cds).len() + 4 <= u64::MAX,
        forall|i: int| 0 <= i < cds.len() ==> cde_sane(#[trigger] cds[i]),
    ensures
        file_ok(d, end_at(pre, cds, z64) + 4),
        // the only place where the end record can be found
        forall|p: int| is_eocdr(d, p) <==> p == end_at(pre, cds, z64) + 4,
        forall|f: ZipFile| #[trigger] file_is(d, end_at(pre, cds, z64) + 4, f) ==> {
            &&& f.entries@.len() == cds.len() && f.zip64 == z64 && zv(f.comment) == dec_plain(comment)
            &&& forall|i: int| 0 <= i < cds.len() ==> ev((#[trigger] f.entries@[i]).entry) == cde_ev(cds[i]) && f.entries@[i].file_offset == cde_off(cds[i])
        },
{
    let p = end_at(pre, cds, z64) + 4;
    let o = pre.len() as int;
    lemma_ends(d, pre, cds, z64, comment);
    assert forall|i: nat| i < cds.len() implies #[trigger] cdr_ok(d, cd_pos(d, o, i)) && cdr_ev(d, cd_pos(d, o, i)) == cde_ev(cds[i as int]) && cdr_off(d, cd_pos(d, o, i)) == cde_off(cds[i as int]) by {
        assert forall|k: int| 0 <= k < cds.len() implies cde_ok(#[trigger] cds[k]) by { assert(cde_sane(cds[k])); }
        lemma_cd_pos(d, o, cds, i);
        lemma_dir_holds(d, o, cds, i as int);
        assert(cde_sane(cds[i as int]));
        lemma_cdr_sane(d, cd_pos(d, o, i), cds[i as int]);
    }
    assert forall|f: ZipFile| #[trigger] file_is(d, p, f) implies f.entries@.len() == cds.len() && f.zip64 == z64 && zv(f.comment) == dec_plain(comment)
        && forall|i: int| 0 <= i < cds.len() ==> ev((#[trigger] f.entries@[i]).entry) == cde_ev(cds[i]) && f.entries@[i].file_offset == cde_off(cds[i]) by {
        assert forall|i: int| 0 <= i < cds.len() implies ev((#[trigger] f.entries@[i]).entry) == cde_ev(cds[i]) && f.entries@[i].file_offset == cde_off(cds[i]) by {
            assert(cd_rec(d, o, i, f.entries@[i]));
            assert(cdr_ok(d, cd_pos(d, o, i as nat)));
        }
    }
    assert forall|x: int| is_eocdr(d, x) implies x == p by { if x < p { assert(x - 4 < p - 4); } }
}

// ---- texts ------------------------------------------------------------------------------------------------------------
pub open spec fn no_uni(s: Seq<XF>, path: bool, b: Seq<u8>) -> bool { forall|k: int| 0 <= k < s.len() ==> uni_of(#[trigger] s[k], path, b) is None }
/// field i is the first that gives a text for these bytes
pub open spec fn marked(s: Seq<XF>, i: int, path: bool, b: Seq<u8>, t: Seq<u8>) -> bool {
    0 <= i < s.len() && uni_of(s[i], path, b) == Some(t) && forall|k: int| 0 <= k < i ==> uni_of(#[trigger] s[k], path, b) is None
}
pub proof fn lemma_marked_first(s: Seq<XF>, i: int, path: bool, b: Seq<u8>, t: Seq<u8>)
    requires marked(s, i, path, b, t)
    ensures first_uni(s, path, b) == Some(t)
    decreases s.len()
{
    let r = s.drop_last();
    if i < s.len() - 1 {
        assert(r[i] == s[i]);
        assert forall|k: int| 0 <= k < i implies uni_of(#[trigger] r[k], path, b) is None by { assert(r[k] == s[k]); }
        lemma_marked_first(r, i, path, b, t);
    } else {
        assert forall|k: int| 0 <= k < r.len() implies uni_of(#[trigger] r[k], path, b) is None by { assert(r[k] == s[k]); }
        lemma_no_uni_first(r, path, b);
    }
}
pub proof fn lemma_no_uni_first(s: Seq<XF>, path: bool, b: Seq<u8>)
    requires no_uni(s, path, b)
    ensures first_uni(s, path, b) is None
    decreases s.len()
{
    if s.len() > 0 {
        let r = s.drop_last();
        assert forall|k: int| 0 <= k < r.len() implies uni_of(#[trigger] r[k], path, b) is None by { assert(r[k] == s[k]); }
        lemma_no_uni_first(r, path, b);
        assert(uni_of(s[s.len() - 1], path, b) is None);
    }
}
/// one change of the field list that concerns another kind of field
pub open spec fn aside(s: Seq<XF>, r: Seq<XF>, path: bool) -> bool {
    &&& r.len() >= s.len()
    &&& forall|k: int| 0 <= k < s.len() ==> #[trigger] r[k] == s[k] || !is_uni1(s[k], path) && !is_uni1(r[k], path)
    &&& forall|k: int| s.len() <= k < r.len() ==> !is_uni1(#[trigger] r[k], path)
}
pub proof fn lemma_aside(s: Seq<XF>, r: Seq<XF>, path: bool, b: Seq<u8>)
    requires aside(s, r, path)
    ensures no_uni(s, path, b) ==> no_uni(r, path, b), forall|i: int, t: Seq<u8>| #[trigger] marked(s, i, path, b, t) ==> marked(r, i, path, b, t)
{
    assert forall|k: int| 0 <= k < r.len() && (k < s.len() ==> uni_of(s[k], path, b) is None) implies uni_of(#[trigger] r[k], path, b) is None by { }
    assert forall|i: int, t: Seq<u8>| #[trigger] marked(s, i, path, b, t) implies marked(r, i, path, b, t) by {
        assert(is_uni1(s[i], path));
        assert(r[i] == s[i]);
    }
}
pub proof fn lemma_set_aside(s: Seq<XF>, path: bool, x: XF)
    requires is_uni1(x, !path)
    ensures aside(s, set_uni(s, !path, x), path)
{ lemma_find_uni_range(s, !path); }
pub proof fn lemma_set_mark(s: Seq<XF>, path: bool, x: XF, b: Seq<u8>, t: Seq<u8>)
    requires is_uni1(x, path), uni_of(x, path, b) == Some(t)
    ensures marked(set_uni(s, path, x), find_uni(s, path), path, b, t)
{
    lemma_find_uni_range(s, path);
    let i = find_uni(s, path);
    let r = set_uni(s, path, x);
    assert(r[i] == x);
    assert forall|k: int| 0 <= k < i implies uni_of(#[trigger] r[k], path, b) is None by { assert(r[k] == s[k]); }
}
/// A text that can be kept: an alternative accompanies a non-empty UTF-8 text; and bytes without a Unicode field of their own
/// (they are not UTF-8, or empty) do not meet one among the entry's fields that claims them.
pub open spec fn text_ok(t: ZS, xs: Seq<XF>, path: bool) -> bool {
    &&& t.utf8 ==> utf8_valid(t.raw)
    &&& t.alt is Some ==> t.utf8 && t.raw.len() > 0
    &&& !t.utf8 || t.raw.len() == 0 ==> no_uni(xs, path, basic(t))
}
/// what is read for t: the same bytes, known to be UTF-8 if they were said to be, and the same alternative (the bytes of the
/// field itself stand in for one when there was none)
pub open spec fn kept(t: ZS, r: ZS) -> bool {
    r.raw == t.raw && (t.utf8 ==> r.utf8) && (t.alt is Some ==> r.alt == t.alt) && (r.alt is Some ==> r.alt == Some(basic(t)))
}
/// r are the fields of e with Unicode fields set as the writers do, possibly changed aside
pub proof fn lemma_text(xs: Seq<XF>, name: ZS, comment: ZS, r: Seq<XF>, path: bool)
    requires
        aside(uni(xs, name, comment), r, path), text_ok(if path { name } else { comment }, xs, path),
    ensures kept(if path { name } else { comment }, decode(basic(if path { name } else { comment }), flag8(name, comment), r, path))
{
    let t = if path { name } else { comment };
    let b = basic(t);
    if !flag8(name, comment) {
        let n = uni_name(xs, name);
        let u = uni(xs, name, comment);
        let xn = XF::Path { version: 1, crc: crc_of(basic(name)), bytes: name.raw };
        let xc = XF::Comment { version: 1, crc: crc_of(basic(comment)), bytes: comment.raw };
        if path {
            if comment.utf8 && comment.raw.len() > 0 { lemma_set_aside(n, true, xc); } else { assert(aside(n, u, true)); }
            if name.utf8 && name.raw.len() > 0 {
                lemma_set_mark(xs, true, xn, b, name.raw);
                let i = find_uni(xs, true);
                assert(marked(n, i, true, b, name.raw));
                lemma_aside(n, u, true, b); lemma_aside(u, r, true, b);
                assert(marked(r, i, true, b, name.raw));
                lemma_marked_first(r, i, true, b, name.raw);
            } else { lemma_aside(n, u, true, b); lemma_aside(u, r, true, b); lemma_no_uni_first(r, true, b); }
        } else {
            if name.utf8 && name.raw.len() > 0 { lemma_set_aside(xs, false, xn); } else { assert(aside(xs, n, false)); }
            if comment.utf8 && comment.raw.len() > 0 {
                lemma_set_mark(n, false, xc, b, comment.raw);
                let i = find_uni(n, false);
                assert(marked(u, i, false, b, comment.raw));
                lemma_aside(u, r, false, b);
                assert(marked(r, i, false, b, comment.raw));
                lemma_marked_first(r, i, false, b, comment.raw);
            } else { lemma_aside(xs, n, false, b); lemma_aside(u, r, false, b); lemma_no_uni_first(r, false, b); }
        }
    }
}
// ---- sizes ------------------------------------------------------------------------------------------------------------
pub proof fn lemma_fz_at(s: Seq<XF>, i: int)
    requires 0 <= i < s.len(), forall|k: int| 0 <= k < i ==> !((#[trigger] s[k]) is Zip64), s[i] is Zip64
    ensures first_z64(s) == Some(s[i])
    decreases s.len()
{
    let r = s.drop_last();
    if i == s.len() - 1 { assert forall|k: int| 0 <= k < r.len() implies !((#[trigger] r[k]) is Zip64) by { assert(r[k] == s[k]); } lemma_fz_none(r); }
    else { assert(r[i] == s[i]); assert forall|k: int| 0 <= k < i implies !((#[trigger] r[k]) is Zip64) by { assert(r[k] == s[k]); } lemma_fz_at(r, i); }
}
pub proof fn lemma_fz_none(s: Seq<XF>)
    requires forall|k: int| 0 <= k < s.len() ==> !((#[trigger] s[k]) is Zip64)
    ensures first_z64(s) is None
    decreases s.len()
{
    if s.len() > 0 {
        let r = s.drop_last();
        assert forall|k: int| 0 <= k < r.len() implies !((#[trigger] r[k]) is Zip64) by { assert(r[k] == s[k]); }
        lemma_fz_none(r);
        assert(!(s[s.len() - 1] is Zip64));
    }
}
/// every field of r is one of the entry's own, other than ZIP64 ones, or one that the writers put there
pub open spec fn from_own(xs: Seq<XF>, r: Seq<XF>) -> bool {
    forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]) is Zip64 || xs.contains(r[k]) || is_uni1(r[k], true) || is_uni1(r[k], false)
}
pub proof fn lemma_no_z64_elems(xs: Seq<XF>)
    ensures forall|k: int| 0 <= k < no_z64(xs).len() ==> !((#[trigger] no_z64(xs)[k]) is Zip64) && xs.contains(no_z64(xs)[k])
    decreases xs.len()
{
    reveal(Seq::filter);
    let r = no_z64(xs);
    if xs.len() > 0 {
        let a = xs.drop_last();
        let b = no_z64(a);
        lemma_no_z64_elems(a);
        assert forall|k: int| 0 <= k < r.len() implies !((#[trigger] r[k]) is Zip64) && xs.contains(r[k]) by {
            if k < b.len() { assert(r[k] == b[k]); assert(a.contains(b[k])); let j = choose|j: int| 0 <= j < a.len() && a[j] == b[k]; assert(xs[j] == r[k]); }
            else { assert(xs[xs.len() - 1] == r[k]); }
        }
    }
}
/// setting Unicode fields leaves ZIP64 fields where they are
pub proof fn lemma_uni_z64(s: Seq<XF>, name: ZS, comment: ZS)
    ensures ({
        let u = uni(s, name, comment);
        &&& u.len() >= s.len()
        &&& forall|k: int| 0 <= k < s.len() ==> #[trigger] u[k] == s[k] || !(s[k] is Zip64) && (is_uni1(u[k], true) || is_uni1(u[k], false))
        &&& forall|k: int| s.len() <= k < u.len() ==> is_uni1(#[trigger] u[k], true) || is_uni1(u[k], false)
    })
{
    let n = uni_name(s, name);
    lemma_find_uni_range(s, true); lemma_find_uni_range(n, false);
}
/// the fields a user may give, apart from ZIP64 ones, which the writers replace
pub open spec fn own_ok(xs: Seq<XF>) -> bool { forall|k: int| 0 <= k < xs.len() ==> (#[trigger] xs[k]) is Zip64 || xf_sane(xs[k], 0, 0) }
/// the local or directory fields of a whole entry: where its ZIP64 field is
pub proof fn lemma_base_z64(xs: Seq<XF>, name: ZS, comment: ZS, z: Option<XF>, u: Seq<XF>)
    requires z is Some ==> z->0 is Zip64, u == uni(if z is Some { no_z64(xs).push(z->0) } else { no_z64(xs) }, name, comment)
    ensures
        first_z64(u) == z, from_own(xs, u), forall|k: int| 0 <= k < u.len() && (#[trigger] u[k]) is Zip64 ==> z is Some && u[k] == z->0 && k == no_z64(xs).len(),
{
    let b = no_z64(xs);
    let s = if z is Some { b.push(z->0) } else { b };
    lemma_no_z64_elems(xs);
    lemma_uni_z64(s, name, comment);
    assert forall|k: int| 0 <= k < u.len() && (z is Some ==> k != b.len()) implies !((#[trigger] u[k]) is Zip64) && (xs.contains(u[k]) || is_uni1(u[k], true) || is_uni1(u[k], false)) by {
        if k < s.len() { if k < b.len() { assert(s[k] == b[k]); assert(!(b[k] is Zip64)); } }
    }
    if z is Some { assert(s[b.len() as int] == z->0); assert(u[b.len() as int] == z->0); lemma_fz_at(u, b.len() as int); }
    else { lemma_fz_none(u); }
}
pub proof fn lemma_sane(xs: Seq<XF>, r: Seq<XF>, us: u32, cs: u32)
    requires own_ok(xs), from_own(xs, r), xfs_fit(r), forall|k: int| 0 <= k < r.len() && (#[trigger] r[k]) is Zip64 ==> xf_sane(r[k], us, cs)
    ensures xfs_sane(r, us, cs)
{
    assert forall|k: int| 0 <= k < r.len() implies xf_sane(#[trigger] r[k], us, cs) by {
        assert(xf_fits(r[k]));
        if !(r[k] is Zip64) && xs.contains(r[k]) { let j = choose|j: int| 0 <= j < xs.len() && xs[j] == r[k]; assert(xs[j] is Zip64 || xf_sane(xs[j], 0, 0)); }
    }
}
/// the entry as it must be read back
pub open spec fn kept_ev(e: ZipEntry, us: u64, cs: u64, crc: u32, xs: Seq<XF>, dd: bool, r: EV) -> bool {
    &&& kept(zv(e.filename), r.name) && kept(zv(e.comment), r.comment)
    &&& r.method == e.compression && r.us == us && r.cs == cs && r.crc == crc && r.date == e.last_modification_date
    &&& r.int_attr == e.internal_file_attribute && r.ext_attr == e.external_file_attribute && r.xs == xs && r.dd == dd
}
pub proof fn lemma_method(m: Compression) ensures method_of(method_id(m)) == Some(m) { }
pub open spec fn user_ok(e: ZipEntry) -> bool {
    own_ok(xvs(e.extra_fields@)) && text_ok(zv(e.filename), no_z64(xvs(e.extra_fields@)), true) && text_ok(zv(e.comment), no_z64(xvs(e.extra_fields@)), false)
}
/// the directory record of a whole entry says what was given
pub proof fn lemma_whole_kept(e: ZipEntry, us: u64, crc: u32, cs: u64, off: u64, c: CentralDirectoryEntry)
    requires whole_rec(e, us, crc, cs, off, c), cde_ok(c), user_ok(e)
    ensures
        cde_sane(c), cde_off(c) == off,
        kept_ev(e, us, cs, crc, dir_xs(xvs(e.extra_fields@), zv(e.filename), zv(e.comment), us, cs, off), false, cde_ev(c)),
{
    hide(ser_xfs); hide(uni); hide(decode); hide(needed); hide(no_z64); hide(dir_xs); hide(xfs_sane); hide(first_z64); hide(local_xs);
    lemma_whole_sane(e, us, crc, cs, off, c);
    lemma_whole_text(e, us, cs, off);
    lemma_method(e.compression);
    lemma_whole_z64(xvs(e.extra_fields@), zv(e.filename), zv(e.comment), us, cs, off);
}
pub proof fn lemma_whole_sane(e: ZipEntry, us: u64, crc: u32, cs: u64, off: u64, c: CentralDirectoryEntry)
    requires whole_rec(e, us, crc, cs, off, c), cde_ok(c), own_ok(xvs(e.extra_fields@))
    ensures xfs_sane(xvs(c.entry.extra_fields@), c.header.uncompressed_size, c.header.compressed_size)
{
    hide(ser_xfs); hide(dir_xs); hide(local_xs); hide(xfs_sane); hide(own_ok); hide(from_own); hide(basic); hide(needed);
    lemma_whole_z64(xvs(e.extra_fields@), zv(e.filename), zv(e.comment), us, cs, off);
    lemma_sane(xvs(e.extra_fields@), xvs(c.entry.extra_fields@), c.header.uncompressed_size, c.header.compressed_size);
}
pub proof fn lemma_whole_text(e: ZipEntry, us: u64, cs: u64, off: u64)
    requires user_ok(e)
    ensures ({
        let x = dir_xs(xvs(e.extra_fields@), zv(e.filename), zv(e.comment), us, cs, off);
        let f = flag8(zv(e.filename), zv(e.comment));
        kept(zv(e.filename), decode(basic(zv(e.filename)), f, x, true)) && kept(zv(e.comment), decode(basic(zv(e.comment)), f, x, false))
    })
{
    hide(uni); hide(decode); hide(no_z64); hide(basic); hide(uni_of); hide(kept);
    let (name, comment, own) = (zv(e.filename), zv(e.comment), xvs(e.extra_fields@));
    let z = z64_field(us, cs, off);
    let l = local_xs(own, name, comment, us, cs, off);
    let x = dir_xs(own, name, comment, us, cs, off);
    let base = if big_sizes(us, cs, off) { no_z64(own).push(z) } else { no_z64(own) };
    assert(aside(l, x, true) && aside(l, x, false));
    if big_sizes(us, cs, off) { assert(base == no_z64(own).push(base.last())); }
    lemma_push_text(name, no_z64(own), base, true); lemma_push_text(comment, no_z64(own), base, false);
    lemma_text(base, name, comment, x, true);
    lemma_text(base, name, comment, x, false);
}
pub proof fn lemma_push_text(t: ZS, s: Seq<XF>, r: Seq<XF>, path: bool)
    requires text_ok(t, s, path), r == s || r == s.push(r.last()) && r.len() > 0 && r.last() is Zip64
    ensures text_ok(t, r, path)
{ if r.len() > s.len() { lemma_aside(s, r, path, basic(t)); } }
pub proof fn lemma_whole_z64(own: Seq<XF>, name: ZS, comment: ZS, us: u64, cs: u64, off: u64)
    ensures ({
        let x = dir_xs(own, name, comment, us, cs, off);
        &&& first_z64(x) == if whole_big(us, cs, off) { Some(z64_field(us, cs, off)) } else { None }
        &&& from_own(own, x)
        &&& forall|k: int| 0 <= k < x.len() && (#[trigger] x[k]) is Zip64 ==> x[k] == z64_field(us, cs, off) && whole_big(us, cs, off)
    })
{
    hide(uni); hide(no_z64);
    let z = z64_field(us, cs, off);
    let l = local_xs(own, name, comment, us, cs, off);
    let x = dir_xs(own, name, comment, us, cs, off);
    if big_sizes(us, cs, off) { lemma_base_z64(own, name, comment, Some(z), l); assert(l == uni(no_z64(own).push(z), name, comment)); }
    else {
        lemma_base_z64(own, name, comment, None, l); assert(l == uni(no_z64(own), name, comment));
        assert forall|k: int| 0 <= k < l.len() implies !((#[trigger] l[k]) is Zip64) by { }
        if big_off(us, cs, off) {
            assert forall|k: int| 0 <= k < l.len() implies !((#[trigger] x[k]) is Zip64) by { assert(x[k] == l[k]); }
            assert(x[l.len() as int] == z);
            lemma_fz_at(x, l.len() as int);
            assert forall|k: int| 0 <= k < x.len() implies (#[trigger] x[k]) is Zip64 || own.contains(x[k]) || is_uni1(x[k], true) || is_uni1(x[k], false) by { if k < l.len() { assert(x[k] == l[k]); } }
        }
    }
}
// ---- streamed entries -------------------------------------------------------------------------------------------------
/// c is the directory record of the entry e, started as f and closed with these values
pub open spec fn stream_rec(no64: bool, e: ZipEntry, f: ZipEntry, us: u64, crc: u32, cs: u64, off: u64, c: CentralDirectoryEntry) -> bool {
    &&& f == (ZipEntry { extra_fields: f.extra_fields, ..e }) && xvs(f.extra_fields@) == stream_xs(no64, e)
    &&& c.header == cdr_stream(lfh_stream(no64, e), no64, f, us, cs, off, crc) && e_keeps(f, c.entry)
    &&& xvs(c.entry.extra_fields@) == close_xs(no64, stream_xs(no64, e), us, cs, off) && !close_big(no64, us, cs, off)
}
pub proof fn lemma_find_z64_at(s: Seq<XF>)
    ensures 0 <= find_z64(s) <= s.len(), find_z64(s) < s.len() ==> s[find_z64(s)] is Zip64, forall|k: int| 0 <= k < find_z64(s) ==> !((#[trigger] s[k]) is Zip64)
    decreases s.len()
{
    if s.len() > 0 && !(s[0] is Zip64) {
        lemma_find_z64_at(s.skip(1));
        let n = find_z64(s);
        if n < s.len() { assert(s.skip(1)[n - 1] == s[n]); }
        assert forall|k: int| 0 <= k < n implies !((#[trigger] s[k]) is Zip64) by { if k > 0 { assert(s.skip(1)[k - 1] == s[k]); } }
    }
}
pub open spec fn full_z64(us: u64, cs: u64, off: u64) -> XF { XF::Zip64 { id: 1, us: Some(us), cs: Some(cs), off: Some(off), disk: None } }
pub proof fn lemma_stream_z64(no64: bool, e: ZipEntry, us: u64, cs: u64, off: u64)
    ensures ({
        let x = close_xs(no64, stream_xs(no64, e), us, cs, off);
        &&& first_z64(x) == if no64 { None } else { Some(full_z64(us, cs, off)) }
        &&& from_own(xvs(e.extra_fields@), x)
        &&& forall|k: int| 0 <= k < x.len() && (#[trigger] x[k]) is Zip64 ==> !no64 && x[k] == full_z64(us, cs, off)
        &&& first_z64(stream_xs(no64, e)) == if no64 { None } else { Some(local_z64(e)) }
        &&& from_own(xvs(e.extra_fields@), stream_xs(no64, e))
        &&& forall|k: int| 0 <= k < stream_xs(no64, e).len() && (#[trigger] stream_xs(no64, e)[k]) is Zip64 ==> !no64 && stream_xs(no64, e)[k] == local_z64(e)
        &&& aside(stream_xs(no64, e), x, true) && aside(stream_xs(no64, e), x, false)
    })
{
    hide(uni); hide(no_z64); hide(find_z64);
    let (name, comment, own) = (zv(e.filename), zv(e.comment), xvs(e.extra_fields@));
    let l = stream_xs(no64, e);
    let x = close_xs(no64, l, us, cs, off);
    if no64 { lemma_base_z64(own, name, comment, None, l); }
    else {
        lemma_base_z64(own, name, comment, Some(local_z64(e)), l);
        lemma_find_z64_at(l);
        let i = find_z64(l);
        if i >= l.len() { assert forall|k: int| 0 <= k < l.len() implies !((#[trigger] l[k]) is Zip64) by { } lemma_fz_none(l); }
        assert(l[i] == local_z64(e));
        assert(x[i] == full_z64(us, cs, off));
        lemma_fz_at(x, i);
        assert forall|k: int| 0 <= k < x.len() && (#[trigger] x[k]) is Zip64 implies x[k] == full_z64(us, cs, off) by { if k != i { assert(x[k] == l[k]); } }
        assert forall|k: int| 0 <= k < x.len() implies (#[trigger] x[k]) is Zip64 || own.contains(x[k]) || is_uni1(x[k], true) || is_uni1(x[k], false) by { if k != i { assert(x[k] == l[k]); } }
    }
}
pub proof fn lemma_stream_text(no64: bool, e: ZipEntry, x: Seq<XF>)
    requires user_ok(e), aside(stream_xs(no64, e), x, true), aside(stream_xs(no64, e), x, false)
    ensures ({
        let f = flag8(zv(e.filename), zv(e.comment));
        kept(zv(e.filename), decode(basic(zv(e.filename)), f, x, true)) && kept(zv(e.comment), decode(basic(zv(e.comment)), f, x, false))
    })
{
    hide(uni); hide(decode); hide(no_z64); hide(basic); hide(uni_of); hide(kept);
    let (name, comment, own) = (zv(e.filename), zv(e.comment), xvs(e.extra_fields@));
    let base = if no64 { no_z64(own) } else { no_z64(own).push(local_z64(e)) };
    if !no64 { assert(base == no_z64(own).push(base.last())); }
    lemma_push_text(name, no_z64(own), base, true); lemma_push_text(comment, no_z64(own), base, false);
    lemma_text(base, name, comment, x, true);
    lemma_text(base, name, comment, x, false);
}
pub proof fn lemma_stream_sane(no64: bool, e: ZipEntry, f: ZipEntry, us: u64, crc: u32, cs: u64, off: u64, c: CentralDirectoryEntry)
    requires stream_rec(no64, e, f, us, crc, cs, off, c), cde_ok(c), own_ok(xvs(e.extra_fields@))
    ensures xfs_sane(xvs(c.entry.extra_fields@), c.header.uncompressed_size, c.header.compressed_size)
{
    hide(ser_xfs); hide(stream_xs); hide(close_xs); hide(xfs_sane); hide(own_ok); hide(from_own); hide(basic); hide(needed); hide(first_z64); hide(aside);
    lemma_stream_z64(no64, e, us, cs, off);
    lemma_sane(xvs(e.extra_fields@), xvs(c.entry.extra_fields@), c.header.uncompressed_size, c.header.compressed_size);
}
/// the directory record of a streamed entry says what was given and what was counted
pub proof fn lemma_stream_kept(no64: bool, e: ZipEntry, f: ZipEntry, us: u64, crc: u32, cs: u64, off: u64, c: CentralDirectoryEntry)
    requires stream_rec(no64, e, f, us, crc, cs, off, c), cde_ok(c), user_ok(e)
    ensures cde_sane(c), cde_off(c) == off, kept_ev(e, us, cs, crc, close_xs(no64, stream_xs(no64, e), us, cs, off), true, cde_ev(c))
{
    hide(ser_xfs); hide(uni); hide(decode); hide(needed); hide(no_z64); hide(stream_xs); hide(close_xs); hide(xfs_sane); hide(first_z64); hide(aside);
    lemma_stream_z64(no64, e, us, cs, off);
    lemma_stream_sane(no64, e, f, us, crc, cs, off, c);
    lemma_stream_text(no64, e, close_xs(no64, stream_xs(no64, e), us, cs, off));
    lemma_method(e.compression);
}
// ---- a local header ---------------------------------------------------------------------------------------------------
pub proof fn lemma_lfh_at(d: Seq<u8>, p: int, l: LocalFileHeader, e: ZipEntry, xs: Seq<XF>)
    requires
        holds(d, p, local_bytes(l, e, xs)), l.file_name_length == basic(zv(e.filename)).len(), l.extra_field_length == ser_xfs(xs).len(),
        xfs_sane(xs, l.uncompressed_size, l.compressed_size),
    ensures
        lfh_h(d, p) == l, at4(d, p) == 0x04034b50, 30 <= avail(d, p), lfh_xs(d, p) == Some(xs), tk(d, p + 30, l.file_name_length as int) == basic(zv(e.filename)),
        lfh_end(d, p) == p + local_bytes(l, e, xs).len(), data_off(d, p) == p + local_bytes(l, e, xs).len(),
{
    hide(ser_xfs); hide(par_xfs); hide(par_lfh); hide(ser_lfh); hide(xfs_sane); hide(basic); hide(at4);
    let (h, n, x) = (ser_lfh(l), basic(zv(e.filename)), ser_xfs(xs));
    let sig = le4(0x04034b50u32);
    lemma_lfh_round_trip(l);
    lemma_holds_add(d, p, sig + h + n, x);
    lemma_holds_add(d, p, sig + h, n);
    lemma_holds_add(d, p, sig, h);
    lemma_holds_4(d, p, 0x04034b50);
    lemma_holds_tk(d, p + 4, h); lemma_holds_tk(d, p + 30, n); lemma_holds_tk(d, p + 30 + n.len(), x);
    lemma_xfs_round_trip(xs, l.uncompressed_size, l.compressed_size);
}
// ---- entries ----------------------------------------------------------------------------------------------------------
/// What has been asked of the writer: entry e of these data (stored as d), whole or streamed. f is e with the fields of its local header.
pub struct Item { pub e: ZipEntry, pub f: ZipEntry, pub pre: bool, pub data: Seq<u8>, pub us: u64, pub crc: u32, pub d: Seq<u8>, pub off: u64, pub stream: bool, pub no64: bool }
pub open spec fn it_cs(i: Item) -> u64 { i.d.len() as u64 }
pub open spec fn it_lfh(i: Item) -> LocalFileHeader { if i.stream { lfh_stream(i.no64, i.e) } else { lfh_whole(i.e, i.us, it_cs(i), i.off, i.crc) } }
pub open spec fn it_lxs(i: Item) -> Seq<XF> {
    if i.stream { stream_xs(i.no64, i.e) } else { local_xs(xvs(i.e.extra_fields@), zv(i.e.filename), zv(i.e.comment), i.us, it_cs(i), i.off) }
}
pub open spec fn it_head(i: Item) -> Seq<u8> { local_bytes(it_lfh(i), i.e, it_lxs(i)) }
pub open spec fn it_tail(i: Item) -> Seq<u8> { if i.stream { descriptor(i.crc, field32(i.no64, it_cs(i)), field32(i.no64, i.us)) } else { Seq::empty() } }
pub open spec fn it_bytes(i: Item) -> Seq<u8> { it_head(i) + (i.d + it_tail(i)) }
/// the fields its directory record has
pub open spec fn it_dxs(i: Item) -> Seq<XF> {
    if i.stream { close_xs(i.no64, stream_xs(i.no64, i.e), i.us, it_cs(i), i.off) } else { dir_xs(xvs(i.e.extra_fields@), zv(i.e.filename), zv(i.e.comment), i.us, it_cs(i), i.off) }
}
pub open spec fn it_rec(i: Item, c: CentralDirectoryEntry) -> bool {
    if i.stream { stream_rec(i.no64, i.e, i.f, i.us, i.crc, it_cs(i), i.off, c) } else { whole_rec(i.e, i.us, i.crc, it_cs(i), i.off, c) }
}
/// what the bytes and the record of an entry have to do with what was asked
pub open spec fn item_in(acc: Seq<u8>, c: CentralDirectoryEntry, i: Item) -> bool {
    &&& i.d.len() <= u64::MAX && whole_stored(i.e.compression, i.pre, i.d, i.data) && (!i.pre ==> i.us == i.data.len() as u64 && i.crc == crc_of(i.data))
    &&& basic(zv(i.e.filename)).len() <= 0xffff && ser_xfs(it_lxs(i)).len() <= 0xffff
    &&& holds(acc, i.off as int, it_bytes(i)) && it_rec(i, c)
}
pub open spec fn hist(acc: Seq<u8>, cds: Seq<CentralDirectoryEntry>, items: Seq<Item>) -> bool {
    cds.len() == items.len() && forall|k: int| 0 <= k < items.len() ==> item_in(acc, #[trigger] cds[k], items[k])
}
pub proof fn lemma_holds_grown(a: Seq<u8>, b: Seq<u8>, p: int, s: Seq<u8>)
    requires holds(a, p, s), grown(a, b)
    ensures holds(b, p, s)
{ assert(b.subrange(p, p + s.len()) =~= b.take(a.len() as int).subrange(p, p + s.len())); }
/// nothing that is written later, and nothing that fails, changes what is there
pub proof fn lemma_hist_grown(a: Seq<u8>, b: Seq<u8>, cds: Seq<CentralDirectoryEntry>, items: Seq<Item>)
    requires hist(a, cds, items), grown(a, b)
    ensures hist(b, cds, items)
{
    hide(it_rec); hide(it_bytes); hide(holds); hide(grown); hide(whole_stored); hide(it_lxs); hide(basic); hide(ser_xfs);
    assert forall|k: int| 0 <= k < items.len() implies item_in(b, #[trigger] cds[k], items[k]) by { assert(item_in(a, cds[k], items[k])); lemma_holds_grown(a, b, items[k].off as int, it_bytes(items[k])); }
}
pub proof fn lemma_hist_add(a: Seq<u8>, b: Seq<u8>, cds: Seq<CentralDirectoryEntry>, cds2: Seq<CentralDirectoryEntry>, items: Seq<Item>, i: Item)
    requires hist(a, cds, items), grown(a, b), cds2.len() == cds.len() + 1, cds2.drop_last() == cds, item_in(b, cds2.last(), i)
    ensures hist(b, cds2, items.push(i))
{
    hide(item_in); hide(grown);
    lemma_hist_grown(a, b, cds, items);
    let t = items.push(i);
    assert forall|k: int| 0 <= k < t.len() implies item_in(b, #[trigger] cds2[k], t[k]) by { if k < items.len() { assert(cds2.drop_last()[k] == cds2[k]); assert(item_in(b, cds[k], items[k])); } }
}
pub proof fn lemma_added(a: Seq<u8>, s: Seq<u8>) ensures grown(a, a + s), holds(a + s, a.len() as int, s) {
    assert((a + s).take(a.len() as int) =~= a); assert((a + s).subrange(a.len() as int, (a + s).len() as int) =~= s);
}
pub open spec fn whole_item(e: ZipEntry, pre: bool, data: Seq<u8>, d: Seq<u8>, off: u64) -> Item {
    Item { e, f: e, pre, data, us: if pre { e.uncompressed_size } else { data.len() as u64 }, crc: if pre { e.crc32 } else { crc_of(data) }, d, off, stream: false, no64: false }
}
/// Writing a whole entry (the contract of write_entry_whole and write_entry_whole_precompressed).
pub proof fn lemma_hist_whole<W: AsyncWrite>(a: ZipFileWriter<W>, b: ZipFileWriter<W>, e: ZipEntry, pre: bool, data: Seq<u8>, d: Seq<u8>, r: ZResult<()>, items: Seq<Item>)
    requires whole_post(a, b, e, pre, data, d, r), hist(a.writer.acc(), a.cd_entries@, items), a.writer.fx().base == 0
    ensures
        r is Ok ==> hist(b.writer.acc(), b.cd_entries@, items.push(whole_item(e, pre, data, d, a.writer.offset))),
        r is Err ==> hist(b.writer.acc(), b.cd_entries@, items), b.writer.fx().base == 0,
{
    hide(hist); hide(whole_rec); hide(grown); hide(holds); hide(whole_stored); hide(basic); hide(ser_xfs); hide(local_xs); hide(lfh_whole); hide(local_bytes); hide(zw_ok);
    let i = whole_item(e, pre, data, d, a.writer.offset);
    if r is Ok {
        assert(i.d + it_tail(i) =~= i.d);
        lemma_added(a.writer.acc(), it_bytes(i));
        assert(a.writer.acc().len() == a.writer.offset);
        lemma_hist_add(a.writer.acc(), b.writer.acc(), a.cd_entries@, b.cd_entries@, items, i);
    } else { lemma_hist_grown(a.writer.acc(), b.writer.acc(), a.cd_entries@, items); }
}
pub open spec fn stream_item<'b, W: AsyncWrite>(s: EntryStreamWriter<'b, W>, e: ZipEntry, d: Seq<u8>) -> Item {
    Item { e, f: s.entry, pre: s.precompressed, data: sw_data(s), us: sw_size(s), crc: sw_crc(s), d, off: s.lfh_offset, stream: true, no64: s.force_no_zip64 }
}
/// s1 is s0 after any number of writes and flushes (what each of them keeps, by its contract)
#[verifier::prophetic]
pub open spec fn sw_later<'b, W: AsyncWrite>(s0: EntryStreamWriter<'b, W>, s1: EntryStreamWriter<'b, W>) -> bool {
    &&& s0.kin(&s1) && s1.winv() && s1.fx() == s0.fx() && s1.opn() == s0.opn() && grown(s0.sunk(), s1.sunk())
}
/// Starting a streamed entry, writing its data in whatever pieces, and closing it.
pub proof fn lemma_hist_stream<'b, W: AsyncWrite>(a: ZipFileWriter<W>, b: ZipFileWriter<W>, e: ZipEntry, pre: bool, s0: EntryStreamWriter<'b, W>, s1: EntryStreamWriter<'b, W>,
    low1: AsyncOffsetWriter<W>, cd1: Seq<CentralDirectoryEntry>, z0: bool, z1: bool, d: Seq<u8>, r: ZResult<()>, items: Seq<Item>)
    requires
        sw_post(a, b, e, pre, Ok::<EntryStreamWriter<'b, W>, ZipError>(s0)), sw_later(s0, s1), close_post(s1, *cwin(s1.writer.inner), low1, a.cd_entries@, cd1, z0, z1, d, r),
        hist(a.writer.acc(), a.cd_entries@, items), a.writer.fx().base == 0, a.writer.winv(),
        basic(zv(e.filename)).len() <= 0xffff, ser_xfs(stream_xs(a.force_no_zip64, e)).len() <= 0xffff,
    ensures
        r is Ok ==> hist(low1.acc(), cd1, items.push(stream_item(s1, e, d))), r is Err ==> hist(low1.acc(), cd1, items),
        stream_item(s1, e, d).pre == pre, low1.fx().base == 0, s0.cd_entries == s1.cd_entries,
{
    hide(hist); hide(grown); hide(holds); hide(whole_stored); hide(basic); hide(ser_xfs); hide(stream_xs); hide(close_xs); hide(lfh_stream); hide(local_bytes); hide(descriptor); hide(cdr_stream); hide(close_refused); hide(sw_data); hide(all_cde_ok);
    lemma_cw(s0.writer.inner, s1.writer.inner);
    let i = stream_item(s1, e, d);
    let (x0, x1) = ((*cwin(s0.writer.inner)).acc(), (*cwin(s1.writer.inner)).acc());
    let p = a.writer.acc();
    assert(grown(x0, x1));
    lemma_added(p, it_head(i));
    lemma_grow_trans(p, x0, x1);
    lemma_grow_trans(p, x1, low1.acc());
    if r is Ok {
        assert(x1.take(x0.len() as int) == x0) by { reveal(grown); }
        assert(low1.acc() =~= p + it_bytes(i));
        lemma_added(p, it_bytes(i));
        lemma_hist_add(p, low1.acc(), a.cd_entries@, cd1, items, i);
    } else { lemma_hist_grown(p, low1.acc(), a.cd_entries@, items); }
}
pub proof fn lemma_grow_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires grown(a, b), grown(b, c)
    ensures grown(a, c)
{ assert(c.take(a.len() as int) =~= c.take(b.len() as int).take(a.len() as int)); }
// ---- what is read back ------------------------------------------------------------------------------------------------
/// The entry is there to be read: listed as e, its data at the position that the local header gives.
pub open spec fn item_read(d: Seq<u8>, i: Item, e: StoredZipEntry) -> bool {
    let p = i.off as int;
    let w = tk(d, data_off(d, p), i.d.len() as int);
    &&& e.file_offset == i.off && kept_ev(i.e, i.us, it_cs(i), i.crc, it_dxs(i), i.stream, ev(e.entry))
    &&& at4(d, p) == 0x04034b50 && 30 <= avail(d, p) && lfh_h(d, p) == it_lfh(i)
    &&& e.entry.compressed_size == i.d.len() && w == i.d && used_ok(i.e.compression, i)
    // not precompressed: what a reader decodes is what was given, and so is the checksum it compares with
    &&& !i.pre ==> payload(i.e.compression, w) == i.data && e.entry.uncompressed_size == i.data.len() as u64 && e.entry.crc32 == crc_of(i.data)
}
pub open spec fn used_ok(m: Compression, i: Item) -> bool { !i.pre ==> used(m, i.d) == i.d.len() }
pub proof fn lemma_item_at(acc: Seq<u8>, d: Seq<u8>, c: CentralDirectoryEntry, i: Item)
    requires item_in(acc, c, i), grown(acc, d), user_ok(i.e)
    ensures
        holds(d, i.off as int, it_bytes(i)), lfh_h(d, i.off as int) == it_lfh(i), at4(d, i.off as int) == 0x04034b50, 30 <= avail(d, i.off as int),
        lfh_xs(d, i.off as int) == Some(it_lxs(i)), lfh_end(d, i.off as int) == i.off + it_head(i).len(), data_off(d, i.off as int) == i.off + it_head(i).len(),
        tk(d, i.off + 30, it_lfh(i).file_name_length as int) == basic(zv(i.e.filename)),
        holds(d, i.off + it_head(i).len(), i.d), holds(d, i.off + it_head(i).len() + i.d.len(), it_tail(i)),
{
    hide(local_bytes); hide(it_lxs); hide(it_tail); hide(xfs_sane); hide(ser_xfs); hide(par_xfs); hide(whole_stored); hide(basic); hide(it_rec);
    lemma_local_sane(i);
    lemma_holds_grown(acc, d, i.off as int, it_bytes(i));
    lemma_holds_add(d, i.off as int, it_head(i), i.d + it_tail(i));
    lemma_holds_add(d, i.off + it_head(i).len(), i.d, it_tail(i));
    lemma_it_lfh(i);
    lemma_lfh_at(d, i.off as int, it_lfh(i), i.e, it_lxs(i));
}
pub proof fn lemma_it_lfh(i: Item)
    requires basic(zv(i.e.filename)).len() <= 0xffff, ser_xfs(it_lxs(i)).len() <= 0xffff
    ensures it_lfh(i).file_name_length == basic(zv(i.e.filename)).len(), it_lfh(i).extra_field_length == ser_xfs(it_lxs(i)).len()
{ }
/// the fields of a local header can be read back
pub proof fn lemma_local_sane(i: Item)
    requires ser_xfs(it_lxs(i)).len() <= 0xffff, own_ok(xvs(i.e.extra_fields@))
    ensures xfs_sane(it_lxs(i), it_lfh(i).uncompressed_size, it_lfh(i).compressed_size)
{
    hide(ser_xfs); hide(uni); hide(no_z64); hide(own_ok); hide(from_own); hide(needed); hide(basic); hide(aside); hide(xfs_sane); hide(xfs_fit); hide(close_xs); hide(first_z64);
    let own = xvs(i.e.extra_fields@);
    let (us, cs, off) = (i.us, it_cs(i), i.off);
    lemma_fit(it_lxs(i));
    if i.stream { lemma_stream_z64(i.no64, i.e, us, cs, off); }
    else if big_sizes(us, cs, off) { lemma_base_z64(own, zv(i.e.filename), zv(i.e.comment), Some(z64_field(us, cs, off)), it_lxs(i)); }
    else { lemma_base_z64(own, zv(i.e.filename), zv(i.e.comment), None, it_lxs(i)); }
    lemma_sane(own, it_lxs(i), it_lfh(i).uncompressed_size, it_lfh(i).compressed_size);
}
pub proof fn lemma_it_kept(i: Item, c: CentralDirectoryEntry)
    requires it_rec(i, c), cde_ok(c), user_ok(i.e)
    ensures cde_sane(c), cde_off(c) == i.off, kept_ev(i.e, i.us, it_cs(i), i.crc, it_dxs(i), i.stream, cde_ev(c))
{
    hide(whole_rec); hide(stream_rec); hide(cde_ok); hide(user_ok); hide(cde_sane); hide(cde_ev); hide(kept_ev); hide(cde_off); hide(dir_xs); hide(close_xs);
    if i.stream { lemma_stream_kept(i.no64, i.e, i.f, i.us, i.crc, it_cs(i), i.off, c); } else { lemma_whole_kept(i.e, i.us, i.crc, it_cs(i), i.off, c); }
}
pub proof fn lemma_item_read(acc: Seq<u8>, d: Seq<u8>, c: CentralDirectoryEntry, i: Item, e: StoredZipEntry)
    requires item_in(acc, c, i), grown(acc, d), user_ok(i.e), cde_ok(c), ev(e.entry) == cde_ev(c), e.file_offset == cde_off(c)
    ensures item_read(d, i, e)
{
    hide(it_bytes); hide(it_lxs); hide(it_dxs); hide(cde_sane); hide(cde_ev); hide(cde_off); hide(it_tail); hide(it_head); hide(it_lfh); hide(lfh_h); hide(lfh_xs); hide(data_off); hide(it_rec); hide(basic); hide(ser_xfs); hide(at4); hide(user_ok); hide(cde_ok); hide(kept);
    lemma_item_at(acc, d, c, i);
    lemma_it_kept(i, c);
    lemma_holds_tk(d, i.off + it_head(i).len(), i.d);
}
/// C15, for readers that use the directory: every entry that was written is listed, in order, as it was given, and its data are read back.
pub proof fn lemma_read_back(d: Seq<u8>, pre: Seq<u8>, cds: Seq<CentralDirectoryEntry>, z64: bool, comment: Seq<u8>, items: Seq<Item>)
    requires
        archive_of(d, pre, cds, z64, comment), no_decoy(d, end_at(pre, cds, z64), z64), pre.len() + ser_dir(cds).len() + 4 <= u64::MAX,
        hist(pre, cds, items), all_cde_ok(cds), forall|k: int| 0 <= k < items.len() ==> user_ok((#[trigger] items[k]).e),
    ensures
        exists|p: int| is_eocdr(d, p) && file_ok(d, p),
        forall|p: int, f: ZipFile| is_eocdr(d, p) && #[trigger] file_is(d, p, f) ==> {
            &&& f.entries@.len() == items.len() && f.zip64 == z64 && zv(f.comment) == dec_plain(comment)
            &&& forall|k: int| 0 <= k < items.len() ==> item_read(d, items[k], #[trigger] f.entries@[k])
        },
{
    hide(ser_dir); hide(user_ok); hide(cde_sane); hide(cde_ev); hide(cde_off); hide(item_in); hide(item_read); hide(no_decoy); hide(file_is); hide(file_ok); hide(is_eocdr); hide(end_at); hide(it_rec); hide(cde_ok); hide(grown);
    assert forall|k: int| 0 <= k < cds.len() implies cde_sane(#[trigger] cds[k]) by { assert(item_in(pre, cds[k], items[k])); assert(user_ok(items[k].e)); lemma_in_rec(pre, cds[k], items[k]); lemma_it_kept(items[k], cds[k]); }
    lemma_archive_read(d, pre, cds, z64, comment);
    lemma_added(pre, ser_dir(cds) + ser_ends(z64, cds.len() as int, pre.len() as u64, ser_dir(cds).len() as u64, comment));
    let q = end_at(pre, cds, z64) + 4;
    assert(is_eocdr(d, q));
    assert forall|p: int, f: ZipFile| is_eocdr(d, p) && #[trigger] file_is(d, p, f) implies {
            &&& f.entries@.len() == items.len() && f.zip64 == z64 && zv(f.comment) == dec_plain(comment)
            &&& forall|k: int| 0 <= k < items.len() ==> item_read(d, items[k], #[trigger] f.entries@[k])
        } by {
        assert(p == q);
        assert(file_is(d, q, f));
        assert forall|k: int| 0 <= k < items.len() implies item_read(d, items[k], #[trigger] f.entries@[k]) by {
            assert(item_in(pre, cds[k], items[k])); assert(user_ok(items[k].e));
            lemma_item_read(pre, d, cds[k], items[k], f.entries@[k]);
        }
    }
}
pub proof fn lemma_in_rec(acc: Seq<u8>, c: CentralDirectoryEntry, i: Item) requires item_in(acc, c, i) ensures it_rec(i, c) { }
/// Closing an archive whose sink was empty at first (the contract of close) gives an archive in that sense.
pub proof fn lemma_finish<W: AsyncWrite>(z: ZipFileWriter<W>, w: W, items: Seq<Item>)
    requires
        finish_post(z, Ok::<W, ZipError>(w)), zw_inv(z), z.writer.fx().base == 0, z.cd_entries@.len() <= usize::MAX,
        hist(z.writer.acc(), z.cd_entries@, items),
    ensures
        archive_of(w.acc(), z.writer.acc(), z.cd_entries@, z.is_zip64 || z_big(z), z_comment(z)), all_cde_ok(z.cd_entries@),
        items.len() == z.cd_entries@.len(),
{ hide(ser_dir); hide(ser_ends); }
// ---- without a directory: one entry after the other ---------------------------------------------------------------------
/// a complete stream decodes to the same, and ends where it ends, whatever bytes follow it (assumed of the codecs)
pub open spec fn self_ending(m: Compression) -> bool {
    forall|d: Seq<u8>, t: Seq<u8>| stream_len(m, d) == d.len() ==> #[trigger] stream_len(m, d + t) == d.len() && decoded(m, d + t) == decoded(m, d)
}
pub open spec fn starts(items: Seq<Item>, k: nat) -> int decreases k { if k == 0 { 0 } else { starts(items, (k - 1) as nat) + it_bytes(items[k - 1]).len() } }
/// nothing lies between the entries (no failed attempt left bytes)
pub open spec fn contiguous(acc: Seq<u8>, items: Seq<Item>) -> bool {
    acc.len() == starts(items, items.len()) && forall|k: int| 0 <= k < items.len() ==> (#[trigger] items[k]).off == starts(items, k as nat)
}
/// an entry that a reader of a stream can step over: not stored with a descriptor (the format gives its end no mark)
pub open spec fn steppable(i: Item) -> bool { i.stream ==> !(i.e.compression is Stored) && self_ending(i.e.compression) }
/// what a reader of the stream finds at position p: the entry, its data, and the next position
pub open spec fn item_next(d: Seq<u8>, i: Item, p: int) -> bool {
    let w = tk(d, lfh_end(d, p), if i.stream { u64::MAX as int } else { lfh_ev(d, p).cs as int });
    let end = lfh_end(d, p) + used(i.e.compression, w);
    &&& lfh_ok(d, p) && !end_sig(at4(d, p)) && method_of(lfh_h(d, p).compression)->0 == i.e.compression && lfh_h(d, p).flags.data_descriptor == i.stream
    &&& kept(zv(i.e.filename), lfh_ev(d, p).name) && lfh_ev(d, p).method == i.e.compression && lfh_ev(d, p).date == i.e.last_modification_date && lfh_ev(d, p).dd == i.stream
    &&& !i.stream ==> lfh_ev(d, p).us == i.us && lfh_ev(d, p).cs == i.d.len() && lfh_ev(d, p).crc == i.crc
    &&& payload(i.e.compression, w) == i.data && end == lfh_end(d, p) + i.d.len()
    &&& (if i.stream { end + dd_len(d, end) } else { end }) == p + it_bytes(i).len()
}
pub proof fn lemma_local_ev(i: Item)
    requires user_ok(i.e)
    ensures
        kept(zv(i.e.filename), decode(basic(zv(i.e.filename)), flag8(zv(i.e.filename), zv(i.e.comment)), it_lxs(i), true)),
        !i.stream ==> z64_us(it_lxs(i), it_lfh(i).uncompressed_size) == i.us && z64_cs(it_lxs(i), it_lfh(i).compressed_size) == it_cs(i),
{
    hide(uni); hide(decode); hide(no_z64); hide(basic); hide(uni_of); hide(kept); hide(needed); hide(first_z64); hide(from_own); hide(ser_xfs);
    let (name, comment, own) = (zv(i.e.filename), zv(i.e.comment), xvs(i.e.extra_fields@));
    let (us, cs, off) = (i.us, it_cs(i), i.off);
    if i.stream { lemma_stream_text(i.no64, i.e, stream_xs(i.no64, i.e)); }
    else {
        let z = z64_field(us, cs, off);
        let l = it_lxs(i);
        let base = if big_sizes(us, cs, off) { no_z64(own).push(z) } else { no_z64(own) };
        if big_sizes(us, cs, off) { assert(base == no_z64(own).push(base.last())); lemma_base_z64(own, name, comment, Some(z), l); } else { lemma_base_z64(own, name, comment, None, l); }
        lemma_push_text(name, no_z64(own), base, true); lemma_push_text(comment, no_z64(own), base, false);
        lemma_text(base, name, comment, l, true);
    }
}
pub proof fn lemma_dd(d: Seq<u8>, p: int, crc: u32, cs: u32, us: u32)
    requires holds(d, p, descriptor(crc, cs, us))
    ensures dd_len(d, p) == 16, descriptor(crc, cs, us).len() == 16
{
    lemma_holds_add(d, p, le4(0x08074b50) + le4(crc) + le4(cs), le4(us)); lemma_holds_add(d, p, le4(0x08074b50) + le4(crc), le4(cs)); lemma_holds_add(d, p, le4(0x08074b50), le4(crc));
    lemma_holds_4(d, p, 0x08074b50);
}
pub proof fn lemma_window(d: Seq<u8>, p: int, i: Item)
    requires holds(d, p, i.d), d.len() <= u64::MAX, steppable(i), !i.pre, whole_stored(i.e.compression, i.pre, i.d, i.data), i.d.len() <= u64::MAX
    ensures ({
        let w = tk(d, p, if i.stream { u64::MAX as int } else { i.d.len() as int });
        payload(i.e.compression, w) == i.data && used(i.e.compression, w) == i.d.len()
    })
{
    if i.stream {
        let w = tk(d, p, u64::MAX as int);
        let t = d.subrange(p + i.d.len(), d.len() as int);
        assert(w == i.d + t) by { assert(w =~= i.d + t); }
        let m = i.e.compression;
        assert(is_stream(m, i.d, i.data));
        assert(stream_len(m, i.d + t) == i.d.len());
    } else { lemma_holds_tk(d, p, i.d); }
}
pub proof fn lemma_item_next(acc: Seq<u8>, d: Seq<u8>, c: CentralDirectoryEntry, i: Item)
    requires item_in(acc, c, i), grown(acc, d), user_ok(i.e), steppable(i), !i.pre, d.len() <= u64::MAX
    ensures item_next(d, i, i.off as int)
{
    hide(local_bytes); hide(it_lxs); hide(xfs_sane); hide(ser_xfs); hide(par_xfs); hide(whole_stored); hide(basic); hide(it_rec); hide(user_ok); hide(kept); hide(decode); hide(descriptor); hide(dd_len); hide(lfh_end);
    hide(steppable); hide(needed); hide(first_z64); hide(uni); hide(flag8); hide(holds); hide(at4); hide(payload); hide(used); hide(par_lfh);
    lemma_item_at(acc, d, c, i);
    lemma_local_ev(i);
    lemma_method(i.e.compression);
    lemma_window(d, i.off + it_head(i).len(), i);
    if i.stream { lemma_dd(d, i.off + it_head(i).len() + i.d.len(), i.crc, field32(i.no64, it_cs(i)), field32(i.no64, i.us)); lemma_steps(i); }
}
pub proof fn lemma_steps(i: Item) requires steppable(i), i.stream ensures method_id(i.e.compression) != 0 { }
/// C15, for a reader of the stream: where each entry ends the next one is found, and after the last one the directory.
pub proof fn lemma_walk(d: Seq<u8>, pre: Seq<u8>, cds: Seq<CentralDirectoryEntry>, z64: bool, comment: Seq<u8>, items: Seq<Item>)
    requires
        archive_of(d, pre, cds, z64, comment), hist(pre, cds, items), all_cde_ok(cds), contiguous(pre, items), d.len() <= u64::MAX,
        forall|k: int| 0 <= k < items.len() ==> user_ok((#[trigger] items[k]).e) && steppable(items[k]) && !items[k].pre,
    ensures
        forall|k: int| 0 <= k < items.len() ==> item_next(d, #[trigger] items[k], starts(items, k as nat)),
        starts(items, items.len()) == pre.len(), 4 <= avail(d, pre.len() as int), end_sig(at4(d, pre.len() as int)),
{
    hide(user_ok); hide(steppable); hide(item_in); hide(item_next); hide(it_bytes); hide(starts); hide(grown); hide(cde_ok); hide(ser_cdr); hide(ser_eocdr); hide(ser_eocdr64); hide(ser_eocdl64); hide(ser_xfs); hide(basic);
    let n = cds.len() as int;
    let (dir, start) = (ser_dir(cds), pre.len() as u64);
    let ends = ser_ends(z64, n, start, dir.len() as u64, comment);
    lemma_added(pre, dir + ends);
    assert forall|k: int| 0 <= k < items.len() implies item_next(d, #[trigger] items[k], starts(items, k as nat)) by {
        assert(item_in(pre, cds[k], items[k]));
        lemma_item_next(pre, d, cds[k], items[k]);
    }
    lemma_holds_add(d, start as int, dir, ends);
    if n > 0 {
        let c = cds[0];
        let t = lemma_dir_cut(cds, 1);
        lemma_dir_step(cds, 0);
        assert(cds.take(0) =~= Seq::<CentralDirectoryEntry>::empty());
        assert(ser_dir(cds.take(0)) == Seq::<u8>::empty());
        assert(dir =~= ser_cde(c) + t);
        lemma_sig_first(d, start as int, 0x02014b50, ser_cdr(c.header) + basic(zv(c.entry.filename)) + ser_xfs(xvs(c.entry.extra_fields@)) + basic(zv(c.entry.comment)) + t, dir);
    } else {
        let h = end32(n, start, dir.len() as u64, comment.len() as int);
        if z64 {
            let l = loc64((start + dir.len() as u64) as u64);
            lemma_sig_first(d, start as int, 0x06064b50, ser_eocdr64(end64(n, start, dir.len() as u64)) + (le4(0x07064b50) + ser_eocdl64(l)) + (le4(0x06054b50) + ser_eocdr(h) + comment), ends);
        } else { lemma_sig_first(d, start as int, 0x06054b50, ser_eocdr(h) + comment, ends); }
    }
}
pub proof fn lemma_sig_first(d: Seq<u8>, p: int, sig: u32, t: Seq<u8>, s: Seq<u8>)
    requires holds(d, p, s), s =~= le4(sig) + t
    ensures at4(d, p) == sig, 4 <= avail(d, p)
{ lemma_holds_add(d, p, le4(sig), t); lemma_holds_4(d, p, sig); }
