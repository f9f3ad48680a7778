@fn ZipString::new
@kinds
@contract
    ensures zs_ok(r), zv(r) == (ZS { utf8: encoding is Utf8 && utf8_valid(raw@), raw: raw@, alt: None }),
@end
@fn ZipString::new_with_alternative
@kinds
@contract
    ensures zs_ok(r), zv(r) == (ZS { utf8: true, raw: utf8.sv(), alt: Some(alternative@) }),
@end
@fn ZipString::as_bytes
@kinds
@contract
    ensures r@ == zv(*self).raw,
@end
@fn ZipString::encoding
@kinds
@contract
    ensures r == self.encoding,
@end
@fn ZipString::alternative
@kinds
@contract
    ensures opts(r) == zv(*self).alt,
@end
@fn ZipString::as_str
@kinds
@contract
    requires zs_ok(*self),
    ensures
        r is Ok <==> zv(*self).utf8,
        r matches Ok(s) ==> s.sv() == zv(*self).raw,
        r matches Err(e) ==> e is StringNotUtf8,
@end
@fn ZipString::into_string
@kinds
@contract
    requires zs_ok(self),
    ensures
        r is Ok <==> zv(self).utf8,
        r matches Ok(s) ==> s.sv() == zv(self).raw,
        r matches Err(e) ==> e is StringNotUtf8,
@end
@fn ZipString::into_alternative
@kinds
@contract
    ensures optv(r) == zv(self).alt,
@end
@fn ZipString::is_utf8_without_alternative
@kinds
@contract
    ensures r == (zv(*self).utf8 && zv(*self).alt is None),
@end
@fn <ZipString as From<String>>::from [inherent]
@kinds
@with
pub trait VxIntoZs: Sized { spec fn izs(self) -> Seq<u8>; fn vx_into_zs(self) -> (r: ZipString) ensures zs_ok(r), zv(r) == (ZS { utf8: true, raw: self.izs(), alt: None }); }
impl VxIntoZs for VString { open spec fn izs(self) -> Seq<u8> { self.sv() } fn vx_into_zs(self) -> (r: ZipString) { ZipString::from(self) } }
@contract
    ensures zs_ok(r), zv(r) == (ZS { utf8: true, raw: value.sv(), alt: None }),
@end
@fn <ZipString as From<&str>>::from [inherent,noauto,rename=from_str]
@kinds
@contract
    ensures zs_ok(r), zv(r) == (ZS { utf8: true, raw: value.sv(), alt: None }),
@end
@fn ZipEntry::filename
@kinds
@contract
    ensures *r == self.filename,
@end
@fn ZipEntry::compression
@kinds
@contract
    ensures r == self.compression,
@end
@fn ZipEntry::crc32
@kinds
@contract
    ensures r == self.crc32,
@end
@fn ZipEntry::uncompressed_size
@kinds
@contract
    ensures r == self.uncompressed_size,
@end
@fn ZipEntry::compressed_size
@kinds
@contract
    ensures r == self.compressed_size,
@end
@fn ZipEntry::attribute_compatibility
@kinds
@contract
    ensures r == self.attribute_compatibility,
@end
@fn ZipEntry::last_modification_date
@kinds
@contract
    ensures *r == self.last_modification_date,
@end
@fn ZipEntry::internal_file_attribute
@kinds
@contract
    ensures r == self.internal_file_attribute,
@end
@fn ZipEntry::external_file_attribute
@kinds
@contract
    ensures r == self.external_file_attribute,
@end
@fn ZipEntry::extra_fields
@kinds
@contract
    ensures r@ == self.extra_fields@,
@end
@fn ZipEntry::comment
@kinds
@contract
    ensures *r == self.comment,
@end
@fn ZipEntry::unix_permissions
@kinds
@contract
    ensures r == Some((self.external_file_attribute / 0x10000) as u16),
@at start
let ghost x = self.external_file_attribute;
proof { assert((x >> 16) == x / 0x10000) by (bit_vector); }
@end
@fn ZipEntry::dir
@kinds
@contract
    requires zs_ok(self.filename),
    ensures
        r is Ok <==> zv(self.filename).utf8,
        r matches Ok(b) ==> b == is_dir(zv(self.filename)),
@end
@fn ZipEntry::new
@kinds
@contract
    ensures
        r.filename == filename, r.compression == compression, r.crc32 == 0, r.uncompressed_size == 0, r.compressed_size == 0,
        r.last_modification_date.date == 0, r.last_modification_date.time == 0, r.internal_file_attribute == 0, r.external_file_attribute == 0,
        r.extra_fields@.len() == 0, zs_ok(r.comment), zv(r.comment) == (ZS { utf8: true, raw: Seq::empty(), alt: None }),
        r.data_descriptor == false, r.compression_level is Default,
@map VString::new().into() => ZipString::from(VString::new())
@end
@fn ZipEntryBuilder::new
@kinds
@contract
    ensures
        r.0.filename == filename, r.0.compression == compression, r.0.crc32 == 0, r.0.uncompressed_size == 0, r.0.compressed_size == 0,
        r.0.last_modification_date.date == 0, r.0.last_modification_date.time == 0, r.0.internal_file_attribute == 0, r.0.external_file_attribute == 0,
        r.0.extra_fields@.len() == 0, zs_ok(r.0.comment), zv(r.0.comment) == (ZS { utf8: true, raw: Seq::empty(), alt: None }),
        r.0.data_descriptor == false, r.0.compression_level is Default,
@end
@fn ZipEntryBuilder::filename
@kinds
@contract
    ensures r.0 == (ZipEntry { filename: filename, ..self.0 }),
@end
@fn ZipEntryBuilder::compression
@kinds
@contract
    ensures r.0 == (ZipEntry { compression: compression, ..self.0 }),
@end
@fn ZipEntryBuilder::deflate_option
@kinds
@contract
    ensures r.0 == (ZipEntry { compression_level: (match option { DeflateOption::Other(l) => Level::Precise(l), _ => Level::Default }), ..self.0 }),
@end
@fn ZipEntryBuilder::attribute_compatibility
@kinds
@contract
    ensures r.0 == (ZipEntry { attribute_compatibility: compatibility, ..self.0 }),
@end
@fn ZipEntryBuilder::last_modification_date
@kinds
@contract
    ensures r.0 == (ZipEntry { last_modification_date: date, ..self.0 }),
@end
@fn ZipEntryBuilder::internal_file_attribute
@kinds
@contract
    ensures r.0 == (ZipEntry { internal_file_attribute: attribute, ..self.0 }),
@end
@fn ZipEntryBuilder::external_file_attribute
@kinds
@contract
    ensures r.0 == (ZipEntry { external_file_attribute: attribute, ..self.0 }),
@end
@fn ZipEntryBuilder::extra_fields
@kinds
@contract
    ensures r.0 == (ZipEntry { extra_fields: field, ..self.0 }),
@end
@fn ZipEntryBuilder::comment
@kinds
@contract
    ensures r.0 == (ZipEntry { comment: comment, ..self.0 }),
@end
@fn ZipEntryBuilder::unix_permissions
@kinds
@contract
    ensures r.0 == (ZipEntry { external_file_attribute: r.0.external_file_attribute, ..self.0 }),
        r.0.external_file_attribute == mode * 0x10000 + self.0.external_file_attribute % 0x10000,
@at start
let ghost x = self.0.external_file_attribute;
proof { assert(((x & 0xFFFF) | ((mode as u32) << 16)) == add(mul(mode as u32, 0x10000), x % 0x10000) && mul(mode as u32, 0x10000) >> 16 == mode as u32 && x % 0x10000 <= 0xffff) by (bit_vector); }
@end
@fn <ZipEntryBuilder as From<ZipEntry>>::from
@kinds
@with
impl FromSpecImpl<ZipEntry> for ZipEntryBuilder {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ZipEntry) -> ZipEntryBuilder { ZipEntryBuilder(v) }
}
@end
@fn <ZipEntry as From<ZipEntryBuilder>>::from
@kinds
@with
impl FromSpecImpl<ZipEntryBuilder> for ZipEntry {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ZipEntryBuilder) -> ZipEntry { v.0 }
}
@end
@fn ZipEntryBuilder::build
@kinds
@contract
    ensures r == self.0,
@end
