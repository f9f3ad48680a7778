@fn <Compression as TryFrom<u16>>::try_from [inherent]
@kinds
@contract
    ensures
        r is Ok <==> method_of(value) is Some,
        r matches Ok(c) ==> Some(c) == method_of(value),
        r matches Err(e) ==> e == ZipError::CompressionNotSupported(value),
@end
@fn <u16 as From<&Compression>>::from
@kinds
@with
impl FromSpecImpl<&Compression> for u16 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &Compression) -> u16 { method_id(*v) }
}
@end
@fn <u16 as From<Compression>>::from
@kinds
@with
impl FromSpecImpl<Compression> for u16 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Compression) -> u16 { method_id(v) }
}
@end
@fn <AttributeCompatibility as TryFrom<u16>>::try_from [inherent]
@kinds
@contract
    ensures
        r is Ok <==> value == 3,
        r matches Err(e) ==> e == ZipError::AttributeCompatibilityNotSupported(value),
@end
@fn <u16 as From<&AttributeCompatibility>>::from
@kinds
@with
impl FromSpecImpl<&AttributeCompatibility> for u16 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &AttributeCompatibility) -> u16 { 3 }
}
@end
@fn <u16 as From<AttributeCompatibility>>::from
@kinds
@with
impl FromSpecImpl<AttributeCompatibility> for u16 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: AttributeCompatibility) -> u16 { 3 }
}
@end
@fn DeflateOption::into_level
@kinds
@contract
    ensures r == (match self { DeflateOption::Other(l) => Level::Precise(l), _ => Level::Default }),
@end
@fn as_needed_to_extract
@kinds
@contract
    requires zs_ok(entry.filename),
    ensures r == needed(entry.compression, is_dir(zv(entry.filename))),
@end
@fn as_made_by
@kinds
@contract
    ensures r == made_by(),
@at start
proof { assert(3u16 << 8 | 63u16 == 0x33fu16) by (bit_vector); }
@end

@fn ZipDateTime::year
@kinds
@contract
    ensures r == dt_year(*self),
@map .into() => .vx_into_i32()
@at start
let ghost d = self.date;
proof { assert(((d & 0xFE00) >> 9) == d / 512 && d / 512 <= 127) by (bit_vector); }
@end
@fn ZipDateTime::month
@kinds
@contract
    ensures r == dt_month(*self),
@at start
let ghost d = self.date;
proof { assert(((d & 0x1E0) >> 5) == d / 32 % 16) by (bit_vector); }
@end
@fn ZipDateTime::day
@kinds
@contract
    ensures r == dt_day(*self),
@at start
let ghost d = self.date;
proof { assert((d & 0x1F) == d % 32) by (bit_vector); }
@end
@fn ZipDateTime::hour
@kinds
@contract
    ensures r == dt_hour(*self),
@at start
let ghost d = self.time;
proof { assert(((d & 0xF800) >> 11) == d / 2048) by (bit_vector); }
@end
@fn ZipDateTime::minute
@kinds
@contract
    ensures r == dt_minute(*self),
@at start
let ghost d = self.time;
proof { assert(((d & 0x7E0) >> 5) == d / 32 % 64) by (bit_vector); }
@end
@fn ZipDateTime::second
@kinds
@contract
    ensures r == dt_second(*self),
@at start
let ghost d = self.time;
proof { assert(((d & 0x1F) << 1) == mul(d % 32, 2) && d % 32 < 32) by (bit_vector); }
@end

@fn ZipDateTimeBuilder::new
@kinds
@contract
    ensures r.0.date == 0, r.0.time == 0,
@end
@fn ZipDateTimeBuilder::year
@kinds
@contract
    requires 1980 <= year <= 2107,
    ensures r.0.time == self.0.time, dt_year(r.0) == year, dt_month(r.0) == dt_month(self.0), dt_day(r.0) == dt_day(self.0),
@at start
let ghost d = self.0.date;
let ghost y = (year - 1980) as u16;
proof {
    let k = year - 1980;
    assert(k == y as i32);
    assert(0 <= ((y as i32) << 9) && ((((y as i32) << 9) & 0xFE00) == mul(y as i32, 512)) && y <= 127) by (bit_vector) requires y <= 127;
    assert((((d & !0xFE00u16) | (mul(y, 512))) / 512 == y) && (((d & !0xFE00u16) | (mul(y, 512))) / 32 % 16 == d / 32 % 16)
        && (((d & !0xFE00u16) | (mul(y, 512))) % 32 == d % 32)) by (bit_vector) requires y <= 127;
}
@end
@fn ZipDateTimeBuilder::month
@kinds
@contract
    requires month <= 15,
    ensures r.0.time == self.0.time, dt_year(r.0) == dt_year(self.0), dt_month(r.0) == month, dt_day(r.0) == dt_day(self.0),
@at start
let ghost d = self.0.date;
let ghost y = month as u16;
proof {
    assert((((y as u32) << 5) & 0x1E0) == mul(y as u32, 32)) by (bit_vector) requires y <= 15;
    assert((((d & !0x1E0u16) | (mul(y, 32))) / 512 == d / 512) && (((d & !0x1E0u16) | (mul(y, 32))) / 32 % 16 == y)
        && (((d & !0x1E0u16) | (mul(y, 32))) % 32 == d % 32)) by (bit_vector) requires y <= 15;
}
@end
@fn ZipDateTimeBuilder::day
@kinds
@contract
    requires day <= 31,
    ensures r.0.time == self.0.time, dt_year(r.0) == dt_year(self.0), dt_month(r.0) == dt_month(self.0), dt_day(r.0) == day,
@at start
let ghost d = self.0.date;
let ghost y = day as u16;
proof {
    assert(((y as u32) & 0x1F) == y as u32) by (bit_vector) requires y <= 31;
    assert((((d & !0x1Fu16) | y) / 512 == d / 512) && (((d & !0x1Fu16) | y) / 32 % 16 == d / 32 % 16)
        && (((d & !0x1Fu16) | y) % 32 == y)) by (bit_vector) requires y <= 31;
}
@end
@fn ZipDateTimeBuilder::hour
@kinds
@contract
    requires hour <= 31,
    ensures r.0.date == self.0.date, dt_hour(r.0) == hour, dt_minute(r.0) == dt_minute(self.0), dt_second(r.0) == dt_second(self.0),
@at start
let ghost d = self.0.time;
let ghost y = hour as u16;
proof {
    assert((((y as u32) << 11) & 0xF800) == mul(y as u32, 2048)) by (bit_vector) requires y <= 31;
    assert((((d & !0xF800u16) | (mul(y, 2048))) / 2048 == y) && (((d & !0xF800u16) | (mul(y, 2048))) / 32 % 64 == d / 32 % 64)
        && (((d & !0xF800u16) | (mul(y, 2048))) % 32 == d % 32)) by (bit_vector) requires y <= 31;
}
@end
@fn ZipDateTimeBuilder::minute
@kinds
@contract
    requires minute <= 63,
    ensures r.0.date == self.0.date, dt_hour(r.0) == dt_hour(self.0), dt_minute(r.0) == minute, dt_second(r.0) == dt_second(self.0),
@at start
let ghost d = self.0.time;
let ghost y = minute as u16;
proof {
    assert((((y as u32) << 5) & 0x7E0) == mul(y as u32, 32)) by (bit_vector) requires y <= 63;
    assert((((d & !0x7E0u16) | (mul(y, 32))) / 2048 == d / 2048) && (((d & !0x7E0u16) | (mul(y, 32))) / 32 % 64 == y)
        && (((d & !0x7E0u16) | (mul(y, 32))) % 32 == d % 32)) by (bit_vector) requires y <= 63;
}
@end
@fn ZipDateTimeBuilder::second
@kinds
@contract
    requires second <= 63,
    ensures r.0.date == self.0.date, dt_hour(r.0) == dt_hour(self.0), dt_minute(r.0) == dt_minute(self.0), dt_second(r.0) == second / 2 * 2,
@at start
let ghost d = self.0.time;
let ghost y = second as u16;
let ghost h = (second / 2) as u16;
proof {
    assert((((y as u32) >> 1) & 0x1F) == (y / 2) as u32) by (bit_vector) requires y <= 63;
    assert((((d & !0x1Fu16) | h) / 2048 == d / 2048) && (((d & !0x1Fu16) | h) / 32 % 64 == d / 32 % 64)
        && (((d & !0x1Fu16) | h) % 32 == h)) by (bit_vector) requires h <= 31;
}
@end
@fn <ZipDateTime as From<ZipDateTimeBuilder>>::from
@kinds
@with
impl FromSpecImpl<ZipDateTimeBuilder> for ZipDateTime {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ZipDateTimeBuilder) -> ZipDateTime { v.0 }
}
@end
@fn <ZipDateTimeBuilder as From<ZipDateTime>>::from
@kinds
@with
impl FromSpecImpl<ZipDateTime> for ZipDateTimeBuilder {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ZipDateTime) -> ZipDateTimeBuilder { ZipDateTimeBuilder(v) }
}
@end
@fn ZipDateTimeBuilder::build
@kinds
@contract
    ensures r == self.0,
@end
@fn <ZipDateTime as From<&DateTime<Utc>>>::from [inherent]
@kinds
@contract
    requires 1980 <= value.nd().y() <= 2107,
    ensures dt_is(r, *value),
@end
@fn ZipDateTime::from_chrono
@kinds
@contract
    requires 1980 <= dt.nd().y() <= 2107,
    ensures dt_is(r, *dt),
@map dt.into() => ZipDateTime::from(dt)
@end
@fn <LocalResult as From<&ZipDateTime>>::from [inherent]
@kinds
@contract
    ensures r == utc_of(dt_year(*value) as i32, dt_month(*value) as u32, dt_day(*value) as u32, dt_hour(*value) as u32, dt_minute(*value) as u32, dt_second(*value) as u32),
@end
@fn ZipDateTime::as_chrono
@kinds
@contract
    ensures r == utc_of(dt_year(*self) as i32, dt_month(*self) as u32, dt_day(*self) as u32, dt_hour(*self) as u32, dt_minute(*self) as u32, dt_second(*self) as u32),
@map self.into() => LocalResult::from(self)
@end
@fn <ZipDateTime as From<DateTime<Utc>>>::from [inherent,noauto,rename=from_owned]
@kinds
@contract
    requires 1980 <= value.nd().y() <= 2107,
    ensures dt_is(r, value),
@map (&value).into() => ZipDateTime::from(&value)
@end
@fn <LocalResult as From<ZipDateTime>>::from [inherent,noauto,rename=from_owned]
@kinds
@contract
    ensures r == utc_of(dt_year(value) as i32, dt_month(value) as u32, dt_day(value) as u32, dt_hour(value) as u32, dt_minute(value) as u32, dt_second(value) as u32),
@map (&value).into() => LocalResult::from(&value)
@end
