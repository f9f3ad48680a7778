// The stack of one entry: writers over the archive's own.
pub open spec fn cwin<'b, W: AsyncWrite>(c: CompressedAsyncWriter<'b, W>) -> &'b mut AsyncOffsetWriter<W> {
    match c {
        CompressedAsyncWriter::Stored(x) => x.0,
        CompressedAsyncWriter::Deflate(x) => x.inner().0,
        CompressedAsyncWriter::Bz(x) => x.inner().0,
        CompressedAsyncWriter::Lzma(x) => x.inner().0,
        CompressedAsyncWriter::Zstd(x) => x.inner().0,
        CompressedAsyncWriter::Xz(x) => x.inner().0,
    }
}
pub open spec fn cw_is<'b, W: AsyncWrite>(c: CompressedAsyncWriter<'b, W>, m: Compression) -> bool {
    match c {
        CompressedAsyncWriter::Stored(_) => m is Stored,
        CompressedAsyncWriter::Deflate(_) => m is Deflate,
        CompressedAsyncWriter::Bz(_) => m is Bz,
        CompressedAsyncWriter::Lzma(_) => m is Lzma,
        CompressedAsyncWriter::Zstd(_) => m is Zstd,
        CompressedAsyncWriter::Xz(_) => m is Xz,
    }
}
