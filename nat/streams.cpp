// C01-C09, C11: every stream class against the content it must deliver
#include "nat.h"
#include <strigi/stringstream.h>
#include <strigi/fileinputstream.h>
#include <strigi/subinputstream.h>
#include <strigi/stringterminatedsubstream.h>
#include <strigi/dataeventinputstream.h>
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/lzmainputstream.h>
#include <iconv.h>
#include <strigi/encodinginputstream.h>
#include <strigi/inputstreamreader.h>
#include "base64inputstream.h"
#include "mmapfileinputstream.h"
#include "skippingfileinputstream.h"
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
#include <unistd.h>
#include <memory>
using namespace Strigi;
const char* harness_name = "streams";
typedef std::basic_string<wchar_t> wstr;

template <class T> struct NoSkip : Chunks<T> {       // the default skip of the base class
    NoSkip(const std::basic_string<T>& d, Rng& r) : Chunks<T>(d, r) {}
    int64_t skip(int64_t n) { return StreamBase<T>::skip(n); }
};
static int64_t lenof(Rng& r, int64_t big = 300) { return r.one(8) ? 0 : r.skew(r.one(3) ? 20 : big); }
static wstr wide(Rng& r, size_t n) { wstr w(n, 0); for (size_t i = 0; i < n; ++i) w[i] = (wchar_t)(r.next() & 0x7fffffff); return w; }

static void c_string(Rng& r) {
    str d = r.bytes(lenof(r)); Opt o; o.what = "StringStream<char>"; o.random = true;
    bool copy = r.coin();
    if (r.one(5)) { for (size_t i = 0; i < d.size(); ++i) if (!d[i]) d[i] = 1; }
    bool nul = d.find('\0') == str::npos && r.coin();
    std::unique_ptr<char[]> buf(new char[d.size() + (nul ? 1 : 0)]); memcpy(buf.get(), d.data(), d.size()); if (nul) buf[d.size()] = 0;
    tr("StringStream len=%zu copy=%d nul=%d\n", d.size(), copy, nul);
    StringStream<char> s(buf.get(), nul ? -1 : (int32_t)d.size(), copy);
    if (copy) buf.reset();
    CHECK("eof", s.size() == (int64_t)d.size(), "StringStream: size %lld for %zu bytes", (long long)s.size(), d.size());
    drive<char>(&s, d, r, o);
}
static void c_wstring(Rng& r) {
    wstr d = wide(r, lenof(r)); Opt o; o.what = "StringStream<wchar_t>"; o.random = true;
    bool copy = r.coin();
    std::unique_ptr<wchar_t[]> buf(new wchar_t[d.size()]); std::copy(d.begin(), d.end(), buf.get());
    StringStream<wchar_t> s(buf.get(), (int32_t)d.size(), copy);
    if (copy) buf.reset();
    drive<wchar_t>(&s, d, r, o);
}
template <class T> static void c_filler(Rng& r, const std::basic_string<T>& d, const char* w) {
    Opt o; o.what = w; o.nops = (int)r.in(1, 60);
    Filler<T> s(d, r);
    if (r.one(4)) { s.errAt = r.in(0, d.size()); o.mayFail = true; }
    tr("len=%zu errAt=%lld zeros=%d size=%lld\n", d.size(), (long long)s.errAt, s.zeros, (long long)s.size());
    drive<T>(&s, d, r, o);
}
static void c_buffered(Rng& r) { c_filler<char>(r, r.bytes(lenof(r)), "BufferedStream<char>"); }
static void c_wbuffered(Rng& r) { c_filler<wchar_t>(r, wide(r, lenof(r)), "BufferedStream<wchar_t>"); }
static void c_default(Rng& r) {
    str d = r.bytes(lenof(r)); Opt o; o.what = "StreamBase::skip"; NoSkip<char> s(d, r);
    if (r.one(4)) { s.errAt = r.in(0, d.size()); o.mayFail = true; }
    tr("%s\n", s.conf().c_str()); o.mayFail |= s.canErr();
    drive<char>(&s, d, r, o);
}
static str putfile(const str& d, const char* name = "/file") {
    str p = scratch() + name; FILE* f = fopen(p.c_str(), "wb"); fwrite(d.data(), 1, d.size(), f); fclose(f); return p;
}
static void c_file(Rng& r) {
    str d = r.bytes(lenof(r)); Opt o; str p = putfile(d); int k = (int)r.in(0, 3);
    o.nops = (int)r.in(1, 40);
    std::unique_ptr<InputStream> s;
    if (k == 0) { o.what = "FileInputStream"; s.reset(new FileInputStream(p.c_str(), (int32_t)(r.coin() ? r.in(1, 100) : 1048576))); }
    else if (k == 1) { o.what = "MMapFileInputStream"; s.reset(FileInputStream::open(p.c_str(), FileInputStream::MMap)); o.random = true; }
    else if (k == 2) { o.what = "SkippingFileInputStream"; s.reset(FileInputStream::open(p.c_str(), FileInputStream::Unbuffered)); o.random = true; }
    else { o.what = "FileInputStream::open"; s.reset(FileInputStream::open(p.c_str(), FileInputStream::Buffered, 50)); }
    tr("%s len=%zu\n", o.what, d.size());
    CHECK("eof", s->size() == (int64_t)d.size(), "%s: size %lld for %zu bytes", o.what, (long long)s->size(), d.size());
    drive<char>(s.get(), d, r, o);
}
static void c_nofile(Rng& r) {
    str p = scratch() + "/does-not-exist"; Opt o; o.mustFail = true; o.mayFail = true; o.full = false; o.what = "missing file";
    int k = (int)r.in(0, 2);
    std::unique_ptr<InputStream> s(FileInputStream::open(p.c_str(), k == 0 ? FileInputStream::Buffered : k == 1 ? FileInputStream::MMap : FileInputStream::Unbuffered));
    tr("kind %d\n", k);
    CHECK("error", s->status() == Error, "opening a missing file (kind %d) gives status %d", k, (int)s->status());
    CHECK("error", s->error()[0], "no error message for a missing file");
    drive<char>(s.get(), "", r, o);
}
// a window of another stream, also of an unread one, with a parent that may fail or be short
static void c_sub(Rng& r) {
    str d = r.bytes(lenof(r)); ChunkStream in(d, r); Opt o; o.what = "SubInputStream"; o.nops = (int)r.in(1, 40);
    int64_t off = r.skew(d.size());
    if (off) { const char* c; if (in.read(c, (int32_t)off, (int32_t)off) != off) return; }
    int64_t have = d.size() - off, len = r.one(4) ? -1 : r.one(4) ? have + r.in(1, 50) : r.in(0, have);
    if (r.one(5)) { in.errAt = r.in(off, d.size()); o.mayFail = true; }
    o.mayFail |= in.canErr();
    tr("%s offset=%lld size=%lld\n", in.conf().c_str(), (long long)off, (long long)len);
    SubInputStream s(&in, len);
    bool shrt = len > have;
    str D = d.substr(off, len < 0 || shrt ? have : len);
    if (shrt) { o.mustFail = true; o.mayFail = true; }
    o.segreset = !shrt; o.revive = true;
    drive<char>(&s, D, r, o);
    if (len >= 0 && !shrt) CHECK("data", in.position() <= off + len || in.status() == Error, "SubInputStream: the parent was read up to %lld, past the window [%lld,%lld)", (long long)in.position(), (long long)off, (long long)(off + len));
    CHECK("count", !in.misuse, "SubInputStream: asks its input for less than one byte or a negative position");
}
static void c_term(Rng& r) {
    int al = r.one(3) ? 256 : (int)r.in(1, 3);
    str t = r.bytes(r.one(10) ? r.in(1, 12) : r.in(1, 4), al), d = r.bytes(lenof(r, 100), al);
    if (r.coin()) d.insert(r.in(0, d.size()), t);
    ChunkStream in(d, r); in.eager = r.coin(); Opt o; o.what = "StringTerminatedSubStream"; o.nops = (int)r.in(0, 30);
    if (r.one(5)) { in.errAt = r.in(0, d.size()); o.mayFail = true; }
    int64_t off = r.one(3) ? r.skew(d.size()) : 0;
    if (off) { const char* c; if (in.read(c, (int32_t)off, (int32_t)off) != off) return; }
    size_t e = d.find(t, off);
    str D = d.substr(off, e == str::npos ? str::npos : e - off);
    o.mayFail |= in.canErr() || in.resets < 2; o.resets = r.coin(); o.revive = true;
    tr("%s offset=%lld terminator=%s data=%s\n", in.conf().c_str(), (long long)off, show(t).c_str(), show(d, 200).c_str());
    StringTerminatedSubStream s(&in, t);
    CHECK("data", s.offset() == off, "StringTerminatedSubStream: offset %lld, expected %lld", (long long)s.offset(), (long long)off);
    drive<char>(&s, D, r, o);
    if (!o.resets && s.status() == Eof && e != str::npos && s.position() == (int64_t)D.size())
        CHECK("after", in.position() == (int64_t)(e + t.size()) || in.status() == Error, "StringTerminatedSubStream: the input is at %lld, the terminator ends at %lld", (long long)in.position(), (long long)(e + t.size()));
    CHECK("count", !in.misuse, "StringTerminatedSubStream: asks its input for less than one byte or a negative position");
}
struct Handler : DataEventHandler {
    str got; int ends; int64_t stop; bool stopped, late;
    Handler() : ends(0), stop(-1), stopped(false), late(false) {}
    bool handleData(const char* d, uint32_t n) { if (stopped) late = true; if (ends) late = true; got.append(d, n); tr("  data %u\n", n); if (stop >= 0 && (int64_t)got.size() >= stop) { stopped = true; return false; } return true; }
    void handleEnd() { ++ends; tr("  end\n"); }
};
static void c_event(Rng& r) {
    str d = r.bytes(lenof(r)); ChunkStream in(d, r); Opt o; o.what = "DataEventInputStream"; o.nops = (int)r.in(0, 40);
    if (r.one(5)) { in.errAt = r.in(0, d.size()); o.mayFail = true; }
    Handler h; if (r.one(4)) h.stop = r.in(0, d.size());
    o.full = r.coin();
    o.mayFail |= in.canErr();
    tr("%s stop=%lld\n", in.conf().c_str(), (long long)h.stop);
    DataEventInputStream s(&in, h);
    bool reached = false;
    struct Watch { } w; (void)w;
    drive<char>(&s, d, r, o);
    CHECK("event", h.ends <= 1, "DataEventInputStream: handleEnd was called %d times", h.ends);
    CHECK("event", !h.late, "DataEventInputStream: data after the handler declined or after the end");
    CHECK("event", h.got == d.substr(0, h.got.size()), "DataEventInputStream: the handler got other bytes than the stream has");
    if (h.ends && h.stop < 0) CHECK("event", h.got.size() == d.size(), "DataEventInputStream: handleEnd after %zu of %zu bytes", h.got.size(), d.size());
    if (s.status() == Eof) { reached = true; const char* p; CHECK("eof", s.read(p, 1, 1) == -1, "DataEventInputStream: data after the end"); CHECK("event", h.ends == 1, "DataEventInputStream: the end was reached, handleEnd was called %d times", h.ends); }
    if (!h.stopped && s.status() != Error) CHECK("event", (int64_t)h.got.size() >= s.position(), "DataEventInputStream: at %lld but the handler got %zu bytes", (long long)s.position(), h.got.size());
    (void)reached;
    CHECK("count", !in.misuse, "DataEventInputStream: asks its input for less than one byte or a negative position");
}
// ---------------------------------------------------------------- decompressors
static str zip_(const str& d, int wbits, int level) {
    z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, level, Z_DEFLATED, wbits, 8, Z_DEFAULT_STRATEGY);
    str o(compressBound(d.size()) + 100, 0); z.next_in = (Bytef*)d.data(); z.avail_in = d.size(); z.next_out = (Bytef*)&o[0]; z.avail_out = o.size();
    deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); return o;
}
static str bz_(const str& d) { unsigned n = d.size() + d.size() / 50 + 700; str o(n, 0); BZ2_bzBuffToBuffCompress(&o[0], &n, (char*)d.data(), d.size(), 9, 0, 0); o.resize(n); return o; }
static str lzma_(const str& d, bool known) {
    lzma_options_lzma op; lzma_lzma_preset(&op, 1); op.dict_size = 4096;
    lzma_stream z = LZMA_STREAM_INIT; lzma_alone_encoder(&z, &op);
    str o(d.size() * 2 + 1000, 0); z.next_in = (const uint8_t*)d.data(); z.avail_in = d.size(); z.next_out = (uint8_t*)&o[0]; z.avail_out = o.size();
    lzma_code(&z, LZMA_FINISH); o.resize(z.total_out); lzma_end(&z);
    if (known) { uint64_t n = d.size(); memcpy(&o[5], &n, 8); }      // size in the header and an end marker
    return o;
}
static void c_decomp(Rng& r, int kind) {
    // repetitive, so that a window and long matches are used
    str d; int64_t L = r.one(6) ? r.in(0, 3) : r.one(200) ? r.in(200000, 700000) : r.one(20) ? r.in(1000, 30000) : r.skew(2000);
    while ((int64_t)d.size() < L) { if (d.size() && r.coin()) { size_t a = r.in(0, d.size() - 1); d += d.substr(a, r.in(1, 300)); } else d += r.bytes(r.in(1, 40)); }
    d.resize(L);
    str c; Opt o; GZipInputStream::ZipFormat f = GZipInputStream::GZIPFORMAT;
    switch (kind) {
    case 0: { int k = (int)r.in(0, 2); f = k == 0 ? GZipInputStream::GZIPFORMAT : k == 1 ? GZipInputStream::ZLIBFORMAT : GZipInputStream::ZIPFORMAT;
        c = zip_(d, k == 0 ? 31 : k == 1 ? 15 : -15, (int)r.in(0, 9)); o.what = "GZipInputStream"; break; }
    case 1: if (d.empty()) d = "x"; c = bz_(d); o.what = "BZ2InputStream"; break;
    case 2: if (d.size() <= 4096 && d.size()) { d.resize(5000 + r.skew(3000), 'z'); } c = lzma_(d, d.size() && r.coin()); o.what = "LZMAInputStream"; break;
    }
    size_t clen = c.size();
    int damage = (int)r.in(0, 5); bool trail = false;
    if (damage == 0) { c.resize(r.in(0, c.size() ? c.size() - 1 : 0)); o.mustFail = kind != 2; o.mayFail = true; }           // truncated
    else if (damage == 1 && c.size() > 4) { size_t i = r.in(0, c.size() - 1); c[i] ^= (char)(1 << r.in(0, 7)); o.mayFail = true; }   // one bit flipped
    else if (damage == 2) { c += r.bytes(r.in(1, 50)); trail = true; }
    ChunkStream in(c, r, false);
    in.resets = (int)r.in(1, 2);
    if (damage == 3) { in.errAt = r.in(0, c.size()); o.mayFail = true; }
    tr("%s compressed=%zu plain=%zu damage=%d %s\n", o.what, c.size(), d.size(), damage, in.conf().c_str());
    std::unique_ptr<InputStream> s;
    if (kind == 0) s.reset(new GZipInputStream(&in, f)); else if (kind == 1) s.reset(new BZ2InputStream(&in)); else s.reset(new LZMAInputStream(&in));
    o.nops = (int)r.in(0, 25); o.beyond = true;
    if (L > 20000) o.maxreq = 300000;
    if (damage == 1) {
        // whatever comes out, a completed gzip, zlib or bzip2 stream has the right checksum
        str out; const char* p; int32_t n;
        while ((n = s->read(p, 1, (int32_t)r.in(0, 5000))) > 0) { out.append(p, n); if (out.size() > 4000000) break; }
        CHECK("count", n == -1 || n == -2 || out.size() > 4000000, "%s: read returned %d", o.what, n);
        CHECK("error", (n == -2) == (s->status() == Error), "%s: -2 and error status disagree", o.what);
        if (n == -1) { CHECK("eof", s->status() == Eof && s->size() == (int64_t)out.size(), "%s: bad end of a damaged stream", o.what);
            if (kind == 1 || (kind == 0 && f != GZipInputStream::ZIPFORMAT)) CHECK("data", out == d, "%s: damaged data delivered as complete", o.what); }
        return;
    }
    drive<char>(s.get(), d, r, o);
    if (trail && kind != 2 && s->status() == Eof) CHECK("after", in.position() == (int64_t)clen || in.status() == Error, "%s: the input is at %lld after the compressed data of length %zu", o.what, (long long)in.position(), clen);
    if (o.mustFail) { const char* p; while (s->read(p, 1, 0) > 0) {} CHECK("error", s->status() == Error, "%s: truncated data ends with status %d", o.what, (int)s->status()); }
}
static void c_gz(Rng& r) { c_decomp(r, 0); }
static void c_bz(Rng& r) { c_decomp(r, 1); }
static void c_lzma(Rng& r) { c_decomp(r, 2); }
static const char b64a[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static str b64(const str& d) {
    str o; size_t i = 0;
    for (; i + 2 < d.size(); i += 3) { unsigned v = (unsigned char)d[i] << 16 | (unsigned char)d[i + 1] << 8 | (unsigned char)d[i + 2]; o += b64a[v >> 18]; o += b64a[v >> 12 & 63]; o += b64a[v >> 6 & 63]; o += b64a[v & 63]; }
    if (d.size() - i == 1) { unsigned v = (unsigned char)d[i] << 16; o += b64a[v >> 18]; o += b64a[v >> 12 & 63]; o += "=="; }
    if (d.size() - i == 2) { unsigned v = (unsigned char)d[i] << 16 | (unsigned char)d[i + 1] << 8; o += b64a[v >> 18]; o += b64a[v >> 12 & 63]; o += b64a[v >> 6 & 63]; o += "="; }
    return o;
}
static void c_b64(Rng& r) {
    str d = r.bytes(lenof(r)), c = b64(d);
    if (r.coin()) for (int k = (int)r.skew(20); k-- > 0; ) { static const char junk[] = "\r\n \t\"!-\x80\xff\x7f\x01"; c.insert(r.in(0, c.size()), 1, junk[r.in(0, sizeof junk - 2)]); }
    if (d.size() % 3 && r.one(3)) c += r.bytes(r.skew(20));      // anything after the padding
    ChunkStream in(c, r); Opt o; o.what = "Base64InputStream"; o.nops = (int)r.in(0, 40);
    if (r.one(5)) { in.errAt = r.in(0, c.size()); o.mayFail = true; }
    tr("%s encoded=%s\n", in.conf().c_str(), show(c, 300).c_str());
    Base64InputStream s(&in);
    drive<char>(&s, d, r, o);
    CHECK("count", !in.misuse, "Base64InputStream: asks its input for less than one byte");
    if (d.size()) { str e = b64(d); std::unique_ptr<char[]> x(new char[e.size()]); memcpy(x.get(), e.data(), e.size());
    CHECK("data", Base64InputStream::decode(x.get(), e.size()) == d, "Base64InputStream::decode(%s) is wrong", show(e).c_str()); }
}
static void u8(str& o, uint32_t c) {
    if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
}
static uint32_t anychar(Rng& r, bool latin) {
    for (;;) { uint32_t c; switch (latin ? r.in(0, 1) : r.in(0, 4)) { case 0: c = r.in(0, 127); break; case 1: c = r.in(128, 255); break; case 2: c = r.in(0x100, 0x7ff); break; case 3: c = r.in(0x800, 0xffff); break; default: c = r.in(0x10000, 0x10ffff); }
        if (c >= 0xd800 && c <= 0xdfff) continue;
        if (c == 0xfeff || c == 0xfffe) continue;
        return c; }
}
static void enc(str& o, uint32_t c, int e) {
    switch (e) {
    case 0: u8(o, c); break;
    case 1: o += (char)c; break;                                    // ISO-8859-1
    case 2: case 3: {                                               // UTF-16BE, LE
        uint32_t u[2]; int n = 1; u[0] = c; if (c >= 0x10000) { n = 2; u[0] = 0xd800 + ((c - 0x10000) >> 10); u[1] = 0xdc00 + ((c - 0x10000) & 0x3ff); }
        for (int i = 0; i < n; ++i) if (e == 2) { o += (char)(u[i] >> 8); o += (char)u[i]; } else { o += (char)u[i]; o += (char)(u[i] >> 8); } break; }
    case 4: o += (char)(c >> 24); o += (char)(c >> 16); o += (char)(c >> 8); o += (char)c; break;   // UTF-32BE
    }
}
static const char* encname[] = { "UTF-8", "ISO-8859-1", "UTF-16BE", "UTF-16LE", "UTF-32BE" };
static void c_enc(Rng& r) {
    int a = (int)r.in(0, 4), b = (int)r.in(0, 4); bool reader = r.one(3);
    bool latin = a == 1 || (b == 1 && !reader); size_t n = r.one(20) ? r.in(200, 3000) : lenof(r, 300); str in8, out8; wstr w;
    for (size_t i = 0; i < n; ++i) { uint32_t c = anychar(r, latin); enc(in8, c, a); enc(out8, c, b); w += (wchar_t)c; }
    Opt o; o.what = reader ? "InputStreamReader" : "EncodingInputStream"; o.nops = (int)r.in(0, 40);
    int dmg = (int)r.in(0, 7);
    if (dmg == 0 && in8.size() && a != 1) {
        // ends inside a character
        size_t cut = in8.size() - 1; str last; enc(last, (uint32_t)w[w.size() - 1], a);
        if (last.size() > 1) { in8.resize(cut); w.resize(w.size() - 1); str l2; enc(l2, 0, 0); out8.clear(); for (size_t i = 0; i < w.size(); ++i) enc(out8, (uint32_t)w[i], b); o.mustFail = o.mayFail = true; }
    } else if (dmg == 1 && a == 0) {
        size_t k = r.in(0, w.size()); in8.clear(); out8.clear(); for (size_t i = 0; i < k; ++i) { enc(in8, (uint32_t)w[i], a); enc(out8, (uint32_t)w[i], b); } in8 += "\xff"; in8 += r.bytes(r.skew(30)); w.resize(k); o.mustFail = o.mayFail = true;
    }
    ChunkStream in(in8, r);
    if (dmg == 2) { in.errAt = r.in(0, in8.size()); o.mayFail = true; }
    tr("%s -> %s %s bytes=%s\n", encname[a], reader ? "wchar_t" : encname[b], in.conf().c_str(), show(in8, 200).c_str());
    if (reader) { InputStreamReader s(&in, encname[a]); drive<wchar_t>(&s, w, r, o);
        if (o.mustFail) { const wchar_t* p; while (s.read(p, 1, 0) > 0) {} CHECK("error", s.status() == Error, "%s: bad input ends with status %d", o.what, (int)s.status()); } }
    else { EncodingInputStream s(&in, encname[a], b == 0 && r.coin() ? 0 : encname[b]); drive<char>(&s, out8, r, o);
        if (o.mustFail) { const char* p; while (s.read(p, 1, 0) > 0) {} CHECK("error", s.status() == Error, "%s: bad input ends with status %d", o.what, (int)s.status()); } }
    CHECK("count", !in.misuse, "%s: asks its input for less than one byte", o.what);
}
// one conversion of the whole text, including what the converter keeps until the end
static bool oneshot(const str& in, const char* from, const char* to, str& out) {
    iconv_t c = iconv_open(to, from); if (c == (iconv_t)-1) return false;
    char* p = const_cast<char*>(in.data()); size_t left = in.size(); out.assign(in.size() * 24 + 256, 0); char* o = &out[0]; size_t room = out.size();
    bool ok = iconv(c, &p, &left, &o, &room) != (size_t)-1 && iconv(c, 0, 0, &o, &room) != (size_t)-1;
    iconv_close(c); out.resize(out.size() - room); return ok;
}
static const char* statecs[] = { "CP1258", "CP1255", "TCVN", "TSCII", "BIG5-HKSCS", "ISO-2022-JP", "ISO-2022-KR", "EUC-JISX0213", "SHIFT_JISX0213", "ISO-2022-JP-3", "UTF-7", "UTF-16", "UTF-32", "EUC-TW", "GB18030", "EUC-JP", "IBM933", "IBM1364" };
static void c_state(Rng& r) {
    const size_t N = sizeof statecs / sizeof *statecs; const char* a = statecs[r.in(0, N - 1)]; const char* b = r.one(3) ? (r.coin() ? "ISO-2022-JP" : "UTF-7") : r.coin() ? "UTF-8" : "UTF-16LE";
    bool reader = r.coin(); size_t n = r.one(6) ? r.in(100, 900) : lenof(r, 60); str u, t;
    static const uint32_t lo[] = { 0x20, 0xc0, 0x300, 0x5d0, 0x5b0, 0x3041, 0x3040, 0xb85, 0xbbe, 0xac00, 0x4e00, 0x1ea0, 0x61, 0xca, 0x304b, 0x309a };
    static const uint32_t hi[] = { 0x7e, 0xff, 0x323, 0x5ea, 0x5c2, 0x3094, 0x30ff, 0xbb9, 0xbcd, 0xac40, 0x4e40, 0x1ef9, 0x7a, 0xca, 0x304f, 0x309a };
    // characters the charset can express
    size_t tries = 0; int fav = (int)r.in(0, 15);
    while (u.size() / 4 < n && tries++ < 4 * n) {
        int k = r.one(3) ? fav : (int)r.in(0, 15); str c, d; enc(c, (uint32_t)r.in(lo[k], hi[k]), 4);
        if (oneshot(c, "UTF-32BE", a, d)) u += c;
    }
    str in8; if (!oneshot(u, "UTF-32BE", a, in8)) return;
    if (r.one(4)) { str one = in8; for (size_t i = 0; i < 40 && in8.size() < 3000; ++i) { str x; if (!oneshot(u + u, "UTF-32BE", a, x)) break; u += u; in8 = x; } }
    str w8, out8; if (!oneshot(in8, a, "WCHAR_T", w8)) return;
    if (!oneshot(in8, a, b, out8)) { b = "UTF-8"; if (!oneshot(in8, a, b, out8)) return; }
    wstr w((const wchar_t*)w8.data(), w8.size() / sizeof(wchar_t));
    Opt o; o.what = reader ? "InputStreamReader" : "EncodingInputStream"; o.nops = (int)r.in(0, 60);
    ChunkStream in(in8, r);
    if (r.one(8)) { in.errAt = r.in(0, in8.size()); o.mayFail = true; }
    tr("%s -> %s %s bytes=%s\n", a, reader ? "wchar_t" : b, in.conf().c_str(), show(in8, 200).c_str());
    if (reader) { InputStreamReader s(&in, a); drive<wchar_t>(&s, w, r, o); }
    else { EncodingInputStream s(&in, a, b); drive<char>(&s, out8, r, o); }
    CHECK("count", !in.misuse, "%s: asks its input for less than one byte", o.what);
}
static void c_noenc(Rng& r) {
    ChunkStream in("abc", r); EncodingInputStream s(&in, "no-such-charset"); InputStreamReader t(&in, "no-such-charset");
    CHECK("error", s.status() == Error && s.error()[0], "EncodingInputStream: an unknown charset is not reported");
    CHECK("error", t.status() == Error && t.error()[0], "InputStreamReader: an unknown charset is not reported");
    const char* p; CHECK("error", s.read(p, 1, 0) == -2, "read after an unknown charset");
    EncodingInputStream u(&in, 0); CHECK("error", u.status() == Error && u.error()[0] && u.read(p, 1, 0) == -2, "EncodingInputStream: no charset is not reported");
}
struct Kind { const char* name; void (*f)(Rng&); };
static Kind all[] = { {"string", c_string}, {"wstring", c_wstring}, {"buffered", c_buffered}, {"wbuffered", c_wbuffered}, {"default", c_default}, {"file", c_file}, {"nofile", c_nofile},
    {"sub", c_sub}, {"term", c_term}, {"event", c_event}, {"gz", c_gz}, {"bz", c_bz}, {"lzma", c_lzma}, {"b64", c_b64}, {"enc", c_enc}, {"state", c_state}, {"noenc", c_noenc} };
static std::vector<Kind>& kinds() {
    static std::vector<Kind> v;
    if (v.empty()) {
        str sel = getenv("NAT_KINDS") ? getenv("NAT_KINDS") : ""; sel = "," + sel + ",";
        for (size_t i = 0; i < sizeof all / sizeof *all; ++i) if (sel == ",," || sel.find(str(",") + all[i].name + ",") != str::npos) v.push_back(all[i]);
    }
    return v;
}
int64_t case_count(bool) { return 0; }
void run_case(uint64_t n, Rng& r) {
    std::vector<Kind>& k = kinds();
    Kind& x = k[r.in(0, k.size() - 1)];
    tr("== %s\n", x.name);
    x.f(r);
}
