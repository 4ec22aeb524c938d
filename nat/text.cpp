// C12 UTF-8, C13 text and number helpers, C14 search, C15 format checks
#include "nat.h"
#include <strigi/textutils.h>
#include <strigi/kmpsearcher.h>
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/lzmainputstream.h>
#include <strigi/zipinputstream.h>
#include <strigi/tarinputstream.h>
#include <strigi/arinputstream.h>
#include <strigi/cpioinputstream.h>
#include <strigi/rpminputstream.h>
#include <strigi/oleinputstream.h>
#include <strigi/sdfinputstream.h>
#include <strigi/mailinputstream.h>
#include "dostime.h"
#include <memory>
#include <time.h>
using namespace Strigi;
const char* harness_name = "text";
// exactly sized copy: a byte read outside of it is seen
struct Buf { char* p; size_t n; explicit Buf(const str& s) : p(new char[s.size()]), n(s.size()) { memcpy(p, s.data(), n); } ~Buf() { delete [] p; } };

// ---------------------------------------------------------------- UTF-8
// specification: decode one character (RFC 3629) that XML 1.0 allows.
// returns its length, 0: ill formed, -k: incomplete and k bytes missing
static int one_char(const unsigned char* s, size_t n, size_t& bad) {
    unsigned c = s[0];
    bad = 0;
    if (c < 0x80) return (c >= 0x20 || c == 9 || c == 10 || c == 13) ? 1 : 0;
    int len = c < 0xC2 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF5 ? 4 : 0;
    if (!len) return 0;
    uint32_t v = c & (0xFF >> (len + 1));
    for (int i = 1; i < len; ++i) {
        if ((size_t)i >= n) return -(len - i);
        bad = i;
        if ((s[i] & 0xC0) != 0x80) return 0;
        v = (v << 6) | (s[i] & 0x3F);
    }
    static const uint32_t mn[] = { 0, 0, 0x80, 0x800, 0x10000 };
    if (v < mn[len] || v > 0x10FFFF || (v >= 0xD800 && v <= 0xDFFF) || v == 0xFFFE || v == 0xFFFF) return 0;
    return len;
}
// can the incomplete character be completed to a good one?
static bool completable(const unsigned char* s, size_t n) {
    if (n < 2) return true;
    unsigned c = s[0], d = s[1];
    if (c == 0xE0 && d < 0xA0) return false;
    if (c == 0xED && d > 0x9F) return false;
    if (c == 0xF0 && d < 0x90) return false;
    if (c == 0xF4 && d > 0x8F) return false;
    return true;
}
static void utf8(const str& t) {
    Buf b(t);
    size_t i = 0, bad = 0; int r = 1;
    while (i < t.size() && (r = one_char((const unsigned char*)t.data() + i, t.size() - i, bad)) > 0) i += r;
    bool ok = i == t.size();
    CHECK("utf8", checkUtf8(b.p, (int32_t)b.n) == ok, "checkUtf8(%s) says %d", show(t).c_str(), !ok);
    CHECK("utf8", checkUtf8(t) == ok, "checkUtf8(string %s) says %d", show(t).c_str(), !ok);
    char nb = 77;
    const char* p = checkUtf8(b.p, (int32_t)b.n, nb);
    if (ok) CHECK("utf8", p == 0 && nb == 0, "checkUtf8(%s, nb) = %ld, nb %d for valid text", show(t).c_str(), p ? (long)(p - b.p) : -1L, nb);
    else if (r < 0) {
        // incomplete last character; when it is already ill formed either answer is right
        CHECK("utf8", (p == b.p + i && nb == -r) || (!completable((const unsigned char*)t.data() + i, t.size() - i) && p && nb == 0 && p >= b.p + i && p < b.p + t.size()), "checkUtf8(%s, nb): position %ld nb %d, expected the incomplete character at %zu that misses %d", show(t).c_str(), p ? (long)(p - b.p) : -1L, nb, i, -r);
    } else
        CHECK("utf8", p && nb == 0 && p >= b.p + i && p <= b.p + i + bad, "checkUtf8(%s, nb): position %ld nb %d, but the character at %zu is bad (byte %zu)", show(t).c_str(), p ? (long)(p - b.p) : -1L, nb, i, i + bad);
}
static const unsigned char crit[] = { 0x00, 0x09, 0x0A, 0x0D, 0x1F, 0x20, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBE, 0xBF, 0xC0, 0xC1, 0xC2, 0xC3, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF8, 0xFF };
static const int NC = sizeof crit;
static void utf8_ex(uint64_t k) {
    if (k < 256) { str s(1, (char)k); utf8(s); for (int j = 0; j < 256; ++j) { utf8(s + (char)j); } return; }
    k -= 256;      // NC*NC groups
    str s; s += (char)crit[k % NC]; s += (char)crit[k / NC];
    for (int a = 0; a < NC; ++a) { utf8(s + (char)crit[a]); for (int b = 0; b < NC; ++b) utf8(s + (char)crit[a] + (char)crit[b]); }
}
static str utf8_enc(uint32_t v, int extra) {
    str s; int len = (v < 0x80 ? 1 : v < 0x800 ? 2 : v < 0x10000 ? 3 : 4) + extra;
    if (len > 4) len = 4;
    if (len == 1) return str(1, (char)v);
    static const int lead[] = { 0, 0, 0xC0, 0xE0, 0xF0 };
    s += (char)(lead[len] | (v >> (6 * (len - 1))));
    for (int i = len - 2; i >= 0; --i) s += (char)(0x80 | ((v >> (6 * i)) & 0x3F));
    return s;
}
static void utf8_rnd(Rng& r) {
    for (int k = 0; k < 40; ++k) {
        str s; int n = (int)r.skew(20);
        for (int i = 0; i < n; ++i) {
            uint32_t v;
            static const uint32_t ed[] = { 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x13ffff };
            if (r.one(3)) v = ed[r.in(0, 14)]; else if (r.coin()) v = (uint32_t)r.in(0x20, 0x7e); else v = (uint32_t)r.in(0, 0x10ffff);
            s += utf8_enc(v, r.one(12));
        }
        if (s.size() && r.one(3)) s.resize(s.size() - r.in(1, std::min<size_t>(3, s.size())));
        if (s.size() && r.one(4)) s[r.in(0, s.size() - 1)] = (char)r.next();
        utf8(s);
    }
}
// ---------------------------------------------------------------- endian
template <class T> static T spec_le(const unsigned char* b) { uint64_t v = 0; for (size_t i = sizeof(T); i-- > 0;) v = (v << 8) | b[i]; return (T)v; }
template <class T> static T spec_be(const unsigned char* b) { uint64_t v = 0; for (size_t i = 0; i < sizeof(T); ++i) v = (v << 8) | b[i]; return (T)v; }
#define END1(f, T, spec) do { str t = s.substr(0, sizeof(T)); Buf b(t); T want = spec<T>((const unsigned char*)b.p); \
    T g1 = f((const char*)b.p), g2 = f((const unsigned char*)b.p); \
    CHECK("endian", g1 == want && g2 == want, #f "(%s) = %llx and %llx, expected %llx", show(t).c_str(), (unsigned long long)g1, (unsigned long long)g2, (unsigned long long)want); } while (0)
static void endian(const str& s) {
    END1(readLittleEndianInt16, int16_t, spec_le); END1(readLittleEndianUInt16, uint16_t, spec_le); END1(readLittleEndianInt32, int32_t, spec_le); END1(readLittleEndianUInt32, uint32_t, spec_le);
    END1(readLittleEndianInt64, int64_t, spec_le); END1(readLittleEndianUInt64, uint64_t, spec_le);
    END1(readBigEndianInt16, int16_t, spec_be); END1(readBigEndianUInt16, uint16_t, spec_be); END1(readBigEndianInt32, int32_t, spec_be); END1(readBigEndianUInt32, uint32_t, spec_be);
    END1(readBigEndianInt64, int64_t, spec_be); END1(readBigEndianUInt64, uint64_t, spec_be);
}
static void endian_rnd(Rng& r) { for (int k = 0; k < 200; ++k) { str s = r.bytes(8); for (int i = 0; i < 8; ++i) if (r.one(3)) s[i] = r.coin() ? 0 : (char)0xff; endian(s); } }
// ---------------------------------------------------------------- dates
static void dos(int y, int mo, int d, int h, int mi, int s2) {
    unsigned long t = ((unsigned long)(y - 1980) << 25) | (mo << 21) | (d << 16) | (h << 11) | (mi << 5) | s2;
    struct tm w; memset(&w, 0, sizeof w); w.tm_year = y - 1900; w.tm_mon = mo - 1; w.tm_mday = d; w.tm_hour = h; w.tm_min = mi; w.tm_sec = s2 * 2; w.tm_isdst = -1;
    time_t want = mktime(&w), got = dos2unixtime(t);
    CHECK("dos", got == want, "dos2unixtime of %d-%d-%d %d:%d:%d is %ld, expected %ld", y, mo, d, h, mi, s2 * 2, (long)got, (long)want);
}
static void dos_ex(uint64_t k) {      // one year per case: all days at some times; 1980 and 2044: all times of one day
    int y = 1980 + (int)k;
    for (int m = 1; m <= 12; ++m) for (int d = 1; d <= 28; ++d) { dos(y, m, d, 0, 0, 0); dos(y, m, d, 23, 59, 29); dos(y, m, d, (m * 7 + d) % 24, (d * 11) % 60, (m + d) % 30); }
    if (k % 32 == 4) for (int h = 0; h < 24; ++h) for (int m = 0; m < 60; ++m) for (int s = 0; s < 30; ++s) dos(y, 6, 15, h, m, s);
}
// ---------------------------------------------------------------- new lines
static void newline_rnd(Rng& r) {
    for (int k = 0; k < 30; ++k) {
        str s; int n = (int)r.skew(40); bool valid = !r.one(5);
        for (int i = 0; i < n; ++i) {
            if (r.one(3)) s += r.coin() ? "\r\n" : r.coin() ? "\n" : "\r";
            else if (r.one(3)) s += utf8_enc((uint32_t)(r.coin() ? r.in(0x80, 0x7ff) : r.coin() ? r.in(0x800, 0xd7ff) : r.in(0x10000, 0x10ffff)), 0);
            else if (!valid && r.one(4)) s += (char)r.in(1, 255);
            else s += (char)r.in(0x20, 0x7f);
        }
        if (s.find('\0') != str::npos) continue;
        valid = checkUtf8(s);
        Buf b(s + '\0');
        convertNewLines(b.p);
        str got(b.p, s.size());
        CHECK("newline", b.p[s.size()] == 0, "convertNewLines(%s) changes the length", show(s).c_str());
        if (valid) { str w = s; for (size_t i = 0; i < w.size(); ++i) if (w[i] == '\n' || w[i] == '\r') w[i] = ' '; CHECK("newline", got == w, "convertNewLines(%s) gives %s", show(s).c_str(), show(got).c_str()); }
        else for (size_t i = 0; i < s.size(); ++i) CHECK("newline", got[i] == s[i] || ((s[i] == '\n' || s[i] == '\r') && got[i] == ' '), "convertNewLines(%s) gives %s", show(s).c_str(), show(got).c_str());
    }
}
// ---------------------------------------------------------------- search
static void kmp(KmpSearcher& k, const str& q, const str& t) {
    Buf b(t);
    const char* p = k.search(b.p, (int32_t)b.n);
    size_t w = t.find(q);
    long got = p ? (long)(p - b.p) : -1, want = w == str::npos ? -1 : (long)w;
    CHECK("search", got == want, "search for %s in %s gives %ld, expected %ld", show(q, 200).c_str(), show(t, 400).c_str(), got, want);
    CHECK("search", k.query() == q && k.queryLength() == (int32_t)q.size(), "the searcher forgets its query %s", show(q).c_str());
}
static void nth(str& s, uint64_t k, int al, int n) { s.resize(n); for (int i = 0; i < n; ++i) { s[i] = 'a' + k % al; k /= al; } }
static int64_t ipow(int a, int b) { int64_t r = 1; while (b--) r *= a; return r; }
struct KEx { int al, m, n; };
static std::vector<KEx>& kex() {
    static std::vector<KEx> v;
    if (v.empty()) { for (int m = 1; m <= 6; ++m) for (int n = 0; n <= 11; ++n) { KEx e = { 2, m, n }; v.push_back(e); } for (int m = 1; m <= 4; ++m) for (int n = 0; n <= 7; ++n) { KEx e = { 3, m, n }; v.push_back(e); } }
    return v;
}
static void kmp_ex(uint64_t k) {
    KEx e = kex()[k]; str q, t; int64_t Q = ipow(e.al, e.m), T = ipow(e.al, e.n);
    for (int64_t i = 0; i < Q; ++i) { nth(q, i, e.al, e.m); KmpSearcher s(q); for (int64_t j = 0; j < T; ++j) { nth(t, j, e.al, e.n); kmp(s, q, t); } }
}
static str structured(Rng& r, int n, int al) {
    str s;
    while ((int)s.size() < n) {
        int c = (int)r.in(0, 3);
        if (c == 0 || s.size() < 3) s += r.bytes(r.in(1, 4), al);
        else if (c == 1) s += s.substr(r.in(0, s.size() - 1), r.in(1, 9));
        else if (c == 2) { str u = s.substr(s.size() - r.in(1, std::min<int64_t>(s.size(), 5))); s += u + u; }
        else s += s.substr(0, r.in(1, s.size()));
    }
    s.resize(n); return s;
}
static void kmp_rnd(Rng& r) {
    KmpSearcher re; bool reuse = r.coin();
    for (int k = 0; k < 60; ++k) {
        int al = r.one(6) ? 256 : (int)r.in(1, 4); int m = r.one(20) ? 0 : (int)r.in(1, r.one(4) ? 40 : 12);
        str q = al == 256 ? r.bytes(m) : structured(r, m, al), t;
        int parts = (int)r.in(0, 8);
        for (int i = 0; i < parts; ++i) {
            if (m && r.coin()) { int a = (int)r.in(0, m); t += q.substr(a, r.in(0, m - a)); }
            else if (m && r.one(6)) { str x = q; x[r.in(0, m - 1)] ^= 1; t += x; }
            else if (r.one(3)) t += q;
            else t += al == 256 ? r.bytes(r.in(0, 9)) : structured(r, (int)r.in(0, 9), al);
        }
        if (r.coin()) t = (al == 256 ? r.bytes(40) : structured(r, 60, al)) + t;
        if (reuse) { re.setQuery(q); kmp(re, q, t); }
        else { KmpSearcher s(q); kmp(s, q, t); }
    }
}
// ---------------------------------------------------------------- format checks
static uint64_t le(const str& s, size_t o, int n) { uint64_t v = 0; for (int i = n; i-- > 0;) v = (v << 8) | (unsigned char)s[o + i]; return v; }
static bool has(const str& s, size_t o, const str& m) { return s.size() >= o + m.size() && s.compare(o, m.size(), m) == 0; }
static bool sp_gz(const str& s) { return s.size() > 2 && has(s, 0, "\x1f\x8b"); }
static bool sp_bz(const str& s) { return s.size() >= 10 && has(s, 0, "BZ") && (s[2] == 'h' || s[2] == '0') && has(s, 4, "1AY&SY"); }
static bool sp_zip(const str& s) { return s.size() > 8 && has(s, 0, str("PK\3\4")); }
static bool sp_ar(const str& s) { return has(s, 0, "!<arch>\n"); }
static bool sp_cpio(const str& s) { return has(s, 0, "070701"); }
static bool sp_rpm(const str& s) { return has(s, 0, str("\xed\xab\xee\xdb\3\0", 6)); }
static bool sp_ole(const str& s) { return s.size() > 8 && has(s, 0, "\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1"); }
static bool sp_lzma(const str& s) {
    if (s.size() < 13 || s[0] != 0x5d || s[1] != 0) return false;
    uint32_t dic = (uint32_t)le(s, 1, 4); int64_t size = (int64_t)le(s, 5, 8);
    if (dic < (1 << 12)) dic = 1 << 12;
    return dic <= 0x2000000 && (size == -1 || ((int64_t)dic < size && size < 1099511627776LL));
}
static bool sp_tar(const str& s) {
    if (s.size() < 257) return false;
    size_t p = s.find('\0'); if (p > 100) p = 100;
    for (size_t i = p; i < 100; ++i) if (s[i]) return false;
    bool z = true; for (size_t i = 100; i < 256; ++i) z = z && !s[i];
    if (z) return false;
    return !(s[107] || s[115] || s[123] || (s[135] && s[135] != ' ') || (s[147] && s[147] != ' ') || s[256]);
}
static bool sp_sdf(const str& s) {       // V2000 in the fourth of lines of at most 80 bytes, each followed by something
    if (s.size() <= 10) return false;
    size_t b = 0, e = 0;
    for (int i = 0; i < 4; ++i) {
        b = e; size_t k = b;
        while (k < s.size() && k - b <= 80 && s[k] != '\n' && s[k] != '\r') ++k;
        if (k >= s.size() || k - b > 80) return false;
        e = k + 1; if (s[k] == '\r' && (e >= s.size() || s[e] == '\n')) ++e;
        if (e >= s.size()) return false;
    }
    return s.substr(b, e - b).find("V2000") != str::npos;
}
static bool sp_mail(const str& s) {      // RFC 822 headers of 7 bit characters, then a 7 bit body
    size_t i = 0, n = s.size(); bool first = true;
    for (;;) {
        if (i >= n) return true;
        if (!first && s[i] == '\r') { if (i + 1 < n && s[i + 1] != '\n') return false; for (i += 2; i < n; ++i) if ((unsigned char)s[i] > 127) return false; return true; }
        if (first || (s[i] != ' ' && s[i] != '\t')) {           // a field name
            while (i < n && s[i] != ':') { unsigned char c = s[i]; if (c <= 32 || c >= 127) return false; ++i; }
            ++i;
        }
        first = false;
        for (;;) {      // the value up to a line end
            if (i >= n) return true;
            if (s[i] == '\r' && (i + 1 >= n || s[i + 1] == '\n')) { i += 2; break; }
            if ((unsigned char)s[i] > 127) return false;
            ++i;
        }
    }
}
struct Sniff { const char* name; bool (*real)(const char*, int32_t); bool (*spec)(const str&); const char* sample; int n; };
static const Sniff sniffs[] = {
    { "gzip", GZipInputStream::checkHeader, sp_gz, "\x1f\x8b\x08\0\0\0\0\0\0\3xxxxxxxx", 18 }, { "bzip2", BZ2InputStream::checkHeader, sp_bz, "BZh91AY&SYxxxxx", 15 },
    { "lzma", LZMAInputStream::checkHeader, sp_lzma, "\x5d\0\0\x10\0\0\0\x20\0\0\0\0\0xxxxx", 18 }, { "zip", ZipInputStream::checkHeader, sp_zip, "PK\3\4\x14\0\0\0\0\0\0\0", 12 },
    { "tar", TarInputStream::checkHeader, sp_tar, 0, 0 }, { "ar", ArInputStream::checkHeader, sp_ar, "!<arch>\nfoo/            0  ", 27 },
    { "cpio", CpioInputStream::checkHeader, sp_cpio, "0707010000000000000000", 22 }, { "rpm", RpmInputStream::checkHeader, sp_rpm, "\xed\xab\xee\xdb\3\0\0\0xxxx", 12 },
    { "ole", OleInputStream::checkHeader, sp_ole, "\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1\0\0\0", 11 }, { "sdf", SdfInputStream::checkHeader, sp_sdf, 0, 0 }, { "mail", MailInputStream::checkHeader, sp_mail, 0, 0 },
};
static const int NS = sizeof sniffs / sizeof *sniffs;
static void sniff1(const Sniff& f, const str& s) {
    Buf b(s);
    bool got = f.real(b.p, (int32_t)b.n), want = f.spec(s);
    CHECK("sniff", got == want, "the %s check says %d for %zu bytes %s", f.name, got, s.size(), show(s, 300).c_str());
}
static str sniff_base(int k, Rng& r) {
    const Sniff& f = sniffs[k];
    if (f.sample) return str(f.sample, f.n) + (r.coin() ? r.bytes(r.skew(40)) : str());
    if (!strcmp(f.name, "tar")) {
        str s = "dir/file"; s.resize(512, 0);
        if (r.one(4)) s = r.bytes(100, 3) + str(412, 0);
        s.replace(100, 7, "0000644"); s.replace(108, 7, "0000000"); s.replace(116, 7, "0000000"); s.replace(124, 11, "00000000012"); s.replace(136, 11, "00000000000");
        if (r.coin()) s.replace(148, 8, "0011211 ");
        if (r.one(4)) s[135] = ' '; if (r.one(4)) s[147] = ' ';
        if (r.one(8)) { s = str(512, 0); if (r.coin()) s[r.in(0, 256)] = 1; }
        if (r.one(4)) s.resize(r.in(250, 512));
        return s;
    }
    if (!strcmp(f.name, "sdf")) {
        str s; int n = (int)r.in(2, 5); static const char* eol[] = { "\n", "\r\n", "\r" };
        for (int i = 0; i < n; ++i) { str l = r.bytes(r.one(3) ? r.in(78, 82) : r.skew(30), 26); if (r.one(i == 3 ? 2 : 6)) { l += "V2000"; if (r.coin()) l += r.bytes(r.skew(4), 26); if (r.one(5)) l = "V2000"; } s += l + eol[r.in(0, 2)]; }
        if (r.coin()) s += r.bytes(r.skew(10), 26);
        return s;
    }
    str s; int n = (int)r.in(0, 5);
    for (int i = 0; i < n; ++i) {
        if (i && r.one(3)) s += r.coin() ? " folded" : "\tfolded"; else s += r.bytes(r.in(1, 6), 26) + ":" + (r.coin() ? " value" : "");
        s += r.one(8) ? "\n" : r.one(10) ? "\r" : "\r\n";
    }
    if (r.coin()) s += "\r\n" + r.bytes(r.skew(20), 26);
    return s;
}
static void sniff_rnd(Rng& r) {
    for (int k = 0; k < 60; ++k) {
        int a = (int)r.in(0, NS - 1);
        str s = sniff_base(a, r);
        if (r.one(3) && s.size()) { int m = (int)r.in(1, 2); while (m--) s[r.in(0, (r.coin() ? std::min<size_t>(s.size(), 16) : s.size()) - 1)] = r.coin() ? (char)r.next() : (char)(r.coin() ? 0 : r.one(2) ? ' ' : 0x80); }
        if (r.one(4)) s.resize(r.in(0, s.size()));
        if (r.one(12)) s = r.bytes(r.skew(600), r.coin() ? 256 : 3);
        for (int b = 0; b < NS; ++b) sniff1(sniffs[b], s);
    }
}
static void sniff_ex(uint64_t k) {       // every prefix of every sample, every single byte changed to everything
    Rng r(k + 7); const Sniff& f = sniffs[k];
    str s = sniff_base((int)k, r); if (!strcmp(f.name, "mail")) s = "From: a\r\n b\r\nTo: b\r\n\r\nbody"; if (!strcmp(f.name, "sdf")) s = "a\r\nbb\n\nxx V2000 yy\nrest";
    for (size_t n = 0; n <= s.size(); ++n) sniff1(f, s.substr(0, n));
    for (size_t i = 0; i < s.size() && i < 260; ++i) for (int c = 0; c < 256; ++c) { str t = s; t[i] = (char)c; sniff1(f, t); if (c % 16 == 0 && s.size() < 60) sniff1(f, t.substr(0, i + 1)); }
}
struct Kind { const char* name; void (*rnd)(Rng&); void (*ex)(uint64_t); uint64_t nex; };
static std::vector<Kind>& kinds() {
    static std::vector<Kind> v;
    if (v.empty()) {
        Kind all[] = { { "utf8", utf8_rnd, utf8_ex, 256 + NC * NC }, { "endian", endian_rnd, 0, 0 }, { "dos", 0, dos_ex, 128 }, { "newline", newline_rnd, 0, 0 }, { "kmp", kmp_rnd, kmp_ex, kex().size() }, { "sniff", sniff_rnd, sniff_ex, NS } };
        str sel = getenv("NAT_KINDS") ? getenv("NAT_KINDS") : ""; sel = "," + sel + ",";
        for (auto& x : all) if (sel == ",," || sel.find(str(",") + x.name + ",") != str::npos) v.push_back(x);
    }
    return v;
}
int64_t case_count(bool) { int64_t n = 0; for (auto& k : kinds()) n += k.nex; return n; }
void run_case(uint64_t n, Rng& r) {
    uint64_t k = n;
    if (n < (uint64_t)case_count(false)) { for (auto& x : kinds()) { if (k < x.nex) { tr("== %s exhaustive group %llu\n", x.name, (unsigned long long)k); x.ex(k); return; } k -= x.nex; } }
    std::vector<Kind> v; for (auto& x : kinds()) if (x.rnd) v.push_back(x);
    if (v.empty()) return;
    Kind& x = v[r.in(0, v.size() - 1)];
    tr("== %s\n", x.name); x.rnd(r);
}
