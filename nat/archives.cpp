// C16-C21, C23: container formats against the members that went into them
#include "nat.h"
#include <strigi/stringstream.h>
#include <strigi/subinputstream.h>
#include <strigi/tarinputstream.h>
#include <strigi/cpioinputstream.h>
#include <strigi/arinputstream.h>
#include <strigi/zipinputstream.h>
#include <strigi/rpminputstream.h>
#include <strigi/oleinputstream.h>
#include <strigi/sdfinputstream.h>
#include <strigi/mailinputstream.h>
#include <strigi/gzipinputstream.h>
#include <strigi/substreamproviderprovider.h>
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
#include <memory>
#include <stdarg.h>
#include <time.h>
using namespace Strigi;
const char* harness_name = "archives";

struct Member { str name, data; int64_t mtime; int type; int64_t hstart, hend, dend; Member() : mtime(-1), type(-1), hstart(0), hend(0), dend(0) {} };
struct Archive { str bytes; std::vector<Member> m; size_t minimal; int64_t endh; str what; Archive() : minimal(0), endh(0) {} };

static str le16(unsigned v) { str s(2, 0); s[0] = v; s[1] = v >> 8; return s; }
static str le32(uint32_t v) { return le16(v & 0xffff) + le16(v >> 16); }
static str be32(uint32_t v) { str s(4, 0); for (int i = 0; i < 4; ++i) s[i] = v >> (24 - 8 * i); return s; }
static str fmt(const char* f, ...) { char b[4000]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); return str(b, n); }
static str padto(str s, size_t n, char c = 0) { if (s.size() < n) s.resize(n, c); return s; }
static str word(Rng& r, int n, const char* set = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-+.") { str s; int k = strlen(set); for (int i = 0; i < n; ++i) s += set[r.in(0, k - 1)]; return s; }
static str content(Rng& r, bool small = false) {
    int64_t n = r.one(5) ? 0 : r.one(6) ? 512 * r.in(1, small ? 2 : 5) : r.skew(small ? 200 : 3000);
    return r.coin() ? r.bytes(n) : r.bytes(n, 3);
}
static int nmembers(Rng& r) { return (int)r.skew(6); }

// ------------------------------------------------------------------ writers
static str tarhead(Rng& r, const str& name, int64_t size, int64_t mtime, char type, bool ustar) {
    str h(512, 0);
    auto put = [&](int o, const str& s) { h.replace(o, s.size(), s); };
    put(0, name.substr(0, 100));
    put(100, fmt("%07o", 0644)); put(108, fmt("%07o", 1000)); put(116, fmt("%07o", 100));
    bool sp = r.one(4);
    if (r.one(5)) { put(124, fmt("%11llo", (unsigned long long)size)); } else put(124, fmt("%011llo", (unsigned long long)size));
    h[135] = sp ? ' ' : 0;
    put(136, fmt("%011llo", (unsigned long long)mtime)); h[147] = sp ? ' ' : 0;
    h[156] = type;
    if (ustar) put(257, str("ustar\0" "00", 8)); else if (r.coin()) put(257, str("ustar  \0", 8));
    if (r.coin()) { put(265, "user"); put(297, "group"); }
    put(148, "        ");
    unsigned sum = 0; for (int i = 0; i < 512; ++i) sum += (unsigned char)h[i];
    put(148, fmt("%06o", sum)); h[154] = 0; h[155] = ' ';
    return h;
}
static int64_t sometime(Rng& r) { return r.one(4) ? r.in(0, 1) : r.in(1, 0x7fffffff) + (r.one(5) ? 0x80000000LL : 0); }
static Archive mktar(Rng& r) {
    Archive a; int n = nmembers(r); bool ustar = r.coin();
    for (int i = 0; i < n; ++i) {
        Member m; str raw; bool dir = r.one(6);
        int nl = r.one(4) ? (int)r.in(95, 105) : r.one(6) ? (int)r.in(100, 700) : (int)r.in(1, 30);
        m.name = word(r, nl, "abcdefghijklmnopqrstuvwxyz0123456789_-/ ");
        if (m.name[0] == '/') m.name[0] = 'r';
        if (m.name[nl - 1] == '/') m.name[nl - 1] = 'e';
        if (nl == 1 && m.name == ".") m.name = "x";
        raw = m.name;
        if (dir) { raw += '/'; m.type = EntryInfo::Dir; } else { m.data = content(r); m.type = EntryInfo::File; }
        m.mtime = sometime(r);
        m.hstart = a.bytes.size();
        if (raw.size() > 100) {
            str ln = raw + str(1, 0);
            a.bytes += tarhead(r, "././@LongLink", ln.size(), 0, 'L', false);
            a.bytes += padto(ln, (ln.size() + 511) / 512 * 512);
        } else if (r.one(5) && raw.size() < 98) raw = "./" + raw;
        if (r.one(8)) a.bytes += tarhead(r, "./", 0, 0, '5', ustar);
        if (raw.size() > 100 && a.bytes.size() >= 512 && memcmp(&a.bytes[a.bytes.size() - 512], "./\0", 3) == 0) a.bytes.resize(a.bytes.size() - 512);
        a.bytes += tarhead(r, raw, m.data.size(), m.mtime, dir ? '5' : r.one(4) ? 0 : '0', ustar);
        m.hend = a.bytes.size();
        a.bytes += m.data; m.dend = a.bytes.size();
        a.bytes.resize((a.bytes.size() + 511) / 512 * 512);
        a.m.push_back(m);
    }
    a.endh = a.bytes.size();
    a.minimal = a.bytes.size() + 1024;
    a.bytes += str(512 * (r.one(3) ? r.in(2, 20) : 2), 0);
    a.what = "tar"; return a;
}
static Archive mkcpio(Rng& r, bool small = false) {
    Archive a; int n = nmembers(r);
    for (int i = 0; i <= n; ++i) {
        Member m; str raw;
        if (i < n) { m.name = word(r, (int)r.in(1, r.one(4) ? 200 : 20), "abcdefghijklmnopqrstuvwxyz0123456789_-/ "); m.data = content(r, small); m.mtime = r.one(4) ? 0 : r.in(1, 0xffffffffLL); }
        else { m.name = "TRAILER!!!"; m.mtime = 0; }
        raw = m.name; if (i < n && r.one(3)) raw = "./" + raw;
        m.hstart = a.bytes.size();
        const char* f = r.coin() ? "%08x" : "%08X";
        a.bytes += "070701" + fmt(f, i + 1) + fmt(f, 0100644) + fmt(f, 0) + fmt(f, 0) + fmt(f, 1) + fmt(f, (unsigned)m.mtime) + fmt(f, (unsigned)m.data.size()) + fmt(f, 8) + fmt(f, 1) + fmt(f, 0) + fmt(f, 0) + fmt(f, (unsigned)raw.size() + 1) + fmt(f, 0);
        a.bytes += raw + str(1, 0); a.bytes.resize((a.bytes.size() + 3) / 4 * 4);
        m.hend = a.bytes.size();
        a.bytes += m.data; m.dend = a.bytes.size(); a.bytes.resize((a.bytes.size() + 3) / 4 * 4);
        if (i < n) a.m.push_back(m); else { a.endh = m.hstart; a.minimal = m.hend; }
    }
    if (r.coin()) a.bytes.resize((a.bytes.size() + 511) / 512 * 512);
    a.what = "cpio"; return a;
}
static str arhead(const str& name, int64_t mtime, int64_t size, bool special) {
    str h = padto(name, 16, ' ');
    h += padto(special ? str() : fmt("%lld", (long long)mtime), 12, ' ') + padto(special ? "" : "0", 6, ' ') + padto(special ? "" : "0", 6, ' ') + padto(special ? "" : "100644", 8, ' ');
    h += padto(fmt("%lld", (long long)size), 10, ' ') + "`\n";
    return h;
}
static Archive mkar(Rng& r) {
    Archive a; int n = nmembers(r); str table; a.bytes = "!<arch>\n";
    std::vector<Member> ms; std::vector<str> raws;
    for (int i = 0; i < n; ++i) {
        Member m; bool lng = r.one(3);
        m.name = word(r, (int)(lng ? r.in(16, 120) : r.in(1, 15)));
        m.data = content(r); m.mtime = sometime(r); m.type = EntryInfo::File;
        if (lng) { raws.push_back(fmt("/%zu", table.size())); table += m.name + "/\n"; }
        else raws.push_back(m.name.size() < 16 && r.one(4) ? m.name : m.name + "/");
        ms.push_back(m);
    }
    auto even = [&]() { if (a.bytes.size() % 2) a.bytes += '\n'; };
    if (r.coin()) { str sym = r.bytes(r.in(0, 40)); a.bytes += arhead("/", 0, sym.size(), true) + sym; even(); }
    if (table.size() || r.one(5)) { a.bytes += arhead("//", 0, table.size(), true) + table; even(); }
    for (int i = 0; i < n; ++i) {
        ms[i].hstart = a.bytes.size(); a.bytes += arhead(raws[i], ms[i].mtime, ms[i].data.size(), false);
        ms[i].hend = a.bytes.size(); a.bytes += ms[i].data; ms[i].dend = a.bytes.size();
        if (i + 1 < n || r.coin()) even();
    }
    a.m = ms; a.endh = a.bytes.size(); a.minimal = n ? ms[n - 1].dend : a.bytes.size(); a.what = "ar"; return a;
}
static str deflated(Rng& r, const str& d) {
    z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, (int)r.in(0, 9), Z_DEFLATED, -15, 8, Z_DEFAULT_STRATEGY);
    str o(d.size() * 2 + 200, 0); z.next_in = (Bytef*)d.data(); z.avail_in = d.size(); z.next_out = (Bytef*)&o[0]; z.avail_out = o.size();
    deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); return o;
}
static Archive mkzip(Rng& r) {
    Archive a; int n = nmembers(r); str cd; if (n == 0) n = 1;
    for (int i = 0; i < n; ++i) {
        Member m; bool dir = r.one(6);
        m.name = word(r, (int)r.in(1, r.one(5) ? 300 : 20), "abcdefghijklmnopqrstuvwxyz0123456789_-/ "); if (m.name[m.name.size() - 1] == '/') m.name[m.name.size() - 1] = 'e';
        str raw = m.name; if (dir) { raw += "/"; m.type = EntryInfo::Dir; } else { m.data = content(r); m.type = EntryInfo::File; }
        int y = (int)r.in(1980, 2037), mo = (int)r.in(1, 12), da = (int)r.in(1, 28), ho = (int)r.in(0, 23), mi = (int)r.in(0, 59), se = (int)r.in(0, 29);
        uint32_t dos = (uint32_t)(y - 1980) << 25 | mo << 21 | da << 16 | ho << 11 | mi << 5 | se;
        struct tm t; memset(&t, 0, sizeof t); t.tm_year = y - 1900; t.tm_mon = mo - 1; t.tm_mday = da; t.tm_hour = ho; t.tm_min = mi; t.tm_sec = se * 2; m.mtime = timegm(&t);
        bool defl = !dir && r.one(3) == 0, desc = defl && r.one(3), sig = r.coin();
        str c = defl ? deflated(r, m.data) : m.data;
        uint32_t crc = crc32(0, (const Bytef*)m.data.data(), m.data.size());
        str ex = r.one(3) ? r.bytes(r.in(1, 40)) : str();
        m.hstart = a.bytes.size();
        bool legacy = !desc && defl && r.one(6);         // a descriptor although the sizes are known
        str common = le16(20) + le16(desc ? 8 : 0) + le16(defl ? 8 : 0) + le32(dos);
        a.bytes += str("PK\3\4", 4) + common + (desc ? str(12, 0) : le32(crc) + le32(c.size()) + le32(m.data.size())) + le16(raw.size()) + le16(ex.size()) + raw + ex;
        m.hend = a.bytes.size();
        a.bytes += c; m.dend = a.bytes.size();
        if (desc) a.bytes += (sig ? str("PK\7\10", 4) : str()) + le32(crc) + le32(c.size()) + le32(m.data.size());
        if (legacy) a.bytes += str("PK\7\10", 4) + le32(crc) + le32(c.size()) + le32(m.data.size());
        cd += str("PK\1\2", 4) + le16(20) + common + le32(crc) + le32(c.size()) + le32(m.data.size()) + le16(raw.size()) + le16(0) + le16(0) + le16(0) + le16(0) + le32(0) + le32(m.hstart) + raw;
        a.m.push_back(m);
        if (desc) a.m.back().type |= 0x100;               // size is not known beforehand
    }
    a.endh = a.bytes.size(); uint32_t at = a.bytes.size();
    a.bytes += cd + str("PK\5\6", 4) + le16(0) + le16(0) + le16(n) + le16(n) + le32(cd.size()) + le32(at) + le16(0);
    a.minimal = a.bytes.size(); a.what = "zip"; return a;
}
static str gz(Rng& r, const str& d) {
    z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, (int)r.in(0, 9), Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY);
    str o(d.size() * 2 + 200, 0); z.next_in = (Bytef*)d.data(); z.avail_in = d.size(); z.next_out = (Bytef*)&o[0]; z.avail_out = o.size();
    deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); return o;
}
static str bz(const str& d) { str o(d.size() * 2 + 700, 0); unsigned n = o.size(); BZ2_bzBuffToBuffCompress(&o[0], &n, (char*)d.data(), d.size(), 1, 0, 0); o.resize(n); return o; }
static str lz(const str& d) {
    lzma_options_lzma op; lzma_lzma_preset(&op, 0); lzma_stream s = LZMA_STREAM_INIT; lzma_alone_encoder(&s, &op);
    str o(d.size() * 2 + 700, 0); s.next_in = (const uint8_t*)d.data(); s.avail_in = d.size(); s.next_out = (uint8_t*)&o[0]; s.avail_out = o.size();
    lzma_code(&s, LZMA_FINISH); o.resize(s.total_out); lzma_end(&s); return o;
}
static str rpmsection(Rng& r, bool pad) {
    int n = (int)r.in(0, 4); str store = r.bytes(r.in(n ? 1 : 0, 50)), idx;
    for (int i = 0; i < n; ++i) idx += be32(r.in(1000, 1100)) + be32(r.in(1, 9)) + be32(r.in(0, (int64_t)store.size() - 1)) + be32(1);
    str s = str("\x8e\xad\xe8\x01\0\0\0\0", 8) + be32(n) + be32(store.size()) + idx + store;
    if (pad) { size_t k = (n * 16 + store.size()) % 8; if (k) s += str(8 - k, 0); }
    return s;
}
static Archive mkrpm(Rng& r) {
    Archive a = mkcpio(r, true);
    int kind = (int)r.in(0, 2);
    str c = kind == 0 ? gz(r, a.bytes) : kind == 1 ? bz(a.bytes) : lz(a.bytes);
    a.bytes = padto(str("\xed\xab\xee\xdb\x03\x00", 6), 96) + rpmsection(r, true) + rpmsection(r, false) + c;
    a.minimal = a.bytes.size(); a.what = "rpm"; return a;
}
static Archive mkole(Rng& r) {
    Archive a; int n = nmembers(r);
    const uint32_t FREE = 0xffffffff, END = 0xfffffffe, FATS = 0xfffffffd;
    std::vector<str> sec; std::vector<uint32_t> fat;
    // sector numbers are handed out in a random order
    std::vector<uint32_t> order; 
    std::vector<Member> all;
    str mini; std::vector<uint32_t> minifat;
    struct D { str name; uint32_t start, size; int type; }; std::vector<D> dir;
    std::vector<str> bigs(n);
    size_t nbig = 0, nmini = 0;
    for (int i = 0; i < n; ++i) {
        Member m; m.name = word(r, (int)r.in(1, 31));
        int64_t sz = r.one(6) ? 0 : r.one(3) ? r.in(4090, 6000) : r.one(4) ? 64 * r.in(1, 10) : r.skew(600);
        m.data = r.bytes(sz); all.push_back(m);
        if (sz >= 4096) nbig += (sz + 511) / 512; else nmini += (sz + 63) / 64;
    }
    size_t junk = r.one(3) ? r.in(1, 200) : r.in(0, 3);
    size_t ndir = (n + 1 + 3) / 4, nmf = (nmini + 127) / 128, nms = (nmini * 64 + 511) / 512;
    size_t body = nbig + ndir + nmf + nms + junk, nfat = 1; while ((body + nfat + 127) / 128 > nfat) ++nfat;
    size_t total = body + nfat;
    for (size_t i = 0; i < total; ++i) order.push_back(i);
    if (r.coin()) for (size_t i = total - 1; i > 0; --i) std::swap(order[i], order[r.in(0, i)]);
    sec.assign(total, str(512, 0)); fat.assign(nfat * 128, FREE);
    size_t next = 0;
    auto chain = [&](const str& d, uint32_t mark) -> std::vector<uint32_t> {
        std::vector<uint32_t> v; size_t k = (d.size() + 511) / 512;
        for (size_t i = 0; i < k; ++i) { uint32_t s = order[next++]; v.push_back(s); sec[s] = padto(d.substr(i * 512, 512), 512, (char)0x77); }
        for (size_t i = 0; i < k; ++i) fat[v[i]] = mark ? mark : i + 1 < k ? v[i + 1] : END;
        return v;
    };
    // small blocks in a random order as well
    std::vector<uint32_t> mo; for (size_t i = 0; i < nmini; ++i) mo.push_back(i);
    if (nmini && r.coin()) for (size_t i = nmini - 1; i > 0; --i) std::swap(mo[i], mo[r.in(0, i)]);
    mini.assign(nmini * 64, 0x33); minifat.assign(nmf * 128, FREE); size_t mnext = 0;
    dir.push_back(D{"Root Entry", END, 0, 5});
    for (int i = 0; i < n; ++i) {
        const str& d = all[i].data; uint32_t start = END;
        if (d.size() >= 4096) start = chain(d, 0)[0];
        else if (d.size()) {
            size_t k = (d.size() + 63) / 64, f = mnext;
            for (size_t j = 0; j < k; ++j) { str b = padto(d.substr(j * 64, 64), 64, 0x44); mini.replace(mo[f + j] * 64, 64, b); minifat[mo[f + j]] = j + 1 < k ? mo[f + j + 1] : END; }
            mnext += k; start = mo[f];
        }
        if (d.size()) a.m.push_back(all[i]);
        dir.push_back(D{all[i].name, start, (uint32_t)d.size(), 2});
    }
    if (nmini) { dir[0].start = chain(mini, 0)[0]; dir[0].size = mini.size(); }
    str mf; for (uint32_t v : minifat) mf += le32(v);
    uint32_t mfs = nmf ? chain(mf, 0)[0] : END;
    str ds;
    for (size_t i = 0; i < ndir * 4; ++i) {
        str e(128, 0);
        if (i < dir.size()) {
            for (size_t j = 0; j < dir[i].name.size(); ++j) e[2 * j] = dir[i].name[j];
            e[0x40] = 2 * (dir[i].name.size() + 1); e[0x42] = dir[i].type; e[0x43] = 1;
            e.replace(0x44, 12, str(12, (char)0xff)); e.replace(0x74, 4, le32(dir[i].start)); e.replace(0x78, 4, le32(dir[i].size));
        }
        ds += e;
    }
    uint32_t dirs = chain(ds, 0)[0];
    next += junk;
    std::vector<uint32_t> fs; for (size_t i = 0; i < nfat; ++i) { fs.push_back(order[next++]); fat[fs[i]] = FATS; }
    for (size_t i = 0; i < nfat; ++i) { str b; for (int j = 0; j < 128; ++j) b += le32(fat[i * 128 + j]); sec[fs[i]] = b; }
    str h(512, 0);
    h.replace(0, 8, "\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1"); h.replace(0x18, 10, le16(0x3e) + le16(3) + le16(0xfffe) + le16(9) + le16(6));
    h.replace(0x2c, 4, le32(nfat)); h.replace(0x30, 4, le32(dirs)); h.replace(0x38, 4, le32(4096)); h.replace(0x3c, 4, le32(mfs)); h.replace(0x40, 4, le32(nmf)); h.replace(0x44, 4, le32(END));
    for (int i = 0; i < 109; ++i) h.replace(0x4c + 4 * i, 4, le32(i < (int)nfat ? fs[i] : FREE));
    a.bytes = h; for (auto& s : sec) a.bytes += s;
    for (auto& m : a.m) m.mtime = -1;
    a.minimal = a.bytes.size(); a.what = "ole"; return a;
}
static Archive mksdf(Rng& r) {
    Archive a; int n = 1 + nmembers(r); const char* nl = r.coin() ? "\n" : "\r\n";
    for (int i = 0; i < n; ++i) {
        Member m; m.name = fmt("Molecule%d", i + 1);
        str d = word(r, (int)r.in(1, 70), "abcXYZ019 $") ; if (r.one(3)) d = "$$$" + d;
        size_t q; while ((q = d.find("$$$$")) != str::npos) d.erase(q, 1);
        d += str(nl) + word(r, (int)r.in(0, 70)) + nl + word(r, (int)r.in(0, 70)) + nl + "  1  0  0  0  0  0            999 V2000" + nl;
        int k = (int)r.skew(r.one(4) ? 200 : 20); for (int j = 0; j < k; ++j) d += word(r, (int)r.in(0, 60), "0123456789 .C") + nl;
        d += str("M  END") + nl;
        if (r.one(3)) d += str("> <x>") + nl + "$$$" + nl + nl;
        m.data = d; a.bytes += d + "$$$$" + nl; if (r.one(5)) a.bytes += nl;
        m.type = EntryInfo::File; a.m.push_back(m);
    }
    a.minimal = a.bytes.size(); a.what = "sdf"; return a;
}
static str b64(Rng& r, const str& d, const char* nl) {
    static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; str o; int col = 0, w = (int)r.in(1, 19) * 4;
    for (size_t i = 0; i < d.size(); i += 3) {
        unsigned v = (unsigned char)d[i] << 16 | (i + 1 < d.size() ? (unsigned char)d[i + 1] << 8 : 0) | (i + 2 < d.size() ? (unsigned char)d[i + 2] : 0);
        o += A[v >> 18]; o += A[v >> 12 & 63]; o += i + 1 < d.size() ? A[v >> 6 & 63] : '='; o += i + 2 < d.size() ? A[v & 63] : '=';
        if ((col += 4) >= w) { o += nl; col = 0; }
    }
    return o;
}
static Archive mkmail(Rng& r) {
    Archive a; const char* nl = r.coin() ? "\r\n" : "\n"; bool multi = !r.one(5);
    bool quoted = r.coin();
    str b = word(r, (int)r.in(1, 60), quoted ? "abcdefghijklmnopqrstuvwxyzABC0123456789_=" : "abcdefghijklmnopqrstuvwxyzABC0123456789_");
    str& t = a.bytes;
    t = str("From: a@b.org") + nl + "To: c@d.org" + nl + "Subject: " + word(r, (int)r.in(1, 30)) + nl;
    if (r.coin()) t += str("X-Folded: one") + nl + "  two" + nl;
    if (!multi) {
        t += str("Content-Type: text/plain") + nl + nl; a.endh = t.size();
        Member m; m.name = "body"; for (int i = (int)r.in(1, 8); i > 0; --i) m.data += word(r, (int)r.in(1, 50)) + nl;
        t += m.data; a.m.push_back(m); a.what = "mail body"; a.minimal = t.size(); return a;
    }
    t += str("Content-Type: multipart/mixed;") + (r.coin() ? str(nl) + "\t" : str(" ")) + "boundary=" + (quoted ? "\"" + b + "\"" : b) + nl + nl;
    if (r.coin()) t += word(r, 30, "abc de") + nl;
    int n = nmembers(r);
    for (int i = 0; i < n; ++i) {
        Member m; int kind = (int)r.in(0, 3); bool base = r.coin();
        t += "--" + b + nl;
        m.name = fmt("%d", i + 1);
        if (kind == 1) { m.name = word(r, (int)r.in(3, 12), "abcdef.1"); t += "Content-Type: text/plain; name=\"" + m.name + "\"" + nl; }
        else t += str("Content-Type: text/plain") + nl;
        if (kind == 2) { m.name = word(r, (int)r.in(3, 12), "abcdef.1"); t += "Content-Disposition: attachment; filename=\"" + m.name + "\"" + nl; }
        t += str("Content-Transfer-Encoding: ") + (base ? "base64" : "7bit") + nl + nl;
        if (base) { m.data = r.bytes(r.skew(400)); str e = b64(r, m.data, nl); t += e + nl; }
        else {
            for (int k = (int)r.in(0, 10); k > 0; --k) { str l = word(r, (int)r.in(0, 70), "abcdefghij --=") + nl; m.data += l; }
            m.data += nl; size_t q; while ((q = m.data.find("--" + b)) != str::npos) m.data.erase(q, 1);
            t += m.data;
        }
        a.m.push_back(m);
    }
    t += "--" + b + "--" + nl;
    if (r.coin()) t += str("epilogue") + nl;
    a.minimal = t.size(); a.what = "mail"; return a;
}

// ------------------------------------------------------------------ walking
static SubStreamProvider* open(const str& k, InputStream* in) {
    if (k == "tar") return new TarInputStream(in);
    if (k == "cpio") return new CpioInputStream(in);
    if (k == "ar") return new ArInputStream(in);
    if (k == "zip") return new ZipInputStream(in);
    if (k == "rpm") return new RpmInputStream(in);
    if (k == "ole") return new OleInputStream(in);
    if (k == "sdf") return new SdfInputStream(in);
    return new MailInputStream(in);
}
static Archive make(const str& k, Rng& r) {
    if (k == "tar") return mktar(r);
    if (k == "cpio") return mkcpio(r);
    if (k == "ar") return mkar(r);
    if (k == "zip") return mkzip(r);
    if (k == "rpm") return mkrpm(r);
    if (k == "ole") return mkole(r);
    if (k == "sdf") return mksdf(r);
    return mkmail(r);
}
// what is read of an entry; returns false when the entry reported an error
static bool use(InputStream* e, const Member& m, Rng& r, const str& what, bool mayFail, bool cut) {
    int how = (int)r.in(0, 5);
    str w = what + " entry " + show(m.name, 40); 
    if (how == 0) { tr("entry not read\n"); return true; }
    if (how <= 2 && !cut) {
        Opt o; o.what = w.c_str(); o.nops = how == 1 ? 0 : (int)r.in(0, 12); o.full = r.coin(); o.mayFail = mayFail; o.resets = r.coin();
        if (what == "mail") { o.resets = r.one(3); o.mayFail |= o.resets; o.revive = true; }   // going back may be more than the input can do
        drive<char>(e, m.data, r, o);
        return e->status() != Error;
    }
    str got; bool skips = how == 3 && !cut;
    int64_t limit = r.one(3) || cut ? 1LL << 40 : r.skew(m.data.size() + 2);
    int64_t pos = e->position();
    while (e->status() == Ok && pos < limit) {
        if (skips && r.one(4)) { int64_t k = e->skip(r.skew(m.data.size() / 2 + 2)); tr("skip=%lld\n", (long long)k); if (k > 0) pos += k; continue; }
        const char* p; int32_t mn = (int32_t)(1 + r.skew(100)), n = e->read(p, mn, r.coin() ? 0 : mn);
        tr("read=%d\n", n);
        if (n > 0) {
            CHECK("data", pos + n <= (int64_t)m.data.size(), "%s delivers %lld bytes, it has %zu", w.c_str(), (long long)(pos + n), m.data.size());
            CHECK("data", memcmp(p, m.data.data() + pos, n) == 0, "%s: wrong data in [%lld,+%d)", w.c_str(), (long long)pos, n);
            pos += n;
        }
    }
    if (e->status() == Error) { CHECK("data", mayFail || cut, "%s: error '%s' without a cause", w.c_str(), e->error()); return false; }
    if (e->status() == Eof) CHECK("data", pos == (int64_t)m.data.size(), "%s ends at %lld, it has %zu bytes", w.c_str(), (long long)pos, m.data.size());
    return true;
}
static void finish(SubStreamProvider* p, const str& w, Rng& r, int want) {
    int st = p->status();
    CHECK("proto", st == Eof || st == Error, "%s: no entry but status %d", w.c_str(), st);
    if (want == Eof) CHECK("members", st == Eof, "%s: iteration ends with the error '%s'", w.c_str(), p->error());
    if (want == Error) CHECK("trunc", st == Error, "%s: a cut archive ends cleanly", w.c_str());
    for (int i = (int)r.in(0, 3); i > 0; --i) {
        CHECK("proto", p->nextEntry() == 0, "%s: an entry after the end", w.c_str());
        CHECK("proto", p->status() == st, "%s: status changes from %d to %d after the end", w.c_str(), st, (int)p->status());
    }
}
static void walk(const str& kind, SubStreamProvider* p, const Archive& a, Rng& r, bool mayFail, int64_t cut, InputStream* in) {
    const str w = kind; bool damaged = false;
    int stop = r.one(5) ? (int)r.in(0, a.m.size()) : -1;
    for (size_t i = 0; i < a.m.size(); ++i) {
        if ((int)i == stop) { tr("stopped early\n"); return; }
        const Member& m = a.m[i];
        InputStream* e = p->nextEntry();
        tr("nextEntry %zu: %s %s\n", i, e ? "entry" : "none", e ? show(p->entryInfo().filename, 40).c_str() : "");
        if (cut >= 0 && (kind == "rpm" || kind == "ole" || kind == "mail" || kind == "sdf" || m.hend > cut)) {
            if (!e) { finish(p, w, r, (kind == "tar" || ((kind == "cpio" || kind == "ar" || kind == "zip") && cut > m.hstart + (kind == "ar" ? 1 : 0))) && !damaged ? Error : -1); return; }
            if (m.hend > cut && kind != "rpm" && kind != "ole" && kind != "sdf" && kind != "mail") fail("trunc", "%s: an entry %s without a complete header", w.c_str(), show(p->entryInfo().filename).c_str());
        }
        if (!e) {
            if ((mayFail && in->status() == Error) || damaged) { if (!damaged || kind == "tar") CHECK("proto", p->status() == Error, "%s: the input failed but the iteration ends cleanly after %zu of %zu members", w.c_str(), i, a.m.size()); finish(p, w, r, -1); return; }
            fail("members", "%s: no entry %zu of %zu (%s), status %d '%s'", w.c_str(), i, a.m.size(), show(m.name).c_str(), (int)p->status(), p->error());
        }
        CHECK("proto", p->currentEntry() == e, "%s: current entry is not the one returned", w.c_str());
        CHECK("proto", p->status() == Ok || kind == "mail", "%s: an entry together with status %d", w.c_str(), (int)p->status());
        const EntryInfo& info = p->entryInfo();
        CHECK("name", info.filename == m.name, "%s: entry %zu is called %s, not %s", w.c_str(), i, show(info.filename, 200).c_str(), show(m.name, 200).c_str());
        bool unknown = m.type >= 0 && (m.type & 0x100);
        if (kind != "mail") CHECK("size", info.size == (unknown ? -1 : (int64_t)m.data.size()), "%s: size of %s is %lld, not %zu", w.c_str(), show(m.name).c_str(), (long long)info.size, m.data.size());
        if (m.mtime >= 0 && kind != "rpm") CHECK("mtime", info.mtime == m.mtime, "%s: time of %s is %lld, not %lld", w.c_str(), show(m.name).c_str(), (long long)info.mtime, (long long)m.mtime);
        if (m.type >= 0) CHECK("name", info.type == (m.type & 0xff), "%s: type of %s is %d, not %d", w.c_str(), show(m.name).c_str(), (int)info.type, m.type & 0xff);
        CHECK("data", e->position() == 0 && (e->status() != Error || mayFail || cut >= 0), "%s: entry %s starts at %lld with status %d", w.c_str(), show(m.name).c_str(), (long long)e->position(), (int)e->status());
        if (!use(e, m, r, w, mayFail, cut >= 0)) damaged = true;
        if (cut >= 0 && cut < m.dend) damaged = true;
    }
    InputStream* e = p->nextEntry();
    tr("nextEntry at the end: %s\n", e ? "entry" : "none");
    if (e) fail("members", "%s: one entry %s too many", w.c_str(), show(p->entryInfo().filename).c_str());
    if (damaged) finish(p, w, r, kind == "tar" ? Error : -1);
    else if (cut >= 0) finish(p, w, r, kind == "tar" ? Error : (kind == "cpio" && cut > a.endh && cut < (int64_t)a.minimal) ? Error : -1);
    else if (mayFail) finish(p, w, r, -1);
    else finish(p, w, r, Eof);
}
struct Input {
    Rng& r; std::unique_ptr<InputStream> s; std::unique_ptr<char[]> mem; std::unique_ptr<InputStream> under; ChunkStream* c;
    Input(const str& d, Rng& r_, bool simple = false) : r(r_), c(0) {
        int k = (int)r.in(0, 5);
        if (k == 0 && !simple) { mem.reset(new char[d.size() ? d.size() : 1]); memcpy(mem.get(), d.data(), d.size()); s.reset(new StringInputStream(mem.get(), d.size(), false)); tr("input: memory, %zu bytes\n", d.size()); }
        else if (k == 1 && !simple) { str z = gz(r, d); under.reset(new StringInputStream(z.data(), z.size(), true)); s.reset(new GZipInputStream(under.get())); tr("input: gzip, %zu bytes\n", d.size()); }
        else if (k == 2 && !simple) { Filler<char>* f = new Filler<char>(d, r); s.reset(f); tr("input: buffered, %zu bytes\n", d.size()); }
        else { c = new ChunkStream(d, r); c->resets = (int)r.in(0, 2); s.reset(c); tr("%s\n", c->conf().c_str()); }
    }
};
static void valid(const str& kind, Rng& r) {
    Archive a = make(kind, r);
    tr("%s, %zu bytes, members:", a.what.c_str(), a.bytes.size()); for (auto& m : a.m) tr(" %s(%zu)", show(m.name, 30).c_str(), m.data.size()); tr("\n");
    if (kind == "mail") tr("%s\n", show(a.bytes, 4000).c_str());
    Input in(a.bytes, r, kind == "ole" && false);
    bool fails = in.c && r.one(6);
    if (fails) { in.c->errAt = r.in(0, a.bytes.size()); tr("errAt=%lld\n", (long long)in.c->errAt); }
    std::unique_ptr<SubStreamProvider> p(open(kind, in.s.get()));
    if (a.what == "mail body") {
        InputStream* e = p->nextEntry();
        if (fails) return;
        CHECK("members", e, "mail: no body"); CHECK("name", p->entryInfo().filename == "body", "mail: body is called %s", show(p->entryInfo().filename).c_str());
        str got; const char* s; int32_t n; while ((n = e->read(s, 1, 0)) > 0) got.append(s, n);
        const str& d = a.m[0].data;
        CHECK("data", got.size() >= d.size() && got.compare(got.size() - d.size(), str::npos, d) == 0 && got.find_first_not_of("\r\n") == got.size() - d.size(), "mail: wrong body %s, expected %s", show(got, 500).c_str(), show(d, 500).c_str());
        CHECK("proto", p->nextEntry() == 0, "mail: entry after the body");
        return;
    }
    walk(kind, p.get(), a, r, fails, -1, in.s.get());
    if (fails && kind == "mail") return;
}
static void cut(const str& kind, Rng& r) {
    Archive a = make(kind, r);
    if (a.what == "mail body" || !a.minimal) return;
    int64_t at;
    if (r.coin() && a.m.size()) { const Member& m = a.m[r.in(0, a.m.size() - 1)]; at = r.one(3) ? r.in(m.hstart, m.hend) : r.one(2) ? r.in(m.hend, m.dend) : r.in(0, a.minimal - 1); }
    else at = r.in(0, a.minimal - 1);
    if (at >= (int64_t)a.minimal) at = a.minimal - 1;
    str d = a.bytes.substr(0, at);
    tr("%s, %zu bytes cut at %lld, members:", a.what.c_str(), a.bytes.size(), (long long)at); for (auto& m : a.m) tr(" %s(%zu)@%lld,%lld,%lld", show(m.name, 30).c_str(), m.data.size(), (long long)m.hstart, (long long)m.hend, (long long)m.dend); tr("\n");
    Input in(d, r);
    std::unique_ptr<SubStreamProvider> p(open(kind, in.s.get()));
    if (kind == "tar" || kind == "cpio" || kind == "ar" || kind == "zip" || kind == "rpm") walk(kind, p.get(), a, r, kind == "rpm", at, in.s.get());
    else for (int i = 0; i < 50 && p->nextEntry(); ++i) ;
}
// anything at all
static void fuzz(const str& kind, Rng& r) {
    Archive a = make(kind, r); str d = a.bytes;
    int k = (int)r.in(0, 12);
    if (r.one(20)) d = r.bytes(r.skew(3000));
    for (int i = 0; i < k && d.size(); ++i) {
        size_t at = r.one(3) && a.m.size() ? a.m[r.in(0, a.m.size() - 1)].hstart + r.in(0, 160) : r.coin() ? r.in(0, std::min<size_t>(d.size() - 1, 700)) : r.in(0, d.size() - 1);
        if (at >= d.size()) at = d.size() - 1;
        switch (r.in(0, 9)) {
        case 0: d[at] = (char)r.next(); break;
        case 1: d[at] ^= 1 << r.in(0, 7); break;
        case 2: d[at] = r.coin() ? 0 : (char)0xff; break;
        case 3: d.resize(at); break;
        case 4: d.insert(at, r.bytes(r.in(1, 20))); break;
        case 5: d.erase(at, r.in(1, 20)); break;
        case 6: for (int j = (int)r.in(1, 8); j > 0 && at < d.size(); --j, ++at) d[at] = "0123456789abcdefABCDEF7f-/ \0\xff\x80"[r.in(0, 30)]; break;
        case 7: { static const uint32_t I[] = {0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffeu, 0x7ffffff0, 0x10000000, 0x3ffffff, 0x1000000, 0xfffffffu, 64, 512, 127, 128, 109, 110}; str v = r.coin() ? le32(I[r.in(0, 16)]) : be32(I[r.in(0, 16)]); for (int j = 0; j < 4 && at + j < d.size(); ++j) d[at + j] = v[j]; break; }
        case 8: { size_t from = r.in(0, d.size() - 1); str x = d.substr(from, r.in(1, 600)); d.insert(at, x); break; }
        case 9: { if (kind == "ole") { size_t w = r.one(2) ? 0x2c + 4 * r.in(0, 40) : (at & ~3u); str v = le32(r.one(3) ? (uint32_t)r.next() : (uint32_t)r.in(-3, 300)); for (int j = 0; j < 4 && w + j < d.size(); ++j) d[w + j] = v[j]; } else d[at] = r.one(2) ? '0' : '7'; break; }
        }
    }
    str shown; for (size_t i = 0; i < d.size() && i < 20000; ++i) shown += fmt("%02x", (unsigned char)d[i]);
    tr("%s content (hex): %s\n", kind.c_str(), shown.c_str());
    Input in(d, r);
    std::unique_ptr<SubStreamProvider> p(open(kind, in.s.get()));
    int n = (int)(r.coin() ? 200 : r.in(0, 5)); size_t cnt = 0;
    for (int i = 0; i < n; ++i) {
        InputStream* e = p->nextEntry();
        if (!e) { CHECK("proto", p->status() != Ok, "%s: no entry but status Ok", kind.c_str()); if (r.coin()) break; continue; }
        ++cnt;
        int how = (int)r.in(0, 4); size_t total = 0;
        for (int j = 0; j < 300 && how && e->status() == Ok && total < 200000; ++j) {
            const char* q = 0; int32_t mn = 1 + (int32_t)r.skew(5000); int32_t got = e->read(q, mn, r.coin() ? 0 : mn);
            if (got > 0) { unsigned x = 0; for (int32_t i2 = 0; i2 < got; ++i2) x += q[i2]; volatile unsigned keep = x; (void)keep; total += got; }
            if (r.one(4)) e->skip(r.one(5) ? r.in(0, 1LL << 33) : r.skew(2000));
            if (r.one(6)) e->reset(r.in(0, std::max<int64_t>(e->position(), 0)));
            if (how == 1 && r.one(3)) break;
        }
        (void)p->entryInfo().filename.size();
    }
}
static void provider(Rng& r) {
    static const char* K[] = {"zip", "sdf", "mail", "tar", "none"};
    str k = K[r.in(0, 4)]; Archive a = k == "none" ? Archive() : make(k, r);
    if (k == "none") a.bytes = r.coin() ? r.bytes(r.skew(1500)) : " " + r.bytes(r.skew(20));
    size_t h = std::min<size_t>(a.bytes.size(), 1024);
    tr("provider for %s, %zu bytes\n", k.c_str(), a.bytes.size());
    if (k == "mail") tr("%s\n", show(a.bytes, 4000).c_str());
    Input in(a.bytes, r);
    SubStreamProviderProvider f;
    std::unique_ptr<SubStreamProvider> p(f.subStreamProvider(in.s.get()));
    const char* got = !p ? "none" : dynamic_cast<MailInputStream*>(p.get()) ? "mail" : dynamic_cast<ZipInputStream*>(p.get()) ? "zip" : dynamic_cast<SdfInputStream*>(p.get()) ? "sdf" : "other";
    tr("got %s\n", got);
    str why = got;
    // whatever is offered, its own check accepts the header (which may be longer than 1024 bytes)
    bool ok = false;
    for (size_t n = h ? h : 0; n <= a.bytes.size() && !ok; n = n < a.bytes.size() && n + 700 > a.bytes.size() ? a.bytes.size() : n + 700) {
        if (n == 0) { ok = !p; break; }
        std::unique_ptr<char[]> b(new char[n]); memcpy(b.get(), a.bytes.data(), n);
        bool m = MailInputStream::checkHeader(b.get(), n), z = ZipInputStream::checkHeader(b.get(), n), s = SdfInputStream::checkHeader(b.get(), n);
        ok = why == "mail" ? m : why == "zip" ? z && !m : why == "sdf" ? s && !m && !z : !m && !z && !s;
        if (n == a.bytes.size()) break;
    }
    if (a.bytes.size() <= 1024) CHECK("dispatch", ok, "provider: %s offered for %s", got, k.c_str());
    else if (why != "none") CHECK("dispatch", ok || a.bytes.size() > 1024, "provider: %s offered for %s", got, k.c_str());
    if (k == "zip") CHECK("dispatch", why == "zip", "provider: %s offered for a zip file", got);
    if (k == "sdf") CHECK("dispatch", why == "sdf" || why == "mail", "provider: %s offered for an sdf file", got);
    if (k == "mail") CHECK("dispatch", why == "mail", "provider: %s offered for a mail", got);
    if (p && why == k && a.what != "mail body") {
        walk(k, p.get(), a, r, false, -1, in.s.get());
    } else if (!p) {
        // nothing may be lost
        CHECK("dispatch", in.s->position() == 0, "provider: the stream was left at %lld", (long long)in.s->position());
    }
}

typedef void (*Kind)(Rng&);
static std::vector<std::pair<str, std::function<void(Rng&)>>> kinds;
static void init() {
    static const char* F[] = {"tar", "cpio", "ar", "zip", "rpm", "ole", "sdf", "mail"};
    for (auto f : F) {
        str k = f;
        kinds.push_back({k, [k](Rng& r) { if (r.one(4) && k != "ole" && k != "sdf" && k != "mail") cut(k, r); else valid(k, r); }});
        kinds.push_back({"fuzz-" + k, [k](Rng& r) { fuzz(k, r); }});
    }
    kinds.push_back({"provider", provider});
    const char* e = getenv("NAT_KINDS");
    if (e && *e) {
        str l = "," + str(e) + ","; std::vector<std::pair<str, std::function<void(Rng&)>>> k2;
        for (auto& k : kinds) if (l.find("," + k.first + ",") != str::npos) k2.push_back(k);
        kinds = k2;
    }
}
int64_t case_count(bool) { init(); return 0; }
void run_case(uint64_t n, Rng& r) {
    auto& k = kinds[n % kinds.size()];
    tr("kind %s\n", k.first.c_str());
    k.second(r);
}
