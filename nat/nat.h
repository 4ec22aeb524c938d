// Executable oracle: random and exhaustive concrete runs of the real code.
// Every case is a function of one 64 bit number, so that it can be replayed.
#ifndef NAT_H
#define NAT_H
#include <strigi/strigiconfig.h>
#include <strigi/streambase.h>
#include <strigi/bufferedstream.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <stdint.h>
typedef std::string str;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ULL + 0x1234567) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    int64_t in(int64_t a, int64_t b) { return b <= a ? a : a + (int64_t)(next() % (uint64_t)(b - a + 1)); }
    bool one(int n) { return next() % n == 0; }
    bool coin() { return next() & 1; }
    // small numbers are more likely
    int64_t skew(int64_t b) { int64_t x = in(0, b); if (coin()) x = in(0, x); if (coin()) x = in(0, x); return x; }
    template <class T> const T& of(const std::vector<T>& v) { return v[in(0, v.size() - 1)]; }
    str bytes(size_t n, int alphabet = 256) { str s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = (char)(alphabet == 256 ? next() : 'a' + next() % alphabet); return s; }
};

struct Fail { str tag, msg; Fail(const str& t, const str& m) : tag(t), msg(m) {} };
extern str trace_;                 // what the case did, for the replay file
void tr(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void fail(const char* tag, const char* fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
str show(const str& s, size_t max = 60);
str scratch();                     // a scratch directory for this run

#define CHECK(tag, c, ...) do { if (!(c)) fail(tag, __VA_ARGS__); } while (0)

// ---------------------------------------------------------------- input
// an input stream that uses every freedom that the interface leaves
template <class T>
class Chunks : public Strigi::StreamBase<T> {
    typedef std::basic_string<T> S;
    S d; Rng& r; T* seg; int64_t s0, s1; size_t segn;
    void drop() { delete [] seg; seg = 0; }
    T* dup(int64_t a, int64_t b) { T* p = new T[b - a]; memcpy(p, d.data() + a, (b - a) * sizeof(T)); return p; }
public:
    bool eager, exactmin; int resets; int64_t errAt; int nread, nreset; bool misuse;
    Chunks(const S& data, Rng& rng, bool known = true) : d(data), r(rng), seg(0), s0(0), s1(0), eager(rng.coin()), exactmin(rng.one(3)), resets(rng.one(6) ? 3 : rng.in(0, 2)), errAt(-1), nread(0), nreset(0), misuse(false) {
        if (known && rng.coin()) this->m_size = d.size();
    }
    ~Chunks() { drop(); }
    bool canErr() const { return errAt >= 0 || resets == 3; }
    str conf() const { char b[200]; snprintf(b, sizeof b, "input(len=%zu size=%lld eager=%d exactmin=%d resets=%d errAt=%lld)", d.size(), (long long)this->m_size, eager, exactmin, resets, (long long)errAt); return b; }
    static bool verbose() { static int v = getenv("NAT_INPUT") ? 1 : 0; return v; }
    int32_t read(const T*& start, int32_t min, int32_t max) {
        int32_t n = read_(start, min, max);
        if (verbose()) fprintf(stderr, "  input read(%d,%d)=%d now %lld\n", min, max, n, (long long)this->m_position);
        return n;
    }
    int64_t reset(int64_t p) {
        if (verbose()) fprintf(stderr, "  input reset(%lld) at %lld [%lld,%lld]\n", (long long)p, (long long)this->m_position, (long long)s0, (long long)s1);
        return reset_(p);
    }
    int64_t skip(int64_t k) {
        if (verbose()) fprintf(stderr, "  input skip(%lld) at %lld\n", (long long)k, (long long)this->m_position);
        return skip_(k);
    }
    int32_t read_(const T*& start, int32_t min, int32_t max) {
        ++nread;
        if (this->m_status == Strigi::Error) return -2;
        if (this->m_status == Strigi::Eof) return -1;
        if (min < 1) { misuse = true; min = 1; }
        int64_t left = (int64_t)d.size() - this->m_position;
        if (errAt >= 0 && this->m_position + min > errAt) return error();
        if (errAt >= 0 && r.one(20)) return error();
        if (left == 0) { drop(); start = 0; this->m_status = Strigi::Eof; this->m_size = this->m_position; return -1; }
        int64_t n;
        if (exactmin) n = min;
        else if (max < min) n = min + r.skew(20);
        else n = r.one(3) ? max : r.in(min, max);
        if (errAt >= 0) n = std::min(n, errAt - this->m_position);
        if (n > left) n = left;
        int64_t p = this->m_position;
        if (seg && s0 <= p && p + n <= s1 && r.coin()) {
            start = seg + (p - s0);        // still in the same segment
        } else {
            T* q = dup(p, p + n);          // exact size: any over-read is seen
            drop();
            seg = q; s0 = p; s1 = p + n;
            start = seg;
        }
        this->m_position = p + n;
        if (this->m_position == (int64_t)d.size() && (eager || n < min)) { this->m_status = Strigi::Eof; this->m_size = this->m_position; }
        return (int32_t)n;
    }
    int32_t error() { drop(); this->m_status = Strigi::Error; this->m_error = "injected failure"; return -2; }
    int64_t skip_(int64_t k) {
        if (this->m_status == Strigi::Error) return -2;
        if (k > 0 && errAt >= 0 && this->m_position + k > errAt) { return error(); }
        if (k == 0) return 0;
        drop();
        int64_t left = (int64_t)d.size() - this->m_position;
        if (left == 0) { this->m_status = Strigi::Eof; this->m_size = this->m_position; return r.coin() ? -1 : 0; }
        if (k > left || (k == left && eager)) { this->m_status = Strigi::Eof; this->m_size = d.size(); if (k > left) k = left; }
        this->m_position += k;
        return k;
    }
    int64_t reset_(int64_t p) {
        ++nreset;
        if (this->m_status == Strigi::Error) return -2;
        if (p < 0) { misuse = true; p = 0; }
        if (seg && s0 <= p && p <= s1) { land(p); return p; }
        if (resets == 0) return this->m_position;      // like a BufferedStream
        if (resets == 3) return error();
        if (resets == 1 && r.one(3)) { return this->m_position; }
        if (p > (int64_t)d.size()) { p = d.size(); }
        if (errAt >= 0 && p > errAt) return error();
        drop();
        land(p);
        return p;
    }
    void land(int64_t p) {
        this->m_position = p;
        if (p == (int64_t)d.size() && (eager || r.coin())) { this->m_status = Strigi::Eof; this->m_size = p; }
        else this->m_status = Strigi::Ok;
    }
};
typedef Chunks<char> ChunkStream;

// a BufferedStream whose fillBuffer uses every freedom it has
template <class T>
class Filler : public Strigi::BufferedStream<T> {
    typedef std::basic_string<T> S;
    S d; Rng& r; size_t w;
public:
    int64_t errAt; bool zeros;
    Filler(const S& data, Rng& rng) : d(data), r(rng), w(0), errAt(-1), zeros(rng.one(3)) {
        if (rng.one(3)) this->m_size = d.size();
        if (rng.coin()) this->setMinBufSize((int32_t)rng.in(1, 40));
    }
    int32_t fillBuffer(T* start, int32_t space) {
        if (space <= 0) fail("data", "fillBuffer called with space %d", (int)space);
        for (int32_t i = 0; i < space; i++) start[i] = (T)0x55;       // the space is ours to write
        if (errAt >= 0 && ((int64_t)w >= errAt || r.one(20))) { this->m_status = Strigi::Error; this->m_error = "injected failure"; return -1; }
        if (w == d.size()) return -1;
        if (zeros && r.one(4)) return 0;
        int64_t n = std::min<int64_t>(space, d.size() - w);
        if (errAt >= 0) n = std::min<int64_t>(n, errAt - w);
        n = r.coin() ? n : r.in(1, n);
        memcpy(start, d.data() + w, n * sizeof(T));
        w += n;
        return (int32_t)n;
    }
};

// ---------------------------------------------------------------- the oracle
struct Opt {
    bool mayFail;        // the stream may report an error at any time
    bool mustFail;       // the end must never be reached without an error
    bool random;         // reset can reach every position
    bool segreset;       // reset inside the last segment is guaranteed
    bool skips;          // exercise skip
    bool resets;
    bool beyond;         // resets beyond the end
    int nops; int64_t maxreq; int64_t minmin;
    bool revive;         // a successful reset ends an error
    bool full;           // read on to the end
    const char* what;
    Opt() : mayFail(false), mustFail(false), random(false), segreset(true), skips(true), resets(true), beyond(true), nops(30), maxreq(0), minmin(1), revive(false), full(true), what("stream") {}
};
template <class T>
void drive(Strigi::StreamBase<T>* s, const std::basic_string<T>& D, Rng& r, const Opt& o) {
    using namespace Strigi;
    const int64_t L = D.size();
    int64_t pos = s->position();
    bool err = s->status() == Error;
    const T* ptr = 0; int64_t p0 = 0, p1 = -1;     // valid segment
    const char* w = o.what;
    if (err) CHECK("error", o.mayFail || o.mustFail, "%s: in error from the start", w);
    const int64_t maxreq = o.maxreq ? o.maxreq : std::max<int64_t>(2 * L, 8);
    auto inv = [&](const char* after) {
        int st = s->status();
        CHECK("state", st == Ok || st == Eof || st == Error, "%s: status %d after %s", w, st, after);
        if (err) CHECK("error", st == Error, "%s: an error was forgotten after %s (status %d)", w, after, st);
        if (st == Error) { CHECK("error", o.mayFail || o.mustFail, "%s: error '%s' without a cause after %s at %lld of %lld", w, s->error(), after, (long long)pos, (long long)L); err = true; return; }
        CHECK("state", s->position() >= 0 && s->position() <= L, "%s: position %lld outside [0,%lld] after %s", w, (long long)s->position(), (long long)L, after);
        CHECK("data", s->position() == pos, "%s: position is %lld, expected %lld after %s", w, (long long)s->position(), (long long)pos, after);
        if (st == Eof) {
            CHECK("eof", !o.mustFail, "%s: clean end of a damaged stream at %lld after %s", w, (long long)pos, after);
            CHECK("eof", pos == L, "%s: end of stream reported at %lld of %lld after %s", w, (long long)pos, (long long)L, after);
            CHECK("eof", s->size() == pos, "%s: size is %lld at the end %lld after %s", w, (long long)s->size(), (long long)pos, after);
        }
        if (s->size() != -1 && !o.mustFail) CHECK("eof", s->size() == L || o.mayFail, "%s: size %lld claimed, real size %lld after %s", w, (long long)s->size(), (long long)L, after);
    };
    inv("construction");
    auto still = [&]() {
        if (ptr && p1 > p0) CHECK("data", memcmp(ptr, D.data() + p0, (p1 - p0) * sizeof(T)) == 0, "%s: the data pointer was invalidated", w);
    };
    for (int i = 0; i < o.nops || o.full; ++i) {
        int op = (int)r.in(0, 9);
        bool draining = i >= o.nops;
        if (draining) { op = 0; if (i > o.nops + 4 * L + 50) fail("data", "%s: no end after %d more reads at %lld of %lld", w, i, (long long)pos, (long long)L); }
        if (op <= 4 || (op <= 6 && !o.resets) || (op > 6 && !o.skips)) {
            int32_t mn = (int32_t)std::max<int64_t>(o.minmin, 1 + r.skew(maxreq)), mx = (int32_t)r.skew(maxreq + 3);
            if (r.coin()) mn = (int32_t)std::max<int64_t>(o.minmin, 1);
            if (r.one(4)) mx = mn;
            if (r.one(6)) mx = r.coin() ? 0 : -1;
            bool wasEof = s->status() == Eof; bool wasErr = err;
            const T* start = 0;
            int32_t n = s->read(start, mn, mx);
            tr("read(%d,%d)=%d\n", mn, mx, n);
            CHECK("count", n >= -2 && n != 0, "%s: read(%d,%d) returned %d", w, mn, mx, n);
            ptr = 0;
            if (n > 0) {
                CHECK("eof", !wasEof, "%s: data after the end", w);
                CHECK("error", !wasErr, "%s: data after an error", w);
                if (mx >= mn) CHECK("count", n <= mx, "%s: read(%d,%d) returned %d items", w, mn, mx, n);
                CHECK("data", pos + n <= L, "%s: %lld items delivered, the stream has %lld", w, (long long)(pos + n), (long long)L);
                CHECK("data", start != 0, "%s: no data pointer", w);
                if (memcmp(start, D.data() + pos, n * sizeof(T))) {
                    int k = 0; while (start[k] == D[pos + k]) ++k;
                    fail("data", "%s: wrong item at position %lld (read at %lld, count %d)", w, (long long)(pos + k), (long long)pos, n);
                }
                p0 = pos; pos += n; p1 = pos; ptr = start;
                CHECK("error", s->status() != Error, "%s: data together with an error", w);
                if (n < mn) CHECK("count", s->status() == Eof, "%s: read(%d,%d) returned %d but the end is not reported", w, mn, mx, n);
            } else if (n == -1) {
                CHECK("eof", s->status() == Eof, "%s: read returned -1 but status is %d", w, (int)s->status());
                CHECK("eof", pos == L || o.mustFail, "%s: read reports the end at %lld of %lld", w, (long long)pos, (long long)L);
            } else {
                CHECK("error", s->status() == Error, "%s: read returned -2 but status is %d", w, (int)s->status());
            }
            if (wasEof) CHECK("eof", n == -1, "%s: read(%d,%d) after the end returned %d", w, mn, mx, n);
            if (wasErr) CHECK("error", n == -2, "%s: read(%d,%d) after an error returned %d", w, mn, mx, n);
            inv("read");
            if (draining && n <= 0) break;
        } else if (op <= 6) {
            int64_t p;
            bool inseg = false;
            if (p1 >= p0 && ptr && r.one(4) == 0 && o.segreset) { p = r.in(p0, p1); inseg = true; }
            else p = r.in(0, L + (o.beyond && r.one(4) ? 1 + r.skew(1000) : 0));
            if (ptr && p0 <= p && p <= p1) inseg = true;
            bool wasErr = err;
            int64_t q = s->reset(p);
            tr("reset(%lld)=%lld\n", (long long)p, (long long)q);
            if (s->status() == Error) { CHECK("reset", q < 0, "%s: reset returned %lld in error", w, (long long)q); ptr = 0; }
            else {
                CHECK("reset", q == s->position() && q >= 0 && q <= L, "%s: reset(%lld) returned %lld, position %lld, length %lld", w, (long long)p, (long long)q, (long long)s->position(), (long long)L);
                pos = q;
                if (o.revive) err = false;
                if (inseg && o.segreset) { CHECK("reset", q == p, "%s: reset(%lld) inside the last data [%lld,%lld] returned %lld", w, (long long)p, (long long)p0, (long long)p1, (long long)q); still(); }
                else if (o.random && p <= L) { CHECK("reset", q == p, "%s: reset(%lld) returned %lld", w, (long long)p, (long long)q); ptr = 0; }
                else { ptr = 0; }
                if (pos < L) CHECK("reset", s->status() == Ok, "%s: after reset to %lld of %lld the status is %d", w, (long long)pos, (long long)L, (int)s->status());
            }
            if (!wasErr && inseg && o.segreset) CHECK("reset", s->status() != Error, "%s: reset inside the last data failed", w);
            inv("reset");
        } else {
            int64_t k = r.skew(r.coin() ? std::max<int64_t>(L / 4, 2) : 2 * L + 3);
            if (r.one(12)) k = r.coin() ? (1LL << 31) + r.in(0, 5) : (1LL << 32) + r.in(0, 5);
            bool wasErr = err;
            int64_t q = s->skip(k);
            tr("skip(%lld)=%lld\n", (long long)k, (long long)q);
            ptr = 0;
            int64_t left = L - pos;
            if (s->status() == Error) { CHECK("skip", q < k || k == 0 || wasErr, "%s: skip(%lld) failed but returned %lld", w, (long long)k, (long long)q); pos = s->position(); }
            else {
                CHECK("skip", q <= k, "%s: skip(%lld) returned %lld", w, (long long)k, (long long)q);
                if (q < 0) { CHECK("skip", left == 0, "%s: skip(%lld) returned %lld at %lld of %lld", w, (long long)k, (long long)q, (long long)pos, (long long)L); }
                else {
                    CHECK("skip", q == std::min(k, left), "%s: skip(%lld) returned %lld at %lld of %lld", w, (long long)k, (long long)q, (long long)pos, (long long)L);
                    pos += q;
                    if (k > left && left > 0) CHECK("skip", s->status() == Eof, "%s: skip(%lld) passed the end at %lld without reporting it", w, (long long)k, (long long)L);
                }
                CHECK("skip", s->position() == pos, "%s: after skip(%lld)=%lld position is %lld, expected %lld", w, (long long)k, (long long)q, (long long)s->position(), (long long)pos);
            }
            inv("skip");
        }
        still();
    }
}

// every harness defines these
extern const char* harness_name;
int64_t case_count(bool thorough);           // number of exhaustive cases (numbered from 0)
void run_case(uint64_t n, Rng& r);           // n < case_count: exhaustive, otherwise random
#endif
