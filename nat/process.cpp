// C22: a process stream delivers exactly what its command writes
#include "nat.h"
#include <strigi/processinputstream.h>
#include <strigi/stringstream.h>
#include <strigi/subinputstream.h>
#include <memory>
#include <errno.h>
#include <signal.h>
#include <sys/wait.h>
#include <time.h>
using namespace Strigi;
const char* harness_name = "process";

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::vector<str> sh(const str& s) { std::vector<str> a; a.push_back("/bin/sh"); a.push_back("-c"); a.push_back(s); return a; }
static str quoted(const str& d) { str q = "printf '"; for (size_t i = 0; i < d.size(); ++i) { char b[8]; snprintf(b, sizeof b, "\\%03o", (unsigned char)d[i]); q += b; } return q + "'"; }
static str nap(Rng& r) { char b[40]; snprintf(b, sizeof b, "; sleep 0.%03d; ", (int)r.in(1, 6)); return r.coin() ? str("; ") : str(b); }
static str big(Rng& r) { return r.bytes(r.one(3) ? r.in(60000, 300000) : r.one(3) ? r.in(0, 3) : r.skew(9000)); }
static void gone(const char* w) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    CHECK("child", p < 0 && errno == ECHILD, "%s: a child process is left behind", w);
}
struct Input {
    std::unique_ptr<InputStream> under, s; ChunkStream* c;
    Input(const str& d, Rng& r) : c(0) {
        int k = (int)r.in(0, 3);
        if (k == 0) s.reset(new StringInputStream(d.data(), d.size(), true));
        else if (k == 1) { under.reset(new StringInputStream(d.data(), d.size(), true)); s.reset(new SubInputStream(under.get(), d.size())); }
        else if (k == 2 || d.size() > 20000) s.reset(new Filler<char>(d, r));
        else { c = new ChunkStream(d, r); if (c->resets == 3) c->resets = 0; s.reset(c); tr("%s\n", c->conf().c_str()); }
        tr("input of %zu bytes, kind %d\n", d.size(), k);
    }
};
static void check(ProcessInputStream* p, const str& d, Rng& r, const char* w, bool mayFail = false) {
    Opt o; o.what = w; o.nops = (int)r.in(0, 12); o.mayFail = mayFail; o.beyond = false;
    if (d.size() > 20000) { o.minmin = r.one(2) ? 1 : 1000; }
    drive<char>(p, d, r, o);
}
static void output(Rng& r) {
    str d, cmd = ":";
    for (int i = (int)r.in(0, 5); i > 0; --i) { str x = r.bytes(r.skew(300)); d += x; cmd += nap(r) + quoted(x); }
    if (r.one(4)) { str x = r.bytes(r.in(60000, 200000)); str f = scratch() + "/out"; FILE* o = fopen(f.c_str(), "w"); fwrite(x.data(), 1, x.size(), o); fclose(o); cmd += "; cat " + f; d += x; }
    if (r.one(3)) cmd += nap(r) + ":";
    if (r.one(3)) cmd += "; echo nothing >&2";
    if (r.one(3)) cmd += "; exit 3";
    tr("sh -c %s (%zu bytes)\n", cmd.substr(0, 2000).c_str(), d.size());
    { ProcessInputStream p(sh(cmd)); check(&p, d, r, "ProcessInputStream"); }
    gone("ProcessInputStream");
}
static void cat(Rng& r) {
    str d = big(r); Input in(d, r); bool fails = false;
    if (in.c && r.one(3)) { in.c->errAt = r.in(0, d.size()); fails = true; }
    std::vector<str> a; a.push_back("/bin/cat"); str pre, post;
    if (r.coin()) { pre = r.bytes(r.skew(50)); post = r.bytes(r.skew(50)); a = sh((r.coin() ? "sleep 0.004; " : "") + quoted(pre) + nap(r) + "cat" + nap(r) + quoted(post)); }
    if (fails) { tr("errAt=%lld\n", (long long)in.c->errAt); }
    { ProcessInputStream p(a, in.s.get());
      if (!fails) check(&p, pre + d + post, r, "ProcessInputStream with input");
      else {
          str got; const char* b; int32_t n;
          while ((n = p.read(b, 1, 0)) > 0) got.append(b, n);
          str all = pre + d;
          CHECK("data", got.size() <= all.size() + post.size() && (all + post).compare(0, std::min(got.size(), pre.size()), got, 0, std::min(got.size(), pre.size())) == 0, "ProcessInputStream: wrong output although the input failed");
          CHECK("error", p.status() == Error || got == all + post, "ProcessInputStream: the input failed and the stream ends cleanly");
      } }
    gone("ProcessInputStream with input");
}
// commands that do not read all of their input, or only after a while
static void partial(Rng& r) {
    str d = big(r); Input in(d, r); int k = (int)r.in(0, 30); char c[200];
    bool rest = r.coin();
    snprintf(c, sizeof c, "dd bs=1 count=%d 2>/dev/null%s%s", k, r.coin() ? "; sleep 0.005" : "", rest ? "; cat" : "");
    str e = rest ? d : d.substr(0, k), tail = r.coin() ? r.bytes(r.skew(20)) : str();
    str cmd = c + str("; ") + quoted(tail);
    tr("sh -c %s\n", cmd.c_str());
    { ProcessInputStream p(sh(cmd), in.s.get()); check(&p, e + tail, r, "ProcessInputStream with a lazy reader"); }
    gone("ProcessInputStream with a lazy reader");
}
static void early(Rng& r) {
    str d = big(r); std::unique_ptr<Input> in; if (r.coin()) in.reset(new Input(d, r));
    pid_t pid = 0; double t;
    int how = (int)r.in(0, 2);
    { ProcessInputStream p(sh(how == 0 ? "echo $$; exec sleep 20" : how == 1 ? "echo $$; exec yes" : "echo $$; while :; do sleep 0.01; echo x; done"), in ? in->s.get() : 0);
      if (r.one(4) == 0) {
          const char* b; str line; int32_t n;
          while (line.find('\n') == str::npos && (n = p.read(b, 1, 1)) > 0) line.append(b, n);
          pid = atoi(line.c_str()); tr("pid line %s\n", show(line).c_str());
          CHECK("data", pid > 1, "ProcessInputStream: no output from the command");
      }
      t = now(); }
    CHECK("child", now() - t < 10, "ProcessInputStream: destroying the stream took %.1f s", now() - t);
    gone("ProcessInputStream destroyed early");
    if (pid) CHECK("child", kill(pid, 0) != 0, "ProcessInputStream: the command still runs after the stream is gone");
}
static std::vector<std::pair<str, std::function<void(Rng&)>>> kinds;
int64_t case_count(bool) {
    kinds.push_back({"output", output}); kinds.push_back({"cat", cat}); kinds.push_back({"partial", partial}); kinds.push_back({"early", early});
    const char* e = getenv("NAT_KINDS");
    if (e && *e) {
        str l = "," + str(e) + ","; std::vector<std::pair<str, std::function<void(Rng&)>>> k2;
        for (auto& k : kinds) if (l.find("," + k.first + ",") != str::npos) k2.push_back(k);
        kinds = k2;
    }
    return 0;
}
void run_case(uint64_t n, Rng& r) {
    auto& k = kinds[n % kinds.size()];
    tr("kind %s\n", k.first.c_str());
    k.second(r);
}
