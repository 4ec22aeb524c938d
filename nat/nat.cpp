#include "nat.h"
#include <stdarg.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
str trace_;
static str scratch_;
str scratch() { return scratch_; }
void tr(const char* fmt, ...) {
    char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    if (trace_.size() < 60000) trace_ += b;
    else if (trace_.size() < 60010) trace_ += "...\n";
}
void fail(const char* tag, const char* fmt, ...) {
    char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    throw Fail(tag, b);
}
str show(const str& s, size_t max) {
    str o = "\""; char b[8];
    for (size_t i = 0; i < s.size() && i < max; ++i) {
        unsigned char c = s[i];
        if (c >= 32 && c < 127 && c != '"' && c != '\\') o += c; else { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    }
    o += "\""; if (s.size() > max) { snprintf(b, sizeof b, "..."); o += b; }
    return o;
}
struct Shm { volatile uint64_t cur; volatile uint64_t done; volatile uint64_t skipped; volatile int failed; char tag[40]; char msg[4000]; char trace[60100]; };
static Shm* shm;
static std::set<str> tags;   // empty: all
static std::set<str> known;
static bool counts(const str& t) { return tags.empty() || tags.count(t); }
static int one(uint64_t n, bool verbose) {
    trace_.clear();
    Rng r(n + 1);
    try { run_case(n, r); }
    catch (Fail& f) {
        if (!counts(f.tag)) { if (verbose) printf("(other aspect) {%s} %s\n", f.tag.c_str(), f.msg.c_str()); return 0; }
        shm->failed = 1;
        snprintf(shm->tag, sizeof shm->tag, "%s", f.tag.c_str());
        snprintf(shm->msg, sizeof shm->msg, "%s", f.msg.c_str());
        snprintf(shm->trace, sizeof shm->trace, "%s", trace_.c_str());
        return 1;
    }
    return 0;
}
// usage: harness [--tags a,b] [--seconds S] [--seed N] [--thorough] [--case N] [--scratch DIR] [--max N]
int main(int argc, char** argv) {
    double seconds = 10; uint64_t seed = 1, only = ~0ULL, maxn = 20000000; bool thorough = false;
    int jobs = 8, tmo = 30;
    for (int i = 1; i < argc; ++i) {
        str a = argv[i];
        if (a == "--tags") { std::stringstream ss(argv[++i]); str t; while (getline(ss, t, ',')) if (t.size()) tags.insert(t); if (tags.size()) tags.insert("crash"); }
        else if (a == "--seconds") seconds = atof(argv[++i]);
        else if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
        else if (a == "--thorough") thorough = true;
        else if (a == "--case") only = strtoull(argv[++i], 0, 10);
        else if (a == "--scratch") scratch_ = argv[++i];
        else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--max") maxn = strtoull(argv[++i], 0, 10);
    }
    if (scratch_.empty()) { char t[] = "/tmp/natXXXXXX"; scratch_ = mkdtemp(t); }
    int devnull = open("/dev/null", O_WRONLY);
    str logname = scratch_ + "/stderr";
    const uint64_t ex = case_count(thorough);
    uint64_t base = (1ULL << 40) + seed * 1000000007ULL;
    if (only != ~0ULL) {
        shm = new Shm(); memset(shm, 0, sizeof *shm);
        int bad = one(only, true);
        if (bad) printf("FAIL case=%llu {%s} %s\n--- trace\n%s", (unsigned long long)only, shm->tag, shm->msg, shm->trace);
        else printf("ok case=%llu\n", (unsigned long long)only);
        return bad;
    }
    struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    auto now = [&]() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9; };
    Shm* all = (Shm*)mmap(0, sizeof(Shm) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pid(jobs, 0); std::vector<uint64_t> nextc(jobs);
    str base_scratch = scratch_;
    // worker j does the cases j, j+jobs, j+2*jobs, ...
    auto spawn = [&](int j) {
        fflush(0);
        pid_t p = fork();
        if (p) { pid[j] = p; return; }
        shm = all + j;
        char num[20]; snprintf(num, sizeof num, "/w%d", j);
        scratch_ = base_scratch + num; mkdir(scratch_.c_str(), 0777);
        int lf = open((scratch_ + "/stderr").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666);
        dup2(lf, 2); dup2(devnull, 1);
        int cnt = 0;
        for (uint64_t k = nextc[j]; k < maxn; k += jobs) {
            if (k >= ex && now() > seconds) break;
            if (k < ex && now() > seconds * 8) { shm->skipped = 1; break; }
            uint64_t id = k < ex ? k : base + k;
            shm->cur = k;
            alarm(tmo);
            if (++cnt % 64 == 0) { if (ftruncate(lf, 0)) {} lseek(lf, 0, SEEK_SET); }
            if (one(id, false)) _exit(3);
            shm->done++;
        }
        _exit(0);
    };
    for (int j = 0; j < jobs; ++j) { nextc[j] = j; spawn(j); }
    int running = jobs; int bad = 0; uint64_t badcase = 0; str badmsg, badtag, badtrace;
    while (running) {
        int st; pid_t p = wait(&st);
        if (p < 0) break;
        int j = 0; while (j < jobs && pid[j] != p) ++j;
        if (j == jobs) continue;
        --running;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (bad) continue;
        bad = 1;
        uint64_t k = all[j].cur;
        badcase = k < ex ? k : base + k;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { badtag = all[j].tag; badmsg = all[j].msg; badtrace = all[j].trace; }
        else {
            badtag = "crash";
            char b[200];
            if (WIFSIGNALED(st)) snprintf(b, sizeof b, WTERMSIG(st) == SIGALRM ? "the code did not come back within %d s" : "the code died with signal %d", WTERMSIG(st) == SIGALRM ? tmo : WTERMSIG(st));
            else snprintf(b, sizeof b, "the code exited with status %d (sanitizer report or exit)", WEXITSTATUS(st));
            badmsg = b;
            char num[20]; snprintf(num, sizeof num, "/w%d", j);
            FILE* f = fopen((base_scratch + num + "/stderr").c_str(), "r");
            if (f) { char l[4000]; size_t n; str x; while ((n = fread(l, 1, sizeof l, f)) > 0) x.append(l, n); fclose(f); size_t q = x.find("ERROR: AddressSan"); if (q == str::npos) q = x.find("runtime error"); if (q == str::npos) q = x.rfind("ssertion"); if (q != str::npos && q > 200) x = x.substr(q - 200); badtrace = x.substr(0, 6000); }
        }
        for (int i = 0; i < jobs; ++i) if (i != j) kill(pid[i], SIGKILL);
    }
    uint64_t done = 0, skipped = 0; for (int j = 0; j < jobs; ++j) { done += all[j].done; skipped |= all[j].skipped; }
    if (bad) printf("FAIL case=%llu {%s} %s\n--- trace\n%s\n", (unsigned long long)badcase, badtag.c_str(), badmsg.c_str(), badtrace.c_str());
    printf("CASES %llu exhaustive %llu%s wall %.1f\n", (unsigned long long)done, (unsigned long long)ex, skipped ? " (cut)" : "", now());
    return bad;
}
