// Shared by all native harnesses: case bookkeeping, reporting, deterministic random numbers.
// A harness defines   void vt_run(int depth, vt::Rng& rng)  (depth 0 quick, 1 thorough, 2 deeper search)
// and                 void vt_case(const std::string& c)    (decode one case, run it on the real code, compare).
#pragma once
#include <pdfmm/pdfmm.h>
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_set>
#include <functional>
#include <signal.h>
#include <unistd.h>
extern "C" void __sanitizer_set_death_callback(void (*cb)(void));
namespace vt {
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 8; i++) next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    uint64_t below(uint64_t n) { return n ? (next() >> 11) % n : 0; }
    bool chance(unsigned pct) { return below(100) < pct; }
    std::string bytes(size_t n) { std::string r(n, 0); for (auto& c : r) c = (char)next(); return r; }
    std::string from(const std::string& alphabet, size_t n) { std::string r(n, 0); for (auto& c : r) c = alphabet[below(alphabet.size())]; return r; }
};
inline std::string cur; inline uint64_t ncases = 0, nfail = 0; inline bool dead = false;
inline std::unordered_set<uint64_t> seen; inline std::vector<std::string> samples;
inline std::string hex(const std::string& s) { static const char* d = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }
inline std::string unhex(const std::string& s) {
    auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    std::string r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)(v(s[i]) * 16 + v(s[i + 1])); return r; }
inline std::vector<std::string> split(const std::string& s, char sep = ':') {
    std::vector<std::string> r(1); for (char c : s) if (c == sep) r.emplace_back(); else r.back() += c; return r; }
inline void report() {
    printf("CASES %llu\nDISTINCT %llu\n", (unsigned long long)ncases, (unsigned long long)seen.size());
    for (auto& s : samples) printf("SAMPLE %s\n", s.c_str());
    fflush(stdout);
}
inline void on_death() {
    if (dead) return;
    dead = true;
    printf("FAIL case=%s | the process died (invalid memory access or abort)\n", cur.c_str());
    report();
}
inline void on_signal(int sig) { if (!dead) { dead = true; printf("FAIL case=%s | signal %d\n", cur.c_str(), sig); report(); } _exit(1); }
inline void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void fail(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); char b[1500]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (char* p = b; *p; p++) if (*p == '\n') *p = ' ';
    if (nfail < 20) { printf("FAIL case=%s | %s\n", cur.c_str(), b); fflush(stdout); }
    if (++nfail >= 20) { report(); _exit(1); }
}
}
void vt_run(int depth, vt::Rng& rng);
void vt_case(const std::string& c);
namespace vt {
// announce and run one case; an exception that reaches this point is a failure
inline void go(const std::string& c) {
    cur = c; ncases++;
    if (seen.size() < 3000000) seen.insert(std::hash<std::string>()(c));
    if (ncases == 1 || (samples.size() < 10 && (ncases & (ncases - 1)) == 0)) samples.push_back(c.substr(0, 200));
    try { vt_case(c); }
    catch (mm::PdfError& e) { fail("unexpected PdfError %d", (int)e.GetError()); }
    catch (std::exception& e) { fail("unexpected exception %s", e.what()); }
}
}
int main(int argc, char** argv) {
    __sanitizer_set_death_callback(vt::on_death);
    for (int s : { SIGFPE, SIGILL, SIGABRT, SIGALRM }) signal(s, vt::on_signal);
    setenv("TZ", "UTC", 1);
    mm::PdfCommon::SetMaxLoggingSeverity(mm::PdfLogSeverity::None);
    if (argc >= 3 && !strcmp(argv[1], "replay")) {
        alarm(60);
        vt::go(argv[2]); printf(vt::nfail ? "replay: fails\n" : "replay: holds\n"); return vt::nfail ? 1 : 0; }
    int depth = argc > 2 ? (!strcmp(argv[2], "deep") ? 2 : !strcmp(argv[2], "thorough") ? 1 : 0) : 0;
    vt::Rng rng(argc > 3 ? strtoull(argv[3], 0, 10) : 1);
    alarm(depth == 1 ? 2000 : 300);
    vt_run(depth, rng);
    vt::report();
    return vt::nfail ? 1 : 0;
}
