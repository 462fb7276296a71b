#include "vt.h"
#include <pdfmm/base/PdfEncrypt.h>
#include <pdfmm/base/PdfStreamDevice.h>
#include <openssl/md5.h>
#include <openssl/evp.h>
#include <map>
using namespace mm; using std::string;
// b:<alg>:<bits>:<how>:<num>:<gen>:<seed>:<n>             buffers: encrypted data against an independent computation; decrypted again; how: 0 created, 1 user, 2 owner password, 3 copied
// s:<alg>:<bits>:<how>:<num>:<gen>:<seed>:<n>:<chunk>     input stream over data that goes on behind, chunk 0 = pieces of any size; o: output stream (RC4)
// g:<alg>:<num>:<seed>:<n>                             data that was not encrypted properly: no invalid access, the errors of the library only
static const PdfEncryptAlgorithm ALGS[] = { PdfEncryptAlgorithm::RC4V1, PdfEncryptAlgorithm::RC4V2, PdfEncryptAlgorithm::AESV2, PdfEncryptAlgorithm::AESV3, PdfEncryptAlgorithm::AESV3R6 };
static PdfEncrypt& handler(int alg, int bits, int how) {
    static std::map<std::tuple<int, int, int>, std::unique_ptr<PdfEncrypt>> made; auto& h = made[{ alg, bits, how }]; if (h) return *h;
    PdfString id = PdfString::FromRaw("an identifier...");
    if (how == 0) { h = PdfEncrypt::Create("user", "owner", PdfPermissions::Default, ALGS[alg], (PdfKeyLength)bits); h->GenerateEncryptionKey(id); return *h; }
    if (how == 3) { h = PdfEncrypt::CreateFromEncrypt(handler(alg, bits, 0)); return *h; }
    PdfDictionary d; handler(alg, bits, 0).CreateEncryptionDictionary(d); PdfObject o(d); h = PdfEncrypt::CreateFromObject(o);
    if (!h->Authenticate(how == 1 ? "user" : "owner", id)) vt::fail("password rejected");
    return *h; }
static string bytes(uint64_t seed, size_t n) { vt::Rng r(seed); return seed == 0 ? string(n, '\x10') : seed == 1 ? string(n, 0) : r.bytes(n); }
static string rc4(const string& key, const string& d) { unsigned char S[256]; for (int i = 0; i < 256; i++) S[i] = (unsigned char)i; for (int i = 0, j = 0; i < 256; i++) { j = (j + S[i] + (unsigned char)key[i % key.size()]) & 255; std::swap(S[i], S[j]); }
    string o; int a = 0, b = 0; for (char c : d) { a = (a + 1) & 255; b = (b + S[a]) & 255; std::swap(S[a], S[b]); o += (char)(c ^ S[(S[a] + S[b]) & 255]); } return o; }
static string objkey(const PdfEncrypt& h, int alg, unsigned num, unsigned gen) {
    int n = h.m_keyLength; string k((const char*)h.m_encryptionKey, n); if (alg >= 3) return k;
    for (int i = 0; i < 3; i++) k += (char)(num >> 8 * i); for (int i = 0; i < 2; i++) k += (char)(gen >> 8 * i); if (alg == 2) k += "sAlT";
    unsigned char md[16]; MD5((const unsigned char*)k.data(), k.size(), md); return string((char*)md, std::min(n + 5, 16)); }
static string aes(const string& key, const string& iv, const string& in) { // one block after the other, chained here
    EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(c, key.size() == 16 ? EVP_aes_128_ecb() : EVP_aes_256_ecb(), nullptr, (const unsigned char*)key.data(), nullptr); EVP_CIPHER_CTX_set_padding(c, 0);
    size_t pad = 16 - in.size() % 16; string d = in + string(pad, (char)pad), prev = iv, out; unsigned char b[32]; int l;
    for (size_t i = 0; i < d.size(); i += 16) { string x(16, 0); for (int j = 0; j < 16; j++) x[j] = d[i + j] ^ prev[j]; EVP_EncryptUpdate(c, b, &l, (const unsigned char*)x.data(), 16); prev.assign((char*)b, 16); out += prev; }
    EVP_CIPHER_CTX_free(c); return out; }
static string cipher(PdfEncrypt& h, int alg, PdfReference ref, const string& iv, const string& d) { string k = objkey(h, alg, ref.ObjectNumber(), ref.GenerationNumber()); return alg < 2 ? rc4(k, d) : iv + aes(k, iv, d); }
static void buffers(int alg, int bits, int how, PdfReference ref, const string& d) {
    auto& h = handler(alg, bits, how); charbuff c, p;
    std::unique_ptr<char[]> in(new char[d.size() ? d.size() : 1]); memcpy(in.get(), d.data(), d.size());
    h.EncryptTo(c, { in.get(), d.size() }, ref); string iv = alg < 2 ? "" : c.substr(0, 16), w = cipher(h, alg, ref, iv, d);
    if (c != w) { vt::fail("encrypted as %s instead of %s", vt::hex(c).c_str(), vt::hex(w).c_str()); return; }
    if (h.CalculateStreamLength(d.size()) != c.size()) vt::fail("predicted length %zu, real %zu", h.CalculateStreamLength(d.size()), c.size());
    for (int by = 0; by < 4; by++) { auto& g = handler(alg, bits, by); std::unique_ptr<char[]> e(new char[c.size() ? c.size() : 1]); memcpy(e.get(), c.data(), c.size()); g.DecryptTo(p, { e.get(), c.size() }, ref); if (p != d) vt::fail("decrypted as %zu bytes instead of %zu, or others (%d)", p.size(), d.size(), by); } }
static void streams(char kind, int alg, int bits, int how, PdfReference ref, const string& d, size_t chunk, uint64_t seed) {
    auto& h = handler(alg, bits, how); vt::Rng r(seed + 99); string iv = alg < 2 ? "" : vt::Rng(seed + 3).bytes(16);
    if (kind == 'o') { string w = cipher(h, alg, ref, iv, d); charbuff to; StringStreamDevice dev(to); { std::unique_ptr<OutputStream> o;
            try { o = h.CreateEncryptionOutputStream(dev, ref); } catch (PdfError&) { if (alg < 2) vt::fail("no output stream"); return; }
            if (alg >= 2) { vt::fail("output stream for AES"); return; }
            for (size_t p = 0; p < d.size();) { size_t n = std::min(d.size() - p, chunk ? chunk : (size_t)r.below(40)); o->Write({ d.data() + p, n }); p += n; } }
        if (to != w) vt::fail("written as %s instead of %s", vt::hex(to).c_str(), vt::hex(w).c_str()); return; }
    string c = cipher(h, alg, ref, iv, d), all = c + "what follows the data"; SpanStreamDevice dev(all.data(), all.size()); auto in = h.CreateEncryptionInputStream(dev, c.size(), ref); string out; bool eof = false; int idle = 0;
    while (!eof) { size_t n = chunk ? chunk : 1 + r.below(50); std::unique_ptr<char[]> b(new char[n]); size_t k = in->Read(b.get(), n, eof); if (k > n) { vt::fail("%zu bytes for %zu", k, n); return; } out.append(b.get(), k); if (k < n && !eof) { vt::fail("fewer bytes than asked for before the end"); return; } idle = k ? 0 : idle + 1; if (idle > 3) { vt::fail("no progress"); return; } }
    if (out != d) vt::fail("read %zu bytes instead of %zu, or others", out.size(), d.size()); }
static void garbage(int alg, PdfReference ref, const string& d) {
    auto& h = handler(alg, 128, 0); charbuff p; std::unique_ptr<char[]> e(new char[d.size() ? d.size() : 1]); memcpy(e.get(), d.data(), d.size());
    try { h.DecryptTo(p, { e.get(), d.size() }, ref); if (p.size() > d.size()) vt::fail("more than the data"); } catch (PdfError&) { if (alg < 2) vt::fail("RC4 data rejected"); }
    SpanStreamDevice dev(e.get(), d.size()); 
    try { auto in = h.CreateEncryptionInputStream(dev, d.size(), ref); bool eof = false; size_t total = 0; int calls = 0; char b[37]; while (!eof && calls++ < 2000) total += in->Read(b, 1 + calls % 37, eof); if (!eof) vt::fail("no end"); if (total > d.size()) vt::fail("more than the data"); } catch (PdfError&) {} 
    charbuff q, c; q.assign("again"); h.EncryptTo(c, q, ref); h.DecryptTo(p, c, ref); if (p != q) vt::fail("a failure changes what follows"); }
void vt_case(const string& c) {
    auto v = vt::split(c); auto I = [&](size_t i) { return std::stoull(v[i]); };
    if (v[0] == "g") { garbage((int)I(1), PdfReference((uint32_t)I(2), 0), bytes(I(3), I(4))); return; }
    PdfReference ref((uint32_t)I(4), (uint16_t)I(5));
    if (v[0] == "b") buffers((int)I(1), (int)I(2), (int)I(3), ref, bytes(I(6), I(7))); else streams(v[0][0], (int)I(1), (int)I(2), (int)I(3), ref, bytes(I(6), I(7)), I(8), I(6)); }
void vt_run(int depth, vt::Rng& rng) {
    auto bitsof = [&](int alg) { return alg == 0 ? 40 : alg == 1 ? 40 + 8 * (int)rng.below(12) : alg == 2 ? 128 : 256; };
    static const unsigned nums[] = { 0, 1, 255, 256, 65535, 65536, 70001, 8388607, 0x123456 }; static const unsigned gens[] = { 0, 1, 255, 256, 65535 };
    auto ref = [&]() { return std::to_string(nums[rng.below(9)]) + ":" + std::to_string(gens[rng.below(5)]); };
    for (int alg = 0; alg < 5; alg++) for (int n = 0; n < 70; n++) for (int s = 0; s < 3; s++) vt::go("b:" + std::to_string(alg) + ":" + std::to_string(bitsof(alg)) + ":" + std::to_string(rng.below(4)) + ":" + ref() + ":" + std::to_string(s) + ":" + std::to_string(n));
    for (int bits = 40; bits <= 128; bits += 8) for (unsigned n : nums) for (unsigned g : gens) vt::go("b:1:" + std::to_string(bits) + ":" + std::to_string(rng.below(4)) + ":" + std::to_string(n) + ":" + std::to_string(g) + ":5:20");
    for (int alg = 0; alg < 5; alg++) for (int n : { 0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 49, 100, 300 }) for (int ch : { 0, 1, 2, 3, 7, 15, 16, 17, 31, 32, 33, 64, 1000 }) for (const char* k : { "s", "o" }) vt::go(string(k) + ":" + std::to_string(alg) + ":" + std::to_string(bitsof(alg)) + ":" + std::to_string(rng.below(4)) + ":" + ref() + ":" + std::to_string(2 + rng.below(1000)) + ":" + std::to_string(n) + ":" + std::to_string(ch));
    for (int alg = 0; alg < 5; alg++) for (int n = 0; n < 80; n++) vt::go("g:" + std::to_string(alg) + ":7:" + std::to_string(n % 5 + rng.below(3) * 100) + ":" + std::to_string(n));
    for (int i = 0; i < (depth ? 40000 : 1500); i++) { int alg = (int)rng.below(5); size_t n = rng.chance(10) ? rng.below(20000) : rng.below(300); string p = std::to_string(alg) + ":" + std::to_string(bitsof(alg)) + ":" + std::to_string(rng.below(4)) + ":" + ref() + ":" + std::to_string(rng.next() >> 20) + ":" + std::to_string(n);
        if (rng.chance(40)) vt::go("b:" + p); else vt::go((rng.chance(70) ? "s:" : "o:") + p + ":" + std::to_string(rng.chance(60) ? 0 : 1 + rng.below(5000))); } }
