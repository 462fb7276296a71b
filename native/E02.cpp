#include "vt.h"
#include <pdfmm/base/PdfEncrypt.h>
#include <openssl/md5.h>
#include <openssl/sha.h>
#include <openssl/evp.h>
using namespace mm; using std::string;
// k:<alg>:<bits>:<perm>:<user hex>:<owner hex>:<id hex>:<meta>   created handler: every entry against an independent computation; dictionary; which passwords open it
// q:<perm>:<alg>                                    permission queries of created handlers, of read dictionaries and of copies
// n:<alg>:<bits>:<seed>:<entry>:<bit>           one bit of a stored entry changed
// d:<alg>:<what>:<n>                              dictionaries with missing, short or unusable entries
static const PdfEncryptAlgorithm ALGS[] = { PdfEncryptAlgorithm::RC4V1, PdfEncryptAlgorithm::RC4V2, PdfEncryptAlgorithm::AESV2, PdfEncryptAlgorithm::AESV3, PdfEncryptAlgorithm::AESV3R6 };
static string md5(const string& d) { unsigned char o[16]; MD5((const unsigned char*)d.data(), d.size(), o); return string((char*)o, 16); }
static string sha(int n, const string& d) { unsigned char o[64]; auto p = (const unsigned char*)d.data(); n == 32 ? SHA256(p, d.size(), o) : n == 48 ? SHA384(p, d.size(), o) : SHA512(p, d.size(), o); return string((char*)o, n); }
static string rc4(const string& key, const string& d) { unsigned char S[256]; for (int i = 0; i < 256; i++) S[i] = (unsigned char)i; for (int i = 0, j = 0; i < 256; i++) { j = (j + S[i] + (unsigned char)key[i % key.size()]) & 255; std::swap(S[i], S[j]); }
    string o; int a = 0, b = 0; for (char c : d) { a = (a + 1) & 255; b = (b + S[a]) & 255; std::swap(S[a], S[b]); o += (char)(c ^ S[(S[a] + S[b]) & 255]); } return o; }
static string aes(const string& key, string prev, const string& d) { EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(c, key.size() == 16 ? EVP_aes_128_ecb() : EVP_aes_256_ecb(), nullptr, (const unsigned char*)key.data(), nullptr); EVP_CIPHER_CTX_set_padding(c, 0);
    string out; unsigned char b[32]; int l; for (size_t i = 0; i < d.size(); i += 16) { string x(16, 0); for (int j = 0; j < 16; j++) x[j] = d[i + j] ^ prev[j]; EVP_EncryptUpdate(c, b, &l, (const unsigned char*)x.data(), 16); prev.assign((char*)b, 16); out += prev; }
    EVP_CIPHER_CTX_free(c); return out; }
static string pad(const string& p) { static const unsigned char P[33] = "\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A"; return (p + string((const char*)P, 32)).substr(0, 32); }
static string xorred(string k, int i) { for (auto& c : k) c = (char)(c ^ i); return k; }
static string le4(uint32_t v) { string s; for (int i = 0; i < 4; i++) s += (char)(v >> 8 * i); return s; }
static string hash(bool r6, const string& pw, const string& salt, const string& u) {
    string K = sha(32, pw + salt + u); if (!r6) return K;
    for (int round = 0;;) { string K1; for (int i = 0; i < 64; i++) K1 += pw + K + u; string E = aes(K.substr(0, 16), K.substr(16, 16), K1); int rem = 0; for (int i = 0; i < 16; i++) rem = (rem * 256 + (unsigned char)E[i]) % 3; K = sha(32 + 16 * rem, E);
        round++; if (round >= 64 && (unsigned char)E.back() <= round - 32) return K.substr(0, 32); } }
struct Keys { string O, U, key; };
static Keys keys(int rev, int n, const string& user, const string& owner, uint32_t P, const string& id, bool meta) {
    Keys k; string h = md5(pad(owner.empty() ? user : owner)); if (rev >= 3) for (int i = 0; i < 50; i++) h = md5(h.substr(0, n)); h = h.substr(0, n); k.O = pad(user); for (int i = 0; i < (rev >= 3 ? 20 : 1); i++) k.O = rc4(xorred(h, i), k.O);
    k.key = md5(pad(user) + k.O + le4(P) + id + (rev >= 4 && !meta ? string(4, '\xff') : "")); if (rev >= 3) for (int i = 0; i < 50; i++) k.key = md5(k.key.substr(0, n)); k.key.resize(n);
    if (rev == 2) k.U = rc4(k.key, pad("")); else { k.U = md5(pad("") + id); for (int i = 0; i < 20; i++) k.U = rc4(xorred(k.key, i), k.U); } return k; }
static string mem(const unsigned char* p, size_t n) { return string((const char*)p, n); }
static uint32_t pvalue(uint32_t perm) { return 0xFFFFF0C0u | perm; }
static bool opens(const string& pw, int alg, const string& user, const string& owner) { if (alg >= 3) return pw.substr(0, 127) == user.substr(0, 127) || pw.substr(0, 127) == owner.substr(0, 127); return pad(pw) == pad(user) || pad(pw) == pad(owner.empty() ? user : owner); }
static void queries(const PdfEncrypt& h, uint32_t P, const char* what) {
    struct { bool got; uint32_t bit; } q[] = { { h.IsPrintAllowed(), 1u << 2 }, { h.IsEditAllowed(), 1u << 3 }, { h.IsCopyAllowed(), 1u << 4 }, { h.IsEditNotesAllowed(), 1u << 5 }, { h.IsFillAndSignAllowed(), 1u << 8 }, { h.IsAccessibilityAllowed(), 1u << 9 }, { h.IsDocAssemblyAllowed(), 1u << 10 }, { h.IsHighPrintAllowed(), 1u << 11 } };
    if ((uint32_t)h.GetPValue() != P) vt::fail("permissions %08x instead of %08x (%s)", (unsigned)h.GetPValue(), P, what);
    for (auto& e : q) if (e.got != ((P & e.bit) != 0)) vt::fail("query of bit %x wrong for %08x (%s)", e.bit, P, what); }
static void created(int alg, int bits, uint32_t perm, const string& user, const string& owner, const string& id, bool meta) {
    auto h = PdfEncrypt::Create(user, owner, (PdfPermissions)perm, ALGS[alg], (PdfKeyLength)bits); if (!meta) h->m_EncryptMetadata = false; if (!meta && alg == 1) h->m_rValue = 4;
    PdfString ids = PdfString::FromRaw(id); h->GenerateEncryptionKey(ids); uint32_t P = pvalue(perm); queries(*h, P, "created");
    int n = alg == 0 ? 5 : alg == 1 ? bits / 8 : alg == 2 ? 16 : 32, rev = alg == 0 ? 2 : alg == 1 ? (meta ? 3 : 4) : alg == 2 ? 4 : alg + 2; string key = mem(h->m_encryptionKey, n), O = mem(h->m_oValue, 48), U = mem(h->m_uValue, 48);
    if (h->GetKeyLength() * 8 != n * 8 && h->m_keyLength != n) vt::fail("key length");
    if (alg < 3) { Keys k = keys(rev, n, user, owner, P, id, meta); if (O.substr(0, 32) != k.O) vt::fail("owner entry"); if (key != k.key) vt::fail("file key %s instead of %s", vt::hex(key).c_str(), vt::hex(k.key).c_str()); if (U.substr(0, k.U.size()) != k.U) vt::fail("user entry"); }
    else { auto& s = static_cast<PdfEncryptSHABase&>(*h); bool r6 = alg == 4; string u = user.substr(0, 127), o = owner.substr(0, 127), zero(16, 0);
        if (U.substr(0, 32) != hash(r6, u, U.substr(32, 8), "")) vt::fail("user entry"); if (mem(s.m_ueValue, 32) != aes(hash(r6, u, U.substr(40, 8), ""), zero, key)) vt::fail("key encrypted for the user");
        if (O.substr(0, 32) != hash(r6, o, O.substr(32, 8), U)) vt::fail("owner entry"); if (mem(s.m_oeValue, 32) != aes(hash(r6, o, O.substr(40, 8), U), zero, key)) vt::fail("key encrypted for the owner");
        string p = le4(P) + string(4, '\xff') + (meta ? "T" : "F") + "adb"; bool ok = false; string w = p + string(4, 0); ok = mem(s.m_permsValue, 16) == aes(key, zero, w); if (!ok) vt::fail("encrypted permissions"); }
    PdfDictionary d; h->CreateEncryptionDictionary(d); PdfObject obj(d); auto copy = PdfEncrypt::CreateFromEncrypt(*h); queries(*copy, P, "copied"); if (mem(copy->m_encryptionKey, n) != key || mem(copy->m_uValue, 32) != U.substr(0, 32) || mem(copy->m_oValue, 32) != O.substr(0, 32)) vt::fail("copy differs");
    std::vector<string> pws = { user, owner, "", "x", user + "x", owner + "x", user.substr(0, user.size() / 2), "User", user + pad("").substr(0, 5) };
    for (const string& b : { user, owner }) for (size_t at : { (size_t)0, b.size() / 2, b.size() - 1 }) if (at < b.size()) { string w = b; w[at] = w[at] == 'z' ? 'y' : (char)((w[at] & 0x80) ? w[at] : 'z'); pws.push_back(w); }
    if (alg >= 3) for (auto& w : pws) for (auto& c : w) if ((unsigned char)c >= 0x80 || (unsigned char)c < 0x20 || c == 0x7f) c = 'c';
    int at = 0; for (auto& w : pws) { auto e = PdfEncrypt::CreateFromObject(obj); if (e->GetEncryptAlgorithm() != ALGS[alg]) vt::fail("read as another algorithm"); queries(*e, P, "read"); bool got = e->Authenticate(w, ids), want = opens(w, alg, user, owner);
        if (got != want) { vt::fail("password %d (%s) %s", at, vt::hex(w).c_str(), got ? "accepted" : "rejected"); continue; }
        if (got && mem(e->m_encryptionKey, n) != key) vt::fail("another key after password %d", at);
        if (want) { if (opens(w, alg, user, user) ? e->m_userPass != w : e->m_ownerPass != w) vt::fail("password not recorded"); if (e->Authenticate(w + "-other-", ids) != opens(w + "-other-", alg, user, owner)) vt::fail("wrong password after the right one"); if (!e->Authenticate(w, ids) || mem(e->m_encryptionKey, n) != key) vt::fail("right password after a wrong one"); }
        at++; } }
static PdfObject dict(int alg, int bits, const string& id) { auto h = PdfEncrypt::Create("user", "owner", PdfPermissions::Print, ALGS[alg], (PdfKeyLength)bits); h->GenerateEncryptionKey(PdfString::FromRaw(id)); PdfDictionary d; h->CreateEncryptionDictionary(d); return PdfObject(d); }
static void changed(int alg, int bits, unsigned entry, unsigned bit) {
    static const char* NAMES[] = { "U", "O", "UE", "OE" }; string id = "0123456789abcdef"; PdfObject o = dict(alg, bits, id); string key0; { auto e = PdfEncrypt::CreateFromObject(o); if (!e->Authenticate("user", PdfString::FromRaw(id))) vt::fail("unchanged"); key0 = mem(e->m_encryptionKey, e->m_keyLength); }
    auto& d = o.GetDictionary(); string v = d.GetKey(NAMES[entry])->GetString().GetRawData(); v[bit / 8] = (char)(v[bit / 8] ^ (1 << bit % 8)); d.AddKey(NAMES[entry], PdfString::FromRaw(v)); unsigned at = bit / 8;
    for (bool asUser : { true, false }) { auto e = PdfEncrypt::CreateFromObject(o); bool got = e->Authenticate(asUser ? "user" : "owner", PdfString::FromRaw(id)), want, same = true;
        if (alg < 3) want = entry == 0 && at >= 16 && alg > 0;
        else if (entry == 0) want = asUser && at >= 40; else if (entry == 1) want = asUser || at >= 40; else want = true;
        if (alg >= 3) same = asUser ? !(entry == 0 || entry == 2) : !(entry == 1 || entry == 3);
        if (got != want) vt::fail("%s password %s", asUser ? "user" : "owner", got ? "accepted" : "rejected"); if (got && (mem(e->m_encryptionKey, e->m_keyLength) == key0) != same) vt::fail("key"); } }
static void dictionaries(int alg, int what, int64_t n) {
    static const char* NAMES[] = { "Filter", "V", "R", "O", "U", "P", "OE", "UE", "Perms" }; PdfObject o = dict(alg, 128, "id"); auto& d = o.GetDictionary(); bool bad = true;
    if (what < 9) { if (!d.HasKey(NAMES[what])) return; d.RemoveKey(NAMES[what]); }
    else if (what < 15) { static const char* S[] = { "O", "U", "OE", "UE", "Perms" }; static const size_t L[] = { 32, 32, 32, 32, 16 }; unsigned w = (unsigned)(what - 9) % 5; if (!d.HasKey(S[w])) return; d.AddKey(S[w], PdfString::FromRaw(string((size_t)n, 'a'))); bad = (size_t)n < (w < 2 && alg >= 3 ? 48 : L[w]); }
    else if (what == 15) { if (alg != 1) return; d.AddKey("Length", PdfVariant(n)); bad = n < 40 || n > 128 || n % 8; }
    else if (what == 16) { d.AddKey("Filter", PdfName("Other")); }
    else if (what == 17) { int v = (int)n; d.AddKey("V", PdfVariant((int64_t)v)); if (alg != 0) return; bad = !(v == 1); if (v == 2 || v == 4 || v == 5) return; }
    else if (what == 18) { d.AddKey("R", PdfVariant(n)); bad = alg == 0 ? n != 2 && n != 3 : alg == 1 ? n != 3 : alg == 2 ? n != 4 : n != 5 && n != 6; }
    else if (what == 19) { d.AddKey("P", PdfName("NoNumber")); } else if (what == 20) { d.AddKey("U", PdfVariant(n)); }
    try { auto e = PdfEncrypt::CreateFromObject(o); if (bad) { vt::fail("accepted"); return; } (void)e->Authenticate("user", PdfString::FromRaw("id")); (void)e->Authenticate("none", PdfString::FromRaw("")); PdfDictionary again; e->CreateEncryptionDictionary(again); } catch (PdfError&) { if (!bad) vt::fail("rejected"); } }
void vt_case(const string& c) {
    auto v = vt::split(c); auto I = [&](size_t i) { return std::stoll(v[i]); };
    if (v[0] == "k") created((int)I(1), (int)I(2), (uint32_t)I(3), vt::unhex(v[4]), vt::unhex(v[5]), vt::unhex(v[6]), I(7) != 0);
    else if (v[0] == "n") changed((int)I(1), (int)I(2), (unsigned)I(4), (unsigned)I(5)); else if (v[0] == "d") dictionaries((int)I(1), (int)I(2), I(3));
    else { uint32_t P = (uint32_t)I(1); PdfObject o = dict((int)I(2), 128, "id"); o.GetDictionary().AddKey("P", PdfVariant((int64_t)(int32_t)P)); auto e = PdfEncrypt::CreateFromObject(o); queries(*e, P, "read"); queries(*PdfEncrypt::CreateFromEncrypt(*e), P, "copied"); } }
void vt_run(int depth, vt::Rng& rng) {
    auto H = [](const string& s) { return vt::hex(s); };
    static const uint32_t BITS[] = { 4, 8, 16, 32, 256, 512, 1024, 2048 };
    for (int m = 0; m < 256; m++) { uint32_t p = 0; for (int b = 0; b < 8; b++) if (m >> b & 1) p |= BITS[b]; vt::go("q:" + std::to_string(p) + ":" + std::to_string(m % 3)); vt::go("q:" + std::to_string(0xFFFFF0C0u | p) + ":" + std::to_string(m % 3)); }
    for (int i = 0; i < 100; i++) vt::go("q:" + std::to_string((uint32_t)rng.next()) + ":" + std::to_string(i % 16 ? i % 3 : 3));
    for (int alg = 0; alg < 5; alg++) for (int w = 0; w < 21; w++) { if (w < 9 || w == 16 || w == 19 || w == 20) vt::go("d:" + std::to_string(alg) + ":" + std::to_string(w) + ":0"); else for (int n : { -1, 0, 1, 2, 3, 4, 5, 6, 7, 15, 16, 31, 32, 33, 39, 40, 44, 47, 48, 49, 56, 64, 100, 120, 127, 128, 129, 136, 256, 1000000 }) { if (w < 15 && (n < 0 || n > 200)) continue; vt::go("d:" + std::to_string(alg) + ":" + std::to_string(w) + ":" + std::to_string(n)); } }
    for (int alg = 0; alg < 5; alg++) for (unsigned e = 0; e < (alg >= 3 ? 4u : 2u); e++) { unsigned size = alg >= 3 ? (e < 2 ? 48 : 32) : 32; for (unsigned b = 0; b < size * 8; b += alg >= 3 ? (depth ? 1 : alg == 4 ? 17 : 5) : 1) vt::go("n:" + std::to_string(alg) + ":" + (alg == 1 ? "40" : "128") + ":0:" + std::to_string(e) + ":" + std::to_string(b)); }
    auto pw = [&](int alg) { string s; size_t n = rng.chance(15) ? 0 : rng.chance(10) ? 31 + rng.below(3) : rng.chance(5) ? 120 + rng.below(20) : rng.below(20); for (size_t i = 0; i < n; i++) s += alg < 3 ? (char)(rng.next() >> 9) : (char)(0x21 + rng.below(94)); return s; };
    auto k = [&](int alg, int bits, bool meta) { uint32_t p = 0; for (uint32_t b : BITS) if (rng.chance(60)) p |= b; string u = pw(alg), o = rng.chance(10) ? u : pw(alg); vt::go("k:" + std::to_string(alg) + ":" + std::to_string(bits) + ":" + std::to_string(p) + ":" + H(u) + ":" + H(o) + ":" + H(rng.bytes(rng.chance(50) ? 16 : rng.below(60))) + ":" + (meta ? "1" : "0")); };
    for (int bits = 40; bits <= 128; bits += 8) for (int i = 0; i < 12; i++) k(1, bits, i % 3 != 0);
    for (const char* u : { "", "user" }) for (const char* o : { "", "owner", "user" }) for (int alg = 0; alg < 5; alg++) vt::go("k:" + std::to_string(alg) + ":128:0:" + H(u) + ":" + H(o) + "::1");
    for (int i = 0; i < (depth ? 4000 : 120); i++) { k(0, 40, true); k(2, 128, true); k(2, 128, false); k(3, 256, true); if (depth || i % 6 == 0) k(4, 256, true); }
}
