#include "vt.h"
#include <pdfmm/private/PdfDeclarationsPrivate.h>
#include <pdfmm/base/PdfNameTree.h>
#include <pdfmm/base/PdfOutlines.h>
using namespace mm;
// nest:<limit>:<shape>:<levels>     hist:<limit>:<seed>     shape: string of a (array) / d (dictionary), repeated
static int parse(const std::string& s, size_t* used = nullptr) {   // 0 read, 1 refused for its depth, 2 other error
    try { SpanStreamDevice in(bufferview(s.data(), s.size())); PdfTokenizer t; PdfVariant v; t.ReadNextVariant(in, v, { }); if (used) *used = in.GetPosition(); return 0; }
    catch (PdfError& e) { return e.GetError() == PdfErrorCode::InvalidXRef ? 1 : 2; } }
static std::string nest(const std::string& shape, size_t levels, bool leaf = true) {   // levels counts the leaf
    std::string a, z; for (size_t i = 0; i + 1 < levels; i++) { if (shape[i % shape.size()] == 'a') { a += "["; z += "]"; } else { a += "<</K "; z += ">>"; } }
    return a + "7 " + std::string(z.rbegin(), z.rend()); }
static void probe(unsigned lim, const char* when) {
    for (const char* sh : { "a", "d" }) { int r = parse(nest(sh, lim)); if (r) vt::fail("%s, %u levels (limit %u) of %s are not read (%d)", when, lim, lim, sh, r);
        r = parse(nest(sh, lim + 1)); if (r != 1) vt::fail("%s, %u levels of %s are not refused with the limit %u (%d)", when, lim + 1, sh, lim, r); } }
static PdfReference newDict(PdfMemDocument& d, PdfObject*& o) { o = &d.GetObjects().CreateDictionaryObject(); return o->GetIndirectReference(); }
static std::string prevChain(int n, bool cyc) {   // a file with n cross-reference sections chained by /Prev
    std::string f = "%PDF-1.4\n"; size_t o1 = f.size(); f += "1 0 obj\n<</Type/Catalog/Pages 2 0 R>>\nendobj\n"; size_t o2 = f.size(); f += "2 0 obj\n<</Type/Pages/Kids[]/Count 0>>\nendobj\n";
    size_t prev = 0; char b[200];
    for (int i = 0; i < n; i++) { size_t at = f.size(); snprintf(b, sizeof b, "xref\n0 3\n0000000000 65535 f \n%010zu 00000 n \n%010zu 00000 n \ntrailer\n<</Size 3/Root 1 0 R", o1, o2); f += b; if (prev || (cyc && i == 0)) f += "/Prev " + std::to_string(prev ? prev : 20); f += ">>\n"; prev = at; }
    return f + "startxref\n" + std::to_string(prev) + "\n%%EOF\n"; }
static void structure(vt::Rng& r, unsigned lim, std::string& log) {
    int k = r.below(6); log = std::to_string(k);
    if (k == 5) { int n = r.below(3) ? 2 + r.below(8) : lim / 2 + r.below(lim + 4); auto f = prevChain(n, r.chance(50)); PdfMemDocument d; d.LoadFromBuffer(bufferview(f.data(), f.size())); return; }
    PdfMemDocument d; PdfObject *a, *b, *c; size_t n = r.chance(40) ? 3 : lim + r.below(4);
    if (k == 0) {          // outlines: a chain of n items, or one that closes on itself
        newDict(d, a); PdfObject* cur = a; bool cyc = r.chance(50); for (size_t i = 0; i < n; i++) { newDict(d, b); cur->GetDictionary().AddKey(r.chance(50) ? "Next" : "First", b->GetIndirectReference()); cur = b; }
        if (cyc) cur->GetDictionary().AddKey("Next", a->GetIndirectReference());
        PdfOutlines o(*a); if (cyc) vt::fail("a cyclic outline is accepted"); if (n + 1 > lim) vt::fail("an outline of %zu levels is accepted with the limit %u", n + 1, lim); }
    else if (k == 1) {     // name trees
        auto& cat = d.GetCatalog().GetDictionary(); newDict(d, a); newDict(d, b); cat.AddKey("Names", a->GetIndirectReference()); a->GetDictionary().AddKey("Dests", b->GetIndirectReference()); bool cyc = r.chance(50); PdfObject* cur = b;
        for (size_t i = 0; i < n; i++) { newDict(d, c); PdfArray kids; kids.Add(c->GetIndirectReference()); cur->GetDictionary().AddKey("Kids", kids); cur = c; }
        if (cyc) { PdfArray kids; kids.Add(b->GetIndirectReference()); cur->GetDictionary().AddKey("Kids", kids); } else { PdfArray names; names.Add(PdfString("a")); names.Add((int64_t)1); cur->GetDictionary().AddKey("Names", names); }
        PdfNameTree t(*a); PdfDictionary out; t.ToDictionary("Dests", out); if (cyc) vt::fail("a cyclic name tree is accepted"); if (n + 1 > lim) vt::fail("a name tree of %zu levels is accepted with the limit %u", n + 1, lim); }
    else if (k == 2) {     // page trees
        newDict(d, a); a->GetDictionary().AddKey("Type", PdfName("Pages")); PdfObject* cur = a; for (size_t i = 0; i < n; i++) { newDict(d, b); b->GetDictionary().AddKey("Type", PdfName("Pages")); PdfArray kids; kids.Add(b->GetIndirectReference()); cur->GetDictionary().AddKey("Kids", kids); cur->GetDictionary().AddKey("Count", (int64_t)1); cur = b; }
        newDict(d, c); c->GetDictionary().AddKey("Type", PdfName("Page")); PdfArray kids; kids.Add(c->GetIndirectReference()); cur->GetDictionary().AddKey("Kids", kids); cur->GetDictionary().AddKey("Count", (int64_t)1);
        PdfPageCollection pages(*a); PdfPageCollection::PdfObjectList par; auto pg = pages.getPageNode(0, *a, par); if (n + 1 > lim) vt::fail("a page tree of %zu levels is accepted with the limit %u", n + 1, lim); if (pg != c) vt::fail("another page is found"); }
    else { std::string in; size_t m = r.below(3) ? r.below(20) : lim - 2 + r.below(6); std::string sh = r.from("ad", 1 + r.below(4));
        in = nest(sh, m + 1); if (k == 3) in = in.substr(0, r.below(in.size() + 1)); else { in[r.below(in.size())] = "()>]{}x/ <"[r.below(10)]; } parse(in); } }
void vt_case(const std::string& c) {
    auto p = vt::split(c); unsigned lim = (unsigned)strtoul(p[1].c_str(), 0, 10); unsigned was = utls::RecursionGuard::GetMaxRecursionDepth();
    struct R { unsigned w; ~R() { utls::RecursionGuard::SetMaxRecursionDepth(w); } } restore{ was };
    utls::RecursionGuard::SetMaxRecursionDepth(lim); if (utls::RecursionGuard::GetMaxRecursionDepth() != lim) vt::fail("the limit is not set");
    if (p[0] == "nest") { size_t n = strtoull(p[3].c_str(), 0, 10); int r = parse(nest(p[2], n)), w = n <= lim ? 0 : 1; if (r != w) vt::fail("%zu levels of %s with the limit %u give %d", n, p[2].c_str(), lim, r); probe(lim, "afterwards"); return; }
    vt::Rng r(strtoull(p[2].c_str(), 0, 10)); std::string log;
    for (int n = 1 + r.below(12); n--;) { std::string l; try { structure(r, lim, l); } catch (PdfError&) { } log += l; if (r.chance(30)) probe(lim, ("after " + log).c_str()); }
    probe(lim, ("after " + log).c_str()); }
void vt_run(int depth, vt::Rng& rng) {
    for (const char* sh : { "a", "d", "ad", "aad", "dda" }) { for (unsigned n : { 1, 2, 3, 254, 255, 256, 257, 258, 300, 512, 3000, 200000 }) vt::go(std::string("nest:256:") + sh + ":" + std::to_string(n));
        for (unsigned lim : { 1, 2, 3, 10, 100 }) for (unsigned n = lim > 2 ? lim - 2 : 1; n < lim + 4; n++) vt::go("nest:" + std::to_string(lim) + ":" + sh + ":" + std::to_string(n)); }
    for (int i = 0; i < (depth ? 20000 : 700); i++) vt::go("hist:" + std::to_string(i % 3 ? 20 + rng.below(30) : 256) + ":" + std::to_string(rng.below(1 << 30))); }
