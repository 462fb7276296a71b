#include "vt.h"
#include <map>
#include <set>
using namespace mm;
// hist:<seed>   many:<n>   append:<seed>   files:<seed>   gc:<seed>
typedef std::pair<uint32_t, uint32_t> Rf;
static Rf rf(const PdfReference& r) { return { r.ObjectNumber(), r.GenerationNumber() }; }
static PdfReference pr(Rf r) { return PdfReference(r.first, (uint16_t)r.second); }
struct Model {
    std::map<Rf, int64_t> obj; std::map<uint32_t, uint32_t> freed; std::set<uint32_t> un; std::map<uint32_t, uint32_t> last; bool reuse = true; int64_t id = 0;
    bool used(uint32_t n) const { auto it = obj.lower_bound({ n, 0 }); return it != obj.end() && it->first.first == n; }
    void fresh(Rf r, const char* how) {
        if (r.first == 0) vt::fail("%s gives object number 0", how);
        if (used(r.first)) vt::fail("%s gives %u %u which is in use", how, r.first, r.second);
        if (un.count(r.first)) vt::fail("%s gives %u %u which is unavailable", how, r.first, r.second);
        auto f = freed.find(r.first);
        if (f != freed.end()) { if (!reuse) vt::fail("%s reuses %u although not allowed", how, r.first); if (f->second != r.second) vt::fail("%s reuses %u with generation %u, freed with %u", how, r.first, r.second, f->second); freed.erase(f); }
        else if (last.count(r.first)) vt::fail("%s gives %u %u again", how, r.first, r.second);
        if (last.count(r.first) && r.second <= last[r.first] && last[r.first] != 0) vt::fail("%s gives generation %u after %u", how, r.second, last[r.first]);
        last[r.first] = r.second; }
    void release(Rf r, uint32_t g) { if (g >= 65535) un.insert(r.first); else freed[r.first] = g; } };
static void check(const PdfIndirectObjectList& l, const Model& m, const char* when) {
    if (l.GetSize() != m.obj.size()) vt::fail("%s: %u objects instead of %zu", when, l.GetSize(), m.obj.size());
    for (auto& p : m.obj) { auto o = l.GetObject(pr(p.first)); if (o == nullptr) vt::fail("%s: %u %u is not found", when, p.first.first, p.first.second);
        if (rf(o->GetIndirectReference()) != p.first || o->GetNumber() != p.second) vt::fail("%s: %u %u is another object", when, p.first.first, p.first.second);
        if (l.GetObject(PdfReference(p.first.first, (uint16_t)(p.first.second + 1))) != nullptr) vt::fail("%s: %u is found with another generation", when, p.first.first); }
    std::set<uint32_t> fs; for (auto& f : l.GetFreeObjects()) { if (!fs.insert(f.ObjectNumber()).second) vt::fail("%s: %u is free twice", when, f.ObjectNumber()); if (m.used(f.ObjectNumber())) vt::fail("%s: %u is free and in use", when, f.ObjectNumber()); } }
static void hist(uint64_t seed) {
    vt::Rng r(seed); PdfMemDocument doc; std::unique_ptr<PdfIndirectObjectList> l(new PdfIndirectObjectList(doc)); Model m; bool big = r.chance(30);
    auto pick = [&]() -> Rf { if (m.obj.empty() || r.chance(15)) return { 1 + r.below(12), r.below(3) }; auto it = m.obj.begin(); std::advance(it, r.below(m.obj.size())); Rf x = it->first; if (r.chance(15)) x.second++; return x; };
    auto unused = [&]() -> uint32_t { for (;;) { uint32_t n = big ? 65530 + r.below(70000) : 1 + r.below(40); if (!m.used(n) && !m.freed.count(n) && !m.un.count(n) && !m.last.count(n)) return n; if (r.chance(3)) return 200000 + r.below(100000); } };
    for (int n = 5 + r.below(60); n--;) {
        switch (r.below(12)) {
        case 0: case 1: case 2: { PdfObject* o; int64_t id = ++m.id; switch (r.below(3)) { case 0: { PdfObject x(id); o = &l->CreateObject(x); break; } case 1: o = &l->CreateObject(PdfObject(id)); break; default: o = r.chance(50) ? &l->CreateArrayObject() : &l->CreateDictionaryObject("T", "S"); *o = PdfObject(id); }
            Rf x = rf(o->GetIndirectReference()); m.fresh(x, "creating"); m.obj[x] = id; break; }
        case 3: case 4: { Rf x = pick(); bool had = m.obj.count(x); auto o = l->RemoveObject(pr(x)); if (had != (o != nullptr)) vt::fail("removing %u %u %s", x.first, x.second, had ? "finds nothing" : "finds another object");
            if (had) { if (o->GetNumber() != m.obj[x]) vt::fail("removing %u %u removes another object", x.first, x.second); m.obj.erase(x); m.last[x.first] = x.second; m.release(x, x.second + 1); } break; }
        case 5: { Rf x = pick(); bool had = m.obj.count(x); int64_t id = ++m.id; auto nw = new PdfObject(id); bool ok = true; std::unique_ptr<PdfObject> o; try { o = l->ReplaceObject(pr(x), nw); } catch (PdfError&) { ok = false; delete nw; }
            if (ok != had) vt::fail("replacing %u %u %s", x.first, x.second, had ? "fails" : "which does not exist succeeds"); if (had) { if (!o || o->GetNumber() != m.obj[x]) vt::fail("replacing %u %u hands out another object", x.first, x.second); m.obj[x] = id; } break; }
        case 6: { uint32_t k = unused(); uint32_t g = r.chance(20) ? 65534 - r.below(2) : r.below(4); int64_t id = ++m.id; auto o = new PdfObject(id); o->SetIndirectReference(PdfReference(k, (uint16_t)g)); l->PushObject(o); m.obj[{ k, g }] = id; m.last[k] = g; break; }
        case 7: { uint32_t k = unused(), g = r.chance(25) ? 65535 - r.below(3) : 1 + r.below(4); PdfReference x(k, (uint16_t)g); if (r.chance(50)) { bool ok = l->TryAddFreeObject(x); if (ok != (g < 65535)) vt::fail("declaring %u %u free returns %d", k, g, ok); m.release({ k, g }, g); } else { auto q = l->SafeAddFreeObject(x); if (q != (g + 1 < 65535 ? (int)g + 1 : -1)) vt::fail("freeing %u %u returns %d", k, g, q); m.release({ k, g }, g + 1); } m.last[k] = g > 1 ? g - 1 : 0; break; }
        case 8: { Rf x = pick(); bool had = m.obj.count(x); auto o = l->GetObject(pr(x)); if (had != (o != nullptr) || (had && o->GetNumber() != m.obj[x])) vt::fail("looking up %u %u", x.first, x.second);
            bool ok = true; try { l->MustGetObject(pr(x)); } catch (PdfError& e) { ok = false; if (e.GetError() != PdfErrorCode::NoObject) vt::fail("error"); } if (ok != had) vt::fail("MustGetObject %u %u", x.first, x.second); break; }
        case 9: if (r.chance(30)) { bool b = r.chance(60); l->SetCanReuseObjectNumbers(b); m.reuse = b; if (!b) { for (auto& f : m.freed) m.last[f.first] = f.second; m.freed.clear(); } } break;
        case 10: if (r.chance(25)) { l->Clear(); bool b = m.reuse; m = Model(); m.reuse = b; } else if (r.chance(40)) { l.reset(new PdfIndirectObjectList(doc, *l)); } break;
        default: { Rf x = pick(); if (!m.obj.count(x)) break; auto it = l->begin(); while (rf((*it)->GetIndirectReference()) != x) it++; auto o = l->RemoveObject(it); if (!o || o->GetNumber() != m.obj[x]) vt::fail("removing by iterator"); m.obj.erase(x); m.last[x.first] = x.second; m.release(x, x.second + 1); } }
        check(*l, m, "history"); } }
static void many(uint32_t n) {   // numbers beyond 16 bits
    PdfMemDocument doc; PdfIndirectObjectList l(doc); Model m; auto o = new PdfObject((int64_t)1); o->SetIndirectReference(PdfReference(n, 0)); l.PushObject(o); m.obj[{ n, 0 }] = 1; m.last[n] = 0;
    for (int i = 2; i < 6; i++) { auto& c = l.CreateObject(PdfObject((int64_t)i)); Rf x = rf(c.GetIndirectReference()); m.fresh(x, "creating"); m.obj[x] = i; } check(l, m, "many"); }
static void fill(PdfMemDocument& d, vt::Rng& r, std::map<Rf, int64_t>& mark, int64_t base) {
    auto& l = d.GetObjects(); std::vector<PdfReference> mine;
    for (int n = 2 + r.below(10); n--;) { int64_t id = base + n; auto& o = l.CreateObject(PdfObject(id)); mine.push_back(o.GetIndirectReference()); mark[rf(o.GetIndirectReference())] = id;
        if (r.chance(25)) { uint32_t k = l.GetObjectCount() + r.below(3); l.TryAddFreeObject(PdfReference(k, r.chance(60) ? 65535 : 1)); }
        if (r.chance(20)) l.TryIncrementObjectCount(PdfReference(l.GetObjectCount() + r.below(4), 0));
        if (r.chance(25) && mine.size() > 1) { auto x = mine[r.below(mine.size())]; if (mark.count(rf(x))) { l.RemoveObject(x); mark.erase(rf(x)); } } } }
static void append(uint64_t seed) {
    vt::Rng r(seed); PdfMemDocument a, b; std::map<Rf, int64_t> ma, mb; fill(a, r, ma, 1000); fill(b, r, mb, 5000);
    std::set<Rf> before; for (auto o : a.GetObjects()) before.insert(rf(o->GetIndirectReference())); size_t na = a.GetObjects().GetSize(), nb = b.GetObjects().GetSize();
    a.AppendDocumentPages(b);
    auto& l = a.GetObjects(); for (auto& p : ma) { auto o = l.GetObject(pr(p.first)); if (!o || !o->IsNumber() || o->GetNumber() != p.second) vt::fail("%u %u is lost or replaced after appending a document", p.first.first, p.first.second); }
    for (auto& x : before) if (!l.GetObject(pr(x))) vt::fail("%u %u is lost after appending", x.first, x.second);
    if (l.GetSize() < na + nb) vt::fail("%u objects after appending %zu to %zu", l.GetSize(), nb, na);
    std::multiset<int64_t> vals; for (auto o : l) if (o->IsNumber()) vals.insert(o->GetNumber()); for (auto& p : mb) if (vals.count(p.second) != 1) vt::fail("an appended object is missing");
    Model m; for (auto o : l) m.obj[rf(o->GetIndirectReference())] = 0; for (auto& f : l.GetFreeObjects()) m.freed[f.ObjectNumber()] = f.GenerationNumber();
    for (int i = 0; i < 8; i++) { auto& o = l.CreateObject(PdfObject((int64_t)i)); Rf x = rf(o.GetIndirectReference()); m.fresh(x, "creating after appending"); m.obj[x] = 0; } }
static std::string file(vt::Rng& r, std::set<uint32_t>& inuse, std::set<uint32_t>& never) {
    int n = 4 + r.below(8); std::string f = "%PDF-1.4\n"; std::vector<size_t> off(n, 0); std::vector<int> g(n, 0); char b[100];
    for (int i = 1; i < n; i++) { if (i > 2 && r.chance(40)) { g[i] = r.chance(40) ? 65535 : 1; if (g[i] == 65535) never.insert(i); continue; } inuse.insert(i); off[i] = f.size(); f += std::to_string(i) + " 0 obj\n" + (i == 1 ? "<</Type/Catalog/Pages 2 0 R>>" : i == 2 ? "<</Type/Pages/Kids[]/Count 0>>" : std::to_string(i)) + "\nendobj\n"; }
    size_t x = f.size(); f += "xref\n0 " + std::to_string(n) + "\n0000000000 65535 f \n"; for (int i = 1; i < n; i++) { snprintf(b, sizeof b, "%010zu %05d %c \n", off[i], g[i], off[i] ? 'n' : 'f'); f += b; }
    return f + "trailer\n<</Size " + std::to_string(n) + "/Root 1 0 R>>\nstartxref\n" + std::to_string(x) + "\n%%EOF\n"; }
static void files(uint64_t seed) {
    vt::Rng r(seed); PdfMemDocument d;
    for (int k = 1 + r.below(3); k--;) { std::set<uint32_t> in, never; auto f = file(r, in, never); d.LoadFromBuffer(bufferview(f.data(), f.size())); auto& l = d.GetObjects(); Model m; for (auto i : in) if (!l.GetObject(PdfReference(i, 0))) vt::fail("object %u of the file is not found", i);
        for (auto o : l) m.obj[rf(o->GetIndirectReference())] = 0; m.un = never; for (auto& x : l.GetFreeObjects()) m.freed[x.ObjectNumber()] = x.GenerationNumber();
        for (int i = r.below(8); i--;) { auto& o = l.CreateObject(PdfObject((int64_t)i)); Rf x = rf(o.GetIndirectReference()); m.fresh(x, "creating in a loaded file"); m.obj[x] = 0; } } }
static void gc(uint64_t seed) {
    vt::Rng r(seed); PdfMemDocument d; auto& l = d.GetObjects(); std::map<uint32_t, std::vector<uint32_t>> edges; std::vector<PdfObject*> os; Model m; auto& cat = d.GetCatalog().GetDictionary(); std::set<Rf> old; for (auto o : l) old.insert(rf(o->GetIndirectReference()));
    for (int n = 1 + r.below(12); n--;) { auto& o = l.CreateDictionaryObject(); PdfArray a; for (int k = r.below(3); k-- && !os.empty();) { auto t = os[r.below(os.size())]; a.Add(t->GetIndirectReference()); edges[o.GetIndirectReference().ObjectNumber()].push_back(t->GetIndirectReference().ObjectNumber()); } o.GetDictionary().AddKey("K", a); os.push_back(&o); }
    std::set<uint32_t> live; std::vector<uint32_t> todo; PdfArray roots; for (auto o : os) if (r.chance(30)) { roots.Add(o->GetIndirectReference()); todo.push_back(o->GetIndirectReference().ObjectNumber()); } cat.AddKey("Roots", roots);
    while (!todo.empty()) { auto x = todo.back(); todo.pop_back(); if (!live.insert(x).second) continue; for (auto y : edges[x]) todo.push_back(y); }
    std::map<uint32_t, uint32_t> nums; for (auto o : os) nums[o->GetIndirectReference().ObjectNumber()] = o->GetIndirectReference().GenerationNumber(); std::set<uint32_t> all; for (auto& p : nums) all.insert(p.first);
    d.CollectGarbage();
    for (auto n : all) { bool there = l.GetObject(PdfReference(n, (uint16_t)nums[n])) != nullptr; if (there != (live.count(n) != 0)) vt::fail("garbage collection %s object %u", there ? "keeps unused" : "removes used", n); }
    for (auto o : l) m.obj[rf(o->GetIndirectReference())] = 0; for (auto& x : l.GetFreeObjects()) { m.freed[x.ObjectNumber()] = x.GenerationNumber(); if (nums.count(x.ObjectNumber()) && x.GenerationNumber() <= nums[x.ObjectNumber()]) vt::fail("collected number %u is free with generation %u", x.ObjectNumber(), x.GenerationNumber()); if (m.used(x.ObjectNumber())) vt::fail("%u is free and in use", x.ObjectNumber()); }
    for (int i = 0; i < 6; i++) { auto& o = l.CreateObject(PdfObject((int64_t)i)); Rf x = rf(o.GetIndirectReference()); m.fresh(x, "creating after garbage collection"); m.obj[x] = 0; } }
void vt_case(const std::string& c) {
    auto p = vt::split(c); uint64_t v = strtoull(p[1].c_str(), 0, 10);
    if (p[0] == "hist") hist(v); else if (p[0] == "many") many((uint32_t)v); else if (p[0] == "append") append(v); else if (p[0] == "files") files(v); else gc(v); }
void vt_run(int depth, vt::Rng& rng) {
    for (uint32_t n : { 1u, 254u, 255u, 256u, 32767u, 65533u, 65534u, 65535u, 65536u, 65537u, 70000u, 131071u, 131072u, 1000000u, 8388600u }) vt::go("many:" + std::to_string(n));
    for (int i = 0; i < (depth ? 200000 : 12000); i++) vt::go("hist:" + std::to_string(rng.below(1 << 30)));
    for (int i = 0; i < (depth ? 10000 : 600); i++) { auto s = std::to_string(rng.below(1 << 30)); vt::go("append:" + s); vt::go("files:" + s); vt::go("gc:" + s); } }
