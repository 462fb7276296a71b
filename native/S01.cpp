#include "vt.h"
#include <pdfmm/private/PdfDeclarationsPrivate.h>
#include <pdfmm/base/PdfTokenizer.h>
#include <pdfmm/base/PdfStreamDevice.h>
using namespace mm;
// name:<hex>:<hex of what follows in the file>   esc:<hex of the name>:<choice seed> (any spelling of the name reads back)
static std::string written(const PdfName& n) { charbuff buf, tmp; BufferStreamDevice d(buf); n.Write(d, PdfWriteFlags::None, PdfStatefulEncrypt(), tmp); return buf; }
void vt_case(const std::string& c) {
    auto p = vt::split(c); std::string raw = vt::unhex(p[1]);
    PdfName n = PdfName::FromRaw(bufferview(raw.data(), raw.size()));
    std::string w;
    if (p[0] == "esc") {
        vt::Rng r(atoi(p[2].c_str())); w = "/";
        for (unsigned char x : raw) {
            bool must = x <= 32 || x >= 127 || x == '#' || strchr("()<>[]{}/%", x);
            if (must || r.chance(40)) { char b[4]; snprintf(b, 4, r.chance(50) ? "#%02x" : "#%02X", x); w += b; } else w += (char)x;
        }
    } else {
        w = written(n);
        if (w.empty() || w[0] != '/') { vt::fail("written form is %s", w.c_str()); return; }
        std::string u; size_t i = 1;
        for (unsigned char x : raw) {
            bool must = x <= 32 || x >= 127 || x == '#' || strchr("()<>[]{}/%", x);
            char b[4]; snprintf(b, 4, "#%02X", x); std::string e = b; char lo[4]; snprintf(lo, 4, "#%02x", x);
            if (w.compare(i, 3, e) == 0 || w.compare(i, 3, lo) == 0) i += 3;
            else if (!must && i < w.size() && w[i] == (char)x) i++;
            else { vt::fail("byte %02x is written wrongly in %s", x, w.substr(0, 100).c_str()); return; }
        }
        if (i != w.size()) { vt::fail("written form has extra bytes: %s", w.substr(0, 100).c_str()); return; }
        if (n.GetEscapedName() != w.substr(1)) vt::fail("GetEscapedName is %s", n.GetEscapedName().c_str());
        PdfName b = PdfName::FromEscaped(w.substr(1));
        if (b.GetRawData() != raw || !(b == n) || b != n) vt::fail("unescaping %s gives %s", w.c_str(), vt::hex(b.GetRawData()).c_str());
    }
    std::string text = w + (p[0] == "name" ? vt::unhex(p[2]) : std::string(" ")); PdfTokenizer t; SpanStreamDevice dev(bufferview(text.data(), text.size()));
    PdfVariant v; if (!t.TryReadNextVariant(dev, v) || !v.IsName()) { vt::fail("not read back as a name: %s", w.c_str()); return; }
    if (v.GetName().GetRawData() != raw || !(v.GetName() == n)) vt::fail("%s is read back as %s", w.substr(0, 200).c_str(), vt::hex(v.GetName().GetRawData()).substr(0, 200).c_str());
    if (!raw.empty() && dev.GetPosition() != w.size()) vt::fail("reading %s stops at %zu", w.substr(0, 200).c_str(), dev.GetPosition());
}
void vt_run(int depth, vt::Rng& rng) {
    const char* tails[] = { "20", "0a", "00", "5b", "3c3c", "2f41", "28", "" , "3e3e", "5d" };
    for (int a = 1; a < 256; a++) { std::string s(1, (char)a); for (auto t : tails) vt::go("name:" + vt::hex(s) + ":" + t); for (int k = 0; k < 4; k++) vt::go("esc:" + vt::hex(s) + ":" + std::to_string(k)); }
    for (auto t : tails) vt::go(std::string("name::") + t);
    for (int a = 1; a < 256; a++) for (int b = 1; b < 256; b++) { std::string s; s += (char)a; s += (char)b; vt::go("name:" + vt::hex(s) + ":20"); }
    for (int i = 0; i < (depth ? 100000 : 8000); i++) {
        std::string s; int n = rng.below(rng.chance(10) ? 1300 : 20); int m = rng.below(3);
        for (int k = 0; k < n; k++) { char c = m == 0 ? (char)rng.next() : m == 1 ? "#(/%ab0A \x7f\xff}~"[rng.below(14)] : (char)(33 + rng.below(94)); s += c ? c : 'x'; }
        vt::go("name:" + vt::hex(s) + ":" + tails[rng.below(10)]); vt::go("esc:" + vt::hex(s) + ":" + std::to_string(rng.below(1000)));
    }
}
