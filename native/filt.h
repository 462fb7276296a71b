// helpers for the stream filters: run the real filter over chosen blocks
#pragma once
#include "vt.h"
#include <pdfmm/private/PdfFiltersPrivate.h>
using namespace mm;
struct FiltRes { bool err = false; std::string out; };
// cuts: block end positions (ascending); the data is handed over block by block in exactly sized heap buffers
inline FiltRes filt(PdfFilterType t, bool decode, const std::string& data, const std::vector<size_t>& cuts, const PdfDictionary* parms = nullptr) {
    FiltRes r; charbuff buf;
    auto f = PdfFilterFactory::Create(t);
    // half of the cases reuse a filter object that has handled another stream before
    if (decode && data.size() % 2) {
        charbuff old; BufferStreamDevice od(old);
        try { f->BeginDecode(od, parms); f->DecodeBlock(bufferview(data.data(), data.size() - data.size() / 3)); f->EndDecode(); }
        catch (PdfError&) { f = PdfFilterFactory::Create(t); }
    }
    BufferStreamDevice* dev = new BufferStreamDevice(buf);
    try {
        if (decode) f->BeginDecode(*dev, parms); else f->BeginEncode(*dev);
        size_t pos = 0;
        for (size_t k = 0; k <= cuts.size(); k++) {
            size_t end = k < cuts.size() ? cuts[k] : data.size();
            size_t n = end - pos;
            std::unique_ptr<char[]> b(new char[n ? n : 1]); // exact size so that ASan sees over-reads
            std::unique_ptr<char[]> e(n ? nullptr : new char[0]);
            memcpy(b.get(), data.data() + pos, n);
            const char* p = n ? b.get() : e.get();
            if (decode) f->DecodeBlock(bufferview(p, n)); else f->EncodeBlock(bufferview(p, n));
            pos = end;
        }
        if (decode) f->EndDecode(); else f->EndEncode();
    } catch (PdfError& e) { r.err = true; }
    delete dev;
    r.out = buf; return r;
}
// "3,5" -> {3,5}
inline std::vector<size_t> cutsOf(const std::string& s) { std::vector<size_t> r; if (!s.empty()) for (auto& x : vt::split(s, ',')) r.push_back(strtoull(x.c_str(), 0, 10)); return r; }
inline std::string cutsStr(const std::vector<size_t>& v) { std::string r; for (auto x : v) { if (!r.empty()) r += ','; r += std::to_string(x); } return r; }
// all ways to cut n bytes into blocks (n small), or random ones
inline void forCuts(size_t n, vt::Rng& rng, const std::function<void(const std::vector<size_t>&)>& f) {
    if (n <= 5) {
        for (unsigned m = 0; m < (1u << (n ? n - 1 : 0)); m++) { std::vector<size_t> c; for (size_t i = 1; i < n; i++) if (m >> (i - 1) & 1) c.push_back(i); f(c); }
        f(std::vector<size_t>{ 0 }); f(std::vector<size_t>{ n });
    } else {
        f({}); { std::vector<size_t> c; for (size_t i = 1; i < n; i++) c.push_back(i); if (n < 3000) f(c); }
        for (int k = 0; k < 3; k++) { std::vector<size_t> c; size_t p = 0; while (true) { p += rng.below(n / 2 + 2); if (p > n) break; c.push_back(p); } f(c); }
    }
}
