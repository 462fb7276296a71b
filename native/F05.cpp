#include "filt.h"
// dec:<predictor>:<colors>:<bits>:<columns>:<tags, one digit per row>:<hex of the rows>:<cuts>
static std::string predict(int pred, int colors, int bits, size_t rowlen, const std::string& tags, const std::string& rows) {
    size_t bpp = std::max(1, (colors * bits + 7) / 8); std::string out, prev(rowlen, 0);
    for (size_t r = 0; r * rowlen < rows.size(); r++) {
        std::string row = rows.substr(r * rowlen, rowlen); int t = pred == 2 ? 1 : tags[r] - '0';
        if (pred >= 10) out += (char)t;
        for (size_t i = 0; i < row.size(); i++) {
            int a = i >= bpp ? (unsigned char)row[i - bpp] : 0, b = (unsigned char)prev[i], c = i >= bpp ? (unsigned char)prev[i - bpp] : 0, p = 0;
            if (t == 1) p = a; else if (t == 2) p = b; else if (t == 3) p = (a + b) / 2;
            else if (t == 4) { int q = a + b - c, x = abs(q - a), y = abs(q - b), z = abs(q - c); p = x <= y && x <= z ? a : y <= z ? b : c; }
            out += (char)((unsigned char)row[i] - p);
        }
        prev = row; prev.resize(rowlen);
    }
    return out;
}
void vt_case(const std::string& c) {
    auto p = vt::split(c); int pred = atoi(p[1].c_str()), colors = atoi(p[2].c_str()), bits = atoi(p[3].c_str()), cols = atoi(p[4].c_str());
    std::string rows = vt::unhex(p[6]); size_t rowlen = ((size_t)colors * bits * cols + 7) / 8;
    PdfDictionary d;
    d.AddKey("Predictor", (int64_t)pred);
    if (colors != 1) d.AddKey("Colors", (int64_t)colors);
    if (bits != 8) d.AddKey("BitsPerComponent", (int64_t)bits);
    if (cols != 1) d.AddKey("Columns", (int64_t)cols);
    std::string enc = pred == 1 ? rows : predict(pred, colors, bits, rowlen, p[5], rows);
    auto z = filt(PdfFilterType::FlateDecode, false, enc, {});
    // partial rows never reach the output: only whole rows are compared
    std::string want = pred == 1 ? rows : rows.substr(0, rows.size() / rowlen * rowlen);
    std::vector<size_t> cuts; for (auto x : cutsOf(p[7])) cuts.push_back(std::min(x, z.out.size()));
    auto r = filt(PdfFilterType::FlateDecode, true, z.out, cuts, &d);
    if (r.err || r.out != want) vt::fail("Flate with predictor %d restores %s%s, expected %s", pred, r.err ? "error " : "", vt::hex(r.out).substr(0, 300).c_str(), vt::hex(want).substr(0, 300).c_str());
}
void vt_run(int depth, vt::Rng& rng) {
    int N = depth ? 60000 : 12000;
    for (int i = 0; i < N; i++) {
        int pred = rng.chance(20) ? 2 : rng.chance(3) ? 1 : 10 + rng.below(6);
        static const int B[] = { 8, 8, 8, 1, 2, 4, 16 };
        int bits = pred == 2 ? 8 : B[rng.below(7)], colors = 1 + rng.below(4), cols = 1 + rng.below(rng.chance(5) ? 300 : 6);
        size_t rowlen = ((size_t)colors * bits * cols + 7) / 8; int nr = rng.below(6); std::string tags, rows;
        int fixed = rng.chance(40) ? (int)rng.below(5) : -1;
        for (int r = 0; r < nr; r++) tags += (char)('0' + (fixed >= 0 ? fixed : rng.below(5)));
        int mode = rng.below(3);
        for (size_t k = 0; k < nr * rowlen; k++) rows += mode == 0 ? (char)rng.next() : mode == 1 ? (char)(rng.chance(50) ? 0xF0 + rng.below(16) : rng.below(16)) : (char)(k * 3 + rng.below(3));
        std::string cuts; size_t pos = 0; int nc = rng.below(6); size_t step = rng.chance(30) ? 1 : 20;
        for (int k = 0; k < nc; k++) { pos += rng.below(step) + 1; if (k) cuts += ','; cuts += std::to_string(pos); }
        vt::go("dec:" + std::to_string(pred) + ":" + std::to_string(colors) + ":" + std::to_string(bits) + ":" + std::to_string(cols) + ":" + tags + ":" + vt::hex(rows) + ":" + cuts);
    }
    // output larger than the filter's buffer, so that a row is cut by the inflate buffer
    for (int i = 0; i < (depth ? 40 : 6); i++) {
        int colors = 1 + rng.below(4), cols = 500 + rng.below(2000); int pred = rng.chance(30) ? 2 : 12; std::string tags; for (int r = 0; r < 5; r++) tags += (char)('0' + rng.below(5));
        vt::go("dec:" + std::to_string(pred) + ":" + std::to_string(colors) + ":8:" + std::to_string(cols) + ":" + tags + ":" + vt::hex(rng.bytes((size_t)colors * cols * 5)) + ":");
    }
}
