PRE = r'''
#include <pdfmm/pdfmm.h>
#include <pdfmm/private/PdfDeclarationsPrivate.h>
#include <pdfmm/private/PdfFiltersPrivate.h>
#include <pdfmm/private/PdfEncodingPrivate.h>
#include <pdfmm/base/PdfTokenizer.h>
#include <pdfmm/base/PdfInputDevice.h>
#include <pdfmm/base/PdfStreamDevice.h>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
using namespace mm; using namespace std;
static int fails = 0;
#define CHECK(c) do { if (!(c)) { printf("FAIL line %d: %s\n", __LINE__, #c); fails++; } } while (0)
'''
FL = PRE + r'''
static string run(PdfFilter& f, bool dec, const vector<string>& blocks, const PdfDictionary* p = nullptr) {
    charbuff buf; { BufferStreamDevice dev(buf);
    if (dec) f.BeginDecode(dev, p); else f.BeginEncode(dev);
    for (auto& b : blocks) if (dec) f.DecodeBlock(bufferview(b.data(), b.size())); else f.EncodeBlock(bufferview(b.data(), b.size()));
    if (dec) f.EndDecode(); else f.EndEncode(); }
    return string(buf.data(), buf.size());
}
'''
F = "src/pdfmm/private/PdfFiltersPrivate.cpp"
SEEDS = [
 dict(id="F01-reuse", property="F01", needs="the same filter object decoding a second stream after one with an odd number of digits", breaks="the digit pairing state of the previous stream leaks into the next one",
  edits=[(F, "    m_DecodedByte = 0;\n    m_Low = true;\n", "    m_DecodedByte = 0;\n")],
  demo=FL + r'''int main() { auto f = PdfFilterFactory::Create(PdfFilterType::ASCIIHexDecode); CHECK(run(*f, true, {"414"}) == "A@"); CHECK(run(*f, true, {"4243"}) == "BC"); return fails != 0; }'''),
 dict(id="F02-zrun", property="F02", needs="a 4-byte group whose last three bytes are zero and whose first is not", breaks="the group is abbreviated to z and its first byte is lost",
  edits=[(F, "                if (m_tuple == 0)\n", "                if ((m_tuple & 0x00FFFFFF) == 0)\n")],
  demo=FL + r'''int main() { auto f = PdfFilterFactory::Create(PdfFilterType::ASCII85Decode); string d("\x07\0\0\0abcd", 8); string e = run(*f, false, {d}); CHECK(run(*f, true, {e}) == d); return fails != 0; }'''),
 dict(id="F02-tail", property="F02", needs="encoded text whose final group stands for two or three bytes and whose rounding carries into the kept bytes", breaks="a partial final group is completed with the wrong rounding term",
  edits=[(F, "        m_count--;\n        m_tuple += s_Powers85[m_count];\n", "        m_tuple += m_count == 4 ? 0 : s_Powers85[m_count - 1];\n        m_count--;\n")],
  demo=FL + r'''int main() { auto f = PdfFilterFactory::Create(PdfFilterType::ASCII85Decode); for (int a = 0; a < 256; a += 3) for (int b = 0; b < 256; b++) { string d; d += (char)a; d += (char)b; d += (char)(a ^ b); string e = run(*f, false, {d}); CHECK(run(*f, true, {e}) == d); } return fails != 0; }'''),
 dict(id="F05-paeth", property="F05", needs="a Paeth row where left and upper-left are equally near and nearer than above", breaks="ties of the Paeth predictor are resolved towards the wrong neighbour",
  edits=[(F, "                        if (pa <= pb && pa <= pc)\n", "                        if (pa <= pb && pa < pc)\n")],
  demo=FL + r'''int main() { PdfDictionary d; d.AddKey("Predictor", (int64_t)15); d.AddKey("Colors", (int64_t)1); d.AddKey("BitsPerComponent", (int64_t)8); d.AddKey("Columns", (int64_t)3);
  auto pae = [](int a, int b, int c) { int p = a + b - c, x = abs(p - a), y = abs(p - b), z = abs(p - c); return x <= y && x <= z ? a : y <= z ? b : c; };
  for (int s = 0; s < 2000; s++) { unsigned v = s * 2654435761u; unsigned char r[2][3]; for (auto& q : r) for (auto& x : q) { v = v * 1103515245 + 12345; x = (v >> 16) & 7; }
   string in, want; for (int y = 0; y < 2; y++) { in += (char)4; for (int x = 0; x < 3; x++) { int a = x ? r[y][x-1] : 0, b = y ? r[0][x] : 0, c = x && y ? r[0][x-1] : 0; in += (char)(r[y][x] - pae(a, b, c)); want += (char)r[y][x]; } }
   auto f = PdfFilterFactory::Create(PdfFilterType::FlateDecode); string z = run(*f, false, {in}); auto g = PdfFilterFactory::Create(PdfFilterType::FlateDecode); CHECK(run(*g, true, {z}, &d) == want); if (fails) break; }
  return fails != 0; }'''),
 dict(id="F05-upper", property="F05", needs="a Paeth row after a row of another type, at the start of the row with more than one byte per pixel", breaks="the saved upper-left byte is taken from the pixel before instead of the one above it",
  edits=[(F, "                        m_UpperLeftPixelComponents[nCurrComponentIndex] = m_Prev[m_CurrRowIndex];\n", "                        m_UpperLeftPixelComponents[nCurrComponentIndex] = m_CurrRowIndex < m_BytesPerPixel ? 0 : m_Prev[m_CurrRowIndex];\n")],
  demo=FL + r'''int main() { PdfDictionary d; d.AddKey("Predictor", (int64_t)15); d.AddKey("Colors", (int64_t)3); d.AddKey("BitsPerComponent", (int64_t)8); d.AddKey("Columns", (int64_t)2);
  auto pae = [](int a, int b, int c) { int p = a + b - c, x = abs(p - a), y = abs(p - b), z = abs(p - c); return x <= y && x <= z ? a : y <= z ? b : c; };
  for (int s = 0; s < 500; s++) { unsigned v = s * 2654435761u; unsigned char r[2][6]; for (auto& q : r) for (auto& x : q) { v = v * 1103515245 + 12345; x = (v >> 16); }
   string in, want; for (int y = 0; y < 2; y++) { in += (char)(y ? 4 : 0); for (int x = 0; x < 6; x++) { int a = x >= 3 ? r[y][x-3] : 0, b = y ? r[0][x] : 0, c = x >= 3 && y ? r[0][x-3] : 0; in += (char)(y ? r[y][x] - pae(a, b, c) : r[y][x]); want += (char)r[y][x]; } }
   auto f = PdfFilterFactory::Create(PdfFilterType::FlateDecode); string z = run(*f, false, {in}); auto g = PdfFilterFactory::Create(PdfFilterType::FlateDecode); CHECK(run(*g, true, {z}, &d) == want); if (fails) break; }
  return fails != 0; }'''),
 dict(id="F03-end", property="F03", needs="the same filter object used again after a stream that had an end marker", breaks="nothing is decoded any more after the end marker of the previous stream",
  edits=[(F, "        else if (m_CodeLen <= 128)\n" if False else "void PdfRLEFilter::BeginDecodeImpl(const PdfDictionary*)\n{\n    m_CodeLen = 0;\n}\n", "void PdfRLEFilter::BeginDecodeImpl(const PdfDictionary*)\n{\n    m_CodeLen = m_CodeLen == 256 ? 256 : 0;\n}\n")],
  demo=FL + r'''int main() { auto f = PdfFilterFactory::Create(PdfFilterType::RunLengthDecode); string d("\x01" "ab\x80", 4); CHECK(run(*f, true, {d}) == "ab"); CHECK(run(*f, true, {d}) == "ab"); return fails != 0; }'''),
 dict(id="S03-cr", property="S03", needs="a comment ended by a bare carriage return", breaks="the comment runs on to the next line feed and swallows the tokens in between",
  edits=[("src/pdfmm/base/PdfTokenizer.cpp", "            } while (ch1 != '\\n' && ch1 != '\\r');\n", "            } while (ch1 != '\\n');\n")],
  demo=PRE + r'''int main() { SpanStreamDevice dev(string_view("%c\rA\nB")); PdfTokenizer t; string_view k; CHECK(t.TryReadNextToken(dev, k) && k == "A"); return fails != 0; }'''),
 dict(id="S03-len", property="S03", needs="a token exactly as long as the token buffer", breaks="a token that fills the buffer is terminated one byte past it",
  edits=[("src/pdfmm/base/PdfTokenizer.cpp", "    while (count < bufferSize)\n", "    while (count <= bufferSize)\n")],
  demo=PRE + r'''int main() { auto b = std::make_shared<charbuff>(8); SpanStreamDevice dev(string_view("abcdefghijkl ")); PdfTokenizer t(b, true); string_view k; CHECK(t.TryReadNextToken(dev, k)); CHECK(k == "abcdefg"); return fails != 0; }'''),
]
S01F = "src/pdfmm/base/PdfName.cpp"
RT = r'''
static string wr(const PdfName& n) { charbuff b; { BufferStreamDevice d(b); charbuff t; n.Write(d, PdfWriteFlags::None, PdfStatefulEncrypt(), t); } return string(b.data(), b.size()); }
'''
SEEDS += [
 dict(id="S01-del", property="S01", needs="a name containing the DEL character", breaks="DEL is taken for printable and written as it is",
  edits=[("src/pdfmm/base/PdfTokenizer.cpp", "    return ch > 32 && ch < 125;\n", "    return ch > 32 && ch <= 127;\n")],
  demo=PRE + RT + r'''int main() { string r("a\x7F" "b"); PdfName n = PdfName::FromRaw(bufferview(r.data(), r.size())); CHECK(wr(n) == "/a#7Fb"); return fails != 0; }'''),
]
