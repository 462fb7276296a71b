#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run it to regenerate the file).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

FP = "src/pdfmm/private/PdfFiltersPrivate.cpp"
p("F01", "ASCIIHex stream data decodes to exactly what the encoder was given",
  "Decoding the ASCIIHex encoding of any byte sequence returns that byte sequence. Decoding any text made of hex digits and PDF white space, with or without the final '>' marker, yields one byte per digit pair, an odd last digit counting as if followed by 0, and nothing after the marker is decoded. The result does not depend on how the input is cut into blocks.",
  ["inputs", "histories"], "every byte sequence, every hex/white-space text, every split of the input into blocks",
  "The existing tests round-trip one buffer in one block; the state carried between blocks and the odd-digit end are reached only by particular lengths and splits.",
  [FP, "src/pdfmm/private/PdfDeclarationsPrivate.cpp"],
  [("PdfHexFilter", FP), ("hex digit helpers", "src/pdfmm/private/PdfDeclarationsPrivate.cpp")])
p("F02", "ASCII85 stream data decodes to exactly what the encoder was given",
  "Decoding the ASCII85 encoding of any byte sequence returns that byte sequence, including the z shorthand and a final group of one to three bytes. White space inside encoded text is ignored, nothing after the ~> marker is decoded, and a character outside the alphabet is rejected with an error. The result does not depend on how the input is cut into blocks.",
  ["inputs", "histories"], "every byte sequence, every split of plain or encoded data into blocks",
  "Partial groups, zero groups and splits inside a group combine into far more cases than the sample buffer of the filter test.",
  [FP], [("PdfAscii85Filter", FP)])
p("F03", "Run-length encoded streams are expanded as the PDF specification says",
  "For any run-length encoded data, a length byte 0-127 copies the next length+1 bytes, a length byte 129-255 repeats the next byte 257-length times, and 128 ends the data. The output does not depend on how the input is cut into blocks, and data after the end marker produces no output.",
  ["inputs", "histories"], "every byte sequence and every split into blocks",
  "No existing test decodes run-length data at all.",
  [FP], [("PdfRLEFilter", FP)])
p("F04", "LZW streams are expanded as the PDF specification says",
  "Data produced by any conforming LZW encoder with default parameters (early code width change, clear codes anywhere, table refilled up to 4096 entries) decodes to the original bytes. The output does not depend on how the input is cut into blocks. Codes that refer to no table entry never make the decoder read outside its table.",
  ["inputs", "histories"], "every byte sequence, every conforming placement of clear codes, every split, every malformed code stream",
  "Code width changes, clear codes and block boundaries inside a code interact; tests only decode fixed files.",
  [FP], [("PdfLZWFilter", FP)])
p("F05", "Predictor decoding restores the rows that were predicted",
  "For Flate and LZW streams with a TIFF (2) or PNG (10-15) predictor (TIFF with 8-bit components), decoding returns exactly the rows the predictor functions of the PNG/TIFF specifications define, for any number of colors, bits and columns and any mix of per-row PNG tags. The result does not depend on how the data is cut into blocks.",
  ["inputs", "configurations", "histories"], "every row content, tag sequence, colors and columns value, and split into blocks",
  "Predictors depend on the previous row, previous pixel and byte wrap-around, which sample files reach only by luck.",
  [FP], [("PdfPredictorDecoder", FP)])

NM = "src/pdfmm/base/PdfName.cpp"
p("S01", "A name survives being written to and read from a file",
  "Writing any name made of non-null bytes gives a slash followed only by regular characters, every byte that is a delimiter, white space, '#' or not printable ASCII being written as # and two hex digits. Unescaping the written form gives back the same bytes, and a written name of up to 4095 bytes read back by the parser is equal to the original.",
  ["inputs"], "every byte sequence without null bytes", "Tests check a fixed list of names.",
  [NM, "src/pdfmm/base/PdfTokenizer.cpp"], [("name escaping and unescaping", NM)])
PS = "src/pdfmm/base/PdfString.cpp"; TK = "src/pdfmm/base/PdfTokenizer.cpp"
p("S02", "A string survives being written to and read from a file",
  "Any byte string written as a literal (parenthesised) or hexadecimal string and read back by the parser yields the same bytes and the same literal/hex kind, whatever it contains: unbalanced parentheses, backslashes, line ends, binary zeros, UTF-16 data. When reading, octal escapes of one to three digits, line-end escapes and nested parentheses have the meaning the PDF specification gives them.",
  ["inputs"], "every byte string, both string kinds, every escape sequence", "Tests use a handful of strings.",
  [PS, TK], [("string writing", PS), ("literal and hex string reading", TK)])
p("S03", "Tokens are split where the PDF specification says",
  "The bytes 0, 9, 10, 12, 13 and 32 are white space, ()<>[]{}/% are delimiters and everything else is regular, with no byte in two classes. Reading a token skips white space and comments, returns the longest run of regular characters (in pieces when it exceeds the token buffer) or one delimiter token (<< and >> being single tokens), and consumes nothing beyond it except a comment that follows directly, for any input and never writing outside its token buffer.",
  ["inputs"], "every byte stream", "The byte stream is untrusted; tests tokenize short well-formed samples.",
  [TK], [("character classes", TK), ("token reading", TK)])
p("S04", "Numbers, booleans, null and references survive being written and read",
  "Any 64-bit integer, boolean, null value or object reference that is written is read back as an equal value of the same type. Any real number that is written is read back within the precision it was written with, is written without exponent, and never changes sign or magnitude class.",
  ["inputs"], "every value of each type", "Tests check a few values.",
  ["src/pdfmm/base/PdfVariant.cpp", TK, "src/pdfmm/private/PdfDeclarationsPrivate.cpp"],
  [("number formatting", "src/pdfmm/private/PdfDeclarationsPrivate.cpp"), ("number parsing", TK)])

XR = "src/pdfmm/base/PdfXRef.cpp"; OL = "src/pdfmm/base/PdfIndirectObjectList.cpp"; PA = "src/pdfmm/base/PdfParser.cpp"
p("X01", "The written cross-reference section lists every object exactly once",
  "For any set of in-use and free objects, the written cross-reference table has one entry of exactly 20 bytes per object number in contiguous ascending subsections, in-use entries carry the offset and generation they were registered with, free entries form a single linked list that starts at object 0 and ends back at 0, and the declared size is one more than the highest object number.",
  ["inputs", "histories"], "every set of objects, generations and registration order", "Tests save a few documents whose numbering has few gaps.",
  [XR], [("cross-reference construction and writing", XR)])
p("X02", "Cross-reference entries are read back as they were recorded, newest first",
  "Reading a cross-reference table or stream registers, for each object number in its sections, the recorded type, offset or object-stream position, and generation; the three field widths of a cross-reference stream are honoured for every width of up to four bytes, and wider fields raise an error. Within one revision the own entries come first, then a hybrid stream, then the previous revision, and no section is read twice. An entry already known from a newer section is never overwritten by an older one, and a section whose numbers, counts or field widths are out of range raises an error instead of touching memory outside the entry list.",
  ["inputs", "histories"], "every section content, order of sections, field width and count", "The values come from untrusted files; tests read well-formed ones.",
  [PA, "src/pdfmm/base/PdfXRefStreamParserObject.cpp", "src/pdfmm/base/PdfXRefEntry.cpp"],
  [("table reading", PA), ("stream reading", "src/pdfmm/base/PdfXRefStreamParserObject.cpp")])
p("X03", "Object numbers are never handed out twice",
  "Creating an object never returns a number in use by another object of the document nor a free number/generation that was declared unavailable; a freed number is reused only with a higher generation and never past generation 65535. Objects are found under exactly the reference they were stored with, until they are removed.",
  ["histories"], "every sequence of creating, inserting, freeing, removing and replacing objects",
  "The free list, the counters and the object set must agree after any history, not the short ones in tests.",
  [OL], [("object list", OL)])
ST = "src/pdfmm/base/PdfStreamDevice.cpp"
p("D01", "In-memory devices read back what was written and never leave their buffer",
  "For any sequence of writes, reads, peeks and seeks on a memory device, each read returns the bytes last written at those positions, short reads happen only at the end, the position stays between 0 and the length, a seek outside that range raises an error and leaves the position unchanged, and no access falls outside the buffer.",
  ["histories", "inputs"], "every sequence of operations and every offset, size and direction", "Tests use short linear sequences.",
  [ST], [("span, string and buffer devices", ST)])
DP = "src/pdfmm/private/PdfDeclarationsPrivate.cpp"
p("D02", "Fixed-width integers are stored big endian and read back unchanged",
  "Writing any 16-bit or 32-bit, signed or unsigned value and reading it back yields the same value, the most significant byte is stored first, and exactly that many bytes are consumed.",
  ["inputs"], "every value", "All values cannot be enumerated for 32 bits in unit tests.",
  [DP], [("big-endian helpers", DP)])
p("D03", "Nesting beyond the limit is refused and the limit is restored",
  "Entering a nested structure deeper than the allowed maximum raises an error, and leaving a level by any path, including an error, restores the depth to what it was, so that later input is not affected.",
  ["histories", "inputs"], "every nesting history", "Depth accounting after errors is not reached by ordinary tests.",
  ["src/pdfmm/base/PdfTokenizer.cpp", DP], [("recursion guard", DP)])
DT = "src/pdfmm/base/PdfDate.cpp"
p("T01", "Dates survive being written and read in PDF and W3C form",
  "Any date and time of the years 0 to 9999 with whole seconds and a whole-minute zone offset within a day, or none, that is written in PDF or W3C form and read back denotes the same instant with the same offset. Text that is not a date of the form given by the specification (wrong separators, fields out of range, days the month does not have, missing year, trailing text) is rejected without reading beyond its end, and omitted trailing fields take their default values; an incomplete last field counts as the number its digits give.",
  ["inputs"], "every instant, offset and truncated form", "Tests check a list of strings.",
  [DT], [("date formatting and parsing", DT)])
EN = "src/pdfmm/private/PdfEncodingPrivate.cpp"
p("T02", "Text survives conversion to and from the PDF text encodings",
  "Every string of Unicode characters converted to UTF-16BE (with byte order mark) or, when all characters allow, to PDFDocEncoding, and back to UTF-8 is unchanged. A string is converted to PDFDocEncoding only if each of its characters has a code there, and the two directions of that table agree with the specification.",
  ["inputs"], "every Unicode string", "Tests convert a few strings.",
  [EN, PS, DP], [("PdfDocEncoding conversion", EN), ("UTF-16 conversion", DP)])
p("T03", "Character codes are written and read with their own width",
  "A character code of one to four bytes is written, as raw bytes and as hexadecimal digits, big endian and with exactly its width, and cutting encoded text back into codes gives the same codes: codes of the width of an encoding of one width, the shortest defined code where widths are mixed, none beyond the end of the text. A code made from a number has the least width that holds it, codes are ordered and equal by code and width, and an identity encoding has a code for exactly the code points that fit its width. The codes of a CMap have one to four bytes, anything else raises; ranges count the last character up, and the mappings a CMap gives or an encoding exports are complete.",
  ["inputs"], "every code and width, every text, every CMap", "Tests use a few codes.",
  ["src/pdfmm/base/PdfEncodingCommon.cpp", "src/pdfmm/base/PdfEncodingMap.cpp", "src/pdfmm/base/PdfIdentityEncoding.cpp", "src/pdfmm/base/PdfCMapEncoding.cpp", "src/pdfmm/base/PdfCharCodeMap.cpp"], [("character codes", "src/pdfmm/base/PdfEncodingCommon.cpp"), ("cutting text into codes", "src/pdfmm/base/PdfEncodingMap.cpp"), ("CMaps", "src/pdfmm/base/PdfCMapEncoding.cpp")])
EC = "src/pdfmm/base/PdfEncrypt.cpp"
p("E01", "Encrypted data decrypts to the original with the same key",
  "For RC4 and AES (128 and 256 bit) security handlers, decrypting what was encrypted for the same object gives back the same bytes for any data, including empty data, and the predicted encrypted length equals the actual one. Input streams of a handler deliver the decrypted bytes once each, in order and completely, whatever sizes they are read with. RC4 output equals the RC4 cipher for any key, whatever blocks the data is cut into, and does not depend on keys used before.",
  ["inputs", "histories"], "every key, data, object reference and split into blocks", "Tests encrypt one buffer.",
  [EC], [("RC4 stream", EC), ("RC4 and AES encryptors", EC)])
p("E02", "File encryption keys follow the standard security handler",
  "The per-object key, the padded password, the owner entry, the user entry and the file key are computed by the algorithms of the PDF standard security handler for every password, permission value, document id and key length. A password is accepted exactly if it reproduces the stored entry, and the permission queries report exactly the stored permission bits.",
  ["inputs", "configurations"], "every password, permission mask, document id, object number and key length", "Tests try one password.",
  [EC], [("standard security handler", EC)])
VR = "src/pdfmm/base/PdfVariant.cpp"
p("V01", "Values keep their type and are compared by type and content",
  "Reading a value as a given type succeeds exactly when it has that type (reals also accept integers where documented) and otherwise raises an error or reports failure without touching the value. Two values compare equal exactly when they have the same type and equal content, and 'not equal' is always the opposite of 'equal'.",
  ["inputs"], "every pair of values of every type", "Tests compare a few pairs.",
  [VR, "src/pdfmm/base/PdfReference.cpp"], [("variant accessors and comparison", VR)])
p("G01", "Rectangles are normalised and transformed consistently",
  "A rectangle built from any two opposite corners describes the same area with non-negative width and height, writing it as an array and reading it back keeps it, and the intersection of two overlapping rectangles contains exactly the points common to both (a rectangle that is all zero leaves the other one unchanged). The product of two transformation matrices is the one transformation after the other, and an axis-aligned transformation maps a rectangle to the rectangle of its transformed corners. All of this up to the rounding of double arithmetic.",
  ["inputs"], "every pair of corners, rectangles and matrices", "Tests use a few rectangles.",
  ["src/pdfmm/base/PdfRect.cpp", "src/pdfmm/base/PdfMath.cpp"], [("rectangles", "src/pdfmm/base/PdfRect.cpp"), ("matrices", "src/pdfmm/base/PdfMath.cpp")])
p("O01", "Content operators map to and from their keywords one to one",
  "Every content stream operator keyword is recognised as exactly one operator, that operator is written with the same keyword, its operand count is the one in the specification, and no other text is recognised as an operator.",
  ["inputs"], "every text and every operator", "Tests exercise a few operators.",
  ["src/pdfmm/base/PdfOperatorUtils.cpp"], [("operator table", "src/pdfmm/base/PdfOperatorUtils.cpp")])
p("G02", "Pages keep their order through inserting and removing",
  "After any sequence of inserting, creating and deleting pages, page i of the document is the i-th page of that sequence's result and the page count of every tree node is the number of leaf pages below it.",
  ["histories"], "every sequence of page insertions and deletions", "Tests try short sequences.",
  ["src/pdfmm/base/PdfPageCollection.cpp"], [("page tree", "src/pdfmm/base/PdfPageCollection.cpp")])
p("W01", "A saved document loads back as the same object graph",
  "Saving any document and loading the result yields the same set of objects with equal values, streams and trailer, whatever the save options.",
  ["inputs", "configurations"], "every document and save option", "Tests save a few documents.",
  ["src/pdfmm/base/PdfWriter.cpp", PA], [("writer", "src/pdfmm/base/PdfWriter.cpp"), ("parser", PA)])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
