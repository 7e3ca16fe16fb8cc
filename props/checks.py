# id -> how the property is checked. bounds/outside are stated for the quick tier; "T:" marks what the thorough tier adds.
CHECKS = {}
def C(id, harness, bounds, outside="", **kw):
    CHECKS[id] = dict(harness=[harness] if isinstance(harness, str) else harness, bounds=bounds, outside=outside, **kw)

NA = {}

C("C02", "c02_string.cpp", "byte strings up to 4 bytes (T: 5), valid Unicode texts up to 2 code points (T: 3) over U+0000..U+10FFFF, literal and hexadecimal form; document-encoding table for all 256 bytes and all code points",
  "longer strings; encrypted writing (C27)", witnesses=["raw", "text", "utf16", "pdfdoc"])

C("C01", "c01_name.cpp", "names up to 4 bytes (T: 5) without NUL, name tokens up to 5 regular bytes (T: 7), printable texts with document-encoding characters, all pairs of names up to 2 bytes for ordering",
  "longer names; # not followed by two hexadecimal digits (undefined by the specification)", witnesses=["roundtrip", "decode", "text"])
C("C03", "c03_strings.cpp", "literal contents up to 5 bytes (T: 7) over all byte values and escapes up to 6 (T: 8) characters over the escape alphabet; hexadecimal contents up to 5 bytes (T: 7)",
  "longer contents; a bare CR inside a literal string (line-end normalization) and invalid hexadecimal digits; encrypted strings (C27)", witnesses=["literal", "hex"])
C("C05", "c05_tokens.cpp", "token level: all inputs up to 5 bytes (T: 7); value level: sequences of up to 4 words (T: 6) from an 18-word alphabet with and without separators, operators after 0 to 4 (T: 5) operands, inside arrays and dictionaries and at the end of input; numeric tokens up to 4 characters (T: 5)",
  "longer inputs; texts that are no value; duplicate dictionary keys", witnesses=["tokens", "value", "values", "operator", "integer", "real", "readnumber"])
C("C04", "c04_numbers.cpp", "integers: 4096 consecutive values (T: all 16-bit values), windows of 16 (T: 256) around multiples of every power of ten and 16 around every power of two of 64 bits, both signs; every integer width of the formatter, 8- and 16-bit widths completely; reals m/10^k with |m| <= 299 (T: 2999) and k <= 3 (T: 6), precisions 0..6, and 21 picked mantissas up to 10^12 with k <= 10, as float and double. Binary/decimal conversion of reals is floating point and is decided value by value",
  "other 64-bit integers and reals; reals beyond 2^53", witnesses=["integer", "width", "rounded", "real", "object"])
C("C06", "c06_values.cpp", "all trees of depth 1 and 2 over the listed leaf kinds with up to two children, all triples of leaves (7 kinds; T: 10) in arrays and dictionaries, symbolic bytes in names, strings and keys, arrays up to 22 elements (T: 32), nesting up to 24 (T: 60); compact and clean style",
  "longer strings and deeper trees; streams (C11); encryption (C27)", witnesses=["value", "reference"])
C("C07", "c07_laws.cpp", "references over all numbers; names and strings up to 2 bytes; variants of every scalar type with 64-bit integers; arrays up to 2 elements, dictionaries over 2 keys; raw strings of 1 byte (T: 2) or 2 UTF-16 characters against 6 texts; objects direct and indirect",
  "longer values, deeper nesting, NaN reals, raw data variants; a raw string compared directly with a text constant", witnesses=["laws", "order", "strings", "objects"])
C("C08", "c08_ascii.cpp", "hexadecimal and base-85: encoding and decoding up to 4 (T: 6) bytes cut anywhere into up to three blocks; all encoded texts up to 4 bytes (T: 5) and white space or any 3 bytes around the end marker; whole base-85 groups with 3 symbolic digits; encoding divides by 85, decided for one symbolic byte at a time among picked ones",
  "longer data; groups above 2^32-1, partial groups not produced by an encoder, a lone ~ at the end of data", witnesses=["inverse", "decoded", "rejected"])
C("C09", "c09_rle_lzw.cpp", "run length: all inputs up to 2 bytes (T: 3), every length byte with a full run, 5 bytes (T: 6) with picked length bytes; LZW: up to 3 (T: 5) symbolically chosen codes (literals, defined and being-defined entries, clear, end) at the start and after tables filled to each change of code width (9-10, 10-11, 11-12 bits), both EarlyChange values, cut anywhere in the last 4 bytes",
  "invalid code sequences, tables beyond 4094 entries", witnesses=["rle", "lzw", "width"])
C("C10", "c10_predictor.cpp", "PNG predictors 10-15 with all filter types over 14 row geometries (1-4 colours, 1-16 bits), 3 rows (T: 4) of symbolic bytes, Paeth 1 row (T: 2) and 2 rows cut anywhere; TIFF predictor at 8 bits, 2 rows; the flate stream is a stored block",
  "zlib itself; the TIFF predictor at other depths (raises an error)", witnesses=["png", "tiff"])
C("C11", "c11_streams.cpp", "chains of up to 3 filters among hexadecimal, base-85 and flate (10 chains), data up to 2 symbolic bytes (T: 4); histories of 2 (T: 3) operations among set, append in parts, copy, move, assign, unwrap; written with no flags, clean and without compression; loaded streams with decode parameters",
  "zlib itself (a stored-block model replaces it); other filters in chains (C09, C10)", witnesses=["set", "history", "write", "load"])
C("C12", "c12_xref.cpp", "table and stream form, plain and incremental: every set of up to 3 (T: 4) numbers out of 6 (adjacent ones, gaps, 1 missing), added in any order, each used, freed or only counted; for up to 2 numbers offsets around 7 boundaries up to 10 digits and 2^39 and generations up to 65534, symbolic within windows of 4 for single numbers; read back by a reference reader and by the library",
  "more numbers per section; offsets and generations away from the windows; a number added twice", witnesses=["table", "stream", "refused"])
C("C13", "c13_xrefstream.cpp", "field widths 0-2, 0-8, 0-4 with 1 or 2 entries of symbolic bytes at first numbers 0-3; up to 2 (T: 3) ranges over 4 starts and 0-2 entries, overlapping and with already known entries; every cut of data of up to 3 entries; ranges, widths and sizes from 16 extreme values",
  "entries of unknown type; more entries; values above 2^63", witnesses=["widths", "ranges", "short", "bad"])
C("C31", "c31_objstm.cpp", "files with one or two object streams of up to 3 (T: 4) objects of 7 kinds, values in any order and with symbolic string bytes, one object unassigned, assigned to another stream or freed, read at once and on demand; counts, first offsets, offsets and numbers from 14 extreme values; all stream contents up to 5 bytes (T: 6) over 5 (T: 10) characters",
  "more objects; encrypted object streams; /Extends chains", witnesses=["extract", "malformed", "bytes"])
C("C14", "c14_objects.cpp", "every history of 3 or 4 (T: 5) creations, removals (by reference and by position), replacements and changes of number reuse; any absent reference (symbolic number and generation); documents loaded with one or two used, freed or missing numbers of 6 generations up to 65535, followed by a removal, an operation and creations; creations at 9 object counts up to the maximum; every mix of appending or inserting a document into one with numbers removed, reused or not",
  "longer histories; garbage collection; object streams", witnesses=["history", "absent", "loaded", "limits", "append"])
C("C20", "c20_containers.cpp", "arrays of up to 3 elements under every one of 17 operations with every index, and pairs (T: triples) of operations; growth to 18 (T: 34) elements; dictionaries under pairs (T: triples) of 8 operations, and of up to 3 (T: 4) additions and a removal with any keys of 2 symbolic bytes and any probe; values: numbers, references, nested arrays and dictionaries; typed accessors over 8 kinds of values (symbolic names and strings), direct, referred to, dangling, absent or inherited; assignments of whole objects, also from themselves and from their parts; replacement of stream contents in 7 ways",
  "longer histories; cyclic parents (C35); objects of other documents", witnesses=["array", "grow", "dict", "keys", "access", "inherited", "objects", "streams", "read"])
C("C29", "c29_devices.cpp", "every history of 2 (T: 3) operations (single-operation histories for vector and charbuff targets; T: 2) out of 8 - reads with and without end-of-input flag, single characters, peeks, writes of up to 3 symbolic bytes, seeks by any 64-bit offset in every direction, copies - on spans of up to 3 and containers of up to 3 symbolic bytes in every access mode, on the null device, and on C++ streams (fixed data, offsets -5..5) for reading, for writing and for both",
  "files on disk and their opening modes; C++ streams whose get and put positions differ; end-of-input state of C++ streams before a read; histories of C++ streams after a failed seek", witnesses=["history", "both"])
C("C17", "c17_pages.cpp", "every history of up to 4 (T: 5) page creations at any place, removals and accesses on a new document; every tree of depth up to 2 with up to 2 children per node (including empty nodes and nodes with pages and nodes mixed) under every history of up to 2 (T: 3), resp. 1 (T: 2) at depth 3, such operations, with all or none of its pages accessed before (none at depth 3; T: both) and with the children lists direct or indirect; whole documents, page ranges or single pages of such trees inserted at any place; any page index beyond the end",
  "trees whose counts, parents or types are missing or wrong, or which list a page twice; PdfPage::MoveAt; pages of the document inserted into itself", witnesses=["history", "import"])
C("C18", "c18_nametree.cpp", "every sequence of up to 2 (T: 3) additions with keys of 1-2 symbolic bytes from a small alphabet to an absent or an empty tree, of 1 (T: 2) to a root with its own names, and any probe; two-character keys outside ASCII; one addition of any single printable byte, after any first character, around 64 and 65 names in a root or leaf with 0 to 2 neighbours, and of any key next to any existing key in trees of 65 leaves (one full, at 3 (T: 4) places) and of two levels with a full node; values direct or references",
  "damaged trees (C30); keys whose byte order differs from their text order; removal (not offered)", witnesses=["small", "text", "splits"])
C("C19", "c19_outlines.cpp", "every history of up to 5 (T: 6) creations of children and next items and erasures, and of up to 3 (T: 4) also with insertions of stand-alone chains of 1-2 items (with or without children) and of items of the same tree; every history of up to 1 (T: 2) such operations on outlines loaded from their objects, with up to 3 items of up to 2 children; outlines of 256 and 300 items in a row; documents with or without outlines appended to each other; any format, colours on a grid, any one-character title",
  "the /Count entries, which the library does not write; insertion of items that are still part of another tree; damaged outlines (C30)", witnesses=["history", "loaded", "wide", "attributes", "merged"])
C("C21", "c21_dates.cpp", "parsing: every text of up to 4 bytes with or without the prefix; 2 (T: 4) full PDF and 2 (T: 4) W3C dates with up to 2 (T: 3) bytes at any place replaced by up to 2 (T: 3) arbitrary bytes, with or without the rest of the text; up to 4 (T: 5) arbitrary bytes after a PDF date shortened after any field, up to 5 after a W3C date. Printing and parsing back: every day of 7 (T: 12) years, every hour, minute and second, 144 (T: all 2879) offsets, 200 (T: 10000) years. The text is never followed by a null character",
  "days that do not exist in their month (accepted); fields cut in the middle, signs without an offset, W3C times without a time zone (tolerated); years outside 0 to 9999; the current time", witnesses=["pdf", "w3c", "roundtrip"])
C("C22", "c22_geometry.cpp", "rectangles: all corners that are multiples of 1/4 between -32 and 31.75, with sizes up to 31.75; intersection with one axis in that range and the other one with positions of -4 to 3 (T: -8 to 7) and sizes up to 7; transformed rectangles with coordinates in -4..3 (T: -8..7) and 6 matrices; arrays of 0-8 elements with one of another type. Matrices: all integer coefficients in -4..3 (T: -8..7), with translations and vectors that are multiples of 1/4 up to 32; rotations by 24 angles about 5 points; frame rotations by quarter turns of 4 rectangles",
  "rounding for other coordinates; rectangles with negative sizes; frame rotations by other angles; the scale and rotation parts of skewed matrices; an all-zero rectangle as argument of Intersect (ignored)", witnesses=["corners", "common", "disjoint", "product"])
C("C23", "c23_colors.cpp", "components and densities that are multiples of 1/16 from -1 to 2 (symbolic), Lab values over the integers around their ranges, NaN and infinities in each place; hexadecimal colours with one pair of digits varied over all digits (quick: one of 3 low digits) and all other byte values rejected; all named colours with letters in upper case; all names of up to 2 (T: 3) letters, spaces and NULs alone and after two prefixes of names; gray numbers of up to 3 (T: 4) characters from digits, '.' and 'x'; arrays as text and as objects of 0-6 elements of several types; conversions over a grid of component values",
  "rounding of components other than those; -0.0; what ConvertToGrayScale gives for separation colours (an existing test fixes it); the colour space objects written for separation and Lab colours; reading Lab colours back from their arrays; the getters of another colour space", witnesses=["components", "hex", "named", "gray", "conversions"])
C("C24", "c24_codemaps.cpp", "all 32-bit codes of sizes 1-4 with all 32-bit code points: up to 2 (T: 3) insertions of 1-2 code points, looked up by any code and, for up to 2 (T: 3) insertions, by any sequence of up to 2 (T: 3) code points; histories of 2 (T: 3) insertions over 2 codes and 2 code points with lookups in between; texts of up to 3 (T: 4) characters over 2 letters with 3 mappings of 1-3 code points, and of 2 characters of each UTF-8 length; every outcome of the random order in which mappings enter the lookup tree",
  "limits after a mapping was replaced by another code (they never shrink); which of several codes with the same code points is returned; texts that are not UTF-8; memory of a map that is assigned over", witnesses=["forward", "reverse", "history", "ligature", "moved"])
C("C25", "c25_cmaps.cpp", "bfchar, bfrange (first destination and arrays), cidchar and cidrange sections with 1-2 byte (T: 1-4) codes, one symbolic digit per code and destination, destinations of 1-3 code points in and beyond the basic plane, ranges of up to 3 (T: 4) codes, looked up by any code of 9 symbolic bits; strings of 2 (T: 3) symbolic bytes decoded with one- and two-byte codes; 27 malformed sections; sections with any 2 (T: 3) of 12 structural characters; near identities; maps of up to 2 codes written as ToUnicode and as CID maps and read again; every code of the predefined, Standard14, identity and a difference encoding written as ToUnicode and read again",
  "destinations given as glyph names, PostScript procedures in CMaps, usecmap, notdef ranges, ranges beyond 0x110000 codes (an error), font names that need escapes in written CMaps", witnesses=["bfchar", "bfrange", "array", "cid", "decode", "malformed", "any bytes", "identity", "written", "predefined"])
C("C26", "c26_encodings.cpp", "the six predefined encodings: every code (32 bits) against reference tables, and characters of 11 pages of 256 code points (quick: 46 of each page but the first) looked up in reverse; up to 2 differences over 2 (T: 6) encodings, added by name, by code point or explicitly at 3 (T: 4) codes incl. the first and last; /Differences arrays of up to 3 items (T: of more kinds) (codes 65, 254, 255, -1, 256, ... and names incl. unknown ones) over 4 base encodings, read from a font, written and read again; strings of up to 2 (T: 3) codes of 12 (T: 16) bytes and texts of up to 2 (T: 3) of 9 characters through 3 fonts; strings of up to 3 (T: 4) bytes through 4 composite fonts with CMaps (CIDs and scanning); 343 glyph names both ways; uni names with up to 7 characters from 16 (quick: 5 for all but the last two)",
  "code 0x60 of StandardEncoding (the library keeps the ASCII character on purpose); which code is returned for a character that has several; encoding U+0000; names of the glyph list besides the characters of the Latin, Greek and symbol encodings, and the private use characters that the library maps to base characters; texts that are not UTF-8; encoding with fonts whose glyphs come from a font program", witnesses=["predefined", "reverse", "difference reverse", "difference", "exported", "array", "encoded", "decoded", "cids", "names", "uni"])
C("C35", "c35_pages.cpp", "pages 1 to 3 levels below the root, the entries present or not at every level, direct or indirect; boxes with all corners from a grid of 32 values (or quarters of them) in any order; rotations of any 32-bit value, all quarter turns from -8 to 8 as integers and reals, and values that are not numbers; up to 2 (T: 3) changes of boxes or rotation of a page next to a sibling; up to 3 (T: 4) resource operations on 2 types and 4 names; contents of up to 2 (T: 3) streams of 1 to 2 arbitrary regular characters, up to 2 appends with all flags; forms from pages with own or inherited resources, 3 (T: 5) rotations and crop and trim boxes; loops of up to 3 parents; the standard page sizes",
  "boxes with fewer or other elements than 4 numbers (an error); rotations that are not multiples of 90 in forms and in HasRotation; contents arrays shared by several pages; MoveAt; the dimensions of the standard page sizes", witnesses=["boxes", "rotation", "resources", "setters", "resource history", "profile", "contents", "form", "loops", "sizes"])
C("C34", "c34_annots.cpp", "fresh pages with up to 5 (T: 6) operations (create, remove by index or reference, look up, iterate); loaded /Annots of up to 2 entries with 2 (T: 3) operations and of 3 entries with 0 (T: 2) operations, entries of 7 kinds (valid, unknown subtype, no subtype, direct, dangling reference, number, null), the array direct or indirect; all 30 annotation types; up to 3 (T: 4) property settings with grid rectangles, all 32-bit flags, borders, title, contents, colours and open; links with destination, action and quad points; up to 3 (T: 4) appearances over 3 kinds and 2 states",
  "the same annotation listed twice; destinations that are names; the appearance streams' own contents", witnesses=["history", "types", "properties", "links", "appearances"])
C("C33", "c33_fields.cpp", "all 6 field types, in the form, on a page, or as child of a field with any 32-bit flags, and 1 (T: 2) flag settings; loaded fields of every type entry and any 32-bit flags, own or inherited; choice fields with up to 3 (T: 4) operations on 2 item values with or without display text; text fields, with or without a parent with text and length, with up to 3 (T: 4) operations and maximum lengths of 16 bits; names of up to 3 levels of fields with up to 2 (T: 3) settings; histories of up to 5 (T: 6) operations on the form's fields and 4 (T: 5) on children at 3 levels; loaded /Fields and /Kids of up to 2 entries with 2 (T: 3) operations or 3 entries with none, entries of 6 kinds; up to 3 (T: 4) captions and check states; all highlighting modes and up to 2 of the 12 actions",
  "texts with characters outside ASCII against maximum lengths; signature fields' values; the parent of a field object retrieved before another field with its name was created; children created from fields that were loaded; items sorted or selected more than one at once; appearance streams of check boxes", witnesses=["flags", "types", "choice", "shared selection", "text", "shared text", "names", "form history", "child history", "loaded", "buttons", "common"])
C("C15", "c15_saveload.cpp", "fresh documents with 1 or 2 (T: 3) extra objects of any kind (nested to depth 1, T: 2, with symbolic string bytes) direct in the catalog or of their own; 1-2 (T: 3) streams with up to 3 (T: 5) free bytes in plain, flate or hex form and contents that contain stream keywords; histories of up to 5 (T: 6) additions and removals; objects under 2 (T: 3) chosen numbers and generations; up to 3 pages with boxes, rotation, contents and information entries; 4 combinations of the flate, clean and garbage options (T: all 8), table and stream cross-references, versions; what was loaded is saved and loaded again",
  "encrypted documents (C27); the modification date; the file identifier's value (its digest is modelled by a constant); files written to disk (C29 covers devices)", witnesses=["values", "streams", "history", "numbers", "pages"])
C("C16", "c16_update.cpp", "three original files (table, cross-reference stream, most objects in an object stream) with nested values, a stream, unreferenced objects and two pages; sequences of up to 2 (T: 3) of 22 modifications (keys, nested arrays and dictionaries, streams set and appended to with a free byte, values assigned and replaced, objects added and removed, pages added, removed and rotated, title, mere reading) and one update with or without garbage collection; 2 (T: 2-3) updates in a row by the same document or after loading again; raised and lowered versions",
  "encrypted documents (C27); rewriting the whole table; updates to anything but a copy of the original; exhausted object numbers; the modification date", witnesses=["sequence", "repeated", "version"])
C("C28", "c28_contents.cpp", "all 73 operators by name and number of operands, and every keyword of up to 3 bytes; sequences of 3 (T: 4) operands (9 kinds, symbolic name and string bytes) and keywords with two (T: four) kinds of separation; inline image data of up to 5 (T: 6) bytes over E, I, space and another, or 3 free bytes, with four endings; image handlers; page and two mutually or self-referring forms over 9-11 contents, followed or not; up to 3 (T: 4) content streams read by character, by block and with peeking; any 3 bytes (T: 4), or 2 (T: 4) after 8 openings; the warnings-are-errors flag",
  "external objects without /Type; image data containing EI and white space (ended there by definition); procedures' contents; references among operands", witnesses=["table", "sequence", "image", "handler", "forms", "parts", "bytes", "strict"])
C("C30", "c30_untrusted.cpp", "four files (cross-reference table; cross-reference and object stream; incremental update with table and /XRefStm; one with outlines, names, form, annotations, font and information): each with any one (T: two adjacent) bytes replaced by any values at every position, cut at every length, any 1-2 (T: 8) bytes removed anywhere, every number replaced by each of 24 extreme values or other objects, every token replaced by each of 16 others or nothing; files of up to 8 (T: 12) free bytes with or without header and end; page trees of three nodes of any links; lengths, filters and parameters that are other objects or the stream itself; 100 and 20000 nested containers; three sections linked to each other in any way; missing rows; outlines, fields, name trees and forms of two nodes linked in any way",
  "encrypted files (C27); fonts, images and other data outside the object structure; damage in several distant places; allocation limits; the standard library's own checks", witnesses=["damaged file loads", "damaged file is rejected", "extreme number accepted", "file with another token loads", "strange structure loads"], time={"quick": 75, "thorough": 900})
C("C36", "c36_painter.cpp", "every sequence of 5 (T: 6) calls among Save, Restore, two line widths, two fill colours and a pattern, painting after each; every 2 (T: 3) of 16 state calls with two values each; any state call on one canvas followed by any on another canvas or again on the same; every 3 (T: 4) text calls of 13 (begin, end, add, draw, move, two fonts, scale, spacings, rendering mode, colour, save, restore, next canvas) with and without a font set before; every path of 3 (T: 4) of ten path calls after a start, painted in each of seven ways, with and without a transformation; rounded rectangles, ellipses, circles, clip rectangles, six stroke styles with their options, XObjects; names of any 1 (T: 2) bytes; aligned and multi line text, tabs of 0 to 2 spaces; prior content on pages and forms with each combination of flags and 2 to 3 sessions",
  "arcs; setting different current matrices one after another (the calls concatenate); shading patterns and images; line breaking, underlines; numbers other than those used (C04 covers their form); control characters in names that have no PDFDocEncoding; call sequences that leave text objects open around saves or paths", witnesses=["state saved and restored", "state set", "second canvas", "text shown", "path painted", "shape painted", "names", "text in rectangles", "prior content kept"])
C("C37", "c37_sign.cpp", "every signature of 0 to 3 (T: 4) bytes within every reserved size up to that, with and without a page annotation, with and without an existing form; signatures 1 to 3 bytes larger than reserved 0 to 3; files whose signature lies at 200 (T: 800) places around the 64 KiB block in which a file is handed over (T: also the second block); two signatures one after another with and without loading in between, the first any byte, sizes 1 to 3; each entry recorded with a signature with any text of 0 to 1 (T: 2) printable characters; every combination of the Clean and NoFlateCompress options",
  "encrypted documents; files instead of memory devices; appearance streams; the cryptography itself, which is the signer's; SaveOptions that rewrite the date (the time is then not fixed)", witnesses=["signed", "signature too large", "signed in several blocks", "signed twice", "signature entries", "saving options"])

# what is specified and against what oracle
HOW = {
"C01": "Names are built from symbolic bytes, written with PdfName::Write and read back with the tokenizer; the written text is compared with an independent #xx encoder and decoding with an independent decoder. Tests sample a few names; here every byte in every position is covered by the solver.",
"C02": "Strings are built from symbolic raw bytes and from symbolic code points, written and read back; bytes, text and state are compared, and the stored form is compared with the document-encoding table or UTF-16BE computed in the harness.",
"C03": "The token's contents are symbolic; a byte-by-byte reference decoder of ISO 32000 7.3.4 gives the expected bytes and where the token ends.",
"C04": "Printed integers are compared with a reference decimal conversion over 64-bit arithmetic; reals are exact decimal fractions m/10^k whose correctly rounded text is computed with integers.",
"C05": "A reference lexer of ISO 32000 7.2 splits the symbolic input; the library's token sequence must equal it token by token, type by type. On top of it a reference value parser decides values, references, operators and the end of input.",
"C06": "Values are generated as symbolic trees, written in both styles, parsed, and compared through a canonical text of the harness (not the library's own operator==).",
"C07": "Pairs and triples of values with symbolic contents; equality must agree with a comparison of canonical forms, inequality with its negation, copies and moves with the original, order with strict total order.",
"C08": "Reference encoder and decoder in the harness; data, text and cut positions are symbolic.",
"C09": "Reference run-length decoder and reference LZW table; codes are chosen symbolically and packed by the harness.",
"C10": "Rows are symbolic; the harness predicts them with the defining formulas, the library must restore them, for all filter types, geometries and cuts.",
"C11": "Data and chains are symbolic; the harness keeps the plain data a history implies and decodes the written bytes between stream and endstream with its own filters, compares /Length and /Filter, and reads through every reading interface of the library.",
"C12": "PdfXRef and PdfXRefStream are driven with symbolically chosen histories; a reference reader of the table and stream format in the harness checks format, rows, chain and size, then the library's parser reads the section back.",
"C13": "The data of the cross-reference stream is symbolic; a reference decoder reads the fields by width; entries outside the ranges must stay untouched.",
"C31": "Complete files with a cross-reference stream are generated and read by the library's parser; the expected value of each object is the parse of its own text (C05, C06), the assignment is that of the generated cross-reference data.",
"C14": "A reference model keeps the live objects and the last generation of every number; after every history the list is compared with it: sizes, order, every lookup, contents, owner, free numbers.",
"C20": "A plain vector or list of pairs undergoes the same history; after it every element, lookup, iteration, owner and parent is compared, the object is marked clean by writing it and a change of any element through the tree must mark it again.",
"C29": "A string with a position undergoes the same history; each result, position, length, end-of-input state and failure is compared after every step, and at the end the target memory, including the bytes around a span.",
"C17": "A list of page identities undergoes the same history; page by page, identity (by the object and by the page size), number, index and lookup by reference are compared, also through references obtained before the operations, and the whole tree is walked to compare counts and parents.",
"C18": "A list of keys and last values; after the history the tree is walked to compare keys, order, and limits of every node, every key and a symbolic probe are looked up, and the dictionary form is compared.",
"C19": "A reference tree of titles undergoes the same history; then the links of the items, the links of the objects, and a second set of items loaded from the objects are each compared with it.",
"C21": "A reference parser of ISO 32000 7.9.4 and the W3C note, with its own calendar arithmetic, decides accepted or rejected and gives the instant and the offset; printed texts are compared with a reference text and parsed back.",
"C22": "The defining formulas in the harness over symbolic coordinates; the solver shows equality for all values, including signs and ties of comparisons.",
"C23": "The colour model in the harness: ranges, the CSS name table, the digits of hexadecimal texts and the conversion formulas of the PDF specification; the solver shows agreement for all values.",
"C24": "A list of insertions is the model; lookups by code, by code points and by text are compared with it for all symbolic codes, code points and random draws.",
"C25": "The sections are generated from a list of (code, size, code points), which is the model: every symbolic code of every size must be mapped as the list says.",
"C26": "Tables of code page 1252, Mac OS Roman, StandardEncoding, MacExpertEncoding, Symbol and ZapfDingbats written down in the harness, overridden by the differences as given, say what each code stands for; codes, texts and names are compared with them.",
"C35": "The page tree is built object by object with the entries at each level, and a copy of the document reads it; the nearest entry on the path, or the default, is what the page must report. A list of words stands for the contents.",
"C34": "A list of the annotations stands for the page's collection; a copy of the document reads what the setters wrote. For loaded pages the entries are built object by object and the reference list says which of them are annotations.",
"C33": "A table of the flags and their bits, a list of the items, and the values that were set stand for the fields; a copy of the document finds the fields again. For loaded forms the entries are built object by object.",
"C15": "The saved bytes are scanned by a reference reader that follows startxref, checks each cross-reference entry against the text it points at and walks the free list; the file is then loaded and every object compared with the one in the document, reachability being computed separately when garbage is collected.",
"C16": "The update is appended to the original bytes in memory; the reference reader of C15 checks the new section, and the file is loaded and compared object by object with the modified document.",
"C28": "A generator writes content and the list of events to expect from it; operator names and counts are listed from the specification; image data ends at the first EI before white space or the end.",
"C30": "Each file is loaded and everything readers follow is read. The runtime reports accesses outside heap allocations, uncaught exceptions other than the library's, signals, and runs over the step budget; the undamaged files must load.",
"C36": "An independent reader of content streams, with its own tokenizer and graphics state, replays the produced content and records every painting operator with its path in device space, its text and the state in effect; a model of the calls, which knows nothing of the content, records what should have been painted. Both records must be equal. Operands, nesting and resources are checked on the way.",
"C37": "A signer of the harness records the bytes it is handed and returns a symbolic signature. The signed file is read by the harness itself: it finds the byte range, requires the ranges and the gap to fill the file, the recorded bytes to equal the ranges and the gap to hold the hexadecimal form of the signature; an independent scanner then checks the cross-reference tables, and loading the file again must yield the field and its entries.",
}
