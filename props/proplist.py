# The properties: single source of properties.jsonl and MANIFEST.json (python3 spec.py writes both).
B = "src/pdfmm/base/"
PV = "src/pdfmm/private/"
def P(id, title, statement, over, qtext, why, files, mech, **kw):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    for k in ("state", "observe_at", "hook_needed"):
        if k in kw: d["anchors"][k] = kw[k]
    return d

PROPS = [
P("C01", "PDF names survive writing and reading unchanged",
  "Any sequence of name bytes, written as a PDF name object and read back, gives a name that compares equal and has the same bytes. The written form starts with '/', uses #xx escapes for every byte that is not a regular character, and decoding follows the #xx rule of the PDF specification.",
  ["inputs"], "every byte string up to the bound as a name; every raw name token up to the bound when decoding",
  "The escape rules depend on each byte class and on neighbouring hex digits; a test tries a few names out of 256^n.",
  [B + "PdfName.cpp", B + "PdfName.h"], [("EscapeName", B + "PdfName.cpp"), ("UnescapeName", B + "PdfName.cpp"), ("Write", B + "PdfName.cpp")]),
P("C02", "Strings survive writing and reading unchanged",
  "Any string value - raw bytes or Unicode text, written as a literal or as a hexadecimal string - reads back as an equal string with the same bytes and the same text. Text is stored in the document encoding when every character is representable there and otherwise as UTF-16BE with a byte order mark.",
  ["inputs"], "all byte strings and all valid Unicode strings up to the bound, in literal and hexadecimal form",
  "Escaping, encoding detection and surrogate handling depend on byte values and their combinations; a fixed list of strings misses the rare ones.",
  [B + "PdfString.cpp", B + "PdfTokenizer.cpp", PV + "PdfEncodingPrivate.cpp"], [("Write", B + "PdfString.cpp"), ("ReadString", B + "PdfTokenizer.cpp"), ("IsPdfDocEncodingCoincidentToUTF8 / TryConvertUTF8ToPdfDocEncoding", PV + "PdfEncodingPrivate.cpp")]),
P("C03", "String tokens decode as the PDF specification says",
  "For every literal string token, escapes (\\n \\r \\t \\b \\f \\( \\) \\\\, one to three octal digits, escaped line ends, unknown escapes that keep the character) and balanced parentheses decode to the bytes the PDF specification defines. For every hexadecimal string token, white space is ignored and an odd final digit is padded with zero.",
  ["inputs"], "every byte sequence up to the bound between the string delimiters",
  "The decoding is a state machine over byte classes; short tests sample a handful of its paths.",
  [B + "PdfTokenizer.cpp", B + "PdfString.cpp"], [("ReadString, ReadHexString", B + "PdfTokenizer.cpp"), ("FromHexData", B + "PdfString.cpp")]),
P("C04", "Numbers are printed and parsed without loss",
  "Every 64-bit integer prints as its exact decimal form and reads back as the same integer. A real prints as a plain decimal number (never with an exponent), correctly rounded to the requested precision without superfluous trailing zeros, and reads back as a number within that precision.",
  ["inputs"], "all 64-bit integers; all finite reals in the stated range and all precisions up to the bound",
  "Buffer and rounding errors show only at digit-count boundaries; 2^64 values cannot be sampled.",
  [B + "PdfVariant.cpp", B + "PdfTokenizer.cpp", PV + "PdfDeclarationsPrivate.cpp"], [("FormatTo", PV + "PdfDeclarationsPrivate.cpp"), ("ReadNextVariant / DetermineDataType", B + "PdfTokenizer.cpp"), ("Write", B + "PdfVariant.cpp")]),
P("C05", "Any byte sequence splits into the tokens of the PDF syntax",
  "For every byte sequence, the tokens delivered are exactly those of the PDF lexical rules: white space separates, comments run to the line end, delimiters end regular tokens, and dictionary brackets are single tokens. End of input is reported, no token is lost or read twice, and looking for a dictionary, array, number, reference, name, string, boolean or null yields the value the syntax defines.",
  ["inputs"], "every byte sequence up to the bound",
  "Token boundaries depend on every pair of adjacent byte classes and on end of input in every state.",
  [B + "PdfTokenizer.cpp"], [("TryReadNextToken", B + "PdfTokenizer.cpp"), ("DetermineDataType", B + "PdfTokenizer.cpp"), ("ReadDictionary / ReadArray", B + "PdfTokenizer.cpp")]),
P("C06", "Object values survive writing and reading unchanged",
  "Every object value - null, boolean, integer, real, string, name, reference, and arrays and dictionaries nesting them - written in either compact or clean style parses back to an equal value. Adjacent elements stay separated whatever their types.",
  ["inputs", "configurations"], "all trees of values up to the bound, in both write styles",
  "Separators depend on every pair of neighbouring types in each write mode; tests write a few sample objects.",
  [B + "PdfVariant.cpp", B + "PdfArray.cpp", B + "PdfDictionary.cpp", B + "PdfTokenizer.cpp"], [("Write", B + "PdfVariant.cpp"), ("Write", B + "PdfArray.cpp"), ("Write", B + "PdfDictionary.cpp"), ("Write", B + "PdfReference.cpp")]),
P("C07", "Equality, inequality and ordering of values obey their laws",
  "For all values of the library's value types, equality is reflexive, symmetric and agrees with the contents, inequality is its exact negation, and copies and moves compare equal to the original. References and names are strictly and totally ordered, consistently with equality.",
  ["inputs"], "all pairs and triples of values up to the bound",
  "The laws quantify over all pairs and triples, across types; unit tests compare a few equal samples.",
  [B + "PdfVariant.cpp", B + "PdfName.cpp", B + "PdfString.cpp", B + "PdfReference.cpp", B + "PdfArray.cpp", B + "PdfDictionary.cpp", B + "PdfObject.cpp"], [("operator== / operator!=", B + "PdfVariant.cpp"), ("operator<", B + "PdfReference.cpp"), ("operator==", B + "PdfString.cpp")]),
P("C08", "ASCII hex and base-85 filters are exact inverses and decode to spec",
  "Encoding any data with the ASCII hexadecimal or base-85 stream filter and decoding it returns the data, however it is cut into blocks. Decoding ignores white space, honours the end marker, pads odd or partial final groups as the specification says, and rejects invalid characters with an error.",
  ["inputs", "schedules"], "all data up to the bound and every split of it into two blocks; all encoded texts up to the bound",
  "Group arithmetic and state carried between blocks depend on the data, its length modulo the group and the split point.",
  [PV + "PdfFiltersPrivate.cpp", B + "PdfFilter.cpp"], [("PdfHexFilter", PV + "PdfFiltersPrivate.cpp"), ("PdfAscii85Filter", PV + "PdfFiltersPrivate.cpp")]),
P("C09", "Run-length and LZW decoding follow the specification",
  "Decoding any run-length data yields exactly the bytes the PDF specification defines, stopping at the end marker; decoding any LZW data yields the strings of the growing code table with the specified code widths and early change. The result does not depend on how the data is cut into blocks.",
  ["inputs", "schedules"], "all encoded data up to the bound and every split of it into two blocks",
  "The state machines carry runs, codes and widths across bytes and blocks; tests sample short well-formed streams.",
  [PV + "PdfFiltersPrivate.cpp"], [("PdfRLEFilter", PV + "PdfFiltersPrivate.cpp"), ("PdfLZWFilter", PV + "PdfFiltersPrivate.cpp")]),
P("C10", "Predictor decoding restores the original rows",
  "For each PNG predictor (none, sub, up, average, Paeth) and the TIFF predictor, with any supported number of columns, colours and bits per component, decoding applied to data that was predicted by the defining formula returns the original rows. It gives the same result however the data is cut into blocks.",
  ["inputs", "configurations"], "all row contents, row filters and geometry up to the bound",
  "The arithmetic wraps modulo 256 with neighbours that depend on pixel size; sampled images rarely exercise wrap-around and small pixels.",
  [PV + "PdfFiltersPrivate.cpp"], [("PdfPredictorDecoder", PV + "PdfFiltersPrivate.cpp")]),
P("C11", "Stream contents survive filter chains, and lengths are right",
  "Data stored in a stream object through any supported chain of filters reads back unfiltered as the same data, whether it is set at once or appended in parts. The dictionary's filter list describes the chain in decode order and the written length equals the number of bytes between the stream keywords.",
  ["inputs", "configurations"], "all data up to the bound and all filter chains up to the bound",
  "Order of the chain and buffering across parts is a combination no fixed test covers.",
  [B + "PdfObjectStream.cpp", B + "PdfMemoryObjectStream.cpp", B + "PdfFilter.cpp"], [("SetData / BeginAppend / EndAppend", B + "PdfObjectStream.cpp"), ("PdfFilterFactory", B + "PdfFilter.cpp"), ("Write", B + "PdfMemoryObjectStream.cpp")]),
P("C12", "A written cross-reference table gives back every entry",
  "For every set of used and freed object numbers with any offsets and generations, the written cross-reference section, in table or in stream form, lists each number with its exact offset and generation, and the free entries form one closed chain from object 0. Reading the section back gives the same entries.",
  ["inputs", "histories"], "all sets of entries up to the bound, all offsets up to ten digits",
  "Subsection splitting and free-list linking depend on the gaps between numbers; tests write contiguous numbers.",
  [B + "PdfXRef.cpp", B + "PdfXRefStream.cpp", B + "PdfParser.cpp", B + "PdfXRefEntry.cpp"], [("AddInUseObject / AddFreeObject / Write", B + "PdfXRef.cpp"), ("Write", B + "PdfXRefStream.cpp"), ("ReadXRefContents / ReadXRefSubsection", B + "PdfParser.cpp")]),
P("C13", "Cross-reference streams are decoded field by field",
  "For all field widths, index ranges and stream contents, a cross-reference stream yields for each listed object the type, offset or object-stream number, and generation or index the specification defines, with the defaults for zero-width fields. Data that is too short, and ranges that are negative or too large, are rejected with an error and never read outside the data.",
  ["inputs", "configurations"], "all field widths, index arrays and contents up to the bound",
  "Width and count arithmetic is attacker-controlled; overflow happens for values no sample file has.",
  [B + "PdfXRefStreamParserObject.cpp"], [("ReadXRefTable / ParseStream", B + "PdfXRefStreamParserObject.cpp"), ("GetIndices", B + "PdfXRefStreamParserObject.cpp")]),
P("C14", "Object numbers are unique and freed numbers are reused with care",
  "Through any history of creating, adding, replacing and removing indirect objects, every live reference resolves to exactly the object stored under it, no two live objects share a number, and iteration is in ascending order. A removed number is reused only with a higher generation, never once its generation is exhausted, and never while another object holds it.",
  ["histories"], "all histories of operations up to the bound, with any object numbers and generations",
  "The invariant concerns all interleavings of adding, freeing and reusing numbers.",
  [B + "PdfIndirectObjectList.cpp", B + "PdfIndirectObjectList.h"], [("getNextFreeObject / CreateObject", B + "PdfIndirectObjectList.cpp"), ("RemoveObject / AddFreeObject", B + "PdfIndirectObjectList.cpp"), ("ReplaceObject / PushObject", B + "PdfIndirectObjectList.cpp")]),
P("C15", "A saved document loads back with the same contents",
  "A document built through the API and saved loads again with the same pages, objects, stream contents, catalog and information entries, for every choice of write options. Every offset in its cross-reference data points at the object it names.",
  ["histories", "configurations"], "all documents up to the bound (values, strings, streams, removed objects) and the save options",
  "Saving and loading cross every layer; a contents-dependent fault in any of them shows only for particular values.",
  [B + "PdfMemDocument.cpp", B + "PdfWriter.cpp", B + "PdfParser.cpp", B + "PdfParserObject.cpp"], [("Save / Load", B + "PdfMemDocument.cpp"), ("WritePdfObjects", B + "PdfWriter.cpp"), ("ReadDocumentStructure / ReadObjects", B + "PdfParser.cpp")]),
P("C16", "Incremental updates keep the original bytes and add the changes",
  "Saving an update appends to the original file: all original bytes stay in place, and the new section links to the previous one. Loading the result shows exactly the modified document, with unmodified objects unchanged and removed objects gone.",
  ["histories"], "all sequences of modifications up to the bound to a loaded document, then saved as an update",
  "Which objects count as modified depends on the edit path taken; tests take one path.",
  [B + "PdfMemDocument.cpp", B + "PdfWriter.cpp", B + "PdfXRef.cpp", B + "PdfDataContainer.cpp"], [("SaveUpdate", B + "PdfMemDocument.cpp"), ("SetDirty / IsDirty", B + "PdfObject.cpp"), ("SetIncrementalUpdate", B + "PdfWriter.cpp")]),
P("C17", "Page operations keep the page tree consistent",
  "Through any history of appending, inserting and removing pages, and for any shape of loaded page tree, page i is the page the history implies, the page count matches, every tree node's count equals the pages below it and every node's parent links to it. Each page reports its own number.",
  ["histories", "inputs"], "all histories up to the bound on flat and nested trees up to the bound",
  "Indexing, caching and count maintenance interact across operations and tree shapes.",
  [B + "PdfPageCollection.cpp", B + "PdfPageTreeCache.cpp"], [("InsertPageAt / RemovePageAt", B + "PdfPageCollection.cpp"), ("getPageNode", B + "PdfPageCollection.cpp"), ("InsertPlaceHolder / DeletePage", B + "PdfPageTreeCache.cpp")]),
P("C18", "Name trees find every key that was added",
  "After any sequence of additions, each key of a name tree is found with the last value given to it, absent keys are not found, and a traversal gives exactly the keys and values. Keys stay sorted and every node's limits are the smallest and largest key below it.",
  ["histories"], "all sequences of additions up to the bound, with any keys, on empty and pre-filled trees",
  "Limits and splits depend on key order over the whole history.",
  [B + "PdfNameTree.cpp"], [("AddValue / Rebalance", B + "PdfNameTree.cpp"), ("GetValue / getKeyValue", B + "PdfNameTree.cpp"), ("ToDictionary", B + "PdfNameTree.cpp")]),
P("C19", "Outline items keep a consistent linked tree",
  "Through any history of creating, inserting and erasing outline items, forward and backward links, parents, and first and last children describe the same tree, and that tree is the one the history implies. Reloading the outlines from their objects gives the same tree.",
  ["histories"], "all histories of outline operations up to the bound",
  "Link updates differ for first, middle and last positions and combinations of them.",
  [B + "PdfOutlines.cpp"], [("CreateChild / CreateNext / InsertChild", B + "PdfOutlines.cpp"), ("Erase", B + "PdfOutlines.cpp"), ("SetPrevious / SetNext / SetFirst / SetLast", B + "PdfOutlines.cpp")]),
P("C20", "Arrays and dictionaries behave as sequences and maps",
  "Through any history of operations, a PDF array equals the sequence and a PDF dictionary equals the map that the same operations produce on a plain sequence or map, including lookups through references and typed accessors with defaults. Every change marks the owning object as modified; reading does not.",
  ["histories"], "all histories of operations up to the bound",
  "Equivalence to the abstract container is a statement about histories.",
  [B + "PdfArray.cpp", B + "PdfDictionary.cpp", B + "PdfObject.cpp", B + "PdfDataContainer.cpp"], [("insert / erase / SetAtIndirect / RemoveAt", B + "PdfArray.cpp"), ("AddKey / RemoveKey / FindKey / GetKeyAs", B + "PdfDictionary.cpp"), ("SetDirty", B + "PdfObject.cpp")]),
P("C21", "Dates convert to and from text without loss",
  "Every instant with a valid time zone offset prints as a PDF date and as a W3C date that denote that instant and parse back to it. Parsing accepts exactly the date forms of the specification, in full or shortened after any field, with correct field ranges and time-zone sign.",
  ["inputs"], "all instants of the years in the bound, all offsets; all date texts up to the bound",
  "Calendar, sign and truncation cases are spread thin over a large input space.",
  [B + "PdfDate.cpp"], [("Parse / ParseW3C", B + "PdfDate.cpp"), ("ToString / ToStringW3C", B + "PdfDate.cpp")]),
P("C22", "Rectangles and transformation matrices obey their algebra",
  "A rectangle converts to and from its four-number array without change, for corners given in any order; intersection gives the common area and is empty exactly when there is none. Matrix products, translation, scaling and rotation compose as row-vector transformations.",
  ["inputs"], "all coordinates in the bound",
  "Corner orderings and sign cases multiply; tests use ordinary rectangles.",
  [B + "PdfRect.cpp", B + "PdfMath.cpp"], [("FromArray / ToArray / Intersect", B + "PdfRect.cpp"), ("operator* / CreateRotation", B + "PdfMath.cpp")]),
P("C23", "Colours convert and print consistently",
  "Component values outside 0 to 1 are rejected; a colour's array form reads back as the same colour, and the textual forms (named, hexadecimal, gray and arrays) parse to the colour they denote. Conversions between gray, RGB and CMYK follow the defining formulas and stay in range.",
  ["inputs"], "all component values on the stated grid; all texts up to the bound",
  "Every branch of the parser and conversions depends on exact component values.",
  [B + "PdfColor.cpp"], [("FromString / FromArray / ToArray", B + "PdfColor.cpp"), ("ConvertToGrayScale / ConvertToRGB / ConvertToCMYK", B + "PdfColor.cpp")]),
P("C24", "Character code maps find every mapping that was added",
  "After any sequence of insertions of character code to code-point mappings, each code maps to the last code points given and absent codes do not. Reverse lookup of text picks the longest matching mapping and returns a code that maps to exactly the matched code points.",
  ["histories", "inputs"], "all sequences of insertions up to the bound, all codes and texts",
  "The reverse tree's shape depends on insertion order and shared prefixes.",
  [B + "PdfCharCodeMap.cpp"], [("PushMapping", B + "PdfCharCodeMap.cpp"), ("TryGetNextCharCode / TryGetCharCode", B + "PdfCharCodeMap.cpp"), ("TryGetCodePoints", B + "PdfCharCodeMap.cpp")]),
P("C25", "Character maps in fonts are read and written faithfully",
  "Reading a character map program gives exactly the code to code-point mappings its character and range sections define, for every code width; malformed sections are rejected or skipped without hanging. A character map written for a font's encoding maps every code as that encoding does.",
  ["inputs"], "all section bodies up to the bound",
  "Range arithmetic on multi-byte codes and destination strings has many boundary cases.",
  [B + "PdfCMapEncoding.cpp", B + "PdfEncodingMap.cpp", B + "PdfEncoding.cpp", B + "PdfIdentityEncoding.cpp"], [("parseCMapObject / handleRangeMapping", B + "PdfCMapEncoding.cpp"), ("AppendToUnicodeEntries / AppendCIDMappingEntries", B + "PdfEncodingMap.cpp")]),
P("C26", "Text encodings map codes and characters consistently",
  "For each predefined encoding and any table of differences over it, the code of a character maps back to that character, overridden codes use the replacement, and glyph names and characters convert as the glyph list defines. Encoding a text and decoding the result gives the text whenever every character is representable.",
  ["inputs"], "all codes and code points; all difference tables up to the bound",
  "Hundreds of table entries times overrides; tests look up a few.",
  [B + "PdfPredefinedEncoding.cpp", B + "PdfDifferenceEncoding.cpp", B + "PdfEncodingMap.cpp", B + "PdfEncoding.cpp", PV + "PdfEncodingPrivate.cpp"], [("AddDifference / tryGetCharCode", B + "PdfDifferenceEncoding.cpp"), ("NameToCodePoint / CodePointToName", B + "PdfDifferenceEncoding.cpp"), ("initialize", B + "PdfPredefinedEncoding.cpp")]),
P("C27", "Encrypted data decrypts to the original; passwords gate access",
  "For every supported encryption algorithm, key length and object number, encrypting any data and decrypting it with the same document key returns the data. The user and the owner password authenticate, any other password does not, and the permissions read back are the ones that were set.",
  ["inputs", "configurations"], "all data, passwords and object numbers up to the bound; every algorithm and key length",
  "Padding and key derivation depend on lengths and numbers a test fixes once.",
  [B + "PdfEncrypt.cpp", B + "PdfStatefulEncrypt.cpp"], [("Encrypt / Decrypt", B + "PdfEncrypt.cpp"), ("Authenticate", B + "PdfEncrypt.cpp"), ("CreateObjKey", B + "PdfEncrypt.cpp")]),
P("C28", "Content streams are read as their operators and operands",
  "Reading any content stream yields each operator with exactly its preceding operands in order, and inline images with their dictionary and their exact data up to the end marker. An operator written by the library is read back as the same operator.",
  ["inputs"], "every content byte sequence up to the bound",
  "Inline image ends and operator names are found by scanning arbitrary bytes.",
  [B + "PdfContentsReader.cpp", B + "PdfOperatorUtils.cpp", B + "PdfPostScriptTokenizer.cpp"], [("TryReadNext", B + "PdfContentsReader.cpp"), ("tryReadInlineImgData", B + "PdfContentsReader.cpp"), ("TryGetPdfOperator", B + "PdfOperatorUtils.cpp")]),
P("C29", "Memory and file devices behave as a seekable byte sequence",
  "Through any history of reads, writes, peeks and seeks, each stream device behaves as one byte sequence with a position: reads return what was written there, lengths and end of input are right, and accesses out of range fail without touching other memory.",
  ["histories"], "all histories of device operations up to the bound",
  "Position and length bookkeeping interacts across operations.",
  [B + "PdfStreamDevice.cpp", B + "PdfStreamDevice.h", B + "PdfInputStream.cpp", B + "PdfOutputStream.cpp", B + "PdfInputDevice.cpp"], [("readBuffer / writeBuffer / seek", B + "PdfStreamDevice.cpp"), ("Read / ReadChar", B + "PdfInputStream.cpp")]),
P("C30", "Reading untrusted files never corrupts memory or hangs",
  "Whatever the bytes of a file are, loading it, and then reading its pages, streams, outlines, names, form fields, annotations and page contents, either succeeds or fails with the library's error type: no access outside allocated memory, no other exception, no unbounded recursion and no endless loop. This covers headers, cross-reference tables and streams, trailers, objects, object streams and damaged variants of valid files.",
  ["inputs"], "every replacement of the bytes in the chosen windows of structured files",
  "Memory safety of a parser is a statement about all inputs.",
  [B + "PdfParser.cpp", B + "PdfParserObject.cpp", B + "PdfTokenizer.cpp", B + "PdfXRefStreamParserObject.cpp", B + "PdfObjectStreamParser.cpp"], [("ReadDocumentStructure / ReadXRefContents", B + "PdfParser.cpp"), ("ParseStream", B + "PdfParserObject.cpp"), ("RecursionGuard", PV + "PdfDeclarationsPrivate.cpp")]),
P("C31", "Objects inside object streams are extracted exactly",
  "For every object stream, each object listed in its header is extracted with the value at its offset and with generation 0, and only objects that the cross-reference assigns to the stream are taken. Malformed headers and offsets are errors, never reads outside the data.",
  ["inputs"], "all headers and contents up to the bound",
  "Offsets and counts are input-controlled.",
  [B + "PdfObjectStreamParser.cpp"], [("Parse / readObjectsFromStream", B + "PdfObjectStreamParser.cpp")]),
P("C32", "Subset fonts keep the used glyphs and valid tables",
  "A TrueType subset contains the outlines and metrics of exactly the requested glyphs (and the glyphs they are composed of) unchanged, in requested order, with a directory whose offsets, lengths and checksums are right. A damaged font file is rejected with an error and never read outside its data.",
  ["inputs"], "all glyph selections from small fonts with symbolic tables up to the bound",
  "Table offsets and composite references come from the font; tests subset one font one way.",
  [B + "PdfFontTrueTypeSubset.cpp"], [("BuildFont / WriteTables", B + "PdfFontTrueTypeSubset.cpp"), ("LoadGlyphs / LoadGID", B + "PdfFontTrueTypeSubset.cpp")]),
P("C33", "Form fields keep their values and options",
  "Values, options, selections, flags and names set on text, choice and button fields are read back as set, through any history of setting and removing, and as inherited from parent fields. Setting one flag never changes another.",
  ["histories", "inputs"], "all histories of field operations up to the bound",
  "Flag bits and option indices interact across operations.",
  [B + "PdfField.cpp", B + "PdfChoiceField.cpp", B + "PdfTextBox.cpp", B + "PdfButton.cpp", B + "PdfAcroForm.cpp"], [("SetFieldFlag / GetFieldFlag", B + "PdfField.cpp"), ("InsertItem / RemoveItem / SetSelectedIndex", B + "PdfChoiceField.cpp"), ("SetText / SetMaxLen", B + "PdfTextBox.cpp")]),
P("C34", "Annotations keep their place, flags and contents",
  "Through any history of creating and deleting annotations on a page, the page lists exactly the surviving annotations in order, and rectangle, flags, border, title, contents, colour and quad points read back as set.",
  ["histories", "inputs"], "all histories up to the bound and all values on the stated grids",
  "Removal re-indexes the list; the index map is history dependent.",
  [B + "PdfAnnotation.cpp", B + "PdfAnnotationCollection.cpp"], [("CreateAnnot / RemoveAnnotAt / RemoveAnnot", B + "PdfAnnotationCollection.cpp"), ("SetFlags / SetRect / SetColor", B + "PdfAnnotation.cpp")]),
P("C35", "Page boxes, rotation, resources and contents follow the page tree",
  "For a page at any depth of the page tree, the media, crop, bleed, trim and art boxes, rotation and resources are the page's own or those of the nearest ancestor that has them, with the specified defaults. Boxes and rotations set on a page are read back as set and leave other pages alone; resources added to a page are found by type and name. The contents of a page are those of its streams in order, separated as tokens, also after content is added in front or behind, and a form made from the page shows the same contents with the same resources.",
  ["inputs", "configurations", "histories"], "all placements of the entries on the path to the root up to the bound; all box and rotation values on the grid; all histories up to the bound",
  "Presence at each level times each entry is a product of cases.",
  [B + "PdfPage.cpp"], [("FindInheritedAttribute / getPageBox", B + "PdfPage.cpp"), ("SetMediaBox / SetRotationRaw", B + "PdfPage.cpp"), ("GetRect / GetRectRaw", B + "PdfPage.cpp")]),
P("C36", "Painting emits well-formed content that paints what was called",
  "For every sequence of painter calls that the API accepts and that nests saves, text objects and paths properly, the content produced parses as operators with the right number and kind of operands, saves, text objects and marked content are balanced after finishing, text objects contain nothing that is not allowed there, and everything named is in the resources of the canvas. Each painting call paints exactly its path, text or XObject, in order, in the state (line style, colours, patterns, dash, transformation, font and text state) that the calls before it set, where Save and Restore, text objects and new canvases act on that state as in the content; content that the canvas had before is kept exactly once and, unless asked otherwise, does not influence what is painted after it.",
  ["histories"], "all sequences of painter calls up to the bound, with values on the stated grids, and names of any bytes",
  "State save/restore and text object nesting is a property of call sequences.",
  [B + "PdfPainter.cpp", B + "PdfGraphicsState.cpp", B + "PdfTextState.cpp"], [("Save / Restore / FinishDrawing", B + "PdfPainter.cpp"), ("DrawRect / DrawCircle / Rectangle", B + "PdfPainter.cpp")]),
P("C37", "A signed file's byte range covers all but the signature",
  "After signing a loaded document onto the device that holds it, the earlier bytes stay in place, and the byte-range entry names two ranges that together cover every byte of the file except the signature value with its two delimiters; the bytes handed to the signer are exactly those ranges, in order. The signature placed in the file is the one the signer returned, in hexadecimal, filled up with zero bytes to the reserved size; a larger one is rejected. The signed file loads again, with the signature field, its recorded entries and any earlier signature intact.",
  ["inputs", "histories"], "all signer outputs and buffer sizes up to the bound",
  "The ranges depend on the position and width of numbers patched after writing.",
  [B + "PdfSigner.cpp", B + "PdfSignature.cpp"], [("SignDocument", B + "PdfSigner.cpp"), ("PrepareForSigning", B + "PdfSignature.cpp")]),
P("C38", "JPEG, CCITT and flate compressed data round-trips",
  "Image and flate data compressed by the library decompresses to the original data, losslessly where the codec is lossless.",
  ["inputs"], "all data",
  "Compression state spans the whole input.",
  [PV + "PdfFiltersPrivate.cpp", B + "PdfImage.cpp"], [("PdfFlateFilter / PdfDCTFilter / PdfCCITTFilter", PV + "PdfFiltersPrivate.cpp")]),
P("C39", "Font metrics and text widths agree with the font program",
  "Glyph widths, ascent, descent and text extents reported for a font equal those of the font program, scaled to the text state.",
  ["inputs"], "all fonts and texts",
  "Every font and every glyph would have to be tried.",
  [B + "PdfFontMetricsFreetype.cpp", B + "PdfFont.cpp"], [("GetGlyphWidth / GetStringWidth", B + "PdfFont.cpp")]),
P("C40", "Metadata packets reflect the information dictionary",
  "Writing metadata keeps the XMP packet and the information dictionary in agreement, and reading a packet gives the values it was written with.",
  ["inputs"], "all metadata values",
  "Escaping and namespace handling depend on the text.",
  [PV + "XMPUtils.cpp", B + "PdfXMPPacket.cpp"], [("GetXMPMetadata / UpdateOrCreateXMPMetadata", PV + "XMPUtils.cpp")]),
P("C41", "Text extraction returns the text that was drawn",
  "Extracting text from a page returns the strings its content shows, decoded by the font's encoding, at the positions the text and transformation state imply.",
  ["inputs", "histories"], "all content streams over text operators up to the bound",
  "Positions accumulate over the operator sequence.",
  [B + "PdfPage_TextExtraction.cpp"], [("ExtractTextTo", B + "PdfPage_TextExtraction.cpp")]),
]
