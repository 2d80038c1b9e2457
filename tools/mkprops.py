import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
p("C01","Parsing any byte sequence terminates without a panic",
 "For every byte sequence, parsing it as a font returns either a font or an error in bounded time: it never panics and never loops forever. Malformed offsets, lengths, counts, character ranges and component lists are reported as errors or tolerated, whatever table they occur in.",
 ["inputs"],"every byte string handed to the parser; in particular every content of every table and of the table directory",
 "The tests only parse two intact fonts; hostile lengths, decreasing glyph offsets, ranges ending at 0xFFFF and truncated tables are never fed in.",
 ["font.go","table_record.go","table_loca.go","table_glyf.go","table_cmap.go","table_post.go","table_name.go","table_hmtx.go","byte_reader.go"],
 [("parseFont","font.go"),("range checks of the table parsers","table_*.go")],["Parse"])
p("C02","Validation accepts exactly the fonts whose checksums are right",
 "Validating a byte sequence that parses as a font succeeds exactly when the whole-file checksum adjustment stored in the header table matches the file and every table listed in the directory lies inside the file and matches its recorded checksum. In particular, changing any single byte of table data in a valid font makes validation fail, and validation never panics.",
 ["inputs"],"every parsable font image, every single-byte corruption position and value",
 "The tests validate two or three intact files and never a corrupted one, so a validator that accepts everything passes them.",
 ["validate.go","byte_writer.go","export.go"],[("validate","validate.go"),("checksum","byte_writer.go")],["ValidateBytes","ValidateFile"])
p("C03","Every written font is a well-formed, self-consistent font file",
 "For every font that was parsed, writing it produces a file whose directory lists the number of tables its header announces, each table inside the file and overlapping no other, with the right checksum, binary-search fields derived from the table count, and a whole-file checksum adjustment that is right. The library's own validation and parser accept every such file.",
 ["inputs","configurations"],"every parsed font: every combination of optional tables, table sizes (also not multiple of four) and contents",
 "TestReadWrite checks one file with all tables present and never looks at the directory itself.",
 ["font.go","table_record.go","table_offset.go","byte_writer.go"],[("write","font.go"),("Set","table_record.go"),("checksum","byte_writer.go")],["Write","ValidateBytes","Parse"])
p("C04","Header and metrics-summary tables survive a read-write cycle",
 "Reading a font and writing it back preserves every field of the header, horizontal header, maximum profile and OS/2 tables for every version of them the library accepts; only the checksum adjustment and reserved fields may change. The same holds for the PostScript table's header fields other than its version.",
 ["inputs"],"every field value and every supported table version",
 "Tests look at a handful of maxp fields in two fonts; swapped, truncated or sign-mangled fields elsewhere go unnoticed.",
 ["table_head.go","table_hhea.go","table_maxp.go","table_os2.go","table_post.go","byte_reader.go","byte_writer.go"],
 [("parseHead/writeHead","table_head.go"),("parseHhea/writeHhea","table_hhea.go"),("parseMaxp/writeMaxp","table_maxp.go"),("parseOS2Table/writeOS2","table_os2.go"),("parsePost/writePost","table_post.go")],["Parse","Write"])
p("C05","Glyph outlines survive a read-write cycle glyph by glyph",
 "After reading a font and writing it back, the outline data located for each glyph index in the written file is byte for byte the data located for it in the input, for short and long index formats and however the input laid the outlines out (including data before the first glyph, gaps and trailing data). The glyph data offset query reports, for every glyph index in range, the position and length the font's index table gives, and an error for every other index.",
 ["inputs"],"every glyph count, index format, outline length and layout within the file",
 "The test compares one font whose outlines are stored contiguously from offset zero.",
 ["table_glyf.go","table_loca.go","font.go"],[("parseGlyf/writeGlyf","table_glyf.go"),("GetGlyphDataOffset/parseLoca/writeLoca","table_loca.go")],["Parse","Write","GetGlyphDataOffset"])
p("C06","Horizontal metrics survive writing and optimization",
 "For every glyph, the advance width and left side bearing defined by a font's metrics tables are the same in the file written back, and optimizing the font before writing does not change them. Optimization never makes the metrics table longer, and leaves no removable repeated trailing advance width.",
 ["inputs"],"every number of full metrics relative to the glyph count, every run of equal advances and every value",
 "Three hand-written cases cover the optimizer; none covers equal widths throughout, or the write and re-read of the result.",
 ["table_hmtx.go","table_hhea.go","export.go"],[("optimizeHmtx/parseHmtx/writeHmtx","table_hmtx.go")],["Parse","Optimize","Write"])
p("C07","Naming-table records survive a read-write cycle",
 "Reading a font and writing it back preserves every naming record, in order: platform, encoding, language and name identifiers and the exact string bytes, in both table formats, including language tags of format 1 and strings that share storage in the input.",
 ["inputs"],"every record count, both formats, every placement and length of strings",
 "Tests read names of two fonts in format 0 and never write them back for comparison.",
 ["table_name.go"],[("parseNameTable/writeNameTable","table_name.go")],["Parse","Write"])
p("C08","Character maps are decoded as the OpenType formats define them",
 "For a font with a character map subtable of format 0, 4, 6 or 12, the mapping returned for its platform and encoding sends a character to the glyph the OpenType definition of that format assigns to the character's code, and characters the definition leaves unmapped are absent or map to glyph 0. This covers segment deltas modulo 65536, glyph-array indirection and 32-bit code ranges; when several codes decode to one character, the first wins.",
 ["inputs"],"every segment/range layout, delta, offset, glyph array and code value",
 "Spot checks of a few characters in two fonts; format 0, glyph-array indirection and wrap-around are not exercised.",
 ["table_cmap.go","encoding.go","export.go"],[("parseCmapSubtableFormat0/4/6/12","table_cmap.go"),("getCmapEncoding/runeDecoder","encoding.go")],["GetCmap","LookupRunes"])
p("C09","Character mappings survive a read-write cycle",
 "After reading a font and writing it back, every supported character map subtable is present in the written file under the same platform and encoding, and maps every character code to the same glyph as before. Subtables in formats the library does not support are dropped without damaging the others.",
 ["inputs","configurations"],"every mixture of subtables of supported and unsupported formats, with any contents",
 "The tests rewrite two fonts that contain only supported formats and compare map sizes and six characters.",
 ["table_cmap.go"],[("writeCmap","table_cmap.go"),("writeCmapSubtableFormat0/4/6/12","table_cmap.go")],["Parse","Write","GetCmap"])
p("C10","Rune lookup follows a fixed search order and is repeatable",
 "Looking up runes returns one glyph per rune, in order: the glyph of the first character map containing the rune, searching Windows Unicode BMP, then Macintosh Roman, then Unicode BMP, then Windows full Unicode; glyph 0 if none contains it. The same font and runes always give the same answer, also when a font offers several subtables for the same platform and encoding.",
 ["inputs","histories","schedules"],"every set of character maps, every rune list, every iteration order of the in-memory tables",
 "No test calls the lookup; map iteration order cannot be sampled reliably.",
 ["export.go","table_cmap.go"],[("LookupRunes/GetCmap","export.go")],["LookupRunes","GetCmap"])
p("C11","Subsetting keeps everything the requested glyphs need",
 "Subsetting a font to glyph indices or runes keeps, at their original indices, the outlines of all requested glyphs and of every glyph they reach through composite references at any depth, byte for byte, together with their advance width and side bearing. This holds for cyclic references, repeated indices and indices beyond the font's glyph count, and survives writing the subset out.",
 ["inputs"],"every font, every component graph, every list of indices or runes",
 "No test calls any subsetting function.",
 ["export.go","table_glyf.go","table_hmtx.go"],[("SubsetKeepIndices/SubsetKeepRunes","export.go"),("GetComponents/parseComposite","table_glyf.go")],["SubsetKeepIndices","SubsetKeepRunes","Write","GetGlyphDataOffset"])
p("C12","Subsetting drops everything else",
 "A font subset to given glyphs contains no outline data for glyphs neither requested nor needed by a requested one, has exactly as many glyphs as the highest kept index plus one, at least one (or the original count if that is smaller), and no character of it maps to a glyph index outside that range. The subset is never larger in outline data than the original.",
 ["inputs"],"every font and every list of indices or runes",
 "No test calls any subsetting function.",
 ["export.go","table_glyf.go","table_cmap.go"],[("SubsetKeepIndices/SubsetFirst","export.go")],["SubsetKeepIndices","SubsetKeepRunes","Write","GetCmap"])
p("C13","Truncating to the first n glyphs keeps exactly those",
 "Limiting a font to its first n glyphs leaves the outlines and metrics of glyphs 0 to n-1 unchanged and removes all others; characters mapping to a kept glyph map to the same glyph as before, and no character maps to a removed one, both in memory and in the written file, for every character map format; the character maps in the written file are sorted and complete, so that a reader can search them. If the font has at most n glyphs it is unchanged.",
 ["inputs"],"every font and every n",
 "No test calls any subsetting function.",
 ["export.go","table_cmap.go"],[("SubsetFirst","export.go")],["SubsetFirst","Write","GetCmap","GetGlyphDataOffset"])
p("C14","Every subset font can be written, validated and read again",
 "For every font and every subsetting request that succeeds, writing the subset succeeds and yields a file which the library validates and parses, with table sizes that agree with its glyph count (where those of the original do). This also holds after further subsetting, pruning and optimizing.",
 ["inputs","histories"],"every font, every sequence of subsetting, pruning and optimizing",
 "No test subsets a font, let alone a subset of one.",
 ["export.go","font.go","table_*.go"],[("SubsetFirst/SubsetKeepIndices","export.go"),("write","font.go")],["Write","ValidateBytes","Parse"])
p("C15","Deriving or writing a font leaves the original usable and unchanged",
 "Subsetting a font, and working with the derived font (as long as it is another object), never changes what the original font answers or writes; writing a font, validating and querying it does not change it either. A font can therefore be subset repeatedly with different requests, each giving what it would give on a freshly parsed font.",
 ["histories","inputs"],"every sequence of subset, query and write operations on one font and its derivatives",
 "Each test uses a font object once; aliasing between a font and its subsets shows only in multi-step histories.",
 ["export.go","font.go","table_cmap.go","table_glyf.go"],[("copying in SubsetFirst/SubsetKeepIndices","export.go")],["SubsetFirst","SubsetKeepIndices","Write","GetCmap","LookupRunes"],
 [dict(name="shared tables",meaning="table structures shared between a font and fonts derived from it",where="export.go")])
p("C16","Input and output failures are always reported",
 "If the source fails at any read or repositioning, or ends early, during parsing or validation of data the operation needs, the operation returns an error instead of a font or a pass verdict. If the destination fails to take the complete output at any point, writing returns an error.",
 ["fault_sequences","inputs"],"every position of the first failing read, seek or write",
 "All tests use intact files and in-memory buffers that cannot fail.",
 ["byte_reader.go","byte_writer.go","font.go","validate.go","export.go"],[("read/readSlice/readBytes","byte_reader.go"),("flush","byte_writer.go")],["Parse","ValidateFile","Write","WriteFile"])
p("C17","Writing is deterministic and reaches a fixed point",
 "Writing the same font twice gives identical bytes, and parsing a written font and writing it again reproduces the file exactly.",
 ["histories","inputs","schedules"],"every font; every iteration order of in-memory tables",
 "No test writes twice or compares written files.",
 ["font.go","table_cmap.go","table_name.go","table_post.go"],[("write","font.go")],["Write","Parse"])
p("C18","Hinting programs and control values survive unchanged",
 "The font program, control value program and control value table of a font are preserved by reading, writing and every form of subsetting: same bytes, present exactly if they were present.",
 ["inputs","configurations"],"every length (zero, odd, large) and content, every combination of presence",
 "No test looks at these tables.",
 ["table_cvt.go","table_fpgm.go","table_prep.go","export.go"],[("parseCvt/writeCvt","table_cvt.go"),("parseFpgm/writeFpgm","table_fpgm.go"),("parsePrep/writePrep","table_prep.go")],["Parse","Write","SubsetFirst","SubsetKeepIndices"])
p("C19","Pruning removes exactly the named tables",
 "Pruning the character map, PostScript or naming table removes exactly those tables from what is written and answered, ignores other names, and leaves every other table's content as it would have been without pruning; the pruned font still writes as a valid font and no operation on it panics.",
 ["inputs","histories"],"every font, every list of names in every order",
 "No test prunes tables.",
 ["export.go","font.go"],[("PruneTables","export.go"),("numTablesToWrite/write","font.go")],["PruneTables","Write","GetNameByID","LookupRunes"])
p("C20","Names are looked up and decoded by identifier and platform",
 "Querying a name identifier returns the text of the first naming record carrying it, and an empty string if there is none; the per-language listing contains exactly the (language, identifier) pairs present. Unicode and Windows Unicode strings are decoded as UTF-16 big endian, Macintosh strings as Mac Roman, with unprintable characters shown quoted.",
 ["inputs"],"every record list and every string content and length",
 "Tests compare names of two fonts, all on Macintosh and Windows Unicode platforms and made of common characters.",
 ["table_name.go","internal/strutils/encoding.go"],[("GetNameByID/GetNameRecords/Decoded","table_name.go"),("UTF16ToString","internal/strutils/encoding.go")],["GetNameByID","GetNameRecords"])
p("C21","Glyph names are read from every PostScript table version",
 "For PostScript tables of version 1, 2 and 2.5 the glyph names reported for a font are those the format defines: the standard Macintosh names in order, the standard or custom name its index selects, or the standard name at the given displacement. A version 1 or 2 table inconsistent with the glyph count, or a version 2 table referring to names that are not stored, is rejected, and version 3 carries no names.",
 ["inputs"],"every name index, displacement and custom name list",
 "Glyph names are not looked at by any test, and only versions 2 and 3 occur in the test fonts.",
 ["table_post.go","encoding.go"],[("parsePost","table_post.go"),("macGlyphNames","encoding.go")],["Parse","TableInfo"])
p("C22","Text transcoding round-trips",
 "Encoding any text as UTF-16 big endian and decoding it gives the text back, and decoding never alters the caller's data; text made of PDFDocEncoding characters survives encoding and decoding, and characters outside that encoding are skipped without affecting the others.",
 ["inputs"],"every string up to the bound; every rune including supplementary planes; every byte",
 "Six sample strings, none with characters outside the basic multilingual plane.",
 ["internal/strutils/encoding.go","internal/strutils/pdfdocenc.go"],[("UTF16ToRunes/StringToUTF16/StringToPDFDocEncoding","internal/strutils/encoding.go")],["internal/strutils"])
p("C23","No operation on a parsed font panics",
 "On every font the parser accepted, whatever optional tables it lacks, every query, subsetting, pruning, optimizing and writing operation returns normally or with an error for every argument value, including negative, zero and out-of-range numbers and empty lists.",
 ["inputs","configurations","histories"],"every combination of absent optional tables and every argument value",
 "The tests call queries on complete fonts only and subsetting never.",
 ["export.go","table_loca.go","table_name.go","table_hmtx.go","table_glyf.go"],[("nil and range checks","export.go")],["Font methods"])
p("C24","File-based and in-memory entry points agree",
 "Parsing, validating and writing through file paths gives the same result as doing it through readers and writers on the same bytes; a written file holds exactly the bytes of the in-memory output, replacing earlier content, and a file that cannot be opened or created is reported as an error.",
 ["inputs","fault_sequences"],"every font content, earlier file content and open/create failure",
 "TestReadWrite writes and validates one file and never compares it with the in-memory form.",
 ["export.go"],[("ParseFile/ValidateFile/WriteFile","export.go")],["ParseFile","ValidateFile","WriteFile"])
p("C25","The command line tool reports what the library found",
 "A truecli command ends with exit status 0 exactly when it has its arguments and the library operations it wraps (parse, write back, validate, subset) succeed on them; a glyph index argument that is no number or does not fit 16 bits is a failure. On success the output file (in the place named by -o or the default one) is exactly what the library writes for that operation and passes validation; on failure no output file appears and one that was there before is left alone. The input file is never altered, except where it is named as the output.",
 ["inputs","configurations"],"every font file and argument list",
 "truecli has no tests at all.",
 ["truecli/cmd/*.go"],[("cobra commands","truecli/cmd")],["truecli"])
p("C26","The description of a font states what its tables hold",
 "The description of a parsed font lists every table of its directory in order, with tag and length (bytes up to 1024, then kB, then MB with two decimals). Asking about one of the described tables reports it missing exactly when the font has none and otherwise states the numbers its tables define: advance widths, side bearings, index entries, outlines and their total size, character map version and subtables, glyphs with names. The same holds for fonts derived by subsetting, pruning or optimizing, apart from the directory; other names are answered as unsupported.",
 ["inputs","configurations"],"every table set, table length, printable tag, queried name and derived font",
 "No test calls the description; only a person reading the tool's output would notice a wrong number.",
 ["font.go","export.go","table_record.go","type.go"],[("TableInfo/String","font.go"),("tableRecords","table_record.go")],["TableInfo","String"])
p("C27","Derived fonts keep what is said about the font as a whole",
 "Subsetting to indices, runes or the first glyphs, pruning other tables and optimizing leave the font-wide data as it was in what the font answers and writes: every header field but the checksum adjustment and the index format, every horizontal header field but the number of metrics and reserved ones, every limit of the maximum profile but the glyph count, the OS/2 table, the PostScript header fields but the version, and all naming records. Each of these tables is present exactly if it was, and the glyphs that remain keep their names.",
 ["inputs","histories"],"every field value, every request and every combination of derivations",
 "Subsetting is not tested at all, and no test compares these tables of a derived font with the original.",
 ["export.go","font.go","table_head.go","table_hhea.go","table_maxp.go","table_os2.go","table_post.go","table_name.go"],
 [("SubsetFirst/SubsetKeepIndices/Optimize","export.go")],["SubsetFirst","SubsetKeepIndices","SubsetKeepRunes","Optimize","PruneTables","Write"])
p("C28","Every well-formed TrueType font is accepted and can be worked with",
 "A font whose tables follow their OpenType definitions, in the versions the library supports and with TrueType outlines, is parsed and (with right checksums) validated without error, whatever values the definitions leave free, whatever optional or unknown tables it has or lacks, and however its tables are ordered. Subsetting it to glyphs it has or to any runes, truncating, pruning, optimizing and writing all succeed as far as the result fits the formats written (strings stored unshared), and it is accepted again.",
 ["inputs","configurations"],"every well-formed font and every request for glyphs it has",
 "The test fonts are a few ordinary ones; a check that is too strict for rarer fonts passes them all.",
 ["font.go","export.go","validate.go","table_head.go","table_maxp.go","table_os2.go","table_post.go","table_name.go","table_cmap.go","table_glyf.go","table_loca.go","table_hmtx.go"],
 [("parseFont and the range checks of the table parsers","font.go")],["Parse","ValidateBytes","Write","SubsetFirst","SubsetKeepIndices","SubsetKeepRunes","PruneTables","Optimize"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,x['id']
