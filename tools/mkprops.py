import json
BV="jpylyzer/boxvalidator.py"; JP="jpylyzer/jpylyzer.py"; MX="jpylyzer/mix.py"; ET="jpylyzer/etpatch.py"; BC="jpylyzer/byteconv.py"; SH="jpylyzer/shared.py"; CF="jpylyzer/config.py"
P=[]
NOJP2="No existing test ever analyses a real JPEG 2000 file: they only run text files of the repository and command line helpers, so nothing of this is even sampled."
def p(id,title,statement,over,text,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","Verdict is exactly the conjunction of the reported tests",
  "For every input, the report says the file is valid if and only if the analysis succeeded and none of the validation tests failed. The default report lists exactly the tests that failed, the verbose report lists every test that was performed with its outcome, and switching between the two changes neither the verdict, nor the properties, nor the warnings.",
  ["inputs","configurations"],"every input file in every validation format, in both verbosity modes","All inputs times all outcomes of nested tests: one lost or inverted outcome at any nesting level flips a verdict. "+NOJP2,
  [BV,JP],[("recording of test outcomes",BV+": BoxValidator.testFor"),("verdict over the nested test tree",BV+": BoxValidator._isValid"),("report assembly",JP+": checkOneFile")],observe_at=["isValid, tests, properties and warnings of the report"])
p("C02","Top-level box structure decides validity",
  "A JP2 or JPH file is accepted only if a signature box comes first, a file type box second, and a header box stands anywhere after these but before the first codestream box, with signature, file type and header boxes occurring exactly once, at least one codestream box present, and an intellectual property box present whenever the image header announces one. Any number and order of other boxes is accepted, every violated rule is reported as the corresponding failed test, and every box appears in the report in file order.",
  ["inputs"],"all sequences of top-level boxes, in both file formats","The number of box orders and multiplicities is unbounded; "+NOJP2,[BV],
  [("top-level box walk and structure tests",BV+": BoxValidator.validate_JP2"),("box header decoding",BV+": BoxValidator._getBox"),("signature and file type boxes",BV+": BoxValidator.validate_signatureBox, validate_fileTypeBox")])
p("C03","Header superbox structure decides validity",
  "Within the JP2 header box an image header box must come first and be unique, colour specification boxes must be contiguous (and present unless the JPH rules waive them), a bits-per-component box must be present when the image header says depths vary, the optional boxes occur at most once, and palette and component mapping occur only together. The resolution and UUID info superboxes likewise accept exactly the documented combinations of sub-boxes, and every violated rule is reported as the corresponding failed test.",
  ["inputs"],"all sequences of sub-boxes in the header, resolution and UUID info superboxes, in both file formats","Orders and multiplicities of sub-boxes are unbounded; "+NOJP2,[BV,SH],
  [("header superbox rules",BV+": BoxValidator.validate_jp2HeaderBox"),("resolution superbox rules",BV+": BoxValidator.validate_resolutionBox"),("UUID info superbox rules",BV+": BoxValidator.validate_uuidInfoBox"),("contiguity",SH+": listOccurrencesAreContiguous")])
p("C04","Header box fields are decoded exactly and range-checked",
  "For every content of the image header, bits per component, palette, component mapping, channel definition, capture resolution and display resolution boxes, the report states exactly the values stored in the file (big-endian, sign and depth split, derived pixels per metre and per inch), and the test belonging to a field fails exactly when its value is outside the range the standard allows for the selected format or the box has a wrong length.",
  ["inputs"],"all field values, table sizes and box lengths of these boxes, in both file formats","Field values range over 2^8..2^32 values and tables have variable size and depth; "+NOJP2,[BV,BC,JP],
  [("field validators",BV+": validate_imageHeaderBox .. validate_displayResolutionBox"),("integer decoding",BC+": bytesTo*"),("value to text mapping",JP+": generatePropertiesRemapTable")])
p("C05","Image header must agree with the codestream",
  "A JP2 or JPH file is accepted only if height, width, number of components and the sign and bit depth of every component given in its header boxes equal those of its codestream (image size being grid size minus image offset); each disagreement is reported as its own failed test. The reported compression ratio is the uncompressed size of the described image divided by the file size, rounded to two decimals.",
  ["inputs"],"all combinations of header and codestream geometry, component counts, signs, depths and file sizes","A relation between two independently encoded parts of a file over all values; "+NOJP2,[BV],
  [("consistency tests",BV+": BoxValidator.validate_JP2"),("compression ratio",BV+": BoxValidator._calculateCompressionRatio")])
p("C06","Codestream main header structure decides validity",
  "A codestream is accepted only if it starts with start-of-codestream followed by image size, its main header contains coding style and quantization defaults (and the capabilities segment when the image size announces one), at most one component-specific coding style and quantization per component, and it ends with end-of-codestream; every other marker segment is accepted in any order. Every recognised main header segment is reported once, in order, and packet-header and packet-length segments are counted.",
  ["inputs"],"all sequences of main header marker segments, in all four formats","Orders, repetitions and omissions of marker segments are unbounded; "+NOJP2,[BV],
  [("main header walk",BV+": BoxValidator.validate_contiguousCodestreamBox"),("marker segment framing",BV+": BoxValidator._getMarkerSegment")])
p("C07","Coding and quantization segment fields decoded and range-checked",
  "For every content of the coding style (default, component), quantization (default, component), region of interest, progression order change, component registration and comment segments, the report states exactly the values stored in the codestream, including one- versus two-byte component indices and per-level lists, and the test belonging to a field fails exactly when the value is outside the range or inconsistent with the segment length according to the selected format.",
  ["inputs"],"all field values and list lengths of these segments, with fewer and with more than 256 components, in all four formats","Every field has its own range and widths change with component count; "+NOJP2,[BV,BC,JP],
  [("segment validators",BV+": validate_cod, validate_coc, validate_rgn, validate_qcd, validate_qcc, validate_poc, validate_crg, validate_com"),("value to text mapping",JP+": generatePropertiesRemapTable")])
p("C08","Image size and capability segments decoded and range-checked",
  "For every content of the image size, capabilities, profile and corresponding-profile segments, the report states exactly the stored geometry, the number of tiles the grid implies, the human-readable capability, the referenced parts and high-throughput parameters and the profile numbers, and the test belonging to a field fails exactly when the value is outside the range allowed for the selected format.",
  ["inputs"],"all field values and component counts of these segments, in all four formats","Bit-level capability fields, tile arithmetic over 32-bit values and variable component lists; "+NOJP2,[BV],
  [("image size",BV+": validate_siz"),("capabilities and profiles",BV+": validate_cap, validate_prf, validate_cpf")])
p("C09","Tile-part structure decides validity",
  "A codestream is accepted only if following the tile-part lengths leads from the main header over tile-parts to the end marker, every tile-part header ends in start-of-data, every tile of the grid is represented and no other, each tile has the announced number of tile-parts, and tile-level coding, quantization and region segments occur only in a tile's first tile-part and at most once per component. Every tile-part is reported in order with its own segments and counts.",
  ["inputs"],"all sequences of tile-parts (tile index, part index, announced count, length, header segments) over all small tile grids","Interleavings of tile-parts of several tiles and length faults are combinatorial; "+NOJP2,[BV],
  [("tile-part walk and counts",BV+": BoxValidator.validate_contiguousCodestreamBox"),("tile-part header",BV+": BoxValidator.validate_tilePart"),("start of tile",BV+": BoxValidator.validate_sot")])
p("C10","No truncated image is reported valid",
  "Cutting a valid image file at any byte position before the end of its codestream, in any of the four formats, never yields a file that is reported valid; the report of the damaged file is complete (analysis succeeded) and names at least one failed test. Cuts behind the codestream affect only the report of the trailing boxes.",
  ["inputs","fault_sequences"],"every truncation point of every valid file","All cut positions of files of different structure; the three truncated example files are not analysed by any test.",[BV,JP],
  [("box and segment framing on short data",BV+": _getBox, _getMarkerSegment"),("end of codestream",BV+": validate_contiguousCodestreamBox"),("short field decoding",BC+": _doConv")])
p("C11","Every input yields a complete report in bounded time",
  "For every byte string offered as a file, in every format and with every option, the analysis terminates and returns a complete report with success, verdict, tests, properties and warnings; damaged or hostile content is reported as not valid rather than as an internal failure, and the report can always be written as well-formed XML.",
  ["inputs","configurations"],"all byte strings, exhaustively for short ones and for all single faults of structured files","The input space is all byte strings; a single unhandled field value loses the report or hangs the batch. "+NOJP2,[BV,JP,BC,ET],
  [("top-level parse and exception barrier",JP+": checkOneFile"),("all parsers",BV+": BoxValidator.validate_*"),("text conversion",ET+": Element.makeHumanReadable")])
p("C12","Box length encoding does not matter",
  "A box written with a 32-bit length, with the extended 64-bit length, or (for the last box of its container) with length zero is understood identically: apart from values that depend on file size, the report of the file is the same whichever encoding each box uses.",
  ["inputs"],"all assignments of length encodings to the boxes of a file","Combinations of encodings over all boxes at both nesting levels; "+NOJP2,[BV],
  [("box header decoding",BV+": BoxValidator._getBox")])
p("C13","Reporting options never change the analysis",
  "The options for verbosity, packet markers, null-terminated XML, MIX and pretty printing are orthogonal: each adds or removes exactly the part of the report it controls, and for every input the verdict, the failed tests, the remaining properties and the warnings are identical under every combination of options.",
  ["inputs","configurations"],"all option combinations on all inputs","The option cross product times inputs; tests use single options on non-images only.",[BV,JP,CF],
  [("option plumbing",JP+": main, checkFiles, checkOneFile"),("packet marker reporting",BV+": validate_contiguousCodestreamBox, validate_tilePart"),("null-terminated XML",BV+": validate_xmlBox, validate_uuidBox")])
p("C14","Reports do not depend on what was analysed before",
  "The report of a file depends only on that file and the options: analysing any sequence of files, in one command or through repeated API calls, in any order and with repetitions and changed contents, gives for each file the same report as analysing it alone, one report per file in the order given. Input files are left untouched and no resources stay open.",
  ["histories","inputs"],"all histories of analyses up to a bounded length over files of every kind and options","State carried between analyses shows only in particular sequences; tests call each function once.",[JP,BV,ET,CF],
  [("batch loop",JP+": checkFiles"),("per-file analysis",JP+": checkOneFile, fileToMemoryMap"),("shared configuration",CF)])
p("C15","Command line output is well-formed, schema-valid and complete",
  "For every set of inputs and options the command writes to standard output one well-formed UTF-8 XML document with tool information and exactly one report per selected file, equal to what the API returns for that file; pretty-printed and compact output carry the same content, and for files that conform to the format the document is valid against the published schema.",
  ["inputs","configurations"],"all input kinds, embedded text contents and options of the command","Serialisation of arbitrary embedded content and of all report shapes; tests validate only reports of text files.",[JP,ET,"xsd/jpylyzer-v-2-2.xsd"],
  [("writer",JP+": writeElement, checkFiles, main"),("text conversion",ET+": Element.makeHumanReadable"),("schema","xsd/jpylyzer-v-2-2.xsd")])
p("C16","Exactly the requested files are analysed",
  "Given any directory tree and any combination of file names, directory names, wildcard patterns and the recurse option, the command analyses exactly the existing regular files that were named, that match the pattern, or that lie below the named directories when recursing (for patterns, in all subdirectories too); arguments that do not exist are announced in a warning, and if nothing is selected no report is produced and the exit status says so.",
  ["inputs","configurations"],"all small directory trees, argument lists, patterns and recurse settings","Tree shapes times patterns times recursion; tests use one flat directory.",[JP],
  [("file selection",JP+": findFiles, getFiles, getFilesFromTree, getFilesWithPatternFromTree"),("empty selection",JP+": checkNoInput")])
p("C17","File information in the report is faithful",
  "The report identifies the analysed file by its name, absolute path, size in bytes and modification time exactly as the file system has them, for every legal file name and time stamp; characters that XML cannot carry are removed or replaced and never make the report fail.",
  ["inputs"],"all file names (any bytes the file system allows), path spellings, sizes and time stamps","File names are arbitrary byte strings and time stamps 64-bit; tests use plain names only.",[JP],
  [("file information",JP+": checkOneFile"),("name cleaning",JP+": stripSurrogatePairs")])
p("C18","MIX output faithfully restates a valid image",
  "When MIX output is requested, a valid JP2 or JPH file yields one MIX record of the requested version whose format, compression, dimensions, colour space, tiling, layers, resolution, sample depths and capture metadata equal the corresponding reported properties; files that are not valid and raw codestreams yield none, and requesting MIX never changes the rest of the report or makes the analysis fail.",
  ["inputs","configurations"],"all valid and invalid images times both MIX versions and all formats","MIX draws on optional properties whose presence varies; no test produces a MIX record.",[MX,JP],
  [("MIX generation",MX+": Mix.generateMix*"),("gating",JP+": checkOneFile, main")])
p("C19","Embedded XML, UUID and URL metadata is reported faithfully",
  "The content of an XML box or XMP UUID box is accepted exactly when it is well-formed XML, and then reproduced in the report with the same elements, attributes and text; null-terminated content is rejected but reproduced when asked for. Other UUID boxes, UUID lists and URL boxes are reported with their identifiers and locations and tested for length, termination and encoding.",
  ["inputs","configurations"],"all contents and lengths of these boxes, with and without the null-terminator option","Content is arbitrary text and bytes; "+NOJP2,[BV,ET],
  [("XML and UUID boxes",BV+": validate_xmlBox, validate_uuidBox"),("UUID info sub-boxes",BV+": validate_uuidListBox, validate_urlBox")])
p("C20","Unknown boxes and segments are skipped without side effects",
  "A box of a type the tool does not know, or that it does not support, may appear anywhere in a file and at any nesting level: it is listed with its type, yields a warning naming it, and changes neither the verdict nor the report of any other part of the file. An unknown marker segment is skipped likewise.",
  ["inputs"],"all unknown types and contents at every position of a file","Positions times types times contents; "+NOJP2,[BV,SH],
  [("unknown boxes",BV+": BoxValidator.validate_unknownBox, validate"),("unknown segments",BV+": validate_contiguousCodestreamBox, validate_tilePart")])
p("C21","Colour specification and ICC profile reported and checked",
  "For every colour specification box the report states method, precedence, approximation and, depending on the method, the enumerated colour space, the parameterised colour values or the header fields, tags and description of the embedded ICC profile exactly as stored. It is accepted exactly when the method and its values are allowed in the selected format and a restricted profile has the right size, an input or display class and no lookup-table tag.",
  ["inputs"],"all field values, profile contents, tag tables and box lengths, in both file formats","Profile headers have dozens of fields and offset tables; "+NOJP2,[BV,JP],
  [("colour specification",BV+": validate_colourSpecificationBox"),("profile header",BV+": validate_icc"),("value to text mapping",JP+": generatePropertiesRemapTable")])
p("C22","A failing file never spoils the batch",
  "Whenever reading a file fails at any point (it vanishes, may not be read, cannot be opened, mapped or read, or memory runs out), its report says so with an unsuccessful status, a not-valid verdict and a matching failure message, and all other files of the batch are still analysed and reported normally in a well-formed document, whether or not messages can be written to standard error. An empty file is reported as not valid, with a warning that says so.",
  ["fault_sequences","inputs"],"every failure kind at every operating system call made for every file of a batch","Needs faults at particular calls; tests never make a read fail.",[JP],
  [("exception barrier and classification",JP+": checkOneFile"),("file opening",JP+": fileToMemoryMap"),("batch loop",JP+": checkFiles")])
p("C23","Raw codestream and wrapped codestream agree",
  "A codestream is analysed identically whether it is a raw file (j2c, jhc) or wrapped in a JP2 respectively JPH file: same tests, same properties and same warnings for the codestream part, apart from the compression ratio, which for a raw codestream relates the described image to the codestream size. The rules that differ between Part 1 and high-throughput formats depend only on the selected format.",
  ["inputs","configurations"],"all codestreams in all four formats","A relation between two analyses of the same bytes; "+NOJP2,[BV,JP],
  [("root selection",JP+": checkOneFile"),("codestream analysis",BV+": validate_contiguousCodestreamBox")])
p("C24","Packet lengths are decoded exactly",
  "When packet markers are requested, the packet-length segments of main and tile-part headers are reported with their length, index and the exact list of packet lengths their variable-length bytes encode, for any number of continuation bytes; packet-header segments are listed. Without the option only the counts of these segments are reported, and malformed or truncated lists are handled without failure.",
  ["inputs","configurations"],"all byte strings in packet-length segments, with and without the option","Variable-length coding over all byte strings; "+NOJP2,[BV],
  [("packet length decoding",BV+": BoxValidator._parse_ipl"),("segments",BV+": validate_plm, validate_plt, validate_ppm, validate_ppt")])
p("C25","Concurrent analyses do not influence each other",
  "Analyses that a program runs at the same time in several threads, of the same or of different files and with different options, each return the report that the analysis alone returns, however their execution is interleaved.",
  ["schedules","histories"],"all pairs of analyses and all interleavings of their steps","Needs a preemption at a particular step of one thread; tests run one analysis after the other.",[JP,BV],
  [("entry point of the API",JP+": checkOneFile"),("state of an analysis",BV+": BoxValidator"),("settings shared by modules","jpylyzer/config.py")])
p("C26","Every invocation is carried out or refused",
  "For every command line, either the selected files are analysed with exactly the options given and the exit status is 0, or the command is refused or has nothing to do, and then the exit status is not 0, standard error explains why and standard output holds no report. Unknown formats, unsupported MIX versions, unknown or ambiguous options, missing values and missing file arguments are refused; options take effect in any order, before or after the files, abbreviated or joined, the last of several values counts, and format names are recognised in any letter case. Help and version are printed on request.",
  ["inputs","configurations"],"all sequences of options, values and arguments","Combinations of many options; tests call single functions with a handful of argument lists.",[JP,"jpylyzer/shared.py"],
  [("option definitions",JP+": parseCommandLine"),("settings and refusals",JP+": main"),("error exit","jpylyzer/shared.py: errorExit")])
p("C27","An interrupted run is never mistaken for a complete one",
  "Whenever the command is stopped before it is done (interrupted, terminated or killed at any step, or unable to write its output at any byte because the disk is full or the reader is gone), its exit status is not 0 and what it has written so far is an unchanged beginning of the output of an undisturbed run: no file is reported differently because of the interruption, nothing is left behind and no input file is changed. Exit status 0 means that the whole document was written, in whatever pieces the output takes it.",
  ["crash_points","fault_sequences"],"all interruption points and output faults of bounded batches","Faults at one particular step or byte of a run; tests never interrupt the program or make a write fail.",[JP,BV,BC,ET],
  [("output loop",JP+": checkFiles, writeElement"),("exception barrier",JP+": checkOneFile"),("conversions that catch errors",BC),("embedded XML",BV+": validate_uuidBox")])
p("C28","Reports do not depend on how and where the program is started",
  "Whichever way the program is started (script, module, import, installed command, from an archive, compiled or optimised, under any name), and whatever the locale, the encoding settings, the hash seed, the interpreter options, the current directory, the environment variables, the resource limits and the kind of standard input, output and error, the same files and options give the same document and exit status; only the name of the tool, the time zone of time stamps and the spelling of paths may differ. Running it leaves no files behind.",
  ["configurations"],"all ways to start the program that differ from the ordinary one in a bounded number of settings","Tests run in one process, one locale, one hash seed and never optimised.",[JP,"cli.py","jpylyzer/__main__.py",CF],
  [("entry points","cli.py, jpylyzer/__main__.py, "+JP+": main"),("output encoding",JP+": checkFiles"),("tool name",JP+": checkFiles")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import collections
print(len(P),[ (x["id"],len(x["title"])) for x in P if len(x["title"])>80])
