#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "A resource set is a last-write-wins map over (type, resource, language)",
  "After any sequence of add, replace and delete calls (deleting is adding nil data), a lookup of a (type, resource, language) triple returns exactly the data last stored for it, or nil if it is absent, and the count equals the number of present triples. Ordinals and names are distinct keys, names are case-sensitive, and languages are independent of each other. A call with an invalid identifier (zero ordinal, empty name, name containing NUL) returns an error and changes nothing.",
  ["histories", "inputs"], "every history of Set/Get/Count calls, over every identifier, language and data value",
  "The tests replay two or three fixed call sequences; the guarantee is about every history, including deletes that empty a type, re-adds after deletes and keys that differ only in kind or case.",
  ["winres.go", "id.go"], [("Set/set/delete/Get", "winres.go"), ("checkIdentifier", "id.go")], ["ResourceSet.Set", "ResourceSet.Get", "ResourceSet.Count"],
  [("types", "nested map type -> resource -> language -> data", "winres.go ResourceSet")])

p("C02", "Enumeration visits every live resource exactly once in canonical order",
  "Whatever the history of additions, deletions, earlier enumerations, lookups and writes, walking a set visits every present resource exactly once with its current data, types in canonical order (names in case-sensitive ascending order, then ordinals ascending), then resources in the same order, then languages ascending. Walking a single type yields exactly that type's part of the same sequence, and nothing for an absent type. As soon as the callback asks to stop, nothing more is visited.",
  ["histories", "inputs"], "every history of mutations interleaved with enumerations, every set of identifiers, every stopping point",
  "Two tests walk two hand-made sets once each; nothing enumerates again after a modification, which is where remembered orderings can go stale.",
  ["winres.go", "rsrc.go", "id.go"], [("Walk/WalkType", "winres.go"), ("order and its cached key lists", "rsrc.go"), ("lessThan", "id.go")], ["ResourceSet.Walk", "ResourceSet.WalkType"],
  [("orderedKeys", "cached canonical order of a directory level, nil when stale", "rsrc.go typeEntry, resourceEntry")])

p("C03", "The written resource directory encodes exactly the set",
  "For every resource set, after any history, the section written by WriteObject is a well-formed three-level resource directory whose leaves are exactly the set's resources: same identifiers, languages, sizes and bytes, nothing missing, duplicated or added. Every level lists named entries first and then ordinals, each strictly ascending and correctly counted, and every offset it contains is in bounds. Directory tables, name strings, data entries and data blocks never overlap each other, tables and data entries are 4-byte aligned and data blocks are 8-byte aligned. Only a set that the format cannot hold (more than 65,535 names or ordinals in one table, a name of more than 65,535 UTF-16 units) is refused, with an error and no output.",
  ["inputs", "histories"], "every set, every name (including non-BMP characters and shared names), every data length, after every history",
  "The byte-level tests compare a few fixed sets against golden files that need a network download; no test decodes what was written.",
  ["rsrc.go", "coff.go"], [("write, prepare and the write* phases", "rsrc.go"), ("dirSize/fullSize/paddedDataSize", "rsrc.go")], ["ResourceSet.WriteObject output"],
  [("offset, nameOffset", "positions promised to tables, names and data before they are written", "rsrc.go state")])

p("C04", "WriteObject emits a consistent, linkable COFF object for the asked arch",
  "For every resource set that the format can hold and each of the four supported architectures, the object has the architecture's machine type and exactly one read-only initialized-data section named .rsrc whose header gives the exact position and size of the resource directory, and the relocation table, symbol table and string table lie exactly where the headers say, with nothing else in the file. There is exactly one relocation per resource, pointing at that resource's data address field, with the architecture's image-relative relocation type, against a symbol, local to the object, that designates the start of the section, so that linking at any address yields correct data addresses; when the section header cannot count them, with the extended count that the format provides. An unsupported architecture is refused with an error and no output.",
  ["inputs", "configurations"], "every resource set, every architecture string",
  "Golden comparisons (network-only) cover one set per architecture; relocation completeness is never checked.",
  ["coff.go", "rsrc.go"], [("writeObject/writeRelocTable/writeSymbol", "coff.go"), ("relocAddr collection", "rsrc.go")], ["ResourceSet.WriteObject output"])

p("C05", "Output depends only on content: deterministic, history-free, read-only",
  "Two resource sets with the same content produce byte-identical objects and byte-identical patched executables, however each was built (insertion order, deletions, overwritten values, earlier writes, walks or lookups, loading from a file) and however often writing is repeated, and whatever is done with other sets at the same time. Writing, walking, looking up and extracting never change the content of the set.",
  ["histories", "inputs"], "every pair of histories that lead to the same content",
  "Tests write each set once; map iteration order and remembered orderings can make output vary between runs or histories.",
  ["rsrc.go", "winres.go", "coff.go", "exe.go"], [("order/prepare", "rsrc.go"), ("sorted names table", "rsrc.go prepare")], ["WriteObject output", "WriteToEXE output"])

p("C06", "Embedding into an executable and loading back yields the same resources",
  "Writing any resource set into any well-formed PE image (32 or 64 bit, with or without resources already, wherever its resource section sits) that has room for a section header, or whose resource section is already at its end or directly before base relocations that end it, produces an image from which loading returns exactly that set. This stays true when images are patched repeatedly with growing, shrinking or empty sets. A set that the format cannot hold is refused with an error and no output.",
  ["inputs", "histories"], "every resource set and PE image layout, every sequence of patches of one image",
  "The executable tests need downloaded binaries and compare bytes; no test loads back what was written, and layouts such as a resource section in the middle without base relocations never occur.",
  ["exe.go", "winres.go", "rsrc.go"], [("preparePEWriter/updateHeaders/applyReloc/writeEXE", "exe.go"), ("extractRSRCSection", "exe.go"), ("read", "rsrc.go")], ["ResourceSet.WriteToEXE", "LoadFromEXE"])

p("C07", "Loading returns exactly the resources present, or exactly the type asked for",
  "For any image whose resource section holds a valid resource directory, in whatever arrangement another tool laid it out, loading returns exactly the resources that directory lists, and the rebuilt set behaves like one built by hand. Loading a single type returns exactly the resources of that type, plus the individual images when asking for icon or cursor groups, and asking for the invalid type zero is an error. An image with no resources is reported with the dedicated error and an empty set, and a file that is not a PE image, or whose resource directory is broken (a table, a name, a data entry or data outside of the section, data where a table belongs or the reverse, a named language, a section that is not all in the file), is refused with another one.",
  ["inputs"], "every valid directory arrangement (any order of tables, names, entries and data, shared or unaligned blocks), every requested type",
  "The loader tests use one downloaded section and a handful of hand-made broken ones; foreign layouts are not generated.",
  ["rsrc.go", "winres.go", "exe.go"], [("read/walk/readDirTable/readData/readName", "rsrc.go"), ("LoadFromEXESingleType", "winres.go")], ["LoadFromEXE", "LoadFromEXESingleType", "ResourceSet.Walk"])

p("C08", "Patching an executable leaves everything but its resources intact",
  "In the image written by WriteToEXE, every section of the source other than the replaced resource section keeps its raw content, size, virtual size and characteristics, the DOS stub and all header fields not describing size, section layout, resources, signature or checksum keep their values, and the data following the last section is still there, complete, after the last section. Every data directory except the resource and certificate ones still designates the same bytes of the same section, and a COFF symbol table still designates the same bytes.",
  ["inputs", "configurations", "histories"], "every well-formed PE layout: any number and order of sections, .rsrc absent, last, before .reloc or in the middle, uninitialized sections, appended data, 32/64 bit, any growth or shrinkage",
  "The few golden comparisons use downloaded executables that are absent here; layouts combine in far more ways (position of .rsrc x growth x overlay x signature) than they sample.",
  ["exe.go"], [("fillSectionsInfo/requiresNewSection/updateHeaders", "exe.go"), ("writeEXE", "exe.go")], ["WriteToEXE output"],
  [("dataOffset, dataEnd, rsrcEnd, virtEnd", "boundaries of the source image that decide what is copied where", "exe.go peWriter.src")])

p("C09", "A patched executable is a consistent PE layout the loader accepts",
  "In the image written by WriteToEXE, all sections are section-aligned and disjoint in memory, all raw ranges are file-aligned, disjoint, after the headers and inside the file, the headers fit in their declared size, before the first section both in the file and in memory, the section count matches, the image size equals the aligned end of the last section, and the size of initialized data changes as the raw sizes of sections do. The resource directory entry designates the start of the section that holds the whole written directory, with its size. No section other than the resource section, and a base relocation section directly following it at the end of the image, changes its virtual address; if the required room is missing, or the file is not a PE image, or not the whole of one, an error is returned instead.",
  ["inputs", "configurations", "histories"], "every well-formed PE layout and resource size",
  "Same as C08: only downloaded samples, compared byte for byte, never checked as layouts.",
  ["exe.go"], [("updateHeaders/roundRaw/roundVirt", "exe.go"), ("requiresNewSection", "exe.go"), ("room check", "exe.go preparePEWriter")], ["WriteToEXE output"])

p("C10", "The PE checksum of the written image is correct",
  "When the source image carries a non-zero checksum, or when forced by option, the checksum stored in the image written by WriteToEXE equals the standard PE checksum of that very file, for every file length (odd ones included), content and alignment. Otherwise the stored checksum is zero.",
  ["inputs", "configurations"], "every image content and length, with and without original checksum and option",
  "One unit test feeds a fixed byte stream to the accumulator; that the emitted file carries the matching value is only compared against downloaded goldens.",
  ["pesum.go", "exe.go"], [("peCheckSum.Write/Sum", "pesum.go"), ("two-pass write", "exe.go replaceRSRCSection")], ["WriteToEXE output"])

p("C11", "Signed executables are refused, stripped or kept exactly as requested",
  "By default an image with a certificate table is refused with the dedicated error and nothing is written. When asked to remove the signature, the output has no certificate entry and, if the certificates ended the file, none of their bytes; when asked to ignore it, the output's certificate entry designates exactly the original certificate bytes. The signedness query is true exactly for images with a certificate table, agrees with these outcomes, and leaves the reader's position unchanged, whatever the file.",
  ["inputs", "configurations"], "every placement and size of the certificate table, image layout and handling option",
  "Signature tests need one downloaded signed file; placements other than the end of that file are not tried.",
  ["exe.go", "winres.go"], [("preparePEWriter signature switch", "exe.go"), ("certificate offset update", "exe.go updateHeaders"), ("IsSignedEXE", "winres.go")], ["WriteToEXE", "IsSignedEXE"])

p("C12", "No I/O failure is ever reported as success",
  "If any write to the destination fails, at any byte, the writing operation (object, executable, ICO, CUR) returns an error. If any read or seek on the source fails, or the source ends early, the operation (patching, loading, importing ICO or CUR) either returns an error or returns exactly the result of a fault-free run, never a silently incomplete or different one. The bytes produced do not depend on the kind of destination (plain stream, pipe, seekable, appending or pre-filled file).",
  ["fault_sequences", "crash_points", "inputs"], "every operation, every single fault position (byte, read call, seek call), every truncation point, every destination kind",
  "Tests inject a fault at about thirty hand-picked positions, mostly on downloaded files; ignored errors lie between them.",
  ["exe.go", "rsrc.go", "coff.go", "icon.go", "cursor.go", "reader.go"], [("error returns of every write/seek/copy", "exe.go writeEXE, writeBlank"), ("two-pass checksum", "exe.go replaceRSRCSection"), ("readFull/binaryRead", "reader.go")], ["return values of WriteObject, WriteToEXE, LoadFromEXE, SaveICO, SaveCUR, LoadICO, LoadCUR"])

p("C13", "Icon groups are isolated from each other and read back unchanged",
  "After an icon is added to a set, reading that group back in that language yields the same images with the same dimensions, depths and bytes, best quality first, and continues to whatever other icons, cursors or resources are added later. Adding an icon only replaces its own group entry and adds images under ordinals that were not in use, each group entry giving its image's exact size; every other resource keeps its value, and an addition that fails changes nothing. Reading without a language uses the group's lowest language; a missing group, missing image or malformed group is an error.",
  ["histories", "inputs"], "every interleaving of icon additions, raw additions and deletions of icon resources, loads and reads",
  "Tests add a few icons to fresh sets and compare goldens; interactions between groups, raw icon resources and deletions are not explored.",
  ["icon.go", "winres.go"], [("SetIconTranslation/GetIconTranslation", "icon.go"), ("lastIconID allocation", "winres.go set"), ("firstLang", "winres.go")], ["SetIcon*", "GetIcon*", "Walk"],
  [("lastIconID", "highest icon ordinal ever used, source of fresh ordinals", "winres.go ResourceSet")])

p("C14", "Cursor groups are isolated and keep images and hot spots unchanged",
  "After a cursor is added to a set, reading that group back in that language yields the same images with the same dimensions, bytes and hot spots, best quality first, whatever is added later. Adding a cursor only replaces its own group entry and adds images under ordinals that were not in use, each image resource being its hot spot followed by its image and each group entry giving that resource's exact size; every other resource keeps its value, and an addition that fails changes nothing. A missing group, missing image or malformed group or image is an error.",
  ["histories", "inputs"], "every interleaving of cursor additions, raw additions and deletions of cursor resources, loads and reads; every hot spot",
  "As for icons; the tests also never compare group entry sizes with the stored images.",
  ["cursor.go", "winres.go"], [("SetCursorTranslation/GetCursorTranslation/resData", "cursor.go"), ("lastCursorID allocation", "winres.go set")], ["SetCursor*", "GetCursor*", "Walk"],
  [("lastCursorID", "highest cursor ordinal ever used", "winres.go ResourceSet")])

p("C15", "ICO and CUR files survive load and save",
  "Loading any valid ICO or CUR file, with image data in any order, overlapping or with gaps, yields for each directory entry exactly the bytes it designates; saving writes a valid file with the right count, contiguous in-bounds image data, exact sizes and offsets, and all dimensions (256 included), depths and hot spots preserved, images sorted by descending depth then width. Loading what was saved gives the same images again, whether the icon came from a file, from images or from a resource set. Files of the wrong kind, oversized images and truncated files are refused with an error.",
  ["inputs"], "every count, order, size and placement of images",
  "Tests cover one downloaded ICO and one CUR; placements, counts and boundary dimensions are not explored.",
  ["icon.go", "cursor.go"], [("LoadICO/SaveICO/order", "icon.go"), ("LoadCUR/SaveCUR/order/readDIBBitCount", "cursor.go")], ["LoadICO", "SaveICO", "LoadCUR", "SaveCUR"])

p("C16", "Icons and cursors made from images show the same pixels",
  "An icon made from images of up to 256x256 pixels holds, for each image and whatever its bounds and colour model, a square PNG as large as the longer side with the image's pixels centred and the rest transparent; a cursor holds, for each image, a valid DIB of that square with the pixels at the top left, transparent elsewhere, with doubled height, declared depth matching, complete mask data if the depth needs one, and the given hot spot. Resizing produces exactly one image per requested size with that side, which shows the whole picture in its proportions, centred. Empty and oversized images, and too many sizes, are refused with an error.",
  ["inputs"], "every image size, aspect ratio, bounds origin, colour model and opacity",
  "Tests compare goldens for six downloaded images; opaque images, extreme ratios and offset bounds are not combined.",
  ["icon.go", "cursor.go"], [("addImage/imageInSquareNRGBA/resizeImage", "icon.go"), ("addImage DIB patching", "cursor.go")], ["NewIconFromImages", "NewIconFromResizedImage", "NewCursorFromImages", "SaveICO", "SaveCUR"])

p("C17", "Version info survives its binary form, which is well-formed",
  "For every version info that fits the 64 KB format, the binary form is a well-formed VS_VERSIONINFO tree (exact lengths, 32-bit alignment, text/binary kinds, NUL-terminated strings, one string table per language and a translation list naming exactly those languages), and parsing it returns the same versions, flags, file type, timestamp (to 100 ns, for years 1678 to 2262) and strings in every language. Valid Unicode blocks arranged differently by other tools are parsed to the information they contain, and the same info always gives the same bytes.",
  ["inputs"], "every combination of fixed fields, languages, keys and values, including empty values and non-BMP text; every valid foreign arrangement",
  "About twenty golden files fix a few structures; lengths, alignments and Unicode combine without bound.",
  ["version/binary.go", "version/timestamp.go"], [("bytes/nodeBytes/writeAligned", "version/binary.go"), ("readNode/readChildren/readString", "version/binary.go"), ("timestamp conversion", "version/timestamp.go")], ["Info.Bytes", "FromBytes"])

p("C18", "A version info is a per-language map kept in step with its versions",
  "Setting a key in a language changes only that language's key, with the last value winning; an empty key, or a key or value containing NUL, is refused and changes nothing; the table accessor returns a snapshot whose modification never affects the info. Setting the file (or product) version from text sets the four numbers from its first dotted numeric sequence and sets the corresponding string in every language present (in the neutral one if there is none), changing nothing else.",
  ["histories", "inputs"], "every sequence of setter calls over every language, key, value and version text",
  "Tests call the setters on two or three fixed tables.",
  ["version/version.go"], [("Set/Table/SetFileVersion/SetProductVersion", "version/version.go"), ("versionStringToArray", "version/version.go")], ["Info.Set", "Info.Table", "Info.SetFileVersion", "Info.SetProductVersion"])

p("C19", "Splitting and merging translations follows the documented fallbacks",
  "Splitting a version info yields one info per language present, with the common fixed part, holding exactly one translation: its own strings completed, for each key it lacks, from the neutral language, else en-US, else the lowest language that has it. Merging takes the fixed part from the neutral, else en-US, else lowest language, and each language's strings from its own table, else the neutral one, else the only non-empty one, otherwise skips it. Neither operation changes its input, nor do later changes of one show in the other, merging what was split gives the same completed strings and fixed part back, and the main translation of a table follows the same neutral, en-US, lowest preference.",
  ["inputs"], "every table of languages and keys, every map of infos to merge",
  "Two tests with fixed tables; the fallback rules have many cases (missing, empty, nil tables) that combine.",
  ["version/version.go"], [("splitLangs/MergeTranslations/findMainTranslation/singleLang/GetMainTranslation", "version/version.go")], ["Info.SplitTranslations", "MergeTranslations", "LangTable.GetMainTranslation"])

p("C20", "Version info survives JSON",
  "Marshalling any version info to JSON and back yields the same versions, flags, file type, timestamp and strings in every language, and decoding replaces every previous content of the receiver. Type and flag names are accepted in any letter case, any other type is unknown, absent parts decode to their zero value, and the same info always marshals to the same text.",
  ["inputs"], "every combination of flags, type, versions, timestamp, languages and strings; every previous receiver content",
  "Tests marshal and unmarshal about a dozen fixed values, never a round trip over combinations.",
  ["version/json.go"], [("MarshalJSON/UnmarshalJSON", "version/json.go")], ["json.Marshal", "json.Unmarshal"])

p("C21", "An application manifest states exactly its settings and reads back the same",
  "For every combination of settings, and any identity name and description text XML can represent, the generated manifest is well-formed XML that states exactly those settings: supported systems from the minimum upwards, execution level, UI access, DPI awareness and each optional feature if and only if enabled. Reading it back yields the same settings; settings missing from an XML manifest read as their documented defaults, and recognised values are accepted whatever their letter case and surrounding blanks.",
  ["inputs", "configurations"], "all 5x4x3x2^12 settings combinations, every printable identity and description text",
  "Tests generate five manifests and read back a dozen, out of some 245,000 combinations and unbounded text.",
  ["manifest.go"], [("makeManifest and its template", "manifest.go"), ("AppManifestFromXML/readDPIAwareness/osIDToEnum", "manifest.go")], ["ResourceSet.SetManifest + Get", "AppManifestFromXML"])

p("C22", "An application manifest survives JSON",
  "Marshalling any manifest with valid settings to JSON and back yields the same manifest, each setting appearing under its documented name; values outside an enumeration cannot be marshalled, and unknown enumeration texts and invalid version numbers are refused when decoding. All documented spellings of a value decode to it, whatever their letter case and surrounding blanks.",
  ["inputs", "configurations"], "every settings combination, every text offered for an enumeration or version",
  "Tests marshal eight and unmarshal fifteen fixed manifests.",
  ["manifest.go"], [("MarshalText/UnmarshalText of the enumerations", "manifest.go"), ("AssemblyIdentity JSON", "manifest.go")], ["json.Marshal", "json.Unmarshal"])

p("C23", "Malformed input is answered with an error, never a panic",
  "Whatever bytes are offered, every function that reads external data (loading or patching an executable, asking whether it is signed, importing ICO or CUR files, extracting icons and cursors from a set, parsing version info from binary or JSON, reading a manifest from XML or JSON) returns normally, with a value or an error. What it returns without error can be used with the rest of the API without panicking either.",
  ["inputs"], "every byte string, in particular every valid file with any field set to a boundary or inconsistent value, or truncated anywhere",
  "Tests try about forty hand-made broken inputs; each header field has many hostile values and they interact.",
  ["exe.go", "rsrc.go", "icon.go", "cursor.go", "version/binary.go", "version/json.go", "version/version.go", "manifest.go"],
  [("bounds checks in the readers", "rsrc.go readData, exe.go readPEHeaders, cursor.go readDIBBitCount, version/binary.go readNode")], ["outcome of LoadFromEXE, LoadFromEXESingleType, WriteToEXE, IsSignedEXE, LoadICO, LoadCUR, GetIcon, GetCursor, FromBytes, UnmarshalJSON, AppManifestFromXML"])

p("C24", "High-level setters store resources exactly where Windows looks for them",
  "Setting a manifest stores one manifest resource with ordinal 1 in en-US; setting version info stores, for each of its languages, a version resource with ordinal 1 in that language that parses back to that language's completed translation; icons and cursors are stored as a group resource under the given identifier and language plus neutral-language image resources. Setting any of them again replaces the previous value, and nothing else in the set changes. The named resource types and languages have the numbers Windows gives them.",
  ["histories", "inputs"], "every history of setter calls on sets with any other content, every language and identifier",
  "Golden tests (network-only) cover single calls on fresh sets.",
  ["winres.go", "icon.go", "cursor.go"], [("SetVersionInfo/SetManifest", "winres.go"), ("SetIconTranslation", "icon.go"), ("SetCursorTranslation", "cursor.go")], ["ResourceSet.Walk after each setter"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
