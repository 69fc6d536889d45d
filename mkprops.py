#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the text stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
L="src/layout/";T="src/tables/"
p("C01","Layout lists decode to the OpenType wire layout",
 "For every byte sequence from which a layout directory (the header of the glyph-positioning and glyph-substitution tables), a script list, a script, a language system, a feature list, a feature or a lookup list with its lookups is successfully read, every scalar and every inline array it exposes equals the big-endian value of the type that the OpenType specification gives that item, located at the place that the specification gives it relative to the start of its table. The optional items (the feature-variation offset of version 1.1, the mark filtering set) are read exactly when the version or the lookup flag says they are there.",
 ["inputs"],"every tape content and every starting position",
 "The tests decode two or three fonts and compare a handful of counts; a swapped pair of fields of equal width, a wrong width after the compared field or a missing mark filtering set survives them.",
 [L+"directory.rs",L+"script.rs",L+"language.rs",L+"feature.rs",L+"lookup.rs"],
 [("readers of the layout lists","value::Read implementations in src/layout/{directory,script,language,feature,lookup}.rs")],
 observe=["public fields of Directory, Scripts, Features, Lookups and their records"])
p("C02","Coverage, class and correction tables decode to the wire layout",
 "For every input from which a glyph coverage, a glyph class definition or an adjustment correction (device table or variation index) is successfully read, every exposed field equals the big-endian value at the place the OpenType specification gives it, in either format. A device table carries exactly as many 16-bit delta words as its size range and its 2-, 4- or 8-bit packing require.",
 ["inputs"],"every tape content and position, both formats of each table, every size range and delta format",
 "No test reads a device table and only one reads the records of a class; arithmetic at the word boundary of the packed deltas is never exercised.",
 [L+"coverage.rs",L+"class.rs",L+"correction.rs"],
 [("readers","src/layout/{coverage,class,correction}.rs"),("delta word count","Device::read in src/layout/correction.rs")],
 observe=["public fields of Coverage1/2, Class1/2, Device, Variation"])
p("C03","Contextual lookups decode to the wire layout",
 "For every input from which a contextual or chained contextual lookup of format 1, 2 or 3 is successfully read, every exposed field (counts, offsets, glyph and class sequences, lookup actions) of the lookup, of its rule sets and of its rules equals the big-endian value at the place the OpenType specification gives it; backward, input and forward sequences are never exchanged and an input sequence holds one item fewer than its declared glyph count.",
 ["inputs"],"every tape content and position, all formats",
 "The fixtures contain one chained context in format 3, none of whose fields is compared.",
 [L+"context.rs"],[("readers","src/layout/context.rs")],
 observe=["public fields of Context1..3, ChainedContext1..3, their rule sets and rules"])
p("C04","Glyph-substitution subtables decode to the wire layout",
 "For every input from which a glyph-substitution subtable (single, multiple, alternate, ligature, extension, reverse chained) is successfully read, every exposed field of it and of its sequences, alternate sets, ligature sets and ligatures equals the big-endian value at the place the OpenType specification gives it. A ligature holds one component glyph fewer than its declared component count.",
 ["inputs"],"every tape content and position",
 "The tests check glyph counts of one single and one ligature substitution only.",
 [T+"glyph_substitution/mod.rs",T+"glyph_substitution/element.rs"],[("readers","src/tables/glyph_substitution")],
 observe=["public fields of the glyph-substitution types"])
p("C05","Glyph-positioning subtables decode to the wire layout",
 "For every input from which a glyph-positioning subtable (single, pair, cursive, mark-to-base, mark-to-ligature, mark-to-mark, extension) is successfully read, every exposed field of it and of its value records, pairs, anchors, connections, marks, bases, ligatures and components equals the big-endian value at the place the OpenType specification gives it. A value record holds exactly the items whose bits are set in its format, in bit order, and nothing for the others.",
 ["inputs"],"every tape content and position and every value-format combination (2^8 per value record)",
 "The tests compare three counts of one pair adjustment; 256 value formats for each of two values per pair are out of reach of samples.",
 [T+"glyph_positioning/mod.rs",T+"glyph_positioning/element.rs"],[("readers","src/tables/glyph_positioning")],
 observe=["public fields of the glyph-positioning types"])
p("C06","Glyph definition decodes to the wire layout",
 "For every input from which a glyph-definition table of version 1.0, 1.2 or 1.3 is successfully read, each of its parts (glyph classes, attachment points, ligature carets, mark classes, mark glyph sets, item variation store) is the one that its own offset in the header locates, parts that the version does not have are absent, and every exposed field of these parts equals the big-endian value at the place the OpenType specification gives it.",
 ["inputs"],"every tape content and position, all three versions",
 "The only test reads a version 1.0 table with no carets, no attachments, no mark sets and no variation store.",
 [T+"glyph_definition/mod.rs",T+"glyph_definition/element.rs"],[("readers","src/tables/glyph_definition")],
 observe=["public fields of GlyphDefinition and its parts"])
p("C07","Color palettes decode to the wire layout",
 "For every input from which a color-palette table of version 0 or 1 is successfully read, the header fields, the palette start indices and the colors equal the big-endian values at the places the OpenType specification gives them; the colors are exactly the declared number of blue-green-red-alpha records located by the header's color offset from the start of the table.",
 ["inputs"],"every tape content and position, both versions",
 "The only running test checks that one table can be read and compares no value.",
 [T+"color_palettes.rs"],[("readers","src/tables/color_palettes.rs")],observe=["public fields of ColorPalettes, Header0, Header1, Color"])
p("C08","Font variations decode to the wire layout",
 "For every input from which a font-variations table is successfully read, the header, each axis record and each instance record equal the big-endian values at the places the OpenType specification gives them: record i of an array lies at the start of the array plus i times the record size stored in the header, and the instances follow the axes. An instance has one coordinate per axis, and its PostScript name identifier is read only if the stored instance size leaves room for it.",
 ["inputs"],"every tape content and position, every stored record size",
 "One font with one stride is sampled, with a single axis compared and no instance.",
 [T+"font_variations/mod.rs"],[("readers and strides","src/tables/font_variations/mod.rs")],observe=["public fields of FontVariations, AxisRecord, InstanceRecord"])
p("C09","Item variation stores decode to the wire layout",
 "For every input from which an item variation store is successfully read, every exposed field of the store and of its data records equals the big-endian value at the place the OpenType specification gives it, and the delta bytes of a record are exactly its item count times the bytes of one delta set (the word-sized deltas counting twice), however large the counts are.",
 ["inputs"],"every tape content and position, all 2^48 combinations of the three counts",
 "No test reads a store.",["src/variations/item.rs"],[("readers","src/variations/item.rs")],observe=["public fields of Store and Record"])
p("C10","Offsets are resolved against the start of their own table",
 "For every input and every position at which a table starts, each subtable that is reached through an offset is read at exactly the start of the table the specification declares as the base of that offset, plus the offset; no bytes read before it, no nested subtable and no sibling shifts it.",
 ["inputs"],"every starting position and every offset value at every site that resolves an offset",
 "Tests start from a few fixed positions in well-behaved fonts; a base that is off only for a nested, empty or reordered subtable goes unnoticed.",
 [L+"*.rs",T+"**/*.rs","src/variations/item.rs"],[("jump before each out-of-line read","jump_take!, jump_take_given!, jump_take_maybe! expansions and hand-written readers")],observe=["any out-of-line field"])
p("C11","A null offset means absent and a non-null offset is followed",
 "For every input, an offset that the specification allows to be null yields an absent value (or, where the type has no absent value, an empty one) without reading anything when it is zero, and yields the subtable located by it when it is not; in an array of nullable offsets, the i-th result belongs to the i-th offset.",
 ["inputs"],"every combination of null and non-null offsets in every optional field and in every array of optional subtables",
 "The fixtures contain few null offsets; combinations across arrays are not sampled.",
 [L+"context.rs",L+"script.rs",L+"directory.rs",T+"glyph_positioning/element.rs",T+"glyph_definition/mod.rs"],[("conditional jump","jump_take_maybe! sites and hand-written equivalents")],observe=["Option-typed fields and Vec<Option<_>> fields"])
p("C12","Arrays have exactly as many elements as declared",
 "For every input from which a table is successfully read, each array it exposes has exactly the number of elements that its governing count declares (or the count the specification derives from it, such as a component count minus one), so that an array of offsets or headers and the array of the subtables they locate always have equal length and matching order.",
 ["inputs"],"every value of every count field, including zero and the maximum",
 "Tests never compare declared and actual lengths, and never reach the extremes.",
 [L+"*.rs",T+"**/*.rs","src/variations/item.rs"],[("count-driven reads","take_given(count) and 0..count loops")],observe=["every Vec field"])
p("C13","Formats, versions and lookup types select the right variant",
 "For every input, the format, version or lookup-type number stored in (or given for) a table selects exactly the variant that the specification assigns to that number, the variant is read from the very start of the table, and any other number makes the read fail with an error instead of being read as some known variant.",
 ["inputs"],"all 2^16 (or 2^32) values of each discriminator",
 "Tests reach few variants and never an unknown number.",
 [L+"coverage.rs",L+"class.rs",L+"context.rs",L+"correction.rs",L+"directory.rs",T+"glyph_positioning/*.rs",T+"glyph_substitution/mod.rs",T+"glyph_definition/*.rs",T+"color_palettes.rs"],[("dispatch on the peeked number","read functions of the enumerations")],observe=["variant of the returned enumeration; error"])
p("C14","Malformed tables are rejected",
 "For every input, a table whose fixed version, format or reserved field has another value than the specification fixes, whose flags have reserved bits set, whose one-based count (ligature components, context input glyphs) is zero, whose device size range is inverted, whose delta format is unknown, or whose palette reaches beyond the declared colors makes the read return an error; no value of such a table is ever returned. (A format-specific record that is reached only through an enumeration that dispatches on the format counts as checked by that enumeration.)",
 ["inputs"],"every value of each validated field",
 "No test feeds a malformed table except one directory and one checksum.",
 [L+"*.rs",T+"**/*.rs","src/variations/item.rs"],[("field constraints","table! fields with a fixed value, raise! sites, flags! invalid masks")],observe=["Err of the read functions"])
p("C15","Well-formed tables are not rejected",
 "For every input, reading a table fails only if the input ends early (or the tape itself fails) or if the table is malformed in one of the ways the specification forbids and this package checks; no other value of any field causes a failure, and no byte outside the table's own encoding is needed to read it.",
 ["inputs"],"every value of every field that is not constrained",
 "Tests contain a few well-formed fonts; an additional constraint on a count, size or flag they do not hit is invisible.",
 [L+"*.rs",T+"**/*.rs","src/variations/item.rs"],[("conditions guarding errors","raise! sites")],observe=["Err of the read functions"])
p("C16","Read errors are never swallowed",
 "For every input and every point at which the tape or a nested table fails, the failure makes the whole read fail with an error: it is never replaced by a default, an absent value, a shorter array or a partly filled table.",
 ["inputs","fault_sequences"],"every fallible operation in every read function and every failure of it, under every feature combination",
 "Tests read complete files from disk; no read ever fails in the middle.",
 [L+"*.rs",T+"**/*.rs","src/*.rs","src/variations/item.rs"],[("propagation of errors","the ? operator and Result-collecting at every fallible call")],observe=["Result of the public read functions"])
p("C17","Reading and querying never panic",
 "For every byte sequence, reading any table that this package itself decodes and calling the accessors and iterators of a value that has been read causes no panic in the package's own code: no arithmetic overflow, no index out of bounds, no failed assertion, no unwrap of an absent value.",
 ["inputs"],"every tape content, every accessor argument",
 "Panics need adversarial counts, offsets and sizes; the fixtures are well-formed, and the should_panic tests accept any panic.",
 [L+"*.rs",T+"**/*.rs","src/*.rs","src/variations/item.rs"],[("range of counts, bounds checks and guards","all functions reachable from the public readers and accessors")],observe=["absence of panics"])
p("C18","Reading always terminates",
 "For every byte sequence, reading any table performs a finite number of steps bounded by the counts it has read: no cycle of offsets in the input can make a read call itself again or loop without advancing towards a bound.",
 ["inputs"],"every tape content, including offsets that point backwards or to themselves",
 "Cyclic inputs are not in the fixtures, and non-termination cannot be observed by a finite test.",
 [L+"*.rs",T+"**/*.rs","src/variations/item.rs"],[("acyclic call graph of readers; counted loops","all read functions")],observe=["termination"])
p("C19","Inline records leave the tape right behind themselves",
 "For every input, reading a record that is stored inline in an array or in the middle of another table (value records, pairs, marks, bases, components, connections, tagged headers, instance records) moves the tape by exactly the size of its encoding, even though its anchors or corrections lie elsewhere, so that the next record is read from where the specification places it.",
 ["inputs"],"every sequence of inline records, every combination of present and absent out-of-line parts",
 "It takes an array with at least two records of which one has out-of-line parts; the tests compare no element after such a record.",
 [T+"glyph_positioning/element.rs",T+"glyph_positioning/mod.rs",T+"font_variations/mod.rs"],[("position restored after out-of-line reads","tape.stay in element.rs")],
 state=[("tape position","where the next inline record is read","tape")],observe=["second and later elements of inline arrays"])
p("C20","Tags survive conversion to features, scripts and languages",
 "For every four-byte tag, converting the tag to a feature, a script or a language system and back gives the same tag; an unregistered tag is preserved as an unknown one, and a registered tag is never reported as unknown. A name is available exactly for registered tags.",
 ["inputs"],"all 2^32 tags for each of the three registries",
 "Only two tags are converted in the tests.",
 [L+"feature.rs",L+"script.rs",L+"language.rs"],[("generated match arms","implement! tables")],observe=["from_tag, Into<Tag>, name"])
p("C21","Registered tags mean what the OpenType registry says",
 "For every registered feature, script and language tag, the variant, the name and (for languages) the list of ISO 639 codes returned for it are those that the OpenType registry assigns to that tag; codes come as individual non-empty codes.",
 ["inputs"],"every entry of the three registries (more than 900)",
 "Two language entries are checked for the number of codes; none for its content.",
 [L+"feature.rs",L+"script.rs",L+"language.rs"],[("registry tables","implement! tables")],observe=["from_tag, name, codes"])
p("C22","Lookup by tag finds the first matching record",
 "For every feature list, script list and script that has been read and every tag, looking the tag up returns the record that belongs to the first header with that tag, and nothing exactly when no header has it; the order of the headers in the file does not matter.",
 ["inputs"],"every list content (sorted or not, with duplicate tags) and every tag",
 "Tests look up three present tags in sorted two-entry lists and never an absent or duplicate one.",
 [L+"feature.rs",L+"script.rs"],[("paired headers and records","get functions")],observe=["Features::get, Scripts::get, script::Record::get"])
p("C23","A font hands out the table registered under the requested type's tag",
 "For every font, asking whether a table exists, moving to it and reading it (with or without a parameter) agree with each other: they concern the first entry of the font's table directory whose tag is the one the OpenType specification assigns to the requested type, absence is reported as absence and not as an error, and the table is read from the absolute offset stored in that entry wherever the tape was before.",
 ["inputs","histories"],"every table directory, every table type, every previous position of the tape",
 "Tests take at most four tables from well-formed fonts, never an absent one.",
 ["src/font.rs","src/table.rs"],[("tag association","implement! in src/table.rs"),("directory search","Font::position, Font::exists")],observe=["Font::exists, Font::position, Font::take, Font::take_given"])
p("C24","No table is handed out with a wrong checksum unless asked for",
 "Unless checksum verification has been disabled by the corresponding feature, every way of reaching a table through a font compares the stored checksum of that table's directory entry with the one computed over the table, and fails with an error when they differ; with the feature, neither a wrong checksum nor a failure of its computation prevents access.",
 ["inputs","configurations"],"every table, every stored checksum, both feature settings",
 "One corrupted font and one table are tested, with a should_panic that any panic satisfies.",
 ["src/font.rs"],[("comparison before the jump","Font::position")],observe=["Font::position, Font::take, Font::take_given"])
p("C25","Leniency features only accept more",
 "For every combination of the crate features and every input, an input that is accepted without the ignore-* features is accepted with them and decoded to the same value, except for items whose offset is null and which a feature takes for missing; each feature turns only the failure it is named after (missing lists in a layout directory, missing anchors of marks, wrong checksums) into an empty, default or unverified value, and the language feature adds exactly the default-language tag.",
 ["inputs","configurations"],"all 16 feature combinations and every input",
 "The suite runs the same fonts under two of the 16 combinations and compares nothing between them.",
 ["Cargo.toml",L+"directory.rs",L+"language.rs",T+"glyph_positioning/element.rs","src/font.rs"],[("cfg(feature) branches","the four features")],observe=["readers under each feature set"])
p("C26","Files and collections are told apart without being consumed",
 "For every input, a file that starts with the collection tag is refused with an error, any other file yields exactly one font that is read from the position at which the file starts, and a tag is recognized as a font signature exactly if it is the collection tag or one of the four single-font signatures.",
 ["inputs"],"all 2^32 leading tags and every starting position",
 "Tests read five well-formed single fonts from position zero and never a collection.",
 ["src/file.rs","src/font.rs","src/lib.rs"],[("peek before read","File::read"),("accept","src/lib.rs")],observe=["File::read, accept"])
p("C27","Reading is a pure function of the tape",
 "For every input, what is read depends only on the bytes of the tape, the starting position and the given parameter: the package keeps no state between reads, consults no environment, clock, random source, file or network, writes nothing, and contains no unsafe code.",
 ["inputs","histories","schedules"],"every history of earlier reads, every interleaving of readers on different threads",
 "A test cannot enumerate histories and interleavings, and two equal results do not show that no state is kept.",
 ["src/**/*.rs"],[("absence of global state and effects","whole crate")],observe=["every public function"])
p("C28","Flag predicates test exactly their own bit",
 "For every 16-bit flag word (value format, lookup flag, axis flag, instance flag), each predicate is true exactly when the bit (or bits) that the OpenType specification assigns to it is set, and a flag word read from a font is kept bit for bit.",
 ["inputs"],"all 2^16 words of each of the four flag types",
 "Flags of the fixtures set few bits and no test queries a predicate.",
 [T+"glyph_positioning/element.rs",L+"lookup.rs",T+"font_variations/mod.rs"],[("flags!","flag definitions")],observe=["predicates of Flags, AxisFlags, InstanceFlags"])
p("C29","Palette iteration yields every palette with its own colors",
 "For every color-palette table that has been read, iteration yields one item per palette in the order of the start indices, and each item yields exactly the declared number of entries, the e-th of which is the color at the palette's start index plus e, for both versions and also when palettes overlap.",
 ["inputs"],"every table, including overlapping palettes and zero entries",
 "The only test that iterates needs a fixture that is missing.",
 [T+"color_palettes.rs"],[("index arithmetic","ColorPalettes::iter")],observe=["ColorPalettes::iter"])
p("C30","Decoded values are owned, shareable and independent of the tape",
 "Every value that is read from a font (each table, list and record) owns its data: it can be sent to and shared between threads, outlives the tape and the font it was read from, and can be copied and printed for inspection where the package promises it; reading needs exclusive access to nothing but the tape.",
 ["programs","schedules"],"every program that uses the public types",
 "Only code that compiles is tested; that no program can observe sharing is a statement about all programs.",
 ["src/**/*.rs"],[("absence of borrowed, reference-counted and interior-mutable fields","all public types")],observe=["auto traits and derived traits of public types"])
p("N01","Reading cost is proportional to the input size",
 "For every input, the time and the memory spent on reading a table are at most proportional to the size of the input.",
 ["inputs"],"every tape content","Adversarial aliasing of offsets is not sampled.",
 [L+"*.rs",T+"**/*.rs"],[("none: offsets may alias, and vectors are reserved from counts","typeface::walue")],observe=["time, memory"])
p("N02","Tables of the companion packages decode correctly",
 "For every input, the tables that are re-exported from the companion packages for TrueType and PostScript (cmap, head, hhea, hmtx, loca, glyf, maxp, name, OS/2, post, CFF) decode to the values their specifications assign.",
 ["inputs"],"every tape content","Tests read a few of them and compare nothing.",
 ["src/table.rs","src/lib.rs"],[("dependencies truetype and postscript","outside the repository")],observe=["re-exported types"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
