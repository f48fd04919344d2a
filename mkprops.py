#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text stays readable)."""
import json
G="textseg/grapheme_clusters.go"; T="textseg/internal/charprops/property_table.go"; R="textseg/internal/charprops/property_table_raw.go"
P="textseg/internal/charprops/properties.go"; M="textseg/internal/machine/state.go"
GT="textseg/internal/charprops/gentable/generate.go"; GG="textseg/internal/charprops/generate.go"; U="textseg/internal/charprops/ucdparse/ucd_scan.go"
A15="autoversion/textseg/unicode15.go"; A17="autoversion/textseg/unicode17.go"; AA="autoversion/textseg/version_agnostic.go"
SC="textseg.ScanGraphemeClusters(data, atEOF) -> (advance, token, err)"
props=[]
def add(id,title,st,over,qt,why,files,mech,obs,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    props.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

add("C01","Scanning is total and keeps the split-function protocol",
 "For every byte slice (valid UTF-8 or not, any length) and either value of the end-of-input flag, the grapheme-cluster scan returns: it never panics, never indexes out of range and never loops forever. Its error is always nil, its advance lies between 0 and the buffer length, and it returns a nil token exactly when it advances by 0, as it does for empty input.",
 ["inputs"],"every byte slice and both flag values",
 "The tests run the 766 official samples plus four hand-written buffers, nearly all valid UTF-8; most malformed, overlong and out-of-range byte combinations, and long buffers, are never scanned.",
 [G,T,R,M],[("main loop",G+": ScanGraphemeClusters"),("UTF-8 decoding and the table walk",T+": LookupFirstChar"),("panic(\"invalid state\")",M+": nextState")],[SC])
add("C02","Tokens partition the input without loss",
 "Whenever the scan advances by n > 0, the token is exactly the first n bytes of the buffer it was given, in that same memory. Given a non-empty buffer and the end-of-input flag it always advances. Scanning a finite input to its end therefore yields non-empty tokens whose concatenation is the input.",
 ["inputs"],"every byte slice, both flag values, and every sequence of calls that consumes an input",
 "Tests compare tokens for sample strings only; nothing checks that arbitrary or malformed bytes are neither dropped, duplicated nor reordered, or that the end of input always makes progress.",
 [G,T],[("return count, data[:count], nil",G+": ScanGraphemeClusters"),("len(data) > count && atEOF",G+": ScanGraphemeClusters")],[SC,"concatenation of the tokens bufio.Scanner yields"])
add("C03","How input is chunked never changes the clusters",
 "If the scan yields a token for a buffer without the end-of-input flag, it yields the same token for that buffer followed by any further bytes, and with the flag set either way. The clusters delivered for a stream are therefore the same however its bytes are divided into reads, including inside a character.",
 ["inputs","histories"],"every buffer, every continuation of it, both flag values, and every division of a stream into reads",
 "One test feeds the official samples a byte at a time and compares results; other chunkings, other texts and malformed bytes at a chunk edge are not covered.",
 [G,T],[("more bytes needed: return 0, nil, nil",G+": ScanGraphemeClusters"),("len(p) < length",T+": LookupFirstChar")],[SC,"bufio.Scanner over readers with different chunk sizes"])
add("C04","The scan never waits for input it does not need",
 "If the scan, without the end-of-input flag, yields no token for a non-empty buffer, then with the flag it would yield a cluster that ends at the end of that buffer, or at or inside a trailing sequence whose first byte announces more bytes than the buffer still holds. So a cluster is delivered as soon as the first complete character beyond it, or an invalid byte, has arrived.",
 ["inputs","histories"],"every buffer a stream can present",
 "The drip-feed test accepts any delay because it only compares the tokens at the end; the direct tests check that the scan waits, not that it stops waiting.",
 [G,T],[("len(remain) == 0 / moreCount == 0",G+": ScanGraphemeClusters"),("len(p) < length",T+": LookupFirstChar")],[SC])
add("C05","Scanning is a pure function, safe to call concurrently",
 "A scan never modifies the caller's bytes, inside the buffer or in its spare capacity, and never changes any state shared between calls. Its result depends only on the bytes in the buffer and the flag: not on earlier or concurrent calls, on the buffer's capacity or address, or on bytes beyond its length.",
 ["inputs","histories","schedules"],"every buffer, every history of earlier calls, and every interleaving of concurrent calls",
 "No test calls the function concurrently, repeats a call, or inspects the buffer or its spare capacity afterwards.",
 [G,T,R,M],[("no package-level state is written; lookup tables are only read",T+", "+R),("the state machine is a value",M+": State")],[SC,"the buffer's bytes after the call"])
add("C06","Clusters of valid text are those of Unicode 17.0.0 UAX #29",
 "For every text that is valid UTF-8, of any length and any mixture of characters, the boundaries between the clusters delivered are exactly the extended grapheme cluster boundaries that rules GB1 to GB999 of UAX #29 define for the whole text, using the Unicode 17.0.0 character properties.",
 ["inputs"],"every finite sequence of Unicode scalar values",
 "GraphemeBreakTest.txt has 766 samples of a few characters each; rules with unbounded context and most characters and character combinations are not sampled.",
 [G,T,R,P,M],[("boundary rules",M+": Transition"),("context summary",M+": nextState"),("restart at each cluster",M+": Begin"),("property lookup",T+": LookupFirstChar")],[SC,"the cluster sequence of a text"],
 [("State","finite summary of the characters before the position",M)])
add("C07","Regional indicators pair into flags from the start of each run",
 "In any text, each maximal run of regional indicator characters, of any length and whatever precedes or follows it, is divided into pairs from its beginning: there is a boundary between two adjacent regional indicators exactly when the number of regional indicators before that position in the run is even.",
 ["inputs"],"every text and every run length",
 "The official samples contain runs of at most four regional indicators with a few neighbours.",
 [G,M,T],[("GB12/GB13",M+": Transition, gb13Active"),("parity",M+": nextState, StateAwaitEmojiFlag")],[SC])
add("C08","Emoji ZWJ sequences join exactly when GB11 says so",
 "In any text, for two adjacent characters where the first is a zero width joiner and the second is Extended_Pictographic, there is no boundary between them exactly when the joiner is preceded by an Extended_Pictographic character followed by zero or more Extend characters; this holds for sequences of any length and nesting.",
 ["inputs"],"every text, any number of Extend characters and any number of joined pictographs",
 "The official samples use at most two modifiers and one or two joins.",
 [G,M,T],[("GB11",M+": Transition, gb11Active"),("context",M+": nextState, StateGB11BeforeZWJ, StateGB11AfterZWJ")],[SC])
add("C09","Indic conjuncts join exactly when GB9c says so",
 "In any text, a character with Indic_Conjunct_Break=Consonant that directly follows an InCB Linker or Extend character is joined to it exactly when that preceding stretch of InCB Linker and Extend characters contains at least one Linker and is itself directly preceded by an InCB Consonant (or when a rule before GB9c already decides that pair). This holds for stretches of any length and any order.",
 ["inputs"],"every text, stretches of linkers and extenders of any length and order",
 "The official samples contain stretches of at most three such characters.",
 [G,M,T],[("GB9c",M+": Transition, gb9cActive"),("context",M+": nextState, StateGB9cConsonant, StateGB9cLinker")],[SC])
add("C10","A boundary never falls inside a UTF-8 encoded character",
 "For every input, valid or not, and every position where the scan is resumed after a token, a valid UTF-8 encoding of a Unicode scalar value lying in the rest of the input is delivered inside one token: no token ends inside it.",
 ["inputs"],"every byte string containing valid encodings anywhere in it",
 "Tests check this only for the sample texts; combinations of malformed bytes next to multi-byte characters are not sampled.",
 [G,T],[("sequence length from the first byte",T+": LookupFirstChar"),("count += moreCount",G+": ScanGraphemeClusters")],[SC])
add("C11","Invalid bytes are single clusters and do not affect their neighbours",
 "A byte that is not a lead byte followed by all the continuation bytes it announces, nor part of such a sequence, is delivered as a cluster of exactly that one byte, at the end of input too. The text before it is divided as if the text ended there, and the text after it as if the text began there.",
 ["inputs"],"every input that mixes valid text with malformed bytes",
 "Two hand-written buffers with one truncated sequence each are all the tests have.",
 [G,T],[("properties == charprops.Error",G+": ScanGraphemeClusters"),("count == 0 at end of input",G+": ScanGraphemeClusters"),("continuation-byte check",T+": LookupFirstChar")],[SC])
add("C12","Every character is classified as Unicode 17.0.0 classifies it",
 "For every Unicode scalar value, including unassigned ones and those the Unicode files do not list, the grapheme break class, Extended_Pictographic flag and Indic conjunct class used for segmentation are those of Unicode 17.0.0, with the default class where none is listed. Decoding it consumes exactly the length of its encoding, and it is never mistaken for an invalid byte.",
 ["inputs"],"all 1,112,064 Unicode scalar values, followed by any bytes",
 "The table tests visit only the characters the data files list (about 22,000 of 1,112,064), so a wrong entry for any other character passes, and a character given an extra property of the other kind passes too.",
 [T,R,P],[("lookupIndices, lookupProps",R),("table walk",T+": LookupFirstChar"),("nybble packing",P+": GCBProperty, InCBProperty")],["charprops.LookupFirstChar(p) -> (properties, length)",SC])
add("C13","The boundary detector is right when driven continuously",
 "Fed the properties of a whole text's characters one after another, without being restarted at boundaries, the boundary detector reports for every adjacent pair exactly the decision UAX #29 makes at that position. It never panics when each call passes the previous character's properties and the detector state the previous call returned.",
 ["inputs","histories"],"every finite sequence of the property combinations Unicode 17.0.0 assigns",
 "The detector has no tests of its own; the scanner's tests always restart it at a boundary and never carry state across one.",
 [M],[("Transition/nextState",M)],["machine.Begin(first), State.Transition(prev, next)"],
 [("State","finite summary of all characters so far",M)])
add("C14","Generated tables represent the source data faithfully",
 "Whatever values are assigned to whatever Unicode scalar values when a property table is built, in any order, the compacted tables, walked the way run-time lookup walks them, give each assigned character exactly its value and every other character zero. Assigning one character never changes another. Built from Unicode data files, the tables give each character what those files list for it, and a file that cannot be read to its end or holds an entry the parser rejects gives an error, never a partial table. (The value that marks a pictograph is refused, by a panic, for a character that already has a non-zero value.)",
 ["inputs","histories"],"every sequence of assignments to scalar values, and every scalar value looked up",
 "The generator package has no tests; the tables are tested only as checked in, and only at the listed characters.",
 [GT,GG],[("tree construction",GT+": Set, BitwiseOr, ensureProps, BuildRawPropertyTree"),("block sharing",GT+": Compact, buildCompactedBlocks")],["gentable.RawPropertyTree{Indices, Properties}"],
 [("rawProps, indices","64-entry blocks, indexed by the low six bits of each UTF-8 byte",GT)])
add("C15","Unicode data lines are parsed exactly",
 "For every Unicode data line of the form 'start[..end] ; field [; field]* [# comment]', the parsed entry covers exactly the code points start to end inclusive and carries exactly the listed fields, trimmed and in order; comment-only and blank lines yield no entry, and a malformed code point yields an error and never a wrong range.",
 ["inputs"],"every line of a Unicode data file",
 "One test parses a four-line example file.",
 [U],[("NextEntry",U),("Fields.Strings, FirstString",U)],["ucdparse.Scanner.NextEntry, Entry.AllFields, Entry.FirstField"])
add("C16","Property names and packed values agree",
 "Every Grapheme_Cluster_Break, Extended_Pictographic and Indic_Conjunct_Break value name of the Unicode data maps to its own distinct non-zero value and any other name maps to 'none'; packing a break class with a conjunct class and unpacking it gives both back unchanged, for every pair of classes; and only CR, LF and Control count as control classes.",
 ["inputs"],"every name and every pair of property values",
 "Tests see the name functions only through the data files used on both sides of the comparison, so a swap of two names cancels out; packing is never tested on its own.",
 [P],[("LookupGCBProperty, LookupEmojiProperty, LookupInCBProperty",P),("MakeCharProperties, GCBProperty, InCBProperty, IsAnyControl",P)],["charprops package API"])
add("C17","The automatic wrapper matches the Go release's Unicode version",
 "On every Go release the wrapper supports (1.21 up to the newest it names), exactly one implementation is compiled in: the one for the Unicode major version of that release's standard library, which the exported version constant names. On any other release no implementation is compiled in, and the build fails instead of choosing one.",
 ["configurations"],"every Go release, past and future",
 "The single wrapper test runs on the releases installed and asserts nothing about the version chosen.",
 [A15,A17],[("build constraints",A15+", "+A17),("UnicodeMajorVersion",A15+", "+A17)],["autoversion/textseg.UnicodeMajorVersion vs unicode.Version"])
add("C18","The automatic wrapper adds nothing of its own",
 "For every input and flag, the wrapper's scan returns exactly what the version-specific implementation it selected returns. For every buffer and split function, its token list holds exactly the tokens a buffered scanner yields one by one, each with the bytes it had when it was yielded, its token count is their number, and both report the scanner's error.",
 ["inputs"],"every buffer (including ones larger than a scanner's internal buffer), flag and split function",
 "The one wrapper test counts the clusters of one short string.",
 [A15,A17,AA],[("forwarding",A15+", "+A17),("AllTokens, TokenCount, ScanUTF8Sequences",AA)],["autoversion/textseg API"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(p,ensure_ascii=False)+"\n" for p in props))
