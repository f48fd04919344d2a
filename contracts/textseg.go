//go:build verif

// Package contracts holds the contracts the checks discharge, in comments
// only. [tags] name the properties a clause serves: a check for one property
// proves, and lets callers rely on, only the clauses carrying its tag.
//
// Besides Go expressions: a ==> b; seqlen(p, i, n) and charlen(p, i, n) are
// spec.SeqLen and spec.CharLen of the bytes of p from i with n bytes there
// (bytes past the end of p stand for whatever the stream may deliver next);
// announced(p, i); hopeless(p, i, n); loose(p, i, n): bytes i.. of p are not a
// complete sequence nor part of one, n bytes being there;
// class(p) is the Unicode class of the character p begins with;
// agree(p, q, n): the first n bytes of p and q are the same (up to four: all a
// character needs). represents(v, c): the stored properties v stand for class c.
package contracts

//@ func textseg/internal/charprops LookupFirstChar(p) (props, length)
//@ ensures [C01 C02 C06 C07 C08 C09 C10 C11] 0 <= length && length <= len(p)
//@ ensures [C03 C04 C10 C11 C06 C07 C08 C09] charlen(p, 0, len(p)) > 0 ==> length == charlen(p, 0, len(p)) && props != Error
//@ ensures [C10] props == Error ==> charlen(p, 0, 4) == 0
//@ ensures [C10] length > 0 && props != Error ==> length == seqlen(p, 0, len(p))
//@ ensures [C11] len(p) > 0 && announced(p, 0) == 0 ==> props == Error && length == 1
//@ ensures [C11] seqlen(p, 0, len(p)) > 0 && props == Error ==> charlen(p, 0, len(p)) == 0
//@ ensures [C11] seqlen(p, 0, len(p)) > 0 && props != Error ==> length == seqlen(p, 0, len(p))
//@ ensures [C11] len(p) >= announced(p, 0) && announced(p, 0) > 0 && seqlen(p, 0, len(p)) == 0 ==> props == Error && length == 1
//@ ensures [C11] len(p) < announced(p, 0) ==> length == 0 && props != Error || props == Error && hopeless(p, 0, len(p))
//@ ensures [C06 C07 C08 C09] charlen(p, 0, len(p)) > 0 ==> represents(props, p)
//@ ensures [C06 C07 C08 C09] charlen(p, 0, 4) > 0 && charlen(p, 0, len(p)) == 0 ==> length == 0 && props != Error
//@ ensures [C12] charlen(p, 0, len(p)) > 0 ==> length == charlen(p, 0, len(p)) && props != Error
//@ ensures [C12] charlen(p, 0, len(p)) > 0 ==> classof(props) == class(p)
//@ ensures [C04] len(p) > 0 && length == 0 && props != Error ==> len(p) < announced(p, 0)
//@ ensures [C03 C04 C05] 0 <= length && length <= len(p)
//@ pair [C03 C11] more bytes do not change a result that was there
//@ requires len(p1) <= len(p2) && agree(p1, p2, len(p1))
//@ ensures length1 > 0 || props1 == Error ==> length2 == length1 && props2 == props1
//@ pair [C04 C05] the same bytes give the same result
//@ requires len(p1) == len(p2) && agree(p1, p2, len(p1))
//@ ensures length2 == length1 && props2 == props1
//@ end

//@ func textseg ScanGraphemeClusters(data, atEOF) (advance, token, err)
//@ ensures [C01] 0 <= advance && advance <= len(data)
//@ ensures [C01] err == nil
//@ ensures [C01] (token == nil) == (advance == 0)
//@ ensures [C02] advance != 0 ==> advance > 0 && prefix(token, data, advance)
//@ ensures [C02] len(data) > 0 && atEOF ==> advance > 0
//@ ghost q
//@ ensures [C10] 0 <= q && q < advance && charlen(data, q, 4) > 0 && (!atEOF || q + charlen(data, q, 4) <= len(data)) ==> q + charlen(data, q, 4) <= advance
//@ ensures [C11] 0 <= q && q < advance && !atEOF && loose(data, q, q + 4) ==> q == 0 && advance == 1
//@ ensures [C11] 0 <= q && q < advance && atEOF && loose(data, q, len(data)) ==> q == 0 && advance == 1
//@ hint [C11] 0 <= q && q < advance && !atEOF ==> !loose(data, q, q + 4)
//@ hint [C11] 0 <= q && q < advance && atEOF ==> !loose(data, q, len(data))
//@ pair [C03] a buffer and a longer one
//@ share len(data1)
//@ requires !atEOF1 && len(data1) <= len(data2)
//@ ensures advance1 > 0 ==> advance2 == advance1 && same(token1, token2)
//@ pair [C04] a buffer without and with the end-of-input flag
//@ share len(data1)
//@ requires !atEOF1 && atEOF2 && len(data1) == len(data2) && len(data1) > 0
//@ ensures advance1 == 0 ==> advance2 == len(data2) || trailing(data2, advance2)
//@ pair [C05] the same bytes elsewhere
//@ share len(data1)
//@ requires atEOF1 == atEOF2 && len(data1) == len(data2)
//@ ensures advance1 == advance2 && same(token1, token2) && (err1 == nil) == (err2 == nil)
//@ pair [C11] a buffer and what precedes a malformed byte in it, as if the text ended there
//@ share len(data2)
//@ requires atEOF2 && 0 < len(data2) && len(data2) < len(data1) && (!atEOF1 ==> loose(data1, len(data2), len(data2) + 4)) && (atEOF1 ==> loose(data1, len(data2), len(data1)))
//@ ensures advance1 > 0 && advance1 <= len(data2) ==> advance2 == advance1 && same(token1, token2)
//@ walk [C06] Want06 View06
//@ walk [C07] Want07 View07
//@ walk [C08] Want08 View08
//@ walk [C09] Want09 View09
//@ end

//@ func textseg/internal/charprops LookupGCBProperty(name) (prop)
//@ ensures [C16] name == "CR" ==> prop == GCBCR
//@ ensures [C16] name == "LF" ==> prop == GCBLF
//@ ensures [C16] name == "Control" ==> prop == GCBControl
//@ ensures [C16] name == "Extend" ==> prop == GCBExtend
//@ ensures [C16] name == "ZWJ" ==> prop == GCBZWJ
//@ ensures [C16] name == "Regional_Indicator" ==> prop == GCBRegionalIndicator
//@ ensures [C16] name == "Prepend" ==> prop == GCBPrepend
//@ ensures [C16] name == "SpacingMark" ==> prop == GCBSpacingMark
//@ ensures [C16] name == "L" ==> prop == GCBL
//@ ensures [C16] name == "V" ==> prop == GCBV
//@ ensures [C16] name == "T" ==> prop == GCBT
//@ ensures [C16] name == "LV" ==> prop == GCBLV
//@ ensures [C16] name == "LVT" ==> prop == GCBLVT
//@ ensures [C16] name != "CR" && name != "LF" && name != "Control" && name != "Extend" && name != "ZWJ" && name != "Regional_Indicator" && name != "Prepend" && name != "SpacingMark" && name != "L" && name != "V" && name != "T" && name != "LV" && name != "LVT" ==> prop == GCBNone
//@ end

//@ func textseg/internal/charprops LookupEmojiProperty(name) (prop)
//@ ensures [C16] name == "Extended_Pictographic" ==> prop == GCBExtendedPictographic
//@ ensures [C16] name != "Extended_Pictographic" ==> prop == GCBNone
//@ end

//@ func textseg/internal/charprops LookupInCBProperty(name) (prop)
//@ ensures [C16] name == "Consonant" ==> prop == InCBConsonant
//@ ensures [C16] name == "Extend" ==> prop == InCBExtend
//@ ensures [C16] name == "Linker" ==> prop == InCBLinker
//@ ensures [C16] name != "Consonant" && name != "Extend" && name != "Linker" ==> prop == InCBNone
//@ end

//@ func textseg/internal/charprops MakeCharProperties(g, e, i) (cp)
//@ ensures [C16] gcb(g) && e == GCBNone && incb(i) ==> cp.GCBProperty() == g && cp.InCBProperty() == i && cp != Error
//@ ensures [C16] g == GCBNone && e == GCBExtendedPictographic && incb(i) ==> cp.GCBProperty() == e && cp.InCBProperty() == i && cp != Error
//@ end

//@ func textseg/internal/charprops GCBProperty.IsAnyControl(p) (yes)
//@ ensures [C16] gcb(p) || p == GCBExtendedPictographic ==> yes == (p == GCBCR || p == GCBLF || p == GCBControl)
//@ end

//@ func textseg/internal/machine Begin(first) (state)
//@ walk [C13] Brk View06
//@ end

//@ func textseg/internal/machine State.Transition(state, prev, next) (split, after)
//@ walk [C13] Brk View06
//@ end

// Of the wrapper: yields() is the number of tokens a bufio.Scanner over exactly
// buf with the given split function yields, scannererr(e) says that e is the
// error it ends with; tokenlen() and tokenbyte() are the length of its token
// number q and byte j of that; elemlen, elembyte and overwritten are about
// element q of a list of tokens: its length, its byte j, and whether it lies in
// memory the scanner reuses. chosen(...) is what the version-specific
// implementation returns for the same arguments.

//@ func autoversion/textseg AllTokens(buf, splitFunc) (tokens, err)
//@ ensures [C18] len(tokens) == yields()
//@ ensures [C18] scannererr(err)
//@ ensures [C18] 0 <= q() && q() < len(tokens) ==> elemlen(tokens) == tokenlen()
//@ ensures [C18] 0 <= q() && q() < len(tokens) && 0 <= j() && j() < tokenlen() ==> elembyte(tokens) == tokenbyte() && !overwritten(tokens)
//@ end

//@ func autoversion/textseg TokenCount(buf, splitFunc) (n, err)
//@ ensures [C18] n == yields()
//@ ensures [C18] scannererr(err)
//@ end

//@ func autoversion/textseg ScanGraphemeClusters(data, atEOF) (advance, token, err)
//@ ensures [C18] chosen(advance, token, err)
//@ end

//@ func autoversion/textseg ScanUTF8Sequences(data, atEOF) (advance, token, err)
//@ ensures [C18] chosen(advance, token, err)
//@ end

// Of the parser: the lines of the reader are numbered; before() of them, of
// lines() in all, were read before the call, scanned() after it. q() is any
// line. isdata(k): line k has a semicolon before any comment; wellformed(k):
// what precedes that is a code point or a range of them, first(k) to last(k);
// fieldsof(b, k): b is a copy of its own of what follows, up to the comment.
// endoflines(err): err says that there are no more lines, as the reader had it;
// text(t): t is the first field of the fields at hand, trimmed.

//@ func textseg/internal/charprops/ucdparse Scanner.NextEntry(sc) (entry, err)
//@ ensures [C15] before() <= q() && q() < scanned() - 1 ==> !isdata(q())
//@ ensures [C15] err == nil ==> scanned() > before() && isdata(scanned()-1) && wellformed(scanned()-1)
//@ ensures [C15] err == nil ==> int(entry.Start) == first(scanned()-1) && int(entry.End) == last(scanned()-1) + 1
//@ ensures [C15] err == nil ==> fieldsof(entry.Fields, scanned()-1)
//@ ensures [C15] err != nil && !endoflines(err) ==> looseerror(err) && scanned() > before() && isdata(scanned()-1) && !wellformed(scanned()-1)
//@ ensures [C15] endoflines(err) ==> scanned() == lines() && (before() <= q() && q() < lines() ==> !isdata(q()))
//@ end

//@ func textseg/internal/charprops/ucdparse Fields.FirstString(f) (t)
//@ ensures [C15] text(t)
//@ end

//@ func textseg/internal/charprops/ucdparse Entry.FirstField(e) (t)
//@ ensures [C15] text(t)
//@ end

// Of the tree a table is built from: value(c) is what the lookup of character c
// gives, before(c) what it gave before the call, other() any character, and
// sound() the invariant of the tree at any slot of its index table: what the
// slot refers to exists, is referred to from nowhere else, and is a property
// block exactly where the lookup takes it for one.

//@ func textseg/internal/charprops/gentable newTreeInProgress() (t)
//@ ensures [C14] value(other()) == 0
//@ ensures [C14] sound()
//@ end

//@ func textseg/internal/charprops/gentable treeInProgress.Set(t, r, v)
//@ requires [C14] scalar(r) && (v != 4 || before(r) == 0)
//@ ensures [C14] value(r) == v
//@ ensures [C14] other() != r ==> value(other()) == before(other())
//@ ensures [C14] sound()
//@ end

//@ func textseg/internal/charprops/gentable treeInProgress.BitwiseOr(t, r, v)
//@ requires [C14] scalar(r)
//@ ensures [C14] value(r) == before(r) | v
//@ ensures [C14] other() != r ==> value(other()) == before(other())
//@ ensures [C14] sound()
//@ end

// Of the tables built from the data files: allread() says that the files could
// be opened and read to their ends, assigned() is the value of the character
// other() after the assignments of all entries of the three files in their order
// (the break class, then the class of pictographs, and with it the conjunct
// class), and compacted(t) the value other() has in the compacted tables t.

//@ func textseg/internal/charprops/gentable BuildRawPropertyTree(dir) (t, err)
//@ ensures [C14] allread() ==> err == nil && compacted(t) == assigned()
//@ ensures [C14] !allread() ==> err != nil
//@ end
