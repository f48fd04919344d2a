// Package spec holds the specification functions the contracts refer to. They
// are written from the standards (UAX #29 revision for Unicode 17.0.0, the
// definition of UTF-8 in Unicode chapter 3), not from the code under
// verification. The verifier executes them symbolically; the replay oracle
// runs them as they are.
package spec

// Classes of characters: the low four bits are the Grapheme_Cluster_Break
// class, with Extended_Pictographic as one more class (no character has both),
// the bits above are the Indic_Conjunct_Break class.
type Class = uint8

const (
	Other Class = iota
	CR
	LF
	Control
	Extend
	ZWJ
	RI
	Prepend
	SpacingMark
	L
	V
	T
	LV
	LVT
	ExtPict
)

const (
	Consonant Class = 0x10
	InExtend  Class = 0x20
	Linker    Class = 0x30
)

func GCB(c Class) Class  { return c & 0x0f }
func InCB(c Class) Class { return c & 0x30 }

// ---- UTF-8 ----

// Announced is the length of the sequence a first byte announces, 0 for a byte
// that cannot begin one.
func Announced(b byte) int {
	switch {
	case b < 0x80:
		return 1
	case b < 0xc0:
		return 0
	case b < 0xe0:
		return 2
	case b < 0xf0:
		return 3
	case b < 0xf8:
		return 4
	}
	return 0
}

func Cont(b byte) bool { return b >= 0x80 && b < 0xc0 }

// SeqLen is the length of the complete sequence that begins with b0 when these
// bytes follow and avail bytes are there in all, or 0.
func SeqLen(b0, b1, b2, b3 byte, avail int) int {
	n := Announced(b0)
	if n == 0 || avail < n {
		return 0
	}
	if n >= 2 && !Cont(b1) {
		return 0
	}
	if n >= 3 && !Cont(b2) {
		return 0
	}
	if n >= 4 && !Cont(b3) {
		return 0
	}
	return n
}

// Hopeless says whether no further bytes can complete the sequence begun.
func Hopeless(b0, b1, b2, b3 byte, avail int) bool {
	n := Announced(b0)
	return n == 0 || n >= 2 && avail >= 2 && !Cont(b1) || n >= 3 && avail >= 3 && !Cont(b2) || n >= 4 && avail >= 4 && !Cont(b3)
}

// CharLen is the length of the valid encoding of a Unicode scalar value that
// these bytes begin with when avail bytes are there, or 0.
func CharLen(b0, b1, b2, b3 byte, avail int) int {
	n := SeqLen(b0, b1, b2, b3, avail)
	switch n {
	case 2:
		if b0 < 0xc2 {
			return 0
		}
	case 3:
		if b0 == 0xe0 && b1 < 0xa0 || b0 == 0xed && b1 >= 0xa0 {
			return 0
		}
	case 4:
		if b0 == 0xf0 && b1 < 0x90 || b0 == 0xf4 && b1 >= 0x90 || b0 > 0xf4 {
			return 0
		}
	}
	return n
}

// Decode is the scalar value of a complete sequence of n bytes.
func Decode(b0, b1, b2, b3 byte, n int) uint32 {
	switch n {
	case 1:
		return uint32(b0)
	case 2:
		return uint32(b0&0x1f)<<6 | uint32(b1&0x3f)
	case 3:
		return uint32(b0&0x0f)<<12 | uint32(b1&0x3f)<<6 | uint32(b2&0x3f)
	}
	return uint32(b0&0x07)<<18 | uint32(b1&0x3f)<<12 | uint32(b2&0x3f)<<6 | uint32(b3&0x3f)
}

// ---- UAX #29 ----

// Hist is what the rules need to know about the characters before a position.
type Hist struct {
	Some  bool  // there is a character before
	Prev  Class // the last one
	RIOdd bool  // an odd number of regional indicators just before
	Emoji uint8 // 1 after ExtPict Extend*, 2 after ExtPict Extend* ZWJ
	Indic uint8 // 1 after Consonant Extend*, 2 after Consonant [Extend Linker]* with a Linker
}

// Step adds a character.
func Step(h Hist, c Class) Hist {
	n := Hist{Some: true, Prev: c}
	n.RIOdd = GCB(c) == RI && !h.RIOdd
	switch {
	case GCB(c) == ExtPict:
		n.Emoji = 1
	case GCB(c) == Extend && h.Emoji == 1:
		n.Emoji = 1
	case GCB(c) == ZWJ && h.Emoji == 1:
		n.Emoji = 2
	}
	switch {
	case InCB(c) == Consonant:
		n.Indic = 1
	case InCB(c) == Linker && h.Indic != 0:
		n.Indic = 2
	case InCB(c) == InExtend:
		n.Indic = h.Indic
	}
	return n
}

func control(g Class) bool { return g == CR || g == LF || g == Control }

// Brk says whether UAX #29 has a boundary between the history and c.
func Brk(h Hist, c Class) bool {
	p, n := GCB(h.Prev), GCB(c)
	switch {
	case !h.Some: // GB1
		return true
	case p == CR && n == LF: // GB3
		return false
	case control(p): // GB4
		return true
	case control(n): // GB5
		return true
	case p == L && (n == L || n == V || n == LV || n == LVT): // GB6
		return false
	case (p == LV || p == V) && (n == V || n == T): // GB7
		return false
	case (p == LVT || p == T) && n == T: // GB8
		return false
	case n == Extend || n == ZWJ: // GB9
		return false
	case n == SpacingMark: // GB9a
		return false
	case p == Prepend: // GB9b
		return false
	case h.Indic == 2 && InCB(c) == Consonant: // GB9c
		return false
	case h.Emoji == 2 && n == ExtPict: // GB11
		return false
	case h.RIOdd && n == RI: // GB12, GB13
		return false
	}
	return true // GB999
}

// What a property requires between two characters.
const (
	Free      = 0 // nothing
	MustJoin  = 1 // no boundary
	MustBreak = 2 // a boundary
)

func verdict(brk bool) int {
	if brk {
		return MustBreak
	}
	return MustJoin
}

// Want06 is the requirement of C06: every boundary.
func Want06(h Hist, c Class) int { return verdict(Brk(h, c)) }

// Want07 is the requirement of C07: between regional indicators only.
func Want07(h Hist, c Class) int {
	if h.Some && GCB(h.Prev) == RI && GCB(c) == RI {
		return verdict(!h.RIOdd)
	}
	return Free
}

// Want08 is the requirement of C08: between a joiner and a pictograph. So that
// the decision can be taken where scanning resumes, the sequence before must
// not be divided either.
func Want08(h Hist, c Class) int {
	if h.Some && GCB(h.Prev) == ZWJ && GCB(c) == ExtPict {
		return verdict(h.Emoji != 2)
	}
	if h.Emoji == 1 && (GCB(c) == Extend || GCB(c) == ZWJ) {
		return MustJoin
	}
	return Free
}

// Want09 is the requirement of C09, likewise.
func Want09(h Hist, c Class) int {
	if h.Some && (InCB(h.Prev) == Linker || InCB(h.Prev) == InExtend) && InCB(c) == Consonant {
		return verdict(h.Indic != 2)
	}
	if h.Indic != 0 && (InCB(c) == Linker || InCB(c) == InExtend) {
		return MustJoin
	}
	return Free
}

// Restricting a class to what a property talks about.
func View06(c Class) Class { return c }
func View07(c Class) Class {
	if GCB(c) == RI {
		return RI
	}
	return Other
}
func View08(c Class) Class {
	switch g := GCB(c); g {
	case ExtPict, Extend, ZWJ:
		return g
	}
	return Other
}
func View09(c Class) Class { return InCB(c) }
