package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"REPOMOD/textseg/internal/charprops"
	"REPOMOD/textseg/internal/charprops/gentable"
)

// An input of C14 is a history of assignments of nine bytes each: the kind, the
// first and the last scalar value and the number of a value. They are written
// as Unicode data files, in which the assignments of a file keep their order,
// and the tables built from these are compared with a map.

var gcbVals = []string{"CR", "LF", "Control", "Extend", "ZWJ", "Regional_Indicator", "Prepend", "SpacingMark", "L", "V", "T", "LV", "LVT"}
var incbVals = []string{"Consonant", "Extend", "Linker"}

type assign struct {
	kind        byte // 0 grapheme cluster break, 1 emoji, 2 Indic conjunct break
	first, last uint32
	val         byte
}

func (a assign) put(b []byte) []byte {
	b = append(b, a.kind)
	b = binary.BigEndian.AppendUint32(b, a.first<<8)
	b = b[:len(b)-1]
	b = binary.BigEndian.AppendUint32(b, a.last<<8)
	b = b[:len(b)-1]
	return append(b, a.val, 0)
}

func assigns(in []byte) []assign {
	var r []assign
	for ; len(in) >= 9; in = in[9:] {
		a := assign{kind: in[0] % 3, first: uint32(in[1])<<16 | uint32(in[2])<<8 | uint32(in[3]), last: uint32(in[4])<<16 | uint32(in[5])<<8 | uint32(in[6]), val: in[7]}
		if a.first > 0x10ffff || a.last > 0x10ffff || a.first > a.last || a.last >= 0xd800 && a.first <= 0xdfff {
			continue
		}
		r = append(r, a)
	}
	return r
}

// lookup walks the tables as the run-time lookup does.
func treeLookup(t *gentable.RawPropertyTree, c rune) uint8 {
	var b [4]byte
	n := utf8.EncodeRune(b[:], c)
	if n == 1 {
		return t.Properties[b[0]]
	}
	blk := int(t.Indices[b[0]&63])
	for _, x := range b[1 : n-1] {
		blk = int(t.Indices[blk<<6+int(x&63)])
	}
	return t.Properties[blk<<6+int(b[n-1]&63)]
}

func c14(in []byte) string {
	if string(in) == "regenerate" {
		return c14Real()
	}
	if how, ok := bytes.CutPrefix(in, []byte("unreadable ")); ok {
		return c14Unreadable(string(how))
	}
	as := assigns(in)
	want := make([]uint8, 0x110000)
	var files [3]bytes.Buffer
	lines := 0
	write := func(kind byte, first, last uint32, v string) {
		if kind == 2 {
			v = "InCB; " + v
		}
		rng := fmt.Sprintf("%04X..%04X", first, last)
		if first == last {
			rng = rng[:len(rng)/2-1]
		}
		// the ways a line can be written, among lines that say nothing
		switch lines++; lines % 9 {
		case 2:
			v += " # " + v
		case 3:
			v += " ; more"
		case 4:
			v += " ;"
		case 5:
			v = strings.ReplaceAll(v, " ", "\t ") + "\t;a;b;c"
		case 6:
			fmt.Fprintf(&files[kind], "# a comment\n\n")
		case 7:
			if kind > 0 {
				fmt.Fprintf(&files[kind], "0000..10FFFF ; %s\n", []string{"Emoji", "Emoji_Component", "Math", "Math ; InCB"}[lines/9%2+2*int(kind-1)])
			}
		}
		fmt.Fprintf(&files[kind], "%s ; %s\n", rng, v)
	}
	for k := byte(0); k < 3; k++ {
		for _, a := range as {
			if a.kind != k {
				continue
			}
			switch k {
			case 0:
				v := gcbVals[int(a.val)%len(gcbVals)]
				write(0, a.first, a.last, v)
				for c := a.first; c <= a.last; c++ {
					want[c] = uint8(charprops.LookupGCBProperty(v))
				}
			case 1:
				// it is refused for a character that has another value
				for c := a.first; c <= a.last; {
					for c <= a.last && want[c] != 0 {
						c++
					}
					from := c
					for c <= a.last && want[c] == 0 {
						want[c] = uint8(charprops.LookupEmojiProperty("Extended_Pictographic"))
						c++
					}
					if from < c {
						write(1, from, c-1, "Extended_Pictographic")
					}
				}
			case 2:
				v := incbVals[int(a.val)%len(incbVals)]
				write(2, a.first, a.last, v)
				for c := a.first; c <= a.last; c++ {
					want[c] |= uint8(charprops.LookupInCBProperty(v))
				}
			}
		}
	}
	dir, err := os.MkdirTemp("", "zzverif-ucd-")
	if err != nil {
		return ""
	}
	defer os.RemoveAll(dir)
	os.Mkdir(filepath.Join(dir, "auxiliary"), 0o755)
	os.Mkdir(filepath.Join(dir, "emoji"), 0o755)
	for k, f := range c14Files {
		if err := os.WriteFile(filepath.Join(dir, f), files[k].Bytes(), 0o644); err != nil {
			return ""
		}
	}
	return treeFails(dir, want)
}

var c14Files = []string{"auxiliary/GraphemeBreakProperty.txt", "emoji/emoji-data.txt", "DerivedCoreProperties.txt"}

// c14Unreadable builds the tables from files one of which is missing, or has an
// entry that cannot be read.
func c14Unreadable(how string) string {
	var n int
	if _, err := fmt.Sscanf(how, "%d", &n); err != nil || n < 0 || n > 5 {
		return ""
	}
	dir, err := os.MkdirTemp("", "zzverif-ucd-")
	if err != nil {
		return ""
	}
	defer os.RemoveAll(dir)
	os.Mkdir(filepath.Join(dir, "auxiliary"), 0o755)
	os.Mkdir(filepath.Join(dir, "emoji"), 0o755)
	what := ""
	for k, f := range c14Files {
		data := []string{"000D ; CR\n", "2660 ; Extended_Pictographic\n", "0915 ; InCB; Consonant\n"}[k]
		if k == n%3 {
			if what = f + " is missing"; n < 3 {
				continue
			}
			what = f + " has an entry that cannot be read"
			data = "no number" + data[4:]
		}
		if err := os.WriteFile(filepath.Join(dir, f), []byte(data), 0o644); err != nil {
			return ""
		}
	}
	if _, err := gentable.BuildRawPropertyTree(dir); err == nil {
		return "BuildRawPropertyTree returns no error where " + what
	}
	return ""
}

func treeFails(dir string, want []uint8) string {
	t, err := gentable.BuildRawPropertyTree(dir)
	if err != nil {
		return fmt.Sprintf("BuildRawPropertyTree: %v", err)
	}
	for c := rune(0); c <= 0x10ffff; c++ {
		if c == 0xd800 {
			c = 0xe000
		}
		if g := treeLookup(&t, c); g != want[c] {
			return fmt.Sprintf("the tables give U+%04X the value %#02x, it was assigned %#02x", c, g, want[c])
		}
	}
	return ""
}

// c14Real rebuilds the tables from the Unicode files of the repository.
func c14Real() string {
	want := make([]uint8, 0x110000)
	for c := range want {
		var b [4]byte
		n := utf8.EncodeRune(b[:], rune(c))
		p, _ := charprops.LookupFirstChar(b[:n])
		want[c] = uint8(p)
	}
	if w := treeFails(job.Extra["ucd"], want); w != "" {
		return "built from the repository's Unicode files, against the run-time lookup: " + w
	}
	return ""
}

func init() {
	props["C14"] = &Prop{Check: c14, Gen: func(yield func([]byte) bool) {
		if job.Extra["ucd"] != "" && !yield([]byte("regenerate")) {
			return
		}
		for n := range 6 {
			if !yield(fmt.Appendf(nil, "unreadable %d", n)) {
				return
			}
		}
		edges := []uint32{0, 1, 0x3f, 0x40, 0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xff, 0x100, 0x7ff, 0x800, 0x83f, 0x840, 0xfff, 0x1000, 0x1001, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1003f, 0x10040, 0x10fff, 0x11000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffbf, 0x10ffc0, 0x10ffff}
		for _, c := range job.Runes {
			if c <= 0x10ffff && (c < 0xd800 || c > 0xdfff) {
				edges = append(edges, uint32(c))
			}
		}
		r := rng(14)
		point := func() uint32 {
			for {
				c := edges[r.Intn(len(edges))]
				switch r.Intn(6) {
				case 0:
					c = uint32(r.Intn(0x110000))
				case 1:
					c = uint32(r.Intn(0x800))
				case 2:
					c += uint32(r.Intn(200))
				case 3:
					c ^= 1 << r.Intn(21)
				}
				if c <= 0x10ffff && (c < 0xd800 || c > 0xdfff) {
					return c
				}
			}
		}
		for _, c := range edges {
			for k := byte(0); k < 3; k++ {
				if !yield(assign{k, c, c, 3}.put(nil)) {
					return
				}
			}
		}
		// many different blocks
		big := func(n int, step uint32, spread int) []byte {
			var b []byte
			c := uint32(r.Intn(64))
			for i := 0; i < n; i++ {
				if c >= 0xd800 && c <= 0xdfff {
					c = 0xe000
				}
				if c > 0x10ffff {
					break
				}
				x := c + uint32(i%64)
				if x <= 0x10ffff && (x < 0xd800 || x > 0xdfff) {
					b = assign{0, x, x, byte(r.Intn(13))}.put(b)
				}
				if x = c + uint32(i/64%64); spread > 1 && x <= 0x10ffff && (x < 0xd800 || x > 0xdfff) {
					b = assign{2, x, x, byte(r.Intn(3))}.put(b)
				}
				c += step
			}
			return b
		}
		// every block different from all others
		var all []byte
		for i, c := uint32(0), uint32(0x80); c <= 0x10ffff; i, c = i+1, c+64 {
			if c < 0xd800 || c > 0xdfff {
				all = assign{0, c + i%64, c + i%64, byte(i >> 12)}.put(all)
				all = assign{2, c + i/64%64, c + i/64%64, 2}.put(all)
			}
		}
		if !yield(all) {
			return
		}
		for _, n := range []int{300, 1100, 1300, 2300, 4200, 16500, 17000} {
			if !yield(big(n, 64, 2)) || !yield(big(n, 4096, 1)) {
				return
			}
		}
		for {
			var b []byte
			if r.Intn(40) == 0 {
				b = big(200+r.Intn(4000), 64*uint32(1+r.Intn(6)), 1+r.Intn(2))
			}
			for range 1 + r.Intn(1<<r.Intn(8)) {
				f := point()
				l := f
				if r.Intn(2) == 0 {
					l += uint32(r.Intn(1 << r.Intn(14)))
				}
				b = assign{byte(r.Intn(3)), f, l, byte(r.Intn(13))}.put(b)
				// the same blocks elsewhere
				if r.Intn(3) == 0 {
					d := uint32(64 << r.Intn(13))
					b = assign{b[len(b)-9], f ^ d, l ^ d, b[len(b)-2]}.put(b)
				}
			}
			if !yield(b) {
				return
			}
		}
	}}
}
