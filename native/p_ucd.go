package main

import (
	"bytes"
	"fmt"
	"io"
	"slices"
	"strings"
	"testing/iotest"

	"REPOMOD/textseg/internal/charprops/ucdparse"
)

// wantEntry is what a line of a Unicode data file says.
type wantEntry struct {
	line       int
	bad        bool // an error and no range
	free       bool // an error will do too
	start, end int  // inclusive
	fields     []string
}

func hexPoint(s string) (v int, ok bool) {
	if s == "" {
		return 0, false
	}
	for _, c := range []byte(s) {
		d := strings.IndexByte("0123456789abcdef", c|0x20)
		if c >= '0' && c <= '9' {
			d = int(c - '0')
		} else if d < 10 {
			return 0, false
		}
		if v = v*16 + d; v > 0x10ffff {
			return 0, false
		}
	}
	return v, true
}

// readUCD is the specification: the entries of a file, and whether a line is
// too long for the scanner.
func readUCD(text string) (want []wantEntry, long bool) {
	for n := 0; text != ""; n++ {
		l, rest, _ := strings.Cut(text, "\n")
		if len(l) > 1<<16-8 {
			return want, true
		}
		text = rest
		l = strings.TrimSuffix(l, "\r")
		l, _, _ = strings.Cut(l, "#")
		parts := strings.Split(l, ";")
		if len(parts) < 2 {
			continue
		}
		e := wantEntry{line: n}
		for _, f := range parts[1:] {
			e.fields = append(e.fields, strings.TrimSpace(f))
		}
		a, b, rng := strings.Cut(strings.TrimSpace(parts[0]), "..")
		if rng && (strings.TrimSpace(a) != a || strings.TrimSpace(b) != b) {
			e.free = true
			a, b = strings.TrimSpace(a), strings.TrimSpace(b)
		}
		if len(a) > 8 || len(b) > 8 {
			e.free = true
		}
		var ok, ok2 bool
		e.start, ok = hexPoint(a)
		e.end, ok2 = e.start, true
		if rng {
			e.end, ok2 = hexPoint(b)
		}
		e.bad = !ok || !ok2
		want = append(want, e)
	}
	return want, false
}

func ucdFails(want []wantEntry, long bool, r io.Reader, lazy bool) string {
	sc := ucdparse.NewScanner(r)
	type got struct {
		e   ucdparse.Entry
		err error
	}
	var gots []got
	check := func(k int) string {
		w, g := want[k], gots[k]
		if w.bad || g.err != nil {
			switch {
			case g.err == nil:
				return fmt.Sprintf("the malformed line %d yields the entry %04X..%04X", w.line+1, g.e.Start, g.e.End-1)
			case g.err == io.EOF:
				return fmt.Sprintf("line %d yields io.EOF", w.line+1)
			case !w.bad && !w.free:
				return fmt.Sprintf("line %d yields an error: %v", w.line+1, g.err)
			}
			return ""
		}
		if int(g.e.Start) != w.start || int(g.e.End) != w.end+1 {
			return fmt.Sprintf("line %d yields %04X up to %04X, not %04X up to %04X", w.line+1, g.e.Start, g.e.End-1, w.start, w.end)
		}
		for range 2 {
			if f := slices.Collect(g.e.AllFields()); !slices.Equal(f, w.fields) {
				return fmt.Sprintf("line %d: AllFields gives %q, not %q", w.line+1, f, w.fields)
			}
			if f := g.e.FirstField(); f != w.fields[0] {
				return fmt.Sprintf("line %d: FirstField gives %q, not %q", w.line+1, f, w.fields[0])
			}
			seq := g.e.AllFields()
			for stop := range min(len(w.fields), 5) {
				n := 0
				for f := range seq {
					if f != w.fields[n] {
						return fmt.Sprintf("line %d: field %d is %q, not %q", w.line+1, n, f, w.fields[n])
					}
					if n++; n > stop {
						break
					}
				}
			}
		}
		return ""
	}
	for k := 0; ; k++ {
		e, err := sc.NextEntry()
		if k == len(want) {
			if long {
				if len(e.Fields) < 1<<15 && (err == nil || err == io.EOF) {
					return fmt.Sprintf("a line too long for the scanner gives %v and no error", err)
				}
			} else if err != io.EOF {
				return fmt.Sprintf("after the last line: the entry %04X..%04X, error %v", e.Start, e.End-1, err)
			}
			break
		}
		gots = append(gots, got{e, err})
		if err == io.EOF {
			return fmt.Sprintf("io.EOF instead of the entry of line %d", want[k].line+1)
		}
		if !lazy {
			if w := check(k); w != "" {
				return w
			}
		}
	}
	for k := range gots {
		if w := check(k); w != "" {
			return w + " (looked at after the whole file was read)"
		}
	}
	return ""
}

func c15(in []byte) string {
	want, long := readUCD(string(in))
	if w := ucdFails(want, long, bytes.NewReader(in), true); w != "" {
		return w
	}
	if len(in) < 200 {
		if w := ucdFails(want, long, iotest.OneByteReader(bytes.NewReader(in)), false); w != "" {
			return w
		}
	}
	return ""
}

func init() {
	props["C15"] = &Prop{Check: c15, Gen: func(yield func([]byte) bool) {
		points := []int{0, 1, 9, 0xa, 0xf, 0x10, 0x41, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f1e6, 0xe0001, 0xfffff, 0x100000, 0x10fffe, 0x10ffff, 0x110000, 0x110001, 0x1fffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000041}
		points = append(points, job.Ints...)
		words := []string{"", "A", "CR", "InCB", "Linker", "Extended_Pictographic", "a b", "x=y", ".", "..", "é", "\u00a0", "\u3000x", "\x85", "\xff", "0041", "-", "\"q\"", "\x00"}
		for _, s := range job.Extra {
			words = append(words, strings.Split(s, "\x00")...)
		}
		// every short file over a few characters
		alpha := []byte("4F.;# \ng")
		for n := 0; n <= 5; n++ {
			b := make([]byte, n)
			var rec func(i int) bool
			rec = func(i int) bool {
				if i == n {
					return yield(b)
				}
				for _, c := range alpha {
					b[i] = c
					if !rec(i + 1) {
						return false
					}
				}
				return true
			}
			if !rec(0) {
				return
			}
		}
		for _, p := range points {
			for _, f := range []string{"%X;A", "%x ; A", "%04X..%[1]X;A", "%06X ; A # c", "0..%X;A;B", "%X..10FFFF;A", "%X..%[1]X..%[1]X;A", "%X..%[1]X.;A", "..%X;A", "%X;A;", "%X;;A", "\t%X\t;\tA\t\r\n%[1]X;B\n", "%X.;A", "%X...%[1]X;A", "%X..;A", "%X .. %[1]X;A", "+%X;A", "0x%X;A", "U+%X;A", "%X_0;A", "%d;A", "-%X;A"} {
				if !yield([]byte(fmt.Sprintf(f, p))) {
					return
				}
			}
		}
		for _, n := range []int{4000, 4096, 1<<16 - 100, 1<<16 + 100} {
			for _, c := range []string{"x", " ", ";", "#"} {
				for _, end := range []string{"", "\n", "\n0042;B\n"} {
					if k := n - len("0041;A;"); !yield([]byte("0041;A;" + strings.Repeat(c, k) + end)) {
						return
					}
				}
			}
		}
		r := rng(15)
		pick := func(s ...string) string { return s[r.Intn(len(s))] }
		sp := func() string { return pick("", "", " ", "  ", "\t", " \t ", "\v", "\u00a0") }
		point := func() string {
			p := points[r.Intn(len(points))]
			if r.Intn(3) == 0 {
				p = r.Intn(0x110000)
			}
			s := fmt.Sprintf(pick("%04X", "%X", "%x", "%06X"), p)
			if r.Intn(30) == 0 {
				i := r.Intn(len(s) + 1)
				s = s[:i] + pick("g", "G", "_", " ", "-", "+", "x", ".", "\x00", "é") + s[i:]
			}
			return s
		}
		for {
			var b strings.Builder
			for range 1 + r.Intn(1<<r.Intn(7)) {
				switch r.Intn(8) {
				case 0:
					b.WriteString(pick("", " ", "# comment", "#", " # a ; b", "#;", "# @missing: 0000..10FFFF; Other", "\t", "no data", "0041", "0041 # ; A", "0041 A"))
				default:
					b.WriteString(sp() + point())
					if r.Intn(2) == 0 {
						b.WriteString(pick("..", "..", "..", "..", "..", "..", ".", "...", " ..", ".. ") + point())
						if r.Intn(12) == 0 {
							b.WriteString(pick("..", ".", "-", " ") + point())
						}
					}
					for range r.Intn(4) + 1 {
						b.WriteString(sp() + ";" + sp() + words[r.Intn(len(words))])
					}
					b.WriteString(sp())
					if r.Intn(2) == 0 {
						b.WriteString("#" + pick("", " Lo  [2] X..Y", ";", "#", " a;b", " 0041..0042 ; C"))
					}
				}
				b.WriteString(pick("\n", "\n", "\n", "\n", "\r\n"))
			}
			s := b.String()
			if r.Intn(3) == 0 {
				s = strings.TrimRight(s, "\r\n")
			}
			if !yield([]byte(s)) {
				return
			}
		}
	}}
}
