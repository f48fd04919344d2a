package main

import (
	"bytes"
	"fmt"
	"sync"
	"unicode/utf8"
	"unsafe"

	"REPOMOD/textseg"
	"ZZSPEC"
)

var scan = textseg.ScanGraphemeClusters

func init() {
	props["C01"] = &Prop{Check: c01, Gen: genBoth}
	props["C02"] = &Prop{Check: c02, Gen: genBoth}
	props["C03"] = &Prop{Check: c03, Gen: genBoth}
	props["C04"] = &Prop{Check: c04, Gen: genBoth}
	props["C05"] = &Prop{Check: c05, Gen: genBoth, Serial: true}
	props["C06"] = &Prop{Check: want(spec.Want06, nil), Gen: genText}
	props["C07"] = &Prop{Check: want(spec.Want07, func(h spec.Hist, c uint8) bool { return true }), Gen: genText}
	props["C08"] = &Prop{Check: want(spec.Want08, func(h spec.Hist, c uint8) bool { return spec.GCB(h.Prev) == spec.ZWJ && spec.GCB(c) == spec.ExtPict }), Gen: genText}
	props["C09"] = &Prop{Check: want(spec.Want09, func(h spec.Hist, c uint8) bool { return spec.InCB(c) == spec.Consonant }), Gen: genText}
	props["C10"] = &Prop{Check: c10, Gen: genBoth}
	props["C11"] = &Prop{Check: c11, Gen: genBytes}
	props["C12"] = &Prop{Check: c12s, Gen: genText}
}

// heads are some of the prefixes of an input (all, when it is short).
func heads(n int) []int {
	var r []int
	for k := 0; k <= n; k++ {
		if n <= 48 || k <= 8 || n-k <= 8 || k%(n/16+1) == 0 {
			r = append(r, k)
		}
	}
	return r
}

func c01(in []byte) string {
	for _, k := range heads(len(in)) {
		d := in[:k]
		for _, eof := range []bool{false, true} {
			adv, tok, err := scan(d, eof)
			switch {
			case err != nil:
				return fmt.Sprintf("scan(%s, %v) returns error %v", q(d), eof, err)
			case adv < 0 || adv > len(d):
				return fmt.Sprintf("scan(%s, %v) advances by %d", q(d), eof, adv)
			case (tok == nil) != (adv == 0):
				return fmt.Sprintf("scan(%s, %v) advances by %d with token %v", q(d), eof, adv, tok)
			}
		}
	}
	for _, d := range [][]byte{nil, {}} {
		for _, eof := range []bool{false, true} {
			if adv, tok, err := scan(d, eof); adv != 0 || tok != nil || err != nil {
				return fmt.Sprintf("empty input gives %d %v %v", adv, tok, err)
			}
		}
	}
	return ""
}

func c02(in []byte) string {
	for _, k := range heads(len(in)) {
		d := in[:k]
		for _, eof := range []bool{false, true} {
			adv, tok, _ := scan(d, eof)
			if adv < 0 || adv > len(d) {
				return fmt.Sprintf("scan(%s, %v) advances by %d", q(d), eof, adv)
			}
			if adv > 0 && (len(tok) != adv || unsafe.SliceData(tok) != unsafe.SliceData(d)) {
				return fmt.Sprintf("scan(%s, %v) advances by %d with token %s", q(d), eof, adv, q(tok))
			}
			if eof && k > 0 && adv == 0 {
				return fmt.Sprintf("scan(%s, true) does not advance", q(d))
			}
		}
	}
	return ""
}

func c03(in []byte) string {
	at, t0 := -1, 0
	hs := heads(len(in))
	for i, k := range hs {
		adv, tok, _ := scan(in[:k], false)
		if adv == 0 {
			continue
		}
		for _, m := range hs[i:] {
			for _, eof := range []bool{false, true} {
				a, t, _ := scan(in[:m], eof)
				if a != adv || !bytes.Equal(t, tok) || (t == nil) != (tok == nil) {
					return fmt.Sprintf("scan(%s, false) yields %s, scan(%s, %v) yields %s", q(in[:k]), q(tok), q(in[:m]), eof, q(t))
				}
			}
		}
		if at < 0 || t0 != adv {
			at, t0 = k, adv
		}
		if len(in) > 64 {
			break
		}
	}
	return ""
}

func trailing(d []byte, at int) bool {
	for k := 0; k < 4; k++ {
		if r := at - k; r >= 0 && r < len(d) && len(d) < r+spec.Announced(d[r]) {
			return true
		}
	}
	return false
}

func c04(in []byte) string {
	for _, k := range heads(len(in)) {
		d := in[:k]
		if k == 0 {
			continue
		}
		adv, _, _ := scan(d, false)
		if adv != 0 {
			continue
		}
		a, _, _ := scan(d, true)
		if a != k && !trailing(d, a) {
			return fmt.Sprintf("scan(%s, false) waits, but the first cluster %s is complete", q(d), q(d[:max(0, min(a, k))]))
		}
	}
	return ""
}

type call struct {
	d   []byte
	eof bool
	adv int
	tok []byte
	err error
}

var (
	histMu sync.Mutex
	hist   []call
)

func same(a, b call) bool {
	return a.adv == b.adv && bytes.Equal(a.tok, b.tok) && (a.tok == nil) == (b.tok == nil) && (a.err == nil) == (b.err == nil)
}

func (c call) String() string { return fmt.Sprintf("(%d, %s, %v)", c.adv, q(c.tok), c.err) }

func do(d []byte, eof bool) call {
	c := call{d: append([]byte(nil), d...), eof: eof}
	t := []byte(nil)
	c.adv, t, c.err = scan(d, eof)
	if t != nil {
		c.tok = append([]byte{}, t...)
	}
	return c
}

// c05 compares calls on the same bytes in other surroundings: other capacity,
// other bytes beyond the end, another address, after other calls, and at the
// same time as others.
func c05(in []byte) string {
	for _, eof := range []bool{false, true} {
		first := do(append([]byte{}, in...), eof)
		for i, fill := range []byte{0x80, 'a', 0xcc, 0xff} {
			for _, room := range []int{4, 64} {
				mem := make([]byte, i+len(in)+room)
				for j := range mem {
					mem[j] = fill
				}
				d := mem[i : i+len(in)]
				copy(d, in)
				c := do(d, eof)
				if !bytes.Equal(d, in) {
					return fmt.Sprintf("scan(%s, %v) changes the buffer to %s", q(in), eof, q(d))
				}
				for j, x := range mem {
					if (j < i || j >= i+len(in)) && x != fill {
						return fmt.Sprintf("scan(%s, %v) writes outside the buffer", q(in), eof)
					}
				}
				if !same(c, first) {
					return fmt.Sprintf("scan(%s, %v) returns %v, with other bytes around the buffer %v", q(in), eof, first, c)
				}
			}
		}
		// the same buffer in place, after it held something else
		buf := make([]byte, len(in))
		for j := range buf {
			buf[j] = 'z'
		}
		do(buf, eof)
		copy(buf, in)
		if c := do(buf, eof); !same(c, first) {
			return fmt.Sprintf("scan(%s, %v) returns %v, and %v in a buffer scanned before with other bytes", q(in), eof, first, c)
		}
		do(in, !eof)
		if c := do(in, eof); !same(c, first) {
			return fmt.Sprintf("scan(%s, %v) returns %v, and %v after a call with the other flag", q(in), eof, first, c)
		}
		histMu.Lock()
		old := hist
		if len(hist) < 64 {
			hist = append(hist, first)
		} else {
			hist[len(in)*131%64] = first
		}
		histMu.Unlock()
		for i := 0; i < 3 && i < len(old); i++ {
			o := old[(len(in)*7+i*17)%len(old)]
			if c := do(o.d, o.eof); !same(c, o) {
				return fmt.Sprintf("scan(%s, %v) returned %v before, and %v after a scan of %s", q(o.d), o.eof, o, c, q(in))
			}
			if c := do(in, eof); !same(c, first) {
				return fmt.Sprintf("scan(%s, %v) returned %v, and %v after a scan of %s", q(in), eof, first, c, q(o.d))
			}
		}
		if tried.Load()%64 == 0 {
			if w := together(in, eof, first, old); w != "" {
				return w
			}
		}
	}
	return ""
}

func together(in []byte, eof bool, first call, old []call) string {
	var wg sync.WaitGroup
	out := make(chan string, 16)
	one := func(c call) {
		defer wg.Done()
		defer func() {
			if e := recover(); e != nil {
				out <- fmt.Sprintf("panic during concurrent scans: %v", e)
			}
		}()
		for i := 0; i < 60; i++ {
			if g := do(c.d, c.eof); !same(g, c) {
				select {
				case out <- fmt.Sprintf("scan(%s, %v) returns %v alone and %v while other scans run", q(c.d), c.eof, c, g):
				default:
				}
				return
			}
		}
	}
	cs := []call{first, first}
	for i := 0; i < 6 && i < len(old); i++ {
		cs = append(cs, old[(len(in)*3+i*11)%len(old)])
	}
	for _, c := range cs {
		wg.Add(1)
		go one(c)
	}
	wg.Wait()
	select {
	case w := <-out:
		return w
	default:
		return ""
	}
}

// ends are the ends of the clusters delivered for a whole input.
func ends(in []byte) ([]int, string) {
	var r []int
	at := 0
	for at < len(in) {
		adv, _, _ := scan(in[at:], true)
		if adv <= 0 || adv > len(in)-at {
			return r, fmt.Sprintf("scan(%s, true) advances by %d", q(in[at:]), adv)
		}
		at += adv
		r = append(r, at)
	}
	return r, ""
}

func want(f func(h spec.Hist, c uint8) int, relevant func(h spec.Hist, c uint8) bool) func(in []byte) string {
	return func(in []byte) string {
		if !utf8.Valid(in) {
			return ""
		}
		es, w := ends(in)
		if w != "" {
			return w
		}
		isEnd := map[int]bool{}
		for _, e := range es {
			isEnd[e] = true
		}
		var h spec.Hist
		for i, c := range string(in) {
			k := classes[c]
			if i > 0 && (relevant == nil || relevant(h, k)) {
				v := f(h, k)
				if v == spec.MustJoin && isEnd[i] || v == spec.MustBreak && !isEnd[i] {
					return fmt.Sprintf("%s at byte %d: boundary delivered: %v, UAX #29 says: %v", q(in), i, isEnd[i], v == spec.MustBreak)
				}
			}
			h = spec.Step(h, k)
		}
		// without the flag, as far as clusters come out
		at, n := 0, 0
		for at < len(in) {
			adv, _, _ := scan(in[at:], false)
			if adv == 0 {
				break
			}
			if adv < 0 || adv > len(in)-at || n >= len(es) || at+adv != es[n] {
				if relevant == nil {
					return fmt.Sprintf("%s: the cluster at byte %d is %d bytes without the end-of-input flag", q(in), at, adv)
				}
				break
			}
			at += adv
			n++
		}
		return ""
	}
}

func charLen(in []byte, i int) int {
	var b [4]byte
	copy(b[:], in[i:])
	return spec.CharLen(b[0], b[1], b[2], b[3], len(in)-i)
}

func seqLen(in []byte, i int) int {
	var b [4]byte
	copy(b[:], in[i:])
	return spec.SeqLen(b[0], b[1], b[2], b[3], len(in)-i)
}

func c10(in []byte) string {
	check := func(at, adv int, eof bool) string {
		for i := at; i < at+adv; i++ {
			if n := charLen(in, i); n > 0 && i < at+adv && i+n > at+adv {
				return fmt.Sprintf("%s: the token at byte %d (flag %v) ends at byte %d, inside the character at byte %d", q(in), at, eof, at+adv, i)
			}
		}
		return ""
	}
	for at := 0; at < len(in); {
		if adv, _, _ := scan(in[at:], false); adv > 0 && adv <= len(in)-at {
			if w := check(at, adv, false); w != "" {
				return w
			}
		}
		adv, _, _ := scan(in[at:], true)
		if adv <= 0 || adv > len(in)-at {
			break
		}
		if w := check(at, adv, true); w != "" {
			return w
		}
		at += adv
	}
	// the end of a buffer may cut a character
	for _, k := range heads(len(in)) {
		adv, _, _ := scan(in[:k], false)
		if adv > 0 && adv <= k {
			if w := check(0, adv, false); w != "" {
				return fmt.Sprintf("%s, given %d bytes", w, k)
			}
		}
	}
	return ""
}

func loose(in []byte, qq int) bool {
	for k := 0; k < 4; k++ {
		if r := qq - k; r >= 0 && seqLen(in, r) > k {
			return false
		}
	}
	return true
}

func c11(in []byte) string {
	var ls []int
	for i := range in {
		if loose(in, i) {
			ls = append(ls, i)
		}
	}
	if len(ls) == 0 {
		return ""
	}
	es, w := ends(in)
	if w != "" {
		return w
	}
	isEnd := map[int]bool{0: true}
	for _, e := range es {
		isEnd[e] = true
	}
	for n, i := range ls {
		if !isEnd[i] || !isEnd[i+1] {
			return fmt.Sprintf("%s: the malformed byte at %d is not a cluster of its own (clusters end at %v)", q(in), i, es)
		}
		if n > 2 && n < len(ls)-2 {
			continue
		}
		for side, part := range [][]byte{in[:i], in[i+1:]} {
			pe, w := ends(part)
			if w != "" {
				return w
			}
			off := side * (i + 1)
			is := map[int]bool{}
			for _, e := range pe {
				is[e+off] = true
			}
			for k := off + 1; k <= off+len(part); k++ {
				if is[k] != isEnd[k] {
					return fmt.Sprintf("%s: around the malformed byte at %d, the text %s alone is divided differently at byte %d", q(in), i, q(part), k-off)
				}
			}
		}
	}
	// the same without the flag
	at := 0
	for at < len(in) {
		adv, _, _ := scan(in[at:], false)
		if adv <= 0 {
			break
		}
		for _, i := range ls {
			if i+3 < len(in) && at <= i && i < at+adv && (i != at || adv != 1) {
				return fmt.Sprintf("%s: without the end-of-input flag the malformed byte at %d is in the cluster %d to %d", q(in), i, at, at+adv)
			}
		}
		at += adv
	}
	return ""
}

// c12s sees classification through the scan.
func c12s(in []byte) string {
	if !utf8.Valid(in) || utf8.RuneCount(in) > 3 {
		return ""
	}
	return want(spec.Want06, nil)(in)
}
