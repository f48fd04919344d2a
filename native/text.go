package main

import (
	"bufio"
	"fmt"
	"os"
	"sort"
	"strings"

	"ZZSPEC"
)

// classes is the Unicode class of each scalar value.
var classes [0x110000]uint8

// reps are characters that stand for each class; the first of each is the plainest.
var reps = map[uint8][]rune{}
var classList []uint8

func scalar(c int) bool { return c >= 0 && c < 0xd800 || c > 0xdfff && c <= 0x10ffff }

func setup() {
	f, err := os.Open(job.Classes)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var a, b, c int
		if strings.HasPrefix(sc.Text(), "#") {
			continue
		}
		fmt.Sscanf(sc.Text(), "%X %X %X", &a, &b, &c)
		for i := a; i <= b; i++ {
			classes[i] = uint8(c)
		}
	}
	var byLen = map[uint8]map[int]bool{}
	for c := 0; c < len(classes); c++ {
		if !scalar(c) {
			continue
		}
		k := classes[c]
		n := len(string(rune(c)))
		if byLen[k] == nil {
			byLen[k] = map[int]bool{}
			classList = append(classList, k)
		}
		if !byLen[k][n] && (c >= 32 || k != 0 && k != 3) {
			byLen[k][n] = true
			reps[k] = append(reps[k], rune(c))
		}
	}
	reps[0] = append([]rune{'a'}, reps[0]...)
	for _, r := range job.Runes {
		if scalar(r) {
			reps[classes[r]] = append(reps[classes[r]], rune(r))
		}
	}
	sort.Slice(classList, func(i, j int) bool { return classList[i] < classList[j] })
}

func class(c rune) uint8 { return classes[c] }

// sequences yields every sequence of up to n items.
func sequences(items [][]byte, n int, yield func([]byte) bool) bool {
	var rec func(pre []byte, k int) bool
	rec = func(pre []byte, k int) bool {
		if !yield(pre) {
			return false
		}
		if k == 0 {
			return true
		}
		for _, it := range items {
			if !rec(append(pre[:len(pre):len(pre)], it...), k-1) {
				return false
			}
		}
		return true
	}
	// shortest first
	for d := 0; d <= n; d++ {
		var lev func(pre []byte, k int) bool
		lev = func(pre []byte, k int) bool {
			if k == 0 {
				return yield(pre)
			}
			for _, it := range items {
				if !lev(append(pre[:len(pre):len(pre)], it...), k-1) {
					return false
				}
			}
			return true
		}
		if !lev(nil, d) {
			return false
		}
	}
	return true
}

func classItems() (r [][]byte) {
	for _, k := range classList {
		r = append(r, []byte(string(reps[k][0])))
	}
	return
}

func runLengths() []int {
	ls := map[int]bool{}
	for k := 1; k <= 40; k++ {
		ls[k] = true
	}
	for _, c := range []int{64, 128, 256, 512, 1024, 4096} {
		for d := -2; d <= 2; d++ {
			ls[c+d] = true
		}
	}
	for _, c := range job.Ints {
		if c > 0 && c <= 70000 {
			for d := -2; d <= 2; d++ {
				if c+d > 0 {
					ls[c+d] = true
				}
			}
		}
	}
	var r []int
	for k := range ls {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// runs yields long repetitions of a unit between short ends.
func runs(units, ends [][]byte, yield func([]byte) bool) bool {
	ends = append([][]byte{nil}, ends...)
	for _, k := range runLengths() {
		for _, u := range units {
			for _, a := range ends {
				if k > 300 && len(a) > 0 && len(units) > 30 && a[0] != 'a' {
					continue
				}
				for _, z := range ends {
					if k > 300 && len(z) > 0 && len(a) > 0 && string(a) != string(z) {
						continue
					}
					b := append([]byte{}, a...)
					for i := 0; i < k; i++ {
						b = append(b, u...)
					}
					b = append(b, z...)
					if !yield(b) {
						return false
					}
				}
			}
		}
	}
	return true
}

// eachChar yields every character alone and between others.
func eachChar(ctx [][]byte, yield func([]byte) bool) bool {
	for c := 0; c < 0x110000; c++ {
		if !scalar(c) {
			continue
		}
		e := []byte(string(rune(c)))
		if !yield(e) {
			return false
		}
		for _, x := range ctx {
			if !yield(append(append(append([]byte{}, x...), e...), x...)) {
				return false
			}
		}
	}
	return true
}

// genText yields valid texts.
func genText(yield func([]byte) bool) {
	items := classItems()
	if !sequences(items, 3, yield) {
		return
	}
	if !mined(yield) {
		return
	}
	if !runs(items, items, yield) {
		return
	}
	if !sequences(items, 4, yield) {
		return
	}
	pairs := [][]byte{}
	for _, a := range items {
		for _, b := range items {
			pairs = append(pairs, append(append([]byte{}, a...), b...))
		}
	}
	r := rng(1)
	random := func(n int) bool {
		for i := 0; i < n; i++ {
			var b []byte
			var sub []uint8
			for j := 0; j < 2+r.Intn(4); j++ {
				sub = append(sub, classList[r.Intn(len(classList))])
			}
			for j := r.Intn(40); j >= 0; j-- {
				k := sub[r.Intn(len(sub))]
				c := reps[k][r.Intn(len(reps[k]))]
				b = append(b, string(c)...)
			}
			if !yield(b) {
				return false
			}
		}
		return true
	}
	if !random(300000) || !eachChar(items, yield) {
		return
	}
	if !runs(pairs, items, yield) {
		return
	}
	if !sequences(items, 5, yield) {
		return
	}
	for random(100000) {
	}
}

// mined yields short texts made of the characters the source mentions.
func mined(yield func([]byte) bool) bool {
	var ms [][]byte
	for _, c := range job.Runes {
		if scalar(c) && len(ms) < 24 {
			ms = append(ms, []byte(string(rune(c))))
		}
	}
	for _, t := range strings.Split(job.Extra["strings"], "\x00") {
		if t != "" && len(ms) < 32 {
			ms = append(ms, []byte(t))
		}
	}
	if len(ms) == 0 {
		return true
	}
	its := append(classItems(), ms...)
	return sequences(its, 3, yield)
}

var oddBytes = []byte{'a', 0x00, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xcc, 0xdf, 0xe0, 0xe1, 0xe2, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfe, 0xff}

// genBytes yields inputs valid and invalid.
func genBytes(yield func([]byte) bool) {
	var odd [][]byte
	for _, b := range oddBytes {
		odd = append(odd, []byte{b})
	}
	chars := [][]byte{[]byte("\r"), []byte("\n"), []byte("e"), []byte("\u00e9"), []byte("\u0301"), []byte("\u200d"), []byte("\U0001f600"), []byte("\U0001f1e6"), []byte("\u0915"), []byte("\u094d"), []byte("\u1100"), []byte("\u0600"), []byte("\U000e0100")}
	mix := append(append([][]byte{}, odd...), chars...)
	if !sequences(mix, 3, yield) || !mined(yield) {
		return
	}
	cut := append([][]byte{}, chars...)
	for _, c := range chars {
		for n := 1; n < len(c); n++ {
			cut = append(cut, c[:n])
		}
	}
	cut = append(cut, []byte{0xff}, []byte{0x80}, []byte{0xc0}, []byte{0xf8})
	if !runs(cut, cut, yield) {
		return
	}
	if !sequences(odd, 4, yield) {
		return
	}
	r := rng(2)
	for first := true; ; first = false {
		for i := 0; i < 200000; i++ {
			var b []byte
			for j := r.Intn(14); j >= 0; j-- {
				switch r.Intn(5) {
				case 0:
					b = append(b, oddBytes[r.Intn(len(oddBytes))])
				case 1:
					b = append(b, cut[r.Intn(len(cut))]...)
				case 2:
					b = append(b, byte(r.Intn(256)))
				case 3:
					k := classList[r.Intn(len(classList))]
					b = append(b, string(reps[k][r.Intn(len(reps[k]))])...)
				case 4:
					if c := r.Intn(0x110000); scalar(c) {
						b = append(b, string(rune(c))...)
					}
				}
			}
			if !yield(b) {
				return
			}
		}
		if first {
			if !eachChar([][]byte{{'a'}, {0x80}, {0xf0}}, yield) || !sequences(mix, 4, yield) {
				return
			}
		}
	}
}

// genBoth alternates texts and malformed inputs.
func genBoth(yield func([]byte) bool) {
	n := 0
	genBytes(func(b []byte) bool {
		n++
		return n < 1500000 && yield(b)
	})
	genText(yield)
}

// bounds are the boundaries UAX #29 puts into a valid text.
func bounds(in []byte) (r []int) {
	var h spec.Hist
	for i, c := range string(in) {
		k := classes[c]
		if spec.Brk(h, k) {
			r = append(r, i)
		}
		h = spec.Step(h, k)
	}
	return append(r, len(in))
}

func q(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%+q... (%d bytes)", b[:80], len(b))
	}
	return fmt.Sprintf("%+q", b)
}
