package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"strings"
	"unicode"

	auto "REPOMOD/textseg"

	v15 "github.com/apparentlymart/go-textseg/v15/textseg"
	v17 "github.com/apparentlymart/go-textseg/v17/textseg"
)

var errSplit = errors.New("split failed")

// splitter makes a split function of some kind; each has its own state.
func splitter(k byte) bufio.SplitFunc {
	n := 0
	switch k % 14 {
	case 0:
		return auto.ScanGraphemeClusters
	case 1:
		return bufio.ScanLines
	case 2:
		return bufio.ScanWords
	case 3:
		return bufio.ScanBytes
	case 4:
		return bufio.ScanRunes
	case 5:
		return auto.ScanUTF8Sequences
	case 6: // three bytes at a time
		return func(d []byte, eof bool) (int, []byte, error) {
			if len(d) < 3 && !eof || len(d) == 0 {
				return 0, nil, nil
			}
			m := min(3, len(d))
			return m, d[:m], nil
		}
	case 7: // an error after a few tokens
		return func(d []byte, eof bool) (int, []byte, error) {
			if len(d) == 0 {
				return 0, nil, nil
			}
			if n++; n > 4 {
				return 0, nil, errSplit
			}
			return 1, d[:1], nil
		}
	case 8: // bytes that yield no token
		return func(d []byte, eof bool) (int, []byte, error) {
			if len(d) == 0 {
				return 0, nil, nil
			}
			if n++; n%3 == 0 {
				return 1, nil, nil
			}
			return 1, d[:1], nil
		}
	case 9: // a final token before the end
		return func(d []byte, eof bool) (int, []byte, error) {
			if len(d) == 0 {
				return 0, nil, nil
			}
			if n++; n > 3 {
				return 1, d[:1], bufio.ErrFinalToken
			}
			return 1, d[:1], nil
		}
	case 10: // empty tokens
		return func(d []byte, eof bool) (int, []byte, error) {
			if len(d) == 0 {
				return 0, nil, nil
			}
			if n++; n%2 == 0 {
				return 1, d[:0], nil
			}
			return 1, d[:1], nil
		}
	case 11: // tokens that do not lie in the buffer
		return func(d []byte, eof bool) (int, []byte, error) {
			if len(d) == 0 {
				return 0, nil, nil
			}
			return 1, []byte{d[0] ^ 1, 'x'}, nil
		}
	case 12: // a final error with a token
		return func(d []byte, eof bool) (int, []byte, error) {
			if len(d) == 0 {
				return 0, nil, nil
			}
			if n++; n > 2 {
				return 1, d[:1], errSplit
			}
			return 1, d[:1], nil
		}
	default: // long tokens
		return func(d []byte, eof bool) (int, []byte, error) {
			if i := bytes.IndexByte(d, 'a'); i >= 0 {
				return i + 1, d[:i+1], nil
			}
			if eof && len(d) > 0 {
				return len(d), d, nil
			}
			return 0, nil, nil
		}
	}
}

func init() {
	props["C18"] = &Prop{Check: c18, Gen: genAuto}
}

func genAuto(yield func([]byte) bool) {
	for k := byte(0); k < 14; k++ {
		for _, t := range []string{"", "a", "ab", "a\n", "\r\n", "a b c\n", "e\u0301\u0300", "\U0001f600\u200d\U0001f600", "\U0001f1e6\U0001f1e7\U0001f1e6", "\u0915\u094d\u0924", "\xff\xfea", "\xe2\x80", "abcdef\x80", "bbbbbbbbbbbbbbbb"} {
			for _, r := range []int{0, 1, 7, 255, 256, 600, 1024, 1365, 2047, 2048, 4095, 4096, 8192, 16384, 30000} {
				if r > 0 && len(t)*r > 200000 {
					continue
				}
				if !yield(append([]byte{k, byte(r >> 8), byte(r)}, t...)) {
					return
				}
			}
		}
	}
	for _, t := range strings.Split(job.Extra["strings"], "\x00") {
		for k := byte(0); k < 14; k++ {
			for _, u := range []string{t, t + "a", "a" + t, t + t, t + "\u0301", t[:len(t)/2]} {
				for _, r := range []byte{0, 1} {
					if !yield(append([]byte{k, 0, r}, u...)) {
						return
					}
				}
			}
		}
	}
	for _, n := range job.Ints {
		for d := -2; d <= 2; d++ {
			if m := n + d; m > 0 && m < 65536 {
				for k := byte(0); k < 14; k++ {
					for _, t := range []string{"a", "\u0301", "\xff", "b"} {
						if !yield(append([]byte{k, byte(m >> 8), byte(m)}, t...)) {
							return
						}
					}
				}
			}
		}
	}
	rnd := rng(5)
	parts := append(strings.Split(job.Extra["strings"], "\x00"), "a", "b", "\n", " ", "\r", "\u0301", "\u200d", "\U0001f600", "\U0001f1e6", "\u0915", "\u094d", "\xff", "\x80", "\xf0\x9f", "\u1100", "\u1161", "\u0600")
	for {
		var b strings.Builder
		for i, n := 0, rnd.Intn(40); i < n; i++ {
			b.WriteString(parts[rnd.Intn(len(parts))])
		}
		r := 0
		switch rnd.Intn(20) {
		case 0:
			r = rnd.Intn(4000)
		case 1, 2, 3:
			r = rnd.Intn(300)
		}
		if !yield(append([]byte{byte(rnd.Intn(14)), byte(r >> 8), byte(r)}, b.String()...)) {
			return
		}
	}
}

func short(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%+q... (%d bytes)", b[:40], len(b))
	}
	return fmt.Sprintf("%+q", b)
}

func c18(in []byte) string {
	if len(in) < 3 {
		return ""
	}
	r := int(in[1])<<8 | int(in[2])
	buf := bytes.Repeat(in[3:], r+1)
	if len(buf) > 1<<19 {
		return ""
	}
	impl := v17.ScanGraphemeClusters
	if strings.HasPrefix(unicode.Version, "15.") {
		impl = v15.ScanGraphemeClusters
	}
	for _, c := range []int{len(buf), len(buf) / 2, min(len(buf), 1), 0, len(buf) - 1, len(buf) - 2, len(buf) - 3} {
		if c < 0 {
			continue
		}
		for _, eof := range []bool{true, false} {
			n, tok, err := auto.ScanGraphemeClusters(buf[:c], eof)
			n2, tok2, err2 := impl(buf[:c], eof)
			if n != n2 || !bytes.Equal(tok, tok2) || (tok == nil) != (tok2 == nil) || err != err2 || len(tok) > 0 && &tok[0] != &tok2[0] {
				return fmt.Sprintf("ScanGraphemeClusters(%s, %v) = %d, %s, %v but the implementation for Unicode %s gives %d, %s, %v", short(buf[:c]), eof, n, short(tok), err, unicode.Version, n2, short(tok2), err2)
			}
			n, tok, err = auto.ScanUTF8Sequences(buf[:c], eof)
			n2, tok2, err2 = v15.ScanUTF8Sequences(buf[:c], eof)
			if n != n2 || !bytes.Equal(tok, tok2) || err != err2 {
				return fmt.Sprintf("ScanUTF8Sequences(%s, %v) = %d, %s, %v but the implementation gives %d, %s, %v", short(buf[:c]), eof, n, short(tok), err, n2, short(tok2), err2)
			}
		}
	}
	// what a scanner yields, one by one
	sc := bufio.NewScanner(bytes.NewReader(buf))
	sc.Split(splitter(in[0]))
	var want [][]byte
	if fails(func() {
		for sc.Scan() {
			want = append(want, bytes.Clone(sc.Bytes()))
		}
	}) {
		return "" // not a proper split function for this input
	}
	orig := bytes.Clone(buf)
	got, err := auto.AllTokens(buf, splitter(in[0]))
	if len(got) != len(want) || err != sc.Err() {
		return fmt.Sprintf("AllTokens(%s) with split function %d gives %d tokens and error %v; a scanner yields %d and %v", short(buf), in[0]%14, len(got), err, len(want), sc.Err())
	}
	for i := range want {
		if !bytes.Equal(got[i], want[i]) {
			return fmt.Sprintf("AllTokens(%s) with split function %d: token %d is %s, a scanner yields %s", short(buf), in[0]%14, i, short(got[i]), short(want[i]))
		}
	}
	n, err := auto.TokenCount(buf, splitter(in[0]))
	if n != len(want) || err != sc.Err() {
		return fmt.Sprintf("TokenCount(%s) with split function %d = %d, %v; a scanner yields %d and %v", short(buf), in[0]%14, n, err, len(want), sc.Err())
	}
	if !bytes.Equal(orig, buf) {
		return fmt.Sprintf("AllTokens or TokenCount changed the buffer %s", short(orig))
	}
	return ""
}

func fails(f func()) (bad bool) {
	defer func() { bad = recover() != nil }()
	f()
	return
}
