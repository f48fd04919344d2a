package main

import (
	"fmt"
	"strconv"
	"strings"

	"REPOMOD/textseg/internal/charprops"
)

var gcbNames = map[string]charprops.GCBProperty{
	"CR": charprops.GCBCR, "LF": charprops.GCBLF, "Control": charprops.GCBControl, "Extend": charprops.GCBExtend, "ZWJ": charprops.GCBZWJ,
	"Regional_Indicator": charprops.GCBRegionalIndicator, "Prepend": charprops.GCBPrepend, "SpacingMark": charprops.GCBSpacingMark,
	"L": charprops.GCBL, "V": charprops.GCBV, "T": charprops.GCBT, "LV": charprops.GCBLV, "LVT": charprops.GCBLVT,
}
var emojiNames = map[string]charprops.GCBProperty{"Extended_Pictographic": charprops.GCBExtendedPictographic}
var incbNames = map[string]charprops.InCBProperty{"Consonant": charprops.InCBConsonant, "Extend": charprops.InCBExtend, "Linker": charprops.InCBLinker}

func init() {
	props["C16"] = &Prop{Check: c16, Gen: func(yield func([]byte) bool) {
		var names []string
		for n := range gcbNames {
			names = append(names, n)
		}
		for n := range emojiNames {
			names = append(names, n)
		}
		for n := range incbNames {
			names = append(names, n)
		}
		names = append(names, "", "None", "Other", "Any", "XX", "CN", "EX", "PP", "SM", "RI", "E_Base", "E_Modifier", "E_Base_GAZ", "Glue_After_Zwj", "Emoji", "Emoji_Presentation", "Emoji_Modifier", "Emoji_Modifier_Base", "Emoji_Component", "InCB", "Error", "Vowel", "Virama", "LVTT", "Numeric", "Spacing_Mark", "RegionalIndicator", "ExtendedPictographic", "Grapheme_Extend", "Grapheme_Base")
		for _, n := range job.Extra {
			names = append(names, strings.Split(n, "\x00")...)
		}
		for _, n := range names {
			for _, v := range []string{n, strings.ToLower(n), strings.ToUpper(n), n + " ", " " + n, n + "s", strings.ReplaceAll(n, "_", ""), strings.ReplaceAll(n, "_", "-"), n + "\x00"} {
				if !yield([]byte("name:" + v)) {
					return
				}
			}
			for i := range n {
				if !yield([]byte("name:"+n[:i])) || !yield([]byte("name:"+n[i:])) || !yield([]byte("name:"+n[:i]+"x"+n[i+1:])) || !yield([]byte("name:"+n[:i]+n[i+1:])) {
					return
				}
			}
		}
		for g := 0; g < 256; g++ {
			for i := 0; i < 256; i++ {
				if !yield([]byte(fmt.Sprintf("pack:%d,%d", g, i))) {
					return
				}
			}
		}
		r := rng(3)
		for k := 0; k < 200000; k++ {
			b := make([]byte, r.Intn(8))
			for i := range b {
				b[i] = "CRLFControlExtendVT_ZWJabc"[r.Intn(26)]
			}
			if !yield([]byte("name:" + string(b))) {
				return
			}
		}
	}}
}

func c16(in []byte) string {
	if n, ok := strings.CutPrefix(string(in), "name:"); ok {
		if g := charprops.LookupGCBProperty(n); g != gcbNames[n] {
			return fmt.Sprintf("LookupGCBProperty(%q) = %#02x, not %#02x", n, uint8(g), uint8(gcbNames[n]))
		}
		if g := charprops.LookupEmojiProperty(n); g != emojiNames[n] {
			return fmt.Sprintf("LookupEmojiProperty(%q) = %#02x, not %#02x", n, uint8(g), uint8(emojiNames[n]))
		}
		if g := charprops.LookupInCBProperty(n); g != incbNames[n] {
			return fmt.Sprintf("LookupInCBProperty(%q) = %#02x, not %#02x", n, uint8(g), uint8(incbNames[n]))
		}
		return ""
	}
	if s, ok := strings.CutPrefix(string(in), "pack:"); ok {
		a, b, _ := strings.Cut(s, ",")
		gi, _ := strconv.Atoi(a)
		ii, _ := strconv.Atoi(b)
		g, i := charprops.GCBProperty(gi), charprops.InCBProperty(ii)
		isG, isI := g == charprops.GCBNone, i == charprops.InCBNone
		ctl := g == charprops.GCBCR || g == charprops.GCBLF || g == charprops.GCBControl
		for _, v := range gcbNames {
			isG = isG || v == g
		}
		for _, v := range incbNames {
			isI = isI || v == i
		}
		isE := g == charprops.GCBExtendedPictographic
		if !(isG || isE) || !isI {
			return ""
		}
		if g.IsAnyControl() != ctl {
			return fmt.Sprintf("GCBProperty(%#02x).IsAnyControl() = %v", gi, !ctl)
		}
		p := charprops.MakeCharProperties(g, charprops.GCBNone, i)
		if isE {
			p = charprops.MakeCharProperties(charprops.GCBNone, g, i)
		}
		if p.GCBProperty() != g || p.InCBProperty() != i {
			return fmt.Sprintf("packing %s and %s gives %#02x, unpacked %s and %s", g, i, uint8(p), p.GCBProperty(), p.InCBProperty())
		}
		if p == charprops.Error {
			return fmt.Sprintf("packing %s and %s gives Error", g, i)
		}
		if gi == 0 && ii == 0 {
			seen := map[charprops.GCBProperty]string{charprops.GCBNone: "None"}
			for _, m := range []map[string]charprops.GCBProperty{gcbNames, emojiNames} {
				for n, v := range m {
					if o, dup := seen[v]; dup {
						return fmt.Sprintf("%s and %s have the same value %#02x", n, o, uint8(v))
					}
					seen[v] = n
				}
			}
			seenI := map[charprops.InCBProperty]string{charprops.InCBNone: "None"}
			for n, v := range incbNames {
				if o, dup := seenI[v]; dup {
					return fmt.Sprintf("%s and %s have the same value %#02x", n, o, uint8(v))
				}
				seenI[v] = n
			}
		}
	}
	return ""
}
