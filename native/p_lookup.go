package main

import (
	"fmt"

	"REPOMOD/textseg/internal/charprops"
	"ZZSPEC"
)

func init() {
	props["C12"] = &Prop{Check: c12, Gen: func(yield func([]byte) bool) {
		tails := [][]byte{nil, {'a'}, {0x80}, {0xbf}, {0xff}, []byte("\u0301"), []byte("\U0001f600"), []byte("\u0915\u094d"), {0xcc}, {0, 0, 0, 0, 0, 0, 0, 0}}
		for _, t := range tails {
			for c := 0; c < 0x110000; c++ {
				if scalar(c) && !yield(append([]byte(string(rune(c))), t...)) {
					return
				}
			}
		}
	}}
}

var gcb = map[charprops.GCBProperty]uint8{
	charprops.GCBNone: spec.Other, charprops.GCBCR: spec.CR, charprops.GCBLF: spec.LF, charprops.GCBControl: spec.Control,
	charprops.GCBExtend: spec.Extend, charprops.GCBZWJ: spec.ZWJ, charprops.GCBRegionalIndicator: spec.RI,
	charprops.GCBPrepend: spec.Prepend, charprops.GCBSpacingMark: spec.SpacingMark, charprops.GCBL: spec.L, charprops.GCBV: spec.V,
	charprops.GCBT: spec.T, charprops.GCBLV: spec.LV, charprops.GCBLVT: spec.LVT, charprops.GCBExtendedPictographic: spec.ExtPict,
}
var incb = map[charprops.InCBProperty]uint8{charprops.InCBNone: 0, charprops.InCBConsonant: spec.Consonant, charprops.InCBExtend: spec.InExtend, charprops.InCBLinker: spec.Linker}

func c12(in []byte) string {
	for i, c := range string(in) {
		n := len(string(c))
		if i > 0 || c == 0xfffd && (len(in) < 3 || string(in[:3]) != "\ufffd") {
			return ""
		}
		p, l := charprops.LookupFirstChar(in)
		g, ok1 := gcb[p.GCBProperty()]
		x, ok2 := incb[p.InCBProperty()]
		switch {
		case p == charprops.Error:
			return fmt.Sprintf("U+%04X in %s is taken for an invalid byte", c, q(in))
		case l != n:
			return fmt.Sprintf("U+%04X in %s has length %d", c, q(in), l)
		case !ok1 || !ok2 || g|x != classes[c]:
			return fmt.Sprintf("U+%04X in %s has properties %#02x (%s), Unicode 17.0.0 class is %#02x", c, q(in), uint8(p), p, classes[c])
		}
	}
	return ""
}
