package main

import (
	"fmt"
	"unicode/utf8"

	"REPOMOD/textseg/internal/charprops"
	"REPOMOD/textseg/internal/machine"
	"ZZSPEC"
)

func init() {
	props["C13"] = &Prop{Check: c13, Gen: genText}
}

// c13 drives the detector over a whole text without restarting it.
func c13(in []byte) string {
	if !utf8.Valid(in) {
		return ""
	}
	var h spec.Hist
	var st machine.State
	var prev charprops.CharProperties
	for i, c := range string(in) {
		p, n := charprops.LookupFirstChar(in[i:])
		if n == 0 {
			return ""
		}
		k := classes[c]
		if i == 0 {
			st = machine.Begin(p)
		} else {
			b, next := st.Transition(prev, p)
			if b != spec.Brk(h, k) {
				return fmt.Sprintf("%s at byte %d: Transition reports boundary %v, UAX #29 says %v", q(in), i, b, spec.Brk(h, k))
			}
			st = next
		}
		prev = p
		h = spec.Step(h, k)
	}
	return ""
}
