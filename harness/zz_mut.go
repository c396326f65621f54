package parser

import "strings"

// vJoin writes the tokens with one blank where the text had a gap.
func vJoin(ts []vTok, cuts []vTok) string {
	var sb strings.Builder
	for i, t := range ts {
		if i > 0 && t.pos != ts[i-1].pos+len(ts[i-1].text) {
			sb.WriteString(" ")
		}
		sb.WriteString(t.text)
	}
	for _, t := range cuts {
		sb.WriteString(" ")
		sb.WriteString(t.text)
	}
	return sb.String()
}

// vTryOn runs f on a variant of the input, once.
func vTryOn(f func(string), in string) {
	in = verifConc(in)
	if !verifSeen(in) {
		verifTry(f, in)
	}
}

// vShorter runs f on the text cut off after and inside every token, and with
// every token left out.
func vShorter(in string, f func(string)) {
	ts, bad := vTokens(vTrim(in))
	if bad >= 0 {
		return
	}
	for i := range ts {
		vTryOn(f, vJoin(ts[:i], nil))
		if n := len(ts[i].text); n > 1 {
			c := ts[i]
			c.text = c.text[:n/2]
			vTryOn(f, vJoin(append(append([]vTok(nil), ts[:i]...), c), nil))
		}
		if i+1 < len(ts) {
			vTryOn(f, vJoin(ts[:i], ts[i+1:]))
		}
	}
}

// vSwapped runs f on the text with every token doubled, exchanged with its
// neighbour, and replaced by each of some tokens.
func vSwapped(in string, f func(string)) {
	ts, bad := vTokens(vTrim(in))
	if bad >= 0 {
		return
	}
	for i := range ts {
		vTryOn(f, vJoin(ts[:i+1], ts[i:]))
		if i+1 < len(ts) {
			vTryOn(f, vJoin(ts[:i], append([]vTok{ts[i+1], ts[i]}, ts[i+2:]...)))
		}
		for _, x := range []string{"(", ")", ",", "*", "1", "'s'", "x", "`q`", "NOT", "."} {
			vTryOn(f, vJoin(ts[:i], append([]vTok{{text: x}}, ts[i+1:]...)))
		}
	}
}

// vItem is the end of the list item that starts at token i.
func vItem(ts []vTok, i int) int {
	depth := 0
	for j := i; j < len(ts); j++ {
		t := ts[j]
		switch {
		case vOpIs(t, "(") || vOpIs(t, "[") || vOpIs(t, "{"):
			depth++
		case vOpIs(t, ")") || vOpIs(t, "]") || vOpIs(t, "}"):
			depth--
			if depth < 0 {
				return j
			}
		case depth == 0 && (vOpIs(t, ",") || vOpIs(t, ";")):
			return j
		case depth == 0 && t.kind == vWord && vWordIn(t, vAfterItem):
			return j
		}
	}
	return len(ts)
}

var vAfterItem = []string{"FROM", "WHERE", "PREWHERE", "GROUP", "HAVING", "ORDER", "LIMIT", "OFFSET", "SETTINGS", "FORMAT", "UNION", "EXCEPT", "INTERSECT", "WINDOW",
	"WITH", "QUALIFY", "INTO", "SELECT", "ROWS", "RANGE", "PARTITION", "PRIMARY", "SAMPLE", "TTL", "COMMENT", "ENGINE", "AS", "USING", "ON", "TO"}

var vBeforeItem = []string{"BY", "SELECT", "SETTINGS", "SETTING", "USING", "SET", "JOIN", "VALUES", "WITH", "INTERPOLATE", "WINDOW", "TTL", "TABLE", "USER", "ROLE", "TO", "GRANT", "AS", "UPDATE"}

func vWordIn(t vTok, ws []string) bool {
	for _, w := range ws {
		if vWordIs(t, w) {
			return true
		}
	}
	return false
}

// vGrown runs f on the text with every item of a list repeated, once and
// twice.
func vGrown(in string, f func(string)) {
	ts, bad := vTokens(vTrim(in))
	if bad >= 0 {
		return
	}
	for i, t := range ts {
		if !vOpIs(t, ",") && !vOpIs(t, "(") && !vOpIs(t, "[") && !vOpIs(t, "{") && (t.kind != vWord || !vWordIn(t, vBeforeItem)) {
			continue
		}
		j := vItem(ts, i+1)
		if j == i+1 || j-i > 12 {
			continue
		}
		item := append([]vTok{{text: ","}}, ts[i+1:j]...)
		vTryOn(f, vJoin(ts[:j], append(append([]vTok(nil), item...), ts[j:]...)))
		vTryOn(f, vJoin(ts[:j], append(append(append([]vTok(nil), item...), item...), ts[j:]...)))
	}
}

func hTotalGrow(in string)     { vGrown(in, hTotal) }
func hKeptBagGrow(in string)   { vGrown(in, hKeptBag) }
func hRoundTripGrow(in string) { vGrown(in, hRoundTrip) }
func hBeautifyGrow(in string)  { vGrown(in, hBeautify) }
func hIdemGrow(in string)      { vGrown(in, hIdem) }
func hWalkGrow(in string)      { vGrown(in, hWalk) }
func hVisitGrow(in string)     { vGrown(in, hVisit) }
func hHelpersGrow(in string)   { vGrown(in, hHelpers) }
func hPureGrow(in string)      { vGrown(in, hPure) }
func hPosGrow(in string)       { vGrown(in, hPos) }
func hSourceGrow(in string)    { vGrown(in, hSource) }
func hSpaceGrow(in string)     { vGrown(in, hSpace) }
func hVerbatimGrow(in string)  { vGrown(in, hVerbatim) }

func hTotalShort(in string)     { vShorter(in, hTotal) }
func hTotalSwap(in string)      { vSwapped(in, hTotal) }
func hErrorShort(in string)     { vShorter(in, hError) }
func hErrorSwap(in string)      { vSwapped(in, hError) }
func hKeptBagShort(in string)   { vShorter(in, hKeptBag) }
func hKeptBagSwap(in string)    { vSwapped(in, hKeptBag) }
func hRoundTripShort(in string) { vShorter(in, hRoundTrip) }
func hRoundTripSwap(in string)  { vSwapped(in, hRoundTrip) }
