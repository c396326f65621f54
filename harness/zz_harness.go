package parser

import "strings"

var verifHarnesses = map[string]func(string){
	"Total":          hTotal,
	"TotalGrow":      hTotalGrow,
	"KeptBagGrow":    hKeptBagGrow,
	"RoundTripGrow":  hRoundTripGrow,
	"BeautifyGrow":   hBeautifyGrow,
	"IdemGrow":       hIdemGrow,
	"WalkGrow":       hWalkGrow,
	"VisitGrow":      hVisitGrow,
	"HelpersGrow":    hHelpersGrow,
	"PureGrow":       hPureGrow,
	"PosGrow":        hPosGrow,
	"SourceGrow":     hSourceGrow,
	"SpaceGrow":      hSpaceGrow,
	"VerbatimGrow":   hVerbatimGrow,
	"RoundTrip":      hRoundTrip,
	"Kept":           hKept,
	"KeptBag":        hKeptBag,
	"Pos":            hPos,
	"Source":         hSource,
	"Prec":           hPrec,
	"Reparse":        hReparse,
	"Beautify":       hBeautify,
	"Idem":           hIdem,
	"Space":          hSpace,
	"Case":           hCase,
	"Error":          hError,
	"Split":          hSplit,
	"Pure":           hPure,
	"Verbatim":       hVerbatim,
	"Quoted":         hQuoted,
	"Walk":           hWalk,
	"Visit":          hVisit,
	"Helpers":        hHelpers,
	"Lex":            hLex,
	"Accept":         hAccept,
	"Reject":         hReject,
	"Cut":            hCut,
	"Set":            hSet,
	"TotalShort":     hTotalShort,
	"TotalSwap":      hTotalSwap,
	"ErrorShort":     hErrorShort,
	"ErrorSwap":      hErrorSwap,
	"KeptBagShort":   hKeptBagShort,
	"KeptBagSwap":    hKeptBagSwap,
	"RoundTripShort": hRoundTripShort,
	"RoundTripSwap":  hRoundTripSwap,
}

func vBeautify(s Expr, indent string) string {
	f := NewFormatter().WithBeautify().WithIndent(indent)
	f.WriteExpr(s)
	return f.String()
}

// hTotal: parsing, formatting, walking and reading positions never panic.
func hTotal(in string) {
	in = vTrim(in)
	verifTotal()
	stmts, err := NewParser(in).ParseStmts()
	if err != nil {
		verifObserve("error: " + err.Error())
		return
	}
	for _, s := range stmts {
		verifObserve(Format(s))
		verifObserve(vBeautify(s, " "))
		n := 0
		Walk(s, func(x Expr) bool {
			n += int(x.Pos()) + int(x.End())
			return true
		})
		v := &DefaultASTVisitor{Visit: func(x Expr) error { n++; return nil }}
		_ = s.Accept(v)
	}
}

func hRoundTrip(in string) {
	in = vTrim(in)
	stmts, err := NewParser(in).ParseStmts()
	if err != nil {
		return
	}
	for _, s := range stmts {
		out := Format(s)
		verifObserve(out)
		again, err := NewParser(out).ParseStmts()
		if err != nil {
			verifFail("formatted SQL is rejected\n" + out)
		}
		if len(again) != 1 {
			verifFail("formatted SQL is not one statement\n" + out)
		}
		verifAssert(verifSame(s, again[0], verifNoPos|verifNilEmpty|verifFold), "formatted SQL has another meaning\n"+out)
	}
}

// hKept: what is accepted is in the AST: formatting gives back the tokens of
// the source, in order, up to the normalisations listed in vKept.
func hKept(in string) {
	in = vTrim(in)
	stmts, err := NewParser(in).ParseStmts()
	if err != nil {
		return
	}
	src, bad := vTokens(in)
	if bad >= 0 {
		verifFail("malformed input is accepted")
	}
	var sb strings.Builder
	for i, s := range stmts {
		if i > 0 {
			sb.WriteString(";")
		}
		sb.WriteString(Format(s))
	}
	out := sb.String()
	verifObserve(out)
	dst, bad := vTokens(out)
	if bad >= 0 {
		verifFail("formatted SQL is malformed\n" + out)
	}
	i, j, open := 0, 0, 0
	for i < len(src) || j < len(dst) {
		var a, b vTok
		if i < len(src) {
			a = src[i]
		}
		if j < len(dst) {
			b = dst[j]
		}
		switch {
		case a.kind != 0 && b.kind != 0 && vSameTok(a, b):
			i++
			j++
		case vOpIs(a, ";") || vWordIs(a, "AS"):
			i++
		case vOpIs(b, ";") || vWordIs(b, "AS"):
			j++
		case vOpIs(a, ",") && vEndsList(src, i+1):
			i++
		case vOpIs(a, "(") && i > 0 && (vWordIs(src[i-1], "USING") || vWordIs(b, "SELECT") || vWordIs(b, "WITH")):
			i++
			open++
		case vOpIs(a, ")") && open > 0:
			i++
			open--
		case vOpIs(b, "=") && j > 0 && vWordIs(dst[j-1], "ENGINE"):
			j++
		case vWordIs(a, "DESC") && vWordIs(b, "DESCRIBE"):
			i++
			j++
		default:
			verifFail("source has " + vTokText(a) + " where formatted SQL has " + vTokText(b) + "\n" + out)
		}
	}
}

// hKeptBag: as hKept where the formatter has a clause order of its own: the
// words, names and literals of the source are those of the formatted SQL.
func hKeptBag(in string) {
	in = vTrim(in)
	stmts, err := NewParser(in).ParseStmts()
	if err != nil {
		return
	}
	src, bad := vTokens(in)
	if bad >= 0 {
		verifFail("malformed input is accepted")
	}
	var sb strings.Builder
	for i, s := range stmts {
		if i > 0 {
			sb.WriteString(";")
		}
		sb.WriteString(Format(s))
	}
	out := sb.String()
	verifObserve(out)
	dst, bad := vTokens(out)
	if bad >= 0 {
		verifFail("formatted SQL is malformed\n" + out)
	}
	used, loose := make([]bool, len(dst)), vLooseParens(src)
	for i, a := range src {
		if vLoose(a) || loose[i] {
			continue
		}
		found := false
		for j, b := range dst {
			if !used[j] && (vSameTok(a, b) || vWordIs(a, "DESC") && vWordIs(b, "DESCRIBE")) {
				used[j], found = true, true
				break
			}
		}
		verifAssert(found, "formatted SQL lacks "+a.text+"\n"+out)
	}
	for j, b := range dst {
		verifAssert(used[j] || vLoose(b) || vOpIs(b, "(") || vOpIs(b, ")"), "formatted SQL adds "+vTokText(b)+"\n"+out)
	}
}

// vLooseParens are the parentheses that are empty or enclose a query or other
// parentheses.
func vLooseParens(ts []vTok) []bool {
	loose := make([]bool, len(ts))
	var open []int
	for i, t := range ts {
		switch {
		case vOpIs(t, "("):
			open = append(open, i)
			loose[i] = i > 0 && vWordIs(ts[i-1], "USING") || i+1 < len(ts) && (vOpIs(ts[i+1], ")") || vOpIs(ts[i+1], "(") || vWordIs(ts[i+1], "SELECT") || vWordIs(ts[i+1], "WITH"))
		case vOpIs(t, ")") && len(open) > 0:
			loose[i] = loose[open[len(open)-1]]
			open = open[:len(open)-1]
		}
	}
	return loose
}

// vLoose: tokens that come and go with the order of clauses.
func vLoose(t vTok) bool {
	return vOpIs(t, ";") || vOpIs(t, ",") || vOpIs(t, "=") || vWordIs(t, "AS") || vWordIs(t, "OFFSET")
}

func vTokText(t vTok) string {
	if t.kind == 0 {
		return "end"
	}
	return t.text
}

// vEndsList: a comma before token i of ts is the optional one at the end of a
// list.
func vEndsList(ts []vTok, i int) bool {
	if i >= len(ts) {
		return true
	}
	switch t := ts[i]; t.kind {
	case vOp:
		return t.text == ")" || t.text == "]" || t.text == "}" || t.text == ";"
	case vWord:
		for _, w := range vAfterList {
			if vWordIs(t, w) {
				return true
			}
		}
	}
	return false
}

var vAfterList = []string{"FROM", "WHERE", "PREWHERE", "GROUP", "HAVING", "ORDER", "LIMIT", "OFFSET", "SETTINGS", "FORMAT", "UNION", "EXCEPT", "INTERSECT", "WINDOW", "WITH", "QUALIFY", "INTO"}
