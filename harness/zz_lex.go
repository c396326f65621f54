package parser

import "strings"

// vAdjacent reports whether the two tokens read the same with no separator
// between them.
func vAdjacent(a, b vTok) bool {
	ts, bad := vTokens(a.text + b.text)
	return bad < 0 && len(ts) == 2 && ts[0].text == a.text && ts[1].text == b.text
}

// vTight writes the tokens with no separator where none is needed.
func vTight(ts []vTok) string {
	var sb strings.Builder
	for i, t := range ts {
		if i > 0 && (vDotNumber(ts, i) || !vAdjacent(ts[i-1], t)) && t.pos > ts[i-1].pos+len(ts[i-1].text) {
			sb.WriteString(" ")
		}
		sb.WriteString(t.text)
	}
	return sb.String()
}

// vDotNumber reports whether token i and the one before are a sign or dot and
// a number, which adjacent to each other may be read as one number.
func vDotNumber(ts []vTok, i int) bool {
	return (vOpIs(ts[i-1], "-") || vOpIs(ts[i-1], "+")) && ts[i].kind == vNumber ||
		vOpIs(ts[i-1], ".") && ts[i].kind == vNumber || vOpIs(ts[i], ".") && ts[i-1].kind == vNumber
}

// vLoosely writes the tokens with a separator between all of them.
func vLoosely(ts []vTok) string {
	var sb strings.Builder
	for i, t := range ts {
		if i > 0 && (!vDotNumber(ts, i) || t.pos > ts[i-1].pos+len(ts[i-1].text)) {
			sb.WriteString(" ")
		}
		sb.WriteString(t.text)
	}
	return sb.String()
}

// vPlain writes every string literal as the same plain literal and every
// quoted name as the same plain quoted name, so that only the kinds of tokens
// are left. It reports whether anything changed.
func vPlain(in string, ts []vTok) (string, bool) {
	var sb strings.Builder
	at, changed := 0, false
	for _, t := range ts {
		as := t.text
		switch t.kind {
		case vString:
			as = "'x'"
		case vQuoted:
			as = t.text[:1] + "x" + t.text[:1]
		}
		if as != t.text {
			changed = true
			sb.WriteString(in[at:t.pos])
			sb.WriteString(as)
			at = t.pos + len(t.text)
		}
	}
	sb.WriteString(in[at:])
	return sb.String(), changed
}

// hLex (C14): tokens end where the lexical rules end them.
func hLex(in string) {
	in = vTrim(in)
	ts, bad := vTokens(in)
	stmts, ok := vParse(in)
	if bad >= 0 {
		verifAssert(!ok, "a malformed token is accepted\n"+in[bad:])
		return
	}
	for k := 0; k < 2; k++ {
		alt, what := vTight(ts), "without separators"
		if k > 0 {
			alt, what = vLoosely(ts), "with separators between all tokens"
		}
		if alt == in {
			continue
		}
		as, aok := vParse(alt)
		if ok != aok {
			verifFail("acceptance changes " + what + "\n" + alt)
		}
		if ok {
			vSameStmts(stmts, as, verifNoPos, "the meaning changes "+what+"\n"+alt)
		}
	}
	if alt, changed := vPlain(in, ts); changed {
		if _, aok := vParse(alt); ok != aok {
			verifFail("acceptance depends on what is between quotes\n" + alt)
		}
	}
	if !ok {
		return
	}
	for _, s := range stmts {
		for _, x := range verifNodes(s) {
			switch n := x.(type) {
			case *Ident:
				if n.QuoteType == Unquoted {
					verifCheck(vHasWord(ts, n.Name), "a name of the AST is no token of the source\n"+n.Name)
				}
			}
		}
	}
}

func vHasWord(ts []vTok, s string) bool {
	for _, t := range ts {
		if (t.kind == vWord || t.kind == vOp) && len(t.text) == len(s) && t.text == s {
			return true
		}
	}
	return false
}
