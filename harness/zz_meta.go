package parser

import "strings"

// vParse parses and reports acceptance.
func vParse(in string) ([]Expr, bool) {
	stmts, err := NewParser(in).ParseStmts()
	return stmts, err == nil
}

// vSameStmts compares two lists of statements.
func vSameStmts(a, b []Expr, mode int, msg string) {
	if len(a) != len(b) {
		verifFail(msg)
	}
	for i, s := range a {
		verifAssert(verifSame(s, b[i], mode), msg)
	}
}

var vIndents = []string{"  ", "\t", ""}

// hBeautify (C04): beautified text has the tokens of compact text and, where
// that parses, its meaning.
func hBeautify(in string) {
	in = vTrim(in)
	stmts, ok := vParse(in)
	if !ok {
		return
	}
	for _, s := range stmts {
		c := Format(s)
		cs, ok := vParse(c)
		ct, _ := vTokens(c)
		for _, ind := range vIndents {
			b := vBeautify(s, ind)
			verifObserve(b)
			bt, bad := vTokens(b)
			if bad >= 0 {
				verifFail("beautified SQL is malformed\n" + b)
			}
			for i, t := range ct {
				if i >= len(bt) {
					verifFail("beautified SQL lacks " + t.text + "\n" + b)
				}
				verifAssert(t.kind == bt[i].kind && t.text == bt[i].text, "beautified SQL has "+bt[i].text+" where compact SQL has "+t.text+"\n"+b)
			}
			if len(bt) > len(ct) {
				verifFail("beautified SQL adds " + bt[len(ct)].text + "\n" + b)
			}
			if !ok {
				continue
			}
			bs, bok := vParse(b)
			if !bok {
				verifFail("beautified SQL is rejected\n" + b)
			}
			vSameStmts(cs, bs, verifNoPos, "beautified SQL has another meaning\n"+b)
		}
	}
}

// hIdem (C05): formatting formatted SQL changes nothing.
func hIdem(in string) {
	in = vTrim(in)
	stmts, ok := vParse(in)
	if !ok {
		return
	}
	for _, s := range stmts {
		c := Format(s)
		verifObserve(c)
		if cs, ok := vParse(c); ok && len(cs) == 1 {
			verifAssert(Format(cs[0]) == c, "formatting formatted SQL changes it\n"+c)
		}
		b := vBeautify(s, "  ")
		verifObserve(b)
		if bs, ok := vParse(b); ok && len(bs) == 1 {
			verifAssert(vBeautify(bs[0], "  ") == b, "beautifying beautified SQL changes it\n"+b)
		}
	}
}

// vRespace rewrites every gap between tokens that has blanks or comments.
// The space after a line comment at the end of the text is kept.
func vRespace(in string, ts []vTok, sep string) string {
	var sb strings.Builder
	end := 0
	for _, t := range ts {
		if t.pos > end && end > 0 {
			sb.WriteString(sep)
		}
		sb.WriteString(t.text)
		end = t.pos + len(t.text)
	}
	return sb.String()
}

var vSeps = []string{" ", "\n", "\t \r\n", "/* x */", " -- y\n", "/* ' */\n"}

// hSpace (C12): separators do not matter.
func hSpace(in string) {
	in = vTrim(in)
	ts, bad := vTokens(in)
	if bad >= 0 || len(ts) == 0 {
		return
	}
	stmts, ok := vParse(in)
	for _, sep := range vSeps {
		alt := vRespace(in, ts, sep)
		as, aok := vParse(alt)
		if ok != aok {
			verifFail("separators change whether it is accepted\n" + alt)
		}
		if ok {
			vSameStmts(stmts, as, verifNoPos, "separators change the meaning\n"+alt)
		}
	}
}

// vRecase gives the keywords of the source another letter case.
func vRecase(in string, ts []vTok, mode int) string {
	b := []byte(in)
	for _, t := range ts {
		if t.kind != vWord || !vKeyword(t.text) {
			continue
		}
		for i := t.pos; i < t.pos+len(t.text); i++ {
			c := b[i]
			up := mode == 0 || mode == 2 && (i-t.pos)%2 == 0
			if up && c >= 'a' && c <= 'z' {
				b[i] = c - 32
			}
			if !up && c >= 'A' && c <= 'Z' {
				b[i] = c + 32
			}
		}
	}
	return string(b)
}

// vKeyword: words that mean themselves in ClickHouse's grammar; names of
// types and functions, which are data, are not among them.
func vKeyword(w string) bool {
	u := strings.ToUpper(w)
	return vKeywordSet[u]
}

// hCase (C11): the letter case of keywords does not matter.
func hCase(in string) {
	in = vTrim(in)
	ts, bad := vTokens(in)
	if bad >= 0 {
		return
	}
	stmts, ok := vParse(in)
	for mode := 0; mode < 3; mode++ {
		alt := vRecase(in, ts, mode)
		as, aok := vParse(alt)
		if ok != aok {
			verifFail("letter case changes whether it is accepted\n" + alt)
		}
		if ok {
			vSameStmts(stmts, as, verifFoldAll, "letter case changes the meaning\n"+alt)
		}
	}
}

// hError (C13): rejections are structured errors at their place.
func hError(in string) {
	in = vTrim(in)
	stmts, err := NewParser(in).ParseStmts()
	if err == nil {
		return
	}
	if len(stmts) != 0 {
		verifFail("statements come with an error")
	}
	e, isPE := err.(*ParseError)
	if !isPE {
		verifFail("the error is no ParseError\n" + err.Error())
	}
	p := int(e.Pos)
	if p < 0 || p > len(in) {
		verifFail("error position out of bounds\n" + vInt(p))
	}
	line, col, start := 1, 1, 0
	for i := 0; i < p; i++ {
		col++
		if in[i] == '\n' {
			line++
			col = 1
			start = i + 1
		}
	}
	if e.Line != line || e.Column != col {
		verifFail("line and column are not those of the position\n" + vInt(e.Line) + ":" + vInt(e.Column) + " for " + vInt(line) + ":" + vInt(col))
	}
	if e.Got != nil {
		n := len(e.Got.String)
		g := int(e.Got.Pos)
		if g != p {
			verifFail("the token is not at the error position\n" + vInt(g) + " " + vInt(p))
		}
		if n > len(in)-p {
			verifFail("the token runs past the input\n" + e.Got.String)
		}
		verifAssert(in[p:p+n] == e.Got.String, "the token is not the text at the error position\n"+e.Got.String)
	}
	end := start
	for end < len(in) && in[end] != '\n' {
		end++
	}
	text := in[start:end]
	if len(text) > 0 && text[len(text)-1] == '\r' {
		text = text[:len(text)-1]
	}
	msg := err.Error()
	verifObserve(msg)
	head := "line " + vInt(line) + ":" + vInt(col) + " "
	verifAssert(strings.HasPrefix(msg, head), "the message does not start with line and column\n"+msg)
	caret := "\n"
	for i := 1; i < col; i++ {
		caret += " "
	}
	caret += "^"
	k := len(msg) - 1
	for k >= 0 && (msg[k] == '\n' || msg[k] == '^') {
		k--
	}
	for k >= 0 && msg[k] == ' ' {
		k--
	}
	tail := text + caret
	at := strings.LastIndex(msg, tail)
	verifAssert(at > 0 && msg[at-1] == '\n', "the message does not show the line with the caret at the column\n"+msg)
	for _, c := range []byte(msg[at+len(tail):]) {
		verifAssert(c == '^' || c == '\n', "the message does not end with the caret\n"+msg)
	}
}

// vEndsOpen: the text ends with a semicolon.
func vEndsSemi(ts []vTok) bool { return len(ts) == 0 || vOpIs(ts[len(ts)-1], ";") }

var vSecond = []string{"SELECT ';'", "ALTER TABLE `;` FREEZE", "SET b = 2"}

// hSplit (C15): statements are split at semicolons only.
func hSplit(in string) {
	in = vTrim(in)
	ts, bad := vTokens(in)
	if bad >= 0 {
		return
	}
	stmts, ok := vParse(in)
	for k, o := range vSecond {
		more, mok := vParse(o)
		if !mok || len(more) != 1 {
			verifFail("the second statement is rejected\n" + o)
		}
		// which statement comes before and which after turns with the length
		switch (len(in) + k) % 3 {
		case 0:
			sep := vSplits[len(in)%2]
			both, bok := vParse(in + sep + o)
			if ok != bok {
				verifFail("a second statement changes whether it is accepted\n" + in + sep + o)
			}
			if ok {
				verifAssert(len(both) == len(stmts)+1, "a second statement changes the number of statements\n"+in+sep+o)
				vSameStmts(stmts, both[:len(stmts)], verifNoPos, "a second statement changes the first\n"+in+sep+o)
				vSameStmts(more, both[len(stmts):], verifNoPos, "the second statement is another\n"+in+sep+o)
			}
		case 1:
			sep := vSplits[(len(in)+1)%2]
			both, bok := vParse(o + sep + in)
			if ok != bok {
				verifFail("a statement before it changes whether it is accepted\n" + o + sep + in)
			}
			if ok {
				verifAssert(len(both) == len(stmts)+1, "a statement before it changes the number of statements\n"+o+sep+in)
				vSameStmts(stmts, both[1:], verifNoPos, "a statement before it changes it\n"+o+sep+in)
				vSameStmts(more, both[:1], verifNoPos, "the statement before it is another\n"+o+sep+in)
			}
		default:
			if ok && !vEndsSemi(ts) {
				if both, bok := vParse(in + "\n" + o); bok && len(both) > len(stmts) {
					verifFail("two statements without a semicolon are accepted\n" + in + "\n" + o)
				}
			}
		}
	}
}

var vSplits = []string{"\n;\n", "\n; ; -- ;\n"}

// hPure (C16): parsing and formatting are deterministic and leave the AST as
// it is.
func hPure(in string) {
	in = vTrim(in)
	verifMapOrder(false)
	stmts, err := NewParser(in).ParseStmts()
	verifMapOrder(true)
	again, err2 := NewParser(in).ParseStmts()
	if (err == nil) != (err2 == nil) {
		verifFail("parsing twice differs in acceptance")
	}
	if err != nil {
		verifAssert(err.Error() == err2.Error(), "parsing twice gives two errors\n"+err2.Error())
		return
	}
	vSameStmts(stmts, again, 0, "parsing twice gives two results")
	for _, s := range stmts {
		keep, _ := verifCopy(s).(Expr)
		c1 := Format(s)
		verifAssert(verifSame(s, keep, 0), "formatting changes the AST")
		b1 := vBeautify(s, "  ")
		verifAssert(verifSame(s, keep, 0), "beautifying changes the AST")
		n := 0
		Walk(s, func(x Expr) bool {
			n += int(x.Pos()) + int(x.End())
			return true
		})
		verifAssert(verifSame(s, keep, 0), "walking changes the AST")
		v := &DefaultASTVisitor{Visit: func(x Expr) error { n++; return nil }}
		_ = s.Accept(v)
		verifAssert(verifSame(s, keep, 0), "visiting changes the AST")
		verifMapOrder(false)
		verifAssert(Format(s) == c1, "formatting twice differs\n"+c1)
		verifAssert(vBeautify(s, "  ") == b1, "beautifying twice differs\n"+b1)
		verifAssert(Format(keep) == c1, "formatting a copy differs\n"+c1)
		f := NewFormatter()
		f.WriteExpr(s)
		verifAssert(f.String() == c1, "a formatter of its own differs\n"+c1)
		verifMapOrder(true)
	}
}

// hVerbatim (C17): literals and quoted identifiers are verbatim in the AST
// and in both outputs.
func hVerbatim(in string) {
	in = vTrim(in)
	stmts, ok := vParse(in)
	if !ok {
		return
	}
	src, bad := vTokens(in)
	if bad >= 0 {
		return
	}
	var lits []vTok
	for _, t := range src {
		if t.kind == vString || t.kind == vNumber || t.kind == vQuoted {
			lits = append(lits, t)
		}
	}
	var c, b strings.Builder
	for i, s := range stmts {
		if i > 0 {
			c.WriteString(";")
			b.WriteString(";")
		}
		c.WriteString(Format(s))
		b.WriteString(vBeautify(s, "\t"))
	}
	verifObserve(c.String())
	verifObserve(b.String())
	vSameLits(lits, c.String(), "compact")
	vSameLits(lits, b.String(), "beautified")
	for _, s := range stmts {
		for _, x := range verifNodes(s) {
			switch n := x.(type) {
			case *StringLiteral:
				verifAssert(vHasTok(src, "'"+n.Literal+"'"), "a string of the AST is not in the source\n"+n.Literal)
			case *NumberLiteral:
				lit := n.Literal
				if len(lit) > 0 && (lit[0] == '-' || lit[0] == '+') {
					lit = lit[1:]
				}
				if len(lit) > 0 && lit[0] == '.' {
					lit = lit[1:] // two tokens to the reference tokenizer
				}
				verifAssert(vHasTok(src, lit), "a number of the AST is not in the source\n"+n.Literal)
			case *Ident:
				switch n.QuoteType {
				case DoubleQuote:
					verifAssert(vHasTok(src, "\""+n.Name+"\""), "a name of the AST is not in the source\n"+n.Name)
				case BackTicks:
					verifAssert(vHasTok(src, "`"+n.Name+"`"), "a name of the AST is not in the source\n"+n.Name)
				}
			}
		}
	}
}

func vHasTok(ts []vTok, s string) bool {
	for _, t := range ts {
		if t.text == s {
			return true
		}
	}
	return false
}

// vSameLits: the literals of out are lits; their order may differ where the
// formatter has a clause order of its own.
func vSameLits(lits []vTok, out, what string) {
	ts, bad := vTokens(out)
	if bad >= 0 {
		verifFail(what + " SQL is malformed\n" + out)
	}
	used := make([]bool, len(lits))
	for _, t := range ts {
		if t.kind != vString && t.kind != vNumber && t.kind != vQuoted {
			continue
		}
		found := false
		for i, l := range lits {
			if !used[i] && l.kind == t.kind && l.text == t.text {
				used[i], found = true, true
				break
			}
		}
		verifAssert(found, what+" SQL has a literal the source lacks\n"+t.text)
	}
	for i, l := range lits {
		verifAssert(used[i], what+" SQL lacks a literal of the source\n"+l.text)
	}
}

var vQuotedWords = []string{"select", "FROM", "As", "null", "interval", "case", "not", "order", "date", "array", "final", "on"}

// hQuoted (C21): a quoted name is a name whatever it spells.
func hQuoted(in string) {
	in = vTrim(in)
	ts, bad := vTokens(in)
	if bad >= 0 {
		return
	}
	for k, t := range ts {
		if t.kind != vWord || len(t.text) != 1 && !vKeyword(t.text) || vWordIs(t, "JSON") || vWordIs(t, "SUBSTRING") || vWordIs(t, "OVERLAY") || vWordIs(t, "OVERLAYUTF8") || vWordIs(t, "TRIM") || vWordIs(t, "EXTRACT") || vWordIs(t, "CAST") {
			continue // these take arguments of their own, quoted or not
		}
		if k > 0 && ts[k-1].kind == vQuoted && ts[k-1].pos+len(ts[k-1].text) == t.pos || k+1 < len(ts) && ts[k+1].kind == vQuoted && ts[k+1].pos == t.pos+len(t.text) {
			continue // two quoted names side by side may be one
		}
		pre, post := in[:t.pos], in[t.pos+len(t.text):]
		base, ok := vParse(pre + "`zz`" + post)
		if len(t.text) != 1 {
			vQuotedSame(base, ok, pre+"`"+t.text+"`"+post, "zz", t.text)
			continue
		}
		w := vQuotedWords[k%len(vQuotedWords)]
		w2 := vQuotedWords[(k*5+7)%len(vQuotedWords)]
		vQuotedSame(base, ok, pre+"`"+w+"`"+post, "zz", w)
		vQuotedSame(base, ok, pre+"\""+w2+"\""+post, "zz", w2)
	}
}

func vQuotedSame(base []Expr, ok bool, alt, from, to string) {
	as, aok := vParse(alt)
	if ok != aok {
		verifFail("a quoted keyword changes whether it is accepted\n" + alt)
	}
	if !ok {
		return
	}
	if len(as) != len(base) {
		verifFail("a quoted keyword changes the number of statements\n" + alt)
	}
	for i, s := range base {
		x, y := verifNodes(s), verifNodes(as[i])
		if len(x) != len(y) {
			verifFail("a quoted keyword changes the AST\n" + alt)
		}
		for j := range x {
			if verifTypeName(x[j]) != verifTypeName(y[j]) {
				verifFail("a quoted keyword changes the kind of a node\n" + alt)
			}
			if m, isIdent := x[j].(*Ident); isIdent {
				n := y[j].(*Ident)
				verifAssert(m.Name == n.Name || m.Name == from && n.Name == to, "a quoted keyword changes a name\n"+alt)
			}
		}
		fx, _ := vTokens(Format(s))
		fy, _ := vTokens(Format(as[i]))
		if len(fx) != len(fy) {
			verifFail("a quoted keyword changes the formatted SQL\n" + alt)
		}
		for j := range fx {
			if fx[j].kind != vQuoted || fy[j].kind != vQuoted {
				verifAssert(fx[j].kind == fy[j].kind && fx[j].text == fy[j].text, "a quoted keyword changes the formatted SQL\n"+alt)
			}
		}
	}
}
