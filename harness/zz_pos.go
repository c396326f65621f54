package parser

// hPos: spans are in bounds, and those of children inside those of parents.
func hPos(in string) {
	in = vTrim(in)
	stmts, err := NewParser(in).ParseStmts()
	if err != nil {
		return
	}
	for _, s := range stmts {
		ns := verifNodes(s)
		par := verifParents(s)
		bad := make([]bool, len(ns)) // spans that end wrong
		for i := len(ns) - 1; i >= 0; i-- {
			p, e := int(ns[i].Pos()), int(ns[i].End())
			bad[i] = p < 0 || p > e || e > len(in) || e == 0
			for j := i + 1; j < len(ns); j++ {
				bad[i] = bad[i] || par[j] == i && int(ns[j].End()) > e
			}
		}
		from := vInherited(ns, par, bad)
		for i, x := range ns {
			p, e := int(x.Pos()), int(x.End())
			if p < 0 || p > e || e > len(in) {
				if p >= 0 && from[i] {
					continue
				}
				what := "span ends past the text: "
				switch {
				case p < 0:
					what = "span starts before the text: "
				case e == 0:
					what = "span ends at 0: "
				case p > e:
					what = "span ends before it starts: "
				}
				verifCheck(false, what+verifTypeName(x)+vParent(ns, par, i)+"\n"+vSpan(p, e))
				continue
			}
			if k := par[i]; k >= 0 {
				q, f := int(ns[k].Pos()), int(ns[k].End())
				if q < 0 || q > f || f > len(in) {
					continue
				}
				if p < q {
					verifCheck(false, "starts before its parent: "+verifTypeName(x)+vParent(ns, par, i)+"\n"+vSpan(p, e)+vSpan(q, f))
				}
				if e > f && !from[k] {
					verifCheck(false, "ends after its parent: "+verifTypeName(x)+vParent(ns, par, i)+"\n"+vSpan(p, e)+vSpan(q, f))
				}
			}
		}
	}
}

// vInherited tells which of the spans that end wrong have their end from a
// child whose span ends wrong: only the deepest is reported.
func vInherited(ns []Expr, par []int, bad []bool) []bool {
	from := make([]bool, len(ns))
	for i := len(ns) - 1; i > 0; i-- {
		if k := par[i]; k >= 0 && bad[i] && ns[k].End() == ns[i].End() {
			from[k], bad[k] = true, true
		}
	}
	return from
}

func vParent(ns []Expr, par []int, i int) string {
	if par[i] < 0 {
		return ""
	}
	return " in " + verifTypeName(ns[par[i]])
}

func vSpan(p, e int) string { return " [" + vInt(p) + "," + vInt(e) + ")" }

func vInt(n int) string {
	if n < 0 {
		return "-" + vInt(-n)
	}
	if n < 10 {
		return "0123456789"[n : n+1]
	}
	return vInt(n/10) + vInt(n%10)
}

// hSource (C07): the source at a span is the node's text.
func hSource(in string) {
	in = vTrim(in)
	stmts, ok := vParse(in)
	if !ok {
		return
	}
	ts, bad := vTokens(in)
	if bad >= 0 {
		return
	}
	starts, ends := make([]bool, len(in)+1), make([]bool, len(in)+1)
	for _, t := range ts {
		p, e := t.pos, t.pos+len(t.text)
		starts[p], ends[e] = true, true
		if t.kind == vString || t.kind == vQuoted {
			starts[p+1], ends[e-1] = true, true
		}
		if vOpIs(t, ")") || vOpIs(t, "]") || vOpIs(t, "}") {
			ends[p] = true // the spans of many nodes end before their closing bracket
		}
	}
	k := 0
	for _, s := range stmts {
		for k < len(ts) && vOpIs(ts[k], ";") {
			k++
		}
		if k < len(ts) {
			verifCheck(int(s.Pos()) == ts[k].pos, "statement does not start at its first token: "+verifTypeName(s)+"\n"+vSpan(int(s.Pos()), int(s.End())))
		}
		for k < len(ts) && !vOpIs(ts[k], ";") {
			k++
		}
		ns := verifNodes(s)
		par := verifParents(s)
		wrong := make([]bool, len(ns))
		for i, x := range ns {
			e := int(x.End())
			wrong[i] = e <= 0 || e > len(in) || !ends[e]
		}
		from := vInherited(ns, par, wrong)
		for i, x := range ns {
			p, e := int(x.Pos()), int(x.End())
			if p < 0 || p > e || e > len(in) {
				continue
			}
			name := verifTypeName(x) + vParent(ns, par, i) + "\n" + vSpan(p, e)
			src := in[p:e]
			switch n := x.(type) {
			case *Ident:
				verifCheck(src == n.Name, "span is not the identifier: "+name)
				continue
			case *StringLiteral:
				verifCheck(src == n.Literal, "span is not the string: "+name)
				continue
			case *NumberLiteral:
				verifCheck(src == n.Literal, "span is not the number: "+name)
				continue
			}
			verifCheck(starts[p], "span does not start at a token: "+name)
			verifCheck(ends[e] || from[i], "span does not end at a token: "+name)
		}
	}
}

// hReparse (C07): the text of an expression, closed where its span leaves its
// brackets open, parses alone to the expression.
func hReparse(in string) {
	in = vTrim(in)
	stmts, ok := vParse(in)
	if !ok {
		return
	}
	all, _ := vTokens(in)
	for _, s := range stmts {
		ns := verifNodes(s)
		par := verifParents(s)
		// wrong[i] if the span of ns[i] ends wrong, or that of a child which
		// ends at the same place: only the deepest is reported.
		wrong := make([]bool, len(ns))
		for i := len(ns) - 1; i >= 0; i-- {
			x := ns[i]
			from := false
			for j := i + 1; j < len(ns); j++ {
				from = from || par[j] == i && wrong[j] && ns[j].End() == x.End()
			}
			wrong[i] = from || x.End() <= x.Pos()
			switch x.(type) {
			case *BinaryOperation, *UnaryExpr, *NotExpr, *NegateExpr, *TernaryOperation, *FunctionExpr, *WindowFunctionExpr, *CaseExpr, *CastExpr, *ArrayParamList,
				*IndexOperation, *IntervalExpr, *IsNullExpr, *IsNotNullExpr, *ExtractExpr, *MapLiteral, *Path, *QueryParam:
			case *BetweenClause:
				if par[i] >= 0 && verifTypeName(ns[par[i]]) == "*parser.WindowFrameClause" {
					continue
				}
			default:
				continue
			}
			p, e := int(x.Pos()), int(x.End())
			if p < 0 || p > e || e > len(in) {
				continue
			}
			// the spans of strings and quoted names leave out the quotes
			for _, t := range all {
				q := t.pos + len(t.text)
				if (t.kind == vString || t.kind == vQuoted) && t.pos < p && p < q {
					p = t.pos
				}
				if (t.kind == vString || t.kind == vQuoted) && t.pos < e && e < q {
					e = q
				}
			}
			name := verifTypeName(x) + vParent(ns, par, i) + "\n" + vSpan(p, e) + " " + in[p:e]
			ts, bad := vTokens(in[p:e])
			special := false // arguments of substring, overlay and trim are no expressions
			for _, t := range ts {
				special = special || vWordIs(t, "FROM") || vWordIs(t, "FOR") || vWordIs(t, "PLACING") || vWordIs(t, "BOTH") || vWordIs(t, "LEADING") || vWordIs(t, "TRAILING")
			}
			if special && verifTypeName(x) != "*parser.FunctionExpr" {
				continue
			}
			if bad >= 0 {
				verifCheck(false, "span is no text of tokens: "+name)
				wrong[i] = true
				continue
			}
			if from {
				continue
			}
			src := vClosed(ts, in[p:e])
			if _, is := x.(*IntervalExpr); is && !vWordIs(ts[0], "INTERVAL") {
				src = "INTERVAL " + src // REFRESH EVERY 1 DAY
			}
			as, ok := vParse("SELECT " + src)
			if !ok {
				verifCheck(false, "span does not parse: "+name)
				wrong[i] = true
				continue
			}
			q, isQ := as[0].(*SelectQuery)
			if len(as) != 1 || !isQ || len(q.SelectItems) != 1 || q.SelectItems[0].Alias != nil {
				verifCheck(false, "span is no single expression: "+name)
				wrong[i] = true
				continue
			}
			if vOpIs(ts[0], "+") || vOpIs(ts[0], "-") {
				// after a parenthesis a sign is part of the number
				if y := vArg(src); y != nil && verifSame(x, y, verifNoPos) {
					continue
				}
			}
			if !verifSame(x, q.SelectItems[0].Expr, verifNoPos) {
				wrong[i] = true
			}
			verifCheck(!wrong[i], "span parses to another expression: "+name)
		}
	}
}

// vClosed completes the brackets ts leaves open.
func vClosed(ts []vTok, text string) string {
	open := ""
	for _, t := range ts {
		switch {
		case vOpIs(t, "("):
			open = ")" + open
		case vOpIs(t, "["):
			open = "]" + open
		case vOpIs(t, "{"):
			open = "}" + open
		case len(open) > 0 && vOpIs(t, open[:1]):
			open = open[1:]
		case vOpIs(t, ")"):
			text = "(" + text
		}
	}
	return text + open
}

// vArg parses src as the argument of a function.
func vArg(src string) Expr {
	as, ok := vParse("SELECT f(" + src + ")")
	if !ok || len(as) != 1 {
		return nil
	}
	for _, n := range verifNodes(as[0]) {
		if l, ok := n.(*ColumnExprList); ok && len(l.Items) == 1 {
			if c, ok := l.Items[0].(*ColumnExpr); ok {
				return c.Expr
			}
			return l.Items[0]
		}
	}
	return nil
}
