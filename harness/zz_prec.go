package parser

import "strings"

// A reference for the grouping of operators, written from ClickHouse's table
// of binding strengths and sharing no code with the parser under test: it
// works on the tokens of the reference tokenizer and gives the fully
// parenthesised form of the expression.

type vRef struct {
	ts  []vTok
	in  string
	i   int
	bad bool // no expression this reference knows
}

// binding strengths, from loosest
const (
	bArrow = iota + 1
	bIf
	bOr
	bAnd
	bNot
	bIs
	bCompare
	bLike
	bIn
	bConcat
	bAdd
	bMul
	bSign
	bAccess
)

func (r *vRef) at(k int) vTok {
	if r.i+k < len(r.ts) {
		return r.ts[r.i+k]
	}
	return vTok{}
}

func (r *vRef) op(k int, s string) bool   { return vOpIs(r.at(k), s) }
func (r *vRef) word(k int, s string) bool { return vWordIs(r.at(k), s) }

func (r *vRef) take(s string) {
	if !r.op(0, s) && !r.word(0, s) {
		r.bad = true
	}
	r.i++
}

// infix gives the binary operator at the current token: its name, binding
// strength and number of tokens.
func (r *vRef) infix() (string, int, int) {
	t := r.at(0)
	if t.kind == vOp {
		switch t.text {
		case "->":
			return "->", bArrow, 1
		case "?":
			return "?", bIf, 1
		case "=", "==", "!=", "<>", "<", "<=", ">", ">=":
			return t.text, bCompare, 1
		case "||":
			return "||", bConcat, 1
		case "+", "-":
			return t.text, bAdd, 1
		case "*", "/", "%":
			return t.text, bMul, 1
		case "[", ".", "::":
			return t.text, bAccess, 1
		}
		return "", 0, 0
	}
	switch {
	case r.word(0, "OR"):
		return "OR", bOr, 1
	case r.word(0, "AND"):
		return "AND", bAnd, 1
	case r.word(0, "IS"):
		if r.word(1, "NOT") {
			return "IS NOT", bIs, 2
		}
		return "IS", bIs, 1
	case r.word(0, "BETWEEN"):
		return "BETWEEN", bLike, 1
	case r.word(0, "LIKE"):
		return "LIKE", bLike, 1
	case r.word(0, "ILIKE"):
		return "ILIKE", bLike, 1
	case r.word(0, "REGEXP"):
		return "REGEXP", bLike, 1
	case r.word(0, "IN"):
		return "IN", bIn, 1
	case r.word(0, "GLOBAL") && r.word(1, "IN"):
		return "GLOBAL IN", bIn, 2
	case r.word(0, "GLOBAL") && r.word(1, "NOT") && r.word(2, "IN"):
		return "GLOBAL NOT IN", bIn, 3
	case r.word(0, "NOT") && r.word(1, "BETWEEN"):
		return "NOT BETWEEN", bLike, 2
	case r.word(0, "NOT") && r.word(1, "LIKE"):
		return "NOT LIKE", bLike, 2
	case r.word(0, "NOT") && r.word(1, "ILIKE"):
		return "NOT ILIKE", bLike, 2
	case r.word(0, "NOT") && r.word(1, "IN"):
		return "NOT IN", bIn, 2
	}
	return "", 0, 0
}

// expr reads operators that bind tighter than min.
func (r *vRef) expr(min int) string {
	x := r.prefix()
	for !r.bad {
		op, b, n := r.infix()
		if b <= min {
			return x
		}
		r.i += n
		switch op {
		case "->": // to the right
			x = "(-> " + x + " " + r.expr(b-1) + ")"
		case "?":
			y := r.expr(0)
			r.take(":")
			x = "(? " + x + " " + y + " " + r.expr(0) + ")"
		case "IS", "IS NOT":
			r.take("NULL")
			x = "(" + op + " NULL " + x + ")"
		case "BETWEEN", "NOT BETWEEN":
			y := r.expr(bLike)
			r.take("AND")
			x = "(" + op + " " + x + " " + y + " " + r.expr(bLike) + ")"
		case "[":
			x = "([] " + x + r.list("]") + ")"
		case ".":
			if k := r.at(0).kind; k != vWord && k != vQuoted && k != vNumber || strings.Contains(r.at(0).text, ".") {
				r.bad = true
			}
			x = "(. " + x + " " + r.at(0).text + ")"
			r.i++
		case "::":
			x = "(:: " + x + " " + r.primary() + ")"
		default:
			x = "(" + op + " " + x + " " + r.expr(b) + ")"
		}
	}
	return x
}

func (r *vRef) prefix() string {
	switch {
	case r.word(0, "NOT"):
		r.i++
		return "(NOT " + r.expr(bNot) + ")"
	case r.op(0, "-") || r.op(0, "+"):
		s := r.at(0).text
		if r.at(1).kind == vNumber { // the sign of a number
			r.i += 2
			return "(" + s + " " + r.at(-1).text + ")"
		}
		r.i++
		if k := r.at(0).kind; k == vOp && !r.op(0, "(") && !r.op(0, "[") || r.word(0, "NOT") {
			r.bad = true
		}
		return "(" + s + " " + r.expr(bSign) + ")"
	}
	return r.primary()
}

// list reads items up to the closing bracket.
func (r *vRef) list(end string) string {
	s := ""
	for !r.bad && !r.op(0, end) {
		if s != "" {
			r.take(",")
		}
		s += " " + r.expr(0)
	}
	r.i++
	return s
}

func (r *vRef) primary() string {
	t := r.at(0)
	switch {
	case t.kind == vNumber || t.kind == vString:
		r.i++
		return t.text
	case t.kind == vQuoted || t.kind == vWord:
		if t.kind == vWord && (vKeyword(t.text) && !r.op(1, "(")) {
			r.bad = !vWordIs(t, "NULL")
		}
		r.i++
		if r.op(0, "(") {
			if vWordIs(t, "INTERVAL") || vWordIs(t, "CASE") || vWordIs(t, "EXTRACT") || vWordIs(t, "CAST") || vWordIs(t, "EXISTS") {
				r.bad = true
			}
			r.i++
			return "(call " + t.text + r.list(")") + ")"
		}
		s := t.text
		for r.op(0, ".") && (r.at(1).kind == vWord || r.at(1).kind == vQuoted) {
			s += "." + r.at(1).text
			r.i += 2
		}
		return s
	case vOpIs(t, "("):
		r.i++
		return "(tuple" + r.list(")") + ")"
	case vOpIs(t, "["):
		r.i++
		return "(array" + r.list("]") + ")"
	}
	r.bad = true
	return ""
}

// vShape gives the fully parenthesised form of an AST; "" if it has nodes the
// reference does not know.
func vShape(x Expr, known *bool) string {
	switch n := x.(type) {
	case *Ident:
		return vName(n)
	case *Path:
		s := ""
		for i, f := range n.Fields {
			if i > 0 {
				s += "."
			}
			s += vName(f)
		}
		return s
	case *NestedIdentifier:
		if n.DotIdent != nil {
			return vName(n.Ident) + "." + vName(n.DotIdent)
		}
		return vName(n.Ident)
	case *NullLiteral:
		return "NULL"
	case *StringLiteral:
		return "'" + n.Literal + "'"
	case *NumberLiteral:
		if s := n.Literal; len(s) > 1 && (s[0] == '-' || s[0] == '+') {
			return "(" + s[:1] + " " + s[1:] + ")"
		}
		return n.Literal
	case *UnaryExpr:
		return "(" + string(n.Kind) + " " + vShape(n.Expr, known) + ")"
	case *BinaryOperation:
		op := string(n.Operation)
		if n.HasNot {
			op = "NOT " + op
		}
		if n.HasGlobal {
			op = "GLOBAL " + op
		}
		return "(" + op + " " + vShape(n.LeftExpr, known) + " " + vShape(n.RightExpr, known) + ")"
	case *TernaryOperation:
		return "(? " + vShape(n.Condition, known) + " " + vShape(n.TrueExpr, known) + " " + vShape(n.FalseExpr, known) + ")"
	case *IsNullExpr:
		return "(IS NULL " + vShape(n.Expr, known) + ")"
	case *IsNotNullExpr:
		return "(IS NOT NULL " + vShape(n.Expr, known) + ")"
	case *BetweenClause:
		op := "BETWEEN"
		if n.Not {
			op = "NOT BETWEEN"
		}
		return "(" + op + " " + vShape(n.Expr, known) + " " + vShape(n.Between, known) + " " + vShape(n.And, known) + ")"
	case *ObjectParams:
		return "([] " + vShape(n.Object, known) + vShapes(n.Params.Items, known) + ")"
	case *IndexOperation:
		return "(" + string(n.Operation) + " " + vShape(n.Object, known) + " " + vShape(n.Index, known) + ")"
	case *ArrayParamList:
		return "(array" + vShapes(n.Items, known) + ")"
	case *ParamExprList:
		if n.ColumnArgList == nil {
			return "(tuple" + vShapes(n.Items, known) + ")"
		}
	case *FunctionExpr:
		if n.Params != nil && n.Params.ColumnArgList == nil {
			return "(call " + vName(n.Name) + vShapes(n.Params.Items, known) + ")"
		}
	case *ColumnExpr:
		if n.Alias == nil {
			return vShape(n.Expr, known)
		}
	}
	*known = false
	return ""
}

func vName(n *Ident) string {
	switch n.QuoteType {
	case BackTicks:
		return "`" + n.Name + "`"
	case DoubleQuote:
		return "\"" + n.Name + "\""
	}
	return n.Name
}

func vShapes(l *ColumnExprList, known *bool) string {
	if l == nil {
		return ""
	}
	if l.HasDistinct || l.trailingComma {
		*known = false
	}
	s := ""
	for _, x := range l.Items {
		s += " " + vShape(x, known)
	}
	return s
}

// hPrec (C10): operators group as the reference groups them. The text is
// SELECT and one expression.
func hPrec(in string) {
	in = vTrim(in)
	ts, bad := vTokens(in)
	if bad >= 0 || len(ts) < 2 {
		return
	}
	r := &vRef{ts: ts, in: in, i: 1}
	want := r.expr(0)
	if r.bad || r.i != len(ts) {
		return
	}
	stmts, ok := vParse(in)
	if !ok {
		verifFail("an expression is rejected")
	}
	q, is := stmts[0].(*SelectQuery)
	if !is || len(stmts) != 1 || len(q.SelectItems) != 1 || q.SelectItems[0].Alias != nil || len(q.SelectItems[0].Modifiers) != 0 {
		verifFail("an expression is read as something else")
	}
	known := true
	got := vShape(q.SelectItems[0].Expr, &known)
	verifObserve(got)
	if !known {
		return
	}
	verifAssert(strings.EqualFold(got, want), "operators group another way\n"+got+" for "+want)
	// the same with the groups in parentheses means the same
	full := "SELECT " + vFull(q.SelectItems[0].Expr)
	fs, ok := vParse(full)
	if !ok {
		verifFail("the parenthesised expression is rejected\n" + full)
	}
	fq, is := fs[0].(*SelectQuery)
	if !is || len(fs) != 1 || len(fq.SelectItems) != 1 {
		verifFail("the parenthesised expression is read as something else\n" + full)
	}
	verifAssert(vBare(fq.SelectItems[0].Expr) == vBare(q.SelectItems[0].Expr), "the parenthesised expression means something else\n"+full)
}

// vFull writes an expression with every group in parentheses.
func vFull(x Expr) string {
	switch n := x.(type) {
	case *UnaryExpr:
		return "(" + string(n.Kind) + " " + vFull(n.Expr) + ")"
	case *BinaryOperation:
		op := string(n.Operation)
		if op == "::" || op == "->" {
			if op == "->" {
				return "(" + vFull(n.LeftExpr) + " -> " + vFull(n.RightExpr) + ")"
			}
			return "(" + vFull(n.LeftExpr) + "::" + Format(n.RightExpr) + ")"
		}
		if n.HasNot {
			op = "NOT " + op
		}
		if n.HasGlobal {
			op = "GLOBAL " + op
		}
		return "(" + vFull(n.LeftExpr) + " " + op + " " + vFull(n.RightExpr) + ")"
	case *TernaryOperation:
		return "(" + vFull(n.Condition) + " ? " + vFull(n.TrueExpr) + " : " + vFull(n.FalseExpr) + ")"
	case *IsNullExpr:
		return "(" + vFull(n.Expr) + " IS NULL)"
	case *IsNotNullExpr:
		return "(" + vFull(n.Expr) + " IS NOT NULL)"
	case *BetweenClause:
		op := " BETWEEN "
		if n.Not {
			op = " NOT BETWEEN "
		}
		return "(" + vFull(n.Expr) + op + vFull(n.Between) + " AND " + vFull(n.And) + ")"
	}
	return Format(x)
}

// vBare is vShape without parentheses of one item.
func vBare(x Expr) string {
	known := true
	s := vShape(vStrip(x), &known)
	return s
}

func vStrip(x Expr) Expr {
	switch n := x.(type) {
	case *ParamExprList:
		if n.ColumnArgList == nil && n.Items != nil && len(n.Items.Items) == 1 && !n.Items.trailingComma {
			return vStrip(n.Items.Items[0])
		}
	case *ColumnExpr:
		if n.Alias == nil {
			return vStrip(n.Expr)
		}
	case *UnaryExpr:
		return &UnaryExpr{Kind: n.Kind, Expr: vStrip(n.Expr)}
	case *BinaryOperation:
		return &BinaryOperation{Operation: n.Operation, HasGlobal: n.HasGlobal, HasNot: n.HasNot, LeftExpr: vStrip(n.LeftExpr), RightExpr: vStrip(n.RightExpr)}
	case *TernaryOperation:
		return &TernaryOperation{Condition: vStrip(n.Condition), TrueExpr: vStrip(n.TrueExpr), FalseExpr: vStrip(n.FalseExpr)}
	case *IsNullExpr:
		return &IsNullExpr{Expr: vStrip(n.Expr)}
	case *IsNotNullExpr:
		return &IsNotNullExpr{Expr: vStrip(n.Expr)}
	case *BetweenClause:
		return &BetweenClause{Not: n.Not, Expr: vStrip(n.Expr), Between: vStrip(n.Between), And: vStrip(n.And)}
	}
	return x
}
