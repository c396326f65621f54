package parser

// hAccept (C18): every sentence of the template is accepted.
func hAccept(in string) {
	_, err := NewParser(in).ParseStmts()
	verifAssert(err == nil, "a valid sentence is rejected\n"+in)
}

// hReject (C19): no text of the template is accepted.
func hReject(in string) {
	_, err := NewParser(in).ParseStmts()
	verifAssert(err != nil, "an invalid text is accepted\n"+in)
}

// vOpen are the words that, used as keywords, always announce something.
var vOpen = map[string]bool{
	"WHERE": true, "PREWHERE": true, "HAVING": true, "FROM": true, "JOIN": true, "ON": true, "USING": true, "BY": true,
	"LIMIT": true, "OFFSET": true, "AND": true, "OR": true, "NOT": true, "LIKE": true, "ILIKE": true, "BETWEEN": true, "IN": true,
	"INTO": true, "WHEN": true, "THEN": true, "ELSE": true, "AS": true, "UNION": true, "EXCEPT": true, "SELECT": true,
	"SETTINGS": true, "ENGINE": true, "CLUSTER": true, "TO": true, "ADD": true, "RENAME": true, "CREATE": true, "ALTER": true,
	"DISTINCT": true, "INTERVAL": true, "GROUP": true, "IS": true, "REPLACE": true, "DATABASE": true,
	"CODEC": true, "COMMENT": true, "SAMPLE": true, "QUALIFY": true, "IF": true, "CASE": true, "GLOBAL": true,
}

// vEnds reports whether token i ends a list, a bracket or the text.
func vEnds(ts []vTok, i int) bool {
	return i >= len(ts) || vOpIs(ts[i], ";") || vOpIs(ts[i], ")") || vOpIs(ts[i], "]") || vOpIs(ts[i], "}") || vOpIs(ts[i], ",")
}

// vInfix are the operators that need a right operand.
func vInfix(t vTok) bool {
	switch t.text {
	case "+", "-", "/", "%", "=", "==", "<", ">", "<=", ">=", "!=", "<>", "||", "->", "::", ".", "(", "[", "{":
		return t.kind == vOp
	}
	return false
}

// vBalanced reports whether the brackets of the tokens match.
func vBalanced(ts []vTok) bool {
	var st []byte
	for _, t := range ts {
		if t.kind != vOp {
			continue
		}
		switch t.text {
		case "(":
			st = append(st, ')')
		case "[":
			st = append(st, ']')
		case "{":
			st = append(st, '}')
		case ")", "]", "}":
			if len(st) == 0 || st[len(st)-1] != t.text[0] {
				return false
			}
			st = st[:len(st)-1]
		}
	}
	return len(st) == 0
}

// vComplete checks what the tokens of an accepted text tell about its
// completeness.
func vComplete(in string, ts []vTok, stmts []Expr) {
	verifAssert(vBalanced(ts), "unbalanced brackets are accepted\n"+in)
	var names map[int]bool
	for i, t := range ts {
		if !vEnds(ts, i+1) {
			continue
		}
		if vInfix(t) && (i+1 >= len(ts) || !vOpIs(t, "(") && !vOpIs(t, "[") && !vOpIs(t, "{") || vOpIs(ts[i+1], ",") || vOpIs(ts[i+1], ";")) {
			verifFail("an operator without its right operand is accepted\n" + in)
		}
		if t.kind != vWord || !vOpenWord(t.text) {
			continue
		}
		if len(stmts) > 0 {
			if _, ok := stmts[len(stmts)-1].(*GrantPrivilegeStmt); ok {
				continue // privileges are named by such words
			}
		}
		if names == nil {
			names = map[int]bool{}
			for _, s := range stmts {
				for _, x := range verifNodes(s) {
					if n, ok := x.(*Ident); ok {
						names[int(n.NamePos)] = true
					}
				}
			}
		}
		verifAssert(names[t.pos], "a keyword without what it announces is accepted\n"+in)
	}
}

func vOpenWord(s string) bool {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 'a' + 'A'
		}
	}
	return vOpen[string(b)]
}

// hCut (C19): cut off, unbalanced and garbled texts are rejected.
func hCut(in string) {
	in = vTrim(in)
	ts, bad := vTokens(in)
	if bad >= 0 || len(ts) == 0 {
		return
	}
	stmts, ok := vParse(in)
	if !ok {
		return
	}
	vComplete(in, ts, stmts)
	for i, t := range ts {
		end := t.pos + len(t.text)
		cut := in[:end]
		if i+1 < len(ts) {
			if as, aok := vParse(cut); aok {
				vComplete(cut, ts[:i+1], as)
			}
		}
		if t.kind != vOp {
			continue
		}
		switch t.text {
		case "(", ")", "[", "]", "{", "}":
			vRejected(in[:t.pos]+" "+in[end:], "a missing bracket is accepted")
			vRejected(in[:end]+" "+vWrong(t.text)+" "+in[end:], "a wrong bracket is accepted")
		case ",", ".", "=", "<=", ">=", "<", ">", "!=", "<>", "==", "||", "::", "->", "/", "%":
			vRejected(in[:end]+" "+in[t.pos:], "a doubled operator is accepted")
		}
	}
	last := ts[len(ts)-1]
	if !vOpIs(last, ";") && !vOpIs(last, ",") && !vOpenWord(last.text) {
		vRejected(in[:last.pos+len(last.text)]+" 7", "a number after the end is accepted")
		vRejected(in[:last.pos+len(last.text)]+" = = 7", "garbage after the end is accepted")
	}
}

func vRejected(in, msg string) {
	_, ok := vParse(in)
	verifAssert(!ok, msg+"\n"+in)
}

// vWrong is a bracket that does not match b.
func vWrong(b string) string {
	if b == ")" || b == "(" {
		return "]"
	}
	return ")"
}
