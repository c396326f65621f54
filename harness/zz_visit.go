package parser

// vIndex maps the nodes of ns to their positions.
func vIndexOf(ns []Expr, x Expr) int {
	for i, y := range ns {
		if x == y {
			return i
		}
	}
	return -1
}

const vMaxPrune = 48

// hWalk (C08): Walk reaches every node once, parents first, and prunes.
func hWalk(in string) {
	in = vTrim(in)
	stmts, ok := vParse(in)
	if !ok {
		return
	}
	for _, s := range stmts {
		ns := verifNodes(s)
		par := verifParents(s)
		var order []Expr
		Walk(s, func(x Expr) bool {
			order = append(order, x)
			return true
		})
		seen := make([]bool, len(ns))
		idx := make([]int, len(order))
		for i, x := range order {
			k := vIndexOf(ns, x)
			idx[i] = k
			if k < 0 {
				verifCheck(false, "Walk visits a node the statement lacks: "+verifTypeName(x))
				return
			}
			if seen[k] {
				verifCheck(false, "Walk visits a node twice: "+verifTypeName(x)+vParent(ns, par, k))
			}
			seen[k] = true
			if par[k] >= 0 && !seen[par[k]] {
				verifCheck(false, "Walk visits a node before its parent: "+verifTypeName(x)+vParent(ns, par, k))
			}
		}
		for k, x := range ns {
			if !seen[k] && (par[k] < 0 || seen[par[k]]) {
				verifCheck(false, "Walk misses a node: "+verifTypeName(x)+vParent(ns, par, k))
			}
		}
		// pruning at node j leaves out exactly what is below it
		for j := range order {
			if j >= vMaxPrune {
				break
			}
			var got []Expr
			Walk(s, func(x Expr) bool {
				got = append(got, x)
				return x != order[j]
			})
			at := 0
			for i, x := range order {
				k := idx[i]
				for k >= 0 && k != idx[j] {
					k = par[k]
				}
				if k >= 0 && i != j {
					continue
				}
				if at >= len(got) || got[at] != x {
					verifFail("pruned Walk misses a node: " + verifTypeName(x) + " when pruning " + verifTypeName(order[j]))
				}
				at++
			}
			if at < len(got) {
				verifFail("pruned Walk visits a node below: " + verifTypeName(got[at]) + " when pruning " + verifTypeName(order[j]))
			}
		}
	}
}

type vError struct{ n int }

func (e *vError) Error() string { return "stop" }

const (
	vEnter = iota
	vVisit
	vLeave
)

type vEvent struct {
	what int
	x    Expr
}

type vTrace struct {
	DefaultASTVisitor
	ev     []vEvent
	visits int
	failAt int
	err    error
}

func (v *vTrace) Enter(x Expr) { v.ev = append(v.ev, vEvent{vEnter, x}) }
func (v *vTrace) Leave(x Expr) { v.ev = append(v.ev, vEvent{vLeave, x}) }

func vNewTrace(failAt int, err error) *vTrace {
	v := &vTrace{failAt: failAt, err: err}
	v.DefaultASTVisitor.Visit = func(x Expr) error {
		v.ev = append(v.ev, vEvent{vVisit, x})
		v.visits++
		if v.visits == v.failAt {
			return v.err
		}
		return nil
	}
	return v
}

// hVisit (C09): Enter, Visit and Leave once per node, nested; an error stops.
func hVisit(in string) {
	in = vTrim(in)
	stmts, ok := vParse(in)
	if !ok {
		return
	}
	for _, s := range stmts {
		ns := verifNodes(s)
		par := verifParents(s)
		v := vNewTrace(0, nil)
		if err := s.Accept(v); err != nil {
			verifFail("visiting fails of itself\n" + err.Error())
		}
		seen := make([]int, len(ns))
		done := make([]bool, len(ns))
		var stack []int
		for _, e := range v.ev {
			k := vIndexOf(ns, e.x)
			if k < 0 {
				verifCheck(false, "the visitor meets a node the statement lacks: "+verifTypeName(e.x))
				return
			}
			name := verifTypeName(e.x) + vParent(ns, par, k)
			switch e.what {
			case vEnter:
				if seen[k] > 0 {
					verifCheck(false, "the visitor enters a node twice: "+name)
				}
				seen[k]++
				if par[k] >= 0 && (len(stack) == 0 || !vOnStack(stack, par[k])) {
					verifCheck(false, "the visitor enters a node outside its parent: "+name)
				}
				stack = append(stack, k)
			case vVisit:
				if len(stack) == 0 || stack[len(stack)-1] != k {
					verifCheck(false, "the visitor visits a node outside its Enter and Leave: "+name)
				}
				if done[k] {
					verifCheck(false, "the visitor visits a node twice: "+name)
				}
				done[k] = true
				for j := range ns {
					if par[j] == k && seen[j] > 0 && !done[j] {
						verifCheck(false, "the visitor visits a node before its children: "+name)
					}
				}
			case vLeave:
				if len(stack) == 0 || stack[len(stack)-1] != k {
					verifCheck(false, "Enter and Leave are not nested: "+name)
					return
				}
				stack = stack[:len(stack)-1]
				if !done[k] {
					verifCheck(false, "the visitor leaves a node without a visit: "+name)
				}
			}
		}
		if len(stack) > 0 {
			verifCheck(false, "the visitor does not leave: "+verifTypeName(ns[stack[0]]))
		}
		for k, x := range ns {
			if seen[k] == 0 && (par[k] < 0 || seen[par[k]] > 0) {
				verifCheck(false, "the visitor misses a node: "+verifTypeName(x)+vParent(ns, par, k))
			}
			// children before the visit of their parent, on order of events
		}
		total := v.visits
		for n := 1; n <= total && n <= vMaxPrune; n++ {
			stop := &vError{n}
			w := vNewTrace(n, stop)
			err := s.Accept(w)
			var at Expr
			for _, e := range w.ev {
				if e.what == vVisit {
					at = e.x
				}
			}
			if err != error(stop) {
				verifCheck(false, "an error is not passed on: from "+verifTypeName(at))
			}
			if w.visits != n {
				verifCheck(false, "an error does not stop the visitor: from "+vVisitAt(w.ev, n))
			}
			open := 0
			for _, e := range w.ev {
				if e.what == vEnter {
					open++
				}
				if e.what == vLeave {
					open--
				}
			}
			if open != 0 {
				verifCheck(false, "an error leaves nodes entered: from "+verifTypeName(at))
			}
		}
	}
}

func vVisitAt(ev []vEvent, n int) string {
	for _, e := range ev {
		if e.what == vVisit {
			n--
			if n == 0 {
				return verifTypeName(e.x)
			}
		}
	}
	return "?"
}

func vOnStack(s []int, k int) bool {
	for _, x := range s {
		if x == k {
			return true
		}
	}
	return false
}

// hHelpers (C22): Find, FindAll, WalkWithBreak and Transform agree with Walk.
func hHelpers(in string) {
	in = vTrim(in)
	stmts, ok := vParse(in)
	if !ok {
		return
	}
	for _, s := range stmts {
		keep, _ := verifCopy(s).(Expr)
		var order []Expr
		Walk(s, func(x Expr) bool {
			order = append(order, x)
			return true
		})
		for mode := 0; mode < 4; mode++ {
			pred := func(x Expr) bool {
				switch mode {
				case 0:
					return true
				case 1:
					_, is := x.(*Ident)
					return is
				case 2:
					return vIndexOf(order, x)%3 == 2
				default:
					return false
				}
			}
			all := FindAll(s, pred)
			at := 0
			var first Expr
			for _, x := range order {
				if !pred(x) {
					continue
				}
				if first == nil {
					first = x
				}
				if at >= len(all) || all[at] != x {
					verifFail("FindAll misses a match: " + verifTypeName(x))
				}
				at++
			}
			if at < len(all) {
				verifFail("FindAll gives what does not match: " + verifTypeName(all[at]))
			}
			got, found := Find(s, pred)
			if found != (first != nil) || found && got != first {
				verifFail("Find does not give the first match")
			}
			if !found && got != nil {
				verifFail("Find gives a node and no match")
			}
		}
		for j := -1; j < len(order) && j < vMaxPrune; j++ {
			var got []Expr
			r := WalkWithBreak(s, func(x Expr) bool {
				got = append(got, x)
				return len(got)-1 != j
			})
			n := j + 1
			if j < 0 {
				n = len(order)
			}
			if len(got) != n {
				verifFail("WalkWithBreak does not stop where told")
			}
			for i, x := range got {
				if x != order[i] {
					verifFail("WalkWithBreak has an order of its own")
				}
			}
			if r != (j < 0) {
				verifFail("WalkWithBreak misreports the stop")
			}
		}
		for j := 1; j < len(order) && j < vMaxPrune; j++ {
			vHelpersAt(order[j])
		}
		if Transform(s, func(x Expr) Expr { return x }) != s {
			verifFail("the identity transforms the root")
		}
		verifAssert(verifSame(s, keep, 0), "the identity changes the AST")
		for _, x := range order {
			if Transform(s, func(y Expr) Expr {
				if y == s {
					return x
				}
				return y
			}) != x {
				verifFail("Transform drops what the transformer gives for the root")
			}
		}
		if Transform(s, func(y Expr) Expr { return nil }) != nil {
			verifFail("Transform invents a root")
		}
		verifAssert(verifSame(s, keep, 0), "the helpers change the AST")
	}
}

// vHelpersAt checks the helpers with an inner node as their root.
func vHelpersAt(root Expr) {
	var order []Expr
	Walk(root, func(x Expr) bool {
		order = append(order, x)
		return true
	})
	all := FindAll(root, func(x Expr) bool { return true })
	at := verifTypeName(root)
	if len(all) != len(order) {
		verifFail("FindAll misses nodes below an inner node: " + at)
	}
	for i, x := range order {
		if all[i] != x {
			verifFail("FindAll has an order of its own below an inner node: " + at)
		}
	}
	if len(order) == 0 {
		return
	}
	for k := 0; k < 2; k++ {
		n := k * (len(order) - 1)
		got, found := Find(root, func(x Expr) bool { return x == order[n] })
		if !found || got != order[n] {
			verifFail("Find misses a node below an inner node: " + at)
		}
		count := 0
		r := WalkWithBreak(root, func(x Expr) bool {
			count++
			return x != order[n]
		})
		if r || vIndexOf(order, order[n])+1 != count {
			verifFail("WalkWithBreak does not stop below an inner node: " + at)
		}
	}
	if !WalkWithBreak(root, func(x Expr) bool { return true }) {
		verifFail("WalkWithBreak reports a stop below an inner node: " + at)
	}
}

// hSet (C23): in is a sequence of operations, two bytes each.
func hSet(in string) {
	var model [256]bool
	s := NewSet(in[0]-'a', in[1]-'a') // the zero value is a member like any
	model[in[0]-'a'], model[in[1]-'a'] = true, true
	t := NewSet[byte]()
	verifAssert(len(t.Members()) == 0, "a new set is not empty")
	for i := 2; i+1 < len(in); i += 2 {
		x := in[i+1] - 'a'
		if in[i] == '+' {
			s.Add(x)
			model[x] = true
		} else {
			s.Remove(x)
			model[x] = false
		}
		n := 0
		for c := byte(0); c < 4; c++ {
			verifAssert(s.Contains(c) == model[c], "Contains is wrong")
			if model[c] {
				n++
			}
		}
		for k := 0; k < 2; k++ {
			verifMapOrder(k == 1)
			ms := s.Members()
			verifAssert(len(ms) == n, "Members has a wrong number of members")
			for a, c := range ms {
				verifAssert(model[c], "Members lists what is no member")
				for b := range ms {
					verifAssert(a == b || ms[b] != c, "Members lists a member twice")
				}
			}
		}
		verifAssert(len(t.Members()) == 0 && !t.Contains(x), "sets share members")
	}
}
