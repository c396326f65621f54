package main

// propRun explores every template of the sets under every harness.
type propRun struct{ harness, sets string }

type propSpec struct {
	quick, thorough []propRun
	assume          []string
}

const (
	setsKept = "expr query ddl alter dml system"
	setsBase = "accept expr query ddl alter dml system"
	setsSQL  = setsBase + " operands"
	setsAll  = setsSQL + " reorder reorderjson lex multi"
	setsLess = setsBase + " reorder reorderjson lex multi" // quick runs of the costly harnesses
)

var properties = map[string]*propSpec{
	"C01": {quick: []propRun{{"Total", setsAll}, {"TotalShort", setsLess}, {"TotalGrow", "accept"}}, thorough: []propRun{{"TotalShort", "operands"}, {"TotalSwap", setsLess}, {"TotalGrow", "operands query ddl alter dml system"}}},
	"C02": {quick: []propRun{{"Kept", setsKept + " operands lex multi"}, {"KeptBag", "accept reorder reorderjson"}, {"KeptBagShort", setsLess}, {"KeptBagGrow", "accept"}}, thorough: []propRun{{"KeptBagShort", "operands"}, {"KeptBagSwap", setsLess}, {"KeptBagGrow", "operands query ddl alter dml system"}}},
	"C03": {quick: []propRun{{"RoundTrip", setsSQL + " reorder lex multi"}, {"RoundTripShort", setsBase + " reorder lex multi"}, {"RoundTripGrow", "accept"}}, thorough: []propRun{{"RoundTripShort", "operands"}, {"RoundTripSwap", setsBase + " reorder lex multi"}, {"RoundTripGrow", "operands query ddl alter dml system"}}},
	"C04": {quick: []propRun{{"Beautify", setsSQL + " reorder lex multi"}, {"BeautifyGrow", "accept"}}, thorough: []propRun{{"BeautifyGrow", "operands query ddl alter dml system"}}},
	"C05": {quick: []propRun{{"Idem", setsSQL + " reorder lex multi"}, {"IdemGrow", "accept"}}, thorough: []propRun{{"IdemGrow", "operands query ddl alter dml system"}}},
	"C06": {quick: []propRun{{"Pos", setsSQL + " reorder lex multi"}, {"PosGrow", "accept"}}, thorough: []propRun{{"PosGrow", "operands query ddl alter dml system"}}},
	"C07": {quick: []propRun{{"Source Reparse", setsSQL + " reorder lex multi"}, {"SourceGrow", "accept"}}, thorough: []propRun{{"SourceGrow", "operands query ddl alter dml system"}}},
	"C08": {quick: []propRun{{"Walk", setsAll}, {"WalkGrow", "accept"}}, thorough: []propRun{{"WalkGrow", "operands query ddl alter dml system"}}},
	"C09": {quick: []propRun{{"Visit", setsAll}, {"VisitGrow", "accept"}}, thorough: []propRun{{"VisitGrow", "operands query ddl alter dml system"}}},
	"C10": {quick: []propRun{{"Prec", "prec expr operands"}}},
	"C11": {quick: []propRun{{"Case", setsSQL + " reorder multi"}}},
	"C12": {quick: []propRun{{"Space", setsSQL + " reorder lex multi"}, {"SpaceGrow", "accept"}}, thorough: []propRun{{"SpaceGrow", "operands query ddl alter dml system"}}},
	"C13": {quick: []propRun{{"Error", setsAll}, {"ErrorShort", setsLess}}, thorough: []propRun{{"ErrorShort", "operands"}, {"ErrorSwap", setsLess}}},
	"C14": {quick: []propRun{{"Lex", setsAll}}},
	"C15": {quick: []propRun{{"Split", setsSQL + " lex multi"}}},
	"C16": {quick: []propRun{{"Pure", setsSQL + " reorder lex multi"}, {"PureGrow", "accept"}}, thorough: []propRun{{"PureGrow", "operands query ddl alter dml system"}}},
	"C17": {quick: []propRun{{"Verbatim", setsSQL + " reorder lex multi"}, {"VerbatimGrow", "accept"}}, thorough: []propRun{{"VerbatimGrow", "operands query ddl alter dml system"}}},
	"C18": {quick: []propRun{{"Accept", "accept operands reorderjson"}}},
	"C19": {quick: []propRun{{"Reject", "invalid"}, {"Cut", setsBase}}, thorough: []propRun{{"Cut", "operands"}}},
	"C21": {quick: []propRun{{"Quoted", setsBase + " reorder multi"}}, thorough: []propRun{{"Quoted", "operands"}}},
	"C22": {quick: []propRun{{"Helpers", setsSQL + " reorder lex multi"}, {"HelpersGrow", "accept"}}, thorough: []propRun{{"HelpersGrow", "operands query ddl alter dml system"}}},
	"C23": {quick: []propRun{{"Set", "set"}}},
}
