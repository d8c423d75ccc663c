//go:build go1.23

package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	base "github.com/steve-care-software/steve/domain/languages/scripts/base/parsers"
)

// The model of programs of the base language: a generator that writes a
// program together with what its parts are, and a printer of parsed programs.

// pgen writes one program
type pgen struct {
	w      *W
	sb     strings.Builder
	bits   uint
	size   int
	quiet  bool // no channels between the words
	weight int  // of the brackets around the place: reading takes long when they are deep
	peak   int
	refuse string
	spoil  int    // how many words can still be spoiled before one is, if any
	halves bool   // only halves of operators
	spoilt string // what was spoilt: the text does not say it any more
	used   map[string]int
}

func wordy(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

func (p *pgen) space() string {
	switch p.w.Int(6) {
	case 0:
		return " "
	case 1:
		return "\n"
	case 2:
		return "\t"
	case 3:
		return "  \n\t"
	case 4:
		return "/*" + p.note("*/") + "*/"
	default:
		return "//" + p.note("\n") + "\n"
	}
}

// note is what a remark says
func (p *pgen) note(end string) string {
	words := []string{"aa := 45", " ", "if xx {", "\"", "é", "//", "break", "}", "/", "[", "...", "日本", "*", "\n", "45", "/*"}
	s := "x"
	for i := p.w.Int(4); i > 0; i-- {
		s += words[p.w.Int(len(words))]
	}
	s = strings.ReplaceAll(s, end, " ")
	if end == "*/" {
		s = strings.ReplaceAll(s, "*", ".")
	}
	return s
}

// spoiled is what stands in the text instead of a word, such that the text does
// not say the same any more: brackets that do not match, names with a gap, half
// of an operator. (What stands before it may still be read: the lexer ignores
// what follows the text it reads.)
func (p *pgen) spoiled(word string, name bool) string {
	bad := ""
	switch {
	case name && word != "_":
		gap := pick(p.w.Source, " ", "\n", "/**/", " /*x*/ ")
		bad = word[:1] + gap + word[1:]
		if p.w.Chance(300) {
			bad = word[:1]
		}
	case word == "(":
		bad = "(("
	case word == "[" || word == "{":
		bad = pick(p.w.Source, " ", word+word)
	case word == ")" || word == "]" || word == "}":
		bad = " "
	case word == ",":
		bad = ",,"
	case word == "...":
		bad = pick(p.w.Source, "..", ". ..")
	default:
		return word
	}
	if p.spoil--; p.spoil > 0 || p.spoilt != "" {
		return word
	}
	p.spoilt = fmt.Sprintf("%q instead of %q", bad, word)
	return bad
}

// put writes the next word
func (p *pgen) put(word string) { p.putWord(word, false) }

func (p *pgen) putWord(word string, name bool) {
	if p.spoil > 0 && !p.halves {
		word = p.spoiled(word, name)
	}
	s := p.sb.String()
	need := false
	if s != "" {
		a, b := s[len(s)-1], word[0]
		need = wordy(a) && wordy(b) || a == '/' || b == '/' || a == '*' || b == '*'
	}
	if need && s[len(s)-1] != '\n' {
		p.sb.WriteString(pick(p.w.Source, " ", " ", "\n", "\t"))
	}
	for !p.quiet && p.w.Chance(150) {
		p.sb.WriteString(p.space())
		if p.w.Chance(500) {
			break
		}
	}
	p.sb.WriteString(word)
}

// glue writes the next word directly behind the previous one
func (p *pgen) glue(word string) { p.sb.WriteString(word) }

func (p *pgen) use(kind string) { p.used[kind]++; p.size-- }

func (p *pgen) flat() bool { return p.size <= 0 || p.weight > 12 }

// in writes a part that is read again and again while the program is read
func (p *pgen) in(times int, part func() string) string {
	p.weight = (p.weight + 1) * times
	p.peak = max(p.peak, p.weight)
	out := part()
	p.weight = p.weight/times - 1
	return out
}

var baseWords = []string{"append", "true", "false", "isNull", "if", "for", "int", "uint", "float", "bool", "string", "list", "log", "break", "continue"}

func (p *pgen) name() string {
	s := pick(p.w.Source, "aa", "bb", "xY", "cc", "myList", "valueOf", "zZz", "indexMax", "")
	if s == "" {
		s = string(rune('a' + p.w.Int(26)))
		for i := p.w.Range(1, 6); i > 0; i-- {
			c := 'a'
			if p.w.Bool() {
				c = 'A'
			}
			s += string(c + rune(p.w.Int(26)))
		}
		for _, k := range baseWords {
			if strings.HasPrefix(s, k) {
				s = "q" + s
			}
		}
	}
	return s
}

func (p *pgen) variable() string {
	s := p.name()
	p.putWord(s, true)
	return s
}

func (p *pgen) digits() string {
	n := pick(p.w.Source, 1, 1, 2, 3)
	if p.w.Chance(100) {
		n = p.w.Range(4, 21)
	}
	s := ""
	for i := 0; i < n; i++ {
		s += string(rune('0' + p.w.Int(10)))
	}
	return s
}

// edge gives a number close to a limit
func (p *pgen) edge(signed bool) string {
	v := uint64(1)<<(p.bits-1) - 1
	v += v + 1 // the largest unsigned
	if signed {
		v = uint64(1) << (p.bits - 1) // the largest magnitude
	}
	switch p.w.Int(3) {
	case 0:
		v--
	case 1:
		if v == math.MaxUint64 {
			return "18446744073709551616"
		}
		v++
	}
	return strconv.FormatUint(v, 10)
}

func (p *pgen) uint() string {
	s := p.digits()
	if p.w.Chance(100) {
		s = p.edge(false)
	}
	p.put(s)
	return p.uintOf(s)
}

func (p *pgen) uintOf(s string) string {
	v, err := strconv.ParseUint(s, 10, int(p.bits))
	if err != nil {
		p.refuse = "unsigned " + s
		return "?"
	}
	return "uint " + strconv.FormatUint(v, 10)
}

func (p *pgen) number() string {
	p.use("number")
	switch p.w.Int(3) {
	case 0:
		return p.uint()
	case 1:
		s := p.digits()
		if p.w.Chance(100) {
			s = p.edge(true)
		}
		p.put("-")
		p.put(s)
		v, err := strconv.ParseInt("-"+s, 10, int(p.bits))
		if err != nil {
			p.refuse = "signed -" + s
			return "?"
		}
		return "int " + strconv.FormatInt(v, 10)
	default:
		s := ""
		if p.w.Bool() {
			p.put("-")
			s = "-"
		}
		a, b := p.digits(), p.digits()
		p.put(a)
		p.put(".")
		p.put(b)
		v, err := strconv.ParseFloat(s+a+"."+b, int(p.bits))
		if err != nil {
			p.refuse = "float " + s + a + "." + b
			return "?"
		}
		return "float " + strconv.FormatFloat(v, 'g', -1, 64)
	}
}

func (p *pgen) text() string {
	p.use("text")
	s := ""
	parts := []string{"a", " ", "some text", "\n", "//", "/* x */", "{", "}", "'", "\\", "é", "日本語", "%d", "break", "=", "\t", "0", ".", "\r", ":", "<", "#", `\n`, `\t`, `\u00e9`, `\\`, "%20", "&lt;", "$a", "${a}", "A", "+", "\x00", "\xff"}
	for i := p.w.Range(1, 5); i > 0; i-- {
		s += parts[p.w.Int(len(parts))]
	}
	p.put("\"" + s + "\"")
	return "text " + strconv.Quote(s)
}

// value is a literal
func (p *pgen) value() string {
	if p.w.Chance(400) {
		return p.text()
	}
	return p.number()
}

func (p *pgen) index() string {
	if p.w.Bool() {
		return "var " + p.variable()
	}
	return p.uint()
}

// listValue is a list in brackets or a variable
func (p *pgen) listValue() string {
	if p.flat() || p.w.Bool() {
		return "var " + p.variable()
	}
	return p.listAssignable()
}

func (p *pgen) listAssignable() string {
	p.use("list")
	p.put("[")
	out := "["
	n := p.w.Int(4)
	if p.size <= 0 {
		n = 0
	}
	item := p.assignable
	if p.weight <= 1 && p.w.Chance(40) {
		// many short items
		p.use("many_items")
		p.peak = max(p.peak, 11) // which is read several times too
		n, item = p.w.Range(5, 20), func() string { return "var " + p.variable() }
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			p.put(",")
			out += "; "
		}
		out += p.in(5, item)
	}
	p.put("]")
	return out + "]"
}

// totalList is a list that is written out, sliced or appended
func (p *pgen) totalList() string {
	how := p.w.Int(3)
	if p.flat() {
		how = 2
	}
	switch how {
	case 0:
		p.use("slice")
		l := p.in(2, p.listValue)
		p.put("[")
		out := "slice(" + l + " from " + p.index()
		p.put(":")
		if p.w.Bool() {
			out += " by " + p.index()
		}
		p.put("]")
		return out + ")"
	case 1:
		p.use("append")
		p.put("append")
		out := "append(" + p.in(3, p.listValue)
		p.put(",")
		return out + " and " + p.in(3, p.single) + ")"
	default:
		return p.listValue()
	}
}

// simpleList is a list that nothing can be appended to behind it
func (p *pgen) simpleList() string {
	if p.w.Chance(600) {
		return p.listValue()
	}
	p.use("slice")
	l := p.in(2, p.listValue)
	p.put("[")
	out := "slice(" + l + " from " + p.index()
	p.put(":")
	if p.w.Bool() {
		out += " by " + p.index()
	}
	p.put("]")
	return out + ")"
}

// single is one value that is not a plain list
func (p *pgen) single() string {
	switch p.w.Int(4) {
	case 0:
		return p.value()
	case 1:
		return p.operation(true)
	case 2:
		p.use("extract")
		out := ""
		if p.w.Bool() {
			p.put("(")
			out = p.in(3, p.totalList)
			p.put(")")
		} else {
			out = p.simpleList()
		}
		p.put("...")
		return "all of " + out
	default:
		p.use("fetch")
		out := p.in(2, p.simpleList)
		p.put("[")
		out = "item(" + out + " at " + p.index() + ")"
		p.put("]")
		return out
	}
}

func (p *pgen) assignable() string {
	if p.w.Bool() {
		return p.totalList() // a variable alone is a list or an operation
	}
	return p.single()
}

var baseOps = []struct {
	words []string
	flag  uint16
}{
	{[]string{"+"}, base.OpArithmetic | base.OpAriPlus},
	{[]string{"-"}, base.OpArithmetic | base.OpAriMinus},
	{[]string{"*"}, base.OpArithmetic | base.OpAriMultiply},
	{[]string{"/"}, base.OpArithmetic | base.OpAriDivide},
	{[]string{"<"}, base.OpRelational | base.OpRelLessThan},
	{[]string{"<", "="}, base.OpRelational | base.OpRelLessThan | base.OpRelEqual},
	{[]string{">"}, base.OpRelational | base.OpRelGreaterThan},
	{[]string{">", "="}, base.OpRelational | base.OpRelGreaterThan | base.OpRelEqual},
	{[]string{"!", "="}, base.OpRelational | base.OpRelNot | base.OpRelEqual},
	{[]string{"=="}, base.OpRelational | base.OpRelEqual},
	{[]string{"&&"}, base.OpLogical | base.OpLogAnd},
	{[]string{"||"}, base.OpLogical | base.OpLogOr},
}

func (p *pgen) operand() string {
	switch p.w.Int(6) {
	case 0:
		return p.number()
	case 1:
		b := p.w.Bool()
		p.put(strconv.FormatBool(b))
		return "bool " + strconv.FormatBool(b)
	default:
		return "var " + p.variable()
	}
}

// operation is a computation; a whole one is more than a single operand
func (p *pgen) operation(whole bool) string {
	p.use("operation")
	if !whole && (p.flat() || p.w.Chance(300)) {
		return p.operand()
	}
	how := p.w.Int(8)
	if p.flat() {
		how = 7
	}
	switch how {
	case 0:
		p.put("isNull")
		p.put("(")
		out := "null?(" + p.in(3, func() string { return p.operation(false) }) + ")"
		p.put(")")
		return out
	case 1:
		p.put("(")
		out := p.in(3, func() string { return p.operation(true) })
		p.put(")")
		return out
	default:
		out := "(" + p.operand()
		op := baseOps[p.w.Int(len(baseOps))]
		words := op.words
		whole := strings.Join(words, "")
		if p.spoil > 0 && len(whole) == 2 && whole[0] != '<' && whole[0] != '>' && p.spoilt == "" {
			if p.spoil--; p.spoil == 0 {
				// half of an operator is none
				p.spoilt = fmt.Sprintf("%q instead of %q", whole[1:], whole)
				words = []string{whole[1:]}
			}
		}
		for _, k := range words {
			p.put(k)
		}
		out += fmt.Sprintf(" op%d ", op.flag)
		return out + p.operand() + ")"
	}
}

var baseTypes = []struct {
	word string
	flag uint8
}{
	{"bool", base.TypeBoolFlag},
	{"string", base.TypeStringFlag},
	{"int", base.TypeIntegerFlag},
	{"uint", base.TypeIntegerFlag | base.TypeUnsignedFlag},
	{"float", base.TypeFloatFlag},
}

func (p *pgen) declaration() string {
	p.use("declaration")
	dept := pick(p.w.Source, 0, 0, 0, 1, 2, 3)
	for i := 0; i < dept; i++ {
		p.put("list")
		p.put("<")
	}
	t := baseTypes[p.w.Int(len(baseTypes))]
	p.put(t.word)
	for i := 0; i < dept; i++ {
		p.put(">")
	}
	return fmt.Sprintf("declare %d/%d %s", t.flag, dept, p.variable())
}

func (p *pgen) assignee() string {
	if p.w.Chance(250) {
		p.put("_")
		return "skip"
	}
	return "var " + p.variable()
}

func (p *pgen) assignment() string {
	p.use("assignment")
	out := ""
	n := pick(p.w.Source, 1, 1, 1, 2, 3)
	if p.w.Chance(20) && p.weight <= 1 {
		p.use("many_names")
		n = p.w.Range(4, 20)
	}
	if p.w.Bool() {
		out = "first "
		for i := 0; i < n; i++ {
			if i > 0 {
				p.put(",")
			}
			if p.w.Bool() {
				out += p.declaration() + ", "
			} else {
				out += p.assignee() + ", "
			}
		}
		p.put(":")
		p.put("=")
	} else {
		out = "again "
		for i := 0; i < n; i++ {
			if i > 0 {
				p.put(",")
			}
			out += p.assignee() + ", "
		}
		p.put("=")
	}
	out += ":= "
	n = pick(p.w.Source, 1, 1, 1, 2, 3)
	for i := 0; i < n; i++ {
		if i > 0 {
			p.put(",")
			out += "; "
		}
		out += p.assignable()
	}
	return out
}

func (p *pgen) block() string {
	p.put("{")
	out := "nothing"
	if p.size > 0 && p.w.Chance(850) {
		out = p.instructions()
	}
	p.put("}")
	return out
}

func (p *pgen) ifDeclaration() string {
	p.use("if")
	p.put("if")
	out := "if " + p.operation(false) + " do "
	return out + p.block()
}

func (p *pgen) forStatement() string {
	if !p.flat() && p.w.Chance(250) {
		p.use("parentheses")
		p.put("(")
		out := p.in(3, p.forStatement)
		p.put(")")
		return out
	}
	out := p.assignee() + " and "
	p.put(",")
	out += p.assignee()
	p.put(":")
	p.put("=")
	return out + " in " + p.totalList()
}

func (p *pgen) forDeclaration() string {
	p.use("for")
	p.put("for")
	out := "for " + p.forStatement() + " do "
	return out + p.block()
}

func (p *pgen) instruction() string {
	switch p.w.Int(9) {
	case 0:
		return p.declaration()
	case 1:
		return p.ifDeclaration()
	case 2:
		return p.forDeclaration()
	case 3:
		p.use("log")
		p.put("log")
		p.put("(")
		out := "log " + p.assignable()
		p.put(")")
		return out
	case 4:
		p.use("direction")
		k := pick(p.w.Source, "break", "continue")
		p.put(k)
		return k
	case 5:
		p.use("increment")
		out := "increment " + p.variable()
		k := pick(p.w.Source, "+", "-")
		p.put(k)
		p.put(k)
		if k == "+" {
			return out + " int 1"
		}
		return out + " int -1"
	default:
		return p.assignment()
	}
}

func (p *pgen) instructions() string {
	out := "{"
	if p.w.Chance(25) && p.weight <= 1 {
		// many short instructions
		p.use("many_instructions")
		for i := p.w.Range(9, 40); i > 0; i-- {
			k := pick(p.w.Source, "break", "continue", "")
			if k == "" {
				out += p.declaration() + "; "
				continue
			}
			p.put(k)
			out += k + "; "
		}
		return out + "}"
	}
	for i := p.w.Range(1, 4); i > 0; i-- {
		out += p.instruction() + "; "
		if p.size <= 0 {
			break
		}
	}
	return out + "}"
}

func (p *pgen) header() string {
	p.use("header")
	out := ""
	if p.w.Bool() {
		p.put("->")
		out = "in "
	} else {
		p.put("<-")
		out = "out "
	}
	out += p.declaration()
	p.put(":")
	key := pick(p.w.Source, "key", "a_b", "first_input", "_", "long_key_name", "int")
	p.put(key)
	out += " as " + key
	if p.w.Bool() {
		p.put("?")
	} else {
		out += " must"
	}
	return out
}

func (p *pgen) program() string {
	out := "program "
	if p.w.Bool() {
		n := p.w.Range(1, 3)
		if p.w.Chance(50) {
			p.use("many_headers")
			n = p.w.Range(4, 20)
		}
		for i := n; i > 0; i-- {
			out += p.header() + "; "
		}
	}
	return out + p.instructions()
}

// root writes a script for a root token
func (p *pgen) root(tok string) string {
	switch tok {
	case "program":
		return p.program()
	case "instructions":
		return p.instructions()
	case "instruction":
		return p.instruction()
	case "assignment":
		return p.assignment()
	case "forDeclaration":
		return p.forDeclaration()
	case "ifDeclaration":
		return p.ifDeclaration()
	case "assignable":
		return p.assignable()
	case "operation":
		return p.operation(false)
	case "variableDeclaration":
		return p.declaration()
	case "headerVariable":
		return p.header()
	case "declarableValue":
		return p.value()
	}
	panic("unknown root " + tok)
}

var baseRoots = []string{"program", "program", "program", "instructions", "instruction", "assignment", "forDeclaration", "ifDeclaration", "assignable", "operation", "variableDeclaration", "headerVariable", "declarableValue"}

// printing of what was parsed

func showValue(v base.Value) string {
	if v == nil {
		return "no value"
	}
	f := v.Type().Flag()
	if v.Type().Dept() != 0 {
		return fmt.Sprintf("value of dept %d", v.Type().Dept())
	}
	switch e := v.Element().(type) {
	case uint:
		if f == base.TypeIntegerFlag|base.TypeUnsignedFlag {
			return fmt.Sprint("uint ", e)
		}
	case int:
		if f == base.TypeIntegerFlag {
			return fmt.Sprint("int ", e)
		}
	case float64:
		if f == base.TypeFloatFlag {
			return "float " + strconv.FormatFloat(e, 'g', -1, 64)
		}
	case bool:
		if f == base.TypeBoolFlag {
			return fmt.Sprint("bool ", e)
		}
	case string:
		if f == base.TypeStringFlag {
			return "text " + strconv.Quote(e)
		}
	}
	return fmt.Sprintf("value of type %d: %T %v", f, v.Element(), v.Element())
}

// one says which of the options of a part is set: exactly one must be
func one(what string, flags ...bool) int {
	out := -1
	for i, f := range flags {
		if f {
			if out >= 0 {
				panic(fmt.Sprintf("%s is several things: %v", what, flags))
			}
			out = i
		}
	}
	return out
}

func showIndex(v base.IndexValue) string {
	switch one("index", v.IsValue(), v.IsVariableName()) {
	case 0:
		return showValue(v.Value())
	case 1:
		return "var " + v.VariableName()
	}
	return "no index"
}

func showListValue(v base.ListValue) string {
	switch one("list value", v.IsAssignables(), v.IsVariableName()) {
	case 0:
		return "[" + showAssignables(v.Assignables()) + "]"
	case 1:
		return "var " + v.VariableName()
	}
	return "no list value"
}

func showAssignables(v base.Assignables) string {
	out := []string{}
	for _, a := range v.All() {
		out = append(out, showAssignable(a))
	}
	if v.IsEmpty() != (len(out) == 0) {
		return fmt.Sprintf("empty %t: %v", v.IsEmpty(), out)
	}
	return strings.Join(out, "; ")
}

func showTotalList(v base.TotalListAssignable) string {
	switch one("list", v.IsListValue(), v.IsSlice(), v.IsAppend()) {
	case 0:
		return showListValue(v.ListValue())
	case 1:
		d := v.Slice().Delimiter()
		out := "slice(" + showListValue(v.Slice().List()) + " from " + showIndex(d.Index())
		if d.HasAmount() {
			out += " by " + showIndex(d.Amount())
		}
		return out + ")"
	case 2:
		return "append(" + showListValue(v.Append().List()) + " and " + showSingle(v.Append().Assignable()) + ")"
	}
	return "no list"
}

func showTotalListValue(v base.TotalListValue) string {
	switch one("list or variable", v.IsAssignable(), v.IsVariableName()) {
	case 0:
		return showTotalList(v.Assignable())
	case 1:
		return "var " + v.VariableName()
	}
	return "no list or variable"
}

func showSingle(v base.SingleAssignable) string {
	switch one("single", v.IsDeclarableValue(), v.IsOperation(), v.IsExtract(), v.IsListFetchElement()) {
	case 0:
		return showValue(v.DeclarableValue())
	case 1:
		return showOperation(v.Operation())
	case 2:
		return "all of " + showTotalList(v.Extract())
	case 3:
		f := v.ListFetchElement()
		return "item(" + showTotalListValue(f.List()) + " at " + showIndex(f.Index()) + ")"
	}
	return "no single"
}

func showAssignable(v base.Assignable) string {
	switch one("assignable", v.IsList(), v.IsSingle()) {
	case 0:
		return showTotalList(v.List())
	case 1:
		return showSingle(v.Single())
	}
	return "no assignable"
}

func showElement(v base.OperationElement) string {
	switch one("operand", v.IsBoolValue(), v.IsVariableName(), v.IsComputableValue(), v.IsOperation(), v.IsFuncCall()) {
	case 0:
		return fmt.Sprint("bool ", *v.BoolValue())
	case 1:
		return "var " + *v.VariableName()
	case 2:
		return showValue(v.ComputableValue())
	case 3:
		return showOperation(v.Operation())
	case 4:
		if !v.FuncCall().IsNull() {
			return "no function"
		}
		return "null?(" + showOperation(v.FuncCall().Null()) + ")"
	}
	return "no operand"
}

// showOperation prints an operation without the ones that only wrap another
func showOperation(v base.Operation) string {
	out := showElement(v.Element())
	if v.HasSuffix() {
		out = fmt.Sprintf("(%s op%d %s)", out, v.Suffix().Operator(), showElement(v.Suffix().Element()))
	}
	// an operation that only holds another one is optimized to it, and says the same
	opt := v
	if !v.HasSuffix() && v.Element().IsOperation() {
		opt = v.Element().Operation()
	}
	if v.Optimize() != opt {
		out += " optimized to another operation"
	}
	return out
}

// showType prints a type, and tells when it does not compare as it should with its neighbours
func showType(t base.Type) string {
	out := fmt.Sprintf("%d/%d", t.Flag(), t.Dept())
	for _, flag := range []uint8{base.TypeUnsignedFlag | base.TypeIntegerFlag, base.TypeIntegerFlag, base.TypeFloatFlag, base.TypeStringFlag, base.TypeBoolFlag} {
		for dept := uint(0); dept < 3; dept++ {
			o, err := base.NewTypeBuilder().Create().WithFlag(flag).WithDept(dept).Now()
			if err != nil {
				out += " unbuilt: " + err.Error()
				continue
			}
			same := flag == t.Flag() && dept == t.Dept()
			if (t.Compare(o) == nil) != same || (o.Compare(t) == nil) != same {
				out += fmt.Sprintf(" compared to %d/%d as another", flag, dept)
			}
		}
	}
	return out
}

func showDeclaration(v base.VariableDeclaration) string {
	return fmt.Sprintf("declare %s %s", showType(v.Type()), v.Name())
}

func showAssignee(v base.AssigneeName) string {
	switch one("assignee", v.IsSkip(), v.IsVariable()) {
	case 0:
		return "skip"
	case 1:
		return "var " + v.Variable()
	}
	return "no assignee"
}

func showAssignment(v base.Assignment) string {
	out := ""
	a := v.Assignee()
	switch one("assignees", a.IsFirst(), a.IsName()) {
	case 0:
		out = "first "
		for _, n := range a.First().All() {
			switch one("first", n.IsDeclaration(), n.IsAssigneeName()) {
			case 0:
				out += showDeclaration(n.Declaration())
			case 1:
				out += showAssignee(n.AssigneeName())
			}
			out += ", "
		}
	case 1:
		out = "again "
		for _, n := range a.Name().All() {
			out += showAssignee(n) + ", "
		}
	}
	return out + ":= " + showAssignables(v.Assignables())
}

func showIf(v base.IfDeclaration) string {
	out := "if " + showOperation(v.Condition()) + " do "
	if !v.HasInstructions() {
		return out + "nothing"
	}
	return out + showInstructions(v.Instructions())
}

func showFor(v base.ForDeclaration) string {
	s := v.Statement()
	out := "for " + showAssignee(s.Index()) + " and " + showAssignee(s.Value()) + " in " + showTotalListValue(s.Iterable()) + " do "
	if !v.HasInstructions() {
		return out + "nothing"
	}
	return out + showInstructions(v.Instructions())
}

func showInstruction(v base.Instruction) string {
	switch one("instruction", v.IsAssignment(), v.IsVariableDeclaration(), v.IsIfDeclaration(), v.IsForDeclaration(), v.IsFuncCall(), v.IsDirection(), v.IsIntIncrement()) {
	case 0:
		return showAssignment(v.Assignment())
	case 1:
		return showDeclaration(v.VariableDeclaration())
	case 2:
		return showIf(v.IfDeclaration())
	case 3:
		return showFor(v.ForDeclaration())
	case 4:
		if !v.FuncCall().IsLog() {
			return "no function"
		}
		return "log " + showAssignable(v.FuncCall().Log())
	case 5:
		return []string{"no direction", "break", "continue"}[1+one("direction", v.Direction().IsBreak(), v.Direction().IsContinue())]
	case 6:
		return "increment " + v.IntIncrement().VariableName() + " " + showValue(v.IntIncrement().Increment())
	}
	return "no instruction"
}

func showInstructions(v base.Instructions) string {
	out := "{"
	for _, i := range v.All() {
		out += showInstruction(i) + "; "
	}
	return out + "}"
}

func showHeader(v base.HeaderVariable) string {
	out := "out "
	if v.IsInput() {
		out = "in "
	}
	out += showDeclaration(v.Declaration()) + " as " + v.Keyname()
	if v.IsMandatory() {
		out += " must"
	}
	return out
}

func showProgram(v interface{}) string {
	switch v := v.(type) {
	case base.Program:
		out := "program "
		if v.HasVariables() {
			for _, h := range v.Variables().All() {
				out += showHeader(h) + "; "
			}
		}
		return out + showInstructions(v.Instructions())
	case base.Instructions:
		return showInstructions(v)
	case base.Instruction:
		return showInstruction(v)
	case base.Assignment:
		return showAssignment(v)
	case base.ForDeclaration:
		return showFor(v)
	case base.IfDeclaration:
		return showIf(v)
	case base.Assignable:
		return showAssignable(v)
	case base.Operation:
		return showOperation(v)
	case base.VariableDeclaration:
		return showDeclaration(v)
	case base.HeaderVariable:
		return showHeader(v)
	case base.Value:
		return showValue(v)
	}
	return fmt.Sprintf("%T", v)
}
