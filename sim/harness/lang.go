//go:build go1.23

package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/steve-care-software/steve/applications/languages/lexers"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts/mistakes"
	asts_paths "github.com/steve-care-software/steve/domain/languages/lexers/asts/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	"github.com/steve-care-software/steve/domain/languages/lexers/contents"
	lpaths "github.com/steve-care-software/steve/domain/languages/lexers/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/references"
	rescontainers "github.com/steve-care-software/steve/domain/languages/lexers/resources/containers"
	resmultiples "github.com/steve-care-software/steve/domain/languages/lexers/resources/multiples"
	respaths "github.com/steve-care-software/steve/domain/languages/lexers/resources/paths"
	ressingles "github.com/steve-care-software/steve/domain/languages/lexers/resources/singles"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
	"github.com/steve-care-software/steve/domain/languages/lexers/suites"
)

// ---- grammars with a known language ----

const (
	lWord = "abcdefgh"
	lNum  = "0123456789"
)

type lrule struct {
	name     string
	konst    string // a constant, or
	class    string // one or more characters of the class, or
	quote    bool   // some text between quotes, or
	mix      []int  // patterns, of which the first that matches is taken
	min, max int    // so many times
	cut      bool   // the text is kept in pieces
}

type lelem struct {
	rule     string // a rule, or
	tok      string // a token, or
	toggle   bool   // a switch of the channels
	card     string
	min, max int
	spec     string // how many of these the token must contain
	smin     int
	smax     int
}

type ltok struct {
	name  string
	lines [][]lelem
	not   string // the token must not look like this rule
	open  bool   // ends with a run of characters
	tests []string
	bad   []bool // what the test lines are expected to be
	g     *lgram // where its rules and tokens are
}

// lpats are the patterns of a grammar; the files it includes use them too
type lpats struct {
	word string
	mix  [][][]string // the groups of every pattern of mixed rules, every group has its options
}

type lgram struct {
	pats  lpats
	rules []*lrule
	ruleM map[string]*lrule
	toks  []*ltok
	tokM  map[string]*ltok
	chans []string // kinds of channels: space, blank, remark
	head  string   // references
	first string   // what constants start with
	reps  int      // replacements of tokens of the libraries
}

// lnode is a node of the expected tree
type lnode struct {
	name string
	line int
	kids []*lkid
}

type lkid struct {
	rule, text string
	tok        string
	list       []*lnode
	count      int // how often it was read, in the trees of the model
}

func (n *lnode) dump(sb *strings.Builder) {
	fmt.Fprintf(sb, "%s#%d(", n.name, n.line)
	for _, k := range n.kids {
		if k.rule != "" {
			fmt.Fprintf(sb, "%s:%q ", k.rule, k.text)
			continue
		}
		sb.WriteString(k.tok + "[")
		for _, c := range k.list {
			c.dump(sb)
		}
		sb.WriteString("] ")
	}
	sb.WriteString(")")
}

func (n *lnode) String() string {
	sb := &strings.Builder{}
	n.dump(sb)
	return sb.String()
}

const lFirsts = "ABCDEFGHIJKLMNOPQRSTUVWXYZ()[]=!&%/^~_"

func (g *lgram) addConst(w *W) string {
	n := 0
	for _, r := range g.rules {
		if r.konst != "" {
			n++
		}
	}
	text := string(g.first[n%len(g.first)])
	if w.Chance(300) {
		for i := w.Range(1, 2); i > 0; i-- {
			text += string("ijklmnop"[w.Int(8)])
		}
	}
	r := &lrule{name: "K_" + lname(n), konst: text}
	g.rules = append(g.rules, r)
	g.ruleM[r.name] = r
	return r.name
}

func lname(n int) string {
	s := ""
	for {
		s = string(rune('A'+n%26)) + s
		n = n/26 - 1
		if n < 0 {
			return s
		}
	}
}

func (g *lgram) full() bool {
	n := 0
	for _, r := range g.rules {
		if r.konst != "" {
			n++
		}
	}
	return n+2 >= len(g.first)
}

func (g *lgram) tokName(i int) string { return g.toks[i].name }

// newGram draws a grammar: every alternative starts with its own constant and
// everything of variable length is followed by its own constant, so that what
// a script means is not a matter of opinion
func newGram(w *W, prefix string) *lgram { return newGramOf(w, prefix, lFirsts) }

func newGramOf(w *W, prefix, first string, flat ...bool) *lgram {
	g := &lgram{first: first, ruleM: map[string]*lrule{}, tokM: map[string]*ltok{}}
	g.pats = drawPats(w)
	kinds := []string{"WORD", "NUM"}
	more := []*lrule{{name: "WORD", class: lWord}, {name: "NUM", class: lNum}}
	if w.Chance(300) {
		more = append(more, &lrule{name: "QUOTED", quote: true})
	}
	for i := w.Int(3); i > 0; i-- {
		r := &lrule{name: "MIX_" + lname(i), cut: true, min: 1, max: w.Range(1, 3)}
		for k := w.Range(1, 3); k > 0; k-- {
			r.mix = append(r.mix, w.Int(len(g.pats.mix)))
		}
		r.min = w.Range(1, r.max)
		if w.Bool() {
			r.max = 1 << 30
		}
		more = append(more, r)
	}
	for _, r := range more {
		g.rules = append(g.rules, r)
		g.ruleM[r.name] = r
		if r.class == "" {
			kinds = append(kinds, r.name)
		}
	}
	n := w.Range(2, 6)
	for i := 0; i < n; i++ {
		t := &ltok{g: g, name: prefix + "t" + strings.ToLower(lname(i))}
		g.toks = append(g.toks, t)
		g.tokM[t.name] = t
	}
	g.toks[n-1].open = w.Chance(700)
	for i, t := range g.toks {
		leaf := i == n-1
		lines := w.Range(1, 3)
		if t.open {
			// a leaf that is just a word or a number
			t.lines = [][]lelem{{{rule: pick(w.Source, "WORD", "NUM"), min: 1, max: 1}}}
			continue
		}
		for l := 0; l < lines && !g.full(); l++ {
			line := []lelem{{rule: g.addConst(w), min: 1, max: 1}}
			sw := w.Chance(150)
			if sw {
				line = append([]lelem{{toggle: true}}, line...)
			}
			for e := w.Int(4); e > 0 && !g.full(); e-- {
				var el lelem
				switch {
				case !leaf && w.Chance(600):
					el = lelem{tok: g.tokName(w.Range(i+1, n-1))}
					if l > 0 && len(flat) == 0 && w.Chance(250) {
						el.tok = g.tokName(w.Int(n))
					}
				case w.Chance(600):
					el = lelem{rule: kinds[w.Int(len(kinds))], min: 1, max: 1}
					line = append(line, el, lelem{rule: g.addConst(w), min: 1, max: 1})
					continue
				default:
					el = lelem{rule: g.addConst(w)}
				}
				el.min, el.max = 1, 1
				kinds := 6
				if el.tok != "" && g.tokM[el.tok].open {
					kinds = 2
				}
				switch w.Int(kinds) {
				case 1:
					el.card, el.min, el.max = "?", 0, 1
				case 2:
					el.card, el.min, el.max = "*", 0, 1<<30
				case 3:
					el.card, el.min, el.max = "+", 1, 1<<30
				case 4:
					k := w.Range(1, 3)
					el.card, el.min, el.max = fmt.Sprintf("{%d}", k), k, k
				case 5:
					a := w.Range(0, 2)
					b := a + w.Range(1, 2)
					el.card, el.min, el.max = fmt.Sprintf("{%d,%d}", a, b), a, b
				}
				line = append(line, el, lelem{rule: g.addConst(w), min: 1, max: 1})
			}
			if sw {
				line = append(line, lelem{toggle: true})
			}
			t.lines = append(t.lines, line)
		}
		if len(t.lines) == 0 {
			t.lines = [][]lelem{{{rule: "NUM", min: 1, max: 1}}}
			t.open = true
		}
	}
	for _, t := range g.toks {
		for _, l := range t.lines {
			for i := range l {
				if e := &l[i]; e.tok != "" && g.tokM[e.tok].open && (e.min != 1 || e.max != 1) && e.card != "?" {
					e.card, e.min, e.max = "", 1, 1
				}
			}
		}
	}
	for _, c := range []string{"space", "blank", "remark"} {
		if w.Chance(400) {
			g.chans = append(g.chans, c)
		}
	}
	if len(g.chans) > 1 && w.Bool() {
		g.chans[0], g.chans[1] = g.chans[1], g.chans[0]
	}
	return g
}

func commaList(s string) string { return strings.Join(strings.Split(s, ""), ",") }

// drawPats draws the patterns of a grammar
func drawPats(w *W) lpats {
	p := lpats{word: pick(w.Source, lWord, lWord, "abcd", "efgh", "abdgh", "h")}
	for i := 0; i < 3; i++ {
		groups := [][]string{}
		for k := w.Range(1, 2); k > 0; k-- {
			opts := []string{}
			for o := w.Range(1, 3); o > 0; o-- {
				text := string(lWord[w.Int(4)])
				if w.Chance(400) {
					text += string(lWord[w.Int(4)])
				}
				opts = append(opts, text)
			}
			groups = append(groups, opts)
		}
		p.mix = append(p.mix, groups)
	}
	return p
}

func (p lpats) script() string {
	sb := &strings.Builder{}
	sb.WriteString("word: WORD;\nnum: NUM;\nwhite: WHITE;\nremark_text: LT @GT GT;\nquoted: QUOTE @QUOTE QUOTE;\n")
	for i := range p.mix {
		fmt.Fprintf(sb, "p%s: P_%s;\n", strings.ToLower(lname(i)), lname(i))
	}
	sb.WriteString("\nWORD: $WORD;\nNUM: $NUM;\nWHITE: $WHITE;\nLT: $LT;\nGT: $GT;\nQUOTE: $QUOTE;\n")
	for i, groups := range p.mix {
		fmt.Fprintf(sb, "P_%s:", lname(i))
		for k := range groups {
			fmt.Fprintf(sb, " $P_%s_%s", lname(i), lname(k))
		}
		sb.WriteString(";\n")
	}
	fmt.Fprintf(sb, "\n$WORD: %q;\n$NUM: %q;\n$WHITE: \" ,.,\n\";\n$LT: \"<\";\n$GT: \">\";\n$QUOTE: \"'\";\n", commaList(p.word), commaList(lNum))
	for i, groups := range p.mix {
		for k, opts := range groups {
			fmt.Fprintf(sb, "$P_%s_%s: \"%s\";\n", lname(i), lname(k), strings.Join(opts, ","))
		}
	}
	return sb.String()
}

// read reads text by a rule of patterns: at every place the first pattern that
// matches is taken, every group takes its longest option
func (p lpats) read(r *lrule, text string) (parts []string, count int) {
	for count < r.max {
		ok := false
		for _, m := range r.mix {
			var got []string
			rest := text
			for _, opts := range p.mix[m] {
				best := 0
				for _, o := range opts {
					if strings.HasPrefix(rest, o) && len(o) > best {
						best = len(o)
					}
				}
				if best == 0 {
					got = nil
					break
				}
				got = append(got, rest[:best])
				rest = rest[best:]
			}
			if got != nil {
				parts, text, ok = append(parts, got...), rest, true
				break
			}
		}
		if !ok {
			break
		}
		count++
	}
	return parts, count
}

// text draws what a rule reads, in pieces
func (p lpats) text(w *W, r *lrule) []string {
	switch {
	case r.konst != "":
		return []string{r.konst}
	case r.quote:
		s := ""
		for i := w.Range(1, 4); i > 0; i-- {
			s += string("abAB19 .<>K"[w.Int(11)])
		}
		return []string{"'" + s + "'"}
	case r.mix != nil:
		for try := 0; ; try++ {
			max := r.max
			if max > r.min+2 {
				max = r.min + 2
			}
			text := ""
			for i := w.Range(r.min, max); i > 0; i-- {
				m := r.mix[w.Int(len(r.mix))]
				if try > 20 {
					m = r.mix[0]
				}
				for _, opts := range p.mix[m] {
					o := opts[w.Int(len(opts))]
					for _, x := range opts {
						if try > 20 && len(x) > len(o) {
							o = x
						}
					}
					text += o
				}
			}
			parts, count := p.read(r, text+"#")
			if strings.Join(parts, "") == text && count >= r.min {
				return parts
			}
		}
	}
	class := r.class
	if r.name == "WORD" {
		class = p.word
	}
	text := ""
	for j := w.Range(1, 3); j > 0; j-- {
		text += string(class[w.Int(len(class))])
	}
	if text == "bad" {
		text = "b"
	}
	return []string{text}
}

const lChanRules = `SPACES: [white]+;
BLANK: [white]{1};
REMARK: [remark_text]{1};
`

func (g *lgram) rulesScript() string {
	sb := &strings.Builder{}
	for _, r := range g.rules {
		if r.konst != "" {
			fmt.Fprintf(sb, "%s: \"%s\";\n", r.name, r.konst)
			continue
		}
		if r.mix != nil {
			names := []string{}
			for _, m := range r.mix {
				names = append(names, "p"+strings.ToLower(lname(m)))
			}
			fmt.Fprintf(sb, "%s: [%s]", r.name, strings.Join(names, " "))
			switch {
			case r.max < 1<<30 && r.min == r.max:
				fmt.Fprintf(sb, "{%d};\n", r.min)
			case r.max < 1<<30:
				fmt.Fprintf(sb, "{%d,%d};\n", r.min, r.max)
			case r.min == 1:
				sb.WriteString("+;\n")
			default:
				fmt.Fprintf(sb, "{%d,};\n", r.min)
			}
			continue
		}
		if r.quote {
			fmt.Fprintf(sb, "%s: [quoted]{1};\n", r.name)
			continue
		}
		fmt.Fprintf(sb, "%s: [%s]+;\n", r.name, strings.ToLower(r.name))
	}
	sb.WriteString(lChanRules)
	return sb.String()
}

func (g *lgram) tokensScript() string {
	sb := &strings.Builder{}
	sb.WriteString(g.head)
	for _, t := range g.toks {
		sb.WriteString(t.name + "\n\t: ")
		for i, l := range t.lines {
			if i > 0 {
				sb.WriteString("\n\t| ")
			}
			for j, e := range l {
				if j > 0 {
					sb.WriteString(" ")
				}
				switch {
				case e.toggle:
					sb.WriteString("#")
				default:
					sb.WriteString(e.rule + e.tok + e.card)
					if e.spec != "" {
						fmt.Fprintf(sb, "->%s%s<-", e.spec, specText(e.smin, e.smax))
					}
				}
			}
		}
		if t.not != "" {
			sb.WriteString("\n\t--- : " + t.not)
		}
		if len(t.tests) > 0 {
			sb.WriteString("\n\t+++ :")
			for i, s := range t.tests {
				if i > 0 {
					sb.WriteString("###")
				}
				sb.WriteString(s)
			}
		}
		sb.WriteString("\n\t;\n")
	}
	return sb.String()
}

func (g *lgram) channelsScript() string {
	sb := &strings.Builder{}
	for _, c := range g.chans {
		switch c {
		case "space":
			sb.WriteString("space\n\t: SPACES\n\t;\n")
		case "blank":
			sb.WriteString("blank\n\t: BLANK\n\t;\n")
		case "remark":
			sb.WriteString("remark\n\t: REMARK\n\t;\n")
		}
	}
	return sb.String()
}

// gap is a piece of channel text
func (g *lgram) gap(w *W) string {
	s := ""
	for len(g.chans) > 0 && w.Chance(350) && len(s) < 12 {
		switch g.chans[w.Int(len(g.chans))] {
		case "remark":
			s += "<"
			for i := w.Range(1, 4); i > 0; i-- {
				s += string("abc19 .AB"[w.Int(9)])
			}
			s += ">"
		default:
			s += string(" .\n"[w.Int(3)])
		}
	}
	return s
}

type lderive struct {
	w      *W
	g      *lgram
	out    *strings.Builder
	left   int
	off    int // how many pairs of switches are open; a gap is certain with none, its absence with one
	spoil  int // the gap that is put where channels are switched off
	spoilt bool
	harm   int // the mandatory element that is left out
	harmed bool
	any    bool // the tokens may contain themselves in any line
}

// derive draws a script of the token and the tree it stands for
func (g *lgram) derive(w *W, tok string, size int) (string, *lnode) {
	for try := 0; try < 4; try++ {
		d := &lderive{w: w, g: g, out: &strings.Builder{}, left: size}
		if n := d.token(g.tokM[tok], 0); d.out.Len() <= 90 {
			return d.out.String(), n
		}
		size = 0
	}
	return "", nil
}

// deriveSpoilt draws a script with channel text where the channels are off
func (g *lgram) deriveSpoilt(w *W, tok string, size int) (string, *lnode) {
	d := &lderive{w: w, g: g, out: &strings.Builder{}, left: size, spoil: 1 + w.Int(2)}
	n := d.token(g.tokM[tok], 0)
	if !d.spoilt || d.out.Len() > 90 {
		return "", nil
	}
	return d.out.String(), n
}

// deriveHarmed draws a script without one of its mandatory elements
func (g *lgram) deriveHarmed(w *W, tok string, size int) string {
	d := &lderive{w: w, g: g, out: &strings.Builder{}, left: size, harm: 1 + w.Int(4)}
	d.token(g.tokM[tok], 0)
	if !d.harmed || d.out.Len() > 90 {
		return ""
	}
	return d.out.String()
}

func (d *lderive) gap(first bool) {
	if d.off == 1 && !first && d.spoil > 0 && len(d.g.chans) > 0 {
		if d.spoil--; d.spoil == 0 {
			d.out.WriteString(map[string]string{"space": " ", "blank": ".", "remark": "<a>"}[d.g.chans[0]])
			d.spoilt = true
		}
	}
	if d.off == 0 || d.any && d.w.Chance(200) {
		d.out.WriteString(d.g.gap(d.w))
	}
}

func (d *lderive) token(t *ltok, depth int) *lnode {
	if d.any && (depth > 8 || d.out.Len() > 60) {
		return nil
	}
	line := 0
	if depth < 6 && d.left > 0 {
		line = d.w.Int(len(t.lines))
	}
	n := &lnode{name: t.name, line: line}
	open := 0
	seen := 0
	for _, e := range t.lines[line] {
		if e.toggle {
			open = 1 - open
			d.off += 2*open - 1
			seen = 0
			continue
		}
		seen++
		max := e.max
		if max > e.min+2 {
			max = e.min + 2
		}
		count := e.min
		if depth < 6 && d.left > 0 {
			count = d.w.Range(e.min, max)
		}
		if count == 0 {
			continue
		}
		if e.rule != "" {
			r := t.g.ruleM[e.rule]
			d.gap(seen == 1)
			if d.harm > 0 && seen > 1 && e.min > 0 && count == e.min {
				if d.harm--; d.harm == 0 {
					d.harmed = true
					count--
				}
			}
			text, pieces := "", ""
			for i := 0; i < count; i++ {
				parts := d.g.pats.text(d.w, r)
				text += strings.Join(parts, "")
				pieces += strings.Join(parts, "|")
			}
			d.left--
			d.out.WriteString(text)
			if r.cut {
				text = pieces
			}
			n.kids = append(n.kids, &lkid{rule: e.rule, text: text})
			continue
		}
		k := &lkid{tok: t.g.tokM[e.tok].name}
		for i := 0; i < count; i++ {
			if i == 0 {
				d.gap(seen == 1)
			}
			k.list = append(k.list, d.token(t.g.tokM[e.tok], depth+1))
		}
		n.kids = append(n.kids, k)
	}
	d.off -= open
	return n
}

// ---- reading the answers ----

func chanRule(name string) bool { return name == "SPACES" || name == "BLANK" || name == "REMARK" }

// shapeOf is the tree of an AST without the text of the channels
func shapeOf(t asts.Token) *lnode {
	m := t.Match()
	n := &lnode{name: t.Name(), line: int(m.Index())}
	if !m.HasMatches() {
		return n
	}
	for _, x := range m.Matches() {
		if x.IsToken() {
			k := &lkid{tok: x.Token().Token()}
			for _, y := range x.Token().Matches() {
				k.list = append(k.list, shapeOf(y))
			}
			n.kids = append(n.kids, k)
			continue
		}
		if chanRule(x.Rule().Rule()) {
			continue
		}
		text := x.Rule().Result().Discoveries().Content()
		if strings.HasPrefix(x.Rule().Rule(), "MIX_") {
			parts := []string{}
			for _, d := range x.Rule().Result().Discoveries().All() {
				parts = append(parts, d.Content())
			}
			text = strings.Join(parts, "|")
		}
		n.kids = append(n.kids, &lkid{rule: x.Rule().Rule(), text: text})
	}
	return n
}

func printAST(t asts.Token) string {
	sb := &strings.Builder{}
	var rec func(t asts.Token)
	rec = func(t asts.Token) {
		m := t.Match()
		fmt.Fprintf(sb, "%s#%d %q %q %q(", t.Name(), m.Index(), t.Prefix(), t.Discovery(), t.Suffix())
		if m.HasMatches() {
			for _, x := range m.Matches() {
				if x.IsToken() {
					fmt.Fprintf(sb, "%s%q[", x.Token().Token(), x.Token().Discoveries())
					for _, y := range x.Token().Matches() {
						rec(y)
					}
					sb.WriteString("] ")
					continue
				}
				r := x.Rule().Result()
				fmt.Fprintf(sb, "%s:%q/%q/%q/", x.Rule().Rule(), r.Input(), r.Prefix(), r.Suffix())
				for _, d := range r.Discoveries().All() {
					fmt.Fprintf(sb, "%q@%d,", d.Content(), d.Index())
				}
				sb.WriteString(" ")
			}
		}
		sb.WriteString(")")
	}
	rec(t)
	return sb.String()
}

func printRoot(r roots.Root) string {
	if r == nil {
		return "nil"
	}
	sb := &strings.Builder{}
	var rec func(r roots.Root)
	rec = func(r roots.Root) {
		fmt.Fprintf(sb, "%s %q{", r.Name(), r.Content())
		all := r.Nodes().All()
		for _, k := range sortedKeys(all) {
			n := all[k]
			fmt.Fprintf(sb, "%s/%s=", k, n.Name())
			for _, c := range n.Containers().List() {
				fmt.Fprintf(sb, "%s %q ", c.Name(), c.Content())
				if c.HasRoot() {
					rec(c.Root())
				}
				sb.WriteString(",")
			}
			sb.WriteString(";")
		}
		sb.WriteString("}")
	}
	rec(r)
	return sb.String()
}

// rootOf is the instance that stands for an AST, as printRoot prints it
func rootOf(t asts.Token) string {
	sb := &strings.Builder{}
	var rec func(t asts.Token)
	rec = func(t asts.Token) {
		if !t.Match().HasMatches() {
			return
		}
		fmt.Fprintf(sb, "%s %q{", t.Name(), t.Discovery())
		type cont struct {
			content string
			tok     asts.Token
		}
		nodes := map[string][]cont{}
		for _, x := range t.Match().Matches() {
			if x.IsToken() {
				for _, y := range x.Token().Matches() {
					nodes[x.Token().Token()] = append(nodes[x.Token().Token()], cont{y.Discovery(), y})
				}
				continue
			}
			nodes[x.Rule().Rule()] = append(nodes[x.Rule().Rule()], cont{x.Rule().Result().Discoveries().Content(), nil})
		}
		for _, k := range sortedKeys(nodes) {
			fmt.Fprintf(sb, "%s/%s=", k, k)
			for _, c := range nodes[k] {
				fmt.Fprintf(sb, "%s %q ", k, c.content)
				if c.tok != nil {
					rec(c.tok)
				}
				sb.WriteString(",")
			}
			sb.WriteString(";")
		}
		sb.WriteString("}")
	}
	rec(t)
	return sb.String()
}

func printCard(c cardinality.Cardinality) string {
	if c == nil {
		return "-"
	}
	min, max := c.Delimiter()
	s := fmt.Sprintf("{%d,", min)
	if max != nil {
		s += strconv.Itoa(int(*max))
	}
	return s + "}"
}

func printSpecific(c cardinality.Specific) string {
	if c == nil {
		return "-"
	}
	min, max := c.Delimiter()
	s := fmt.Sprintf("{%d,", min)
	if max != nil {
		s += strconv.Itoa(int(*max))
	}
	return s + "}"
}

func printMistake(m mistakes.Mistake) string {
	i, p, c := m.Index(), m.Path(), m.Content()
	s := fmt.Sprintf("%d:%d:%d %v", i.Index(), i.Line(), i.Column(), p.Parents())
	if p.Container().IsRule() {
		s += " rule " + p.Container().Rule()
	}
	if p.Container().IsToken() {
		s += " token " + p.Container().Token()
	}
	switch {
	case c.IsTokenHasNoMatch():
		s += " no match"
	case c.IsContainsValidNotMatch():
		s += fmt.Sprintf(" not %d", c.ContainsValidNotMatch().Line())
	case c.IsSpecifierDoNotMatch():
		x := c.SpecifierDoNotMatch()
		s += fmt.Sprintf(" specifier %s %s %d", x.ContainerName(), printSpecific(x.Cardinality()), x.Amount())
	case c.IsContainsNextElement():
		x := c.ContainsNextElement().NextElement()
		if x.IsConstant() {
			s += " next " + x.Constant()
		} else {
			s += " next pattern " + x.Pattern().Name()
		}
	case c.IsCardinalityIsInvalid():
		x := c.CardinalityIsInvalid()
		s += fmt.Sprintf(" card %s %d", printCard(x.Cardinality()), x.Amount())
	case c.IsContainsPrefix():
		s += fmt.Sprintf(" prefix %q", c.ContainsPrefix().Prefix())
	}
	return s
}

func printElement(e asts_paths.Element, depth int) string {
	sb := &strings.Builder{}
	printElementTo(sb, e, depth)
	return sb.String()
}

func printElementTo(sb *strings.Builder, e asts_paths.Element, depth int) {
	sb.WriteString(e.Name())
	if depth <= 0 || sb.Len() > 20000 {
		return
	}
	lines := func(list []asts_paths.Line) {
		for i, l := range list {
			if i > 0 {
				sb.WriteString("|")
			}
			for _, ins := range l.Instructions() {
				if ins.IsChannelSwitch() {
					sb.WriteString("# ")
					continue
				}
				c := ins.Container()
				switch {
				case c.IsRule():
					sb.WriteString(c.Rule().Base().Name() + printCard(c.Rule().Cardinality()))
				case c.IsRecursive():
					sb.WriteString("^" + c.Recursive().Name() + printCard(c.Recursive().Cardinality()))
				case c.IsToken():
					printElementTo(sb, c.Token().Path().Element(), depth-1)
					sb.WriteString(printCard(c.Token().Cardinality()))
				}
				sb.WriteString(" ")
			}
		}
	}
	sb.WriteString("(")
	lines(e.Must())
	if e.HasNot() {
		sb.WriteString("---")
		lines(e.Not())
	}
	sb.WriteString(")")
}

func printPath(p asts_paths.Path) string {
	deps := []string{}
	for _, e := range p.Dependencies().All() {
		deps = append(deps, printElement(e, 2))
	}
	sort.Strings(deps)
	return printElement(p.Element(), 5) + " deps " + strings.Join(deps, " ")
}

func printTokens(ts tokens.Tokens) string {
	sb := &strings.Builder{}
	lines := func(ls tokens.Lines) {
		for _, l := range ls.All() {
			for _, i := range l.Instructions() {
				if i.IsChannelSwitch() {
					sb.WriteString("# ")
					continue
				}
				e := i.Element()
				sb.WriteString(e.Content().Name())
				if e.HasCardinality() {
					sb.WriteString(printCard(e.Cardinality()))
				}
				sb.WriteString(" ")
			}
			sb.WriteString("|")
		}
	}
	for _, t := range ts.All() {
		sb.WriteString(t.Name() + "(")
		lines(t.Block().Must())
		if t.Block().HasNot() {
			sb.WriteString("---")
			lines(t.Block().Not())
		}
		if t.HasTestSuite() {
			fmt.Fprintf(sb, "+++%q", t.TestSuite().Lines())
		}
		sb.WriteString(")")
	}
	return sb.String()
}

func printSuites(list []suites.Suite) string {
	sb := &strings.Builder{}
	for _, s := range list {
		sb.WriteString(s.Name())
		for _, l := range s.Lines() {
			fmt.Fprintf(sb, " %d:%t", l.Index(), l.IsSuccess())
		}
		sb.WriteString(";")
	}
	return sb.String()
}

func printRefs(r references.References) string {
	sb := &strings.Builder{}
	if r.HasReferences() {
		for _, l := range r.References().All() {
			fmt.Fprintf(sb, "ref %s=%s.%s(%s;%s) ", l.LocalToken(), l.Include().Name(), l.ReferenceToken(), l.Include().Paths().Rules(), l.Include().Paths().Tokens())
		}
	}
	if r.HasReplacements() {
		for _, l := range r.Replacements().All() {
			fmt.Fprintf(sb, "rep %s.%s=%s ", l.Include().Name(), l.ReferenceToken(), l.LocalToken())
		}
	}
	return sb.String()
}

// ---- calls ----

// lres is what a lexer is given
type lres struct {
	patterns, rules, tokens, channels, root string
	content                                 string
	prefix, suffix                          bool
	again                                   func() string // prints the last answer again
}

func mustOK[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

func newLexer(dir string) lexers.Application {
	p := mustOK(lpaths.NewBuilder().Create().WithRules(dir + "/rules").WithTokens(dir + "/tokens").WithChannels(dir + "/channels").Now())
	return mustOK(lexers.NewBuilder().Create().WithBasePaths(p).Now())
}

func (r *lres) container() (rescontainers.Container, error) {
	return rescontainers.NewBuilder().Create().WithPatterns(r.patterns).WithRules(r.rules).WithTokens(r.tokens).Now()
}

func (r *lres) multiple() (resmultiples.Multiple, error) {
	c, err := r.container()
	if err != nil {
		return nil, err
	}
	b := resmultiples.NewBuilder().Create().WithContainer(c)
	if r.channels != "" {
		b.WithChannels(r.channels)
	}
	return b.Now()
}

func (r *lres) single() (ressingles.Single, error) {
	m, err := r.multiple()
	if err != nil {
		return nil, err
	}
	return ressingles.NewBuilder().Create().WithRootToken(r.root).WithMultiple(m).Now()
}

func (r *lres) cnt() (contents.Content, error) {
	b := contents.NewBuilder().Create().WithContent(r.content)
	if r.prefix {
		b.IsPrefixLegal()
	}
	if r.suffix {
		b.IsSuffixLegal()
	}
	return b.Now()
}

var lexOps = []string{"AST", "Root", "Path", "Tokens", "Tests", "References"}

// call makes one call and prints its answer
func (r *lres) call(app lexers.Application, op string) (out string, ast asts.AST, root roots.Root) {
	r.again = nil
	keep := func(f func() string) string {
		r.again = f
		return f()
	}
	s, err := r.single()
	if err != nil {
		return "resource error: " + err.Error(), nil, nil
	}
	m := s.Multiple()
	switch op {
	case "AST":
		c, err := r.cnt()
		if err != nil {
			return "content error: " + err.Error(), nil, nil
		}
		a, err := app.AST(s, c)
		if err != nil {
			return "error: " + err.Error(), nil, nil
		}
		if a.IsMistake() {
			return keep(func() string { return "mistake: " + printMistake(a.Mistake()) }), a, nil
		}
		return keep(func() string { return "ast: " + printAST(a.Success()) }), a, nil
	case "Root":
		c, err := r.cnt()
		if err != nil {
			return "content error: " + err.Error(), nil, nil
		}
		rt, mis, err := app.Root(s, c)
		if err != nil {
			return "error: " + err.Error(), nil, nil
		}
		if mis != nil {
			return keep(func() string { return "mistake: " + printMistake(mis) }), nil, nil
		}
		return keep(func() string { return "root: " + printRoot(rt) }), nil, rt
	case "Path":
		p, err := respaths.NewBuilder().Create().WithRootToken(r.root).WithContainer(m.Container()).Now()
		if err != nil {
			return "resource error: " + err.Error(), nil, nil
		}
		x, err := app.Path(p)
		if err != nil {
			return "error: " + err.Error(), nil, nil
		}
		return keep(func() string { return "path: " + printPath(x) }), nil, nil
	case "Tokens":
		x, err := app.Tokens(m.Container())
		if err != nil {
			return "error: " + err.Error(), nil, nil
		}
		return keep(func() string { return "tokens: " + printTokens(x) }), nil, nil
	case "Tests":
		x, err := app.Tests(m)
		if err != nil {
			return "error: " + err.Error(), nil, nil
		}
		return keep(func() string { return "tests: " + printSuites(x) }), nil, nil
	case "References":
		x, err := app.References(m.Container().Tokens())
		if err != nil {
			return "error: " + err.Error(), nil, nil
		}
		return keep(func() string { return "references: " + printRefs(x) }), nil, nil
	}
	panic("unknown op " + op)
}
