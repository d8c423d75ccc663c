//go:build go1.23

package main

import (
	"fmt"
	"strings"
)

// ---- a small reader of grammars, to compare the real one with ----
//
// A token is the longest of its lines at a place (the first of those that are
// as long), its elements read as much as their cardinality lets them, text of
// the channels may stand before every element while they are on, and a token
// is not what its not block reads.

type lmodel struct {
	g     *lgram
	text  string
	steps int // what the reading costs
	max   int
	memo  map[lmkey]*lmtok
	busy  map[lmkey]bool
	deep  int  // how many elements with specifiers are read inside of each other, each multiplies the cost
	vague bool // text between quotes or a remark is empty or does not end
	left  bool // a token was reached again at the same place
}

type lmkey struct {
	tok *ltok
	at  int
	on  bool
}

// lmtok is what a token reads at a place
type lmtok struct {
	ok    bool
	end   int
	node  *lnode
	steps int
	deep  int
}

type lmblock struct {
	end  int
	ok   bool
	kid  *lkid
	none bool // nothing to read here
}

func newModel(g *lgram, text string, max int) *lmodel {
	return &lmodel{g: g, text: text, max: max, memo: map[lmkey]*lmtok{}, busy: map[lmkey]bool{}}
}

func (m *lmodel) class(at int, class string) int {
	n := at
	for n < len(m.text) && strings.IndexByte(class, m.text[n]) >= 0 {
		n++
	}
	return n
}

// once reads a rule once, it gives the end of it
func (m *lmodel) once(r *lrule, at int) (int, string) {
	rest := m.text[at:]
	switch {
	case r.konst != "":
		if strings.HasPrefix(rest, r.konst) {
			return at + len(r.konst), r.konst
		}
	case r.quote:
		if strings.HasPrefix(rest, "'") {
			if n := strings.Index(rest[1:], "'"); n > 0 {
				return at + n + 2, rest[:n+2]
			}
			m.vague = true
		}
	case r.mix != nil:
		parts, count := m.g.pats.read(r, rest)
		if count >= r.min {
			return at + len(strings.Join(parts, "")), strings.Join(parts, "|")
		}
	default:
		class := r.class
		if r.name == "WORD" {
			class = m.g.pats.word
		}
		end := m.class(at, class)
		return end, m.text[at:end]
	}
	return at, ""
}

func (m *lmodel) channel(at int) int {
	for _, c := range m.g.chans {
		switch c {
		case "space":
			if end := m.class(at, " .\n"); end > at {
				return end
			}
		case "blank":
			if at < len(m.text) && strings.IndexByte(" .\n", m.text[at]) >= 0 {
				return at + 1
			}
		case "remark":
			if m.text[at] == '<' {
				if n := strings.IndexByte(m.text[at+1:], '>'); n > 0 {
					return at + n + 2
				}
				m.vague = true
			}
		}
	}
	return at
}

func (m *lmodel) element(e *lelem, at int, on, next bool) lmblock {
	if at == len(m.text) {
		return lmblock{none: e.min == 0}
	}
	if on {
		if end := m.channel(at); end > at {
			if b := m.element(e, end, next, next); !b.none {
				return b
			}
		}
	}
	m.steps++
	if e.rule != "" {
		r := m.g.ruleM[e.rule]
		pos, text, count := at, "", 0
		for pos < len(m.text) && count < e.max {
			end, t := m.once(r, pos)
			if end == pos {
				break
			}
			if r.cut && count > 0 {
				t = "|" + t
			}
			pos, text = end, text+t
			count++
		}
		if count < e.min {
			return lmblock{}
		}
		if count == 0 {
			return lmblock{ok: true, end: at}
		}
		return lmblock{ok: true, end: pos, kid: &lkid{rule: e.rule, text: text, count: count}}
	}
	k := &lkid{tok: e.tok}
	pos, deep := at, m.deep
	m.deep = 0
	for len(k.list) < e.max && !m.over() {
		t := m.token(m.g.tokM[e.tok], pos, next)
		if !t.ok {
			break
		}
		pos = t.end
		k.list = append(k.list, t.node)
	}
	if e.spec != "" {
		m.deep++
	}
	m.deep = max(m.deep, deep)
	k.count = len(k.list)
	ok := k.count >= e.min
	if ok && e.spec != "" {
		found := 0
		for _, n := range k.list {
			for _, kk := range n.kids {
				if kk.rule == e.spec || kk.tok == e.spec {
					found += kk.count
				}
			}
		}
		ok = found >= e.smin && found <= e.smax
	}
	switch {
	case !ok && e.min > 0:
		return lmblock{}
	case !ok, k.count == 0:
		return lmblock{ok: true, end: at}
	}
	return lmblock{ok: true, end: pos, kid: k}
}

func (m *lmodel) line(t *ltok, l []lelem, index, at int, on bool) (int, *lnode) {
	n := &lnode{name: t.name, line: index}
	pos, next := at, on
	for i := range l {
		e := &l[i]
		if e.toggle {
			next = !next
			continue
		}
		b := m.element(e, pos, on, next)
		switch {
		case b.none:
			continue
		case !b.ok:
			return at, nil
		}
		pos = b.end
		if b.kid != nil {
			n.kids = append(n.kids, b.kid)
		}
		if !next {
			on = false
		}
	}
	return pos, n
}

func (m *lmodel) over() bool { return m.steps > m.max || m.deep > 3 || m.vague }

func (m *lmodel) token(t *ltok, at int, on bool) *lmtok {
	key := lmkey{t, at, on}
	if r, ok := m.memo[key]; ok {
		m.steps += r.steps
		m.deep = max(m.deep, r.deep)
		return r
	}
	if m.busy[key] || m.over() {
		m.left = m.left || m.busy[key]
		return &lmtok{}
	}
	m.busy[key] = true
	before, deep := m.steps, m.deep
	m.deep = 0
	m.steps++
	r := &lmtok{end: at}
	for i, l := range t.lines {
		if end, n := m.line(t, l, i, at, on); n != nil && end > r.end {
			r.ok, r.end, r.node = true, end, n
		}
	}
	if r.ok && t.not != "" {
		if end, _ := m.once(m.g.ruleM[t.not], m.skip(at, on)); end > m.skip(at, on) {
			r.ok, r.end, r.node = false, at, nil
		}
	}
	r.steps, r.deep = m.steps-before, m.deep
	m.deep = max(m.deep, deep)
	delete(m.busy, key)
	m.memo[key] = r
	return r
}

// skip is where the first element after at starts
func (m *lmodel) skip(at int, on bool) int {
	for on && at < len(m.text) {
		end := m.channel(at)
		if end == at {
			break
		}
		at = end
	}
	return at
}

// read is what the root token reads in the text, nil when it is refused
func (m *lmodel) read(root string) (*lnode, string) {
	r := m.token(m.g.tokM[root], 0, true)
	if !r.ok {
		return nil, ""
	}
	return r.node, m.text[:r.end]
}

func specText(min, max int) string {
	switch {
	case min == max:
		return fmt.Sprintf("{%d}", min)
	case max >= 1<<30:
		return fmt.Sprintf("{%d,}", min)
	}
	return fmt.Sprintf("{%d,%d}", min, max)
}

func drawCard(w *W, e *lelem) {
	e.card, e.min, e.max = "", 1, 1
	switch w.Int(9) {
	case 3:
		e.card, e.min, e.max = "?", 0, 1
	case 4:
		e.card, e.min, e.max = "*", 0, 1<<30
	case 5:
		e.card, e.min, e.max = "+", 1, 1<<30
	case 6:
		k := w.Range(1, 3)
		e.card, e.min, e.max = fmt.Sprintf("{%d}", k), k, k
	case 7:
		a := w.Range(0, 2)
		b := a + w.Range(1, 2)
		e.card, e.min, e.max = fmt.Sprintf("{%d,%d}", a, b), a, b
	case 8:
		a := w.Range(0, 3)
		e.card, e.min, e.max = fmt.Sprintf("{%d,}", a), a, 1<<30
	}
}

// twin is an alternative that begins like another one, and differs in its
// switches or behind
func (g *lgram) twin(w *W, l []lelem) []lelem {
	line := []lelem{}
	toggled := false
	for _, e := range l {
		if e.toggle {
			toggled = true
			continue
		}
		line = append(line, e)
	}
	tail := lelem{rule: g.rules[w.Int(len(g.rules))].name, min: 1, max: 1}
	switch w.Int(4) {
	case 1:
		line = append(line, tail)
	case 2:
		if len(line) > 1 {
			line[len(line)-1] = tail
		}
	case 3:
		e := &line[len(line)-1]
		if e.min > 0 {
			e.card, e.min, e.max = "{2}", 2, 2
		}
	}
	if toggled != w.Chance(700) {
		line = append(append([]lelem{{toggle: true}}, line...), lelem{toggle: true})
	}
	return line
}

// addTwins adds a token whose alternatives begin with the same other token, with
// and without channels, and end differently
func (g *lgram) addTwins(w *W) {
	one := func() lelem { return lelem{rule: g.rules[w.Int(len(g.rules))].name, min: 1, max: 1} }
	add := func(name string, lines ...[]lelem) {
		t := &ltok{g: g, name: name, lines: lines}
		g.toks = append(g.toks, t)
		g.tokM[t.name] = t
	}
	inner := []lelem{}
	for i := w.Range(2, 3); i > 0; i-- {
		inner = append(inner, one())
	}
	add("ty", inner)
	lines := [][]lelem{}
	for i := w.Range(2, 3); i > 0; i-- {
		line := []lelem{{tok: "ty", min: 1, max: 1}}
		if w.Chance(300) {
			line[0].card, line[0].max = "+", 1<<30
		}
		if w.Chance(800) {
			line = append(line, one())
		}
		if w.Bool() {
			line = append(append([]lelem{{toggle: true}}, line...), lelem{toggle: true})
		}
		lines = append(lines, line)
	}
	add("tz", lines...)
}

// newGramAny draws a grammar whose alternatives may start alike, and whose
// tokens contain each other in any way that does not begin with itself
func newGramAny(w *W, first string) *lgram {
	g := &lgram{first: first, ruleM: map[string]*lrule{}, tokM: map[string]*ltok{}}
	g.pats = drawPats(w)
	rule := func(r *lrule) {
		g.rules = append(g.rules, r)
		g.ruleM[r.name] = r
	}
	rule(&lrule{name: "WORD", class: lWord})
	rule(&lrule{name: "NUM", class: lNum})
	seen := map[string]bool{}
	for i := w.Range(2, 6); i > 0; i-- {
		text := ""
		for k := pick(w.Source, 1, 1, 1, 2, 2, 3); k > 0; k-- {
			text += string("AABBC(abz1"[w.Int(10)])
		}
		if !seen[text] {
			seen[text] = true
			rule(&lrule{name: "K_" + lname(len(seen)-1), konst: text})
		}
	}
	if w.Chance(200) {
		rule(&lrule{name: "QUOTED", quote: true})
	}
	if w.Chance(300) {
		r := &lrule{name: "MIX_A", cut: true, min: 1, max: w.Range(1, 3)}
		for k := w.Range(1, 3); k > 0; k-- {
			r.mix = append(r.mix, w.Int(len(g.pats.mix)))
		}
		if w.Bool() {
			r.max = 1 << 30
		}
		rule(r)
	}
	n := w.Range(1, 6)
	for i := 0; i < n; i++ {
		t := &ltok{g: g, name: "t" + strings.ToLower(lname(i))}
		g.toks = append(g.toks, t)
		g.tokM[t.name] = t
	}
	heads := make([]map[int]bool, n) // the tokens that a token may begin with
	for i := range heads {
		heads[i] = map[int]bool{i: true}
	}
	for i, t := range g.toks {
		for l := w.Range(1, 3); l > 0; l-- {
			if len(t.lines) > 0 && w.Chance(250) {
				t.lines = append(t.lines, g.twin(w, t.lines[len(t.lines)-1]))
				continue
			}
			line := []lelem{}
			begun := false
			flat := true
			for e := w.Range(1, 4); e > 0; e-- {
				el := lelem{}
				if k := w.Int(n); w.Chance(550) && (begun || !heads[k][i]) {
					el.tok = g.toks[k].name
					flat = false
					drawCard(w, &el)
					if !begun {
						for a := 0; a < n; a++ {
							for b := 0; heads[a][i] && b < n; b++ {
								if heads[k][b] {
									heads[a][b] = true
								}
							}
						}
					}
				} else {
					el.rule = g.rules[w.Int(len(g.rules))].name
					drawCard(w, &el)
				}
				begun = begun || el.min > 0
				line = append(line, el)
			}
			if !begun {
				line = append(line, lelem{rule: g.rules[w.Int(len(g.rules))].name, min: 1, max: 1})
			}
			if flat && w.Chance(150) {
				line = append(append([]lelem{{toggle: true}}, line...), lelem{toggle: true})
			}
			t.lines = append(t.lines, line)
		}
		if w.Chance(150) {
			t.not = g.rules[w.Int(len(g.rules))].name
		}
	}
	if w.Chance(250) {
		g.addTwins(w)
	}
	for _, t := range g.toks {
		for _, l := range t.lines {
			for i := range l {
				e := &l[i]
				if e.tok == "" || !w.Chance(150) {
					continue
				}
				// so many of what one of the lines of the token contains
				ls := g.tokM[e.tok].lines
				in := ls[w.Int(len(ls))]
				if x := in[w.Int(len(in))]; !x.toggle {
					e.spec = x.rule + x.tok
					e.smin = w.Int(3)
					e.smax = pick(w.Source, max(e.smin, 1), e.smin+1, 1<<30)
				}
			}
		}
	}
	for _, c := range []string{"space", "blank", "remark"} {
		if w.Chance(350) {
			g.chans = append(g.chans, c)
		}
	}
	return g
}
