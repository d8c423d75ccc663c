//go:build go1.23

package main

import (
	"fmt"
	"strings"

	"github.com/steve-care-software/steve/applications/languages/lexers"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
)

func init() {
	register(&Property{ID: "C12", Run: runC12, Quick: 1100, Thorough: 100000, Batch: 50,
		Rule:   "a drawn grammar with known language is read by 2 to 4 simulated nodes, each iterating maps in its own order, each with one shared lexer used by interleaved tasks; scripts are derived from the grammar, derived with text of a channel where channels are off, changed by a few characters, or damaged in transit; half of the grammars are drawn freely and their scripts also read by a small reference reader",
		Real:   []string{"applications/languages/lexers", "domain/languages/lexers/... (patterns, rules, tokens, paths, asts, mistakes, suites, roots)"},
		Stub:   []string{"map iteration order (seeded permutation per node)", "goroutine scheduling", "network between the sender of scripts and the nodes"},
		Assume: []string{"the derivation oracle covers grammars whose alternatives start with their own constant, the reference reader all grammars in which no token begins with itself and no switch of channels stands inside an element; scripts with unclosed quotes or remarks, and scripts that take too long, are only checked for agreement and consistency"}})
}

// lread is one script that nodes are asked to read
type lread struct {
	id      int
	res     lres
	want    *lnode // the tree, when it is known
	any     bool   // what is read is what the model reads
	spoilt  *lnode // the tree it must not have
	refused bool   // must not be read successfully
}

func (r *lres) key() string {
	return fmt.Sprint(r.root, "\x00", r.content, "\x00", r.prefix, r.suffix)
}

type lworld struct {
	w       *W
	g       *lgram
	answers map[string]string
	from    map[string]string
}

func (lw *lworld) same(n *Node, what, key, out string) {
	w := lw.w
	k := what + "\x00" + key
	if prev, ok := lw.answers[k]; ok {
		w.Check(prev == out, "disagree", "%s answers differently than %s for %s of %q:\n%s\n%s\ngrammar:\n%s\n%s", n.Name, lw.from[k], what, key, out, prev, lw.g.tokensScript(), lw.g.rulesScript())
		return
	}
	lw.answers[k] = out
	lw.from[k] = n.Name
}

// scan checks where the elements of a name are found
func (lw *lworld) scan(n *Node, key string, root roots.Root) {
	w := lw.w
	names := map[string]int{}
	var walk func(r roots.Root)
	walk = func(r roots.Root) {
		all := r.Nodes().All()
		for _, k := range sortedKeys(all) {
			names[k]++
			for _, c := range all[k].Containers().List() {
				if c.HasRoot() {
					walk(c.Root())
				}
			}
		}
	}
	walk(root)
	list := append(sortedKeys(names), "zzabsent")
	for _, name := range list {
		rt, nd, ct, txt, err := root.Nodes().Scan(name)
		out := "absent"
		switch {
		case err != nil:
		case rt != nil:
			out = "root " + rt.Name() + rt.Content()
			w.Check(rt.Name() == name, "scan-name", "scanning %q for %s finds the root %s", key, name, rt.Name())
		case nd != nil:
			out = "node " + nd.Name() + nd.Content()
			w.Check(nd.Name() == name, "scan-name", "scanning %q for %s finds the node %s", key, name, nd.Name())
		case ct != nil:
			out = "container " + ct.Name() + ct.Content()
			w.Check(ct.Name() == name, "scan-name", "scanning %q for %s finds the container %s", key, name, ct.Name())
		default:
			out = "text " + txt
		}
		w.Check((out == "absent") == (names[name] == 0), "scan-found", "scanning %q for %s gives %s, it is there %d times", key, name, out, names[name])
		if direct, err := root.Nodes().Fetch(name); err == nil {
			w.Check(nd == direct, "scan-direct", "scanning %q for %s gives %s and not the direct element %q", key, name, out, direct.Content())
		}
		lw.same(n, "scan "+name, key, out)
	}
}

func (lw *lworld) read(n *Node, app lexers.Application, q *lread, op string) {
	w := lw.w
	out, ast, root := q.res.call(app, op)
	key := q.res.key()
	lw.same(n, op, key, out)
	w.State(op, out)
	w.Count("lex_" + strings.ToLower(op))
	switch op {
	case "AST":
		lw.verdict(n, q, ast, out)
		if ast != nil && ast.IsSuccess() && lw.from["root-of\x00"+key] == "" {
			lw.same(n, "root-of", key, "root: "+rootOf(ast.Success()))
		}
	case "Root":
		if root != nil {
			lw.same(n, "root-of", key, out)
			lw.scan(n, key, root)
		}
		if q.any {
			node, text, ok := lw.model(q)
			if ok {
				w.Check((node != nil) == (root != nil), "model-root", "%s reads %q as %s: %s\nwant %v\ngrammar:\n%s\n%s", n.Name, q.res.content, q.res.root, out, node, lw.g.tokensScript(), lw.g.rulesScript())
				w.Check(root == nil || root.Content() == text, "model-root-text", "%s reads %q of %q as %s, not %q\ngrammar:\n%s\n%s", n.Name, contentOf(root), q.res.content, q.res.root, text, lw.g.tokensScript(), lw.g.rulesScript())
			}
		}
		if q.want != nil {
			w.Check(root != nil, "refused", "%s does not read %q as %s:\n%s\ngrammar:\n%s", n.Name, q.res.content, q.res.root, out, lw.g.tokensScript())
		}
	case "Tests":
		w.Check(out == "tests: "+lw.wantTests(), "tests", "%s runs the tests as %s, expected %s\ngrammar:\n%s", n.Name, out, lw.wantTests(), lw.g.tokensScript())
	}
}

func (lw *lworld) wantTests() string {
	sb := &strings.Builder{}
	for _, t := range lw.g.toks {
		if len(t.tests) == 0 {
			continue
		}
		sb.WriteString(t.name)
		for i := range t.tests {
			fmt.Fprintf(sb, " %d:%t", i, !t.bad[i])
		}
		sb.WriteString(";")
	}
	return sb.String()
}

func (lw *lworld) verdict(n *Node, q *lread, ast asts.AST, out string) {
	w := lw.w
	ok := ast != nil && ast.IsSuccess()
	if q.want != nil {
		w.Count("derived_scripts")
		w.Check(ok, "refused", "%s does not read %q as %s:\n%s\ngrammar:\n%s", n.Name, q.res.content, q.res.root, out, lw.g.tokensScript())
		got := shapeOf(ast.Success()).String()
		w.Check(got == q.want.String(), "tree", "%s reads %q as %s wrongly:\nwant %s\ngot  %s\ngrammar:\n%s", n.Name, q.res.content, q.res.root, q.want, got, lw.g.tokensScript())
		disc := ast.Success().Discovery()
		w.Check(strings.HasPrefix(q.res.content, disc), "discovery", "the text of the tree %q is not the beginning of the script %q", disc, q.res.content)
	}
	if ok {
		lw.parts(n, q, ast.Success())
	}
	if q.any {
		lw.refine(n, q, ast, out)
	}
	if q.spoilt != nil && ok {
		w.Count("spoilt_scripts")
		got := shapeOf(ast.Success()).String()
		w.Check(got != q.spoilt.String(), "channel-off", "%s reads %q as if the channels were on:\n%s\ngrammar:\n%s", n.Name, q.res.content, got, lw.g.tokensScript())
	}
	if q.refused {
		w.Count("refused_scripts")
		w.Check(!ok, "accepted", "%s reads %q as %s:\n%s\ngrammar:\n%s", n.Name, q.res.content, q.res.root, out, lw.g.tokensScript())
	}
}

func contentOf(r roots.Root) string {
	if r == nil {
		return ""
	}
	return r.Content()
}

// model reads a script with the model; not, when that is too much work
func (lw *lworld) model(q *lread) (*lnode, string, bool) {
	m := newModel(lw.g, q.res.content, lModelSteps)
	node, text := m.read(q.res.root)
	if m.left {
		panic("the grammar begins with itself: " + lw.g.tokensScript())
	}
	return node, text, !m.over()
}

// refine compares the tree with that of the model
func (lw *lworld) refine(n *Node, q *lread, ast asts.AST, out string) {
	w := lw.w
	node, text, known := lw.model(q)
	if !known {
		return
	}
	w.Count("modelled_scripts")
	ok := ast != nil && ast.IsSuccess()
	if node == nil {
		w.Count("modelled_refusals")
		w.Check(!ok, "model-accepted", "%s reads %q as %s, nothing in the grammar reads it so: %s\ngrammar:\n%s\n%s", n.Name, q.res.content, q.res.root, out, lw.g.tokensScript(), lw.g.rulesScript())
		return
	}
	w.Check(ok, "model-refused", "%s does not read %q as %s: %s\nwant %s\ngrammar:\n%s\n%s", n.Name, q.res.content, q.res.root, out, node, lw.g.tokensScript(), lw.g.rulesScript())
	got := shapeOf(ast.Success()).String()
	w.Check(got == node.String(), "model-tree", "%s reads %q as %s wrongly:\nwant %s\ngot  %s\ngrammar:\n%s\n%s", n.Name, q.res.content, q.res.root, node, got, lw.g.tokensScript(), lw.g.rulesScript())
	disc := ast.Success().Discovery()
	w.Check(disc == text, "model-text", "%s reads %q of %q as %s, not %q\ngrammar:\n%s\n%s", n.Name, disc, q.res.content, q.res.root, text, lw.g.tokensScript(), lw.g.rulesScript())
}

// parts checks that every match of a rule is a piece of the script
func (lw *lworld) parts(n *Node, q *lread, t asts.Token) {
	w := lw.w
	if !t.Match().HasMatches() {
		return
	}
	for _, x := range t.Match().Matches() {
		if x.IsToken() {
			for _, y := range x.Token().Matches() {
				lw.parts(n, q, y)
			}
			continue
		}
		r := x.Rule().Result()
		text := r.Discoveries().Content()
		w.Check(r.Prefix()+text+r.Suffix() == r.Input(), "match-parts", "%s: the match %q of %s in %q is split into %q and %q", n.Name, text, x.Rule().Rule(), r.Input(), r.Prefix(), r.Suffix())
		w.Check(strings.Contains(q.res.content, text) && strings.HasSuffix(q.res.content, r.Input()), "match-input", "%s: the match %q of %s comes from %q, which is not the end of the script %q", n.Name, text, x.Rule().Rule(), r.Input(), q.res.content)
		w.Check(r.Prefix() == "" || q.res.prefix, "match-prefix", "%s: %s skips %q, while no prefix is legal", n.Name, x.Rule().Rule(), r.Prefix())
	}
}

// addTests writes tests into the grammar
func (g *lgram) addTests(w *W) {
	for _, t := range g.toks {
		if !w.Chance(300) {
			continue
		}
		for i := w.Range(1, 2); i > 0; i-- {
			if w.Chance(300) {
				// something is missing, or there is text that nothing reads
				script := g.deriveHarmed(w, t.name, 8)
				if w.Bool() && !contains(g.chans, "space") && !contains(g.chans, "blank") {
					if script, _ = g.derive(w, t.name, 8); script != "" {
						script = " " + script
					}
				}
				if strings.TrimSpace(script) != "" && strings.TrimRight(script, " \n") == script {
					t.tests = append(t.tests, script)
					t.bad = append(t.bad, true)
				}
				continue
			}
			script, n := g.derive(w, t.name, 8)
			if n == nil || strings.TrimSpace(script) != script {
				continue
			}
			if w.Chance(300) {
				t.tests = append(t.tests, "*"+script)
				t.bad = append(t.bad, true)
				continue
			}
			t.tests = append(t.tests, script)
			t.bad = append(t.bad, false)
		}
	}
}

// addNot forbids a word to one of the tokens that are a word
func (g *lgram) addNot(w *W) string {
	for _, t := range g.toks {
		if t.open && t.lines[0][0].rule == "WORD" && w.Chance(500) {
			t.not = "RESERVED"
			g.rules = append(g.rules, &lrule{name: "RESERVED", konst: "bad"})
			g.ruleM["RESERVED"] = g.rules[len(g.rules)-1]
			return t.name
		}
	}
	return ""
}

func (g *lgram) res(root, content string) lres {
	return lres{patterns: g.pats.script(), rules: g.rulesScript(), tokens: g.tokensScript(), channels: g.channelsScript(), root: root, content: content}
}

// recursion reads two fixed grammars whose recursive tokens are read twice at
// the same place
func recursion(w *W) {
	n := w.AddNode("n0")
	k := func(name, text string) *lrule { return &lrule{name: name, konst: text} }
	g := &lgram{pats: lpats{word: lWord}, ruleM: map[string]*lrule{}, rules: []*lrule{{name: "WORD", class: lWord}, k("K_A", "A"), k("K_B", "B"), k("K_C", "C"), k("K_D", "D")}}
	r := lres{patterns: g.pats.script(), rules: g.rulesScript(), root: "ta"}
	which := w.Int(2)
	r.tokens = []string{
		"ta\n\t: K_A ta K_B\n\t| K_A ta K_C\n\t| K_D\n\t;\n",
		"ta\n\t: tb\n\t| K_A ta K_B\n\t;\ntb\n\t: tc\n\t;\ntc\n\t: WORD\n\t| ta\n\t;\n",
	}[which]
	r.content = []string{"AADCC", "A%"}[which]
	w.Go(n, "AST", func() {
		out, ast, _ := r.call(newLexer("/lang"), "AST")
		if which == 0 {
			w.Check(ast != nil && ast.IsSuccess(), "shared-prefix", "%q is not read: %s\n%s", r.content, out, r.tokens)
			return
		}
		w.Check(ast == nil || !ast.IsSuccess(), "left-recursion", "%q is read: %s\n%s", r.content, out, r.tokens)
	})
	w.Loop()
}

// lModelSteps limits how much work the reading of a script is
const lModelSteps = 300

// harmText changes a script by a few characters
func (g *lgram) harmText(w *W, text string) string {
	pool := "AB(ab1z. "
	for i := w.Range(1, 3); i > 0; i-- {
		at := w.Int(len(text) + 1)
		switch w.Int(4) {
		case 0:
			text = text[:at] + string(pool[w.Int(len(pool))]) + text[at:]
		case 1:
			if at < len(text) {
				text = text[:at] + text[at+1:]
			}
		case 2:
			text = text[:at]
		case 3:
			text = text[at:] + text[:at]
		}
	}
	return text
}

// heavy tells whether reading a script is too much work
func (g *lgram) heavy(w *W, tok, text string) bool {
	m := newModel(g, text, lModelSteps)
	m.read(tok)
	if m.over() {
		w.Count("heavy_scripts")
	}
	return m.over()
}

// anyText draws a script that the grammar may read or not
func (g *lgram) anyText(w *W, tok string) string {
	for try := 0; ; try++ {
		d := &lderive{w: w, g: g, out: &strings.Builder{}, left: w.Range(0, 12), any: true}
		d.token(g.tokM[tok], 0)
		text := d.out.String()
		if len(text) > 40 {
			text = text[:40]
		}
		switch w.Int(5) {
		case 1, 2:
			text = g.harmText(w, text)
		case 3:
			text += text
		}
		if g.heavy(w, tok, text) {
			text = ""
		}
		if text != "" || try > 5 {
			return text
		}
	}
}

// anyTests writes tests of which the model says whether they pass
func (g *lgram) anyTests(w *W) {
	for _, t := range g.toks {
		if !w.Chance(300) {
			continue
		}
		for i := w.Range(1, 3); i > 0; i-- {
			text := g.anyText(w, t.name)
			if text == "" || strings.TrimSpace(text) != text {
				continue
			}
			m := newModel(g, text, lModelSteps)
			n, _ := m.read(t.name)
			if m.over() {
				continue
			}
			t.tests = append(t.tests, text)
			t.bad = append(t.bad, n == nil)
		}
	}
}

func runC12(w *W) {
	w.Schedule()
	if w.Chance(15) {
		recursion(w)
		return
	}
	w.DrawNet()
	any := w.Chance(500)
	var g *lgram
	reserved := ""
	if any {
		g = newGramAny(w, lFirsts)
		g.anyTests(w)
	} else {
		g = newGram(w, "")
		reserved = g.addNot(w)
		g.addTests(w)
	}
	if any {
		w.Logf("grammar:\n%s%s", g.tokensScript(), g.rulesScript())
	}
	lw := &lworld{w: w, g: g, answers: map[string]string{}, from: map[string]string{}}
	apps := map[*Node]lexers.Application{}
	nodes := []*Node{}
	for i := w.Range(2, 4); i > 0; i-- {
		n := w.AddNode(fmt.Sprint("n", len(nodes)))
		n.mapSeed = w.Draw(1 << 32)
		nodes = append(nodes, n)
		apps[n] = newLexer("/lang")
	}
	reads := []*lread{}
	add := func(q *lread) {
		if q.res.content == "" {
			return
		}
		q.id = len(reads)
		reads = append(reads, q)
	}
	for i := w.Range(1, 4); i > 0; i-- {
		tok := g.toks[w.Int(len(g.toks))].name
		if any {
			if g.tokM["tz"] != nil && w.Bool() {
				tok = "tz"
			}
			add(&lread{res: g.res(tok, g.anyText(w, tok)), any: true})
			continue
		}
		switch w.Int(6) {
		case 4:
			script, n := g.deriveSpoilt(w, tok, 20)
			add(&lread{res: g.res(tok, script), spoilt: n})
		case 5:
			if w.Bool() {
				add(&lread{res: g.res(tok, g.deriveHarmed(w, tok, 20)), refused: true})
				continue
			}
			if reserved != "" {
				add(&lread{res: g.res(reserved, "bad"), refused: true})
				continue
			}
			add(&lread{res: g.res(tok, "*nothing"), refused: true})
		default:
			script, n := g.derive(w, tok, 25)
			q := &lread{res: g.res(tok, script), want: n}
			q.res.prefix, q.res.suffix = w.Chance(300), w.Chance(300)
			add(q)
		}
	}
	for _, q := range reads {
		w.Logf("script %d: %s %q", q.id, q.res.root, q.res.content)
		for i := w.Range(1, 3); i > 0; i-- {
			q := q
			op := lexOps[w.Int(len(lexOps))]
			if w.Chance(500) {
				op = pick(w.Source, "AST", "Root")
			}
			for _, n := range nodes {
				n := n
				w.Send(nil, n, op, []byte(q.res.content), func(p []byte) {
					r := *q
					if string(p) != q.res.content {
						r = lread{id: q.id, res: q.res, any: q.any}
						r.res.content = string(p)
						if len(p) > 200 || len(p) == 0 {
							return
						}
						if q.any && g.heavy(w, q.res.root, string(p)) {
							return
						}
					}
					if len(q.res.content) > 0 && op == "Tests" && len(g.wantsTests()) == 0 {
						return
					}
					lw.read(n, apps[n], &r, op)
				})
			}
		}
	}
	w.Loop()
}

func contains(list []string, x string) bool {
	for _, y := range list {
		if x == y {
			return true
		}
	}
	return false
}

func (g *lgram) wantsTests() []string {
	out := []string{}
	for _, t := range g.toks {
		out = append(out, t.tests...)
	}
	return out
}
