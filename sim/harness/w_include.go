//go:build go1.23

package main

import (
	"errors"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/steve-care-software/steve/verifsim/simrt"
)

func init() {
	register(&Property{ID: "C13", Run: runC13, Quick: 1500, Thorough: 60000, Batch: 50,
		Rule:   "a drawn grammar includes drawn grammars from files on the disk of a node (nested, several names, replacements, duplicate rule names); tasks read scripts while the disk loses, tears, corrupts, replaces and fails files between and during calls; afterwards the disk heals",
		Real:   []string{"applications/languages/lexers", "domain/languages/lexers/..."},
		Stub:   []string{"file reads (simulated disk of the node)", "goroutine scheduling", "map iteration order"},
		Assume: []string{"a torn file that is a grammar in itself is a grammar"}})
}

// lfile is a file of the disk
func (g *lgram) store(n *Node, name string) {
	n.Disk["/lang/rules/"+name+".rules"] = []byte(g.rulesScript())
	n.Disk["/lang/tokens/"+name+".tokens"] = []byte(g.tokensScript())
}

// include makes tokens of lib usable in g and uses some of them
func (g *lgram) include(w *W, name string, lib *lgram, file string, aliases int) {
	g.head += fmt.Sprintf("include %s \"%s.rules;%s.tokens\"\n", name, file, file)
	for i := 0; i < aliases; i++ {
		target := lib.toks[w.Int(len(lib.toks))]
		alias := &ltok{name: name + "x" + strings.ToLower(lname(i)), lines: target.lines, open: target.open, g: lib}
		g.tokM[alias.name] = alias
		g.head += fmt.Sprintf("reference %s %s.%s\n", alias.name, name, target.name)
		for use := w.Range(1, 2); use > 0 && !g.full(); use-- {
			t := g.toks[w.Int(len(g.toks))]
			if t.open || use == 1 {
				t = g.toks[0]
			}
			if t.open {
				continue
			}
			el := lelem{tok: alias.name, min: 1, max: 1}
			switch w.Int(5) {
			case 1:
				el.card, el.min, el.max = "?", 0, 1
			case 2:
				if !alias.open {
					el.card, el.min, el.max = "*", 0, 1<<30
				}
			case 3:
				if !alias.open {
					el.card, el.min, el.max = "+", 1, 1<<30
				}
			case 4:
				if !alias.open {
					el.card, el.min, el.max = "{2}", 2, 2
				}
			}
			line := []lelem{{rule: g.addConst(w), min: 1, max: 1}, el, {rule: g.addConst(w), min: 1, max: 1}}
			if w.Bool() {
				t.lines = append([][]lelem{line}, t.lines...)
			} else {
				t.lines = append(t.lines, line)
			}
		}
	}
}

// replace makes a token of the library, inside the library, a token of g
func (g *lgram) replace(w *W, name string, lib *lgram) {
	from := lib.toks[w.Int(len(lib.toks))]
	if from == lib.toks[0] || g.tokM[from.name] != nil {
		return // a replaced token is replaced in every file that has its name
	}
	to := g.toks[w.Int(len(g.toks))]
	if to.open != from.open || g.reaches(to, map[*ltok]bool{}) {
		return
	}
	g.head += fmt.Sprintf("replace %s.%s %s\n", name, from.name, to.name)
	lib.tokM[from.name] = to
	g.reps++
}

// reaches tells if a token of another grammar is part of t
func (g *lgram) reaches(t *ltok, seen map[*ltok]bool) bool {
	if t.g != g {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, l := range t.lines {
		for _, e := range l {
			if e.tok != "" && g.reaches(g.tokM[e.tok], seen) {
				return true
			}
		}
	}
	return false
}

func curTask() int64 {
	if t := simrt.Current(); t != nil {
		return int64(t.ID)
	}
	return -1
}

// lset is a grammar and the grammars it includes
type lset struct {
	g     *lgram
	libs  []*lgram
	files []string
}

func (s *lset) store(n *Node) {
	for i := range s.libs {
		if k := strings.LastIndex(s.files[i], "/"); k >= 0 {
			// a file of the same name in another folder
			s.libs[len(s.libs)-1-i].store(n, s.files[i][k+1:])
		}
	}
	for i, l := range s.libs {
		l.store(n, s.files[i])
	}
}

// newSet draws a grammar that includes others
func newSet(w *W, files string) *lset {
	cut := []int{0, 18, 28, len(lFirsts)}
	s := &lset{}
	n := w.Range(1, 2)
	prefix := []string{"l", "m"}
	flat := []bool{}
	if w.Chance(300) {
		// files that use the same names; recursion is looked up by name, so there is none
		prefix = []string{"", ""}
		flat = []bool{true}
	}
	s.g = newGramOf(w, "", lFirsts[cut[0]:cut[1]-6], flat...)
	for i := 0; i < n; i++ {
		l := newGramOf(w, prefix[i], lFirsts[cut[i+1]:cut[i+2]-2], flat...)
		s.libs = append(s.libs, l)
		s.files = append(s.files, pick(w.Source, "", "", "", "more/", "more/deep/")+files+fmt.Sprint(i))
	}
	if n == 2 && w.Chance(300) {
		// names that end alike
		s.files[1] = pick(w.Source, "more/", "more/deep/", "x", "x/y/") + s.files[0]
		if w.Bool() {
			s.files[0], s.files[1] = s.files[1], s.files[0]
		}
	}
	s.g.first = lFirsts[cut[0]:cut[1]]
	nested := n == 2 && w.Bool()
	if nested {
		s.libs[0].first = lFirsts[cut[1]:cut[2]]
		s.libs[0].include(w, "deep", s.libs[1], s.files[1], 1)
	}
	s.g.include(w, "one", s.libs[0], s.files[0], w.Range(1, 2))
	if w.Chance(200) {
		// the same files under another name
		s.g.include(w, "same", s.libs[0], s.files[0], 1)
	}
	if n == 2 && (!nested || w.Bool()) {
		s.g.include(w, "two", s.libs[1], s.files[1], 1)
	}
	return s
}

// includeScope reads two fixed grammars whose files use the same names
func includeScope(w *W) {
	n := w.AddNode("n0")
	w.readHook = func(n *Node, path string) ([]byte, error) {
		if d, ok := n.Disk[path]; ok {
			return append([]byte{}, d...), nil
		}
		return nil, os.ErrNotExist
	}
	k := func(name, text string) *lrule { return &lrule{name: name, konst: text} }
	write := func(name, rules, toks string) {
		n.Disk["/lang/rules/"+name+".rules"] = []byte(rules)
		n.Disk["/lang/tokens/"+name+".tokens"] = []byte(toks)
	}
	g := &lgram{rules: []*lrule{k("K_A", "A"), k("K_B", "B"), k("K_C", "C")}}
	rules := (&lgram{rules: []*lrule{k("K_D", "D"), k("K_E", "E"), k("K_F", "F")}}).rulesScript()
	which := w.Int(2)
	r := lres{patterns: (&lpats{word: lWord}).script(), rules: g.rulesScript(), root: "ta"}
	if which == 0 {
		write("lib", rules, "ta\n\t: K_D\n\t| K_E ta K_F\n\t;\n")
		r.tokens = "include one \"lib.rules;lib.tokens\"\nreference onexa one.ta\nta\n\t: K_A\n\t| K_B onexa K_C\n\t;\n"
		r.content = "BEEEDFFFC"
	} else {
		write("lib", rules, "ta\n\t: K_D\n\t| K_E tb K_F\n\t;\ntb\n\t: K_D\n\t;\n")
		r.tokens = "include one \"lib.rules;lib.tokens\"\nreference onexa one.ta\nreplace one.tb td\nta\n\t: K_A tb\n\t| K_B onexa K_C\n\t;\ntb\n\t: K_C\n\t;\ntd\n\t: K_B\n\t;\n"
		r.content = "AC"
	}
	w.Go(n, "AST", func() {
		out, ast, _ := r.call(newLexer("/lang"), "AST")
		w.Check(ast != nil && ast.IsSuccess(), []string{"include-scope", "replace-scope"}[which], "%q is not read: %s\n%s", r.content, out, r.tokens)
	})
	w.Loop()
}

// selfInclude reads grammars whose files include each other in a circle, and
// grammars that look like it
func selfInclude(w *W) {
	n := w.AddNode("n0")
	n.mapSeed = w.Draw(1 << 32)
	amount := w.Range(1, 4)
	circle := w.Chance(700)
	reads := 0
	w.readHook = func(n *Node, path string) ([]byte, error) {
		reads++
		if d, ok := n.Disk[path]; ok {
			return append([]byte{}, d...), nil
		}
		return nil, os.ErrNotExist
	}
	name := func(i int) string {
		return pick(w.Source, "", "", "./", "more/../", ".//", "more/.././") + fmt.Sprint("c", i)
	}
	rules := (&lgram{rules: []*lrule{{name: "K_A", konst: "A"}, {name: "K_B", konst: "B"}, {name: "K_C", konst: "C"}}}).rulesScript()
	back := w.Int(amount)
	for i := 0; i < amount; i++ {
		next := i + 1
		if next == amount && circle {
			next = back
		}
		toks := fmt.Sprintf("u%s\n\t: K_B K_B\n\t;\n", strings.ToLower(lname(i)))
		if next < amount {
			f := name(next)
			toks = fmt.Sprintf("include one \"%s.rules;%s.tokens\"\nreference w%s one.u%s\nu%s\n\t: K_B w%s K_C\n\t| K_B K_B\n\t;\n", f, f, strings.ToLower(lname(i)), strings.ToLower(lname(next)), strings.ToLower(lname(i)), strings.ToLower(lname(i)))
		}
		n.Disk[fmt.Sprintf("/lang/rules/c%d.rules", i)] = []byte(rules)
		n.Disk[fmt.Sprintf("/lang/tokens/c%d.tokens", i)] = []byte(toks)
	}
	f := name(0)
	r := lres{patterns: (&lpats{word: lWord}).script(), rules: rules, root: "ta"}
	r.tokens = fmt.Sprintf("include one \"%s.rules;%s.tokens\"\nreference x one.ua\nta\n\t: K_A x K_C\n\t;\n", f, f)
	r.content = "A" + strings.Repeat("B", amount-1) + "BB" + strings.Repeat("C", amount)
	app := newLexer("/lang")
	for i := w.Range(1, 3); i > 0; i-- {
		op := pick(w.Source, "AST", "Root", "Path", "Tests")
		w.Go(n, op, func() {
			out, ast, _ := r.call(app, op)
			w.Check(reads < 2000, "self-include", "%d files are read", reads)
			if circle {
				w.Count("circles")
				w.Check(strings.HasPrefix(out, "error: "), "self-include", "a file includes itself over %d files, and %s answers %s\n%s", amount, op, out, r.tokens)
				return
			}
			w.Check(!strings.HasPrefix(out, "error: ") || op == "Tests", "self-include", "no file includes itself, and %s answers %s\n%s", op, out, r.tokens)
			if op == "AST" {
				w.Check(ast != nil && ast.IsSuccess(), "self-include", "%q is not read: %s\n%s", r.content, out, r.tokens)
			}
		})
	}
	w.nontri = true
	w.Loop()
}

var errDisk = errors.New("simulated input/output error")

type ldelivery struct {
	path string
	data []byte
	err  error
}

func runC13(w *W) {
	w.Schedule()
	if w.Chance(20) {
		includeScope(w)
		return
	}
	if w.Chance(40) {
		selfInclude(w)
		return
	}
	node := w.AddNode("n0")
	node.mapSeed = w.Draw(1 << 32)
	solo := w.AddNode("solo")
	s := newSet(w, "lib")
	if w.Chance(300) {
		s.g.replace(w, "one", s.libs[0])
	}
	s.g.addTests(w)
	good := &Node{Disk: map[string][]byte{}}
	s.store(good)
	for _, k := range sortedKeys(good.Disk) {
		node.Disk[k] = append([]byte{}, good.Disk[k]...)
	}
	faulty := false
	eio := pick(w.Source, 0, 0, 100, 400)
	// what was delivered to the task that runs
	var rec map[int64]*[]ldelivery
	rec = map[int64]*[]ldelivery{}
	replay := map[int64][]ldelivery{}
	w.readHook = func(n *Node, path string) ([]byte, error) {
		if n == solo {
			list := replay[curTask()]
			for i, d := range list {
				if d.path == path {
					replay[curTask()] = append(append([]ldelivery{}, list[:i]...), list[i+1:]...)
					return append([]byte{}, d.data...), d.err
				}
			}
			return nil, errors.New("not read before: " + path)
		}
		w.Count("file_reads")
		d := ldelivery{path: path}
		data, ok := n.Disk[path]
		switch {
		case !ok:
			d.err = &os.PathError{Op: "open", Path: path, Err: os.ErrNotExist}
		case faulty && eio > 0 && w.Chance(eio):
			w.Fault("read_error")
			d.err = &os.PathError{Op: "read", Path: path, Err: errDisk}
		case faulty && w.Chance(100) && len(data) > 0:
			w.Fault("short_read")
			d.data = append([]byte{}, data[:w.Int(len(data))]...)
		default:
			d.data = append([]byte{}, data...)
		}
		if l := rec[curTask()]; l != nil {
			*l = append(*l, d)
		}
		w.Logf("%s: reads %s: %d bytes, %v", n.Name, path, len(d.data), d.err)
		return append([]byte{}, d.data...), d.err
	}
	changed := map[string]time.Time{}
	w.statHook = func(n *Node, path string) (int64, time.Time, error) {
		if n == solo {
			for _, d := range replay[curTask()] {
				if d.path == path {
					return int64(len(d.data)), w.harness.Now(), nil
				}
			}
			return 0, time.Time{}, os.ErrNotExist
		}
		data, ok := n.Disk[path]
		if !ok {
			return 0, time.Time{}, os.ErrNotExist
		}
		return int64(len(data)), changed[path], nil
	}
	app := newLexer("/lang")
	lw := &lworld{w: w, g: s.g, answers: map[string]string{}, from: map[string]string{}}
	reads := []*lread{}
	for i := w.Range(1, 3); i > 0; i-- {
		tok := s.g.toks[0].name
		if w.Chance(200) {
			tok = s.g.toks[w.Int(len(s.g.toks))].name
		}
		script, n := s.g.derive(w, tok, 25)
		if script == "" {
			continue
		}
		if strings.Contains(n.String(), "onex") || strings.Contains(n.String(), "twox") {
			w.Count("scripts_with_included_tokens")
		}
		reads = append(reads, &lread{id: i, res: s.g.res(tok, script), want: n})
	}
	ask := func(q *lread, op string) {
		w.Go(node, op, func() {
			mine := &[]ldelivery{}
			id := curTask()
			rec[id] = mine
			wasClean := true
			out, ast, _ := q.res.call(app, op)
			delete(rec, id)
			got := append([]ldelivery{}, *mine...)
			failed := false
			for _, d := range got {
				if d.err != nil {
					failed = true
				}
				if string(d.data) != string(good.Disk[d.path]) {
					wasClean = false
				}
			}
			w.State(op, out)
			w.Logf("%s %q: %s", op, q.res.content, strings.SplitN(out, "\n", 2)[0])
			if failed {
				w.Count("failed_reads")
				w.Check(strings.HasPrefix(out, "error: "), "unreadable", "%s of %q answers although a file could not be read:\n%s", op, q.res.content, out)
				return
			}
			if wasClean && op == "AST" {
				lw.verdict(node, q, ast, out)
			}
			if wasClean && op == "Tests" {
				w.Check(out == "tests: "+lw.wantTests(), "tests", "the tests run as %s, expected %s\ngrammar:\n%s", out, lw.wantTests(), s.g.tokensScript())
			}
			w.Go(solo, "solo", func() {
				replay[curTask()] = got
				expect, _, _ := q.res.call(newLexer("/lang"), op)
				w.Check(expect == out, "stale", "%s of %q answers\n%s\nwhile a fresh lexer that reads the same files answers\n%s\ngrammar:\n%s", op, q.res.content, out, expect, s.g.tokensScript())
				w.Check(len(replay[curTask()]) == 0, "reads", "%s of %q reads %s, which a fresh lexer does not read", op, q.res.content, fmt.Sprint(len(replay[curTask()])))
			})
		})
	}
	ops := []string{"AST", "AST", "AST", "Root", "Path", "Tests"}
	for _, q := range reads {
		w.Logf("script %d: %s %q", q.id, q.res.root, q.res.content)
		for i := w.Range(1, 3); i > 0; i-- {
			q, op := q, ops[w.Int(len(ops))]
			w.After(time.Duration(w.Int(100))*time.Millisecond, func() { ask(q, op) })
		}
	}
	paths := sortedKeys(good.Disk)
	for i := w.Int(5); i > 0; i-- {
		w.After(time.Duration(w.Int(100))*time.Millisecond, func() {
			path := paths[w.Int(len(paths))]
			d := node.Disk[path]
			switch w.Int(6) {
			case 0:
				faulty = true
			case 1:
				faulty = false
			case 2:
				w.Fault("file_lost")
				delete(node.Disk, path)
			case 3:
				if len(d) > 0 {
					w.Fault("file_torn")
					node.Disk[path] = append([]byte{}, d[:w.Int(len(d))]...)
				}
			case 4:
				w.Fault("file_corrupt")
				node.Disk[path] = w.corrupt(append([]byte{}, d...))
			case 5:
				if lib := s.libs[w.Int(len(s.libs))]; w.Bool() {
					// another version of a file: the first token has its lines in another order
					w.Fault("file_upgraded")
					t := lib.toks[0]
					old := t.lines
					t.lines = append([][]lelem{}, old[1:]...)
					t.lines = append(t.lines, old[0])
					path = "/lang/tokens/" + s.files[indexOf(s.libs, lib)] + ".tokens"
					node.Disk[path] = []byte(lib.tokensScript())
					t.lines = old
					break
				}
				w.Fault("file_swapped")
				node.Disk[path] = append([]byte{}, good.Disk[paths[w.Int(len(paths))]]...)
			}
			// copied and restored files keep their modification times
			if w.Bool() {
				changed[path] = w.harness.Now()
			}
			w.Logf("disk: %s", path)
		})
	}
	w.Loop()
	// the disk heals
	faulty = false
	for _, k := range paths {
		node.Disk[k] = append([]byte{}, good.Disk[k]...)
	}
	w.Logf("the disk heals")
	for _, q := range reads {
		ask(q, "AST")
	}
	w.Loop()
}

func indexOf[T comparable](list []T, x T) int {
	for i, y := range list {
		if x == y {
			return i
		}
	}
	return -1
}
