//go:build go1.23

package main

import (
	"os"
	"strings"
	"time"
)

func init() {
	register(&Property{ID: "C11", Run: runC11, Quick: 1500, Thorough: 60000, Batch: 50,
		Rule:   "one lexer of a node serves several drawn grammars that reuse each other's names (tokens, rules, libraries, aliases, replacements); tasks interleave their calls, some of which fail on reads of files; every answer is compared with that of a fresh lexer that only ever saw this call, and stays what it was",
		Real:   []string{"applications/languages/lexers", "domain/languages/lexers/..."},
		Stub:   []string{"file reads (simulated disk of the node)", "goroutine scheduling", "map iteration order"},
		Assume: []string{}})
}

func runC11(w *W) {
	w.Schedule()
	node := w.AddNode("n0")
	node.mapSeed = w.Draw(1 << 32)
	solo := w.AddNode("solo")
	// the grammars all use the same names
	cut := []int{0, 16, 27, len(lFirsts)}
	libs := []*lgram{}
	files := []string{"liba", "libb"}
	for i := 0; i < w.Range(1, 2); i++ {
		libs = append(libs, newGramOf(w, string("lm"[i]), lFirsts[cut[i+1]:cut[i+2]]))
	}
	if len(libs) == 2 && w.Bool() {
		libs[0].include(w, "deep", libs[1], files[1], 1)
	}
	for i, l := range libs {
		l.store(node, files[i])
	}
	mains := []*lgram{}
	type text struct{ root, content string }
	texts := []text{}
	for i := w.Range(2, 3); i > 0; i-- {
		if len(mains) > 0 && w.Chance(300) {
			// the same grammar with other patterns
			g := *mains[w.Int(len(mains))]
			g.pats = drawPats(w)
			mains = append(mains, &g)
			if script, _ := g.derive(w, g.toks[0].name, 20); script != "" {
				texts = append(texts, text{g.toks[0].name, script})
			}
			continue
		}
		g := newGramOf(w, "", lFirsts[:cut[1]])
		g.first = lFirsts
		if w.Chance(800) {
			k := w.Int(len(libs))
			g.include(w, "one", libs[k], files[k], w.Range(1, 2))
			if w.Chance(500) {
				g.replace(w, "one", libs[k])
			}
		}
		g.addTests(w)
		mains = append(mains, g)
		for k := w.Range(1, 2); k > 0; k-- {
			tok := g.toks[0].name
			if w.Chance(300) {
				tok = g.toks[w.Int(len(g.toks))].name
			}
			if script, _ := g.derive(w, tok, 20); script != "" {
				texts = append(texts, text{tok, script})
			}
		}
	}
	texts = append(texts, text{"ta", "a"})
	failing := pick(w.Source, 0, 0, 150)
	failed := map[int64]bool{}
	w.readHook = func(n *Node, path string) ([]byte, error) {
		w.Count("file_reads")
		if n == node && failing > 0 && w.Chance(failing) {
			w.Fault("read_error")
			failed[curTask()] = true
			return nil, &os.PathError{Op: "read", Path: path, Err: errDisk}
		}
		if d, ok := node.Disk[path]; ok {
			return append([]byte{}, d...), nil
		}
		return nil, &os.PathError{Op: "open", Path: path, Err: os.ErrNotExist}
	}
	app := newLexer("/lang")
	type answer struct {
		op, out string
		again   func() string
	}
	kept := []answer{}
	expect := map[string]string{}
	for i := w.Range(2, 6); i > 0; i-- {
		g := mains[w.Int(len(mains))]
		x := texts[w.Int(len(texts))]
		op := lexOps[w.Int(len(lexOps))]
		if w.Chance(500) {
			op = pick(w.Source, "AST", "Root", "Path")
		}
		q := g.res(x.root, x.content)
		q.prefix, q.suffix = w.Chance(150), w.Chance(150)
		if w.Chance(100) {
			q.channels = ""
		}
		key := strings.Join([]string{op, q.patterns, q.rules, q.tokens, q.channels, q.root, q.content, boolText(q.prefix), boolText(q.suffix)}, "\x00")
		for k := w.Range(1, 2); k > 0; k-- {
			w.After(time.Duration(w.Int(30))*time.Millisecond, func() {
				w.Go(node, op, func() {
					r := q
					out, _, _ := r.call(app, op)
					w.Count("calls")
					w.State(op, out)
					w.Logf("%s %q: %s", op, q.content, strings.SplitN(out, "\n", 2)[0])
					if r.again != nil {
						kept = append(kept, answer{op, out, r.again})
					}
					if failed[curTask()] {
						w.Check(strings.HasPrefix(out, "error: "), "unreadable", "%s of %q answers although a file could not be read:\n%s", op, q.content, out)
						return
					}
					check := func(want string) {
						w.Check(out == want, "leak", "%s of %q answers\n%s\nwhile a lexer that did nothing else answers\n%s\ngrammar:\n%s\n%s", op, q.content, out, want, q.tokens, q.rules)
					}
					if want, ok := expect[key]; ok {
						check(want)
						return
					}
					w.Go(solo, "solo", func() {
						r := q
						want, _, _ := r.call(newLexer("/lang"), op)
						expect[key] = want
						check(want)
					})
				})
			})
		}
	}
	w.Loop()
	for _, a := range kept {
		now := a.again()
		w.Check(now == a.out, "changed", "an answer to %s became\n%s\nit was\n%s", a.op, now, a.out)
	}
	w.nontri = true
}

func boolText(b bool) string {
	if b {
		return "t"
	}
	return "f"
}
