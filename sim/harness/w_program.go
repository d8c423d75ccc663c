//go:build go1.23

package main

import (
	"fmt"
	"time"

	"github.com/steve-care-software/steve/applications/languages/lexers"
	"github.com/steve-care-software/steve/applications/languages/parsers"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
	base "github.com/steve-care-software/steve/domain/languages/scripts/base/parsers"
)

func init() {
	register(&Property{ID: "C15", Run: runC15, Quick: 500, Thorough: 20000, Batch: 20,
		Rule:   "programs of the base language are drawn part by part together with what they say, written with drawn white space and remarks and sent to 1 to 3 simulated nodes; each node reads them with its own map order and turns them into programs with one parser and tables of events for drawn number sizes that its interleaved tasks share; nodes crash, messages are damaged, delayed and repeated",
		Real:   []string{"domain/languages/scripts/base/parsers", "domain/languages/scripts/resources/base", "applications/languages/parsers", "applications/languages/lexers", "domain/languages/lexers/..."},
		Stub:   []string{"map iteration order (seeded permutation per node)", "goroutine scheduling", "network between the author of programs and the nodes", "crashes"},
		Assume: []string{"lists, slices and operations nest only a few levels, reading them takes exponential time; a read that needs more than 500 million steps is not judged"}})
}

// pscript is one program that nodes are asked to read
type pscript struct {
	id     int
	root   string
	text   string
	want   string
	refuse string
	spoilt string
	bits   uint
	peak   int // how deep brackets stand in each other
}

type pnode struct {
	n      *Node
	lexer  lexers.Application
	parser parsers.Application
	events map[uint]map[string][]parsers.EventFunc
	kept   []*proot
}

// proot is a script that a node has read
type proot struct {
	s    *pscript
	text string
	rt   roots.Root
}

type pworld struct {
	w       *W
	answers map[string]string
	from    map[string]string
}

func (x *pworld) fresh(pn *pnode, bits []uint) {
	pn.lexer = newLexer("/base")
	pn.parser = parsers.NewApplication()
	pn.kept = nil
	pn.events = map[uint]map[string][]parsers.EventFunc{}
	for _, b := range bits {
		pn.events[b] = base.NewEvents(b)
	}
}

func (x *pworld) same(n *Node, key, out string) {
	if prev, ok := x.answers[key]; ok {
		x.w.Check(prev == out, "disagree", "%s answers differently than %s for %s: %s, %s", n.Name, x.from[key], key, out, prev)
		return
	}
	x.answers[key] = out
	x.from[key] = n.Name
}

func (x *pworld) parse(pn *pnode, rt roots.Root, bits uint) string {
	v, err := pn.parser.Execute(rt, pn.events[bits])
	if err != nil {
		return "refused"
	}
	return showProgram(v)
}

func (x *pworld) read(pn *pnode, s *pscript, text string, times int) {
	w := x.w
	intact := text == s.text
	r := lres{patterns: baseFiles["patterns"], rules: baseFiles["rules"], tokens: baseFiles["tokens"], channels: baseFiles["channels"], root: s.root, content: text}
	var out string
	var rt roots.Root
	slow := !w.Afford(func() { out, _, rt = r.call(pn.lexer, "Root") })
	if slow {
		w.Count("too_slow")
		w.Check(!intact || s.peak > 10 || s.spoilt != "", "slow", "%s does not come to an end with %q as %s", pn.n.Name, text, s.root)
		return
	}
	w.Count("programs_read")
	w.State(s.root, s.bits, text)
	x.same(pn.n, fmt.Sprintf("the reading of %q as %s", text, s.root), out)
	if rt == nil {
		w.Check(!intact || s.spoilt != "", "unread", "%s does not read %q as %s: %s, it says %s", pn.n.Name, text, s.root, out, s.want)
		return
	}
	pn.kept = append(pn.kept, &proot{s, text, rt})
	for i := 0; i < times; i++ {
		x.parsing(pn, pn.kept[len(pn.kept)-1])
	}
}

// parsing starts a task that turns what was read into a program
func (x *pworld) parsing(pn *pnode, k *proot) {
	w, s, text := x.w, k.s, k.text
	w.Go(pn.n, "parse", func() {
		got := x.parse(pn, k.rt, s.bits)
		w.Count("programs_parsed")
		x.same(pn.n, fmt.Sprintf("%d bits %s %q", s.bits, s.root, text), got)
		if text != s.text {
			return
		}
		if s.spoilt != "" {
			w.Count("spoilt_read")
			w.Check(got != s.want, "spoilt", "%s reads %q, which has %s, as %s", pn.n.Name, text, s.spoilt, got)
			return
		}
		if s.refuse != "" {
			w.Check(got == "refused", "range", "%s reads %q, where %s does not fit in %d bits, as %s", pn.n.Name, text, s.refuse, s.bits, got)
			return
		}
		w.Check(got == s.want, "meaning", "%s reads %q as %s, it says %s", pn.n.Name, text, got, s.want)
	})
}

func runC15(w *W) {
	w.Schedule()
	w.budget = 500_000_000 // reading a program takes millions of steps
	w.S.DefaultBudget = w.budget
	w.meanQ = 20_000 + 100*w.meanQ
	w.costNs = 1 + w.costNs/1000
	w.DrawNet()
	x := &pworld{w: w, answers: map[string]string{}, from: map[string]string{}}
	scripts := []*pscript{}
	bits := []uint{}
	for i := w.Range(1, 3); i > 0; i-- {
		b := pick(w.Source, uint(64), 64, 32, 16, 8)
		p := &pgen{w: w, bits: b, size: w.Range(1, 14), quiet: w.Chance(200), used: map[string]int{}}
		if w.Chance(200) {
			p.spoil = w.Range(1, 12)
			if w.Chance(400) {
				p.spoil, p.halves = w.Range(1, 2), true
			}
		}
		s := &pscript{id: len(scripts), root: baseRoots[w.Int(len(baseRoots))], bits: b}
		s.want = p.root(s.root)
		s.text = p.sb.String()
		s.refuse, s.spoilt, s.peak = p.refuse, p.spoilt, p.peak
		for _, k := range sortedKeys(p.used) {
			w.Count("has_" + k)
		}
		scripts = append(scripts, s)
		bits = append(bits, b)
		w.Logf("script %d: %s %q says %s %s %s", s.id, s.root, s.text, s.want, s.refuse, s.spoilt)
	}
	nodes := []*pnode{}
	for i := w.Range(1, 2); i > 0; i-- {
		n := w.AddNode(fmt.Sprint("n", len(nodes)))
		n.mapSeed = w.Draw(1 << 32)
		pn := &pnode{n: n}
		x.fresh(pn, bits)
		nodes = append(nodes, pn)
	}
	for _, s := range scripts {
		for _, pn := range nodes {
			times := w.Range(1, 3)
			s, pn := s, pn
			w.Send(nil, pn.n, "program", []byte(s.text), func(b []byte) {
				if len(b) == 0 || len(b) > 2*len(s.text) {
					return
				}
				x.read(pn, s, string(b), times)
			})
		}
	}
	if w.Chance(200) {
		pn := nodes[w.Int(len(nodes))]
		w.After(time.Duration(w.Int(200))*time.Millisecond, func() {
			w.Crash(pn.n)
			x.fresh(pn, bits)
			w.Restart(pn.n)
		})
	}
	w.Loop()
	w.nontri = true
	// reading takes much longer than parsing: everything that was read is now parsed at the same time
	w.meanQ = w.Log(1000)
	for _, pn := range nodes {
		for _, k := range pn.kept {
			for i := w.Range(0, 4); i > 0; i-- {
				x.parsing(pn, k)
			}
		}
	}
	w.Loop()
}
