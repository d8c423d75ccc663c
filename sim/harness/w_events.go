//go:build go1.23

package main

import (
	"errors"
	"fmt"
	"reflect"
	"time"

	"github.com/steve-care-software/steve/applications/languages/parsers"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
)

func init() {
	register(&Property{ID: "C14", Run: runC14, Quick: 3000, Thorough: 150000, Batch: 50,
		Rule:   "scripts of drawn grammars are read into instances; tasks that share instances, managers and the application execute drawn tables of events over them: events are missing, fail permanently or for a while, before or after they triggered others, take time, and give single values, lists or results; every call, its order and every value is compared with a recorder",
		Real:   []string{"applications/languages/parsers", "applications/languages/lexers", "domain/languages/lexers/roots"},
		Stub:   []string{"events (drawn)", "goroutine scheduling", "time", "map iteration order"},
		Assume: []string{"an event that panics is a bug of the event"}})
}

// xexec is one execution of a table of events by a task
type xexec struct {
	table int
	seq   int
	tries map[roots.Root]int
	begun map[roots.Root]int // when the first event of the root was called
	won   map[roots.Root]int // when the events of the root last succeeded
	value map[roots.Root]interface{}
	list  map[roots.Root]bool // the value is a list
	depth int
}

type xtable struct {
	id     int
	events map[string][]parsers.EventFunc
	mgr    parsers.Manager
}

type xworld struct {
	w     *W
	execs map[int64]*xexec
	flaky int
}

func (x *xworld) cur() *xexec { return x.execs[curTask()] }

// start begins the record of an execution by this task
func (x *xworld) start(t *xtable) *xexec {
	e := &xexec{table: t.id, tries: map[roots.Root]int{}, begun: map[roots.Root]int{}, won: map[roots.Root]int{}, value: map[roots.Root]interface{}{}, list: map[roots.Root]bool{}}
	x.execs[curTask()] = e
	return e
}

func show(v interface{}) string { return fmt.Sprintf("%v", v) }

// trigger triggers an element and checks what it gives
func (x *xworld) trigger(e *xexec, mgr parsers.Manager, name string, root roots.Root) (interface{}, error) {
	w := x.w
	from := e.seq
	res, err := mgr.Trigger(name, root)
	w.Count("triggers")
	ok := func(r roots.Root) bool { return e.won[r] > from }
	nd := below(root, name)
	if nd == nil {
		w.Check(err != nil, "absent", "triggering %s, which %q does not contain, gives %v", name, root.Content(), res)
		return nil, err
	}
	want := []interface{}{}
	missing := ""
	for _, c := range nd.Containers().List() {
		if !c.HasRoot() {
			want = append(want, c.Content())
			continue
		}
		if !ok(c.Root()) {
			missing = c.Content()
			break
		}
		want = append(want, e.value[c.Root()])
	}
	if missing != "" {
		w.Check(err != nil, "no-event", "triggering %s of %q gives %v although no event succeeded for %q", name, root.Content(), res, missing)
		return nil, err
	}
	w.Check(err == nil, "trigger-error", "triggering %s of %q fails although its events gave %s: %v", name, root.Content(), show(want), err)
	w.Check(reflect.DeepEqual(res.List(), want), "values", "triggering %s of %q gives %s, its events gave %s", name, root.Content(), show(res.List()), show(want))
	w.Check(reflect.DeepEqual(res.First(), want[0]) && res.IsSingle() == (len(want) <= 1), "first", "triggering %s of %q gives %s first of %s", name, root.Content(), show(res.First()), show(want))
	return res.List(), nil
}

// below finds the element with a name under an instance: one of the instance
// itself, or else the first one of what it contains
func below(root roots.Root, name string) roots.Node {
	all := root.Nodes().All()
	if nd, ok := all[name]; ok {
		return nd
	}
	for _, k := range sortedKeys(all) {
		for _, c := range all[k].Containers().List() {
			if c.HasRoot() {
				if nd := below(c.Root(), name); nd != nil {
					return nd
				}
			}
		}
	}
	return nil
}

// lookups compares what the parts of an instance say about a name with what
// they contain
func lookups(w *W, root roots.Root, name string) {
	w.Count("lookups")
	say := func(rt roots.Root, nd roots.Node, ct roots.Container, txt string, err error) string {
		switch {
		case err != nil:
			return "absent"
		case rt != nil:
			return fmt.Sprintf("instance %p", rt)
		case nd != nil:
			return fmt.Sprintf("element %p", nd)
		case ct != nil:
			return fmt.Sprintf("match %p", ct)
		case txt != "":
			return "text " + txt
		}
		return "absent"
	}
	want := func(nd roots.Node) string {
		if nd == nil {
			return "absent"
		}
		return fmt.Sprintf("element %p", nd)
	}
	all := root.Nodes().All()
	w.Check(root.Nodes().Amount() == uint(len(all)), "amount", "%q has %d elements, not %d", root.Content(), len(all), root.Nodes().Amount())
	direct, there := all[name]
	w.Check(root.Nodes().Exists(name) == there, "exists", "%s exists in %q: %v", name, root.Content(), !there)
	got, err := root.Nodes().Fetch(name)
	w.Check((err == nil) == there && (!there || got == direct), "fetch", "fetching %s of %q gives %v %v", name, root.Content(), got, err)
	nd := below(root, name)
	w.Check(say(root.Nodes().Scan(name)) == want(nd), "find", "scanning %q for %s finds %s, it contains %s", root.Content(), name, say(root.Nodes().Scan(name)), want(nd))
	exp := want(nd)
	if root.Name() == name {
		exp = fmt.Sprintf("instance %p", root)
	}
	w.Check(say(root.Scan(name)) == exp, "find", "scanning the instance %s %q for %s finds %s, it contains %s", root.Name(), root.Content(), name, say(root.Scan(name)), exp)
	for _, k := range sortedKeys(all) {
		n := all[k]
		w.Check(n.Name() == k, "named", "the element %s is named %s", k, n.Name())
		text := ""
		inside := "absent"
		for _, c := range n.Containers().List() {
			text += c.Content()
			w.Check(c.Name() == k, "named", "a match of %s is named %s", k, c.Name())
			exp := "absent"
			if c.HasRoot() {
				exp = want(below(c.Root(), name))
				w.Check(c.Root().Name() == k && c.Root().Content() == c.Content(), "named", "a match of %s %q is the instance %s %q", k, c.Content(), c.Root().Name(), c.Root().Content())
			}
			if c.Name() == name {
				exp = fmt.Sprintf("match %p", c)
			}
			w.Check(say(c.Scan(name)) == exp, "find", "scanning the match %s %q for %s finds %s, it contains %s", k, c.Content(), name, say(c.Scan(name)), exp)
			if inside == "absent" {
				inside = exp
			}
		}
		w.Check(n.Content() == text && n.Containers().Content() == text, "text", "the text of the element %s is %q, that of its matches %q", k, n.Content(), text)
		w.Check(say(n.Containers().Scan(name)) == inside, "find", "scanning the matches of %s for %s finds %s, they contain %s", k, name, say(n.Containers().Scan(name)), inside)
		if k == name {
			inside = fmt.Sprintf("element %p", n)
		}
		w.Check(say(n.Scan(name)) == inside, "find", "scanning the element %s for %s finds %s, it contains %s", k, name, say(n.Scan(name)), inside)
		ct, err := n.Containers().Fetch(name)
		w.Check((err == nil) == (name == k) && (err != nil || ct.Name() == name), "fetch", "fetching %s from the matches of %s gives %v %v", name, k, ct, err)
		for _, c := range n.Containers().List() {
			if c.HasRoot() && w.Chance(300) {
				lookups(w, c.Root(), name)
			}
		}
	}
}

func (x *xworld) table(id int, g *lgram) *xtable {
	w := x.w
	t := &xtable{id: id, events: map[string][]parsers.EventFunc{}}
	names := []string{}
	for _, k := range g.toks {
		if !w.Chance(60) {
			names = append(names, k.name)
		}
	}
	if len(names) == 0 {
		names = append(names, g.toks[0].name)
	}
	kids := append([]string{"zzabsent"}, names...)
	for _, name := range names {
		n := w.Range(1, 3)
		deaths := 200
		if w.Chance(120) {
			// many events, of which only a late one succeeds
			n, deaths = w.Range(4, 12), 900
		}
		for idx := 0; idx < n; idx++ {
			dead := w.Chance(deaths)
			late := w.Bool()
			sleep := time.Duration(0)
			if w.Chance(200) {
				sleep = time.Duration(w.Range(1, 20)) * time.Millisecond
			}
			shape := w.Int(7)
			if w.Chance(30) {
				shape = 9
			}
			all := w.Chance(700)
			name, idx := name, idx
			t.events[name] = append(t.events[name], func(root roots.Root, mgr parsers.Manager) (interface{}, error) {
				e := x.cur()
				w.Count("events")
				w.Check(e != nil && e.table == id, "foreign-event", "an event of table %d runs in an execution of another table", id)
				w.Check(root.Name() == name, "foreign-root", "the event of %s is called with %s", name, root.Name())
				if idx == 0 {
					e.tries[root] = 0
					e.begun[root] = e.seq
				}
				w.Check(e.won[root] <= e.begun[root], "after-success", "event %d of %s is called for %q after one that succeeded", idx, name, root.Content())
				w.Check(e.tries[root] == idx, "order", "event %d of %s is called after %d events of %q", idx, name, e.tries[root], root.Content())
				e.tries[root]++
				if sleep > 0 {
					w.SleepFor(sleep)
				}
				fail := dead || (x.flaky > 0 && w.Chance(x.flaky))
				if fail {
					w.Fault("event_error")
				}
				if fail && !late {
					return nil, errors.New("simulated failure of %d an event")
				}
				out := fmt.Sprintf("%s.%d(", name, idx)
				e.depth++
				nodes := root.Nodes().All()
				for _, k := range sortedKeys(nodes) {
					if !all && w.Chance(300) {
						continue
					}
					v, err := x.trigger(e, mgr, k, root)
					if err != nil && w.Bool() {
						e.depth--
						return nil, err
					}
					out += k + "=" + show(v) + " "
				}
				if k := kids[w.Int(len(kids))]; e.depth < 4 && w.Chance(100) && nodes[k] != nil {
					// an event executes what it contains by itself
					c := nodes[k].Containers().List()[0]
					if c.HasRoot() {
						from := e.seq
						res, err := mgr.Execute(c.Root())
						w.Count("inner_executions")
						empty := e.won[c.Root()] > from && e.value[c.Root()] == nil
						w.Check(empty || (err == nil) == (e.won[c.Root()] > from), "inner", "an event executes %q: %v %v", c.Content(), res, err)
						if err == nil && !empty {
							want := []interface{}{e.value[c.Root()]}
							if e.list[c.Root()] {
								want = e.value[c.Root()].([]interface{})
							}
							w.Check(reflect.DeepEqual(res.List(), want), "inner", "an event executes %q, which gives %s, its event gave %s", c.Content(), show(res.List()), show(want))
						}
						out += fmt.Sprint("!", k, err == nil)
					}
				}
				if e.depth < 4 && w.Chance(100) {
					k := kids[w.Int(len(kids))]
					v, err := x.trigger(e, mgr, k, root)
					out += "?" + k + "=" + show(v) + show(err != nil)
				}
				e.depth--
				if fail {
					return nil, errors.New("simulated late failure")
				}
				out += ")"
				e.seq++
				e.won[root] = e.seq
				e.list[root] = false
				e.value[root] = out
				switch shape {
				case 0:
					r, err := parsers.NewResultBuilder().Create().WithElement(out).Now()
					w.Check(err == nil, "result", "a result of one element is not built: %v", err)
					return r, nil
				case 1:
					l := []interface{}{out, name, idx}
					r, err := parsers.NewResultBuilder().Create().WithList(l).Now()
					w.Check(err == nil, "result", "a result of three elements is not built: %v", err)
					e.value[root] = l
					e.list[root] = true
					return r, nil
				case 3:
					// values that look like no value
					v := pick[interface{}](w.Source, false, 0, "", []interface{}{}, struct{}{})
					e.value[root] = v
					return v, nil
				case 4:
					v := []interface{}{out, nil}
					e.value[root] = v
					return v, nil
				case 9:
					e.value[root] = nil
					return nil, nil
				case 2:
					v := []string{out}
					e.value[root] = v
					return v, nil
				}
				return out, nil
			})
		}
	}
	return t
}

func runC14(w *W) {
	w.Schedule()
	node := w.AddNode("n0")
	node.mapSeed = w.Draw(1 << 32)
	x := &xworld{w: w, execs: map[int64]*xexec{}, flaky: pick(w.Source, 0, 0, 50, 300)}
	g := newGram(w, "")
	lexer := newLexer("/lang")
	insts := []roots.Root{}
	texts := map[roots.Root]string{}
	for i := w.Range(1, 3); i > 0; i-- {
		tok := g.toks[0].name
		if w.Chance(200) {
			tok = g.toks[w.Int(len(g.toks))].name
		}
		script, n := g.derive(w, tok, 30)
		if script == "" {
			continue
		}
		w.Go(node, "read", func() {
			r := g.res(tok, script)
			out, _, rt := r.call(lexer, "Root")
			w.Check(rt != nil, "refused", "%q is not read as %s: %s", script, n, out)
			insts = append(insts, rt)
			texts[rt] = printRoot(rt)
		})
	}
	w.Loop()
	if len(insts) == 0 {
		return
	}
	for _, root := range insts {
		name := pick(w.Source, g.toks[w.Int(len(g.toks))].name, g.toks[w.Int(len(g.toks))].name, g.rules[w.Int(len(g.rules))].name, "zzabsent")
		w.Go(node, "lookups", func() { lookups(w, root, name) })
	}
	w.Loop()
	app := parsers.NewApplication()
	mb := parsers.NewManagerBuilder()
	tables := []*xtable{}
	for i := w.Range(1, 3); i > 0; i-- {
		t := x.table(i, g)
		tables = append(tables, t)
		w.Go(node, "manager", func() {
			m, err := mb.Create().WithEvents(t.events).Now()
			w.Check(err == nil, "manager", "a manager is not built: %v", err)
			t.mgr = m
		})
	}
	w.Loop()
	_, err := mb.Create().WithEvents(map[string][]parsers.EventFunc{}).Now()
	w.Check(err != nil, "manager", "a manager without events is built")
	for i := w.Range(2, 6); i > 0; i-- {
		t := tables[w.Int(len(tables))]
		root := insts[w.Int(len(insts))]
		how := w.Int(3)
		w.After(time.Duration(w.Int(20))*time.Millisecond, func() {
			w.Go(node, "execute", func() {
				e := x.start(t)
				w.Count("executions")
				name := root.Name()
				if how == 2 {
					nodes := sortedKeys(root.Nodes().All())
					k := nodes[w.Int(len(nodes))]
					v, err := x.trigger(e, t.mgr, k, root)
					w.State("trigger", k, v, err != nil)
					w.Logf("trigger %s: %s %v", k, show(v), err)
					return
				}
				var got interface{}
				var list []interface{}
				var err error
				if how == 0 {
					got, err = app.Execute(root, t.events)
				} else {
					var res parsers.Result
					if res, err = t.mgr.Execute(root); err == nil {
						got, list = res.First(), res.List()
					}
				}
				w.State("execute", got, err != nil)
				w.Logf("execute %s: %s %v", name, show(got), err)
				if e.won[root] == 0 {
					w.Check(err != nil, "no-event", "executing %q gives %s although no event succeeded", root.Content(), show(got))
					w.Check(len(t.events[name]) == e.tries[root], "given-up", "executing %q ends after %d of %d events", root.Content(), e.tries[root], len(t.events[name]))
					return
				}
				if e.value[root] == nil {
					// an event that gives nothing: there is no value to compare
					return
				}
				w.Check(err == nil, "execute-error", "executing %q fails although its event gave %s: %v", root.Content(), show(e.value[root]), err)
				want := []interface{}{e.value[root]}
				if e.list[root] {
					want = e.value[root].([]interface{})
				}
				w.Check(reflect.DeepEqual(got, want[0]), "value", "executing %q gives %s, its event gave %s", root.Content(), show(got), show(want[0]))
				if how == 1 {
					w.Check(reflect.DeepEqual(list, want), "values", "executing %q gives %s, its event gave %s", root.Content(), show(list), show(want))
				}
			})
		})
	}
	w.Loop()
	for _, r := range insts {
		now := printRoot(r)
		w.Check(now == texts[r], "changed", "executing events changed the instance\n%s\ninto\n%s", texts[r], now)
	}
	w.nontri = true
}
