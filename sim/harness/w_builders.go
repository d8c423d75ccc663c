//go:build go1.23

package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/steve-care-software/steve/domain/cryptography/keys/signature"
	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/domain/peers"
	"github.com/steve-care-software/steve/domain/rings"
)

// builderCtor is a builder of the repository, driven by reflection
type builderCtor struct {
	name    string
	typ     reflect.Type
	out     reflect.Type
	new     func() reflect.Value
	setters []reflect.Method
}

func mkBuilder[T any](name string, fn func() T) builderCtor {
	b := builderCtor{name: name, typ: reflect.TypeOf((*T)(nil)).Elem(), new: func() reflect.Value { return reflect.ValueOf(fn()) }}
	for i := 0; i < b.typ.NumMethod(); i++ {
		m := b.typ.Method(i)
		switch {
		case m.Name == "Now":
			if m.Type.NumIn() == 0 && m.Type.NumOut() == 2 {
				b.out = m.Type.Out(0)
			}
		case m.Name == "Create":
		case m.Type.NumIn() <= 1 && m.Type.NumOut() == 1 && m.Type.Out(0) == b.typ:
			b.setters = append(b.setters, m)
		}
	}
	return b
}

type builderSet struct {
	all   []*builderCtor
	byOut map[reflect.Type][]*builderCtor
}

var theBuilders *builderSet

func allBuilders() *builderSet {
	if theBuilders != nil {
		return theBuilders
	}
	s := &builderSet{byOut: map[reflect.Type][]*builderCtor{}}
	list := append([]builderCtor{}, builderCtors...)
	list = append(list, mkBuilder("peers.PeerBuilder", func() peers.PeerBuilder { return peers.NewPeerBuilder(":") }))
	list = append(list, mkBuilder("rings.RingBuilder", func() rings.RingBuilder { return rings.NewRingBuilder(1, 4) }))
	for i := range list {
		b := &list[i]
		if b.out == nil {
			continue
		}
		s.all = append(s.all, b)
		s.byOut[b.out] = append(s.byOut[b.out], b)
	}
	theBuilders = s
	return s
}

const modulePath = "github.com/steve-care-software/steve/"

// valueGen makes argument values
type valueGen struct {
	w     *W
	memo  map[reflect.Type][]reflect.Value
	depth int
	left  int
}

var (
	typeTime    = reflect.TypeOf(time.Time{})
	typeHash    = reflect.TypeOf(hash.Hash{})
	typePriv    = reflect.TypeOf((*signature.PrivateKey)(nil)).Elem()
	typePub     = reflect.TypeOf((*signature.PublicKey)(nil)).Elem()
	typeSig     = reflect.TypeOf((*signature.Signature)(nil)).Elem()
	typeRingSig = reflect.TypeOf((*signature.RingSignature)(nil)).Elem()
	typeAny     = reflect.TypeOf((*interface{})(nil)).Elem()
)

// make returns a value of the type, if it can
func (g *valueGen) make(t reflect.Type) (reflect.Value, bool) {
	w := g.w
	switch t {
	case typeTime:
		return reflect.ValueOf(time.Unix(runEpoch+int64(w.Int(4)), int64(w.Int(2))).UTC()), true
	case typeHash:
		return reflect.ValueOf(rawHash(pick(w.Source, "a", "b", "c"))), true
	case typePriv:
		return reflect.ValueOf(pool().keys[w.Int(3)]), true
	case typePub:
		return reflect.ValueOf(pool().keys[w.Int(3)].PublicKey()), true
	case typeSig:
		return reflect.ValueOf(pool().sigs[w.Int(3)]), true
	case typeRingSig:
		return reflect.ValueOf(pool().auth[w.Int(3)]), true
	case typeAny:
		return reflect.ValueOf("any" + fmt.Sprint(w.Int(3))), true
	}
	switch t.Kind() {
	case reflect.String:
		return reflect.ValueOf(pick(w.Source, "a", "b", "name", "127.0.0.1:80", "localhost:8080", "Zz9", "é", "")).Convert(t), true
	case reflect.Bool:
		return reflect.ValueOf(w.Bool()).Convert(t), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		return reflect.ValueOf(pick(w.Source, 1, 2, 3, 0, 7, 64)).Convert(t), true
	case reflect.Array:
		v := reflect.New(t).Elem()
		for i := 0; i < v.Len(); i++ {
			e, ok := g.make(t.Elem())
			if !ok {
				return v, false
			}
			v.Index(i).Set(e)
		}
		return v, true
	case reflect.Slice:
		n := pick(w.Source, 1, 2, 3, 0)
		v := reflect.MakeSlice(t, 0, n)
		for i := 0; i < n; i++ {
			e, ok := g.make(t.Elem())
			if !ok {
				return v, false
			}
			v = reflect.Append(v, e)
		}
		return v, true
	case reflect.Map:
		v := reflect.MakeMap(t)
		for i := 1 + w.Int(2); i > 0; i-- {
			k, ok := g.make(t.Key())
			if !ok {
				return v, false
			}
			e, ok := g.make(t.Elem())
			if !ok {
				return v, false
			}
			v.SetMapIndex(k, e)
		}
		return v, true
	case reflect.Interface:
		return g.iface(t)
	}
	return reflect.Value{}, false
}

func (g *valueGen) iface(t reflect.Type) (reflect.Value, bool) {
	w := g.w
	memo := g.memo[t]
	if len(memo) > 0 && (g.depth > 4 || len(memo) > 3 || w.Chance(500)) {
		return memo[w.Int(len(memo))], true
	}
	kinds := allBuilders().byOut[t]
	if len(kinds) == 0 || g.depth > 9 || g.left <= 0 {
		return reflect.Value{}, false
	}
	g.depth++
	defer func() { g.depth-- }()
	for try := 0; try < 8; try++ {
		g.left--
		b := kinds[w.Int(len(kinds))]
		p := g.plan(b, 1+try%3)
		v, err := p.run(b.new(), nil)
		if err == nil && v.IsValid() && !v.IsNil() {
			g.memo[t] = append(g.memo[t], v)
			return v, true
		}
	}
	if len(memo) > 0 {
		return memo[0], true
	}
	return reflect.Value{}, false
}

type setOp struct {
	name string
	args []reflect.Value
}

// plan is what a task asks from a builder
type plan struct {
	b   *builderCtor
	ops []setOp
}

// plan makes a plan. Mode 1 calls every setter, 2 a single one, 3 any.
func (g *valueGen) plan(b *builderCtor, mode int) *plan {
	w := g.w
	p := &plan{b: b}
	add := func(m reflect.Method) {
		op := setOp{name: m.Name}
		for i := 0; i < m.Type.NumIn(); i++ {
			v, ok := g.make(m.Type.In(i))
			if !ok {
				return
			}
			op.args = append(op.args, v)
		}
		p.ops = append(p.ops, op)
	}
	n := len(b.setters)
	if n == 0 {
		return p
	}
	switch mode {
	case 1:
		for _, i := range w.Perm(n) {
			add(b.setters[i])
		}
	case 2:
		add(b.setters[w.Int(n)])
	default:
		for k := w.Int(n + 2); k > 0; k-- {
			add(b.setters[w.Int(n)])
		}
	}
	return p
}

var errNone = errors.New("no value")

// run executes the plan on a builder
func (p *plan) run(b reflect.Value, pause func()) (reflect.Value, error) {
	b = p.set(b, pause)
	return now(b)
}

func (p *plan) set(b reflect.Value, pause func()) reflect.Value {
	for _, op := range p.ops {
		if pause != nil {
			pause()
		}
		b = unwrap(b.MethodByName(op.name).Call(op.args)[0])
	}
	return b
}

func now(b reflect.Value) (reflect.Value, error) {
	out := b.MethodByName("Now").Call(nil)
	if !out[1].IsNil() {
		return reflect.Value{}, out[1].Interface().(error)
	}
	v := unwrap(out[0])
	if !v.IsValid() {
		return v, errNone
	}
	return v, nil
}

func unwrap(v reflect.Value) reflect.Value {
	if v.Kind() == reflect.Interface {
		return v.Elem()
	}
	return v
}

func (p *plan) String() string {
	names := []string{}
	for _, op := range p.ops {
		names = append(names, op.name)
	}
	return p.b.name + "." + strings.Join(names, ".")
}

// printer prints a value through its accessors
type printer struct {
	b    strings.Builder
	left int
	w    *W
}

func (pr *printer) print(v reflect.Value, depth int) {
	pr.left--
	if pr.left < 0 {
		return
	}
	if !v.IsValid() {
		pr.b.WriteString("nil")
		return
	}
	t := v.Type()
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr, reflect.Map, reflect.Slice, reflect.Func:
		if v.IsNil() {
			pr.b.WriteString("nil")
			return
		}
	}
	if t.Kind() == reflect.Interface {
		pr.print(v.Elem(), depth)
		return
	}
	switch x := v.Interface().(type) {
	case time.Time:
		fmt.Fprintf(&pr.b, "@%d", x.UnixNano())
		return
	case []byte:
		fmt.Fprintf(&pr.b, "%x", x)
		return
	case error:
		pr.b.WriteString(x.Error())
		return
	}
	elem := t
	if t.Kind() == reflect.Ptr {
		elem = t.Elem()
	}
	own := strings.HasPrefix(elem.PkgPath(), modulePath)
	if own && t != typeHash && t.NumMethod() > 0 && depth > 0 {
		fmt.Fprintf(&pr.b, "%s{", elem.Name())
		for i := 0; i < t.NumMethod(); i++ {
			m := t.Method(i)
			if m.Type.NumIn() != 1 || m.Type.NumOut() != 1 || m.Name == "Create" {
				continue
			}
			// only what tells something about the value
			pr.b.WriteString(m.Name)
			pr.b.WriteByte('=')
			var out []reflect.Value
			pan := pr.w.Try(func() { out = v.Method(i).Call(nil) })
			if pan != nil {
				pr.b.WriteString("panic")
			} else {
				pr.print(out[0], depth-1)
			}
			pr.b.WriteByte(';')
		}
		pr.b.WriteByte('}')
		return
	}
	if own && t != typeHash && t.NumMethod() > 0 {
		pr.b.WriteString(elem.Name())
		return
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(&pr.b, "%x", v.Interface())
			return
		}
		pr.b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			pr.print(v.Index(i), depth)
			pr.b.WriteByte(',')
		}
		pr.b.WriteByte(']')
	case reflect.Map:
		parts := []string{}
		it := v.MapRange()
		for it.Next() {
			sub := &printer{left: 50, w: pr.w}
			sub.print(it.Key(), 1)
			sub.b.WriteString(":")
			sub.print(it.Value(), depth)
			parts = append(parts, sub.b.String())
		}
		sort.Strings(parts)
		fmt.Fprintf(&pr.b, "map%v", parts)
	case reflect.Ptr:
		if s, ok := v.Interface().(fmt.Stringer); ok {
			pr.b.WriteString(s.String())
			return
		}
		pr.print(v.Elem(), depth)
	case reflect.Func, reflect.Chan:
		pr.b.WriteString(t.String())
	case reflect.Struct:
		pr.b.WriteString(elem.Name())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(&pr.b, "%x", math.Float64bits(v.Float()))
	default:
		fmt.Fprintf(&pr.b, "%v", v.Interface())
	}
}

func (w *W) fingerprint(v reflect.Value, depth int) string {
	pr := &printer{left: 400, w: w}
	pr.print(v, depth)
	return pr.b.String()
}

func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		from, to := i-60, i+60
		if from < 0 {
			from = 0
		}
		if to > len(s) {
			to = len(s)
		}
		return s[from:to]
	}
	return fmt.Sprintf("...%s... instead of ...%s...", cut(b), cut(a))
}

// accessorOf returns the accessor that answers to a setter
func accessorOf(v reflect.Value, setter string) reflect.Value {
	for _, name := range []string{strings.TrimPrefix(setter, "With"), setter} {
		if m := v.MethodByName(name); m.IsValid() && m.Type().NumIn() == 0 && m.Type().NumOut() == 1 {
			return m
		}
	}
	return reflect.Value{}
}

func isAlternative(v reflect.Value, setter string) bool {
	name := "Is" + strings.TrimPrefix(setter, "With")
	if strings.HasPrefix(setter, "Is") {
		name = setter
	}
	m := v.MethodByName(name)
	return m.IsValid() && m.Type().NumIn() == 0 && m.Type().NumOut() == 1 && m.Type().Out(0).Kind() == reflect.Bool
}

// checkAccessors: a value tells what its builder was given
func checkAccessors(w *W, p *plan, v reflect.Value) {
	last := map[string]setOp{}
	for _, op := range p.ops {
		last[op.name] = op
	}
	// alternatives: a value is one of them, whichever if several were given
	alt := 0
	for name := range last {
		if isAlternative(v, name) {
			alt++
		}
	}
	if _, ok := last["WithString"]; ok && p.b.name == "peers.PeerBuilder" {
		return
	}
	for _, m := range p.b.setters {
		op, set := last[m.Name]
		if set && alt > 1 && isAlternative(v, m.Name) {
			continue
		}
		base := strings.TrimPrefix(m.Name, "With")
		if skipAccessor[p.b.name+"."+base] {
			continue
		}
		if has := v.MethodByName("Has" + base); has.IsValid() && has.Type().NumIn() == 0 && has.Type().NumOut() == 1 && has.Type().Out(0).Kind() == reflect.Bool {
			want := set
			if set && len(op.args) == 1 {
				switch op.args[0].Kind() {
				case reflect.String, reflect.Slice, reflect.Map, reflect.Int, reflect.Uint, reflect.Uint8, reflect.Bool, reflect.Float64:
					// what an empty value stands for is up to the type
					if op.args[0].IsZero() || (op.args[0].Kind() != reflect.Bool && (op.args[0].Kind() == reflect.Slice || op.args[0].Kind() == reflect.Map) && op.args[0].Len() == 0) {
						continue
					}
				}
			}
			w.Check(has.Call(nil)[0].Bool() == want, "accessor:"+p.b.name+".Has"+base, "%s: Has%s is %v", p, base, !want)
		}
		if !set || len(op.args) != 1 {
			continue
		}
		acc := accessorOf(v, m.Name)
		if !acc.IsValid() {
			continue
		}
		out := acc.Call(nil)[0]
		in := op.args[0]
		if out.Kind() == reflect.Ptr && in.Kind() != reflect.Ptr && in.Kind() != reflect.Interface && out.Type().Elem() == in.Type() {
			if out.IsNil() {
				w.Fail("accessor:"+p.b.name+"."+base, "%s: %s is lost", p, base)
			}
			out = out.Elem()
		}
		if out.Type() != in.Type() && (out.Kind() != reflect.Interface || in.Kind() == reflect.Slice) {
			continue
		}
		a, b := w.fingerprint(in, 3), w.fingerprint(out, 3)
		w.Check(a == b, "accessor:"+p.b.name+"."+base, "%s: %s is %s", p, base, diffAt(a, b))
	}
}

// skipAccessor lists accessors that are documented not to be what was given
var skipAccessor = map[string]bool{
	// an element or a list of elements, which are told by the same type
	"applications/languages/parsers.ResultBuilder.List":    true,
	"applications/languages/parsers.ResultBuilder.Element": true,
	// an element or its boolean, which are told by the same method
	"languages/scripts/base/parsers.ValueBuilder.Element": true,
}

func worldBuilders(w *W) {
	pool()
	w.Schedule()
	if w.Chance(350) {
		sharedLedger(w)
		return
	}
	set := allBuilders()
	g := &valueGen{w: w, memo: map[reflect.Type][]reflect.Value{}, left: 400}
	n := w.AddNode("app")
	// one application shares a few builders among its tasks
	kinds := []*builderCtor{}
	for i := 1 + w.Int(3); i > 0; i-- {
		kinds = append(kinds, set.all[w.Int(len(set.all))])
	}
	shared := map[*builderCtor]reflect.Value{}
	for _, b := range kinds {
		shared[b] = b.new()
	}
	type done struct {
		what string
		v    reflect.Value
		fp   string
	}
	values := []*done{}
	w.nontri = true
	for i := 0; i < 2+w.Int(5); i++ {
		type job struct {
			p      *plan
			want   string
			err    string
			again  *plan
			root   bool
			create int
		}
		jobs := []*job{}
		for k := 1 + w.Int(3); k > 0; k-- {
			j := &job{p: g.plan(kinds[w.Int(len(kinds))], pick(w.Source, 1, 2, 3))}
			j.root = w.Chance(120)
			if w.Chance(300) {
				j.again = g.plan(j.p.b, pick(w.Source, 3, 1, 2))
			}
			// what it gives when it is alone
			v, err := j.p.run(j.p.b.new(), nil)
			if err != nil {
				j.err = err.Error()
			} else {
				j.want = w.fingerprint(v, 4)
				checkAccessors(w, j.p, v)
				w.Count("values")
			}
			w.State(j.p.b.name, err == nil, len(j.p.ops))
			w.Logf("task%d: %s", i, j.p)
			jobs = append(jobs, j)
		}
		w.Go(n, fmt.Sprintf("task%d", i), func() {
			for _, j := range jobs {
				root := shared[j.p.b]
				if j.root {
					// some leave their settings in the shared builder
					pan := w.Try(func() { j.p.set(root, nil) })
					_ = pan
					w.Fault("dirty_shared_builder")
					continue
				}
				b := unwrap(root.MethodByName("Create").Call(nil)[0])
				v, err := now2(j.p.set(b, nil))
				if j.err != "" {
					w.Check(err != nil, "interleaved:"+j.p.b.name, "%s: a value is built among other tasks, while alone it fails with: %s", j.p, j.err)
					w.Count("refused")
				} else {
					if err != nil {
						w.Fail("interleaved:"+j.p.b.name, "%s: fails among other tasks: %s", j.p, err.Error())
					}
					fp := w.fingerprint(v, 4)
					w.Check(fp == j.want, "interleaved:"+j.p.b.name, "%s: among other tasks it is %s", j.p, diffAt(j.want, fp))
					values = append(values, &done{j.p.String(), v, fp})
				}
				if j.again != nil {
					w.Fault("builder_reused")
					_, _ = now2(j.again.set(b, nil))
				}
			}
		})
	}
	w.Loop()
	for _, d := range values {
		fp := w.fingerprint(d.v, 4)
		w.Check(fp == d.fp, "changed-later:"+strings.SplitN(d.what, ".", 2)[0], "%s changed after it was built: %s", d.what, diffAt(d.fp, fp))
	}
}

func now2(b reflect.Value) (reflect.Value, error) { return now(b) }

// sharedLedger: tasks of an application share its ledger builders
func sharedLedger(w *W) {
	n := w.AddNode("app")
	c := &ctx{w: w, b: newBuilders()}
	c.check = func(what string, ok bool) {
		w.Check(ok, "ledger-accessor:"+what, "%s is not what its builder was given", what)
	}
	g := newGen(w, false)
	solo := &ctx{w: w, b: newBuilders(), first: true}
	w.nontri = true
	for i := 0; i < 2+w.Int(5); i++ {
		type job struct {
			d    *D
			want hash.Hash
			bad  bool
		}
		jobs := []*job{}
		for k := 1 + w.Int(2); k > 0; k-- {
			d := g.make(pickKind(w))
			j := &job{d: d}
			v, err := solo.build(d)
			if err != nil {
				j.bad = true
			} else if h, ok := v.(hashed); ok {
				j.want = h.Hash()
			}
			jobs = append(jobs, j)
			w.State(d.Kind, j.bad)
			w.Logf("task%d: %s", i, d.Kind)
		}
		w.Go(n, fmt.Sprintf("task%d", i), func() {
			for _, j := range jobs {
				v, err := c.build(j.d)
				w.Check((err != nil) == j.bad, "interleaved:"+j.d.Kind, "%s: among other tasks the verdict is %v", j.d.short(), err)
				if err != nil {
					continue
				}
				if h, ok := v.(hashed); ok {
					got := h.Hash()
					w.Check(got == j.want, "interleaved:"+j.d.Kind, "%s: among other tasks its hash is %x instead of %x", j.d.short(), got[:4], j.want[:4])
				}
			}
		})
	}
	w.Loop()
}
