//go:build go1.23

package main

import (
	"fmt"
	"time"

	"github.com/steve-care-software/steve/domain/hash"
)

func init() {
	real := []string{"domain/hash", "domain/rings", "domain/genesis", "domain/genesis/privates", "domain/transactions", "domain/transactions/secrets", "domain/transactions/privates", "domain/receipts", "domain/chains", "domain/identities", "domain/cryptography/keys/signature (fixtures)"}
	stub := []string{"network (ledger objects travel as field values)", "node clocks (wall and monotonic)", "time zones", "task scheduler"}
	register(&Property{
		ID: "C08", Run: worldLedgerHash, Quick: 4500, Thorough: 150000, Batch: 50,
		Rule: "Each run: a creator makes 2-8 ledger objects of any kind; 1-3 replicas in other time zones rebuild them from the field values, in another order of setters, interleaved and more than once, and an adversary replays them with small changes and reframings (digits moved between fields, optional parts moved, lists merged, times shifted, parts replaced by their hash).",
		Real: real, Stub: stub,
		Assume: []string{"SHA-512 has no collisions among the objects built", "times of transaction contents, blocks and chains count to the second"},
	})
	register(&Property{
		ID: "C09", Run: worldAdmission, Quick: 60000, Thorough: 200000, Batch: 50,
		Rule: "Each run: 1-3 creators whose wall clocks are skewed, drift and jump (while their monotonic clocks do not) build 3-10 ledger objects with missing fields, empty lists, rings of any size and times around the limits; 1-3 replicas with other clocks and time zones judge the same field values, interleaved and repeatedly.",
		Real: real, Stub: stub,
		Assume: []string{"the wall clock part of a time is what travels between nodes"},
	})
	register(&Property{
		ID: "C10", Run: worldBuilders, Quick: 60000, Thorough: 150000, Batch: 50,
		Rule: "Each run: 2-6 tasks share one application's builders and adapters and build 1-4 objects each (ledger objects, keys, ciphers, peers, hash trees), preempted at every statement; builders are reused after a first value was built and after refused attempts.",
		Real: append(real, "domain/cryptography", "domain/cryptography/keys/encryption", "domain/peers", "domain/hashtree", "applications/languages (resource builders)"), Stub: []string{"task scheduler", "entropy source"},
		Assume: []string{"a task starts from Create(), as the builders ask for"},
	})
}

var zones = []*time.Location{nil, time.UTC, time.FixedZone("east", 9*3600), time.FixedZone("west", -(4*3600 + 1800)), time.FixedZone("odd", 12345)}

// pickKind picks a kind, with more weight on those with many fields
func pickKind(w *W) string { return ledgerKinds[w.Int(len(ledgerKinds))] }

// hashRecords checks that a hash stands for one content only, and conversely
type hashRecords struct {
	w     *W
	canon map[string]map[hash.Hash]string
	hash  map[string]hash.Hash
	descs map[string]*D
}

func newHashRecords(w *W) *hashRecords {
	return &hashRecords{w: w, canon: map[string]map[hash.Hash]string{}, hash: map[string]hash.Hash{}, descs: map[string]*D{}}
}

func (r *hashRecords) add(d *D, h hash.Hash, where string) {
	w := r.w
	kind := d.Kind
	canon := d.Canon()
	w.counts["oracle_checks"] += 2
	if old, ok := r.hash[canon]; ok && old != h {
		w.Fail("replicas-disagree", "%s: the same %s has two hashes, %x and %x: %s", where, kind, old[:6], h[:6], d.short())
	}
	if r.canon[kind] == nil {
		r.canon[kind] = map[hash.Hash]string{}
	}
	if old, ok := r.canon[kind][h]; ok && old != canon {
		w.Fail("same-hash:"+kind, "%s: two different %s have the same hash %x:\n %s\n %s", where, kind, h[:6], r.descs[old].short(), d.short())
	}
	if h == (hash.Hash{}) {
		w.Fail("zero-hash:"+kind, "a %s has no hash", kind)
	}
	r.hash[canon] = h
	r.canon[kind][h] = canon
	r.descs[canon] = d
}

// all records an object and all its parts
func (r *hashRecords) all(c *ctx, d *D, where string) {
	c.built = func(d *D, v interface{}) {
		if h, ok := v.(hashed); ok {
			r.add(d, h.Hash(), where)
		}
	}
	if _, err := c.build(d); err != nil {
		r.w.Count("refused")
		return
	}
	r.w.Count("built")
}

func worldLedgerHash(w *W) {
	pool()
	w.Schedule()
	w.net.MaxDelay = 200_000_000
	g := newGen(w, true)
	rec := newHashRecords(w)
	focus := ""
	if w.Chance(600) {
		focus = pickKind(w)
	}
	type target struct {
		n *Node
		c *ctx
	}
	nodes := []target{}
	for i := 0; i < 1+w.Int(3); i++ {
		n := w.AddNode(fmt.Sprintf("replica%d", i))
		n.Skew()
		nodes = append(nodes, target{n, &ctx{w: w, b: newBuilders(), zone: pick(w.Source, zones...)}})
	}
	creator := w.AddNode("creator")
	creator.Skew()
	cc := &ctx{w: w, b: newBuilders(), local: true}
	g.clock = creator.Now
	made := []*D{}
	for i := 0; i < 2+w.Int(7); i++ {
		at := time.Duration(w.Int(5000)) * time.Millisecond
		if w.Chance(100) {
			w.After(at, func() { creator.Jump(time.Duration(w.Range(-3600, 3600)) * time.Second) })
		}
		w.After(at, func() {
			kind := focus
			if kind == "" || w.Chance(200) {
				kind = pickKind(w)
			}
			d := g.make(kind)
			made = append(made, d)
			w.Go(creator, "build "+kind, func() { rec.all(cc, d, "creator") })
			w.State(kind, len(d.Sub), len(d.List), len(d.Hashes))
			copies := []*D{d}
			for k := w.Int(3); k > 0; k-- {
				m := pick(w.Source, made...).clone()
				for j := 1 + w.Int(2); j > 0; j-- {
					g.mutate(m)
				}
				w.Fault("tampered_object")
				copies = append(copies, m)
			}
			for _, c := range copies {
				for _, t := range nodes {
					for k := 1 + w.Int(2); k > 0; k-- {
						w.After(time.Duration(w.Draw(uint64(w.net.MaxDelay))), func() {
							w.Go(t.n, "rebuild "+c.Kind, func() { rec.all(t.c, c, t.n.Name) })
						})
					}
				}
			}
		})
	}
	w.nontri = true
	w.Loop()
	w.Logf("%d objects, %d hashes", len(made), len(rec.hash))
	hashAdapterChecks(w)
}

// hashAdapterChecks: hashes survive the encodings in which they travel
func hashAdapterChecks(w *W) {
	ad := hash.NewAdapter()
	for k := 0; k < 2; k++ {
		in := w.Bytes(pick(w.Source, 0, 1, 63, 64, 65, 128, w.Int(200), 256, 512, 4096, 8192))
		if w.Chance(400) {
			// content that looks like the framing
			for i := range in {
				in[i] = 0
				if w.Chance(30) {
					in[i] = byte(pick(w.Source, 1, 8, 64, len(in)%256))
				}
			}
		}
		h, err := ad.FromBytes(in)
		w.Check(err == nil, "hash-adapter", "no hash for %d bytes", len(in))
		b, err := ad.FromBytes(h.Bytes())
		w.Check(err == nil && *b == *h && b.Compare(*h), "hash-adapter", "a hash does not survive its bytes")
		s, err := ad.FromString(h.String())
		w.Check(err == nil && *s == *h, "hash-adapter", "a hash does not survive its string")
		o := *h
		o[w.Int(64)] ^= 1 << w.Int(8)
		w.Check(!o.Compare(*h) && !h.Compare(o), "hash-adapter", "two different hashes compare equal")
		again, err := ad.FromBytes(in)
		w.Check(err == nil && *again == *h, "hash-adapter", "hashing is not deterministic")
		if len(in) > 1 {
			cut, other := w.Int(len(in)), w.Int(len(in))
			if w.Bool() {
				step := pick(w.Source, 64, 256, 8)
				cut, other = cut/step*step, other/step*step
			}
			m1, err := ad.FromMultiBytes([][]byte{in[:cut], in[cut:]})
			w.Check(err == nil, "hash-adapter", "no hash for 2 rows")
			m2, err := ad.FromMultiBytes([][]byte{append([]byte{}, in[:other]...), append([]byte{}, in[other:]...)})
			w.Check(err == nil && (*m1 == *m2) == (cut == other), "hash-adapter", "rows of %d bytes cut at %d and %d hash to %x and %x", len(in), cut, other, m1[:4], m2[:4])
			m3, err := ad.FromMultiBytes([][]byte{in[:cut], in[cut:], {}})
			w.Check(err == nil && *m1 != *m3, "hash-adapter", "an additional empty row does not count")
			flipped := append([]byte{}, in...)
			flipped[pick(w.Source, w.Int(len(in)), len(in)-1)] ^= 1 << w.Int(8)
			m4, err := ad.FromMultiBytes([][]byte{flipped[:cut], flipped[cut:]})
			w.Check(err == nil && *m1 != *m4, "hash-adapter", "a changed byte of %d does not count", len(in))
			f, err := ad.FromBytes(flipped)
			w.Check(err == nil && *f != *h, "hash-adapter", "a changed byte of %d does not count", len(in))
		}
	}
}

func worldAdmission(w *W) {
	pool()
	w.Schedule()
	type creator struct {
		n *Node
		c *ctx
		g *gen
	}
	replicas := []*ctx{}
	rnodes := []*Node{}
	for i := 0; i < 1+w.Int(3); i++ {
		n := w.AddNode(fmt.Sprintf("replica%d", i))
		n.Skew()
		rnodes = append(rnodes, n)
		replicas = append(replicas, &ctx{w: w, b: newBuilders(), zone: pick(w.Source, zones...)})
	}
	focus := ""
	if w.Chance(500) {
		focus = pick(w.Source, "unitContent", "genesis", "ring", "unit", "block", "secret", "units")
	}
	judge := func(c *ctx, d *D, who string) {
		_, err := c.build(d)
		want := d.admit()
		w.counts["oracle_checks"]++
		w.State(d.Kind, want)
		if (err == nil) != (want == "") {
			if err == nil {
				w.Fail("admitted:"+d.Kind, "%s admits a %s that must be refused (%s): %s", who, d.Kind, want, d.short())
			}
			w.Fail("refused:"+d.Kind, "%s refuses an admissible %s (%s): %s", who, d.Kind, err.Error(), d.short())
		}
		if err == nil {
			w.Count("admitted")
		} else {
			w.Count("refused")
		}
	}
	for i := 0; i < 1+w.Int(3); i++ {
		n := w.AddNode(fmt.Sprintf("creator%d", i))
		n.Skew()
		cr := &creator{n: n, c: &ctx{w: w, b: newBuilders(), local: true}, g: newGen(w, false)}
		cr.g.clock = n.Now
		for k := w.Int(4); k > 0; k-- {
			w.After(time.Duration(w.Int(8000))*time.Millisecond, func() {
				n.Jump(time.Duration(w.Range(-7200, 7200)) * time.Second)
			})
		}
		var pending *D
		for k := 0; k < 3+w.Int(8); k++ {
			w.After(time.Duration(w.Int(8000))*time.Millisecond, func() {
				kind := focus
				if kind == "" || w.Chance(200) {
					kind = pickKind(w)
				}
				d := cr.g.make(kind)
				// a genesis is often prepared before its units, or the reverse
				if kind == "genesis" && d.Sub["units"] != nil && w.Bool() {
					if pending != nil && pending.Sub["units"] != nil {
						d.Sub["units"] = pending.Sub["units"]
					}
					pending = d
				}
				if w.Chance(250) {
					cr.g.mutate(d)
				}
				w.Logf("%s creates a %s", n.Name, kind)
				w.Go(n, "build "+kind, func() { judge(cr.c, d, n.Name) })
				for j, rc := range replicas {
					for x := 1 + w.Int(2); x > 0; x-- {
						w.After(time.Duration(w.Int(300))*time.Millisecond, func() {
							w.Go(rnodes[j], "admit "+kind, func() { judge(rc, d, rnodes[j].Name) })
						})
					}
				}
			})
		}
	}
	w.nontri = true
	w.Loop()
}
