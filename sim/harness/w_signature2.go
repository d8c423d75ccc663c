//go:build go1.23

package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strings"
	"time"

	"github.com/steve-care-software/steve/domain/cryptography/keys/signature"
	"github.com/steve-care-software/steve/verifsim/simrt"
	kyber "go.dedis.ch/kyber/v3"
)

func init() {
	real := []string{"domain/cryptography/keys/signature", "domain/hash", "vendored kyber edwards25519"}
	stub := []string{"network", "entropy source", "node disks", "pseudo-random numbers", "task scheduler", "clock"}
	register(&Property{
		ID: "C02", Run: worldSignature, Quick: 2200, Thorough: 60000, Batch: 25,
		Rule: "Each run: 1-4 key holders sign 1-5 messages; 2-4 nodes with their own pseudo-random numbers decode what a hostile network delivers (and signatures crafted on points with a small-order component) and derive the verdict and the public key several times, interleaved with other messages and other tasks on the same object.",
		Real: real, Stub: stub,
		Assume: []string{"the discrete logarithm and SHA-256 are hard"},
	})
	register(&Property{
		ID: "C03", Run: worldNonce, Quick: 2500, Thorough: 60000, Batch: 25,
		Rule: "Each run: 1-3 key holders publish 2-10 plain and ring signatures over colliding, prefixed and repeated messages and changing rings, crash and sign again, lose, rewind and starve their entropy; an attacker who sees everything that was published solves the published equations (equal, opposite, shifted and small nonces, published or publicly computable scalars used as nonces or keys).",
		Real: real, Stub: append(stub, "attacker"),
		Assume: []string{"the attacker tries the listed relations between nonces, not every relation", "the discrete logarithm and SHA-256 are hard"},
	})
	register(&Property{
		ID: "C04", Run: worldAnonymity, Quick: 2500, Thorough: 60000, Batch: 25,
		Rule: "Each run: 2-4 key holders ring-sign the same and related messages with overlapping rings, sign some of them plainly, crash and repeat requests; an observer of the whole history links responses, commitments and challenges across signatures and compares them with everything that can be computed publicly for every member.",
		Real: real, Stub: append(stub, "observer"),
		Assume: []string{"the observer uses the listed distinguishers, not every distinguisher"},
	})
}

type pubSig struct {
	h    *holder
	msg  string
	wire string
}

func worldSignature(w *W) {
	w.ScheduleFine()
	when := w.instants(500)
	w.DrawNet()
	holders := []*holder{}
	pubs := map[string]bool{}
	for i := 0; i < 1+w.Int(4); i++ {
		h := newHolder(w, fmt.Sprintf("holder%d", i))
		holders = append(holders, h)
		pubs[h.pub] = true
		if w.Chance(250) {
			h.crash(w, time.Duration(w.Int(400))*time.Millisecond)
		}
	}
	nodes := []*Node{}
	for i := 0; i < 2+w.Int(3); i++ {
		nodes = append(nodes, w.AddNode(fmt.Sprintf("node%d", i)))
	}
	sigs := []*pubSig{}
	signedBy := func(pub, msg string) bool {
		for _, s := range sigs {
			if s.h.pub == pub && s.msg == msg {
				return true
			}
		}
		return false
	}
	adapter := signature.NewAdapter()
	verdicts := map[string]string{} // encoded + message -> what the first node concluded

	// judge is one node's view of an encoded signature
	judge := func(n *Node, enc, msg string, again bool) {
		sig, err := adapter.ToSignature(enc)
		verdict := "refused"
		if err == nil {
			verdict = fmt.Sprintf("%v by %s", sig.Verify(), sig.PublicKey(msg).String())
			for k := w.Int(4); k > 0; k-- {
				switch w.Int(3) {
				case 0:
					o := otherMsg(w, msg)
					p := sig.PublicKey(o).String()
					w.Check(!pubs[p] || signedBy(p, o), "attribution", "a signature is attributed to a key for a message that its holder never signed")
				case 1:
					v := sig.Verify()
					w.Check(strings.HasPrefix(verdict, fmt.Sprint(v)), "verdict-retry", "the same signature verifies differently when it is asked again")
				case 2:
					p := sig.PublicKey(msg).String()
					w.Check(strings.HasSuffix(verdict, p), "key-retry", "the same signature and message give another public key when asked again")
				}
			}
			p := sig.PublicKey(msg).String()
			w.Check(!pubs[p] || signedBy(p, msg), "attribution", "a signature on %q is attributed to a key whose holder never signed it", clip(msg))
			w.Check(strings.HasSuffix(verdict, p), "key-retry", "the same signature and message give another public key when asked again")
			// sending it on keeps its meaning
			back, err := adapter.ToSignature(sig.String())
			w.Check(err == nil, "re-encode", "an accepted signature cannot be sent on: %v", err)
			w.Check(back.PublicKey(msg).String() == p && back.Verify() == sig.Verify(), "re-encode", "a signature changes its meaning when it is encoded again")
		}
		w.Logf("%s: %s", n.Name, verdict)
		w.State("verdict", strings.Split(verdict, " ")[0], len(msg) > 64)
		key := enc + "\x00" + msg
		if first, ok := verdicts[key]; ok {
			w.Count("compared_verdicts")
			w.Check(first == verdict, "verdict-nodes", "two evaluations of the same signature and message disagree: %s / %s", first, verdict)
		} else {
			verdicts[key] = verdict
		}
		for _, s := range sigs {
			if s.wire == enc && s.msg == msg {
				w.Check(verdict == "true by "+s.h.pub, "complete", "a genuine signature: %s (expected: true by %s)", verdict, s.h.pub)
			}
		}
	}
	spread := func(from *Node, enc, msg string) {
		for _, n := range nodes {
			for k := 1 + w.Int(2); k > 0; k-- {
				w.Send(from, n, "signature", []byte(enc), func(b []byte) {
					m := msg
					if w.Chance(200) {
						m = otherMsg(w, msg)
						w.Fault("other_message")
					}
					judge(n, string(b), m, true)
					if string(b) != enc {
						// every other node sees the same damaged bytes
						for _, o := range nodes {
							if o != n {
								w.Go(o, "signature", func() { judge(o, string(b), m, true) })
							}
						}
					}
				})
			}
		}
	}
	for i := 0; i < 1+w.Int(5); i++ {
		h := pick(w.Source, holders...)
		msg := genMsg(w)
		w.After(when(), func() {
			if !h.n.Up {
				return
			}
			w.Go(h.n, "sign", func() {
				pk := h.load(w)
				s := &pubSig{h: h, msg: msg}
				sigs = append(sigs, s)
				sig, err := pk.Sign(msg)
				w.Check(err == nil, "sign", "a holder cannot sign: %v", err)
				s.wire = sig.String()
				w.Check(sig.Verify(), "complete", "a fresh signature is not valid")
				w.Check(sig.PublicKey(msg).String() == h.pub, "complete", "a fresh signature is not attributed to its signer")
				w.Check(sig.PublicKey(msg).Equals(pk.PublicKey()), "complete", "a fresh signature is not attributed to its signer")
				o := otherMsg(w, msg)
				w.Check(!sig.PublicKey(o).Equals(pk.PublicKey()), "attribution", "a signature on %q is also one on %q", clip(msg), clip(o))
				w.Logf("%s signs %d bytes", h.n.Name, len(msg))
				spread(h.n, s.wire, msg)
			})
		})
	}
	// crafted signatures: R with a small-order component, odd scalars
	mallory := w.AddNode("mallory")
	for i := w.Int(4); i > 0; i-- {
		w.After(time.Duration(w.Int(900))*time.Millisecond, func() {
			w.Go(mallory, "craft", func() {
				msg := genMsg(w)
				var r kyber.Point
				s := randScalar(w).String()
				k := randScalar(w)
				r = edw.Point().Mul(k, edw.Point().Base())
				kind := w.Int(6)
				if tp, ok := pointOf(pick(w.Source, torsion...)); ok && kind < 3 {
					r = edw.Point().Add(r, tp)
					if kind == 2 {
						r = tp
					}
				}
				if kind == 3 && len(sigs) > 0 {
					// the response of another signature
					if b, err := base64.StdEncoding.DecodeString(pick(w.Source, sigs...).wire); err == nil && len(b) == 129 {
						s = string(b[65:])
					}
				}
				if kind == 4 {
					s = pick(w.Source, strings.Repeat("0", 64), strings.Repeat("f", 64), s[:40], s+"00", "edd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010")
				}
				if kind == 5 && len(sigs) > 0 {
					// the commitment of another signature
					if b, err := base64.StdEncoding.DecodeString(pick(w.Source, sigs...).wire); err == nil && len(b) == 129 {
						if p, ok := pointOf(string(b[:64])); ok {
							r = p
						}
					}
				}
				w.Fault("crafted_signature")
				enc := base64.StdEncoding.EncodeToString([]byte(r.String() + "#" + s))
				for _, n := range nodes {
					for k := 0; k < 3; k++ {
						w.After(0, func() { w.Go(n, "signature", func() { judge(n, enc, msg, true) }) })
					}
				}
			})
		})
	}
	w.Loop()
	for _, s := range sigs {
		if s.wire == "" {
			continue
		}
		for _, n := range nodes {
			w.Go(n, "signature", func() { judge(n, s.wire, s.msg, true) })
		}
	}
	w.Loop()
}

// ---- what an observer of the whole history can compute

type equation struct {
	pub    string // key this equation is about, if its signer was known
	r      kyber.Point
	rs     string
	e, s   kyber.Scalar
	origin string
	sig    int
	pos    int
}

type observer struct {
	w    *W
	eqs  []*equation
	sing []kyber.Scalar // scalars that were published or can be computed by anyone
	name []string
	seen map[string]bool
}

func (o *observer) scalar(s kyber.Scalar, what string) {
	k := s.String()
	if o.seen == nil {
		o.seen = map[string]bool{}
	}
	if o.seen[k] {
		return
	}
	o.seen[k] = true
	o.sing = append(o.sing, s)
	o.name = append(o.name, what)
}

// public scalars of a message
func (o *observer) message(msg string) {
	o.scalar(challenge(msg), "the hash of a message")
	for i := 0; i < 4; i++ {
		o.scalar(challenge(fmt.Sprintf("%s%d", msg, i)), "the hash of a message and an index")
	}
}

func (o *observer) plain(id int, pub, msg, wire string) bool {
	b, err := base64.StdEncoding.DecodeString(wire)
	if err != nil {
		return false
	}
	p := strings.Split(string(b), "#")
	if len(p) != 2 {
		return false
	}
	r, ok1 := pointOf(p[0])
	s, ok2 := scalarOf(p[1])
	if !ok1 || !ok2 {
		return false
	}
	e := challenge(msg + r.String())
	o.scalar(s, "a published response")
	o.message(msg)
	o.eqs = append(o.eqs, &equation{pub: pub, r: r, rs: r.String(), e: e, s: s, origin: "plain", sig: id})
	return true
}

func (o *observer) ring(id int, msg string, wr *ringWire) bool {
	e, ok := scalarOf(wr.e)
	if !ok || len(wr.s) != len(wr.ring) {
		return false
	}
	g := edw.Point().Base()
	o.message(msg)
	for i := range wr.ring {
		p, ok1 := pointOf(wr.ring[i])
		s, ok2 := scalarOf(wr.s[i])
		if !ok1 || !ok2 {
			return false
		}
		r := edw.Point().Add(edw.Point().Mul(s, g), edw.Point().Mul(e, p))
		o.eqs = append(o.eqs, &equation{pub: wr.ring[i], r: r, rs: r.String(), e: e, s: s, origin: "ring", sig: id, pos: i})
		o.scalar(s, "a published response")
		o.scalar(e, "a challenge")
		e = challenge(msg + r.String())
	}
	return true
}

// attack tries to compute a private key from what was published
func (o *observer) attack(victims map[string]string) {
	w := o.w
	g := edw.Point().Base()
	isKey := func(x kyber.Scalar, how string, a, b *equation) {
		pub := edw.Point().Mul(x, g).String()
		if name, ok := victims[pub]; ok {
			d := ""
			if b != nil {
				d = fmt.Sprintf(" (signatures %d and %d)", a.sig, b.sig)
			} else if a != nil {
				d = fmt.Sprintf(" (signature %d)", a.sig)
			}
			w.Fail("key-recovered", "the private key of %s follows from published values: %s%s", name, how, d)
		}
	}
	solve := func(a, b *equation, dk kyber.Scalar, sign int, how string) {
		// k_a = sign*k_b + dk ; s = k - e*x
		// s_a - sign*s_b = dk - (e_a - sign*e_b)*x
		sb, eb := b.s, b.e
		if sign < 0 {
			sb, eb = edw.Scalar().Neg(sb), edw.Scalar().Neg(eb)
		}
		num := edw.Scalar().Sub(edw.Scalar().Add(dk, sb), a.s)
		den := edw.Scalar().Sub(a.e, eb)
		if den.Equal(edw.Scalar().Zero()) {
			return
		}
		isKey(edw.Scalar().Div(num, den), how, a, b)
	}
	// published scalars as nonces or keys
	byR := map[string][]*equation{}
	for _, q := range o.eqs {
		byR[q.rs] = append(byR[q.rs], q)
	}
	single := func(k kyber.Scalar, q *equation, how string) {
		if q.e.Equal(edw.Scalar().Zero()) {
			return
		}
		isKey(edw.Scalar().Div(edw.Scalar().Sub(k, q.s), q.e), how, q, nil)
	}
	try := func(c kyber.Scalar, what string) {
		p := edw.Point().Mul(c, g)
		if name, ok := victims[p.String()]; ok {
			w.Fail("key-published", "the private key of %s is %s", name, what)
		}
		for _, q := range byR[p.String()] {
			single(c, q, "its nonce is "+what)
		}
		for _, q := range byR[edw.Point().Neg(p).String()] {
			single(edw.Scalar().Neg(c), q, "its nonce is the opposite of "+what)
		}
	}
	for i, c := range o.sing {
		try(c, o.name[i])
	}
	small := edw.Point().Null()
	for i := int64(0); i < 40; i++ {
		if len(byR[small.String()]) > 0 || victims[small.String()] != "" {
			try(edw.Scalar().SetInt64(i), "a small number")
		}
		small = edw.Point().Add(small, g)
	}
	// pairs of equations
	zero := edw.Scalar().Zero()
	for i, a := range o.eqs {
		for _, b := range o.eqs[:i] {
			if a.pub != b.pub {
				continue
			}
			if a.rs == b.rs {
				solve(a, b, zero, 1, "two signatures share a nonce")
				continue
			}
			d := edw.Point().Sub(a.r, b.r)
			for k := int64(1); k <= 3; k++ {
				kg := edw.Point().Mul(edw.Scalar().SetInt64(k), g)
				if d.Equal(kg) {
					solve(a, b, edw.Scalar().SetInt64(k), 1, "two nonces follow each other")
				}
				if d.Equal(edw.Point().Neg(kg)) {
					solve(a, b, edw.Scalar().SetInt64(-k), 1, "two nonces follow each other")
				}
			}
			if edw.Point().Add(a.r, b.r).Equal(edw.Point().Null()) {
				solve(a, b, zero, -1, "two nonces are opposite")
			}
		}
	}
}

// hashLog follows what the holders hash: a digest of something that contains no
// secret is public, whoever computed it
type hashLog struct {
	w      *W
	known  [][]byte          // what only the holders know
	public map[string]string // scalars that are digests of public texts
	closed map[string]bool   // scalars that are digests of secret texts
	start  map[int64]int64   // entropy that was used when a task began to sign
}

func followSecrets(w *W) *hashLog {
	t := &hashLog{w: w, public: map[string]string{}, closed: map[string]bool{}, start: map[int64]int64{}}
	simrt.HashSink = func(in, digest []byte) {
		closed := t.entropy() != t.start[curTask()]
		for _, s := range t.known {
			closed = closed || bytes.Contains(in, s)
		}
		k := edw.Scalar().SetBytes(digest).String()
		if closed {
			if !t.closed[k] {
				t.closed[k] = true
				t.secret(digest)
				if b, err := hex.DecodeString(k); err == nil {
					t.secret(b)
				}
			}
			delete(t.public, k)
			return
		}
		if !t.closed[k] {
			t.public[k] = clip(string(in))
		}
	}
	return t
}

func (t *hashLog) entropy() (n int64) {
	for _, x := range t.w.nodes {
		n += x.EntUsed
	}
	return n
}

// signs says that this task begins to sign
func (t *hashLog) signs() { t.start[curTask()] = t.entropy() }

// secret adds a secret in the forms that it may be hashed in
func (t *hashLog) secret(b []byte) {
	t.known = append(t.known, b, []byte(hex.EncodeToString(b)), []byte(base64.StdEncoding.EncodeToString(b)))
}

func (t *hashLog) holder(h *holder) {
	text := h.n.Disk["key"]
	t.known = append(t.known, text)
	if b, err := hex.DecodeString(string(text)); err == nil {
		t.secret(b)
	}
}

// nonce checks that what a holder hid in a response is not public
func (t *hashLog) nonce(h *holder, s, e kyber.Scalar, what string) {
	x, ok := scalarOf(string(h.n.Disk["key"]))
	if !ok {
		return
	}
	k := edw.Scalar().Add(s, edw.Scalar().Mul(e, x)).String()
	t.w.counts["nonces"]++
	if text, ok := t.public[k]; ok {
		t.w.Fail("nonce-computable", "the nonce of %s of %s is the hash of %q, which anyone can compute", what, h.n.Name, text)
	}
}

// messages that are made to collide once concatenated with something else
func relatedMsgs(w *W) []string {
	base := genMsg(w)
	list := []string{base}
	for i := w.Int(5); i > 0; i-- {
		b := pick(w.Source, list...)
		switch w.Int(5) {
		case 0:
			list = append(list, b)
		case 1:
			list = append(list, fmt.Sprintf("%s%d", b, w.Int(12)))
		case 2:
			if len(b) > 0 {
				list = append(list, b[:len(b)-1])
			}
		case 3:
			list = append(list, otherMsg(w, b))
		case 4:
			list = append(list, genMsg(w))
		}
	}
	return list
}

func worldNonce(w *W) {
	w.ScheduleFine()
	when := w.instants(1000)
	obs := &observer{w: w}
	holders := []*holder{}
	victims := map[string]string{}
	hashed := followSecrets(w)
	for i := 0; i < 2+w.Int(2); i++ {
		h := newHolder(w, fmt.Sprintf("holder%d", i))
		holders = append(holders, h)
		hashed.holder(h)
		w.Check(victims[h.pub] == "", "same-key", "two holders with independent entropy have the same key")
		victims[h.pub] = h.n.Name
		for k := w.Int(3); k > 0; k-- {
			h.crash(w, time.Duration(w.Int(800))*time.Millisecond)
		}
		// entropy faults while signing: a signer that needs entropy must not
		// be hurt by getting the same entropy again, or none
		switch w.Int(4) {
		case 1:
			h.n.EntErr = 300
		case 2:
			h.n.EntShort = 500
		}
		if w.Chance(400) {
			at := h.n.entPos
			for k := 1 + w.Int(4); k > 0; k-- {
				w.After(time.Duration(w.Int(1000))*time.Millisecond, func() {
					if h.n.entPos != at {
						w.Fault("entropy_rewind")
					}
					w.Fault("vm_snapshot_restored")
					h.n.entPos = at
					w.Logf("%s: the machine is restored from a snapshot", h.n.Name)
				})
			}
		}
	}
	msgs := relatedMsgs(w)
	id := 0
	published := ""
	for i := 0; i < 2+w.Int(9); i++ {
		h := holders[0]
		if w.Chance(250) {
			h = pick(w.Source, holders...)
		}
		msg := pick(w.Source, msgs...)
		plain := w.Chance(450)
		ring := []string{}
		for k, n := 0, 1+w.Int(4); k < n; k++ {
			ring = append(ring, pick(w.Source, holders...).pub)
		}
		ring[w.Int(len(ring))] = h.pub
		retry := w.Chance(300)
		w.After(when(), func() {
			if !h.n.Up {
				return
			}
			sign := func() {
				pk := h.load(w)
				id++
				my := id
				hashed.signs()
				from := len(obs.eqs)
				hidden := func() {
					for _, q := range obs.eqs[from:] {
						if q.sig == my && q.pub == h.pub {
							hashed.nonce(h, q.s, q.e, fmt.Sprintf("%s signature %d", q.origin, my))
						}
					}
				}
				if plain {
					sig, err := pk.Sign(msg)
					w.Check(err == nil, "sign", "cannot sign: %v", err)
					enc := sig.String()
					published += enc + "\n"
					w.Check(obs.plain(my, h.pub, msg, enc), "wire", "unexpected encoding")
					hidden()
					w.Logf("%s publishes %d: plain", h.n.Name, my)
					w.State("plain", len(msg))
					return
				}
				keys := []signature.PublicKey{}
				for _, p := range ring {
					k, err := signature.NewPublicKeyAdapter().ToPublicKey(p)
					w.Check(err == nil, "public-key", "cannot decode a public key: %v", err)
					keys = append(keys, k)
				}
				sig, err := pk.RingSign(msg, keys)
				w.Check(err == nil, "sign", "cannot ring-sign: %v", err)
				enc := sig.String()
				published += enc + "\n"
				wr, ok := parseRing(enc)
				w.Check(ok && obs.ring(my, msg, wr), "wire", "unexpected encoding")
				hidden()
				w.Logf("%s publishes %d: ring of %d", h.n.Name, my, len(ring))
				w.State("ring", len(ring), len(msg))
			}
			w.Go(h.n, "sign", func() {
				if pan := w.Try(sign); pan != nil {
					if !strings.Contains(fmt.Sprint(pan), "random") && !strings.Contains(fmt.Sprint(pan), "entropy") {
						panic(pan)
					}
					w.Count("failed_closed_without_entropy")
				}
			})
			if retry {
				// the client did not get the answer and asks again
				w.Fault("retry")
				w.After(time.Duration(w.Int(400))*time.Millisecond, func() {
					if h.n.Up {
						w.Go(h.n, "sign", func() { _ = w.Try(sign) })
					}
				})
			}
		})
	}
	w.nontri = true
	w.Loop()
	obs.attack(victims)
	w.counts["oracle_checks"] += int64(len(obs.eqs) * (len(obs.eqs) + 1) / 2)
	w.counts["equations"] += int64(len(obs.eqs))
	dump := published
	for _, line := range strings.Split(published, "\n") {
		b, _ := base64.StdEncoding.DecodeString(line)
		dump += string(b) + "\n"
	}
	for _, h := range holders {
		w.Check(!strings.Contains(dump, string(h.n.Disk["key"])), "key-leaked", "a published value contains the private key of %s", h.n.Name)
	}
	worldKeygen(w)
}

// worldKeygen creates keys while entropy fails: either no key, or an unpredictable one
func worldKeygen(w *W) {
	known := map[string]bool{}
	n := w.AddNode("fresh")
	switch w.Int(4) {
	case 0:
		n.EntErr = 500
	case 1:
		n.EntShort = 700
	case 2:
		n.EntDead = true
	}
	for i := 0; i < 3; i++ {
		w.Go(n, "keygen", func() {
			pan := w.Try(func() {
				before := n.EntUsed
				pk := signature.NewPrivateKeyFactory().Create()
				w.Check(n.EntUsed-before >= 16, "weak-key", "a key was created from %d bytes of entropy", n.EntUsed-before)
				pub := pk.PublicKey().String()
				w.Check(!known[pub], "same-key", "the same key was created twice")
				known[pub] = true
				w.Logf("fresh key")
			})
			if pan != nil {
				w.Check(n.EntDead || n.EntErr > 0, "keygen", "creating a key panics with healthy entropy: %v", pan)
				w.Count("failed_closed_without_entropy")
				w.Logf("no key without entropy")
			}
		})
	}
	w.Loop()
}

func worldAnonymity(w *W) {
	w.ScheduleFine()
	when := w.instants(1000)
	holders := []*holder{}
	hashed := followSecrets(w)
	for i := 0; i < 2+w.Int(3); i++ {
		h := newHolder(w, fmt.Sprintf("holder%d", i))
		holders = append(holders, h)
		hashed.holder(h)
		for k := w.Int(3); k > 0; k-- {
			h.crash(w, time.Duration(w.Int(800))*time.Millisecond)
		}
	}
	msgs := relatedMsgs(w)
	type pub struct {
		id   int
		msg  string
		ring *ringWire
		idx  int // signer
		rs   []string
		es   []kyber.Scalar
	}
	rings := []*pub{}
	plains := map[string]string{} // commitment -> signer
	plainKeys := map[string]bool{}
	id := 0
	for i := 0; i < 2+w.Int(7); i++ {
		h := pick(w.Source, holders...)
		if w.Chance(400) {
			h = holders[0]
		}
		msg := pick(w.Source, msgs...)
		plain := w.Chance(250)
		ring := []string{}
		for k, n := 0, 2+w.Int(3); k < n; k++ {
			ring = append(ring, pick(w.Source, holders...).pub)
		}
		idx := w.Int(len(ring))
		ring[idx] = h.pub
		retry := w.Chance(300)
		w.After(when(), func() {
			if !h.n.Up {
				return
			}
			sign := func() {
				pk := h.load(w)
				hashed.signs()
				if plain {
					sig, err := pk.Sign(msg)
					w.Check(err == nil, "sign", "cannot sign: %v", err)
					b, _ := base64.StdEncoding.DecodeString(sig.String())
					parts := strings.Split(string(b), "#")
					plains[parts[0]] = h.n.Name
					if len(parts) > 1 {
						plainKeys[parts[1]] = true
					}
					w.Logf("%s signs plainly", h.n.Name)
					return
				}
				keys := []signature.PublicKey{}
				for _, p := range ring {
					k, err := signature.NewPublicKeyAdapter().ToPublicKey(p)
					w.Check(err == nil, "public-key", "cannot decode a public key: %v", err)
					keys = append(keys, k)
				}
				sig, err := pk.RingSign(msg, keys)
				w.Check(err == nil, "sign", "cannot ring-sign: %v", err)
				wr, ok := parseRing(sig.String())
				w.Check(ok, "wire", "unexpected encoding")
				id++
				rings = append(rings, &pub{id: id, msg: msg, ring: wr, idx: idx})
				w.Logf("%s publishes %d: ring of %d", h.n.Name, id, len(ring))
				w.State("ring", len(ring), idx)
			}
			w.Go(h.n, "sign", sign)
			if retry {
				w.Fault("retry")
				w.After(time.Duration(w.Int(400))*time.Millisecond, func() {
					if h.n.Up {
						w.Go(h.n, "sign", sign)
					}
				})
			}
		})
	}
	w.nontri = true
	w.Loop()
	g := edw.Point().Base()
	// replay every published ring
	for _, p := range rings {
		e, ok := scalarOf(p.ring.e)
		w.Check(ok && len(p.ring.s) == len(p.ring.ring), "wire", "unexpected encoding")
		for i := range p.ring.ring {
			pt, _ := pointOf(p.ring.ring[i])
			s, ok := scalarOf(p.ring.s[i])
			w.Check(ok, "wire", "unexpected encoding")
			r := edw.Point().Add(edw.Point().Mul(s, g), edw.Point().Mul(e, pt))
			p.rs = append(p.rs, r.String())
			p.es = append(p.es, e)
			e = challenge(p.msg + r.String())
		}
	}
	same := func(a, b *pub) bool {
		return a.msg == b.msg && strings.Join(a.ring.ring, "|") == strings.Join(b.ring.ring, "|")
	}
	for _, p := range rings {
		for i := range p.ring.ring {
			w.counts["oracle_checks"] += 4
			// a commitment that was also made in the open
			if who, ok := plains[p.rs[i]]; ok {
				w.Fail("linked-plain", "ring signature %d shares a commitment with a plain signature of %s", p.id, who)
			}
			if plainKeys[p.ring.s[i]] {
				w.Fail("linked-plain", "ring signature %d shares a response with a plain signature", p.id)
			}
			// responses of one ring are all different and full size
			for j := 0; j < i; j++ {
				w.Check(p.ring.s[i] != p.ring.s[j], "equal-responses", "two responses of ring signature %d are equal: they are decoys", p.id)
			}
			w.Check(!strings.HasSuffix(p.ring.s[i], "0000000000"), "short-response", "a response of ring signature %d is short", p.id)
		}
		for _, q := range rings {
			if q.id >= p.id || same(p, q) {
				continue
			}
			for i := range p.ring.ring {
				for j := range q.ring.ring {
					w.counts["oracle_checks"] += 2
					if p.ring.s[i] == q.ring.s[j] {
						w.Fail("linked-responses", "response %d of ring signature %d is response %d of ring signature %d: both come from the same signer, who is at neither position", i, p.id, j, q.id)
					}
					if p.rs[i] == q.rs[j] {
						w.Fail("linked-commitments", "commitment %d of ring signature %d is commitment %d of ring signature %d: both come from the same signer", i, p.id, j, q.id)
					}
				}
			}
		}
		// decoys that anyone can compute
		for i := range p.ring.ring {
			s := p.ring.s[i]
			if text, ok := hashed.public[s]; ok {
				w.Fail("public-decoy", "response %d of ring signature %d is the hash of %q, which anyone can compute", i, p.id, text)
			}
			prevs := []string{"", p.ring.e, p.es[i].String()}
			for _, m := range append([]string{""}, p.ring.ring...) {
				for _, x := range prevs {
					for _, idx := range []string{"", fmt.Sprint(i), fmt.Sprint(p.idx)} {
						for _, c := range []string{p.msg + idx + m + x, m + p.msg + idx + x, p.msg + m + idx, idx + p.msg + m, x + p.msg + idx + m} {
							if challenge(c).String() == s {
								w.Fail("public-decoy", "response %d of ring signature %d can be computed by anyone", i, p.id)
							}
						}
					}
				}
			}
			for j := range p.ring.ring {
				if s == p.es[j].String() {
					w.Fail("public-decoy", "response %d of ring signature %d is a challenge", i, p.id)
				}
			}
		}
	}
}
