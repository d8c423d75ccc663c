//go:build go1.23

package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strings"
	"time"

	"github.com/steve-care-software/steve/domain/cryptography/keys/signature"
	"github.com/steve-care-software/steve/domain/hash"
	kyber "go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/group/edwards25519"
)

var edw = edwards25519.NewBlakeSHA256Ed25519()

// points of small order, in every encoding
var torsion = []string{
	"0100000000000000000000000000000000000000000000000000000000000000",
	"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"0000000000000000000000000000000000000000000000000000000000000000",
	"0000000000000000000000000000000000000000000000000000000000000080",
	"26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
	"26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85",
	"c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
	"c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa",
	"eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
}

// holder is a node that owns a key, kept on its disk
type holder struct {
	n   *Node
	pk  signature.PrivateKey // volatile
	pub string
}

func (h *holder) load(w *W) signature.PrivateKey {
	if h.pk == nil {
		pk, err := signature.NewPrivateKeyAdapter().ToPrivateKey(string(h.n.Disk["key"]))
		w.Check(err == nil, "key-reload", "%s cannot reload its own private key: %v", h.n.Name, err)
		w.Check(pk.PublicKey().String() == h.pub, "key-reload", "%s has another public key after reloading its private key", h.n.Name)
		h.pk = pk
	}
	return h.pk
}

// newHolder creates a key outside of the simulated schedule, with the node's entropy
func newHolder(w *W, name string) *holder {
	h := &holder{n: w.AddNode(name)}
	done := w.Go(h.n, "keygen", func() {
		pk := signature.NewPrivateKeyFactory().Create()
		h.n.Disk["key"] = []byte(pk.String())
		h.pub = pk.PublicKey().String()
		h.pk = pk
	})
	w.S.Step(done, 1<<40)
	if done.Panic != nil {
		w.ended(done)
		w.Loop()
	}
	if w.Chance(500) {
		h.pk = nil // restarted since
	}
	return h
}

func (h *holder) crash(w *W, after time.Duration) {
	w.After(after, func() {
		w.Crash(h.n)
		h.pk = nil
		w.After(time.Duration(w.Int(500))*time.Millisecond, func() { w.Restart(h.n) })
	})
}

func genMsg(w *W) string {
	switch w.Int(12) {
	default:
		return fmt.Sprintf("pay %d", w.Int(50))
	case 5:
		return ""
	case 6:
		return strings.Repeat("m", pick(w.Source, 1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096, 20000)) + fmt.Sprint(w.Int(3))
	case 7:
		return string(w.Bytes(1 + w.Int(40)))
	case 8:
		return pick(w.Source, "#", "|", "a#b|c", "\x00", "é日本", "0", "1", "10", " pay 1", "pay 1\n")
	case 9:
		return fmt.Sprint(w.Int(30))
	case 10:
		return fmt.Sprintf("pay %d%d", w.Int(5), w.Int(5))
	case 11:
		return strings.Repeat("long prefix ", 20) + fmt.Sprint(w.Int(6))
	}
}

// otherMsg returns a message that differs from m, often only slightly
func otherMsg(w *W, m string) string {
	var o string
	switch w.Int(8) {
	case 0:
		o = m + "0"
	case 1:
		if len(m) > 0 {
			o = m[:len(m)-1]
		} else {
			o = "x"
		}
	case 2:
		if len(m) > 0 {
			o = m[:len(m)-1] + string([]byte{m[len(m)-1] ^ 1})
		} else {
			o = "\x00"
		}
	case 3:
		o = m + "\x00"
	case 4:
		o = " " + m
	case 5:
		o = strings.ToUpper(m)
		if o == m {
			o = strings.ToLower(m) + "!"
		}
	case 6:
		if len(m) > 1 {
			o = string([]byte{m[0] ^ 0x20}) + m[1:]
		} else {
			o = m + m + "y"
		}
	case 7:
		o = genMsg(w)
	}
	if o == m {
		o = m + "'"
	}
	return o
}

// ringWire is the parsed form of an encoded ring signature
type ringWire struct {
	ring, s []string
	e       string
}

func parseRing(str string) (*ringWire, bool) {
	b, err := base64.StdEncoding.DecodeString(str)
	if err != nil {
		return nil, false
	}
	p := strings.Split(string(b), "#")
	if len(p) != 3 {
		return nil, false
	}
	split := func(x string) []string {
		out := []string{}
		for _, v := range strings.Split(x, "|") {
			if v != "" {
				out = append(out, v)
			}
		}
		return out
	}
	return &ringWire{split(p[0]), split(p[1]), p[2]}, true
}

func (r *ringWire) clone() *ringWire {
	return &ringWire{append([]string{}, r.ring...), append([]string{}, r.s...), r.e}
}

func (r *ringWire) encode() string {
	j := func(l []string) string {
		o := ""
		for _, v := range l {
			o += v + "|"
		}
		return o
	}
	return base64.StdEncoding.EncodeToString([]byte(j(r.ring) + "#" + j(r.s) + "#" + r.e))
}

func scalarOf(str string) (kyber.Scalar, bool) {
	b, err := hex.DecodeString(str)
	if err != nil || len(b) != 32 {
		return nil, false
	}
	s := edw.Scalar()
	return s, s.UnmarshalBinary(b) == nil
}

func pointOf(str string) (kyber.Point, bool) {
	b, err := hex.DecodeString(str)
	if err != nil || len(b) != 32 {
		return nil, false
	}
	p := edw.Point()
	return p, p.UnmarshalBinary(b) == nil
}

// challenge is the challenge hash of the scheme
func challenge(msg string) kyber.Scalar {
	h := edw.Hash()
	h.Write([]byte(msg))
	return edw.Scalar().SetBytes(h.Sum(nil))
}

func randScalar(w *W) kyber.Scalar {
	b := w.Bytes(32)
	return edw.Scalar().SetBytes(b)
}

// mutateRing is the hostile node: it knows every published signature, no key
func mutateRing(w *W, r *ringWire, others []*ringWire, pubs []string) *ringWire {
	o := r.clone()
	times := 1 + w.Int(2)
	for ; times > 0; times-- {
		switch w.Int(13) {
		case 0: // empty ring
			o.ring, o.s = nil, nil
		case 1: // fewer responses
			if len(o.s) > 0 {
				o.s = o.s[:w.Int(len(o.s))]
			}
		case 2: // more responses
			o.s = append(o.s, pick(w.Source, r.s...))
		case 3: // fewer members
			if len(o.ring) > 0 {
				k := w.Int(len(o.ring))
				o.ring = append(o.ring[:k:k], o.ring[k+1:]...)
			}
		case 4: // fewer members and responses
			if len(o.ring) > 0 && len(o.s) == len(o.ring) {
				k := w.Int(len(o.ring))
				o.ring = append(o.ring[:k:k], o.ring[k+1:]...)
				o.s = append(o.s[:k:k], o.s[k+1:]...)
			}
		case 5: // another member
			if len(o.ring) > 0 {
				o.ring[w.Int(len(o.ring))] = pick(w.Source, pubs...)
			}
		case 6: // an additional member
			o.ring = append(o.ring, pick(w.Source, pubs...))
			o.s = append(o.s, randScalar(w).String())
		case 7: // swap members
			if len(o.ring) > 1 {
				a, b := w.Int(len(o.ring)), w.Int(len(o.ring))
				o.ring[a], o.ring[b] = o.ring[b], o.ring[a]
			}
		case 8: // swap responses
			if len(o.s) > 1 {
				a, b := w.Int(len(o.s)), w.Int(len(o.s))
				o.s[a], o.s[b] = o.s[b], o.s[a]
			}
		case 9: // parts of another signature
			if len(others) > 0 {
				x := pick(w.Source, others...)
				switch w.Int(3) {
				case 0:
					o.ring = append([]string{}, x.ring...)
				case 1:
					o.s = append([]string{}, x.s...)
				case 2:
					o.e = x.e
				}
			}
		case 10:
			o.e = pick(w.Source, "", "00", strings.Repeat("0", 64), randScalar(w).String())
		case 11:
			if len(o.s) > 0 {
				k := w.Int(len(o.s))
				o.s[k] = pick(w.Source, strings.Repeat("0", 64), "zz", o.s[k][:len(o.s[k])/2], randScalar(w).String())
			}
		case 12:
			if len(o.ring) > 0 {
				o.ring[w.Int(len(o.ring))] = pick(w.Source, torsion...)
			}
		}
	}
	return o
}

// forgeTorsion builds, knowing no private key, a ring signature on msg whose
// ring has a member of small order
func forgeTorsion(w *W, msg string, tail []string) *ringWire {
	t := pick(w.Source, torsion...)
	tp, ok := pointOf(t)
	if !ok {
		return nil
	}
	g := edw.Point().Base()
	ring := append([]string{t}, tail...)
	for try := 0; try < 48; try++ {
		guess := edw.Point().Mul(edw.Scalar().SetInt64(int64(try%8)), tp)
		s0 := randScalar(w)
		e := challenge(msg + edw.Point().Add(edw.Point().Mul(s0, g), guess).String())
		ss := []string{s0.String()}
		bad := false
		for _, m := range tail {
			p, ok := pointOf(m)
			if !ok {
				bad = true
				break
			}
			s := randScalar(w)
			ss = append(ss, s.String())
			e = challenge(msg + edw.Point().Add(edw.Point().Mul(s, g), edw.Point().Mul(e, p)).String())
		}
		if bad {
			return nil
		}
		if edw.Point().Mul(e, tp).Equal(guess) {
			return &ringWire{ring, ss, e.String()}
		}
	}
	return nil
}

func rotationOf(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for k := 0; k < len(a) || k == 0; k++ {
		same := true
		for i := range a {
			if a[(i+k)%len(a)] != b[i] {
				same = false
				break
			}
		}
		if same {
			return true
		}
	}
	return false
}

type authorization struct {
	msg  string
	ring []string
	wire string
}

func keyHash(pub string) hash.Hash {
	h, err := hash.NewAdapter().FromString(pub)
	if err != nil {
		panic(err)
	}
	return *h
}

func init() {
	register(&Property{
		ID: "C01", Run: worldRing, Quick: 2500, Thorough: 60000, Batch: 25,
		Rule: "Each run: 2-5 key holders (crashing and reloading their keys from disk) ring-sign 1-6 messages with rings of 1-8 members (duplicates, any position), and 1-3 verifiers judge what a hostile network delivers: lost, duplicated, reordered, truncated, corrupted and spliced encodings, structurally mutated signatures, forged signatures over keys of small order, other messages, and altered lists of member hashes.",
		Real: []string{"domain/cryptography/keys/signature", "domain/hash", "vendored kyber edwards25519"}, Stub: []string{"network", "entropy source", "node disks", "task scheduler", "clock"},
		Assume: []string{"the discrete logarithm and SHA-256 are hard: a random forgery never succeeds by chance", "a rotation of the ring that its signer used, with the matching challenge, is the same ring"},
	})
}

func worldRing(w *W) {
	w.ScheduleFine()
	when := w.instants(600)
	w.DrawNet()
	holders := []*holder{}
	pubs := []string{}
	byPub := map[string]signature.PublicKey{}
	for i := 0; i < 2+w.Int(4); i++ {
		h := newHolder(w, fmt.Sprintf("holder%d", i))
		holders = append(holders, h)
		pubs = append(pubs, h.pub)
		p, err := signature.NewPublicKeyAdapter().ToPublicKey(h.pub)
		w.Check(err == nil && p.String() == h.pub, "public-key", "a public key does not survive its encoding: %v", err)
		byPub[h.pub] = p
		if w.Chance(250) {
			h.crash(w, time.Duration(w.Int(400))*time.Millisecond)
		}
	}
	verifiers := []*Node{}
	for i := 0; i < 1+w.Int(3); i++ {
		verifiers = append(verifiers, w.AddNode(fmt.Sprintf("verifier%d", i)))
	}
	adapter := signature.NewRingSignatureAdapter() // shared, like a service would

	auths := []*authorization{}
	wires := []*ringWire{}
	authorized := func(msg string, ring []string) bool {
		for _, a := range auths {
			if a.msg == msg && rotationOf(a.ring, ring) {
				return true
			}
		}
		return false
	}
	genuine := func(enc, msg string) bool {
		for _, a := range auths {
			if a.msg == msg && a.wire == enc {
				return true
			}
		}
		return false
	}

	verify := func(enc string, msg string) {
		sig, err := adapter.ToSignature(enc)
		if err != nil {
			w.Logf("rejected: not a signature")
			w.Count("rejected_decode")
			w.Check(!genuine(enc, msg), "complete-decode", "the encoding of a genuine ring signature is refused: %s", err)
			return
		}
		ok := sig.Verify(msg)
		ring := []string{}
		hashes := []hash.Hash{}
		for _, p := range sig.Ring() {
			ring = append(ring, p.String())
			hashes = append(hashes, keyHash(p.String()))
		}
		w.Logf("ring of %d, message of %d bytes: %v", len(ring), len(msg), ok)
		w.State("verify", len(ring), ok, len(msg) > 64)
		if ok {
			w.Count("accepted")
			w.Check(authorized(msg, ring), "forged", "a ring signature of %d members is accepted for a message (%q) that no member signed with that ring", len(ring), clip(msg))
		} else {
			w.Count("rejected")
			w.Check(!genuine(enc, msg), "complete-verify", "a genuine ring signature (%d members) is not accepted", len(ring))
		}
		// against lists of hashes
		for k := 0; k < 1+w.Int(3); k++ {
			list := append([]hash.Hash{}, hashes...)
			how := w.Int(8)
			switch how {
			case 1:
				if len(list) > 1 {
					a, b := w.Int(len(list)), w.Int(len(list))
					list[a], list[b] = list[b], list[a]
				}
			case 2:
				if len(list) > 0 {
					list = list[:len(list)-1]
				}
			case 3:
				list = append(list, keyHash(pick(w.Source, pubs...)))
			case 4:
				if len(list) > 0 {
					list[w.Int(len(list))] = keyHash(pick(w.Source, pubs...))
				}
			case 5:
				if len(list) > 0 {
					list[w.Int(len(list))][w.Int(64)] ^= 1 << w.Int(8)
				}
			case 6:
				list = nil
			case 7:
				if len(list) > 1 {
					list = append(list[1:], list[0])
				}
			}
			same := len(list) == len(hashes)
			for i := range list {
				same = same && list[i] == hashes[i]
			}
			m := msg
			if w.Chance(200) {
				m = otherMsg(w, msg)
			}
			got, err := adapter.ToVerification(sig, m, list)
			w.Logf("against hashes: %v %v", got, err != nil)
			if got {
				w.Check(err == nil, "verdict", "accepted with an error: %v", err)
				w.Check(same, "members", "a ring signature is accepted for another list of %d members than its own (of %d)", len(list), len(hashes))
				w.Check(authorized(m, ring), "forged", "accepted for a message (%q) that no member signed with that ring", clip(m))
			} else {
				w.Check(err != nil, "verdict", "rejected without an error")
				w.Check(!(same && genuine(enc, m)), "complete-members", "a genuine ring signature is refused for exactly its own members: %v", err)
			}
		}
		// re-encoding
		again, err := adapter.ToSignature(sig.String())
		w.Check(err == nil || !ok, "re-encode", "an accepted ring signature cannot be sent on: %v", err)
		if err == nil {
			w.Check(again.Verify(msg) == ok || !genuine(enc, msg), "re-encode", "another verdict after encoding the ring signature again")
		}
	}

	for i := 0; i < 1+w.Int(6); i++ {
		h := pick(w.Source, holders...)
		msg := genMsg(w)
		size := pick(w.Source, 2, 1, 3, 1+w.Int(8))
		if w.Chance(20) {
			size = 9 + w.Int(28)
			w.Count("large_rings")
		}
		pos := w.Int(size)
		ring := []signature.PublicKey{}
		names := []string{}
		for k := 0; k < size; k++ {
			p := pick(w.Source, pubs...)
			if k == pos {
				p = h.pub
			}
			names = append(names, p)
			ring = append(ring, byPub[p])
		}
		w.After(when(), func() {
			if !h.n.Up {
				return
			}
			w.Go(h.n, "ring-sign", func() {
				pk := h.load(w)
				if w.Chance(100) {
					// not a member
					out := []signature.PublicKey{}
					for _, p := range ring {
						if p.String() != h.pub {
							out = append(out, p)
						}
					}
					sig, err := pk.RingSign(msg, out)
					w.Check(err != nil && sig == nil, "outsider", "a key signs with a ring that it does not belong to")
					return
				}
				// the intent is durable before the first byte leaves
				a := &authorization{msg: msg, ring: names}
				auths = append(auths, a)
				sig, err := pk.RingSign(msg, ring)
				w.Check(err == nil, "sign", "a member cannot sign: %v", err)
				for k, p := range sig.Ring() {
					w.Check(k < len(names) && p.String() == names[k], "ring", "the ring of the signature is not the given one")
				}
				w.Check(len(sig.Ring()) == len(names), "ring", "the ring of the signature is not the given one")
				a.wire = sig.String()
				w.Check(sig.Verify(msg), "complete-local", "a fresh ring signature (%d members, position %d) is not valid", size, pos)
				w.Logf("%s signs a message of %d bytes with a ring of %d", h.n.Name, len(msg), size)
				r, ok := parseRing(a.wire)
				if ok {
					wires = append(wires, r)
				}
				for _, v := range verifiers {
					w.Send(h.n, v, "ring-signature", []byte(a.wire), func(b []byte) {
						m := msg
						if w.Chance(250) {
							m = otherMsg(w, msg)
							w.Fault("other_message")
						}
						verify(string(b), m)
					})
				}
			})
		})
	}
	mallory := w.AddNode("mallory")
	for i := 0; i < 1+w.Int(6); i++ {
		v := pick(w.Source, verifiers...)
		w.After(time.Duration(100+w.Int(900))*time.Millisecond, func() {
			w.Go(mallory, "forge", func() {
				msg := genMsg(w)
				var r *ringWire
				switch {
				case len(wires) == 0 || w.Chance(150):
					tail := []string{}
					for k := w.Int(3); k > 0; k-- {
						tail = append(tail, pick(w.Source, pubs...))
					}
					r = forgeTorsion(w, msg, tail)
				case w.Chance(80):
					r = &ringWire{e: challenge(msg).String()}
				default:
					if len(auths) > 0 {
						msg = pick(w.Source, auths...).msg
					}
					r = mutateRing(w, pick(w.Source, wires...), wires, pubs)
				}
				if r == nil {
					return
				}
				w.Fault("hostile_signature")
				enc := r.encode()
				w.Logf("mallory sends a signature with %d members and %d responses", len(r.ring), len(r.s))
				w.After(0, func() { w.Go(v, "ring-signature", func() { verify(enc, msg) }) })
			})
		})
	}
	w.Loop()
	// once faults stop, every genuine signature is accepted everywhere
	for _, a := range auths {
		if a.wire == "" {
			continue
		}
		for _, v := range verifiers {
			w.Go(v, "ring-signature", func() { verify(a.wire, a.msg) })
		}
	}
	w.Loop()
}

func clip(s string) string {
	if len(s) > 40 {
		return s[:40] + "..."
	}
	return s
}
