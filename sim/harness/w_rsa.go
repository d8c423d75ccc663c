//go:build go1.23

package main

import (
	"bytes"
	"crypto/rsa"
	"crypto/sha512"
	"crypto/x509"
	"encoding/base64"
	"fmt"
	"strings"
	"time"

	"github.com/steve-care-software/steve/domain/cryptography/keys/encryption"
)

func init() {
	register(&Property{
		ID: "C06", Run: worldKeys, Quick: 40000, Thorough: 800000, Batch: 200,
		Rule: "Each run: 1-3 nodes, each with one key adapter, public key adapter and builder shared by 2-6 tasks preempted at every statement; tasks import and export private and public keys, encrypt to each other and decrypt over a network that corrupts, truncates, splices, duplicates and loses; keys are reloaded from disk after crashes, some from torn files; entropy reads fail or come short.",
		Real: []string{"domain/cryptography/keys/encryption", "domain/hash"}, Stub: []string{"entropy source", "disk", "network", "task scheduler", "the prime search of most keys (1024-bit fixtures)"},
		Assume: []string{"RSA-OAEP and the Go standard library are what they are said to be"},
	})
}

type rsaFix struct {
	text string
	raw  []byte
	key  *rsa.PrivateKey
	pub  []byte
}

var theRSA []*rsaFix

func rsaFix_() []*rsaFix {
	if theRSA == nil {
		for _, t := range rsaFixtures {
			raw, err := base64.StdEncoding.DecodeString(t)
			if err != nil {
				panic(err)
			}
			k, err := x509.ParsePKCS1PrivateKey(raw)
			if err != nil {
				panic(err)
			}
			theRSA = append(theRSA, &rsaFix{t, raw, k, x509.MarshalPKCS1PublicKey(&k.PublicKey)})
		}
	}
	return theRSA
}

func worldKeys(w *W) {
	fix := rsaFix_()
	w.Schedule()
	w.DrawNet()
	type node struct {
		n   *Node
		ad  encryption.Adapter
		pub encryption.PublicKeyAdapter
		b   encryption.Builder
		pb  encryption.PublicKeyBuilder
		own *rsaFix
		pk  encryption.PrivateKey
	}
	boot := func(x *node) {
		x.ad, x.pub = encryption.NewAdapter(), encryption.NewPublickeyAdapter()
		x.b, x.pb = encryption.NewBuilder(), encryption.NewPublicKeyBuilder()
	}
	samePriv := func(pk encryption.PrivateKey, f *rsaFix, who string) {
		k := pk.Key()
		w.Check(k.Equal(f.key), "wrong-key", "%s got the private key of someone else", who)
		p := pk.Public().Key()
		w.Check(p.Equal(&f.key.PublicKey), "wrong-public", "%s got a private key with the public key of someone else", who)
	}
	load := func(x *node) {
		pk, err := x.ad.FromEncoded(string(x.n.Disk["key"]))
		w.Check(err == nil, "reload", "%s cannot reload its key: %v", x.n.Name, err)
		samePriv(pk, x.own, x.n.Name)
		x.pk = pk
	}
	nodes := []*node{}
	for i := 0; i < 1+w.Int(3); i++ {
		x := &node{n: w.AddNode(fmt.Sprintf("node%d", i)), own: fix[w.Int(len(fix))]}
		boot(x)
		x.n.Disk["key"] = []byte(x.own.text)
		if w.Chance(300) {
			x.n.EntShort = w.Range(50, 600)
		}
		if w.Chance(250) {
			x.n.EntErr = w.Range(20, 500)
		}
		load(x)
		nodes = append(nodes, x)
	}
	seen := map[string]bool{}
	ops := 2 + w.Int(10)
	for i := 0; i < ops; i++ {
		x := pick(w.Source, nodes...)
		at := time.Duration(w.Int(40)) * time.Millisecond
		f := fix[w.Int(len(fix))]
		switch kind := w.Int(9); kind {
		case 0, 1: // import a private key, keep it, export it
			w.After(at, func() {
				if !x.n.Up {
					return
				}
				for k := 1 + w.Int(3); k > 0; k-- {
					f := fix[w.Int(len(fix))]
					enc := w.Bool()
					w.Go(x.n, "import", func() {
						var pk encryption.PrivateKey
						var err error
						if enc {
							pk, err = x.ad.FromEncoded(f.text)
						} else {
							pk, err = x.ad.FromBytes(append([]byte{}, f.raw...))
						}
						w.Check(err == nil, "import", "%s cannot import a key: %v", x.n.Name, err)
						samePriv(pk, f, x.n.Name)
						w.Check(bytes.Equal(x.ad.ToBytes(pk), f.raw), "export", "%s exports a private key as another one", x.n.Name)
						w.Check(x.ad.ToEncoded(pk) == f.text, "export", "%s encodes a private key as another one", x.n.Name)
						w.Count("private_imports")
					})
				}
			})
		case 2: // public keys
			w.After(at, func() {
				if !x.n.Up {
					return
				}
				for k := 1 + w.Int(3); k > 0; k-- {
					f := fix[w.Int(len(fix))]
					enc := w.Bool()
					w.Go(x.n, "import public", func() {
						var pub encryption.PublicKey
						var err error
						if enc {
							pub, err = x.pub.FromEncoded(base64.StdEncoding.EncodeToString(f.pub))
						} else {
							pub, err = x.pub.FromBytes(append([]byte{}, f.pub...))
						}
						w.Check(err == nil, "import-public", "%s cannot import a public key: %v", x.n.Name, err)
						key := pub.Key()
						w.Check(key.Equal(&f.key.PublicKey), "wrong-public", "%s got the public key of someone else", x.n.Name)
						w.Check(bytes.Equal(x.pub.ToBytes(pub), f.pub), "export-public", "%s exports a public key as another one", x.n.Name)
						w.Check(x.pub.ToEncoded(pub) == base64.StdEncoding.EncodeToString(f.pub), "export-public", "%s encodes a public key as another one", x.n.Name)
						h, err := x.pub.ToHash(pub)
						w.Check(err == nil && [64]byte(*h) == sha512.Sum512(f.pub), "key-hash", "%s: the hash of a public key is not the hash of its bytes", x.n.Name)
						w.Count("public_imports")
					})
				}
			})
		case 3, 4, 5: // a message, to whoever owns f
			msg := w.Bytes(pick(w.Source, 8, 0, 1, 31, 32, 61, 62, w.Int(63)))
			too := w.Chance(80)
			if too {
				msg = w.Bytes(63 + w.Int(100))
			}
			copies := 1 + w.Int(2)
			readers := []*node{}
			for range nodes {
				readers = append(readers, pick(w.Source, nodes...))
			}
			w.After(at, func() {
				if !x.n.Up {
					return
				}
				for k := 0; k < copies; k++ {
					w.Go(x.n, "encrypt", func() {
						encryptGuard(w, x.n, func() {
							pub, err := x.pub.FromBytes(f.pub)
							w.Check(err == nil, "import-public", "%s cannot import a public key: %v", x.n.Name, err)
							given := append([]byte{}, msg...)
							lost := x.n.EntLost
							out, err := pub.Encrypt(given)
							w.Check(bytes.Equal(given, msg), "buffer", "encrypting changes the message of the caller")
							if too {
								w.Check(err != nil, "too-long", "a message of %d bytes is encrypted", len(msg))
								return
							}
							if err != nil {
								w.Check(out == nil, "partial", "a ciphertext comes with an error")
								w.Check(x.n.EntLost || lost, "encrypt-fails", "%s cannot encrypt: %v", x.n.Name, err)
								w.Count("encrypt_errors")
								return
							}
							w.Check(!seen[string(out)], "not-random", "two ciphertexts are the same")
							seen[string(out)] = true
							w.Check(!bytes.Contains(out, msg) || len(msg) < 8, "plaintext", "a ciphertext contains its message")
							w.Count("encrypted")
							for _, r := range readers {
								w.Send(x.n, r.n, "message", out, func(p []byte) {
									got, err := r.pk.Decrypt(p)
									switch {
									case r.own != f:
										w.Check(err != nil, "wrong-key-opens", "%s opens a message to someone else", r.n.Name)
										w.Fault("wrong_key")
									case bytes.Equal(p, out):
										w.Check(err == nil && bytes.Equal(got, msg), "round-trip", "%s cannot read a message to it (%v)", r.n.Name, err)
										w.Count("decrypted")
									default:
										w.Check(err != nil || seen[string(p)], "damaged-opens", "%s opens a damaged message", r.n.Name)
									}
								})
							}
						})
					})
				}
			})
		case 6: // crash and reload, sometimes from a torn file
			w.After(at, func() {
				if !x.n.Up {
					return
				}
				w.Crash(x.n)
				w.After(time.Duration(w.Int(20))*time.Millisecond, func() {
					w.Restart(x.n)
					boot(x)
					if w.Chance(400) && len(x.n.Disk["key"]) > 0 {
						w.Fault("torn_file")
						whole := string(x.n.Disk["key"])
						torn := whole[:w.Int(len(whole))]
						_, err := x.ad.FromEncoded(torn)
						w.Check(err != nil, "torn-key", "%s loads a key from %d bytes out of %d", x.n.Name, len(torn), len(whole))
						_, err = x.ad.FromBytes(x.own.raw[:w.Int(len(x.own.raw))])
						w.Check(err != nil, "torn-key", "%s loads a key from a torn file", x.n.Name)
						_, err = x.pub.FromBytes(x.own.pub[:w.Int(len(x.own.pub))])
						w.Check(err != nil, "torn-key", "%s loads a public key from a torn file", x.n.Name)
					}
					load(x)
				})
			})
		case 7: // the builders, shared
			other := fix[w.Int(len(fix))]
			w.After(at, func() {
				if !x.n.Up {
					return
				}
				for _, f := range []*rsaFix{f, other} {
					w.Go(x.n, "build", func() {
						pk, err := x.b.Create().WithPK(*f.key).Now()
						w.Check(err == nil, "build", "%s cannot build a key: %v", x.n.Name, err)
						samePriv(pk, f, x.n.Name)
						pub, err := x.pb.Create().WithKey(f.key.PublicKey).Now()
						w.Check(err == nil, "build", "%s cannot build a public key: %v", x.n.Name, err)
						k := pub.Key()
						w.Check(k.Equal(&f.key.PublicKey), "wrong-public", "%s built the public key of someone else", x.n.Name)
					})
				}
				_, err := x.b.Create().Now()
				w.Check(err != nil, "build-empty", "a private key is built from nothing")
				_, err = x.pb.Create().Now()
				w.Check(err != nil, "build-empty", "a public key is built from nothing")
			})
		case 8: // garbage
			garbage := w.corrupt(append([]byte{}, f.raw...))
			w.After(at, func() {
				if !x.n.Up {
					return
				}
				w.Go(x.n, "import garbage", func() {
					pk, err := x.ad.FromBytes(append([]byte{}, garbage...))
					if err != nil {
						_, err = x.ad.FromEncoded(strings.Repeat("!", 1+w.Int(5)))
						w.Check(err != nil, "garbage-key", "garbage is a key")
						return
					}
					// what is accepted is a key that works
					k := pk.Key()
					w.Check(k.Validate() == nil, "garbage-key", "a corrupted file is loaded as an invalid key")
				})
			})
			w.Fault("corrupted_file")
		}
	}
	if w.Chance(12) {
		newKey(w)
	}
	w.State(len(nodes), ops)
	w.nontri = true
	w.Loop()
}

// newKey generates a key, with and without entropy
func newKey(w *W) {
	n := w.AddNode("generator")
	n.EntDead = w.Chance(500)
	w.After(0, func() {
		w.Go(n, "generate", func() {
			encryptGuard(w, n, func() {
				pk, err := encryption.NewFactory(1024).Create()
				if err != nil {
					w.Check(n.EntDead, "generate", "no key can be generated: %v", err)
					w.Check(pk == nil, "generate", "a key comes with an error")
					return
				}
				w.Check(!n.EntDead, "generate-no-entropy", "a key is generated without entropy")
				k := pk.Key()
				w.Check(k.N.BitLen() == 1024, "generate", "a key of %d bits instead of 1024", k.N.BitLen())
				p := pk.Public().Key()
				w.Check(p.Equal(&k.PublicKey), "generate", "a generated key has the public key of another")
				ad := encryption.NewAdapter()
				back, err := ad.FromEncoded(ad.ToEncoded(pk))
				w.Check(err == nil, "generate", "a generated key cannot be reloaded: %v", err)
				bk := back.Key()
				w.Check(bk.Equal(&k), "generate", "a generated key is reloaded as another one")
				for i := 0; i < 2; i++ {
					m := []byte(fmt.Sprint("message ", i))
					c, err := pk.Public().Encrypt(m)
					w.Check(err == nil, "generate", "a generated key does not encrypt: %v", err)
					got, err := back.Decrypt(c)
					w.Check(err == nil && bytes.Equal(got, m), "generate", "a generated key does not decrypt")
				}
				w.Count("generated")
			})
		})
	})
}
