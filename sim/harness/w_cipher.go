//go:build go1.23

package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"strings"
	"time"

	encryption "github.com/steve-care-software/steve/domain/cryptography"
)

func init() {
	register(&Property{
		ID: "C05", Run: worldCipher, Quick: 80000, Thorough: 1500000, Batch: 500,
		Rule: "Each run: 1-3 nodes, each with one cipher object shared by 2-5 tasks preempted at every statement, encrypt and decrypt 2-10 messages of any size (around block borders in particular); entropy reads fail or come short; ciphertexts are stored, nodes crash and restart with the same password, and stored ciphertexts are truncated, corrupted, spliced, or opened with a similar password.",
		Real: []string{"domain/cryptography"}, Stub: []string{"entropy source", "disk", "network", "task scheduler"},
		Assume: []string{"AES and SHA-256 are what they are said to be", "the cipher has no integrity: a corrupted ciphertext may open to another message"},
	})
}

// refCrypt is the format of the ciphertexts, written independently
func refDecrypt(pass []byte, text string) ([]byte, bool) {
	raw, err := base64.StdEncoding.DecodeString(text)
	if err != nil || len(raw) < 16 {
		return nil, false
	}
	key := sha256.Sum256(pass)
	block, err := aes.NewCipher(key[:])
	if err != nil {
		return nil, false
	}
	out := make([]byte, len(raw)-16)
	reg := append([]byte{}, raw[:16]...)
	ks := make([]byte, 16)
	for i := range out {
		if i%16 == 0 {
			if i > 0 {
				copy(reg, raw[i:i+16])
			}
			block.Encrypt(ks, reg)
		}
		out[i] = raw[16+i] ^ ks[i%16]
	}
	return out, true
}

func refEncrypt(pass, iv, msg []byte) string {
	key := sha256.Sum256(pass)
	block, err := aes.NewCipher(key[:])
	if err != nil {
		panic(err)
	}
	out := append([]byte{}, iv...)
	out = append(out, make([]byte, len(msg))...)
	cipher.NewCFBEncrypter(block, iv).XORKeyStream(out[16:], msg)
	return base64.StdEncoding.EncodeToString(out)
}

func genPlain(w *W) []byte {
	n := pick(w.Source, 5, 0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 64, 100, 255, 256, 1000, 4096)
	if w.Chance(4) {
		n = pick(w.Source, 8191, 32*1024+1, 65536, 70001, 1<<20+5)
	}
	if w.Chance(300) {
		n = w.Int(200)
	}
	if w.Chance(300) {
		return bytes.Repeat([]byte{byte(w.Int(3))}, n)
	}
	b := []byte(strings.Repeat("attack at dawn. ", n/16+1))[:n]
	if n > 8 {
		copy(b[n-8:], fmt.Sprintf("%08d", w.Int(1e8)))
	}
	return b
}

func genPass(w *W) []byte {
	switch w.Int(4) {
	default:
		return []byte(pick(w.Source, "secret", "a", "password", "é", "p\x00q", strings.Repeat("long", 20)))
	case 3:
		return w.Bytes(1 + w.Int(80))
	}
}

func similarPass(w *W, p []byte) []byte {
	o := append([]byte{}, p...)
	switch w.Int(7) {
	case 0:
		o = append(o, 0)
	case 1:
		o = o[:len(o)-1]
	case 2:
		o[w.Int(len(o))] ^= 1 << w.Int(8)
	case 3:
		o = append(o, o...)
	case 4:
		o = append([]byte(" "), o...)
	case 5:
		h := sha256.Sum256(p)
		o = h[:]
	case 6:
		o[len(o)-1] ^= 0x20
	}
	if len(o) == 0 || bytes.Equal(o, p) {
		o = append(append([]byte{}, p...), 'x')
	}
	return o
}

type sealed struct {
	text  string
	plain []byte
	node  int
	pass  []byte
}

func worldCipher(w *W) {
	w.Schedule()
	w.DrawNet()
	type vault struct {
		n    *Node
		pass []byte
		enc  encryption.Encryption
		bld  encryption.Builder
	}
	open := func(v *vault, pass []byte, how int) encryption.Encryption {
		if how == 0 {
			return encryption.NewEncryption(string(pass))
		}
		b := v.bld.Create()
		mine := append([]byte{}, pass...)
		e, err := b.WithPassword(mine).Now()
		w.Check(err == nil, "cipher-refused", "no cipher for a password of %d bytes: %v", len(pass), err)
		if how == 2 {
			// a password is wiped once it was used
			for i := range mine {
				mine[i] = 0
			}
		}
		return e
	}
	base := genPass(w)
	vaults := []*vault{}
	for i := 0; i < 1+w.Int(3); i++ {
		v := &vault{n: w.AddNode(fmt.Sprintf("vault%d", i)), pass: base, bld: encryption.NewBuilder()}
		if w.Chance(250) {
			v.pass = similarPass(w, base)
		}
		if w.Chance(350) {
			v.n.EntShort = w.Range(50, 700)
		}
		if w.Chance(250) {
			v.n.EntErr = w.Range(20, 500)
		}
		v.enc = open(v, v.pass, w.Int(3))
		vaults = append(vaults, v)
	}
	all := []*sealed{}
	ivs := map[string]int{}
	streams := map[string]int{}
	succeeded := map[*Node]int64{}
	toggles := 0
	encrypt := func(v *vault, enc encryption.Encryption, pass, plain []byte) {
		given := append([]byte{}, plain...)
		wasDead, gen := v.n.EntDead, toggles
		text, err := enc.Encrypt(given)
		w.Check(bytes.Equal(given, plain), "buffer", "encrypting changes the caller's message")
		if err != nil {
			w.Check(text == "", "partial", "a ciphertext comes with the error %s", err.Error())
			w.Check(v.n.EntErr > 0 || toggles > 0, "encrypt-fails", "encrypting fails while nothing is wrong: %s", err.Error())
			w.Count("encrypt_errors")
			return
		}
		for i := range given {
			given[i] = 0xee
		}
		succeeded[v.n]++
		w.Check(v.n.EntUsed >= 16*succeeded[v.n], "entropy", "%d messages were encrypted with %d bytes of entropy", succeeded[v.n], v.n.EntUsed)
		w.Check(!(wasDead && v.n.EntDead && gen == toggles), "entropy", "a message is encrypted while there is no entropy")
		ref, ok := refDecrypt(pass, text)
		w.Check(ok && bytes.Equal(ref, plain), "format", "a message of %d bytes is not readable by the reference reader", len(plain))
		raw, _ := base64.StdEncoding.DecodeString(text)
		iv := string(raw[:16])
		if prev, ok := ivs[iv]; ok {
			w.Fail("iv-reused", "ciphertexts %d and %d share their initial vector", prev, len(all))
		}
		ivs[iv] = len(all)
		if len(plain) >= 16 {
			x := make([]byte, 16)
			for i := range x {
				x[i] = raw[16+i] ^ plain[i]
			}
			k := string(pass) + "|" + string(x)
			if prev, ok := streams[k]; ok {
				w.Fail("keystream-reused", "ciphertexts %d and %d share their key stream", prev, len(all))
			}
			streams[k] = len(all)
		}
		if len(plain) >= 8 {
			w.Check(!bytes.Contains(raw, plain) && !strings.Contains(text, string(plain)), "plaintext", "a ciphertext contains its message")
		}
		w.Check(!bytes.Contains(raw, pass) || len(pass) < 6, "plaintext", "a ciphertext contains the password")
		all = append(all, &sealed{text, plain, v.n.ID, pass})
		w.Count("encrypted")
	}
	decrypt := func(v *vault, s *sealed) {
		got, err := v.enc.Decrypt(s.text)
		if bytes.Equal(v.pass, s.pass) {
			w.Check(err == nil, "round-trip", "%s cannot open what was closed with its password: %v", v.n.Name, err)
			w.Check(bytes.Equal(got, s.plain), "round-trip", "%s opens another message (%d bytes instead of %d)", v.n.Name, len(got), len(s.plain))
			w.Count("opened")
		} else if len(s.plain) >= 8 {
			w.Check(err != nil || !bytes.Equal(got, s.plain), "wrong-password", "%s opens a message with another password", v.n.Name)
			w.Fault("wrong_password")
		}
		// what is returned belongs to the caller
		for i := range got {
			got[i] ^= 0xff
		}
	}
	damaged := func(v *vault, s *sealed, p []byte) {
		text := string(p)
		raw, berr := base64.StdEncoding.DecodeString(text)
		orig, _ := base64.StdEncoding.DecodeString(s.text)
		got, err := v.enc.Decrypt(text)
		switch {
		case berr != nil:
			w.Check(err != nil, "garbage-accepted", "%d bytes that are not a ciphertext are opened", len(text))
		case len(raw) < 16:
			w.Check(err != nil, "short-accepted", "a ciphertext of %d bytes is opened", len(raw))
		case bytes.Equal(raw, orig):
		default:
			// a few bytes behind another vector may open to the same bytes by chance
			if err == nil && bytes.Equal(v.pass, s.pass) && (len(s.plain) >= 8 || len(s.plain) >= 1 && bytes.Equal(raw[:16], orig[:16])) {
				w.Check(!bytes.Equal(got, s.plain), "damage-hidden", "a damaged ciphertext opens to the whole message")
			}
			if err == nil {
				ref, _ := refDecrypt(v.pass, text)
				w.Check(bytes.Equal(ref, got), "format", "a ciphertext of %d bytes is read differently by the reference reader", len(raw))
			}
		}
	}
	total := 2 + w.Int(9)
	for i := 0; i < total; i++ {
		v := pick(w.Source, vaults...)
		at := time.Duration(w.Int(300)) * time.Millisecond
		if w.Chance(100) {
			w.After(at, func() {
				v.n.EntDead = true
				toggles++
				w.After(time.Duration(w.Int(100))*time.Millisecond, func() { v.n.EntDead = false; toggles++ })
			})
		}
		plain := genPlain(w)
		n := 1 + w.Int(3)
		other := 0
		if w.Chance(250) {
			other = 1 + w.Int(3)
		}
		w.After(at, func() {
			if !v.n.Up {
				return
			}
			for k := 0; k < n; k++ {
				p := plain
				if w.Chance(300) {
					p = genPlain(w)
				}
				w.Go(v.n, "encrypt", func() {
					encryptGuard(w, v.n, func() { encrypt(v, v.enc, v.pass, p) })
				})
			}
			// other ciphers of the same application, built while this one is used
			for k := other; k > 0; k-- {
				pass := similarPass(w, v.pass)
				how := 1 + w.Int(2)
				w.Go(v.n, "build", func() {
					enc := open(v, pass, how)
					encryptGuard(w, v.n, func() { encrypt(v, enc, pass, plain) })
				})
			}
			for k := w.Int(3); k > 0 && len(all) > 0; k-- {
				s := pick(w.Source, all...)
				w.Go(v.n, "decrypt", func() { decrypt(v, s) })
			}
			if len(all) > 0 && w.Bool() {
				s := pick(w.Source, all...)
				to := pick(w.Source, vaults...)
				w.Send(nil, to.n, "ciphertext", []byte(s.text), func(p []byte) { damaged(to, s, p) })
			}
			w.State(len(plain), v.n.EntErr > 0, v.n.EntShort > 0, len(all), v.n.EntDead)
		})
		if w.Chance(80) {
			w.After(at+time.Duration(w.Int(3))*time.Millisecond, func() {
				w.Crash(v.n)
				w.After(time.Duration(w.Int(50))*time.Millisecond, func() {
					w.Restart(v.n)
					v.enc = open(v, v.pass, w.Int(3))
				})
			})
		}
	}
	w.nontri = true
	w.Loop()
	// everything stays readable: by every node, and what an earlier version wrote
	for _, v := range vaults {
		if !v.n.Up {
			w.Restart(v.n)
			v.enc = open(v, v.pass, 0)
		}
		for _, s := range all {
			decrypt(v, s)
		}
		plain := genPlain(w)
		old := &sealed{text: refEncrypt(v.pass, w.Bytes(16), plain), plain: plain, pass: v.pass}
		decrypt(v, old)
		fresh := open(v, v.pass, w.Int(3))
		got, err := fresh.Decrypt(old.text)
		w.Check(err == nil && bytes.Equal(got, plain), "round-trip", "a cipher opened anew cannot open what was closed with its password")
	}
	_, err := encryption.NewBuilder().Create().Now()
	w.Check(err != nil, "no-password", "a cipher is built without a password")
	w.Logf("%d ciphertexts", len(all))
}

// encryptGuard lets code that panics without entropy do so
func encryptGuard(w *W, n *Node, fn func()) {
	pan := w.Try(fn)
	if pan != nil && !(n.EntErr > 0 || n.EntDead || n.EntLost) {
		panic(pan)
	}
}
