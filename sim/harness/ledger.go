//go:build go1.23

package main

import (
	"crypto/sha512"
	"encoding/hex"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	uuid "github.com/satori/go.uuid"
	"github.com/steve-care-software/steve/domain/chains"
	"github.com/steve-care-software/steve/domain/cryptography/keys/signature"
	"github.com/steve-care-software/steve/domain/genesis"
	gprivates "github.com/steve-care-software/steve/domain/genesis/privates"
	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/domain/identities"
	"github.com/steve-care-software/steve/domain/receipts"
	"github.com/steve-care-software/steve/domain/rings"
	"github.com/steve-care-software/steve/domain/transactions"
	tprivates "github.com/steve-care-software/steve/domain/transactions/privates"
	"github.com/steve-care-software/steve/domain/transactions/secrets"
)

// D describes a ledger object by value: what travels between nodes
type D struct {
	Kind   string
	Text   map[string]string
	Num    map[string]uint64
	Time   map[string]At
	Hash   map[string]hash.Hash
	Sub    map[string]*D
	List   []*D
	Hashes []hash.Hash
	Nil    bool // the list is nil rather than empty
	Auth   int  // index of a ring signature, -1 for none
	Sig    int
	Key    int
	local  map[string]time.Time // what the creating node passed, if it is the creator
}

// At is an instant: seconds since 1970 and nanoseconds within the second
type At struct{ S, N int64 }

func (a At) add(ns int64) At {
	a.N += ns % 1e9
	a.S += ns / 1e9
	if a.N < 0 {
		a.N += 1e9
		a.S--
	}
	if a.N >= 1e9 {
		a.N -= 1e9
		a.S++
	}
	return a
}

func (a At) before(b At) bool { return a.S < b.S || a.S == b.S && a.N < b.N }

func newD(kind string) *D {
	return &D{Kind: kind, Text: map[string]string{}, Num: map[string]uint64{}, Time: map[string]At{}, Hash: map[string]hash.Hash{}, Sub: map[string]*D{}, Auth: -1, Sig: -1, Key: -1}
}

func (d *D) clone() *D {
	o := newD(d.Kind)
	for k, v := range d.Text {
		o.Text[k] = v
	}
	for k, v := range d.Num {
		o.Num[k] = v
	}
	for k, v := range d.Time {
		o.Time[k] = v
	}
	for k, v := range d.Hash {
		o.Hash[k] = v
	}
	for k, v := range d.Sub {
		o.Sub[k] = v.clone()
	}
	for _, v := range d.List {
		o.List = append(o.List, v.clone())
	}
	o.Hashes = append(o.Hashes, d.Hashes...)
	o.Nil, o.Auth, o.Sig, o.Key = d.Nil, d.Auth, d.Sig, d.Key
	return o
}

// second tells the kinds whose times count to the second
var secondKinds = map[string]bool{"content": true, "block": true, "chain": true}

// Canon is the canonical form: equal exactly for equal content
func (d *D) Canon() string {
	var b strings.Builder
	d.canon(&b)
	return b.String()
}

func (d *D) canon(b *strings.Builder) {
	if d.Kind == "origin" {
		// an origin is what it points to
		for _, k := range []string{"genesis", "transaction"} {
			if d.Sub[k] != nil {
				fmt.Fprintf(b, "origin:%s(", k)
				d.Sub[k].canon(b)
				b.WriteString(")")
				return
			}
		}
	}
	fmt.Fprintf(b, "%s{", d.Kind)
	for _, k := range sortedKeys(d.Text) {
		fmt.Fprintf(b, "%s=%q;", k, d.Text[k])
	}
	for _, k := range sortedKeys(d.Num) {
		if k == "min" || k == "max" {
			continue
		}
		fmt.Fprintf(b, "%s=%d;", k, d.Num[k])
	}
	for _, k := range sortedKeys(d.Time) {
		t := d.Time[k]
		if secondKinds[d.Kind] {
			t.N = 0
		}
		fmt.Fprintf(b, "%s@%d.%d;", k, t.S, t.N)
	}
	for _, k := range sortedKeys(d.Hash) {
		fmt.Fprintf(b, "%s#%x;", k, d.Hash[k])
	}
	for _, k := range sortedKeys(d.Sub) {
		fmt.Fprintf(b, "%s:", k)
		d.Sub[k].canon(b)
	}
	for _, l := range d.List {
		b.WriteString(",")
		l.canon(b)
	}
	for _, h := range d.Hashes {
		fmt.Fprintf(b, ",#%x", h)
	}
	if d.Auth >= 0 {
		fmt.Fprintf(b, "auth%d", d.Auth)
	}
	if d.Sig >= 0 {
		fmt.Fprintf(b, "sig%d", d.Sig)
	}
	if d.Key >= 0 {
		fmt.Fprintf(b, "key%d", d.Key)
	}
	b.WriteString("}")
}

// desc is a short description for messages
func (d *D) short() string {
	s := d.Canon()
	if len(s) > 300 {
		h := sha512.Sum512([]byte(s))
		return s[:280] + "..." + hex.EncodeToString(h[:4])
	}
	return s
}

// fixtures: keys and signatures whose content does not matter
type authPool struct {
	keys []signature.PrivateKey
	auth []signature.RingSignature
	sigs []signature.Signature
}

var thePool *authPool

func pool() *authPool {
	if thePool != nil {
		return thePool
	}
	p := &authPool{}
	ad := signature.NewPrivateKeyAdapter()
	pubs := []signature.PublicKey{}
	for i := 0; i < 3; i++ {
		k, err := ad.ToPrivateKey(challenge(fmt.Sprintf("fixture %d", i)).String())
		if err != nil {
			panic(err)
		}
		p.keys = append(p.keys, k)
		pubs = append(pubs, k.PublicKey())
	}
	for i := 0; i < 3; i++ {
		a, err := p.keys[i].RingSign(fmt.Sprintf("m%d", i%2), pubs[:i+1])
		if err != nil {
			panic(err)
		}
		s, err := p.keys[i].Sign(fmt.Sprintf("m%d", i%2))
		if err != nil {
			panic(err)
		}
		p.auth = append(p.auth, a)
		p.sigs = append(p.sigs, s)
	}
	thePool = p
	return p
}

// builders is what one application holds: every task shares it
type builders struct {
	ring         map[string]rings.RingBuilder
	rings        rings.Builder
	genesis      genesis.Builder
	units        genesis.UnitsBuilder
	unit         genesis.UnitBuilder
	unitContent  genesis.UnitContentBuilder
	gprivates    gprivates.Builder
	gprivate     gprivates.PrivateBuilder
	transactions transactions.Builder
	transaction  transactions.TransactionBuilder
	content      transactions.ContentBuilder
	origin       transactions.OriginBuilder
	secrets      secrets.Builder
	secret       secrets.SecretBuilder
	receipt      receipts.Builder
	tprivates    tprivates.Builder
	tprivate     tprivates.PrivateBuilder
	block        chains.BlockBuilder
	chain        chains.Builder
	identity     identities.Builder
	identityTrx  identities.TransactionsBuilder
}

func newBuilders() *builders {
	return &builders{
		ring: map[string]rings.RingBuilder{}, rings: rings.NewBuilder(),
		genesis: genesis.NewBuilder(), units: genesis.VerifUnitsBuilder(), unit: genesis.NewUnitBuilder(), unitContent: genesis.NewUnitContentBuilder(),
		gprivates: gprivates.NewBuilder(), gprivate: gprivates.NewPrivateBuilder(),
		transactions: transactions.NewBuilder(), transaction: transactions.NewTransactionBuilder(), content: transactions.NewContentBuilder(), origin: transactions.NewOriginBuilder(),
		secrets: secrets.NewBuilder(), secret: secrets.NewSecretBuilder(), receipt: receipts.NewBuilder(),
		tprivates: tprivates.NewBuilder(), tprivate: tprivates.NewPrivateBuilder(),
		block: chains.NewBlockBuilder(), chain: chains.NewBuilder(), identity: identities.NewBuilder(), identityTrx: identities.NewTransactionsBuilder(),
	}
}

func (b *builders) ringBuilder(min, max uint64) rings.RingBuilder {
	k := fmt.Sprint(min, "-", max)
	if b.ring[k] == nil {
		b.ring[k] = rings.NewRingBuilder(uint(min), uint(max))
	}
	return b.ring[k]
}

// stubUnits stands in when the package's own units builder cannot be reached
type stubUnits struct {
	h    hash.Hash
	list []genesis.Unit
}

func (s *stubUnits) Hash() hash.Hash     { return s.h }
func (s *stubUnits) All() []genesis.Unit { return s.list }

// ctx is how one node builds
type ctx struct {
	w     *W
	b     *builders
	zone  *time.Location
	local bool // the creator: times come from its clock
	// accessors are checked when set
	check func(what string, ok bool)
	first bool // simplest setter order
	// built is told of every object and part that was built
	built func(d *D, v interface{})
}

var errRefused = errors.New("refused")

func (c *ctx) time(d *D, k string) time.Time {
	if c.local && d.local != nil {
		if t, ok := d.local[k]; ok {
			return t
		}
	}
	t := time.Unix(d.Time[k].S, d.Time[k].N)
	if c.zone != nil {
		t = t.In(c.zone)
	}
	return t
}

// set calls the setters in a chosen order
func (c *ctx) set(fns ...func()) {
	order := make([]int, len(fns))
	for i := range order {
		order[i] = i
	}
	if !c.first {
		order = c.w.Perm(len(fns))
	}
	for _, i := range order {
		fns[i]()
	}
}

func (c *ctx) ok(what string, cond bool) {
	if c.check != nil {
		c.check(what, cond)
	}
}

type hashed interface{ Hash() hash.Hash }

// sub builds a field
func (c *ctx) sub(d *D, k string) (interface{}, error) {
	s := d.Sub[k]
	if s == nil {
		return nil, nil
	}
	return c.build(s)
}

func (c *ctx) list(d *D) ([]interface{}, error) {
	out := []interface{}{}
	for _, l := range d.List {
		v, err := c.build(l)
		if err != nil {
			return nil, err
		}
		out = append(out, v)
	}
	return out, nil
}

func listOf[T any](in []interface{}, isNil bool) []T {
	if isNil && len(in) == 0 {
		return nil
	}
	out := []T{}
	for _, v := range in {
		out = append(out, v.(T))
	}
	return out
}

func sameList[T any](c *ctx, kind string, got, want []T, eq func(a, b T) bool) {
	ok := len(got) == len(want)
	for i := range want {
		ok = ok && eq(got[i], want[i])
	}
	c.ok(kind+".List", ok)
}

func same[T comparable](a, b T) bool { return a == b }

func eqTime(a, b time.Time) bool { return a.Round(0).Equal(b.Round(0)) }

// build builds the object, and its parts, with the real builders
func (c *ctx) build(d *D) (interface{}, error) {
	v, err := c.buildOne(d)
	if err == nil && c.built != nil {
		c.built(d, v)
	}
	return v, err
}

func (c *ctx) buildOne(d *D) (interface{}, error) {
	w := c.w
	switch d.Kind {
	case "ring":
		b := c.b.ringBuilder(d.Num["min"], d.Num["max"]).Create()
		list := append([]hash.Hash{}, d.Hashes...)
		if d.Nil && len(list) == 0 {
			list = nil
		}
		v, err := b.WithList(list).Now()
		if err != nil {
			return nil, err
		}
		sameList(c, "ring", v.List(), d.Hashes, same[hash.Hash])
		return v, nil
	case "rings":
		l, err := c.list(d)
		if err != nil {
			return nil, err
		}
		want := listOf[rings.Ring](l, d.Nil)
		v, err := c.b.rings.Create().WithList(want).Now()
		if err != nil {
			return nil, err
		}
		sameList(c, "rings", v.List(), want, same[rings.Ring])
		return v, nil
	case "unitContent":
		b := c.b.unitContent.Create()
		fns := []func(){}
		if a, ok := d.Num["amount"]; ok {
			fns = append(fns, func() { b = b.WithAmount(uint(a)) })
		}
		if n, ok := d.Text["nonce"]; ok {
			fns = append(fns, func() { b = b.WithNonce(n) })
		}
		if _, ok := d.Time["activatedOn"]; ok {
			fns = append(fns, func() { b = b.ActivatedOn(c.time(d, "activatedOn")) })
		}
		if _, ok := d.Time["createdOn"]; ok {
			fns = append(fns, func() { b = b.CreatedOn(c.time(d, "createdOn")) })
		}
		c.set(fns...)
		v, err := b.Now()
		if err != nil {
			return nil, err
		}
		c.ok("unitContent.Amount", uint64(v.Amount()) == d.Num["amount"])
		c.ok("unitContent.Nonce", v.Nonce() == d.Text["nonce"])
		c.ok("unitContent.ActivatedOn", eqTime(v.ActivatedOn(), c.time(d, "activatedOn")))
		c.ok("unitContent.CreatedOn", eqTime(v.CreatedOn(), c.time(d, "createdOn")))
		return v, nil
	case "unit":
		content, err := c.sub(d, "content")
		if err != nil {
			return nil, err
		}
		owner, err := c.sub(d, "owner")
		if err != nil {
			return nil, err
		}
		b := c.b.unit.Create()
		fns := []func(){}
		if content != nil {
			fns = append(fns, func() { b = b.WithContent(content.(genesis.UnitContent)) })
		}
		if owner != nil {
			fns = append(fns, func() { b = b.WithOwner(owner.(rings.Ring)) })
		}
		c.set(fns...)
		v, err := b.Now()
		if err != nil {
			return nil, err
		}
		c.ok("unit.Content", v.Content() == content)
		c.ok("unit.Owner", v.Owner() == owner)
		return v, nil
	case "units":
		l, err := c.list(d)
		if err != nil {
			return nil, err
		}
		want := listOf[genesis.Unit](l, d.Nil)
		if c.b.units == nil {
			if len(want) == 0 {
				return nil, errRefused
			}
			h := sha512.New()
			for _, u := range want {
				h.Write(u.Hash().Bytes())
			}
			s := &stubUnits{list: want}
			copy(s.h[:], h.Sum(nil))
			return genesis.Units(s), nil
		}
		v, err := c.b.units.Create().WithList(want).Now()
		if err != nil {
			return nil, err
		}
		sameList(c, "units", v.All(), want, same[genesis.Unit])
		return v, nil
	case "genesis":
		units, err := c.sub(d, "units")
		if err != nil {
			return nil, err
		}
		b := c.b.genesis.Create()
		fns := []func(){}
		if units != nil {
			fns = append(fns, func() { b = b.WithUnits(units.(genesis.Units)) })
		}
		if f, ok := d.Num["fees"]; ok {
			fns = append(fns, func() { b = b.WithFees(uint(f)) })
		}
		if _, ok := d.Time["createdOn"]; ok {
			fns = append(fns, func() { b = b.CreatedOn(c.time(d, "createdOn")) })
		}
		c.set(fns...)
		v, err := b.Now()
		if err != nil {
			return nil, err
		}
		c.ok("genesis.Units", v.Units() == units)
		c.ok("genesis.Fees", uint64(v.Fees()) == d.Num["fees"])
		c.ok("genesis.CreatedOn", eqTime(v.CreatedOn(), c.time(d, "createdOn")))
		return v, nil
	case "gprivate":
		unit, err := c.sub(d, "unit")
		if err != nil {
			return nil, err
		}
		b := c.b.gprivate.Create()
		fns := []func(){}
		if unit != nil {
			fns = append(fns, func() { b = b.WithUnit(unit.(genesis.Unit)) })
		}
		if d.Key >= 0 {
			fns = append(fns, func() { b = b.WithPrivateKey(pool().keys[d.Key]) })
		}
		c.set(fns...)
		v, err := b.Now()
		if err != nil {
			return nil, err
		}
		c.ok("gprivate.Unit", v.Unit() == unit)
		c.ok("gprivate.PrivateKey", v.PrivateKey() == pool().keys[d.Key])
		return v, nil
	case "gprivates":
		l, err := c.list(d)
		if err != nil {
			return nil, err
		}
		want := listOf[gprivates.Private](l, d.Nil)
		v, err := c.b.gprivates.Create().WithList(want).Now()
		if err != nil {
			return nil, err
		}
		sameList(c, "gprivates", v.List(), want, same[gprivates.Private])
		return v, nil
	case "origin":
		g, err := c.sub(d, "genesis")
		if err != nil {
			return nil, err
		}
		t, err := c.sub(d, "transaction")
		if err != nil {
			return nil, err
		}
		b := c.b.origin.Create()
		if g != nil {
			b = b.WithGenesis(g.(genesis.Unit))
		}
		if t != nil {
			b = b.WithTransaction(t.(transactions.Transaction))
		}
		v, err := b.Now()
		if err != nil {
			return nil, err
		}
		c.ok("origin.IsGenesis", v.IsGenesis() == (g != nil))
		c.ok("origin.IsTransaction", v.IsTransaction() == (t != nil))
		if g != nil {
			c.ok("origin.Genesis", v.Genesis() == g)
		}
		if t != nil {
			c.ok("origin.Transaction", v.Transaction() == t)
		}
		return v, nil
	case "content":
		owner, err := c.sub(d, "owner")
		if err != nil {
			return nil, err
		}
		origin, err := c.sub(d, "origin")
		if err != nil {
			return nil, err
		}
		b := c.b.content.Create()
		fns := []func(){}
		if owner != nil {
			fns = append(fns, func() { b = b.WithOwner(owner.(rings.Ring)) })
		}
		if origin != nil {
			fns = append(fns, func() { b = b.WithOrigin(origin.(transactions.Origin)) })
		}
		if h, ok := d.Hash["amount"]; ok {
			fns = append(fns, func() { b = b.WithAmount(h) })
		}
		if h, ok := d.Hash["external"]; ok {
			fns = append(fns, func() { b = b.WithExternal(h) })
		}
		if _, ok := d.Time["createdOn"]; ok {
			fns = append(fns, func() { b = b.CreatedOn(c.time(d, "createdOn")) })
		}
		c.set(fns...)
		v, err := b.Now()
		if err != nil {
			return nil, err
		}
		c.ok("content.Owner", v.Owner() == owner)
		c.ok("content.Origin", v.Origin() == origin)
		c.ok("content.Amount", v.Amount() == d.Hash["amount"])
		c.ok("content.External", v.External() == d.Hash["external"])
		c.ok("content.CreatedOn", eqTime(v.CreatedOn(), c.time(d, "createdOn")))
		return v, nil
	case "transaction":
		content, err := c.sub(d, "content")
		if err != nil {
			return nil, err
		}
		b := c.b.transaction.Create()
		fns := []func(){}
		if content != nil {
			fns = append(fns, func() { b = b.WithContent(content.(transactions.Content)) })
		}
		if d.Auth >= 0 {
			fns = append(fns, func() { b = b.WithAuthorization(pool().auth[d.Auth]) })
		}
		c.set(fns...)
		v, err := b.Now()
		if err != nil {
			return nil, err
		}
		c.ok("transaction.Content", v.Content() == content)
		c.ok("transaction.Authorization", v.Authorization() == pool().auth[d.Auth])
		return v, nil
	case "transactions":
		l, err := c.list(d)
		if err != nil {
			return nil, err
		}
		want := listOf[transactions.Transaction](l, d.Nil)
		v, err := c.b.transactions.Create().WithList(want).Now()
		if err != nil {
			return nil, err
		}
		sameList(c, "transactions", v.List(), want, same[transactions.Transaction])
		return v, nil
	case "secret":
		public, err := c.sub(d, "public")
		if err != nil {
			return nil, err
		}
		origin, err := c.sub(d, "origin")
		if err != nil {
			return nil, err
		}
		sides, err := c.sub(d, "sides")
		if err != nil {
			return nil, err
		}
		b := c.b.secret.Create()
		fns := []func(){}
		if a, ok := d.Num["amount"]; ok {
			fns = append(fns, func() { b = b.WithAmount(uint(a)) })
		}
		if n, ok := d.Text["nonce"]; ok {
			fns = append(fns, func() { b = b.WithNonce(n) })
		}
		if public != nil {
			fns = append(fns, func() { b = b.WithPublic(public.(transactions.Transaction)) })
		}
		if origin != nil {
			fns = append(fns, func() { b = b.WithOrigin(origin.(secrets.Secret)) })
		}
		if sides != nil {
			fns = append(fns, func() { b = b.WithSides(sides.(secrets.Secrets)) })
		}
		c.set(fns...)
		v, err := b.Now()
		if err != nil {
			return nil, err
		}
		c.ok("secret.Amount", uint64(v.Amount()) == d.Num["amount"])
		c.ok("secret.Nonce", v.Nonce() == d.Text["nonce"])
		c.ok("secret.Public", v.Public() == public)
		c.ok("secret.HasOrigin", v.HasOrigin() == (origin != nil))
		c.ok("secret.HasSides", v.HasSides() == (sides != nil))
		if origin != nil {
			c.ok("secret.Origin", v.Origin() == origin)
		}
		if sides != nil {
			c.ok("secret.Sides", v.Sides() == sides)
		}
		return v, nil
	case "secrets":
		l, err := c.list(d)
		if err != nil {
			return nil, err
		}
		want := listOf[secrets.Secret](l, d.Nil)
		v, err := c.b.secrets.Create().WithList(want).Now()
		if err != nil {
			return nil, err
		}
		sameList(c, "secrets", v.List(), want, same[secrets.Secret])
		return v, nil
	case "receipt":
		secret, err := c.sub(d, "secret")
		if err != nil {
			return nil, err
		}
		b := c.b.receipt.Create()
		fns := []func(){}
		if secret != nil {
			fns = append(fns, func() { b = b.WithSecret(secret.(secrets.Secret)) })
		}
		if d.Sig >= 0 {
			fns = append(fns, func() { b = b.WithSignature(pool().sigs[d.Sig]) })
		}
		c.set(fns...)
		v, err := b.Now()
		if err != nil {
			return nil, err
		}
		c.ok("receipt.Secret", v.Secret() == secret)
		c.ok("receipt.Signature", v.Signature() == pool().sigs[d.Sig])
		return v, nil
	case "tprivate":
		receipt, err := c.sub(d, "receipt")
		if err != nil {
			return nil, err
		}
		b := c.b.tprivate.Create()
		fns := []func(){}
		if receipt != nil {
			fns = append(fns, func() { b = b.WithReceipt(receipt.(receipts.Receipt)) })
		}
		if d.Key >= 0 {
			fns = append(fns, func() { b = b.WithPrivateKey(pool().keys[d.Key]) })
		}
		c.set(fns...)
		v, err := b.Now()
		if err != nil {
			return nil, err
		}
		c.ok("tprivate.Receipt", v.Receipt() == receipt)
		c.ok("tprivate.PrivateKey", v.PrivateKey() == pool().keys[d.Key])
		return v, nil
	case "tprivates":
		l, err := c.list(d)
		if err != nil {
			return nil, err
		}
		want := listOf[tprivates.Private](l, d.Nil)
		v, err := c.b.tprivates.Create().WithList(want).Now()
		if err != nil {
			return nil, err
		}
		sameList(c, "tprivates", v.List(), want, same[tprivates.Private])
		return v, nil
	case "block":
		fees, err := c.sub(d, "fees")
		if err != nil {
			return nil, err
		}
		trx, err := c.sub(d, "transactions")
		if err != nil {
			return nil, err
		}
		b := c.b.block.Create()
		fns := []func(){}
		if h, ok := d.Num["height"]; ok {
			fns = append(fns, func() { b = b.WithHeight(uint(h)) })
		}
		if fees != nil {
			fns = append(fns, func() { b = b.WithFees(fees.(rings.Ring)) })
		}
		if trx != nil {
			fns = append(fns, func() { b = b.WithTransactions(trx.(transactions.Transactions)) })
		}
		if _, ok := d.Time["createdOn"]; ok {
			fns = append(fns, func() { b = b.CreatedOn(c.time(d, "createdOn")) })
		}
		prev, hasPrev := d.Hash["previous"]
		if hasPrev {
			fns = append(fns, func() { b = b.WithPrevious(prev) })
		}
		c.set(fns...)
		v, err := b.Now()
		if err != nil {
			return nil, err
		}
		c.ok("block.Height", uint64(v.Height()) == d.Num["height"])
		c.ok("block.Fees", v.Fees() == fees)
		c.ok("block.Transactions", v.Transactions() == trx)
		c.ok("block.CreatedOn", eqTime(v.CreatedOn(), c.time(d, "createdOn")))
		c.ok("block.HasPrevious", v.HasPrevious() == hasPrev)
		if hasPrev {
			c.ok("block.Previous", v.Previous() != nil && *v.Previous() == prev)
		}
		return v, nil
	case "chain":
		head, err := c.sub(d, "head")
		if err != nil {
			return nil, err
		}
		b := c.b.chain.Create()
		fns := []func(){}
		var id uuid.UUID
		if t, ok := d.Text["id"]; ok {
			copy(id[:], t)
			fns = append(fns, func() { b = b.WithID(id) })
		}
		root, hasRoot := d.Hash["root"]
		if hasRoot {
			fns = append(fns, func() { b = b.WithRoot(root) })
		}
		if head != nil {
			fns = append(fns, func() { b = b.WithHead(head.(chains.Block)) })
		}
		if _, ok := d.Time["createdOn"]; ok {
			fns = append(fns, func() { b = b.CreatedOn(c.time(d, "createdOn")) })
		}
		c.set(fns...)
		v, err := b.Now()
		if err != nil {
			return nil, err
		}
		c.ok("chain.ID", v.ID() == id)
		c.ok("chain.Root", v.Root() == root)
		c.ok("chain.CreatedOn", eqTime(v.CreatedOn(), c.time(d, "createdOn")))
		c.ok("chain.HasHead", v.HasHead() == (head != nil))
		if head != nil {
			c.ok("chain.Head", v.Head() == head)
		}
		return v, nil
	case "identityTrx":
		out, err := c.sub(d, "outgoing")
		if err != nil {
			return nil, err
		}
		in, err := c.sub(d, "incoming")
		if err != nil {
			return nil, err
		}
		b := c.b.identityTrx.Create()
		fns := []func(){}
		if out != nil {
			fns = append(fns, func() { b = b.WithOutgoing(out.(tprivates.Privates)) })
		}
		if in != nil {
			fns = append(fns, func() { b = b.WithIncoming(in.(secrets.Secrets)) })
		}
		c.set(fns...)
		v, err := b.Now()
		if err != nil {
			return nil, err
		}
		c.ok("identityTrx.HasOutgoing", v.HasOutgoing() == (out != nil))
		c.ok("identityTrx.HasIncoming", v.HasIncoming() == (in != nil))
		if out != nil {
			c.ok("identityTrx.Outgoing", v.Outgoing() == out)
		}
		if in != nil {
			c.ok("identityTrx.Incoming", v.Incoming() == in)
		}
		return v, nil
	case "identity":
		trx, err := c.sub(d, "trx")
		if err != nil {
			return nil, err
		}
		gen, err := c.sub(d, "genesis")
		if err != nil {
			return nil, err
		}
		b := c.b.identity.Create()
		fns := []func(){}
		if n, ok := d.Text["name"]; ok {
			fns = append(fns, func() { b = b.WithName(n) })
		}
		if trx != nil {
			fns = append(fns, func() { b = b.WithTransactions(trx.(identities.Transactions)) })
		}
		if gen != nil {
			fns = append(fns, func() { b = b.WithGenesis(gen.(tprivates.Privates)) })
		}
		c.set(fns...)
		v, err := b.Now()
		if err != nil {
			return nil, err
		}
		c.ok("identity.Name", v.Name() == d.Text["name"])
		c.ok("identity.Transactions", v.Transactions() == trx)
		c.ok("identity.HasGenesis", v.HasGenesis() == (gen != nil))
		if gen != nil {
			c.ok("identity.Genesis", v.Genesis() == gen)
		}
		return v, nil
	}
	w.Fail("harness", "unknown kind %s", d.Kind)
	return nil, nil
}

// admit is the reference model of admission: why the object must be refused, or ""
func (d *D) admit() string {
	for _, k := range sortedKeys(d.Sub) {
		if r := d.Sub[k].admit(); r != "" {
			return k + ": " + r
		}
	}
	for i, l := range d.List {
		if r := l.admit(); r != "" {
			return fmt.Sprintf("%d: %s", i, r)
		}
	}
	need := func(ok bool, what string) string {
		if ok {
			return ""
		}
		return d.Kind + " without " + what
	}
	first := func(rs ...string) string {
		for _, r := range rs {
			if r != "" {
				return r
			}
		}
		return ""
	}
	_, created := d.Time["createdOn"]
	switch d.Kind {
	case "ring":
		n := uint64(len(d.Hashes))
		if d.Nil && n == 0 {
			return "ring without hashes"
		}
		if n < d.Num["min"] || n > d.Num["max"] {
			return "ring of a forbidden size"
		}
	case "rings", "units", "gprivates", "transactions", "secrets", "tprivates":
		return need(len(d.List) > 0, "elements")
	case "unitContent":
		_, act := d.Time["activatedOn"]
		if r := first(need(d.Num["amount"] > 0, "amount"), need(d.Text["nonce"] != "", "nonce"), need(act, "activation"), need(created, "creation")); r != "" {
			return r
		}
		if d.Time["activatedOn"].before(d.Time["createdOn"]) {
			return "unit content activated before it was created"
		}
	case "unit":
		return first(need(d.Sub["content"] != nil, "content"), need(d.Sub["owner"] != nil, "owner"))
	case "genesis":
		_, fees := d.Num["fees"]
		if r := first(need(d.Sub["units"] != nil, "units"), need(fees, "fees"), need(created, "creation")); r != "" {
			return r
		}
		for _, u := range d.Sub["units"].List {
			if u.Sub["content"].Time["createdOn"].before(d.Time["createdOn"]) {
				return "unit created before the genesis"
			}
		}
	case "gprivate":
		return first(need(d.Sub["unit"] != nil, "unit"), need(d.Key >= 0, "key"))
	case "origin":
		return need(d.Sub["genesis"] != nil || d.Sub["transaction"] != nil, "source")
	case "content":
		_, amount := d.Hash["amount"]
		_, ext := d.Hash["external"]
		return first(need(d.Sub["owner"] != nil, "owner"), need(d.Sub["origin"] != nil, "origin"), need(amount, "amount"), need(ext, "external"), need(created, "creation"))
	case "transaction":
		return first(need(d.Sub["content"] != nil, "content"), need(d.Auth >= 0, "authorization"))
	case "secret":
		return first(need(d.Num["amount"] > 0, "amount"), need(d.Text["nonce"] != "", "nonce"), need(d.Sub["public"] != nil, "public transaction"))
	case "receipt":
		return first(need(d.Sub["secret"] != nil, "secret"), need(d.Sig >= 0, "signature"))
	case "tprivate":
		return first(need(d.Sub["receipt"] != nil, "receipt"), need(d.Key >= 0, "key"))
	case "block":
		return first(need(d.Num["height"] > 0, "height"), need(d.Sub["fees"] != nil, "fees"), need(d.Sub["transactions"] != nil, "transactions"), need(created, "creation"))
	case "chain":
		_, id := d.Text["id"]
		_, root := d.Hash["root"]
		return first(need(id, "id"), need(root, "root"), need(created, "creation"))
	case "identity":
		return first(need(d.Text["name"] != "", "name"), need(d.Sub["trx"] != nil, "transactions"))
	}
	return ""
}

// ---- generation

// gen generates descriptions over small domains, so that different objects are
// often only a reframing of each other
type gen struct {
	w      *W
	hashes []hash.Hash
	depth  int
	clock  func() time.Time // creator's clock, nil for arbitrary times
	tidy   bool             // only admissible objects
	noted  []time.Time      // readings of the clock
}

func rawHash(s string) hash.Hash { return hash.Hash(sha512.Sum512([]byte(s))) }

func newGen(w *W, tidy bool) *gen {
	g := &gen{w: w, tidy: tidy}
	a, b := rawHash("a"), rawHash("b")
	g.hashes = []hash.Hash{a, b, rawHash("c"), hash.Hash(sha512.Sum512(append(append([]byte{}, a[:]...), b[:]...))), hash.Hash(sha512.Sum512(a[:])), hash.Hash{}}
	digits := hash.Hash{}
	for i := range digits {
		digits[i] = '1'
	}
	g.hashes = append(g.hashes, digits)
	return g
}

func (g *gen) hash() hash.Hash { return g.hashes[g.w.Int(len(g.hashes))] }

func (g *gen) nonce() string {
	if g.w.Chance(150) {
		h := g.hash()
		return pick(g.w.Source, "1", "12", "") + string(h[:])
	}
	if g.w.Chance(60) {
		return strings.Repeat(pick(g.w.Source, "n", "12", "é"), pick(g.w.Source, 40, 130, 300, 1100, 5000))
	}
	return pick(g.w.Source, "n", "1", "2", "12", "23", "3", "123", ",", "1,2", "n1700000000000000000", "-", "é", strings.Repeat("9", 30))
}

// retext changes a text in a way that is easily taken for no change at all
func (g *gen) retext(s string) string {
	w := g.w
	switch w.Int(9) {
	case 0:
		return s + pick(w.Source, " ", "\n", "\t", "\x00", "\u00a0", "\ufeff", "0", ".0", "=")
	case 1:
		return pick(w.Source, " ", "\n", "\x00", "0", "+", "\ufeff") + s
	case 2:
		if u := strings.ToUpper(s); u != s {
			return u
		}
		return s + s
	case 3:
		return strings.ReplaceAll(s, "é", "e\u0301") + pick(w.Source, "", "\u200d")
	case 4:
		// only far behind
		return s + strings.Repeat("x", pick(w.Source, 1, 32, 64, 128, 256, 1024))
	case 5:
		b := []byte(s)
		if len(b) == 0 {
			return "x"
		}
		b[len(b)-1-w.Int(min(len(b), 3))] ^= 1 << w.Int(8)
		return string(b)
	case 6:
		b := []byte(s)
		if len(b) < 2 {
			return s + "y"
		}
		i := w.Int(len(b) - 1)
		b[i], b[i+1] = b[i+1], b[i]
		return string(b)
	case 7:
		return strings.ReplaceAll(s, "1", "\u0661") + pick(w.Source, "", " ")
	}
	if len(s) > 1 {
		return s[:len(s)-1]
	}
	return s + "1"
}

func (g *gen) amount() uint64 {
	return pick(g.w.Source, uint64(1), 2, 12, 23, 123, 1234, 1<<32, 1<<63, 1<<64-1)
}

var baseNs = int64(runEpoch) * 1e9

func (g *gen) at() At {
	w := g.w
	if w.Chance(120) {
		// years 1, 1583, 1677, 1900, 2038, 2262, 2554, 9999 and 10000, where formats and counters end
		s := pick(w.Source, int64(-62135596800), -12212553600, -9223372037, -2208988800, 1<<31, 9223372036, 18446744073, 253402300799, 253402300800)
		return At{s + int64(w.Range(-1, 1)), int64(w.Range(0, 999999999))}
	}
	d := pick(w.Source, int64(0), 1, -1, 1000, 999999999, 1000000000, 1500000000, -1500000000, 3600e9, -3600e9, 86400e9, 1e18, -baseNs, -baseNs-1e9)
	return At{int64(runEpoch), 0}.add(d)
}

func (g *gen) setTime(d *D, k string) {
	if g.clock != nil && g.w.Chance(700) {
		t := g.clock()
		// a time that was noted before may be used much later, after the clock has jumped
		g.noted = append(g.noted, t)
		if g.w.Chance(300) {
			t = pick(g.w.Source, g.noted...)
		}
		if g.w.Chance(300) {
			t = t.Add(time.Duration(g.w.Range(-5, 5)) * time.Second)
		}
		if d.local == nil {
			d.local = map[string]time.Time{}
		}
		d.local[k] = t
		d.Time[k] = At{t.Unix(), int64(t.Nanosecond())}
		return
	}
	d.Time[k] = g.at()
}

// drop is true when a mandatory field should be left out
func (g *gen) drop() bool { return !g.tidy && g.w.Chance(60) }

func (g *gen) listLen(max int) int {
	if g.tidy {
		return 1 + g.w.Int(max)
	}
	return pick(g.w.Source, 1, 2, 0, g.w.Int(max+1))
}

func (g *gen) many(kind, of string) *D {
	d := newD(kind)
	n := g.listLen(3)
	var prev *D
	for i := 0; i < n; i++ {
		if prev != nil && g.w.Chance(300) {
			d.List = append(d.List, prev)
			continue
		}
		prev = g.make(of)
		d.List = append(d.List, prev)
	}
	d.Nil = n == 0 && g.w.Bool()
	return d
}

var ledgerKinds = []string{"ring", "unitContent", "secret", "unit", "block", "chain", "content", "transaction", "genesis", "rings", "units", "gprivate", "gprivates", "origin", "transactions", "secrets", "receipt", "tprivate", "tprivates", "identityTrx", "identity"}

func (g *gen) make(kind string) *D {
	g.depth++
	defer func() { g.depth-- }()
	w := g.w
	d := newD(kind)
	switch kind {
	case "ring":
		n := pick(w.Source, 1, 2, 3, w.Int(6), 0)
		if g.tidy && n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			d.Hashes = append(d.Hashes, g.hash())
		}
		d.Num["min"], d.Num["max"] = 1, 10
		if !g.tidy {
			d.Num["min"] = pick(w.Source, uint64(1), 0, 2, uint64(n), uint64(n+1))
			d.Num["max"] = pick(w.Source, uint64(10), uint64(n), uint64(n+1), uint64(n)/2)
			d.Nil = n == 0 && w.Bool()
		}
	case "rings":
		return g.many(kind, "ring")
	case "unitContent":
		if !g.drop() {
			d.Num["amount"] = g.amount()
			if !g.tidy && w.Chance(60) {
				d.Num["amount"] = 0
			}
		}
		if !g.drop() {
			d.Text["nonce"] = g.nonce()
		}
		if !g.drop() {
			g.setTime(d, "createdOn")
		}
		if !g.drop() {
			g.setTime(d, "activatedOn")
			if g.tidy && d.Time["activatedOn"].before(d.Time["createdOn"]) {
				d.Time["activatedOn"] = d.Time["createdOn"].add(pick(w.Source, int64(0), 1, 1e9))
			}
		}
	case "unit":
		if !g.drop() {
			d.Sub["content"] = g.make("unitContent")
		}
		if !g.drop() {
			d.Sub["owner"] = g.make("ring")
		}
	case "units":
		return g.many(kind, "unit")
	case "genesis":
		if !g.drop() {
			d.Sub["units"] = g.make("units")
		}
		if !g.drop() {
			d.Num["fees"] = pick(w.Source, uint64(0), g.amount())
		}
		if !g.drop() {
			g.setTime(d, "createdOn")
			if g.tidy {
				for _, u := range d.Sub["units"].List {
					if t := u.Sub["content"].Time["createdOn"]; t.before(d.Time["createdOn"]) {
						d.Time["createdOn"] = t
					}
				}
			}
		}
	case "gprivate":
		if !g.drop() {
			d.Sub["unit"] = g.make("unit")
		}
		if !g.drop() {
			d.Key = w.Int(3)
		}
	case "gprivates":
		return g.many(kind, "gprivate")
	case "origin":
		if g.drop() {
			return d
		}
		if g.depth > 5 || w.Bool() {
			d.Sub["genesis"] = g.make("unit")
		} else {
			d.Sub["transaction"] = g.make("transaction")
		}
	case "content":
		if !g.drop() {
			d.Sub["owner"] = g.make("ring")
		}
		if !g.drop() {
			d.Sub["origin"] = g.make("origin")
		}
		if !g.drop() {
			d.Hash["amount"] = g.hash()
		}
		if !g.drop() {
			d.Hash["external"] = g.hash()
		}
		if !g.drop() {
			g.setTime(d, "createdOn")
		}
	case "transaction":
		if !g.drop() {
			d.Sub["content"] = g.make("content")
		}
		if !g.drop() {
			d.Auth = w.Int(3)
		}
	case "transactions":
		return g.many(kind, "transaction")
	case "secret":
		if !g.drop() {
			d.Num["amount"] = g.amount()
		}
		if !g.drop() {
			d.Text["nonce"] = g.nonce()
		}
		if !g.drop() {
			d.Sub["public"] = g.make("transaction")
		}
		if g.depth < 3 && w.Chance(350) {
			d.Sub["origin"] = g.make("secret")
		}
		if g.depth < 3 && w.Chance(350) {
			d.Sub["sides"] = g.make("secrets")
		}
	case "secrets":
		return g.many(kind, "secret")
	case "receipt":
		if !g.drop() {
			d.Sub["secret"] = g.make("secret")
		}
		if !g.drop() {
			d.Sig = w.Int(3)
		}
	case "tprivate":
		if !g.drop() {
			d.Sub["receipt"] = g.make("receipt")
		}
		if !g.drop() {
			d.Key = w.Int(3)
		}
	case "tprivates":
		return g.many(kind, "tprivate")
	case "block":
		if !g.drop() {
			d.Num["height"] = pick(w.Source, uint64(1), 2, 12, 1<<40)
			if !g.tidy && w.Chance(60) {
				d.Num["height"] = 0
			}
		}
		if !g.drop() {
			d.Sub["fees"] = g.make("ring")
		}
		if !g.drop() {
			d.Sub["transactions"] = g.make("transactions")
		}
		if !g.drop() {
			g.setTime(d, "createdOn")
		}
		if w.Bool() {
			d.Hash["previous"] = g.hash()
		}
	case "chain":
		if !g.drop() {
			d.Text["id"] = strings.Repeat(pick(w.Source, "1", "2", "\x00"), 15) + pick(w.Source, "1", "a")
		}
		if !g.drop() {
			d.Hash["root"] = g.hash()
		}
		if !g.drop() {
			g.setTime(d, "createdOn")
		}
		if w.Bool() {
			d.Sub["head"] = g.make("block")
		}
	case "identityTrx":
		if w.Bool() {
			d.Sub["outgoing"] = g.make("tprivates")
		}
		if w.Bool() {
			d.Sub["incoming"] = g.make("secrets")
		}
	case "identity":
		if !g.drop() {
			d.Text["name"] = pick(w.Source, "bob", "alice", "é", "")
			if g.tidy && d.Text["name"] == "" {
				d.Text["name"] = "x"
			}
		}
		if !g.drop() {
			d.Sub["trx"] = g.make("identityTrx")
		}
		if w.Bool() {
			d.Sub["genesis"] = g.make("tprivates")
		}
	}
	return d
}

// mutate changes something small somewhere in the description, in place
func (g *gen) mutate(d *D) {
	w := g.w
	// walk down to a random node
	for {
		keys := sortedKeys(d.Sub)
		n := len(keys) + len(d.List)
		if n == 0 || w.Chance(400) {
			break
		}
		i := w.Int(n)
		if i < len(keys) {
			d = d.Sub[keys[i]]
		} else {
			d = d.List[i-len(keys)]
		}
	}
	d.local = nil
	type op struct {
		name string
		fn   func()
	}
	ops := []op{}
	add := func(name string, fn func()) { ops = append(ops, op{name, fn}) }
	for _, k := range sortedKeys(d.Num) {
		if k != "min" && k != "max" {
			add("num", func() {
				d.Num[k] = pick(w.Source, g.amount(), d.Num[k]+1, d.Num[k]*10+1, d.Num[k]^(1<<w.Int(64)), d.Num[k]^(1<<w.Int(64)))
			})
		}
	}
	if a, ok := d.Num["amount"]; ok && d.Text["nonce"] != "" {
		// move the border between the amount and the nonce
		add("reframe", func() {
			n := d.Text["nonce"]
			if n[0] >= '0' && n[0] <= '9' && len(n) > 1 && a < 1<<32 && w.Bool() {
				d.Num["amount"] = a*10 + uint64(n[0]-'0')
				d.Text["nonce"] = n[1:]
			} else if a >= 10 {
				d.Text["nonce"] = fmt.Sprint(a%10) + n
				d.Num["amount"] = a / 10
			}
		})
	}
	for _, k := range sortedKeys(d.Text) {
		if k == "nonce" || k == "name" {
			add("retext", func() { d.Text[k] = g.retext(d.Text[k]) })
		}
		if k == "nonce" {
			add("text", func() { d.Text[k] = pick(w.Source, g.nonce(), d.Text[k]+"1", d.Text[k]+",") })
		}
		if k == "id" {
			add("id", func() { b := []byte(d.Text[k]); b[w.Int(16)] ^= 1 << w.Int(8); d.Text[k] = string(b) })
		}
	}
	for _, k := range sortedKeys(d.Time) {
		add("time", func() {
			if w.Chance(250) {
				// far enough to wrap what counts nanoseconds or fewer bits
				far := At{pick(w.Source, int64(18446744073), 9223372036, 1<<31, 1<<32, 1<<33, 36525*86400, 36524*86400), 0}
				if far.S == 18446744073 {
					far.N = 709551616
				}
				t := d.Time[k]
				if w.Bool() {
					far.S, far.N = -far.S, -far.N
				}
				t.S += far.S
				d.Time[k] = t.add(far.N)
				return
			}
			d.Time[k] = d.Time[k].add(pick(w.Source, int64(1e9), -1e9, 1, 3600e9, 10e9, 1000, 1e6, 60e9, 86400e9, -86400e9, 365*86400e9, 1<<32*1e9))
		})
	}
	if a, ok := d.Time["activatedOn"]; ok {
		add("swap-times", func() { d.Time["activatedOn"], d.Time["createdOn"] = d.Time["createdOn"], a })
	}
	hk := sortedKeys(d.Hash)
	for _, k := range hk {
		add("hash", func() {
			h := d.Hash[k]
			if w.Bool() {
				h = g.hash()
			} else {
				h[w.Int(64)] ^= 1 << w.Int(8)
			}
			d.Hash[k] = h
		})
	}
	if len(hk) == 2 {
		add("swap-hashes", func() { d.Hash[hk[0]], d.Hash[hk[1]] = d.Hash[hk[1]], d.Hash[hk[0]] })
	}
	if d.Kind == "block" {
		add("previous", func() {
			if _, ok := d.Hash["previous"]; ok {
				delete(d.Hash, "previous")
			} else {
				d.Hash["previous"] = g.hash()
			}
		})
	}
	if d.Kind == "secret" {
		add("origin-or-sides", func() {
			o, s := d.Sub["origin"], d.Sub["sides"]
			switch {
			case o != nil && s == nil:
				l := newD("secrets")
				l.List = []*D{o}
				d.Sub["sides"] = l
				delete(d.Sub, "origin")
			case s != nil && o == nil && len(s.List) == 1:
				d.Sub["origin"] = s.List[0]
				delete(d.Sub, "sides")
			case o != nil:
				if h, ok := g.hashOf(o); ok {
					d.Text["nonce"] += string(h[:])
					delete(d.Sub, "origin")
				}
			case s != nil:
				if h, ok := g.hashOf(s); ok {
					d.Text["nonce"] += string(h[:])
					delete(d.Sub, "sides")
				}
			}
		})
	}
	if len(d.List) > 0 {
		add("list-dup", func() { d.List = append(d.List, d.List[w.Int(len(d.List))].clone()) })
		if len(d.List) > 1 {
			add("list-swap", func() { d.List[0], d.List[len(d.List)-1] = d.List[len(d.List)-1], d.List[0] })
			add("list-drop", func() { d.List = d.List[1:] })
			add("list-drop-last", func() { d.List = d.List[:len(d.List)-1] })
			add("list-merge", func() {
				// one element whose hash is the hash of the concatenation
				if d.Kind == "rings" {
					all := []byte{}
					for _, r := range d.List {
						h, ok := g.hashOf(r)
						if !ok {
							return
						}
						all = append(all, h[:]...)
					}
					r := newD("ring")
					r.Num["min"], r.Num["max"] = 1, 10
					r.Hashes = []hash.Hash{hash.Hash(sha512.Sum512(all))}
					d.List = []*D{r}
				}
			})
		}
	}
	if len(d.Hashes) > 0 {
		add("ring-merge", func() {
			all := []byte{}
			for _, h := range d.Hashes {
				all = append(all, h[:]...)
			}
			d.Hashes = []hash.Hash{hash.Hash(sha512.Sum512(all))}
		})
		add("ring-dup", func() { d.Hashes = append(d.Hashes, d.Hashes[0]) })
		add("ring-swap", func() {
			n := len(d.Hashes) - 1
			d.Hashes[0], d.Hashes[n] = d.Hashes[n], d.Hashes[0]
		})
		add("ring-bit", func() { d.Hashes[w.Int(len(d.Hashes))][w.Int(64)] ^= 1 << w.Int(8) })
		if len(d.Hashes) > 1 {
			add("ring-drop", func() { d.Hashes = d.Hashes[:len(d.Hashes)-1] })
		}
	}
	if d.Auth >= 0 {
		add("auth", func() { d.Auth = w.Int(3) })
	}
	if d.Sig >= 0 {
		add("sig", func() { d.Sig = w.Int(3) })
	}
	if d.Key >= 0 {
		add("key", func() { d.Key = w.Int(3) })
	}
	if len(ops) == 0 {
		return
	}
	// in a stable order, whatever was added
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].name < ops[j].name })
	ops[w.Int(len(ops))].fn()
}

// hashOf builds a part alone, to let an adversary use its hash
func (g *gen) hashOf(d *D) (hash.Hash, bool) {
	c := &ctx{w: g.w, b: newBuilders(), first: true}
	v, err := c.build(d)
	if err != nil {
		return hash.Hash{}, false
	}
	return v.(hashed).Hash(), true
}
