//go:build go1.23

package main

import (
	"bytes"
	"crypto/sha512"
	"fmt"
	"math/bits"
	"time"

	"github.com/steve-care-software/steve/domain/hashtree"
)

func init() {
	register(&Property{
		ID: "C07", Run: worldHashTree, Quick: 16000, Thorough: 120000, Batch: 100,
		Rule: "Each run: 1-3 publishers cut a file into 0-40 blocks (duplicates, empty blocks, 64- and 128-byte blocks, blocks that are hashes of other blocks, slices that share memory), build its hash tree, and 1-3 replicas reassemble the blocks they receive over a network that drops, duplicates, reorders, corrupts, truncates and splices them and with a hostile peer that substitutes blocks, while several tasks read the same tree.",
		Real: []string{"domain/hashtree", "domain/hash"}, Stub: []string{"network", "clock", "block store", "task scheduler"},
		Assume: []string{"SHA-512 has no collisions among the blocks used", "the padding of a tree up to a power of two counts as empty blocks at its end"},
	})
}

type chunkPeer struct {
	n    *Node
	got  map[int][]byte // arrival order
	list [][]byte
}

// refTree computes leaves, head, length and height the way the tree is specified
func refTree(blocks [][]byte) (head []byte, leaves [][]byte, height int) {
	n := 2
	for n < len(blocks) {
		n *= 2
	}
	for i := 0; i < n; i++ {
		b := []byte{}
		if i < len(blocks) {
			b = blocks[i]
		}
		h := sha512.Sum512(b)
		leaves = append(leaves, h[:])
	}
	return level(leaves), leaves, bits.Len(uint(n))
}

func genBlocks(w *W) [][]byte {
	n := pick(w.Source, 2, 1, 3, 4, 5, 8, 9, 16, 17, w.Int(12), w.Int(41))
	blocks := [][]byte{}
	if w.Chance(15) {
		// a large file
		n = pick(w.Source, 64, 129, 255, 256, 257, 258, 300, 511, 513, 600)
		w.Count("large_files")
	}
	for i := 0; i < n; i++ {
		var b []byte
		switch w.Int(10) {
		default:
			b = []byte(fmt.Sprintf("b%d-%d", i, w.Int(1000)))
		case 4:
			b = w.Bytes(1 + w.Int(20))
		case 5:
			b = []byte{}
		case 6:
			if i > 0 {
				b = append([]byte{}, blocks[w.Int(i)]...) // duplicate
			} else {
				b = []byte("x")
			}
		case 7:
			b = w.Bytes(64)
		case 8:
			if i > 0 {
				h := sha512.Sum512(blocks[w.Int(i)])
				b = append([]byte{}, h[:]...)
			} else {
				b = w.Bytes(128)
			}
		case 9:
			b = bytes.Repeat([]byte{byte(w.Int(256))}, pick(w.Source, 63, 65, 64, 127, 128, 129, 1, 2, 300, 4096))
		}
		blocks = append(blocks, b)
	}
	return blocks
}

func cloneBlocks(in [][]byte) [][]byte {
	out := make([][]byte, len(in))
	for i := range in {
		out[i] = append([]byte{}, in[i]...)
	}
	return out
}

func sameBlocks(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// treeInvariants checks everything a tree says about itself
func treeInvariants(w *W, tree hashtree.HashTree, ref *refFile, when string) {
	blocks := ref.blocks
	head, leaves, height := ref.head, ref.leaves, ref.height
	w.Check(bytes.Equal(tree.Head().Bytes(), head), "head", "%s: the head of the tree of %d blocks is not the root of its leaf hashes", when, len(blocks))
	w.Check(tree.Length() == len(leaves), "length", "%s: the tree of %d blocks has length %d, expected %d", when, len(blocks), tree.Length(), len(leaves))
	w.Check(tree.Height() == height, "height", "%s: the tree of %d blocks has height %d, expected %d", when, len(blocks), tree.Height(), height)
	c := tree.Compact()
	w.Check(bytes.Equal(c.Head().Bytes(), head), "compact-head", "%s: the compact tree has another head", when)
	w.Check(c.Length() == len(leaves), "compact-length", "%s: the compact tree of %d blocks has length %d, expected %d", when, len(blocks), c.Length(), len(leaves))
	again, err := tree.Parent().HashTree()
	w.Check(err == nil && bytes.Equal(again.Head().Bytes(), head), "parent", "%s: rebuilding from the parent leaf changes the head", when)
	all := compactOf(c.Leaves())
	w.Check(sameBlocks(all, leaves), "compact-leaf", "%s: the compact tree of %d blocks has other leaves", when, len(blocks))
	if w.Chance(300) {
		re, err := c.Leaves().HashTree()
		w.Check(err == nil && bytes.Equal(re.Head().Bytes(), head), "leaves-tree", "%s: rebuilding from the leaves changes the head", when)
	}
	if w.Chance(200) {
		// a caller that goes on with the lists it was given does not change the tree
		ls := tree.Parent().BlockLeaves()
		ls.Merge(tree.Parent().Left().Leaves())
		w.Count("merged_lists")
	}
	if w.Chance(200) {
		// nor one that sorts the leaves it was given
		given := pick(w.Source, tree.Parent().BlockLeaves(), c.Leaves(), tree.Parent().Left().Leaves()).Leaves()
		for a, b := 0, len(given)-1; a < b; a, b = a+1, b-1 {
			given[a], given[b] = given[b], given[a]
		}
		w.Count("sorted_lists")
		w.Check(sameBlocks(compactOf(c.Leaves()), leaves) && sameBlocks(compactOf(tree.Parent().BlockLeaves()), leaves), "caller-leaves", "%s: what a caller does with the leaves it got changes the tree", when)
	}
	// the sides of the tree, in any order
	for k := 1 + w.Int(3); k > 0; k-- {
		cur := tree.Parent()
		lo, hi := 0, len(leaves)
		for {
			mid := (lo + hi) / 2
			l, r := cur.Left(), cur.Right()
			left := w.Chance(500)
			sides := []hashtree.Leaf{l, r}
			if left {
				sides = []hashtree.Leaf{r, l}
			}
			for _, side := range sides {
				a, b := lo, mid
				if side == r && side != l {
					a, b = mid, hi
				}
				w.Check(side.HasParent() == (b-a > 1), "shape", "%s: the tree is not balanced", when)
				h := ref.side(a, b)
				w.Check(bytes.Equal(side.Head().Bytes(), h), "interior", "%s: an interior node over the blocks %d to %d is not their hash", when, a, b)
				if w.Chance(400) {
					w.Check(side.Height() == bits.Len(uint(b-a))-1, "side-height", "%s: the side over the blocks %d to %d has height %d", when, a, b, side.Height())
				}
				if w.Chance(600) {
					w.Check(sameBlocks(compactOf(side.Leaves()), leaves[a:b]), "side-leaves", "%s: the side over the blocks %d to %d has other leaves", when, a, b)
				}
			}
			last := sides[1]
			if left {
				hi = mid
			} else {
				lo = mid
			}
			if !last.HasParent() {
				break
			}
			cur = last.Parent()
			if w.Chance(300) {
				w.Check(sameBlocks(compactOf(cur.BlockLeaves()), leaves[lo:hi]), "side-leaves", "%s: the parent over the blocks %d to %d has other leaves", when, lo, hi)
			}
		}
	}
}

// refFile is the reference of one list of blocks
type refFile struct {
	blocks [][]byte
	head   []byte
	leaves [][]byte
	height int
	sides  map[[2]int][]byte
}

func newRefFile(blocks [][]byte) *refFile {
	r := &refFile{blocks: blocks, sides: map[[2]int][]byte{}}
	r.head, r.leaves, r.height = refTree(blocks)
	return r
}

func (r *refFile) side(a, b int) []byte {
	if b-a == 1 {
		return r.leaves[a]
	}
	h, ok := r.sides[[2]int{a, b}]
	if !ok {
		m := (a + b) / 2
		d := sha512.Sum512(append(append([]byte{}, r.side(a, m)...), r.side(m, b)...))
		h = d[:]
		r.sides[[2]int{a, b}] = h
	}
	return h
}

func compactOf(ls hashtree.Leaves) [][]byte {
	out := [][]byte{}
	for _, l := range ls.Leaves() {
		out = append(out, append([]byte{}, l.Head().Bytes()...))
	}
	return out
}

// level hashes leaves up to one head
func level(list [][]byte) []byte {
	for len(list) > 1 {
		next := [][]byte{}
		for i := 0; i < len(list); i += 2 {
			d := sha512.Sum512(append(append([]byte{}, list[i]...), list[i+1]...))
			next = append(next, d[:])
		}
		list = next
	}
	return list[0]
}

// checkOrder judges one reassembly against the multiset model
func checkOrder(w *W, blocks, delivered, out [][]byte, err error, who string) {
	leaves := cloneBlocks(blocks)
	n := 2
	for n < len(blocks) {
		n *= 2
	}
	for len(leaves) < n {
		leaves = append(leaves, []byte{})
	}
	room := map[string]int{}
	for _, l := range leaves {
		room[string(l)]++
	}
	fits := true
	for _, d := range delivered {
		room[string(d)]--
		if room[string(d)] < 0 {
			fits = false
		}
	}
	if err != nil {
		w.Check(!fits, "order-refused", "%s: %d genuine blocks of a tree of %d were refused: %s", who, len(delivered), len(blocks), err.Error())
		return
	}
	w.Check(fits, "order-accepted-foreign", "%s: a delivery of %d blocks with a block that the tree does not contain (or not that often) was accepted", who, len(delivered))
	w.Check(len(out) == len(delivered), "order-length", "%s: %d blocks delivered, %d returned", who, len(delivered), len(out))
	cnt := map[string]int{}
	for _, d := range delivered {
		cnt[string(d)]++
	}
	for _, o := range out {
		cnt[string(o)]--
		w.Check(cnt[string(o)] >= 0, "order-content", "%s: the result has a block that was not delivered", who)
	}
	at := 0
	for _, l := range leaves {
		if at < len(out) && bytes.Equal(out[at], l) {
			at++
		}
	}
	w.Check(at == len(out), "order-order", "%s: the result is not in the order of the original", who)
	if len(delivered) == len(blocks) {
		// a complete delivery
		full := map[string]int{}
		for _, b := range blocks {
			full[string(b)]++
		}
		complete := true
		for _, d := range delivered {
			full[string(d)]--
			complete = complete && full[string(d)] >= 0
		}
		if complete {
			w.Check(sameBlocks(out, blocks), "order-original", "%s: a complete delivery of %d blocks does not give the original back", who, len(blocks))
			w.Count("complete_reassemblies")
		} else {
			w.Count("partial_reassemblies")
		}
	} else {
		w.Count("partial_reassemblies")
	}
}

func worldHashTree(w *W) {
	w.Schedule()
	if w.Chance(200) {
		w.meanQ = w.Log(30)
	}
	when := w.instants(50)
	w.DrawNet()
	pubs := 1 + w.Int(3)
	type file struct {
		blocks, orig [][]byte
		backing      [][]byte
		backOrig     [][]byte
		tree         hashtree.HashTree
		ref          *refFile
	}
	files := []*file{}
	builder := hashtree.NewBuilder()
	for i := 0; i < pubs; i++ {
		f := &file{}
		f.backing = genBlocks(w)
		lo, hi := 0, len(f.backing)
		if w.Chance(400) && hi > 1 {
			// the file is a window of a larger buffer
			lo = w.Int(hi)
			hi = lo + 1 + w.Int(hi-lo)
			w.Fault("shared_buffer")
		}
		f.blocks = f.backing[lo:hi]
		f.orig = cloneBlocks(f.blocks)
		f.ref = newRefFile(f.orig)
		f.backOrig = cloneBlocks(f.backing)
		files = append(files, f)
		n := w.AddNode(fmt.Sprintf("pub%d", i))
		w.Go(n, "publish", func() {
			tree, err := builder.Create().WithBlocks(f.blocks).Now()
			if len(f.orig) == 0 {
				w.Check(err != nil || tree != nil, "empty", "no answer for an empty file")
				if err != nil {
					w.Count("empty_file_refused")
					return
				}
			}
			w.Check(err == nil, "build", "the tree of %d blocks could not be built", len(f.orig))
			if w.Chance(500) {
				treeInvariants(w, tree, f.ref, "after publishing")
			}
			w.Check(sameBlocks(f.backing, f.backOrig), "caller-data", "building a tree changed the caller's blocks")
			f.tree = tree
			w.Logf("published %d blocks, head %s", len(f.orig), tree.Head().String()[:16])
			w.State("tree", len(f.orig), tree.Length())
		})
	}
	reps := 1 + w.Int(3)
	for i := 0; i < reps; i++ {
		n := w.AddNode(fmt.Sprintf("rep%d", i))
		f := files[w.Int(len(files))]
		n2 := i
		w.After(when(), func() {
			w.Go(n, "fetch", func() {
				w.WaitFor(func() bool { return f.tree != nil || len(f.orig) == 0 })
				if f.tree == nil {
					return
				}
				store := [][]byte{}
				pendingAt := w.now + int64(3*time.Second)
				for _, k := range w.Perm(len(f.orig)) {
					w.Send(nil, n, "block", f.orig[k], func(b []byte) {
						store = append(store, b)
					})
				}
				rounds := 1 + w.Int(3)
				for r := 0; r < rounds; r++ {
					w.SleepFor(time.Duration(pendingAt-w.now) / time.Duration(rounds))
					got := cloneBlocks(store)
					if w.Chance(300) && len(got) > 0 {
						hostile(w, &got, f.orig)
					}
					if w.Chance(300) {
						got = shuffleBlocks(w, cloneBlocks(f.orig))
					}
					keep := cloneBlocks(got)
					out, err := f.tree.Order(got)
					w.Check(sameBlocks(got, keep), "caller-data", "reassembling changed the delivered blocks")
					w.Logf("rep%d round %d: %d of %d blocks, err=%v", n2, r, len(got), len(f.orig), err != nil)
					w.State("order", len(got) == len(f.orig), len(f.orig), err != nil)
					checkOrder(w, f.orig, got, out, err, fmt.Sprintf("rep%d", n2))
					if w.Chance(300) {
						treeInvariants(w, f.tree, f.ref, "after reassembling")
					}
				}
			})
		})
		for k := w.Int(4); k > 0; k-- {
			// readers of the same tree
			w.After(when(), func() {
				w.Go(n, "read", func() {
					w.WaitFor(func() bool { return f.tree != nil || len(f.orig) == 0 })
					if f.tree != nil {
						treeInvariants(w, f.tree, f.ref, "while others read")
					}
				})
			})
		}
		if w.Chance(250) {
			w.After(time.Duration(w.Int(3000))*time.Millisecond, func() { w.Stall(n, time.Duration(w.Int(2000))*time.Millisecond) })
		}
	}
	w.Loop()
	for _, f := range files {
		if f.tree != nil {
			treeInvariants(w, f.tree, f.ref, "at the end")
			w.Check(sameBlocks(f.backing, f.backOrig), "caller-data", "the caller's blocks changed")
		}
	}
	// same length, same head: same blocks
	for i, a := range files {
		for _, b := range files[i+1:] {
			if a.tree != nil && b.tree != nil && len(a.orig) == len(b.orig) {
				same := bytes.Equal(a.tree.Head().Bytes(), b.tree.Head().Bytes())
				w.Check(same == sameBlocks(a.orig, b.orig), "head-binding", "two files of %d blocks: same head %v, same blocks %v", len(a.orig), same, !same)
			}
		}
	}
}

func shuffleBlocks(w *W, in [][]byte) [][]byte {
	out := make([][]byte, len(in))
	for i, k := range w.Perm(len(in)) {
		out[i] = in[k]
	}
	return out
}

// hostile substitutes what a malicious or broken block store would
func hostile(w *W, got *[][]byte, orig [][]byte) {
	w.Fault("hostile_block")
	g := *got
	at := w.Int(len(g))
	switch w.Int(6) {
	case 0: // the leaf hash in place of the block
		h := sha512.Sum512(g[at])
		g[at] = append([]byte{}, h[:]...)
	case 1: // another genuine block in its place
		g[at] = append([]byte{}, orig[w.Int(len(orig))]...)
	case 2:
		g[at] = []byte{}
	case 3:
		g = append(g, []byte{})
	case 4: // an interior node of the tree
		if len(orig) >= 2 {
			a, b := sha512.Sum512(orig[0]), sha512.Sum512(orig[1])
			g[at] = append(append([]byte{}, a[:]...), b[:]...)
		}
	case 5:
		g = append(g, append([]byte{}, g[w.Int(len(g))]...))
	}
	*got = g
}
