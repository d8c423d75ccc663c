//go:build go1.23

package main

import (
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/steve-care-software/steve/domain/peers"
)

func init() {
	register(&Property{
		ID: "C16", Run: worldPeers, Quick: 60000, Thorough: 1500000, Batch: 500,
		Rule: "Each run: 2-4 nodes that agree on a delimiter gossip peer addresses as strings, over several hops, through a network that loses, duplicates, delays, corrupts, truncates and splices them; tasks of a node share its builders; nodes keep what they learned on disk and crash and restart.",
		Real: []string{"domain/peers"}, Stub: []string{"network", "disk", "gossip protocol (send what was learned)", "task scheduler"},
		Assume: []string{"all nodes use the same delimiter"},
	})
}

type addr struct {
	host string
	port uint
}

func worldPeers(w *W) {
	w.Schedule()
	w.DrawNet()
	delim := pick(w.Source, ":", "|", "::", ",", " ", "/", "-", "é", "1")
	type node struct {
		n     *Node
		pb    peers.PeerBuilder
		lb    peers.Builder
		known map[string]addr
	}
	nodes := []*node{}
	boot := func(x *node) {
		x.pb, x.lb = peers.NewPeerBuilder(delim), peers.NewBuilder()
	}
	for i := 0; i < 2+w.Int(3); i++ {
		x := &node{n: w.AddNode(fmt.Sprintf("node%d", i)), known: map[string]addr{}}
		boot(x)
		nodes = append(nodes, x)
	}
	simple := func(host string, port uint) bool {
		return host != "" && port <= 65535 && !strings.Contains(fmt.Sprint(port), delim) && host+delim+fmt.Sprint(port) != "" &&
			strings.Count(host+delim+fmt.Sprint(port), delim) == 1 && strings.Index(host+delim, delim) == len(host)
	}
	var learn func(x *node, text string, origin *addr, hops int)
	spread := func(x *node, p peers.Peer, hops int) {
		if hops <= 0 {
			return
		}
		a := addr{p.Host(), p.Port()}
		for k := 1 + w.Int(2); k > 0; k-- {
			to := nodes[w.Int(len(nodes))]
			sent := p.String()
			w.Send(x.n, to.n, "peer", []byte(sent), func(got []byte) {
				if string(got) == sent {
					learn(to, sent, &a, hops-1)
				} else {
					learn(to, string(got), nil, hops-1)
				}
			})
		}
	}
	learn = func(x *node, text string, origin *addr, hops int) {
		p, err := x.pb.Create().WithString(text).Now()
		if origin != nil {
			w.Check(err == nil, "lost-peer", "%s cannot read the address %q of a peer (delimiter %q): %v", x.n.Name, text, delim, err)
			w.Check(p.Host() == origin.host && p.Port() == origin.port, "other-peer", "%s reads %q as host %q, port %d", x.n.Name, text, p.Host(), p.Port())
			w.Count("hops")
		}
		if err != nil {
			w.Count("refused")
			return
		}
		// whatever was read is what is written
		i := strings.Index(text, delim)
		if i < 0 {
			w.Fail("garbage", "%s reads %q, which has no delimiter, as a peer", x.n.Name, text)
		}
		w.Check(p.Host() != "", "garbage", "%s reads %q as a peer without a host", x.n.Name, text)
		w.Check(p.Host() == text[:i], "other-host", "%s reads %q as host %q", x.n.Name, text, p.Host())
		num, ok := new(big.Int).SetString(text[i+len(delim):], 10)
		w.Check(ok, "garbage", "%s reads %q as a peer with port %d", x.n.Name, text, p.Port())
		w.Check(num.IsUint64() && num.Uint64() == uint64(p.Port()), "other-port", "%s reads %q as port %d", x.n.Name, text, p.Port())
		back, err := x.pb.Create().WithString(p.String()).Now()
		w.Check(err == nil && back.Host() == p.Host() && back.Port() == p.Port(), "unstable", "%s: the address %q, read from %q, is not read back: %v", x.n.Name, p.String(), text, err)
		x.known[p.String()] = addr{p.Host(), p.Port()}
		x.n.Disk["peers"] = append(x.n.Disk["peers"], []byte(p.String()+"\n")...)
		l := []peers.Peer{p, back}
		list, err := x.lb.Create().WithList(l).Now()
		w.Check(err == nil && len(list.List()) == 2 && list.List()[0] == p && list.List()[1] == back, "list", "%s: a list of peers is not what it was given", x.n.Name)
		w.State(delim, len(x.known), hops, origin != nil)
		spread(x, p, hops)
	}
	for i := 0; i < 2+w.Int(8); i++ {
		x := nodes[w.Int(len(nodes))]
		host := pick(w.Source, "127.0.0.1", "a", "example.com", "h-st", "::1", "fe80::1", "é", "a b", "x/y", "10.0.0.1:80", "", "host1", string(w.Bytes(1+w.Int(4))), "a"+delim, delim+"a", "a"+delim[:1])
		port := pick(w.Source, uint(80), 0, 1, 443, 65535, 65536, 8011, uint(w.Int(65536)), 1<<31, 1<<32+1, 1<<63-1, 1<<63, 1<<64-1)
		at := time.Duration(w.Int(500)) * time.Millisecond
		hops := w.Int(4)
		w.After(at, func() {
			if !x.n.Up {
				return
			}
			w.Go(x.n, "announce", func() {
				b := x.pb.Create()
				var p peers.Peer
				var err error
				if w.Bool() {
					p, err = b.WithHost(host).WithPort(port).Now()
				} else {
					p, err = b.WithPort(port).WithHost(host).Now()
				}
				if err != nil {
					w.Check(!simple(host, port), "refused", "%s refuses the host %q and port %d (delimiter %q): %v", x.n.Name, host, port, delim, err)
					return
				}
				w.Check(host != "", "no-host", "%s builds a peer without a host", x.n.Name)
				w.Check(p.Host() == host && p.Port() == port, "other-peer", "%s builds host %q, port %d from host %q, port %d", x.n.Name, p.Host(), p.Port(), host, port)
				learn(x, p.String(), &addr{host, port}, 0)
				spread(x, p, hops)
			})
		})
		if w.Chance(150) {
			w.After(at+time.Duration(w.Int(100))*time.Millisecond, func() {
				w.Crash(x.n)
				w.After(time.Duration(w.Int(100))*time.Millisecond, func() {
					w.Restart(x.n)
					boot(x)
					disk := string(x.n.Disk["peers"])
					if w.Chance(300) && len(disk) > 0 {
						w.Fault("torn_file")
						disk = disk[:w.Int(len(disk))]
					}
					old := x.known
					x.known = map[string]addr{}
					lines := strings.Split(disk, "\n")
					for j, l := range lines {
						if l == "" {
							continue
						}
						a, whole := old[l]
						w.Go(x.n, "reload", func() {
							if whole && j < len(lines)-1 {
								learn(x, l, &a, 0)
								return
							}
							learn(x, l, nil, 0)
						})
					}
				})
			})
		}
		if w.Chance(60) {
			w.After(at, func() { w.Partition(time.Duration(w.Int(300)) * time.Millisecond) })
		}
	}
	w.nontri = true
	w.Loop()
	_, err := peers.NewBuilder().Create().WithList([]peers.Peer{}).Now()
	w.Check(err != nil, "list", "an empty list of peers is built")
	_, err = peers.NewPeerBuilder(delim).Create().WithHost("a").Now()
	w.Check(err != nil, "no-port", "a peer is built without a port")
}
