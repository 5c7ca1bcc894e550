// C21: the state tree against a model of persistent ordered maps.
package c21

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"

	"github.com/philhofer/seth/tevm"

	"vharness/vh"
)

type snap struct {
	id   int
	data map[string]string
}

// world is a tree with its model: live entries and the stack of snapshots
// that can still be rolled back to or copied.
type world struct {
	t     *tevm.Tree
	m     map[string]string
	snaps []snap
	name  string
}

func clone(m map[string]string) map[string]string {
	c := make(map[string]string, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}

type run struct {
	c      *vh.Case
	g      *rand.Rand
	worlds []*world
	keys   []string
	trace  []string
	seq    int
	few    bool // values come from a small set: many keys share one
}

func (x *run) log(f string, a ...interface{}) {
	x.trace = append(x.trace, fmt.Sprintf(f, a...))
	if len(x.trace) > 400 {
		x.trace = x.trace[len(x.trace)-400:]
	}
}

func (x *run) fail(key, f string, a ...interface{}) {
	tr := x.trace
	if len(tr) > 60 {
		tr = tr[len(tr)-60:]
	}
	x.c.Fail(key, "%s\nlast operations:\n%s", fmt.Sprintf(f, a...), strings.Join(tr, "\n"))
}

// check compares a tree with the contents it should have.
func (x *run) check(what string, t *tevm.Tree, m map[string]string, all bool) {
	for i, k := range x.keys {
		if !all && i%3 != x.seq%3 {
			continue
		}
		v := t.Get([]byte(k))
		w, ok := m[k]
		if ok != (v != nil) || string(v) != w {
			x.fail("lookup", "%s: Get(%x) = %x (present %v), want %x (present %v)", what, k, v, v != nil, w, ok)
			return
		}
	}
	if !all {
		return
	}
	want := make([]string, 0, len(m))
	for k := range m {
		want = append(want, k)
	}
	sort.Strings(want)
	i := 0
	t.Iterate(func(k, v []byte) bool {
		if i >= len(want) || string(k) != want[i] || string(v) != m[want[i]] {
			w := "nothing"
			if i < len(want) {
				w = fmt.Sprintf("%x=%x", want[i], m[want[i]])
			}
			x.fail("iterate", "%s: entry %d of the iteration is %x=%x, want %s", what, i, k, v, w)
			return false
		}
		i++
		return true
	})
	if x.c.Failed() {
		return
	}
	if i != len(want) {
		x.fail("iterate", "%s: the iteration gave %d entries, want %d", what, i, len(want))
	}
	// an iteration that is told to stop does
	if len(want) > 1 {
		stop, n := 1+x.g.Intn(len(want)), 0
		t.Iterate(func(k, v []byte) bool {
			n++
			return n < stop
		})
		if n != stop {
			x.fail("iterate stop", "%s: told to stop after %d entries, it gave %d", what, stop, n)
		}
	}
}

func (x *run) checkWorld(w *world, deep bool) {
	x.check(w.name, w.t, w.m, true)
	if !deep {
		return
	}
	for _, s := range w.snaps {
		if x.c.Failed() {
			return
		}
		t := w.t.CopyAt(s.id)
		x.check(fmt.Sprintf("%s copied at snapshot %d", w.name, s.id), &t, s.data, true)
	}
}

func (x *run) value() []byte {
	x.seq++
	if x.few && x.g.Intn(8) > 0 {
		return []byte("ab"[x.g.Intn(2):][:1])
	}
	switch x.g.Intn(8) {
	case 0:
		return []byte{} // present, and empty
	case 1:
		return bytes.Repeat([]byte{byte(x.seq)}, x.g.Intn(100))
	default:
		return []byte(fmt.Sprint(x.seq))
	}
}

func mkkeys(g *rand.Rand) []string {
	n := 1 + g.Intn(40)
	seen := map[string]bool{}
	var out []string
	style := g.Intn(4)
	for i := 0; i < n; i++ {
		var k string
		switch style {
		case 0:
			k = string(vh.Bytes(g, 32))
		case 1:
			k = string(vh.Bytes(g, g.Intn(4)))
		case 2: // prefixes of each other
			k = strings.Repeat("\x00", g.Intn(6)) + strings.Repeat("\xff", g.Intn(6))
		default: // ascending: a degenerate tree
			k = fmt.Sprintf("%03d", i)
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	return out
}

func one(c *vh.Case) {
	r := c.Run
	x := &run{c: c, g: c.Rng, keys: mkkeys(c.Rng)}
	x.few = x.g.Intn(3) == 0
	x.worlds = []*world{{t: new(tevm.Tree), m: map[string]string{}, name: "t0"}}
	steps := 20 + x.g.Intn(300)
	bias := x.g.Intn(3)
	kinds := map[string]bool{}
	for i := 0; i < steps && !c.Failed(); i++ {
		w := x.worlds[x.g.Intn(len(x.worlds))]
		k := x.keys[x.g.Intn(len(x.keys))]
		op := x.g.Intn(100)
		if bias == 1 && op >= 45 && op < 60 {
			op = 30 // deletions: trees that become empty
		}
		switch {
		case op < 30:
			v := x.value()
			x.log("%s.Insert(%x, %x)", w.name, k, v)
			w.t.Insert([]byte(k), v)
			w.m[k] = string(v)
			kinds["insert"] = true
		case op < 50:
			if x.g.Intn(10) == 0 && len(w.m) > 0 { // empty it
				x.log("%s: delete everything", w.name)
				live := make([]string, 0, len(w.m))
				for k := range w.m {
					live = append(live, k)
				}
				sort.Strings(live)
				for _, k := range live {
					if !w.t.Delete([]byte(k)) {
						x.fail("delete", "%s: Delete(%x) of a live key = false", w.name, k)
					}
				}
				w.m = map[string]string{}
				kinds["empty"] = true
				break
			}
			_, ok := w.m[k]
			x.log("%s.Delete(%x)", w.name, k)
			if got := w.t.Delete([]byte(k)); got != ok {
				x.fail("delete", "%s: Delete(%x) = %v, want %v", w.name, k, got, ok)
			}
			delete(w.m, k)
			kinds["delete"] = true
		case op < 70:
			id := w.t.Snapshot()
			x.log("%s.Snapshot() = %d", w.name, id)
			w.snaps = append(w.snaps, snap{id, clone(w.m)})
			kinds["snapshot"] = true
		case op < 82:
			if len(w.snaps) == 0 {
				break
			}
			j := x.g.Intn(len(w.snaps))
			if x.g.Intn(2) == 0 {
				j = len(w.snaps) - 1
			}
			s := w.snaps[j]
			x.log("%s.Rollback(%d)", w.name, s.id)
			w.t.Rollback(s.id)
			w.snaps = w.snaps[:j+1]
			w.m = clone(s.data)
			x.check(w.name+" after rollback", w.t, w.m, true)
			kinds["rollback"] = true
		case op < 92:
			if len(w.snaps) == 0 || len(x.worlds) > 6 {
				break
			}
			j := x.g.Intn(len(w.snaps))
			s := w.snaps[j]
			t := w.t.CopyAt(s.id)
			n := &world{t: &t, m: clone(s.data), name: fmt.Sprintf("t%d", len(x.worlds))}
			n.snaps = append(n.snaps, w.snaps[:j+1]...)
			x.log("%s = %s.CopyAt(%d)", n.name, w.name, s.id)
			x.worlds = append(x.worlds, n)
			x.check(n.name+" after copying", n.t, n.m, true)
			kinds["copy"] = true
		case op < 94 && len(x.worlds) <= 6:
			b, err := json.Marshal(w.t)
			t := new(tevm.Tree)
			if err == nil {
				err = json.Unmarshal(b, t)
			}
			if err != nil {
				x.fail("json", "%s: %v", w.name, err)
				break
			}
			n := &world{t: t, m: clone(w.m), name: fmt.Sprintf("t%d", len(x.worlds))}
			n.snaps = append(n.snaps, w.snaps...)
			x.log("%s = JSON copy of %s", n.name, w.name)
			x.worlds = append(x.worlds, n)
			x.checkWorld(n, true)
			kinds["json"] = true
		default:
			x.check(w.name, w.t, w.m, true)
			kinds["read"] = true
		}
		if c.Failed() {
			return
		}
		// every other tree is as it was
		for _, o := range x.worlds {
			x.check(o.name+" afterwards", o.t, o.m, x.g.Intn(20) == 0)
			if c.Failed() {
				return
			}
		}
		r.Eval(1)
	}
	for _, w := range x.worlds {
		if c.Failed() {
			return
		}
		x.checkWorld(w, true)
	}
	var ks []string
	for k := range kinds {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r.Cell(len(x.keys)/4, len(x.worlds), strings.Join(ks, "+"))
	r.Count("trees", len(x.worlds))
}

// long is a long history: as many snapshots and nodes as a chain makes over
// many blocks, with a few of the snapshots, old and new, read now and then.
func long(c *vh.Case) {
	r := c.Run
	x := &run{c: c, g: c.Rng, keys: mkkeys(c.Rng)}
	w := &world{t: new(tevm.Tree), m: map[string]string{}, name: "t"}
	n := 300 << uint(x.g.Intn(9))
	kept := 1 + x.g.Intn(12)
	snaps := 0
	for i := 0; i < n && !c.Failed(); i++ {
		for j := x.g.Intn(3); j >= 0; j-- {
			k := x.keys[x.g.Intn(len(x.keys))]
			if x.g.Intn(4) == 0 {
				_, ok := w.m[k]
				if got := w.t.Delete([]byte(k)); got != ok {
					x.fail("delete", "step %d: Delete(%x) = %v, want %v", i, k, got, ok)
				}
				delete(w.m, k)
			} else {
				v := x.value()
				w.t.Insert([]byte(k), v)
				w.m[k] = string(v)
			}
		}
		id := w.t.Snapshot()
		snaps++
		// the first snapshots stay, and some later ones take each other's place
		s := snap{id, nil}
		switch {
		case len(w.snaps) < kept:
			s.data = clone(w.m)
			w.snaps = append(w.snaps, s)
		case x.g.Intn(20) == 0:
			s.data = clone(w.m)
			w.snaps = append(w.snaps[:kept-1], s)
		}
		if x.g.Intn(n) < 40 {
			x.log("step %d of %d", i, n)
			x.checkWorld(w, true)
			r.Eval(1)
		}
		if x.g.Intn(n) < 4 {
			s := w.snaps[len(w.snaps)-1]
			if x.g.Intn(2) == 0 {
				x.log("step %d: Rollback(%d)", i, s.id)
				w.t.Rollback(s.id)
			} else {
				x.log("step %d: CopyAt(%d)", i, s.id)
				t := w.t.CopyAt(s.id)
				w.t = &t
			}
			w.m = clone(s.data)
			x.checkWorld(w, true)
			r.Eval(1)
		}
	}
	if !c.Failed() {
		x.checkWorld(w, true)
	}
	r.Cell("long", len(x.keys)/4, n)
	r.Count("snapshots of long histories", snaps)
}

func TestProperty(t *testing.T) {
	r := vh.Start("C21", "exploration")
	r.Rule("a case is a history of operations on a tree, its copies and its JSON copies, with every tree compared with its model after every operation; distinct by number of keys, number of trees and kinds of operation")
	r.Assume("a key and a value are not modified by the caller after insertion; nil values are not inserted; after a rollback, only the snapshots up to that one are used")
	defer r.Finish()
	r.Cases("histories", r.Scale(40000, 800000), 0, func(c *vh.Case) {
		c.Guard("panic", func() { one(c) })
	})
	r.Cases("long histories", r.Scale(160, 4000), 0, func(c *vh.Case) {
		c.Guard("panic", func() { long(c) })
	})
}
