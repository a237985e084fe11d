package tevm

import (
	"bytes"

	"github.com/philhofer/seth/internal/vc"
)

// C15, C16: histories of tree operations against Go maps. Several trees are
// driven at once: copies share storage with their original, so every tree is
// compared with its model after every step.

type vcSnap struct {
	id int
	m  map[string]string
}

type vcTree struct {
	t     *Tree
	m     map[string]string
	snaps []vcSnap
}

func vcCloneMap(m map[string]string) map[string]string {
	o := make(map[string]string, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}

// vcTreeIs: every key of the universe reads as the model says, and iteration
// yields exactly the model's pairs, in strictly monotone order; dir is the
// direction seen so far.
func vcTreeReads(t *Tree, m map[string]string, keys []string) bool {
	for _, k := range keys {
		v := t.Get([]byte(k))
		w, ok := m[k]
		if ok != (v != nil) || string(v) != w {
			return false
		}
	}
	return true
}

func vcTreeIterates(t *Tree, m map[string]string, dir *int) bool {
	ok, n := true, 0
	var prev []byte
	t.Iterate(func(k, v []byte) bool {
		w, in := m[string(k)]
		if !in || w != string(v) {
			ok = false
		}
		if n > 0 {
			c := bytes.Compare(prev, k)
			if c == 0 || *dir != 0 && c != *dir {
				ok = false
			}
			*dir = c
		}
		prev = append([]byte{}, k...)
		n++
		return true
	})
	if !ok || n != len(m) {
		return false
	}
	// stopping early stops
	stop := n / 2
	i := 0
	t.Iterate(func(k, v []byte) bool { i++; return i <= stop })
	return n == 0 || i == stop+1
}

// VG_Tree: keys and an operation list, four bytes an operation
func VG_Tree(r *vc.Rand) ([]string, []byte) {
	n := 1 + r.Intn(12)
	keys := make([]string, n)
	for i := range keys {
		switch r.Intn(3) {
		case 0:
			keys[i] = string(r.Bytes(r.Intn(3)))
		case 1:
			keys[i] = string(r.Bytes(20))
		default:
			keys[i] = string([]byte{byte(r.Intn(4)), byte(r.Intn(4))}[:r.Intn(3)])
		}
	}
	return keys, r.Bytes(4 * r.Intn(60))
}

//vc:property C15 C16
//vc:gen VG_Tree
func VB_Tree(keys []string, ops []byte) {
	trees := []*vcTree{{t: new(Tree), m: map[string]string{}}}
	dir, val := 0, 0
	for len(ops) >= 4 {
		op, a, b, w := ops[0]%16, int(ops[1]), int(ops[2]), int(ops[3])
		ops = ops[4:]
		x := trees[w%len(trees)]
		switch {
		case op < 6: // insert
			k := keys[a%len(keys)]
			v := make([]byte, b%3)
			if len(v) > 0 {
				val++
				v[0] = byte(val)
			}
			x.t.Insert([]byte(k), v)
			x.m[k] = string(v)
		case op < 9: // delete
			k := keys[a%len(keys)]
			_, had := x.m[k]
			got := x.t.Delete([]byte(k))
			vc.Assert("Delete reports presence", func() bool { return got == had })
			delete(x.m, k)
		case op < 12: // snapshot
			id := x.t.Snapshot()
			x.snaps = append(x.snaps, vcSnap{id, vcCloneMap(x.m)})
		case op < 14: // rollback
			if len(x.snaps) == 0 {
				continue
			}
			i := a % len(x.snaps)
			x.t.Rollback(x.snaps[i].id)
			x.m = vcCloneMap(x.snaps[i].m)
			x.snaps = x.snaps[:i+1]
		default: // copy
			if len(x.snaps) == 0 {
				continue
			}
			i := a % len(x.snaps)
			c := x.t.CopyAt(x.snaps[i].id)
			y := &vcTree{t: &c, m: vcCloneMap(x.snaps[i].m)}
			y.snaps = append(y.snaps, x.snaps[:i+1]...)
			if len(trees) < 4 {
				trees = append(trees, y)
			} else {
				trees[b%4] = y
			}
		}
		for _, y := range trees {
			vc.Assert("reads", func() bool { return vcTreeReads(y.t, y.m, keys) })
			vc.Assert("iteration", func() bool { return vcTreeIterates(y.t, y.m, &dir) })
		}
	}
}
