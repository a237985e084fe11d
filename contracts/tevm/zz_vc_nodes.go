package tevm

import (
	"bytes"

	"github.com/philhofer/seth/internal/vc"
)

// C15, C16, proved: nodes that are older than the tree's epoch, which are the
// ones that snapshots and copies of the tree refer to, never change, and every
// operation keeps the tree well formed. Trees have fewer than 2^31-1 nodes and
// epochs (assumed).

// vcKept: the nodes that are older than the epoch are as they were
func vcKept(now, was []treenode, epoch int32) bool {
	return len(now) >= len(was) && vc.Forall(0, len(was), func(j int) bool {
		return was[j].Epoch >= epoch || vcSameNode(&now[j], &was[j])
	})
}

func vcSameNode(a, b *treenode) bool {
	return a.Epoch == b.Epoch && a.Left == b.Left && a.Right == b.Right && vcSamePair(a, b)
}

func vcSamePair(a, b *treenode) bool { return vcSlice(a.Key, b.Key) && vcSlice(a.Value, b.Value) }

// vcSlice: the same slice (of memory that nobody writes)
func vcSlice(a, b []byte) bool { return vc.Same(a, b) && (vc.Symbolic() || bytes.Equal(a, b)) }

// vcLinked: every node's children are nodes, and no node is of the future
func vcLinked(t *Tree) bool {
	return vc.Forall(0, len(t.All), func(j int) bool {
		n := &t.All[j]
		return n.Epoch <= t.Epoch && vcIn(n.Left, len(t.All)) && vcIn(n.Right, len(t.All))
	})
}

func vcIn(i int32, n int) bool { return i >= 0 && int(i) <= n }

// vcSnapped: a snapshot's nodes are older than the epoch and refer to one
// another only
func vcSnapped(t *Tree) bool {
	return vc.Forall(0, len(t.Snaps), func(i int) bool {
		s := &t.Snaps[i]
		return vcIn(s.Root, int(s.Allocated)) && int(s.Allocated) <= len(t.All) &&
			vc.Forall(0, int(s.Allocated), func(j int) bool {
				n := &t.All[j]
				return n.Epoch < t.Epoch && vcIn(n.Left, int(s.Allocated)) && vcIn(n.Right, int(s.Allocated))
			}) &&
			vc.Forall(0, i, func(h int) bool { return t.Snaps[h].Allocated <= s.Allocated })
	})
}

func vcTreeOK(t *Tree) bool { return vcLinked(t) && vcSnapped(t) }

func vcSmall(t *Tree) bool { return len(t.All) < 1<<31-1 && t.Epoch < 1<<31-1 }

func vgTree(r *vc.Rand) *Tree {
	t := new(Tree)
	for n := r.Intn(20); n > 0; n-- {
		switch r.Intn(8) {
		case 0:
			t.Snapshot()
		case 1:
			t.Delete([]byte{byte(r.Intn(6))})
		default:
			t.Insert([]byte{byte(r.Intn(6))}, r.Bytes(2))
		}
	}
	return t
}

func VG_Tree1(r *vc.Rand) *Tree { return vgTree(r) }

func VG_newNode(r *vc.Rand) (*Tree, []byte, []byte, int32, int32) {
	t := vgTree(r)
	return t, r.Bytes(1), r.Bytes(2), int32(r.Intn(len(t.All) + 1)), int32(r.Intn(len(t.All) + 1))
}

//vc:for Tree.new
//vc:property C15 C16
//vc:shares
//vc:gen VG_newNode
func VC_newNode(t *Tree, key, value []byte, left, right int32) {
	vc.Requires(vcLinked(t) && vcIn(left, len(t.All)) && vcIn(right, len(t.All)))
	vc.Assume(vcSmall(t))
	vc.Modifies(&t.All, t.All[:cap(t.All)])
	mem, was := t.All, vc.Frozen(t.All).([]treenode)
	n := t.new(key, value, left, right)
	vc.Ensures("every other node is kept", func() bool { return vcKept(t.All, was, 1<<31-1) && vcKept(mem, was, 1<<31-1) })
	vc.Ensures("a node more", func() bool { return len(t.All) == len(was)+1 && int(n) == len(t.All) })
	vc.Ensures("the new node", func() bool {
		a := &t.All[n-1]
		return a.Left == left && a.Right == right && a.Epoch == t.Epoch && bytes.Equal(a.Key, key) && bytes.Equal(a.Value, value)
	})
	vc.Ensures("well formed", func() bool { return vcLinked(t) })
}

func VG_setChild(r *vc.Rand) (*Tree, int32, int32) {
	t := vgTree(r)
	t.Insert([]byte{1}, nil)
	return t, int32(1 + r.Intn(len(t.All))), int32(r.Intn(len(t.All) + 1))
}

//vc:for Tree.setLeft
//vc:property C15 C16
//vc:shares
//vc:gen VG_setChild
func VC_setLeft(t *Tree, cur, left int32) {
	vc.Requires(vcLinked(t) && cur > 0 && vcIn(cur, len(t.All)) && vcIn(left, len(t.All)))
	vc.Assume(vcSmall(t))
	vc.Modifies(&t.All, t.All[:cap(t.All)])
	mem, was := t.All, vc.Frozen(t.All).([]treenode)
	n := t.setLeft(cur, left)
	vc.Ensures("older nodes are kept", func() bool { return vcKept(t.All, was, t.Epoch) && vcKept(mem, was, t.Epoch) })
	vc.Ensures("well formed", func() bool { return vcLinked(t) && n > 0 && vcIn(n, len(t.All)) })
	vc.Ensures("the node with the new child", func() bool {
		a, b := &t.All[n-1], &was[cur-1]
		return a.Left == left && a.Right == b.Right && bytes.Equal(a.Key, b.Key) && bytes.Equal(a.Value, b.Value)
	})
}

//vc:for Tree.setRight
//vc:property C15 C16
//vc:shares
//vc:gen VG_setChild
func VC_setRight(t *Tree, cur, right int32) {
	vc.Requires(vcLinked(t) && cur > 0 && vcIn(cur, len(t.All)) && vcIn(right, len(t.All)))
	vc.Assume(vcSmall(t))
	vc.Modifies(&t.All, t.All[:cap(t.All)])
	mem, was := t.All, vc.Frozen(t.All).([]treenode)
	n := t.setRight(cur, right)
	vc.Ensures("older nodes are kept", func() bool { return vcKept(t.All, was, t.Epoch) && vcKept(mem, was, t.Epoch) })
	vc.Ensures("well formed", func() bool { return vcLinked(t) && n > 0 && vcIn(n, len(t.All)) })
	vc.Ensures("the node with the new child", func() bool {
		a, b := &t.All[n-1], &was[cur-1]
		return a.Right == right && a.Left == b.Left && bytes.Equal(a.Key, b.Key) && bytes.Equal(a.Value, b.Value)
	})
}

func VG_setPair(r *vc.Rand) (*Tree, int32, []byte, []byte) {
	t, cur, _ := VG_setChild(r)
	return t, cur, r.Bytes(1), r.Bytes(2)
}

//vc:for Tree.setPair
//vc:property C15 C16
//vc:shares
//vc:gen VG_setPair
func VC_setPair(t *Tree, cur int32, key, value []byte) {
	vc.Requires(vcLinked(t) && cur > 0 && vcIn(cur, len(t.All)))
	vc.Assume(vcSmall(t))
	vc.Modifies(&t.All, t.All[:cap(t.All)])
	mem, was := t.All, vc.Frozen(t.All).([]treenode)
	n := t.setPair(cur, key, value)
	vc.Ensures("older nodes are kept", func() bool { return vcKept(t.All, was, t.Epoch) && vcKept(mem, was, t.Epoch) })
	vc.Ensures("well formed", func() bool { return vcLinked(t) && n > 0 && vcIn(n, len(t.All)) })
	vc.Ensures("the node with the new pair", func() bool {
		a, b := &t.All[n-1], &was[cur-1]
		return a.Right == b.Right && a.Left == b.Left && bytes.Equal(a.Key, key) && bytes.Equal(a.Value, value)
	})
}

func VG_insertat(r *vc.Rand) (*Tree, int32, []byte, []byte) {
	t := vgTree(r)
	return t, t.Root, []byte{byte(r.Intn(6))}, r.Bytes(2)
}

//vc:for Tree.insertat
//vc:property C15 C16
//vc:shares
//vc:gen VG_insertat
func VC_insertat(t *Tree, i int32, key, value []byte) {
	vc.Requires(vcLinked(t) && vcIn(i, len(t.All)))
	vc.Assume(vcSmall(t))
	vc.Modifies(&t.All, t.All[:cap(t.All)])
	mem, was := t.All, vc.Frozen(t.All).([]treenode)
	n := t.insertat(i, key, value)
	vc.Ensures("older nodes are kept", func() bool { return vcKept(t.All, was, t.Epoch) && vcKept(mem, was, t.Epoch) })
	vc.Ensures("well formed", func() bool { return vcLinked(t) && n > 0 && vcIn(n, len(t.All)) })
}

func VG_deleteat(r *vc.Rand) (*Tree, int32, []byte) {
	t := vgTree(r)
	return t, t.Root, []byte{byte(r.Intn(6))}
}

func VG_leftmost(r *vc.Rand) (*Tree, *treenode) {
	t := vgTree(r)
	t.Insert([]byte{1}, nil)
	return t, t.num(t.Root)
}

//vc:in VC_leftmost
func VI_leftmost(t *Tree, n *treenode) bool { return vc.IndexOf(t.All, n) >= 0 }

//vc:for Tree.leftmost
//vc:property C15 C16
//vc:gen VG_leftmost
func VC_leftmost(t *Tree, from *treenode) {
	vc.Requires(vcLinked(t))
	n := vc.ElementOf(t.All, from).(*treenode)
	vc.ReturnsElement(0, t.All)
	m := t.leftmost(n)
	vc.Ensures("the leftmost node", func() bool { return m.Left == 0 && vc.IndexOf(t.All, m) >= 0 })
}

//vc:for Tree.deleteat
//vc:property C15 C16
//vc:shares
//vc:gen VG_deleteat
func VC_deleteat(t *Tree, i int32, key []byte) {
	vc.Requires(vcLinked(t) && vcIn(i, len(t.All)))
	vc.Assume(vcSmall(t))
	vc.Modifies(&t.All, &t.Touched, t.All[:cap(t.All)])
	mem, was := t.All, vc.Frozen(t.All).([]treenode)
	n := t.deleteat(i, key)
	vc.Ensures("older nodes are kept", func() bool { return vcKept(t.All, was, t.Epoch) && vcKept(mem, was, t.Epoch) })
	vc.Ensures("well formed", func() bool { return vcLinked(t) && vcIn(n, len(t.All)) })
}

// vcRooted: a well formed tree with its root and snapshots
func vcRooted(t *Tree) bool { return vcTreeOK(t) && vcIn(t.Root, len(t.All)) && !t.Touched }

// vcSnapsKept: the first n snapshots are as they were
func vcSnapsKept(now, was []treesnap, n int) bool {
	return len(now) >= n && vc.Forall(0, n, func(i int) bool {
		return now[i].Root == was[i].Root && now[i].Allocated == was[i].Allocated
	})
}

func VG_TreeInsert(r *vc.Rand) (*Tree, []byte, []byte) {
	return vgTree(r), []byte{byte(r.Intn(6))}, r.Bytes(2)
}

//vc:for Tree.Insert
//vc:property C15 C16
//vc:shares
//vc:gen VG_TreeInsert
func VC_TreeInsert(t *Tree, key, value []byte) {
	vc.Requires(vcRooted(t))
	vc.Assume(vcSmall(t))
	vc.Modifies(&t.All, &t.Root, t.All[:cap(t.All)])
	mem, was := t.All, vc.Frozen(t.All).([]treenode)
	t.Insert(key, value)
	vc.Ensures("older nodes are kept", func() bool { return vcKept(t.All, was, t.Epoch) && vcKept(mem, was, t.Epoch) })
	vc.Ensures("well formed", func() bool { return vcRooted(t) && t.Root > 0 })
}

func VG_TreeDelete(r *vc.Rand) (*Tree, []byte) { return vgTree(r), []byte{byte(r.Intn(6))} }

//vc:for Tree.Delete
//vc:property C15 C16
//vc:shares
//vc:gen VG_TreeDelete
func VC_TreeDelete(t *Tree, key []byte) {
	vc.Requires(vcRooted(t))
	vc.Assume(vcSmall(t))
	vc.Modifies(&t.All, &t.Root, &t.Touched, t.All[:cap(t.All)])
	mem, was := t.All, vc.Frozen(t.All).([]treenode)
	t.Delete(key)
	vc.Ensures("older nodes are kept", func() bool { return vcKept(t.All, was, t.Epoch) && vcKept(mem, was, t.Epoch) })
	vc.Ensures("well formed", func() bool { return vcRooted(t) })
}

//vc:for Tree.Snapshot
//vc:property C15 C16
//vc:shares
//vc:gen VG_Tree1
func VC_TreeSnapshot(t *Tree) {
	vc.Requires(vcRooted(t))
	vc.Assume(vcSmall(t) && len(t.Snaps) < 1<<31-1)
	vc.Modifies(&t.Snaps, &t.Epoch, t.Snaps[:cap(t.Snaps)])
	epoch, mem, was := t.Epoch, t.Snaps, vc.Frozen(t.Snaps).([]treesnap)
	id := t.Snapshot()
	vc.Ensures("the empty tree's", func() bool {
		return id >= 0 || id == -1 && t.Root == 0 && len(was) == 0 && len(t.Snaps) == 0 && t.Epoch == epoch
	})
	vc.Ensures("a snapshot more", func() bool {
		return id < 0 || id == len(was) && len(t.Snaps) == id+1 && t.Epoch == epoch+1 &&
			t.Snaps[id].Root == t.Root && int(t.Snaps[id].Allocated) == len(t.All)
	})
	vc.Ensures("the snapshots are kept", func() bool {
		return vcSnapsKept(t.Snaps, was, len(was)) && vcSnapsKept(mem, was, len(was))
	})
	vc.Ensures("well formed", func() bool { return vcRooted(t) })
}

func VG_TreeAt(r *vc.Rand) (*Tree, int) {
	t := vgTree(r)
	t.Insert([]byte{1}, nil)
	t.Snapshot()
	return t, r.Intn(len(t.Snaps)+1) - 1
}

//vc:property C15 C16
//vc:gen VG_TreeAt
func VT_TreeCopyAt(t *Tree, snap int) {
	vc.Requires(vcRooted(t) && snap < len(t.Snaps))
	vc.Assume(vcSmall(t))
	c := t.CopyAt(snap)
	vc.Ensures("empty", func() bool { return snap >= 0 || c.Root == 0 && len(c.All) == 0 && len(c.Snaps) == 0 })
	vc.Ensures("the snapshot's root and nodes", func() bool {
		return snap < 0 || c.Root == t.Snaps[snap].Root && len(c.All) == int(t.Snaps[snap].Allocated) && vcKept(c.All, t.All[:len(c.All)], 1<<31-1)
	})
	vc.Ensures("the snapshots up to this one", func() bool { return snap < 0 || len(c.Snaps) == snap+1 && vcSnapsKept(c.Snaps, t.Snaps, snap+1) })
	vc.Ensures("every node is of an older epoch", func() bool {
		return vc.Forall(0, len(c.All), func(j int) bool { return c.All[j].Epoch < c.Epoch })
	})
	vc.Ensures("nothing can be appended in place", func() bool { return cap(c.All) == len(c.All) && cap(c.Snaps) == len(c.Snaps) })
	vc.Ensures("well formed", func() bool { return vcRooted(&c) })
}

//vc:for Tree.Rollback
//vc:property C15 C16
//vc:shares
//vc:gen VG_TreeAt
func VC_TreeRollback(t *Tree, snap int) {
	vc.Requires(vcRooted(t) && snap < len(t.Snaps))
	vc.Assume(vcSmall(t))
	vc.Modifies(t)
	all, snaps := vc.Frozen(t.All).([]treenode), vc.Frozen(t.Snaps).([]treesnap)
	t.Rollback(snap)
	vc.Ensures("empty", func() bool { return snap >= 0 || t.Root == 0 && len(t.All) == 0 && len(t.Snaps) == 0 })
	vc.Ensures("the snapshot's root and nodes", func() bool {
		return snap < 0 || t.Root == snaps[snap].Root && len(t.All) == int(snaps[snap].Allocated) && vcKept(t.All, all[:len(t.All)], 1<<31-1)
	})
	vc.Ensures("the snapshots up to this one", func() bool { return snap < 0 || len(t.Snaps) == snap+1 && vcSnapsKept(t.Snaps, snaps, snap+1) })
	vc.Ensures("every node is of an older epoch", func() bool {
		return vc.Forall(0, len(t.All), func(j int) bool { return t.All[j].Epoch < t.Epoch })
	})
	vc.Ensures("nothing can be appended in place", func() bool { return cap(t.All) == len(t.All) && cap(t.Snaps) == len(t.Snaps) })
	vc.Ensures("well formed", func() bool { return vcRooted(t) })
}

func VG_TreeStep(r *vc.Rand) (*Tree, int, bool, []byte, []byte) {
	t, _ := VG_TreeAt(r)
	if r.Bool() {
		t.Insert([]byte{byte(r.Intn(6))}, r.Bytes(1))
	}
	return t, r.Intn(len(t.Snaps)), r.Bool(), []byte{byte(r.Intn(6))}, r.Bytes(2)
}

// A change to a copy does not reach the original.
//
//vc:property C15 C16
//vc:gen VG_TreeStep
func VT_CopyLeavesOriginal(t *Tree, snap int, insert bool, key, value []byte) {
	vc.Requires(vcRooted(t) && snap >= 0 && snap < len(t.Snaps))
	vc.Assume(vcSmall(t) && t.Epoch < 1<<31-2)
	all, snaps, root := vc.Frozen(t.All).([]treenode), vc.Frozen(t.Snaps).([]treesnap), t.Root
	c := t.CopyAt(snap)
	if insert {
		c.Insert(key, value)
	} else {
		c.Delete(key)
	}
	vc.Assert("every node and snapshot is as it was", func() bool {
		return t.Root == root && len(t.All) == len(all) && vcKept(t.All, all, 1<<31-1) && len(t.Snaps) == len(snaps) && vcSnapsKept(t.Snaps, snaps, len(snaps))
	})
}

// A change to the original does not reach a copy, and a rollback finds the
// nodes of the snapshot as they were.
//
//vc:property C15 C16
//vc:gen VG_TreeStep
func VT_OriginalLeavesCopy(t *Tree, snap int, insert bool, key, value []byte) {
	vc.Requires(vcRooted(t) && snap >= 0 && snap < len(t.Snaps))
	vc.Assume(vcSmall(t) && t.Epoch < 1<<31-2)
	all, snaps := vc.Frozen(t.All).([]treenode), vc.Frozen(t.Snaps).([]treesnap)
	c := t.CopyAt(snap)
	root := c.Root
	if insert {
		t.Insert(key, value)
	} else {
		t.Delete(key)
	}
	vc.Assert("the copy is as it was", func() bool {
		return c.Root == root && len(c.All) == int(snaps[snap].Allocated) && vcKept(c.All, all[:len(c.All)], 1<<31-1) && vcSnapsKept(c.Snaps, snaps, snap+1)
	})
	vc.Assume(vcSmall(t))
	t.Rollback(snap)
	vc.Assert("the rollback finds the snapshot", func() bool {
		return t.Root == root && len(t.All) == len(c.All) && vcKept(t.All, all[:len(t.All)], 1<<31-1) && vcSnapsKept(t.Snaps, snaps, snap+1)
	})
}
