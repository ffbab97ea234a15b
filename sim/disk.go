package main

import (
	"bytes"
	"errors"
	"sort"

	dbm "github.com/cosmos/cosmos-db"
	"github.com/tidwall/btree"
)

type kv struct{ k, v []byte }

func kvLess(a, b kv) bool { return bytes.Compare(a.k, b.k) < 0 }

// kvStore is an ordered map without locks or goroutines (the MemDB of
// cosmos-db feeds iterators from goroutines). Iterators work on snapshots.
type kvStore struct{ t *btree.BTreeG[kv] }

func newKV() *kvStore {
	return &kvStore{btree.NewBTreeGOptions(kvLess, btree.Options{NoLocks: true})}
}

var errKeyEmpty = errors.New("key cannot be empty")

func (s *kvStore) get(k []byte) []byte {
	x, ok := s.t.Get(kv{k: k})
	if !ok {
		return nil
	}
	return x.v
}

type kvIter struct {
	it         btree.IterG[kv]
	start, end []byte
	rev        bool
	valid      bool
	cur        kv
}

func (s *kvStore) iter(start, end []byte, rev bool) (dbm.Iterator, error) {
	if (start != nil && len(start) == 0) || (end != nil && len(end) == 0) {
		return nil, errKeyEmpty
	}
	it := &kvIter{it: s.t.Copy().Iter(), start: start, end: end, rev: rev}
	var ok bool
	if !rev {
		if start == nil {
			ok = it.it.First()
		} else {
			ok = it.it.Seek(kv{k: start})
		}
	} else {
		if end == nil {
			ok = it.it.Last()
		} else if it.it.Seek(kv{k: end}) {
			ok = it.it.Prev()
		} else {
			ok = it.it.Last()
		}
	}
	it.settle(ok)
	return it, nil
}

func (i *kvIter) settle(ok bool) {
	i.valid = ok
	if !ok {
		return
	}
	i.cur = i.it.Item()
	if !i.rev && i.end != nil && bytes.Compare(i.cur.k, i.end) >= 0 {
		i.valid = false
	}
	if i.rev && i.start != nil && bytes.Compare(i.cur.k, i.start) < 0 {
		i.valid = false
	}
}
func (i *kvIter) Domain() ([]byte, []byte) { return i.start, i.end }
func (i *kvIter) Valid() bool              { return i.valid }
func (i *kvIter) Next() {
	if !i.valid {
		panic("iterator is invalid")
	}
	if i.rev {
		i.settle(i.it.Prev())
	} else {
		i.settle(i.it.Next())
	}
}
func (i *kvIter) Key() []byte   { return cp(i.cur.k) }
func (i *kvIter) Value() []byte { return cp(i.cur.v) }
func (i *kvIter) Error() error  { return nil }
func (i *kvIter) Close() error  { return nil }

// Disk is the simulated disk of one node. It survives the process.
//
// The SDK writes the stores of one commit in the order of a Go map, so "the
// k-th write" is not a repeatable crash point. A session (one Commit, or one
// start of the application) therefore records what each store wrote, and an
// injected crash decides afterwards, from its own seed and in a canonical
// order, which of these writes reached the disk: the writes of every store
// stay in order, stores come one after the other in a seeded order (every such
// order is one the real process can take), and everything from some point on
// is lost. The commit record (which the SDK writes last, synced) is in a group
// of its own, always the last.
type Disk struct {
	mem     *kvStore
	session bool
	log     []diskWrite // writes of the current session, in execution order
	groups  []string    // stores written by the previous session, sorted

	failGroup string // fail the first write of this store ("" = none)
	failKind  string
	fired     bool
	full      bool // every write fails until the process ends
	lost      int  // writes dropped by the last crash
}

type diskWrite struct {
	group string
	ops   []batchOp
	undo  []undoOp
}

type undoOp struct {
	key []byte
	old []byte // nil = absent
}

var (
	errDisk = errors.New("simulated disk: input/output error")
	errFull = errors.New("simulated disk: no space left on device")
)

func NewDisk() *Disk { return &Disk{mem: newKV()} }

// metaGroup is the group of the commit record.
const metaGroup = "~meta"

// group names the store a key belongs to (s/k:NAME/...).
func group(ops []batchOp) string {
	if len(ops) == 0 {
		return metaGroup
	}
	k := ops[0].key
	if bytes.HasPrefix(k, []byte("s/k:")) {
		if i := bytes.IndexByte(k[4:], '/'); i >= 0 {
			return string(k[4 : 4+i])
		}
	}
	return metaGroup
}

func (d *Disk) begin() { d.session, d.log = true, nil }

// end makes the writes of the session durable.
func (d *Disk) end() {
	set := map[string]bool{}
	for _, w := range d.log {
		set[w.group] = true
	}
	if len(set) > 0 {
		d.groups = d.groups[:0]
		for g := range set {
			d.groups = append(d.groups, g)
		}
		sort.Strings(d.groups)
	}
	d.session, d.log = false, nil
	d.failGroup, d.fired, d.full = "", false, false
}

// armFail makes a write of this session fail.
func (d *Disk) armFail(kind string, seed uint64) {
	if len(d.groups) == 0 {
		return
	}
	d.failKind, d.fired = kind, false
	d.failGroup = d.groups[int(seed%uint64(len(d.groups)))]
}

// crash ends the session with the process dead; seed decides what survived.
// In execution order nothing after a failed write was written.
func (d *Disk) crash(seed uint64) {
	for i := len(d.log) - 1; i >= 0; i-- {
		d.rollback(d.log[i])
	}
	byGroup := map[string][]diskWrite{}
	var names []string
	total := 0
	for _, w := range d.log {
		if w.group == metaGroup {
			total++
			continue
		}
		if _, ok := byGroup[w.group]; !ok {
			names = append(names, w.group)
		}
		byGroup[w.group] = append(byGroup[w.group], w)
		total++
	}
	sort.Strings(names)
	r := NewRNG(seed)
	for i := len(names) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		names[i], names[j] = names[j], names[i]
	}
	if d.fired {
		// stores come in map order, so which of the others were written before the failure
		// is open; the failing one was not
		var rest []string
		for _, n := range names {
			if n != d.failGroup {
				rest = append(rest, n)
			}
		}
		names = rest
	}
	kept := 0
	n := len(names)
	if n > 0 {
		cut := r.Intn(n + 1)
		for i := 0; i < cut; i++ {
			for _, w := range byGroup[names[i]] {
				d.redo(w)
				kept++
			}
		}
		if cut < n {
			ws := byGroup[names[cut]]
			for _, w := range ws[:r.Intn(len(ws)+1)] {
				d.redo(w)
				kept++
			}
		}
	}
	d.lost = total - kept
	d.end()
}

func (d *Disk) rollback(w diskWrite) {
	for j := len(w.undo) - 1; j >= 0; j-- {
		if w.undo[j].old == nil {
			d.mem.t.Delete(kv{k: w.undo[j].key})
		} else {
			d.mem.t.Set(kv{w.undo[j].key, w.undo[j].old})
		}
	}
}

func (d *Disk) redo(w diskWrite) {
	for _, o := range w.ops {
		if o.del {
			d.mem.t.Delete(kv{k: o.key})
		} else {
			d.mem.t.Set(kv{o.key, o.val})
		}
	}
}

func (d *Disk) apply(ops []batchOp) error {
	g := group(ops)
	if d.full {
		return errFull
	}
	if d.failGroup != "" && d.failGroup == g && !d.fired {
		d.fired = true
		if d.failKind == "disk-full" {
			d.full = true
			return errFull
		}
		return errDisk
	}
	w := diskWrite{group: g, ops: ops}
	if d.session {
		for _, o := range ops {
			w.undo = append(w.undo, undoOp{o.key, d.mem.get(o.key)})
		}
		d.log = append(d.log, w)
	}
	d.redo(w)
	return nil
}

func cp(b []byte) []byte {
	c := make([]byte, len(b))
	copy(c, b)
	return c // never nil
}

type batchOp struct {
	key, val []byte
	del      bool
}

func (d *Disk) Get(k []byte) ([]byte, error) {
	if len(k) == 0 {
		return nil, errKeyEmpty
	}
	v := d.mem.get(k)
	if v == nil {
		return nil, nil
	}
	return cp(v), nil
}
func (d *Disk) Has(k []byte) (bool, error) {
	if len(k) == 0 {
		return false, errKeyEmpty
	}
	return d.mem.get(k) != nil, nil
}
func (d *Disk) Set(k, v []byte) error {
	if len(k) == 0 || v == nil {
		return errKeyEmpty
	}
	return d.apply([]batchOp{{cp(k), cp(v), false}})
}
func (d *Disk) SetSync(k, v []byte) error {
	if len(k) == 0 || v == nil {
		return errKeyEmpty
	}
	return d.apply([]batchOp{{cp(k), cp(v), false}})
}
func (d *Disk) Delete(k []byte) error     { return d.apply([]batchOp{{cp(k), nil, true}}) }
func (d *Disk) DeleteSync(k []byte) error { return d.apply([]batchOp{{cp(k), nil, true}}) }
func (d *Disk) Iterator(a, b []byte) (dbm.Iterator, error) {
	return d.mem.iter(a, b, false)
}
func (d *Disk) ReverseIterator(a, b []byte) (dbm.Iterator, error) {
	return d.mem.iter(a, b, true)
}
func (d *Disk) Close() error                   { return nil }
func (d *Disk) Print() error                   { return nil }
func (d *Disk) Stats() map[string]string       { return nil }
func (d *Disk) NewBatch() dbm.Batch            { return &diskBatch{d: d} }
func (d *Disk) NewBatchWithSize(int) dbm.Batch { return &diskBatch{d: d} }

type diskBatch struct {
	d    *Disk
	ops  []batchOp
	size int
	done bool
}

func (b *diskBatch) Set(k, v []byte) error {
	b.ops = append(b.ops, batchOp{cp(k), cp(v), false})
	b.size += len(k) + len(v)
	return nil
}
func (b *diskBatch) Delete(k []byte) error {
	b.ops = append(b.ops, batchOp{cp(k), nil, true})
	b.size += len(k)
	return nil
}
func (b *diskBatch) Write() error     { return b.flush(false) }
func (b *diskBatch) WriteSync() error { return b.flush(true) }
func (b *diskBatch) flush(sync bool) error {
	if b.done {
		return errors.New("batch already written")
	}
	b.done = true
	if len(b.ops) == 0 && !sync {
		return nil
	}
	return b.d.apply(b.ops)
}
func (b *diskBatch) Close() error { b.ops = nil; b.done = true; return nil }
func (b *diskBatch) GetByteSize() (int, error) {
	return b.size, nil
}
