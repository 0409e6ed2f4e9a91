// Package zzs checks the storage back ends and token caches, on a virtual
// file system and a stand-in for the bitcask engine.
package zzs

//gosym:vfs

import (
	"path"

	"github.com/netauth/netauth/internal/db"
	_ "github.com/netauth/netauth/internal/db/bitcask"
	_ "github.com/netauth/netauth/internal/db/filesystem"
	_ "github.com/netauth/netauth/internal/db/memory"
	_ "github.com/netauth/netauth/internal/tree/hooks"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zzos"
)

const home = "/home/na"
const base = home + "/kv"

// model is what a store should hold.
type model struct{ k, v []string }

func (m *model) find(k string) int {
	for i := range m.k {
		if m.k[i] == k {
			return i
		}
	}
	return -1
}

func (m *model) put(k, v string) {
	if i := m.find(k); i >= 0 {
		m.v[i] = v
		return
	}
	m.k, m.v = append(m.k, k), append(m.v, v)
}

func (m *model) del(k string) {
	var nk, nv []string
	for i := range m.k {
		if m.k[i] != k {
			nk, nv = append(nk, m.k[i]), append(nv, m.v[i])
		}
	}
	m.k, m.v = nk, nv
}

// world is a store, its model and the events it announced.
type world struct {
	kv   db.KVStore
	path string
	m    *model
	evs  []db.Event
}

func open(kind string) *world {
	env.Start()
	env.SetConf("core.home", home)
	w := &world{m: &model{}}
	w.reopen(kind)
	return w
}

func (w *world) reopen(kind string) {
	w.path = kind
	kv, err := db.NewKV(kind, nil)
	if err != nil {
		panic(err)
	}
	kv.SetEventFunc(func(e db.Event) { w.evs = append(w.evs, e) })
	w.kv = kv
}

// object is a key the server can produce.
func object(label, alphabet string, max int) (string, string, bool) {
	name := nd.Str(label, 1, max, alphabet)
	nd.Assume(name != "." && name != "..")
	if nd.Bool(label + " is entity") {
		return "/entities/" + name, name, true
	}
	return "/groups/" + name, name, false
}

// announced asserts that exactly one event, for this object, was fired.
func (w *world) announced(name string, entity, del bool) {
	want := db.EventGroupUpdate
	switch {
	case entity && del:
		want = db.EventEntityDestroy
	case entity:
		want = db.EventEntityUpdate
	case del:
		want = db.EventGroupDestroy
	}
	nd.Assert(len(w.evs) == 1 && w.evs[0].PK == name && w.evs[0].Type == want, "a change announces exactly the object changed")
	w.evs = nil
}

func (w *world) get(k string) {
	v, err := w.kv.Get(k)
	i := w.m.find(k)
	if i < 0 {
		nd.Assert(err == db.ErrNoValue, "a missing key is reported as absent")
		return
	}
	nd.Assert(err == nil && string(v) == w.m.v[i], "a read returns the value last written")
}

func isEntity(k string) bool { return len(k) > 10 && k[:10] == "/entities/" }

// keys asserts that enumeration returns exactly the matching keys.
func (w *world) keys(filter string) {
	got, err := w.kv.Keys(filter)
	nd.Assert(err == nil, "enumeration succeeds")
	n := 0
	for _, k := range w.m.k {
		if filter == "/*/*" || isEntity(k) == (filter == "/entities/*") {
			n++
			in := false
			for _, g := range got {
				in = nd.Or(in, g == k)
			}
			nd.Assert(in, "enumeration returns every matching key")
		}
	}
	nd.Assert(len(got) == n, "enumeration returns only matching keys, once each")
}

// history runs some operations with symbolic keys.
func (w *world) history(steps int, alphabet string, max int) {
	vals := []string{"v0", "", "v2", "v3", "v4"}
	for i := 0; i < steps; i++ {
		k, name, ent := object("key", alphabet, max)
		if nd.Bool("put") {
			nd.Assert(w.kv.Put(k, []byte(vals[i])) == nil, "a write succeeds")
			w.m.put(k, vals[i])
			w.announced(name, ent, false)
			continue
		}
		was := w.m.find(k) >= 0
		err := w.kv.Del(k)
		if was {
			nd.Assert(err == nil, "deleting a present key succeeds")
			w.announced(name, ent, true)
		} else {
			nd.Assert(err == nil || err == db.ErrNoValue, "deleting a missing key reports nothing else")
			if len(w.evs) > 0 {
				w.announced(name, ent, true)
			}
		}
		w.m.del(k)
	}
	w.evs = nil
}

// judge compares the store with the model.
func (w *world) judge(alphabet string, max int) {
	probe, _, _ := object("probe", alphabet, max)
	w.get(probe)
	switch nd.Pick("filter", 3) {
	case 0:
		w.keys("/entities/*")
	case 1:
		w.keys("/groups/*")
	case 2:
		w.keys("/*/*")
	}
	nd.Assert(len(w.evs) == 0, "reads announce nothing")
}

func depth(quick, thorough int) int {
	if nd.Thorough() {
		return thorough
	}
	return quick
}

//gosym:bounds histories of 2 (thorough 3) writes and deletions of entities and groups with symbolic names of 1..2 characters of [ab.*], then a read of any such key and an enumeration by any pattern the server uses
func VP_E04_history() {
	w := open("memory")
	w.m.put("/entities/a", "old")
	w.kv.Put("/entities/a", []byte("old"))
	w.evs = nil
	w.history(depth(2, 3), "ab.*", 2)
	nd.Reach("history")
	w.judge("ab.*", 2)
}

//gosym:bounds keys outside the two object namespaces, however similar: symbolic suffixes of up to 2 characters
func VP_E04_foreign() {
	w := open("memory")
	k := nd.Choose("prefix", "/entities", "/groups", "/other/") + nd.Str("suffix", 1, 2, "ab")
	nd.Assert(w.kv.Put(k, []byte("x")) == nil, "a write succeeds")
	v, err := w.kv.Get(k)
	nd.Assert(err == nil && string(v) == "x", "a read returns the value last written")
	nd.Assert(w.kv.Del(k) == nil, "deleting a present key succeeds")
	nd.Reach("foreign")
	nd.Assert(len(w.evs) == 0, "keys that are no objects announce nothing")
}

func fsWorld() *world {
	zzos.Reset()
	zzos.Put(base+"/.mutable", nil, 0644)
	return open("filesystem")
}

//gosym:bounds histories of 2 (thorough 3) writes and deletions of entities and groups with symbolic names of 1 character of [b.*] (thorough 1..2 of [ab.*]) on a virtual file system, then a read of any such key of 1..2 characters, enumeration by any pattern the server uses, all possibly after a restart
func VP_E05_history() {
	w := fsWorld()
	w.m.put("/entities/b", "old")
	zzos.Put(base+"/entities/b", []byte("old"), 0640)
	abc := "b*."
	if nd.Thorough() {
		abc = "ab.*"
	}
	w.history(depth(2, 3), abc, depth(1, 2))
	nd.Reach("history")
	if nd.Bool("restart") {
		w.reopen("filesystem")
	}
	w.judge(abc, 2)
	nd.Assert(len(w.kv.Capabilities()) == 1, "a directory with the marker file is mutable")
}

//gosym:bounds any key of up to 6 (thorough 9) bytes of [/.a] alone or after a namespace prefix, in a write, read, deletion or enumeration: every path touched lies in the data directory
func VP_E05_contained() {
	w := fsWorld()
	zzos.Put(home+"/a", []byte("outside"), 0600)
	zzos.Put("/a", []byte("outside"), 0600)
	zzos.Put(base+"/entities/a", []byte("in"), 0640)
	n := depth(6, 9)
	k := nd.Choose("prefix", "", "/entities/", "/groups/")
	k += nd.Str("key", 0, n, "/.a")
	zzos.Touched = nil
	switch nd.Pick("op", 4) {
	case 0:
		w.kv.Put(k, []byte("x"))
	case 1:
		v, err := w.kv.Get(k)
		nd.Assert(err != nil || string(v) != "outside", "no key reads a file outside the data directory")
	case 2:
		w.kv.Del(k)
	case 3:
		w.kv.Keys(k)
	}
	nd.Reach("touched")
	if v, ok := zzos.Raw(base + "/entities/a"); !ok || string(v) != "in" {
		nd.Assert(path.Clean("/"+k) == "/entities/a", "no other key changes an object")
	}
	for _, t := range zzos.Touched {
		nd.Note("touched", t.Path)
		if t.Op == "mkdir" && (t.Path == home || t.Path == "/home" || t.Path == "/") {
			continue // making sure that the directory itself exists
		}
		nd.Assert(t.Path == base || (len(t.Path) > len(base) && t.Path[:len(base)+1] == base+"/"), "no key reaches a path outside the data directory")
	}
}

//gosym:bounds a write or deletion of an existing (with the permissions the store gives, or other ones) or new object under existing or new namespace, the process dying at any of the first 12 changes of the file system with any prefix of an interrupted write of 3 bytes, possibly after an earlier change failed, or one change failing alone; the temporary directory on the same or another mount; then a restart
func VP_E06_crash() {
	w := fsWorld()
	zzos.TmpMount = nd.Bool("tmp is another mount")
	zzos.Put(base+"/entities/a", []byte("AAA"), []zzos.FileMode{0640, 0600, 0666}[nd.Pick("permissions", 3)])
	if nd.Bool("groups exist") {
		zzos.Put(base+"/groups/a", []byte("GGG"), 0640)
		w.m.put("/groups/a", "GGG")
	}
	w.m.put("/entities/a", "AAA")
	k := nd.Choose("key", "/entities/a", "/entities/b", "/groups/a", "/groups/b")
	crash := nd.Bool("dies")
	at, keep := nd.IntRange("at", 0, 12), nd.IntRange("written", 0, 3)
	if crash && nd.Bool("after a fault") {
		fault := nd.IntRange("fault", 0, 11)
		nd.Assume(fault < at)
		zzos.FailThenCrashAt(fault, at, keep)
	} else if crash {
		zzos.CrashAt(at, keep)
	} else {
		zzos.FailAt(at, keep)
	}
	var err error
	del := nd.Bool("del")
	if del {
		err = w.kv.Del(k)
	} else {
		err = w.kv.Put(k, []byte("new"))
	}
	if crash {
		nd.Assume(zzos.Dead())
		nd.Reach("died")
	}
	nd.NoteBool("err", err != nil)
	evs := len(w.evs)
	zzos.Restart()
	w.reopen("filesystem")
	w.evs = nil
	i := w.m.find(k)
	v, gerr := w.kv.Get(k)
	now := gerr == nil
	nd.Assert(gerr == nil || gerr == db.ErrNoValue, "after a restart the object can be read or is absent")
	old := now == (i >= 0) && (!now || string(v) == w.m.v[i])
	done := now == !del && (!now || string(v) == "new")
	nd.Assert(old || done, "after a crash an object is complete in its old or its new version")
	if !crash {
		if err == nil {
			nd.Reach("acknowledged")
			nd.Assert(done, "an acknowledged change is stored")
		} else {
			nd.Assert(evs == 0, "a failed change is not announced")
		}
	}
	if done && !now {
		w.m.del(k)
	} else if done {
		w.m.put(k, "new")
	}
	w.judge("ab", 1)
	// and the store still works
	nd.Assert(w.kv.Put(k, []byte("next")) == nil, "after a crash the object can be written again")
	w.m.put(k, "next")
	w.get(k)
	w.keys("/*/*")
}

//gosym:bounds two objects of names a and b beside keys that lie deeper, higher or beside the two namespaces (each present or not): enumeration by any pattern the server uses, reads of each key, deletion of one
func VP_E04_deeper() {
	w := open("memory")
	others := []string{"/entities/a/b", "/entities/", "/entities", "/groups/a/", "/entitiesx/a", "/x/entities/a", "entities/a", "/other/a/b/c"}
	var keys []string
	for _, k := range []string{"/entities/a", "/groups/b"} {
		w.m.put(k, "o")
		w.kv.Put(k, []byte("o"))
	}
	for _, i := range []int{nd.Pick("one", len(others)), nd.Pick("two", len(others))} {
		keys = append(keys, others[i])
		nd.Assert(w.kv.Put(others[i], []byte(others[i])) == nil, "a write succeeds")
	}
	nd.Reach("deeper")
	if nd.Bool("delete") {
		nd.Assert(w.kv.Del(keys[0]) == nil, "deleting a present key succeeds")
		if keys[1] == keys[0] {
			keys = nil
		} else {
			keys = keys[1:]
		}
	}
	for _, k := range keys {
		v, err := w.kv.Get(k)
		nd.Assert(err == nil && string(v) == k, "a read returns the value last written")
	}
	w.get("/entities/a")
	w.get("/groups/b")
	for _, f := range []string{"/entities/*", "/groups/*"} {
		got, err := w.kv.Keys(f)
		nd.Assert(err == nil, "enumeration succeeds")
		n := 1
		for _, k := range keys {
			if k == "/entities/" && f == "/entities/*" && (len(keys) == 1 || keys[1] != k || keys[0] != k) {
				n++
			}
		}
		if len(keys) == 2 && keys[0] == "/entities/" && keys[1] == "/entities/" && f == "/entities/*" {
			n++
		}
		nd.Assert(len(got) == n, "enumeration returns only matching keys, once each")
	}
}
