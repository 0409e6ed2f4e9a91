package zzs

import (
	"strings"

	"github.com/netauth/netauth/internal/db"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zzos"

	"github.com/netauth/netauth/internal/zzbc"
)

//gosym:vfs

// awkward are names a server accepts that a back end could mistreat.
var awkward = []string{
	"a", "A", ".a", "a.", "..a", "...", "a~", "a.tmp", ".a.tmp", "a.b", "-a", " a", "a ", "a b", "a\\b", "[a]", "a[", "?", "*", "#a", "%61", "a:b",
	"entities", "groups", "kv", ".mutable", "é", "\x01", "a\nb", "\xff", strings.Repeat("n", 60), strings.Repeat("n", 200),
}

func (w *world) change(k, name string, ent bool, v string, put bool) {
	if put {
		nd.Assert(w.kv.Put(k, []byte(v)) == nil, "a write succeeds")
		w.m.put(k, v)
		w.announced(name, ent, false)
		return
	}
	nd.Assert(w.kv.Del(k) == nil, "deleting a present key succeeds")
	w.m.del(k)
	w.announced(name, ent, true)
}

func awk(label string) (string, string, bool) {
	name := nd.Choose(label, awkward...)
	if nd.Bool(label + " is entity") {
		return "/entities/" + name, name, true
	}
	return "/groups/" + name, name, false
}

func (w *world) names(reopen func()) {
	k1, n1, e1 := awk("first")
	w.change(k1, n1, e1, "one", true)
	v1, err := w.kv.Get(k1)
	nd.Assert(err == nil && string(v1) == "one", "a read returns the value last written")
	k2, n2, e2 := awk("second")
	w.change(k2, n2, e2, "two", true)
	nd.Assert(string(v1) == "one", "a value once read does not change")
	last := nd.Pick("last", 3)
	switch last {
	case 0:
		w.change(k1, n1, e1, "", false)
	case 1:
		w.change(k1, n1, e1, "six", true)
		nd.Assert(string(v1) == "one", "a value once read does not change")
	}
	if reopen != nil && nd.Bool("restart") {
		reopen()
	}
	nd.Reach("names")
	w.get(k1)
	w.get(k2)
	w.keys("/*/*")
	w.keys("/entities/*")
	w.keys("/groups/*")
}

//gosym:bounds two objects with any of 32 awkward names (hidden, with wildcards, case variants, temporary-file suffixes, control and non-UTF-8 bytes, 200 bytes long), entity or group, the first then rewritten with a value of the same length or deleted
func VP_E04_names() {
	w := open("memory")
	w.names(nil)
}

//gosym:bounds two objects with any of 32 awkward names (hidden, with wildcards, case variants, temporary-file suffixes, control and non-UTF-8 bytes, 200 bytes long), entity or group, the first then rewritten with a value of the same length or deleted, possibly after a restart
func VP_E05_names() {
	w := fsWorld()
	w.names(func() { w.reopen("filesystem") })
}

//gosym:bounds two objects with any of 32 awkward names (hidden, with wildcards, case variants, temporary-file suffixes, control and non-UTF-8 bytes, 200 bytes long), entity or group, the first then rewritten with a value of the same length or deleted, possibly after a restart
func VP_E07_names() {
	zzbc.Reset()
	w := open("bitcask")
	w.names(func() {
		zzbc.Restart(false)
		w.reopen("bitcask")
	})
}

//gosym:bounds up to 3 writes or deletions of two objects, then the process is killed or the machine loses power; deletions may be undone by a power failure
func VP_E07_durable() {
	zzbc.Reset()
	w := open("bitcask")
	n := nd.Pick("steps", 4)
	del := false
	for i := 0; i < n; i++ {
		k := nd.Choose("key", "/entities/a", "/groups/a")
		if del = nd.Bool("del"); del {
			nd.Assert(w.kv.Del(k) == nil, "deleting succeeds")
			w.m.del(k)
		} else {
			v := nd.Choose("value", "v", "w")
			nd.Assert(w.kv.Put(k, []byte(v)) == nil, "a write succeeds")
			w.m.put(k, v)
		}
	}
	power := nd.Bool("power")
	if nd.Bool("orderly") {
		nd.Assert(w.kv.Close() == nil, "closing succeeds")
		del = false
	}
	zzbc.Restart(power)
	w.reopen("bitcask")
	w.evs = nil
	for _, k := range []string{"/entities/a", "/groups/a"} {
		if w.m.find(k) < 0 && power && del {
			nd.Reach("deletion undone")
			continue
		}
		nd.Reach("kept")
		w.get(k)
	}
}

//gosym:bounds a write, deletion, read or enumeration of an existing or new object when the storage directory or the object refuses it for want of permission, or with any other fault of the first 8 accesses that change the file system
func VP_E05_refused() {
	w := fsWorld()
	zzos.Put(base+"/entities/a", []byte("AAA"), 0640)
	w.m.put("/entities/a", "AAA")
	k := nd.Choose("key", "/entities/a", "/entities/b", "/groups/a")
	zzos.Denied = nd.Bool("denied")
	zzos.FailAt(nd.Pick("at", 8), 0)
	del := nd.Bool("del")
	var err error
	if del {
		err = w.kv.Del(k)
	} else {
		err = w.kv.Put(k, []byte("new"))
	}
	zzos.Restart()
	if err != nil {
		nd.Assert(len(w.evs) == 0, "a failed change announces nothing")
		nd.Reach("refused")
	} else {
		nd.Reach("done")
		if del {
			w.m.del(k)
		} else {
			w.m.put(k, "new")
		}
	}
	w.evs = nil
	nd.Assert(!del || w.m.find(k) >= 0 || err == nil || err == db.ErrNoValue, "deleting a missing key reports nothing else")
	w.get("/entities/a")
	w.get(k)
	w.keys("/*/*")
}

//gosym:bounds an existing object, its file unreadable, damaged or a directory, read, enumerated and then restored; deletion and writing of a name that is a directory holding objects
func VP_E05_unreadable() {
	w := fsWorld()
	k := nd.Choose("key", "/entities/a", "/groups/a")
	zzos.Put(base+k, []byte("AAA"), 0640)
	w.m.put(k, "AAA")
	for _, z := range []string{"/groups/z", "/entities/z"} {
		zzos.Put(base+z, []byte("ZZZ"), 0640)
		w.m.put(z, "ZZZ")
	}
	if nd.Bool("directory") {
		d := nd.Choose("name", "/entities", "/groups", "/entities/", "/groups/.", "entities", "/")
		if nd.Bool("del") {
			nd.Assert(w.kv.Del(d) != nil, "a directory holding objects is not deleted")
		} else {
			nd.Assert(w.kv.Put(d, []byte("x")) != nil, "a directory holding objects is not overwritten")
		}
		nd.Reach("directory")
		w.evs = nil
	} else {
		zzos.Unreadable = base + k
		v, err := w.kv.Get(k)
		nd.Assert(err != nil && err != db.ErrNoValue && v == nil, "an object that cannot be read is not reported as absent")
		w.keys("/*/*")
		zzos.Unreadable = ""
		nd.Reach("unreadable")
	}
	w.get(k)
	w.get("/groups/z")
	w.get("/entities/z")
	w.keys("/*/*")
}

//gosym:bounds a data directory with or without the marker file, objects in it or none, before and after a write, the marker then removed or put there
func VP_E05_marker() {
	zzos.Reset()
	marked := nd.Bool("marked")
	if marked {
		zzos.Put(base+"/.mutable", nil, 0644)
	}
	if nd.Bool("objects") {
		zzos.Put(base+"/entities/a", []byte("AAA"), 0640)
	}
	w := open("filesystem")
	n := 0
	if marked {
		n = 1
	}
	nd.Reach("marker")
	nd.Assert(len(w.kv.Capabilities()) == n, "a data directory is mutable exactly with the marker file")
	if marked || zzos.IsDir(base) {
		w.kv.Put("/entities/b", []byte("x"))
		nd.Assert(len(w.kv.Capabilities()) == n, "a data directory is mutable exactly with the marker file")
	}
	if !marked {
		zzos.Put(base+"/.mutable", nil, 0644)
		nd.Assert(len(w.kv.Capabilities()) == 1, "a data directory is mutable exactly with the marker file")
	}
}

var big = strings.Repeat("0123456789abcdef", 400)

// plain are values a back end could take for something else.
var plain = []string{"", "\n", "v\n", "v\r\n\n", " v ", "\x00", "v\x00", "\x00v", "\xff\xfe", "\xef\xbb\xbfv", "null", "#v", "\x1f\x8b\b\x00", big[:257], big[1:1001], big[:5000], big + "\n"}

func (w *world) values(reopen func()) {
	k := nd.Choose("key", "/entities/a", "/groups/a")
	old := nd.Bool("old")
	if old {
		nd.Assert(w.kv.Put(k, []byte(big[:1000])) == nil, "a write succeeds")
	}
	v := plain[nd.Pick("value", len(plain))]
	nd.Assert(w.kv.Put(k, []byte(v)) == nil, "a write succeeds")
	w.m.put(k, v)
	w.get(k)
	again := nd.Bool("again")
	if again {
		v = []string{"", "v\n", big[:300], big[1:258]}[nd.Pick("second value", 4)]
		nd.Assert(w.kv.Put(k, []byte(v)) == nil, "a write succeeds")
		w.m.put(k, v)
	}
	n := 1
	if old {
		n++
	}
	if again {
		n++
	}
	nd.Assert(len(w.evs) == n, "each change announces exactly the object changed")
	if reopen != nil && nd.Bool("restart") {
		// the bitcask engine loads an empty value as a deletion; no record
		// of an object is empty
		nd.Assume(v != "" || w.path != "bitcask")
		reopen()
	}
	nd.Reach("values")
	w.get(k)
	w.get(k)
	w.keys("/*/*")
}

func (w *world) lots(reopen func()) {
	n := 10
	if nd.Thorough() {
		n = 40
	}
	for i := 0; i < n; i++ {
		c := string([]byte{byte('a' + i%26), byte('0' + i/26)})
		w.change("/entities/"+c, c, true, "e"+c, true)
		w.change("/groups/"+c, c, false, "g"+c, true)
	}
	at := []int{0, n / 2, n - 1}[nd.Pick("at", 3)]
	k := w.m.k[2*at]
	name := k[len("/entities/"):]
	switch nd.Pick("change", 3) {
	case 0:
		w.change(k, name, true, "", false)
	case 1:
		w.change(k, name, true, "new", true)
	case 2:
		w.change(k, name, true, "", false)
		w.change(k, name, true, "new", true)
	}
	if reopen != nil && nd.Bool("restart") {
		reopen()
	}
	nd.Reach("lots")
	for _, x := range append([]string{k}, w.m.k...) {
		w.get(x)
	}
	w.keys("/*/*")
	w.keys("/entities/*")
	w.keys("/groups/*")
}

//gosym:bounds an object written once to three times with any of 17 values (empty, line ends, NUL bytes, not UTF-8, byte order mark, magic numbers, 257, 1000 (as the one before), 5000 and 6401 bytes long)
func VP_E04_values() { open("memory").values(nil) }

//gosym:bounds an object written once to three times with any of 17 values (empty, line ends, NUL bytes, not UTF-8, byte order mark, magic numbers, 257, 1000 (as the one before), 5000 and 6401 bytes long), possibly a restart
func VP_E05_values() {
	w := fsWorld()
	w.values(func() { w.reopen("filesystem") })
}

//gosym:bounds an object written once to three times with any of 17 values (empty, line ends, NUL bytes, not UTF-8, byte order mark, magic numbers, 257, 1000 (as the one before), 5000 and 6401 bytes long), possibly a restart (which the engine takes for a deletion where the value is empty: excluded)
func VP_E07_values() {
	zzbc.Reset()
	w := open("bitcask")
	w.values(func() {
		zzbc.Restart(false)
		w.reopen("bitcask")
	})
}

//gosym:bounds 20 (thorough 80) objects, the first, middle or last entity then changed, deleted or deleted and written again
func VP_E04_lots() { open("memory").lots(nil) }

//gosym:bounds 20 (thorough 80) objects, the first, middle or last entity then changed, deleted or deleted and written again, possibly a restart
func VP_E05_lots() {
	w := fsWorld()
	w.lots(func() { w.reopen("filesystem") })
}

//gosym:bounds 20 (thorough 80) objects, the first, middle or last entity then changed, deleted or deleted and written again, possibly a restart
func VP_E07_lots() {
	zzbc.Reset()
	w := open("bitcask")
	w.lots(func() {
		zzbc.Restart(false)
		w.reopen("bitcask")
	})
}

//gosym:bounds the data directory lies in a directory of any of 12 names (with wildcards, brackets, backslashes, blanks, no UTF-8), another directory the name would match as a pattern lies beside it; two objects written, enumerated by any pattern the server uses, one deleted, possibly after a restart
func VP_E05_where() {
	zzos.Reset()
	i := nd.Pick("home", 12)
	dir := []string{"na", "n[a]", "n*", "n?", "n[", "]n[a", "n\\a", "\\", "n a", " n", "n\xff", "[a-z]*"}[i]
	h := "/" + dir
	if nd.Bool("deeper") {
		h = "/srv/" + dir + "/x"
	}
	zzos.Put(h+"/kv/.mutable", nil, 0644)
	zzos.Put("/na/kv/entities/other", []byte("other"), 0640)
	zzos.Put("/srv/na/x/kv/entities/other", []byte("other"), 0640)
	if i == 0 {
		zzos.Remove("/na/kv/entities/other")
		zzos.Remove("/srv/na/x/kv/entities/other")
	}
	env.Start()
	env.SetConf("core.home", h)
	w := &world{m: &model{}}
	w.reopen("filesystem")
	for _, k := range []string{"/entities/a", "/groups/b"} {
		nd.Assert(w.kv.Put(k, []byte("v"+k)) == nil, "writing an object succeeds")
	}
	if nd.Bool("restart") {
		w.reopen("filesystem")
	}
	want := 2
	if nd.Bool("delete") {
		nd.Assert(w.kv.Del("/groups/b") == nil, "deleting an object succeeds")
		want = 1
		nd.Reach("deleted")
	}
	all, err := w.kv.Keys("/*/*")
	nd.Assert(err == nil && len(all) == want, "an enumeration lists exactly the objects")
	es, err := w.kv.Keys("/entities/*")
	nd.Assert(err == nil && len(es) == 1 && es[0] == "/entities/a", "an enumeration lists exactly the objects")
	gs, err := w.kv.Keys("/groups/*")
	nd.Assert(err == nil && len(gs) == want-1, "an enumeration lists exactly the objects")
	v, err := w.kv.Get("/entities/a")
	nd.Assert(err == nil && string(v) == "v/entities/a", "a read returns the value")
	nd.Assert(len(w.kv.Capabilities()) == 1, "a directory with the marker file is mutable")
}
