package main

import (
	"strings"

	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/db"
	_ "github.com/netauth/netauth/internal/tree/hooks"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zzos"
)

//gosym:vfs

func fill(kv *env.Store, label string, n int, val string) {
	for i := 0; i < n; i++ {
		k := nd.Choose(label+".space", "/entities/", "/groups/") + nd.Str(label+".name", 1, depth(), "ab")
		_, there := kv.RawGet(k)
		nd.Assume(!there)
		kv.RawPut(k, []byte(val+nd.Str(label+".value", 0, 1, "xy")))
	}
}

func depth() int {
	if nd.Thorough() {
		return 2
	}
	return 1
}

// run runs the copy command and reports its exit status.
func run(args ...string) (code int) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(zzos.ExitCode)
			if !ok {
				panic(r)
			}
			code = e.N
		}
	}()
	dbCopyCmdRun(dbCopyCmd, args)
	return 0
}

func stores() (*env.Store, *env.Store) {
	src, dst := env.NewStore(), env.NewStore()
	db.RegisterKV("zzsrc", func(hclog.Logger) (db.KVStore, error) { return src, nil })
	db.RegisterKV("zzdst", func(hclog.Logger) (db.KVStore, error) { return dst, nil })
	return src, dst
}

func raw(kv *env.Store, s env.Snap) bool {
	if len(kv.K) != len(s.K) {
		return false
	}
	for i := range s.K {
		v, ok := kv.RawGet(s.K[i])
		if !ok || string(v) != string(s.V[i]) {
			return false
		}
	}
	return true
}

//gosym:bounds a source and a target of up to 2 objects each with symbolic names of 1 (thorough 1..2) characters and values, names possibly in common, every combination of the two switches
func VP_E08_copy() {
	src, dst := stores()
	n := nd.Pick("source objects", 3)
	fill(src, "source", n, "s")
	fill(dst, "target", nd.Pick("target objects", 3), "t")
	s, d := src.Snapshot(), dst.Snapshot()
	dbCopyCmdNoDryRun = nd.Bool("no dry run")
	dbCopyCmdTruncate = nd.Bool("truncate")
	code := run("zzsrc", "zzdst")
	nd.NoteInt("exit", code)
	nd.Assert(raw(src, s), "copying does not change the source")
	if !dbCopyCmdNoDryRun {
		nd.Reach("dry run")
		nd.Assert(raw(dst, d), "a dry run writes nothing")
		return
	}
	nd.Reach("copied")
	nd.Assert(code == 0, "copying succeeds")
	for i := range s.K {
		v, ok := dst.RawGet(s.K[i])
		nd.Assert(ok && string(v) == string(s.V[i]), "the target has every object of the source, byte for byte")
	}
	for i := range d.K {
		v, ok := dst.RawGet(d.K[i])
		_, over := src.RawGet(d.K[i])
		if !over {
			nd.Assert(ok != dbCopyCmdTruncate, "truncation removes the target's other objects and nothing else does")
			nd.Assert(!ok || string(v) == string(d.V[i]), "the target's other objects are unchanged")
		}
	}
	for _, k := range dst.K {
		_, a := src.RawGet(k)
		in := a
		for _, x := range d.K {
			in = nd.Or(in, x == k)
		}
		nd.Assert(in, "copying invents no objects")
	}
}

//gosym:bounds a source of one or two objects with a fault at its enumeration or any read: the source is unchanged, what could be read arrives, and a target is not emptied when the source cannot be enumerated
func VP_E08_faults() {
	src, dst := stores()
	fill(src, "source", 1+nd.Pick("more", 2), "s")
	fill(dst, "target", 1, "t")
	s, d := src.Snapshot(), dst.Snapshot()
	dbCopyCmdNoDryRun = true
	dbCopyCmdTruncate = nd.Bool("truncate")
	src.FailAt = nd.IntRange("fault", 0, 3)
	run("zzsrc", "zzdst")
	nd.Assert(raw(src, s), "copying does not change the source")
	if src.Failed == "keys" {
		nd.Reach("not enumerated")
		nd.Assert(raw(dst, d), "a target is left alone when the source cannot be enumerated")
		return
	}
	nd.Reach("enumerated")
	missing := 0
	for i := range s.K {
		v, ok := dst.RawGet(s.K[i])
		_, old := inSnap(d, s.K[i])
		if !ok {
			missing++
		} else {
			nd.Assert(string(v) == string(s.V[i]) || old, "what is copied is the source's object")
		}
	}
	nd.Assert(missing <= 1, "an object that cannot be read does not keep others from being copied")
}

func inSnap(s env.Snap, k string) ([]byte, bool) {
	for i := range s.K {
		if s.K[i] == k {
			return s.V[i], true
		}
	}
	return nil, false
}

//gosym:bounds source and target are the same store, every combination of the two switches
func VP_E08_same() {
	src, _ := stores()
	fill(src, "source", 2, "s")
	s := src.Snapshot()
	dbCopyCmdNoDryRun = nd.Bool("no dry run")
	dbCopyCmdTruncate = nd.Bool("truncate")
	run("zzsrc", "zzsrc")
	nd.Assert(raw(src, s), "copying does not change the source")
}

//gosym:bounds a source of any three of 12 awkward names and a target of any one of them, entities or groups, with empty, one-byte, non-UTF-8 or 5000-byte values
func VP_E08_names() {
	src, dst := stores()
	names := []string{"a", "A", ".a", "a.tmp", " a", "a b", "[a]", "*", "?", "a\\b", "é", "\xff"}
	vals := []string{"", "v", "\xff\x00", strings.Repeat("z", 5000)}
	at := nd.Pick("first", len(names))
	v := nd.Pick("value", len(vals))
	for i := 0; i < 3; i++ {
		k := "/entities/"
		if i > 0 && nd.Bool("group") {
			k = "/groups/"
		}
		src.RawPut(k+names[(at+i*5)%len(names)], []byte(vals[(v+i)%len(vals)]))
	}
	dst.RawPut("/entities/"+names[nd.Pick("old", len(names))], []byte("old"))
	s, d := src.Snapshot(), dst.Snapshot()
	dbCopyCmdNoDryRun = true
	dbCopyCmdTruncate = nd.Bool("truncate")
	nd.Assert(run("zzsrc", "zzdst") == 0, "copying succeeds")
	nd.Assert(raw(src, s), "copying does not change the source")
	n := len(s.K)
	for i := range s.K {
		v, ok := dst.RawGet(s.K[i])
		nd.Assert(ok && string(v) == string(s.V[i]), "the target has every object of the source, byte for byte")
	}
	if _, over := src.RawGet(d.K[0]); !over && !dbCopyCmdTruncate {
		nd.Reach("kept")
		v, ok := dst.RawGet(d.K[0])
		nd.Assert(ok && string(v) == "old", "the target's other objects are unchanged")
		n++
	}
	nd.Reach("copied")
	nd.Assert(len(dst.K) == n, "copying invents no objects and truncation removes the others")
}

func numbered(n int) string {
	return string('a'+rune(n/10)) + string('0'+rune(n%10))
}

//gosym:bounds a source of 3, 9, 17 or 40 entities and groups in any order of two, a target holding up to 12 others or some of the same, and at most one read of the source or removal or write of the target that fails at any of 50 operations
func VP_E08_many() {
	src, dst := stores()
	n := []int{3, 9, 17, 40}[nd.Pick("objects", 4)]
	back := nd.Bool("stored backwards")
	for i := 0; i < n; i++ {
		x := i
		if back {
			x = n - 1 - i
		}
		k := "/entities/"
		if x%3 == 1 {
			k = "/groups/"
		}
		src.RawPut(k+numbered(x), []byte("value "+numbered(x)))
	}
	m := []int{0, 1, 12}[nd.Pick("old objects", 3)]
	from := []int{0, 38, 60}[nd.Pick("old numbers", 3)]
	for i := 0; i < m; i++ {
		dst.RawPut("/entities/"+numbered(from+i), []byte("old"))
	}
	s, d := src.Snapshot(), dst.Snapshot()
	dbCopyCmdNoDryRun = true
	dbCopyCmdTruncate = nd.Bool("truncate")
	which := nd.Pick("store that fails", 3)
	if which == 1 {
		src.FailAt = 1 + nd.Pick("fault", 50)
	} else if which == 2 {
		dst.FailAt = 1 + nd.Pick("fault", 60)
	}
	run("zzsrc", "zzdst")
	nd.Assert(raw(src, s), "copying does not change the source")
	missing, stale := 0, 0
	for i := range s.K {
		v, ok := dst.RawGet(s.K[i])
		_, old := inSnap(d, s.K[i])
		if !ok {
			missing++
		} else if string(v) != string(s.V[i]) {
			nd.Assert(old && string(v) == "old", "what is copied is the source's object")
			missing++
		}
	}
	for i := range d.K {
		v, ok := dst.RawGet(d.K[i])
		_, over := inSnap(s, d.K[i])
		if over {
			continue
		}
		if ok {
			nd.Assert(string(v) == "old", "the target's other objects are unchanged")
			stale++
		} else {
			nd.Assert(dbCopyCmdTruncate, "truncation removes the target's other objects and nothing else does")
		}
	}
	for _, k := range dst.K {
		_, a := inSnap(s, k)
		_, b := inSnap(d, k)
		nd.Assert(a || b, "copying invents no objects")
	}
	if src.Failed == "" && dst.Failed == "" {
		nd.Reach("all of it")
		nd.Assert(missing == 0, "the target has every object of the source, byte for byte")
		nd.Assert(stale == 0 || !dbCopyCmdTruncate, "truncation removes the target's other objects and nothing else does")
		return
	}
	nd.Reach("but one")
	left := 0
	if dbCopyCmdTruncate {
		left = stale
	}
	nd.Assert(missing+left <= 1, "an object that cannot be copied or removed does not keep others from being so")
}
