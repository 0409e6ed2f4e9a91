package zzs

import (
	"github.com/netauth/netauth/internal/db"
	nd "github.com/netauth/netauth/internal/zznd"

	"github.com/netauth/netauth/internal/zzbc"
)

//gosym:vfs

//gosym:bounds histories of 2 (thorough 3) writes and deletions of entities and groups with symbolic names of 1..2 characters of [ab.*], then a read of any such key, enumeration by any pattern the server uses, and a further write
func VP_E07_history() {
	w := open("bitcask")
	w.m.put("/entities/a", "old")
	w.kv.Put("/entities/a", []byte("old"))
	w.evs = nil
	w.history(depth(2, 3), "ab.*", 2)
	nd.Reach("history")
	w.judge("ab.*", 2)
	nd.Assert(!zzbc.Last.Held(), "an enumeration does not block later writes")
}

//gosym:bounds each operation on an existing or missing object with a fault of the engine: it is reported, not as absence, changes and announces nothing
func VP_E07_faults() {
	w := open("bitcask")
	w.kv.Put("/entities/a", []byte("old"))
	w.evs = nil
	k, _, _ := object("key", "ab", 1)
	zzbc.Last.N, zzbc.Last.FailAt = 0, 0
	var err error
	op := nd.Pick("op", 3)
	switch op {
	case 0:
		_, err = w.kv.Get(k)
	case 1:
		err = w.kv.Put(k, []byte("x"))
	case 2:
		err = w.kv.Del(k)
	}
	if op == 0 && k != "/entities/a" {
		nd.Reach("absent")
		nd.Assert(err == db.ErrNoValue, "absence is reported as absence")
		return
	}
	nd.Reach("fault")
	nd.Assert(err != nil, "a fault of the engine is reported")
	nd.Assert(err != db.ErrNoValue, "a fault of the engine is not reported as absence")
	nd.Assert(len(w.evs) == 0, "a failed change announces nothing")
	zzbc.Last.FailAt = -1
	w.m.put("/entities/a", "old")
	w.get("/entities/a")
	w.keys("/*/*")
}

//gosym:bounds the store cannot be opened
func VP_E07_open() {
	zzbc.OpenFails = true
	_, err := db.NewKV("memory", nil)
	open("memory")
	_, err = db.NewKV("bitcask", nil)
	nd.Assert(err != nil, "failing to open the engine is reported")
}
