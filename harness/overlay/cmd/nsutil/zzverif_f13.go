package main

import (
	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/db"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"
)

//gosym:vfs

//gosym:bounds the copy command between any two of three stores (two of them with names that differ in case only), an unknown one, and one for tests only; any of them may fail to start; both switches drawn
func VP_F13_copy() {
	names := []string{"zza", "zzA", "zzb", "gone", "memory", ""}
	var kv [3]*env.Store
	fails := nd.Pick("fails", 4)
	for i := range kv {
		i := i
		kv[i] = env.NewStore()
		kv[i].RawPut("/entities/"+[]string{"a", "b", "c"}[i], []byte{byte('0' + i)})
		db.RegisterKV(names[i], func(hclog.Logger) (db.KVStore, error) {
			if i == fails {
				return nil, db.ErrInternalError
			}
			return kv[i], nil
		})
		db.RegisterKV(names[i], func(hclog.Logger) (db.KVStore, error) { return env.NewStore(), nil })
	}
	from, to := nd.Pick("from", len(names)), nd.Pick("to", len(names))
	dbCopyCmdNoDryRun, dbCopyCmdTruncate = nd.Bool("really"), nd.Bool("truncate")
	var before [3]env.Snap
	for i := range kv {
		before[i] = kv[i].Snapshot()
	}
	code := run(names[from], names[to])
	for i := range kv {
		if i != to {
			nd.Assert(raw(kv[i], before[i]), "no store but the named target is written")
		}
	}
	if from > 2 || to > 2 || from == fails || to == fails {
		nd.Reach("refused")
		nd.Assert(code != 0, "an unusable store is refused")
		for i := range kv {
			nd.Assert(raw(kv[i], before[i]), "nothing is written without the named stores")
		}
		return
	}
	if from == to || !dbCopyCmdNoDryRun {
		nd.Assert(raw(kv[to], before[to]), "nothing is written without being asked to")
		return
	}
	nd.Reach("copied")
	v, ok := kv[to].RawGet(before[from].K[0])
	nd.Assert(code == 0 && ok && string(v) == string(before[from].V[0]), "the objects of the named source are copied")
	want := 2
	if dbCopyCmdTruncate {
		want = 1
	}
	nd.Assert(len(kv[to].K) == want, "only the objects of the named source are copied")
}
