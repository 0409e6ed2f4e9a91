package zza

import (
	"context"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

//gosym:bounds 2 stored entities of any kind (full, bare, no metadata, root, odd values) with symbolic locks and secrets (1 byte), requester a, b or unknown with one symbolic capability or none, with valid, unknown, empty or no token, symbolic target, old and new secret (0..1 byte); then authentication with a symbolic secret
func VP_A05_change() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	ids := []string{"a", "b"}
	lock := []bool{nd.Bool("lock"), nd.Bool("lock")}
	sec := []string{nd.Str("sec", 1, 1, "x-z"), nd.Str("sec", 1, 1, "x-z")}
	kind := nd.Pick("kind", env.Kinds)
	for i := range ids {
		kv.PutEntity(w.Shaped(kind, ids[i], int32(i+1), sec[i], lock[i]))
	}
	w.Load()
	snap := kv.Snapshot()

	var ctx context.Context
	rid := nd.Str("requester", 1, 1, "a-c")
	cap := env.SymCap("cap")
	valid := false
	switch nd.Pick("token", 4) {
	case 0:
		ctx, valid = w.CtxWith(rid, cap), true
	case 1:
		ctx, valid = w.CtxWith(rid), true
		cap = pb.Capability_CREATE_GROUP
	case 2:
		ctx = env.Ctx("bogus")
	case 3:
		ctx = context.Background()
	}
	target := nd.Str("target", 1, 1, "a-cA")
	old := nd.Str("old", 0, 1, "x-z")
	neu := nd.Str("new", 1, 1, "w-z")
	_, err := w.Srv.AuthChangeSecret(ctx, &rpc.AuthRequest{Entity: &pb.Entity{ID: &target, Secret: &old}, Secret: &neu})

	exists, oldOK, locked := false, false, false
	for i := range ids {
		is := ids[i] == target
		exists = nd.Or(exists, is)
		oldOK = nd.Or(oldOK, nd.And(is, sec[i] == old))
		locked = nd.Or(locked, nd.And(is, lock[i]))
	}
	self := rid == target
	powered := nd.Or(cap == pb.Capability_CHANGE_ENTITY_SECRET, cap == pb.Capability_GLOBAL_ROOT)
	want := nd.And(valid, nd.And(exists, nd.Or(nd.And(self, nd.And(oldOK, !locked)), nd.And(!self, powered))))
	nd.Assert((err == nil) == want, "a secret is changed exactly by its unlocked owner with the old secret or by another with the capability")
	nd.NoteBool("ok", err == nil)
	if err != nil {
		nd.Reach("refused")
		nd.Assert(kv.Same(snap), "a refused change leaves everything as it was")
		return
	}
	nd.Reach("changed")
	nd.Assert(kv.SameBut(snap, "/entities/"+target), "only the target changes")
	try := nd.Str("try", 0, 1, "w-z")
	_, aerr := w.Srv.AuthEntity(context.Background(), &rpc.AuthRequest{Entity: &pb.Entity{ID: &target}, Secret: &try})
	nd.Assert((aerr == nil) == nd.And(try == neu, !locked), "only the new secret authenticates afterwards")
}
