package zze

import (
	"context"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

// faults lets one storage access or the crypto engine fail.
func faults(w *env.World, n int) {
	f := nd.IntRange("fault", -2, n)
	if f == -2 {
		w.Cr.Fail = true
		return
	}
	w.KV.FailAt = f
}

// judge asserts atomicity of one call, given what was stored before it.
func judge(w *env.World, snap env.Snap, handles int, err error, again func() error) {
	nd.NoteBool("ok", err == nil)
	if err != nil {
		nd.Reach("refused")
		nd.Assert(w.KV.Same(snap), "a failed request leaves stored data as it was")
		return
	}
	nd.Reach("acknowledged")
	got := w.KV.Snapshot()
	w.Tok.T, w.Tok.C, w.Tok.Cfg = w.Tok.T[:1], w.Tok.C[:1], w.Tok.Cfg[:1]
	rewind(w, snap, handles)
	nd.Assert(again() == nil, "an acknowledged request succeeds without faults")
	nd.Assert(w.KV.Same(got), "an acknowledged request is stored completely")
}

//gosym:bounds 2 entities and 3 groups with rules, delegation and every field set, or entity e and group g bare, holding root, or with odd values, locked or not; every mutating request with full contents, naming an existing or missing object, by a requester with every capability or by a delegated manager; one storage fault at any of the first 14 (thorough 24) accesses, a crypto failure, or none
func VP_E01_faults() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	seed(w, kv)
	if k := []int{env.Full, env.None, env.Root, env.Odd}[nd.Pick("kind", 4)]; k != env.Full {
		locked := k != env.None
		kv.PutEntity(w.Shaped(k, "e", 1, "se", locked))
		kv.PutGroup(env.ShapedGroup(k, "g", 1, "h"))
		w.Load()
	}
	snap := kv.Snapshot()
	h := len(w.Cr.H)
	r := w.AnyOf(env.MutatingRPCs, gen())
	var ctx context.Context
	if nd.Bool("delegated") {
		ctx = w.CtxWith("f")
	} else {
		ctx = w.CtxWith("e", env.AllCaps...)
	}
	if nd.Thorough() {
		faults(w, 24)
	} else {
		faults(w, 14)
	}
	_, err := r.Call(ctx)
	judge(w, snap, h, err, func() error {
		_, err := r.Call(ctx)
		return err
	})
}

//gosym:bounds membership requests naming two groups, drawn among three existing and a missing one, with a fault at any of the first 14 accesses
func VP_E01_several() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	seed(w, kv)
	snap := kv.Snapshot()
	h := len(w.Cr.H)
	ctx := w.CtxWith("e", env.AllCaps...)
	if nd.Bool("delegated") {
		w.Tok.C[0].EntityID, w.Tok.C[0].Capabilities = "f", nil
	}
	m := func() *rpc.EntityRequest {
		return &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("e"), Meta: &pb.EntityMeta{Groups: []string{"", ""}}}}
	}()
	m.Entity.Meta.Groups[0] = nd.Choose("first", "g", "h", "i", "n")
	m.Entity.Meta.Groups[1] = nd.Choose("second", "g", "h", "i", "n")
	add := nd.Bool("add")
	call := func() error {
		var err error
		if add {
			_, err = w.Srv.GroupAddMember(ctx, m)
		} else {
			_, err = w.Srv.GroupDelMember(ctx, m)
		}
		return err
	}
	faults(w, 14)
	judge(w, snap, h, call(), call)
}

//gosym:bounds the tree manager's start-up bootstrap of a missing or existing entity, with a fault at any of the first 6 accesses: the entity is complete in its old or new version and nothing else changes
func VP_E01_bootstrap() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	seed(w, kv)
	snap := kv.Snapshot()
	id := nd.Choose("id", "e", "n")
	faults(w, 6)
	w.Tree.Bootstrap(id, "new")
	nd.Assert(kv.SameBut(snap, "/entities/"+id), "bootstrap touches only the named entity")
	if kv.Same(snap) {
		nd.Reach("bootstrap failed")
		return
	}
	nd.Reach("bootstrapped")
	e := kv.Entity(id)
	nd.Assert(e != nil && w.Cr.Opens("new", e.GetSecret()) && !e.GetMeta().GetLocked(), "a bootstrapped entity is complete")
}
