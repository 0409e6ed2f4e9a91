package zza

import (
	"context"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

// seedTwo stores entities a and b with symbolic lock flags and group a, all
// of one of the kinds.
func seedTwo(w *env.World, kv *env.Store) {
	kind := nd.Pick("kind", env.Kinds)
	for i, id := range []string{"a", "b"} {
		var in []string
		if kind == env.Full || kind == env.Odd {
			in = []string{"a"}
		}
		kv.PutEntity(w.Shaped(kind, id, int32(i+1), "s"+id, nd.Bool("locked."+id), in...))
	}
	kv.PutGroup(env.ShapedGroup(kind, "a", 1, "a"))
	w.Load()
}

// nameAC is any one-letter name: one of the two stored ones or a missing one.
func nameAC(l string) string { return nd.Str(l, 1, 1, "a-cA") }

//gosym:bounds 2 stored entities of any kind (full, bare, no metadata, root, odd values) with symbolic locks, one request of any mutating or authenticating kind with symbolic name (1 byte), full or minimal contents (contents may carry a lock flag), requester with every capability
func VP_A02_sticky() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	seedTwo(w, kv)
	before := map[string]bool{"a": kv.Entity("a").GetMeta().GetLocked(), "b": kv.Entity("b").GetMeta().GetLocked()}
	n := 1
	if nd.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		r := w.AnyOf(append([]string{"AuthEntity", "AuthGetToken"}, env.MutatingRPCs...), &env.Gen{Name: nameAC, Text: func(l string) string { return nd.Choose(l, "sa", "k") }, Shapes: 2})
		_, err := r.Call(w.CtxWith("a", env.AllCaps...))
		for _, id := range []string{"a", "b"} {
			e := kv.Entity(id)
			if e == nil {
				nd.Assert(nd.And(r.Name == "EntityDestroy", r.Target == id), "only a destroy request removes an entity")
				nd.Reach("destroyed")
				return
			}
			got := e.GetMeta().GetLocked()
			want := before[id]
			if r.Name == "EntityLock" && err == nil {
				want = nd.Or(want, r.Target == id)
			}
			if r.Name == "EntityUnlock" && err == nil {
				want = nd.And(want, !(r.Target == id))
			}
			nd.Assert(got == want, "the lock of an entity changes only by a successful lock or unlock request for it")
			before[id] = want
		}
		if err == nil {
			nd.Reach("acknowledged")
		}
		nd.NoteBool("ok", err == nil)
	}
}

//gosym:bounds one entity with symbolic secret; lock acknowledged, then authentication, then unlock acknowledged, then authentication; a storage fault at a symbolic access of the lock or unlock
func VP_A02_cycle() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	sec := nd.Str("secret", 0, 2, "")
	kv.PutEntity(&pb.Entity{ID: env.S("a"), Number: env.I(1), Secret: env.S(w.Cr.Seed(sec)), Meta: nil})
	w.Load()
	ctx := w.CtxWith("z", env.AllCaps...)
	auth := func() error {
		_, err := w.Srv.AuthEntity(context.Background(), &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S("a")}, Secret: &sec})
		return err
	}
	q := &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("a")}}
	nd.Assert(auth() == nil, "an unlocked entity authenticates")
	kv.FailAt = nd.Pick("fault", 4) + kv.N - 1
	_, err := w.Srv.EntityLock(ctx, q)
	kv.FailAt = -1
	if err == nil {
		nd.Reach("locked")
		nd.Assert(auth() != nil, "a locked entity does not authenticate")
		kv.FailAt = nd.Pick("fault2", 4) + kv.N - 1
		_, err := w.Srv.EntityUnlock(ctx, q)
		kv.FailAt = -1
		nd.Assert((auth() == nil) == (err == nil), "the entity authenticates again exactly after a successful unlock")
	} else {
		nd.Reach("lock failed")
		nd.Assert(auth() == nil, "a failed lock leaves the entity unlocked")
	}
}
