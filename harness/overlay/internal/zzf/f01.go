package zzf

import (
	"github.com/golang/protobuf/proto"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

// f01Entity stores an entity that may be locked, hold a capability, or have
// no metadata.
func f01Entity(w *env.World, id string, n int32) *pb.Entity {
	e := &pb.Entity{ID: env.S(id), Number: env.I(n), Secret: env.S(w.Cr.Seed("old"))}
	if nd.Bool(id + ".meta") {
		e.Meta = &pb.EntityMeta{GECOS: env.S("g"), Groups: []string{"g"}, Locked: env.B(nd.Bool(id + ".locked")), Keys: []string{"SSH:k"}, UntypedMeta: []string{"u:v"},
			Capabilities: []pb.Capability{env.SymCap(id + ".cap")}, KV: []*pb.KVData{{Key: env.S("k"), Values: []*pb.KVValue{{Value: env.S("v")}}}}}
	}
	w.KV.PutEntity(e)
	return e
}

// f01Done says whether entity id is what a bootstrap makes of e.
func f01Done(w *env.World, id, secret string, e *pb.Entity) bool {
	x := w.KV.Entity(id)
	if x == nil || !w.Cr.Opens(secret, x.GetSecret()) || x.GetMeta().GetLocked() {
		return false
	}
	want := &pb.Entity{ID: env.S(id), Number: x.Number, Meta: &pb.EntityMeta{}}
	if e != nil {
		want = proto.Clone(e).(*pb.Entity)
		if want.Meta == nil {
			want.Meta = &pb.EntityMeta{}
		}
	} else {
		for _, o := range []string{"e", "o", "n"} {
			if y := w.KV.Entity(o); o != id && y != nil && y.GetNumber() == x.GetNumber() {
				return false
			}
		}
	}
	root := 0
	for _, c := range x.GetMeta().GetCapabilities() {
		if c == pb.Capability_GLOBAL_ROOT {
			root++
		} else if !(len(want.Meta.Capabilities) == 1 && want.Meta.Capabilities[0] == c) {
			return false
		}
	}
	had := len(want.Meta.Capabilities)
	if had == 1 && want.Meta.Capabilities[0] == pb.Capability_GLOBAL_ROOT {
		had = 0
	}
	if root != 1 || len(x.GetMeta().GetCapabilities()) != had+1 {
		return false
	}
	x.Secret, want.Secret = nil, nil
	x.Meta.Capabilities, want.Meta.Capabilities = nil, nil
	x.Meta.Locked, want.Meta.Locked = nil, nil
	return proto.Equal(x, want)
}

//gosym:bounds two entities, present or not, locked or not, with a symbolic capability or no metadata; histories of 2 (thorough 3) bootstraps of either or a new one with 0..1 byte secrets, disabling, and failing requests to log in, with one storage fault at any access or none; then a login
func VP_F01_histories() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	have := map[string]*pb.Entity{}
	if nd.Bool("exists") {
		have["e"] = f01Entity(w, "e", 3)
	}
	have["o"] = &pb.Entity{ID: env.S("o"), Number: env.I(7), Secret: env.S(w.Cr.Seed("old")), Meta: &pb.EntityMeta{Locked: env.B(true)}}
	kv.PutEntity(have["o"])
	w.Load()
	n := 2
	if nd.Thorough() {
		n = 3
	}
	if nd.Bool("fault") {
		kv.FailAt = nd.Pick("at", 8)
	}
	open := true
	for i := 0; i < n; i++ {
		snap := kv.Snapshot()
		op := nd.Pick("op", 5)
		if op == 4 {
			w.Srv.AuthEntity(env.Ctx(""), &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S("e")}, Secret: env.S("wrong")})
			nd.Assert(kv.Same(snap), "a failing login changes nothing")
			continue
		}
		if op == 3 {
			w.Tree.DisableBootstrap()
			nd.Assert(kv.Same(snap), "disabling changes nothing")
			open = false
			continue
		}
		id := []string{"e", "o", "n"}[op]
		secret := nd.Str("secret", 0, 1, "s-t")
		failed := kv.Failed
		w.Tree.Bootstrap(id, secret)
		if !open {
			nd.Reach("closed")
			nd.Assert(kv.Same(snap), "a bootstrap has an effect at most once, and only before it is disabled")
			continue
		}
		open = false
		kv2 := kv.FailAt
		kv.FailAt = -1
		nd.Assert(kv.SameBut(snap, "/entities/"+id), "a bootstrap changes nothing else")
		if kv.Failed == failed {
			nd.Assert(f01Done(w, id, secret, have[id]), "a bootstrap grants root and preserves the rest")
			nd.Reach("done")
			snap2 := kv.Snapshot()
			tk, err := w.Srv.AuthGetToken(env.Ctx(""), &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S(id)}, Secret: env.S(secret)})
			nd.Assert(err == nil, "the bootstrapped entity can log in")
			nd.Assert(kv.Same(snap2), "a login changes nothing")
			_, err = w.Srv.EntityCreate(env.Ctx(tk.GetToken()), &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("new"), Number: env.I(-1), Secret: env.S("x")}})
			nd.Assert(err == nil, "the bootstrapped entity may do everything")
			return
		}
		nd.Reach("fault")
		nd.Assert(nd.Or(kv.Same(snap), f01Done(w, id, secret, have[id])), "a bootstrap is complete or without effect")
		kv.FailAt = kv2
	}
}
