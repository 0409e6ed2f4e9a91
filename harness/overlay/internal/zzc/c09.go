package zzc

import (
	"context"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

func has(es []*pb.Entity, id string) bool {
	for _, e := range es {
		if e.GetID() == id {
			return true
		}
	}
	return false
}

//gosym:bounds entities a and b with symbolic direct memberships in groups a and b, which may include or exclude each other in one direction, all of them with every field set (entities locked, groups managed by b) or with none; destruction of an entity or group of symbolic 1-byte name, with a storage fault at one of the first three accesses or none; before or after a restart
func VP_C09_destroy() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	direct := map[string]bool{}
	full := nd.Bool("full")
	for i, id := range []string{"a", "b"} {
		var gs []string
		for _, g := range []string{"a", "b"} {
			if nd.Bool("in") {
				gs = append(gs, g)
				direct[id+g] = true
			}
		}
		e := &pb.Entity{ID: env.S(id), Number: env.I(int32(i + 1)), Secret: env.S(w.Cr.Seed("s" + id)), Meta: &pb.EntityMeta{Groups: gs}}
		if full {
			e.Meta.Locked = env.B(true)
			e.Meta.GECOS, e.Meta.Keys, e.Meta.UntypedMeta = env.S("g"), []string{"SSH:k"}, []string{"k:v"}
			e.Meta.Capabilities, e.Meta.KV = env.AllCaps[:2], []*pb.KVData{{Key: env.S("k"), Values: []*pb.KVValue{{Value: env.S("v")}}}}
		}
		kv.PutEntity(e)
	}
	ga, gb := &pb.Group{Name: env.S("a"), Number: env.I(1)}, &pb.Group{Name: env.S("b"), Number: env.I(2)}
	rule := nd.Pick("rule", 3)
	switch rule {
	case 1:
		ga.Expansions = []string{"INCLUDE:b"}
	case 2:
		ga.Expansions = []string{"EXCLUDE:b"}
	}
	if full {
		for _, g := range []*pb.Group{ga, gb} {
			g.DisplayName, g.ManagedBy, g.Capabilities, g.UntypedMeta = env.S("d"), env.S("b"), env.AllCaps[:2], []string{"k:v"}
			g.KV = []*pb.KVData{{Key: env.S("k"), Values: []*pb.KVValue{{Value: env.S("v")}}}}
		}
	}
	kv.PutGroup(ga)
	kv.PutGroup(gb)
	w.Load()
	snap := kv.Snapshot()
	group := nd.Bool("group")
	name := nd.Str("name", 1, 2, "a-cA ")
	ctx := w.CtxWith("z", env.AllCaps...)
	kv.FailAt = nd.Pick("fault", 4) - 1
	var err error
	key := "/entities/" + name
	if group {
		key = "/groups/" + name
		_, err = w.Srv.GroupDestroy(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: &name}})
	} else {
		_, err = w.Srv.EntityDestroy(ctx, &rpc.EntityRequest{Entity: &pb.Entity{ID: &name}})
	}
	failed := kv.Failed != ""
	kv.FailAt = -1
	nd.NoteBool("ok", err == nil)
	stored := nd.Or(name == "a", name == "b")
	if err != nil {
		nd.Reach("refused")
		nd.Assert(kv.Same(snap), "a failed destroy changes nothing")
		nd.Assert(nd.Or(failed, !stored), "an existing object can be destroyed")
		return
	}
	nd.Reach("destroyed")
	nd.Assert(stored, "destroying a missing object reports so")
	_, still := kv.RawGet(key)
	nd.Assert(!still, "the object is no longer stored")
	nd.Assert(kv.SameBut(snap, key), "nothing else is destroyed")
	if nd.Bool("restart") {
		w.Boot()
		w.Load()
	}
	bg := context.Background()
	if !group {
		_, ferr := w.Srv.EntityInfo(bg, &rpc.EntityRequest{Entity: &pb.Entity{ID: &name}})
		nd.Assert(ferr != nil, "a destroyed entity cannot be fetched")
		_, aerr := w.Srv.AuthEntity(bg, &rpc.AuthRequest{Entity: &pb.Entity{ID: &name}, Secret: env.S("s" + name)})
		nd.Assert(aerr != nil, "a destroyed entity cannot authenticate")
		for _, g := range []string{"a", "b"} {
			res, merr := w.Srv.GroupMembers(bg, &rpc.GroupRequest{Group: &pb.Group{Name: env.S(g)}})
			nd.Assert(merr == nil, "members can still be listed")
			nd.Assert(!has(res.GetEntities(), name), "a destroyed entity is not listed as a member")
		}
		nd.Assert(len(w.Tree.GetMemberships(&pb.Entity{ID: &name})) == 0, "a destroyed entity has no memberships")
		return
	}
	_, ferr := w.Srv.GroupInfo(bg, &rpc.GroupRequest{Group: &pb.Group{Name: &name}})
	nd.Assert(ferr != nil, "a destroyed group cannot be fetched")
	res, _ := w.Srv.GroupMembers(bg, &rpc.GroupRequest{Group: &pb.Group{Name: &name}})
	nd.Assert(len(res.GetEntities()) == 0, "a destroyed group has no members")
	for _, id := range []string{"a", "b"} {
		ms := w.Tree.GetMemberships(&pb.Entity{ID: env.S(id)})
		in := false
		for _, m := range ms {
			nd.Assert(m != name, "nobody is a member of a destroyed group")
			in = in || m != name
		}
		// membership in the other group follows the remaining declarations
		other := "a"
		if name == "a" {
			other = "b"
		}
		nd.Assert(in == direct[id+other], "membership elsewhere no longer follows the destroyed group")
	}
}
