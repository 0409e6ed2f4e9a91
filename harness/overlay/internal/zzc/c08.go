package zzc

import (
	"context"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

// odd is any name over letters, slashes and dots.
func odd(l string) string {
	if nd.Thorough() {
		return nd.Str(l, 0, 3, "ab/.*")
	}
	return nd.Str(l, 0, 2, "ab/.")
}

var reaching = []string{"../groups/a", "../entities/a", "./a", "b/../a", "a/", "/a", "../../entities/a", "..", "a/b",
	"a\t", "a\n", "\ta", "a ", " a", "A", "a\x00", "a%2f", "a{1}", "*", "?", "[a]", "[ab]", "\\a", "a:", "a.", "%61", "\u0430", "a\u200b"}

//gosym:bounds entities and groups a and b with every field set; every mutating request naming any name of 0..2 (thorough 3) bytes over letters a, b, slash and dot or one of the listed names that resolve to other objects; root
//gosym:weight 3
func VP_C08_frame() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	seed(w, kv)
	name := ""
	if k := nd.Pick("reaching", len(reaching)+1); k < len(reaching) {
		name = reaching[k]
	} else {
		name = odd("name")
	}
	snap := kv.Snapshot()
	// the first name is the target, others are unremarkable
	first := true
	r := w.AnyOf(env.MutatingRPCs, &env.Gen{Name: func(l string) string {
		if first {
			first = false
			return name
		}
		return "b"
	}, Text: func(string) string { return "k" }, Shapes: 1})
	_, err := r.Call(w.CtxWith("z", env.AllCaps...))
	nd.NoteBool("ok", err == nil)
	if err == nil {
		nd.Reach("done")
	} else {
		nd.Reach("refused")
		nd.Assert(kv.Same(snap), "a refused request changes nothing")
	}
	key := r.Key()
	if r.Name == "GroupAddMember" || r.Name == "GroupDelMember" {
		key = "/entities/" + r.Target
	}
	nd.Assert(kv.SameBut(snap, key), "only the object named changes")
	if !kv.Same(snap) {
		nd.Reach("changed")
		// what is stored under the name is the named object
		if key[1] == 'e' {
			e := kv.Entity(name)
			nd.Assert(e == nil || e.GetID() == name, "an entity is stored under its own name")
		} else {
			g := kv.Group(name)
			nd.Assert(g == nil || g.GetName() == name, "a group is stored under its own name")
		}
	}
}

//gosym:bounds as VP_C08_frame for every reading request; what is returned is the object of exactly that name or nothing
func VP_C08_reads() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	seed(w, kv)
	name := ""
	if k := nd.Pick("reaching", len(reaching)+1); k < len(reaching) {
		name = reaching[k]
	} else {
		name = odd("name")
	}
	snap := kv.Snapshot()
	exact := nd.Or(name == "a", name == "b")
	e := &rpc.EntityRequest{Entity: &pb.Entity{ID: &name}}
	g := &rpc.GroupRequest{Group: &pb.Group{Name: &name}}
	act := rpc.Action_READ
	um := &rpc.KVRequest{Target: &name, Action: &act, Key: env.S("*")}
	k2 := &rpc.KV2Request{Target: &name, Data: &pb.KVData{Key: env.S("*")}}
	ctx := context.Background()
	var err error
	switch nd.Pick("read", 9) {
	case 0:
		var res *rpc.ListOfEntities
		res, err = w.Srv.EntityInfo(ctx, e)
		nd.Assert(err != nil || len(res.GetEntities()) == 1 && res.GetEntities()[0].GetID() == name, "the entity returned is the one named")
	case 1:
		var res *rpc.ListOfGroups
		res, err = w.Srv.GroupInfo(ctx, g)
		nd.Assert(err != nil || len(res.GetGroups()) >= 1 && res.GetGroups()[0].GetName() == name, "the group returned is the one named")
	case 2:
		_, err = w.Srv.EntityKeys(ctx, &rpc.KVRequest{Target: &name, Action: &act})
	case 3:
		_, err = w.Srv.EntityUM(ctx, um)
	case 4:
		_, err = w.Srv.GroupUM(ctx, um)
	case 5:
		_, err = w.Srv.EntityKVGet(ctx, k2)
	case 6:
		_, err = w.Srv.GroupKVGet(ctx, k2)
	case 7:
		_, err = w.Srv.AuthEntity(ctx, &rpc.AuthRequest{Entity: &pb.Entity{ID: &name}, Secret: env.S(nd.Choose("secret", "sa", "sb"))})
	case 8:
		_, err = w.Srv.EntityGroups(ctx, e)
	}
	nd.NoteBool("ok", err == nil)
	if err == nil {
		nd.Reach("answered")
	} else {
		nd.Reach("refused")
	}
	nd.Assert(exact || err != nil, "a name that no object has yields nothing")
	nd.Assert(kv.Same(snap), "a read changes nothing")
}
