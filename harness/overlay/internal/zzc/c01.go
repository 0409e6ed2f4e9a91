// Package zzc checks properties of single objects.
package zzc

import (
	"github.com/golang/protobuf/proto"

	_ "github.com/netauth/netauth/internal/tree/hooks"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

func kvd(k string, v ...string) *pb.KVData {
	d := &pb.KVData{Key: env.S(k)}
	for i := range v {
		d.Values = append(d.Values, &pb.KVValue{Value: env.S(v[i])})
	}
	return d
}

func fullEntity(id string, n int32, secret string) *pb.Entity {
	return &pb.Entity{ID: env.S(id), Number: env.I(n), Secret: env.S(secret), Meta: &pb.EntityMeta{
		PrimaryGroup: env.S("pg"), GECOS: env.S("gecos"), LegalName: env.S("ln"), DisplayName: env.S("dn"), Home: env.S("h"), Shell: env.S("sh"),
		GraphicalShell: env.S("gs"), BadgeNumber: env.S("bn"), Locked: env.B(false), Groups: []string{"a"}, Capabilities: []pb.Capability{pb.Capability_LOCK_ENTITY},
		Keys: []string{"SSH:k"}, UntypedMeta: []string{"k:v"}, KV: []*pb.KVData{kvd("k", "1")},
	}}
}

func fullGroup(name string, n int32) *pb.Group {
	return &pb.Group{Name: env.S(name), Number: env.I(n), DisplayName: env.S("dn"), ManagedBy: env.S("b"), Capabilities: []pb.Capability{pb.Capability_LOCK_ENTITY},
		UntypedMeta: []string{"k:v"}, KV: []*pb.KVData{kvd("k", "1")}}
}

func seed(w *env.World, kv *env.Store) {
	kv.PutEntity(fullEntity("a", 1, w.Cr.Seed("sa")))
	kv.PutEntity(fullEntity("b", 2, w.Cr.Seed("sb")))
	kv.PutGroup(fullGroup("a", 1))
	g := fullGroup("b", 2)
	g.Expansions = []string{"EXCLUDE:a"}
	kv.PutGroup(g)
	w.Load()
}

//gosym:bounds entities and groups a and b with every field set, or with an unreadable or empty record for a; creation of an entity or group of 0..1-byte symbolic name with symbolic number, 0..1-byte secret, managing group of 0..1 bytes; a storage fault at one of the first five accesses or none
func VP_C01_create() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	seed(w, kv)
	group := nd.Bool("group")
	switch nd.Pick("corrupt", 3) {
	case 1:
		kv.RawPut("/entities/a", []byte("\xff\xff"))
		kv.RawPut("/groups/a", []byte("\xff\xff"))
	case 2:
		kv.RawPut("/entities/a", []byte{})
		kv.RawPut("/groups/a", []byte{})
	}
	snap := kv.Snapshot()
	name := nd.Str("name", 0, 2, "a-bA .")
	num := nd.Int32("number")
	kv.FailAt = nd.Pick("fault", 6) - 1
	ctx := w.CtxWith("z", env.AllCaps...)
	if group {
		g := &pb.Group{Name: &name, Number: &num, DisplayName: env.S(nd.Choose("dn", "", "x")), ManagedBy: env.S(nd.Str("mb", 0, 1, "a-c")),
			Capabilities: env.AllCaps, Expansions: []string{"INCLUDE:b"}, UntypedMeta: []string{"x:y"}}
		_, err := w.Srv.GroupCreate(ctx, &rpc.GroupRequest{Group: g})
		exists := nd.Or(name == "a", name == "b")
		nd.NoteBool("ok", err == nil)
		if err != nil {
			nd.Reach("group refused")
			nd.Assert(kv.Same(snap), "a refused creation changes nothing")
			return
		}
		nd.Reach("group created")
		nd.Assert(!exists, "an existing group is never overwritten")
		nd.Assert(kv.SameBut(snap, "/groups/"+name), "creation touches only the new group")
		got := kv.Group(name)
		nd.Assert(got != nil && got.GetName() == name && name != "", "the new group is stored under its name")
		nd.Assert(got.GetDisplayName() == g.GetDisplayName() && got.GetManagedBy() == g.GetManagedBy(), "the new group has the requested display name and managing group")
		nd.Assert(nd.Or(num == -1, got.GetNumber() == num), "the new group has the requested number")
		nd.Assert(len(got.GetExpansions())+len(got.GetUntypedMeta())+len(got.GetKV())+len(got.GetCapabilities()) == 0, "the new group has nothing else")
		return
	}
	sec := nd.Str("secret", 0, 1, "")
	e := fullEntity(name, 0, sec)
	e.Number = &num
	_, err := w.Srv.EntityCreate(ctx, &rpc.EntityRequest{Entity: e})
	exists := nd.Or(name == "a", name == "b")
	nd.NoteBool("ok", err == nil)
	if err != nil {
		nd.Reach("entity refused")
		nd.Assert(kv.Same(snap), "a refused creation changes nothing")
		return
	}
	nd.Reach("entity created")
	nd.Assert(!exists, "an existing entity is never overwritten")
	nd.Assert(kv.SameBut(snap, "/entities/"+name), "creation touches only the new entity")
	got := kv.Entity(name)
	nd.Assert(got != nil && got.GetID() == name && name != "", "the new entity is stored under its name")
	nd.Assert(w.Cr.Opens(sec, got.GetSecret()), "the new entity has the requested secret")
	nd.Assert(nd.Or(num == -1, got.GetNumber() == num), "the new entity has the requested number")
	nd.Assert(got.Meta == nil || proto.Equal(got.Meta, &pb.EntityMeta{}), "the new entity has nothing else")
}

//gosym:bounds creation of a missing, well-formed name in a healthy store holding one other object succeeds
func VP_C01_possible() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	seed(w, kv)
	name := nd.Str("name", 1, 2, "c-e")
	num := nd.Int32("number")
	ctx := w.CtxWith("z", env.AllCaps...)
	nd.Reach("tried")
	if nd.Bool("group") {
		_, err := w.Srv.GroupCreate(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: &name, Number: &num, ManagedBy: env.S(nd.Choose("mb", "", "a"))}})
		nd.Assert(err == nil, "creating a new group succeeds")
		nd.Assert(kv.Group(name) != nil, "a created group is stored")
		_, err = w.Srv.GroupCreate(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: &name, Number: &num}})
		nd.Assert(err != nil, "creating it again fails")
		return
	}
	_, err := w.Srv.EntityCreate(ctx, &rpc.EntityRequest{Entity: &pb.Entity{ID: &name, Number: &num, Secret: env.S("x")}})
	nd.Assert(err == nil, "creating a new entity succeeds")
	nd.Assert(kv.Entity(name) != nil, "a created entity is stored")
	_, err = w.Srv.EntityCreate(ctx, &rpc.EntityRequest{Entity: &pb.Entity{ID: &name, Number: &num, Secret: env.S("x")}})
	nd.Assert(err != nil, "creating it again fails")
}

//gosym:bounds a stored entity and group and a creation of either under a name that a careless comparison would take for it (29 strange texts, 16 ways), the same name, and display name and managing group strange texts
func VP_C01_strange() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	old := env.Names[nd.Pick("name", len(env.Names))]
	alike := append([]string{old}, env.Alike(old)...)
	k := nd.Pick("alike", len(alike))
	name := alike[k]
	nd.Assume(env.Valid(name))
	kv.PutEntity(fullEntity(old, 1, w.Cr.Seed("s")))
	kv.PutGroup(fullGroup(old, 1))
	w.Load()
	snap := kv.Snapshot()
	ctx := w.CtxWith("z", env.AllCaps...)
	var err error
	group := nd.Bool("group")
	dn := env.S(env.Strange[(k*7)%len(env.Strange)])
	path := "/entities/"
	if group {
		path = "/groups/"
		_, err = w.Srv.GroupCreate(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: &name, Number: env.I(7), DisplayName: dn, ManagedBy: env.S(old)}})
	} else {
		_, err = w.Srv.EntityCreate(ctx, &rpc.EntityRequest{Entity: &pb.Entity{ID: &name, Number: env.I(7), Secret: env.S(" s")}})
	}
	nd.Assert((err == nil) == (k > 0), "creation succeeds exactly for unused names")
	if err != nil {
		nd.Reach("refused")
		nd.Assert(kv.Same(snap), "a refused creation changes nothing")
		return
	}
	nd.Reach("created")
	nd.Assert(kv.SameBut(snap, path+name), "creation touches only the new object")
	if group {
		nd.Assert(proto.Equal(kv.Group(name), &pb.Group{Name: &name, Number: env.I(7), DisplayName: dn, ManagedBy: env.S(old)}), "the new group is what was requested")
		return
	}
	got := kv.Entity(name)
	nd.Assert(got.GetID() == name && got.GetNumber() == 7 && w.Cr.Opens(" s", got.GetSecret()), "the new entity is what was requested")
}
