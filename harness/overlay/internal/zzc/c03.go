package zzc

import (
	"github.com/golang/protobuf/proto"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

func opt(l string) *string {
	if nd.Bool(l) {
		return env.S(nd.Str(l+".v", 0, 1, "a-z"))
	}
	return nil
}

func over(dst, src *string) *string {
	if src != nil {
		return src
	}
	return dst
}

//gosym:bounds entity a of any kind (every field, bare, no metadata, root, odd values), locked or not, entity b; an update for a, b or a missing entity supplying any subset of the eight descriptive fields (quick: two symbolic ones at a time beside all or none of the others) with 0..1-byte values and full foreign fields
func VP_C03_update() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	seed(w, kv)
	if k := nd.Pick("kind", 2*env.Kinds); k > 0 {
		kv.PutEntity(w.Shaped(k%env.Kinds, "a", 1, "sa", k >= env.Kinds, "a"))
	} else if nd.Bool("nometa") {
		kv.PutEntity(&pb.Entity{ID: env.S("a"), Number: env.I(1), Secret: env.S("$h0")})
	}
	snap := kv.Snapshot()
	target := nd.Choose("target", "a", "b", "c")
	before := kv.Entity(target)
	m := &pb.EntityMeta{}
	fields := []**string{&m.PrimaryGroup, &m.GECOS, &m.LegalName, &m.DisplayName, &m.Home, &m.Shell, &m.GraphicalShell, &m.BadgeNumber}
	if nd.Thorough() {
		for _, f := range fields {
			*f = opt("field")
		}
	} else {
		k := nd.Pick("which", len(fields))
		rest := nd.Bool("rest")
		for i, f := range fields {
			if i == k || i == (k+1)%len(fields) {
				*f = opt("field")
			} else if rest {
				*f = env.S("r")
			}
		}
	}
	want := before
	if want != nil {
		if want.Meta == nil {
			want.Meta = &pb.EntityMeta{}
		}
		x := want.Meta
		x.PrimaryGroup, x.GECOS, x.LegalName, x.DisplayName = over(x.PrimaryGroup, m.PrimaryGroup), over(x.GECOS, m.GECOS), over(x.LegalName, m.LegalName), over(x.DisplayName, m.DisplayName)
		x.Home, x.Shell, x.GraphicalShell, x.BadgeNumber = over(x.Home, m.Home), over(x.Shell, m.Shell), over(x.GraphicalShell, m.GraphicalShell), over(x.BadgeNumber, m.BadgeNumber)
	}
	d := &pb.Entity{ID: &target, Meta: m}
	if nd.Bool("foreign") {
		d.Number, d.Secret = env.I(99), env.S("stolen")
		m.Locked, m.Groups, m.Capabilities = env.B(true), []string{"b"}, env.AllCaps
		m.Keys, m.UntypedMeta, m.KV = []string{"SSH:evil"}, []string{"evil:1", "k:2"}, []*pb.KVData{kvd("k", "2"), kvd("evil", "1")}
	}
	_, err := w.Srv.EntityUpdate(w.CtxWith("z", pb.Capability_MODIFY_ENTITY_META), &rpc.EntityRequest{Data: d})
	nd.NoteBool("ok", err == nil)
	if target == "c" {
		nd.Reach("missing")
		nd.Assert(err != nil && kv.Same(snap), "updating a missing entity fails and changes nothing")
		return
	}
	nd.Reach("updated")
	nd.Assert(err == nil, "updating an entity succeeds")
	nd.Assert(kv.SameBut(snap, "/entities/"+target), "only the named entity is touched")
	got := kv.Entity(target)
	nd.Assert(got != nil, "the entity remains stored")
	if got.Meta == nil {
		got.Meta = &pb.EntityMeta{}
	}
	nd.Assert(proto.Equal(got, want), "exactly the supplied descriptive fields change")
}

//gosym:bounds group a of any kind (every field, bare, root, odd values; managed by itself, a missing group or none), group b; an update for a, b or a missing group supplying any subset of display name and managing group with 0..1-byte values, with or without foreign fields
func VP_C04_update() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	seed(w, kv)
	if k := nd.Pick("kind", env.Kinds); k > 0 {
		kv.PutGroup(env.ShapedGroup(k, "a", 1, nd.Choose("manager", "", "a", "x")))
	}
	snap := kv.Snapshot()
	target := nd.Choose("target", "a", "b", "c")
	d := &pb.Group{Name: &target, DisplayName: opt("dn"), ManagedBy: opt("mb")}
	want := kv.Group(target)
	if want != nil {
		want.DisplayName, want.ManagedBy = over(want.DisplayName, d.DisplayName), over(want.ManagedBy, d.ManagedBy)
	}
	if nd.Bool("foreign") {
		d.Number, d.Capabilities, d.Expansions, d.UntypedMeta = env.I(99), env.AllCaps, []string{"INCLUDE:a"}, []string{"evil:1", "k:2"}
		d.KV = []*pb.KVData{kvd("k", "2"), kvd("evil", "1")}
	}
	_, err := w.Srv.GroupUpdate(w.CtxWith("z", pb.Capability_MODIFY_GROUP_META), &rpc.GroupRequest{Group: d})
	nd.NoteBool("ok", err == nil)
	if target == "c" {
		nd.Reach("missing")
		nd.Assert(err != nil && kv.Same(snap), "updating a missing group fails and changes nothing")
		return
	}
	nd.Reach("updated")
	nd.Assert(err == nil, "updating a group succeeds")
	nd.Assert(kv.SameBut(snap, "/groups/"+target), "only the named group is touched")
	nd.Assert(proto.Equal(kv.Group(target), want), "exactly the supplied fields change")
}

//gosym:bounds an update that sets one of the eight descriptive fields to any of 31 strange texts (blanks around it, lines, quotes, not UTF-8, up to 2100 bytes), over no value, another one, or one differing only at its end, beside another field set as strangely or not
func VP_C03_strange() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	e := fullEntity("a", 1, "$h")
	e.Meta.PrimaryGroup, e.Meta.GECOS = nil, env.S(env.Strange[28])
	kv.PutEntity(e)
	w.Load()
	m := &pb.EntityMeta{}
	k := nd.Pick("field", 8)
	v := env.Strange[nd.Pick("value", len(env.Strange))]
	fields := func(m *pb.EntityMeta) []**string {
		return []**string{&m.PrimaryGroup, &m.GECOS, &m.LegalName, &m.DisplayName, &m.Home, &m.Shell, &m.GraphicalShell, &m.BadgeNumber}
	}
	*fields(m)[k], *fields(e.Meta)[k] = &v, &v
	if nd.Bool("two") {
		*fields(m)[(k+3)%8], *fields(e.Meta)[(k+3)%8] = &v, &v
	}
	_, err := w.Srv.EntityUpdate(w.CtxWith("z", pb.Capability_MODIFY_ENTITY_META), &rpc.EntityRequest{Data: &pb.Entity{ID: env.S("a"), Meta: m}})
	nd.Assert(err == nil, "updating an entity succeeds")
	nd.Reach("updated")
	nd.Assert(proto.Equal(kv.Entity("a"), e), "exactly the supplied descriptive fields change")
}

//gosym:bounds an update that sets display name, managing group or both to any of 31 strange texts (blanks around it, lines, quotes, not UTF-8, up to 2100 bytes), over no value or one differing only at its end
func VP_C04_strange() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	g := env.ShapedGroup(1, "a", 1, "")
	if nd.Bool("old") {
		g.DisplayName, g.ManagedBy = env.S(env.Strange[28]), env.S(env.Strange[28])
	}
	kv.PutGroup(g)
	w.Load()
	d := &pb.Group{Name: env.S("a")}
	v := env.Strange[nd.Pick("value", len(env.Strange))]
	k := nd.Pick("fields", 3)
	if k != 0 {
		d.DisplayName, g.DisplayName = &v, &v
	}
	if k != 1 {
		d.ManagedBy, g.ManagedBy = &v, &v
	}
	_, err := w.Srv.GroupUpdate(w.CtxWith("z", pb.Capability_MODIFY_GROUP_META), &rpc.GroupRequest{Group: d})
	nd.Assert(err == nil, "updating a group succeeds")
	nd.Reach("updated")
	nd.Assert(proto.Equal(kv.Group("a"), g), "exactly the supplied fields change")
}
