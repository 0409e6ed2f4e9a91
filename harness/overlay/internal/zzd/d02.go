package zzd

import (
	"context"

	"github.com/golang/protobuf/proto"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

//gosym:bounds 2 groups (thorough 3) with every acyclic graph, one entity in at most one group, recorded twice or not, and one in all; one arbitrary change, then a metadata change of an entity and a group; every listing
func VP_D02_listings() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	n := 2
	if nd.Thorough() {
		n = 3
	}
	groups(kv, graph(n), perms[0][:n])
	entities(w, kv, n, nd.Thorough())
	if nd.Bool("twice") {
		e := kv.Entity("e")
		e.Meta.Groups = append(e.Meta.Groups, "g0", "g0")
		kv.PutEntity(e)
	}
	w.Load()
	for i := 0; i < n; i++ {
		listed(w, "e", gn[i])
	}
	lists(w, "e", gn[0])
	lists(w, "f", gn[0])
	change(w, n)
	ctx := w.CtxWith("z", env.AllCaps...)
	if nd.Bool("update") {
		w.Srv.EntityUpdate(ctx, &rpc.EntityRequest{Data: &pb.Entity{ID: env.S("e"), Meta: &pb.EntityMeta{GECOS: env.S("new")}}})
		w.Srv.GroupUpdate(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: env.S("g0"), DisplayName: env.S("new")}})
	}
	for i := 0; i < n; i++ {
		for _, e := range []string{"e", "f"} {
			if kv.Group(gn[i]) != nil {
				a, b := listed(w, e, gn[i]), lists(w, e, gn[i])
				nd.Assert(a == b, "an entity is listed as a member exactly when it lists the group")
				nd.Assert(a == 0 || a == 1, "nothing is listed twice")
				if a == 1 {
					nd.Reach("listed")
				}
			}
		}
		res, err := w.Srv.GroupMembers(context.Background(), &rpc.GroupRequest{Group: &pb.Group{Name: env.S(gn[i])}})
		if err == nil {
			for _, x := range res.GetEntities() {
				want := kv.Entity(x.GetID())
				nd.Assert(want != nil, "only stored entities are listed")
				want.Secret = x.Secret
				nd.Assert(proto.Equal(want, x), "members are listed as currently stored")
			}
		}
	}
	for _, e := range []string{"e", "f"} {
		res, err := w.Srv.EntityGroups(context.Background(), &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S(e)}})
		nd.Assert(err == nil, "groups of an existing entity can be listed")
		for _, x := range res.GetGroups() {
			want := kv.Group(x.GetName())
			nd.Assert(want != nil && proto.Equal(want, x), "groups are listed as currently stored")
		}
	}
}

//gosym:bounds 12 (thorough 30) entities in one group, all or one of them recorded in 12 (30) groups that include each other in a row or not at all, none or most of the entities locked; one membership change, destruction or metadata change; every listing
func VP_D02_many() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	n := 12
	if nd.Thorough() {
		n = 30
	}
	gs, es := serial("g", n), serial("e", n)
	linked, all := nd.Bool("linked"), nd.Bool("all")
	for i := range gs {
		g := &pb.Group{Name: env.S(gs[i]), Number: env.I(int32(i + 1))}
		if linked && i+1 < n {
			g.Expansions = []string{"INCLUDE:" + gs[i+1]}
		}
		kv.PutGroup(g)
	}
	locked := nd.Bool("locked")
	for i := range es {
		in := gs[:1]
		if all || i == 0 {
			in = gs
		}
		kv.PutEntity(&pb.Entity{ID: env.S(es[i]), Number: env.I(int32(i + 1)), Meta: &pb.EntityMeta{Groups: in, Locked: env.B(locked && i%3 != 1)}})
	}
	w.Load()
	ctx := w.CtxWith("z", env.AllCaps...)
	e := &pb.Entity{ID: env.S(es[[]int{0, n / 2, n - 1}[nd.Pick("who", 3)]]), Meta: &pb.EntityMeta{Groups: []string{gs[n-1]}}}
	var err error
	switch nd.Pick("change", 5) {
	case 0:
		_, err = w.Srv.GroupAddMember(ctx, &rpc.EntityRequest{Entity: e})
	case 1:
		_, err = w.Srv.GroupDelMember(ctx, &rpc.EntityRequest{Entity: e})
	case 2:
		_, err = w.Srv.EntityDestroy(ctx, &rpc.EntityRequest{Entity: e})
	case 3:
		_, err = w.Srv.EntityUpdate(ctx, &rpc.EntityRequest{Data: &pb.Entity{ID: e.ID, Meta: &pb.EntityMeta{GECOS: env.S("new")}}})
	case 4:
		_, err = w.Srv.GroupUpdate(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: env.S(gs[n/2]), DisplayName: env.S("new")}})
	}
	if err == nil {
		nd.Reach("changed")
	}
	for i, g := range gs {
		if i > 1 && i < n-2 && i != n/2 {
			continue
		}
		res, err := w.Srv.GroupMembers(context.Background(), &rpc.GroupRequest{Group: &pb.Group{Name: env.S(g)}})
		nd.Assert(err == nil, "members of an existing group can be listed")
		for _, x := range res.GetEntities() {
			want := kv.Entity(x.GetID())
			nd.Assert(want != nil, "only stored entities are listed")
			want.Secret = x.Secret
			nd.Assert(proto.Equal(want, x), "members are listed as currently stored")
		}
		for _, id := range es {
			a := 0
			for _, x := range res.GetEntities() {
				if x.GetID() == id {
					a++
				}
			}
			if kv.Entity(id) == nil {
				nd.Assert(a == 0, "only stored entities are listed")
				continue
			}
			b := lists(w, id, g)
			nd.Assert(a == b, "an entity is listed as a member exactly when it lists the group")
			nd.Assert(a == 0 || a == 1, "nothing is listed twice")
		}
	}
}
