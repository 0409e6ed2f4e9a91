package zzb

import (
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

//gosym:bounds requests to add or remove a member naming 0..3 groups in any order and with repetitions, out of two the requester manages, one whose managing group he is not in, one without a managing group and a missing one; the requester holds no capability
func VP_B03_members() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	for i, g := range []string{"m", "n", "a", "b", "c", "d"} {
		x := &pb.Group{Name: env.S(g), Number: env.I(int32(i + 1))}
		switch g {
		case "a", "b":
			x.ManagedBy = env.S("m")
		case "c":
			x.ManagedBy = env.S("n")
		}
		kv.PutGroup(x)
	}
	kv.PutEntity(&pb.Entity{ID: env.S("x"), Number: env.I(1), Meta: &pb.EntityMeta{Groups: []string{"m"}}})
	kv.PutEntity(&pb.Entity{ID: env.S("y"), Number: env.I(2), Meta: &pb.EntityMeta{Groups: []string{"a", "c", "d"}}})
	w.Load()
	snap := kv.Snapshot()
	n := nd.Pick("n", 4)
	var groups []string
	managed := n > 0
	for i := 0; i < n; i++ {
		g := nd.Choose("group", "a", "b", "c", "d", "e")
		nd.Fix(g)
		groups = append(groups, g)
		managed = managed && (g == "a" || g == "b")
	}
	who := nd.Choose("requester", "x", "y")
	managed = managed && who == "x"
	add := nd.Bool("add")
	q := &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("y"), Meta: &pb.EntityMeta{Groups: groups}}}
	var err error
	if add {
		_, err = w.Srv.GroupAddMember(w.CtxWith(who), q)
	} else {
		_, err = w.Srv.GroupDelMember(w.CtxWith(who), q)
	}
	nd.NoteBool("ok", err == nil)
	if !managed {
		nd.Reach("not entitled")
		nd.Assert(kv.Same(snap), "nobody gains authority over a group without managing it")
		nd.Assert(n == 0 || err != nil, "a request without authority is refused")
		return
	}
	nd.Reach("entitled")
	nd.Assert(!unqualified(err), "a delegated manager needs no further capability")
	nd.Assert(err == nil || !add, "a delegated manager may add members")
	if err == nil && add {
		for _, g := range groups {
			in := false
			for _, h := range kv.Entity("y").GetMeta().GetGroups() {
				in = in || h == g
			}
			nd.Assert(in, "the change a delegated manager made is stored")
		}
	}
}

var alike = []string{"m", "M", "mm", "m ", " m", "m.", "M1", "n", "x"}

//gosym:bounds groups with nine names that differ by case, spaces, prefix or not at all; the requester, or one of a name that differs in case, is a member of any one of them and the group to be changed is managed by any one of them; every delegable request
func VP_B03_names() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	for i, g := range alike {
		kv.PutGroup(&pb.Group{Name: env.S(g), Number: env.I(int32(i + 2))})
	}
	in := alike[nd.Pick("member of", len(alike))]
	by := alike[nd.Pick("managed by", len(alike))]
	kv.PutGroup(&pb.Group{Name: env.S("g"), Number: env.I(1), ManagedBy: &by, DisplayName: env.S("d")})
	who := nd.Choose("member", "x", "X")
	nd.Fix(who)
	kv.PutEntity(&pb.Entity{ID: &who, Number: env.I(1), Meta: &pb.EntityMeta{Groups: []string{in}}})
	if nd.Bool("other too") {
		o := "X"
		if who == "X" {
			o = "x"
		}
		kv.PutEntity(&pb.Entity{ID: &o, Number: env.I(2), Meta: &pb.EntityMeta{}})
	}
	kv.PutEntity(&pb.Entity{ID: env.S("y"), Number: env.I(3), Meta: &pb.EntityMeta{}})
	w.Load()
	snap := kv.Snapshot()
	ctx := w.CtxWith("x")
	r := w.AnyOf([]string{"GroupUpdate", "GroupUM", "GroupUpdateRules", "GroupAddMember"},
		&env.Gen{Name: func(l string) string {
			switch l {
			case "entity.id":
				return "y"
			case "target.name":
				return "n"
			}
			return "g"
		}, Text: func(string) string { return "k" }, Shapes: 1, NoKV: true})
	_, err := r.Call(ctx)
	nd.NoteBool("ok", err == nil)
	if who == "x" && in == by {
		nd.Reach("entitled")
		nd.Assert(!unqualified(err), "a delegated manager needs no further capability")
		return
	}
	nd.Reach("not entitled")
	nd.Assert(kv.Same(snap), "nobody gains authority over a group without managing it")
	nd.Assert(err != nil || !r.Mut, "a request without authority is refused")
}
