package zzb

import (
	"context"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

func membersCall(w *env.World, name string, ctx context.Context, e *pb.Entity) error {
	if name == "GroupAddMember" {
		_, err := w.Srv.GroupAddMember(ctx, &rpc.EntityRequest{Entity: e})
		return err
	}
	_, err := w.Srv.GroupDelMember(ctx, &rpc.EntityRequest{Entity: e})
	return err
}

//gosym:bounds 2 groups whose managing group is symbolic (first: none, a, b, missing c; second: none or a, thorough: any), entity a in at most one group (thorough: any), b in none; the managing group may include the other group; every group-changing request with 1-byte symbolic names by a or b with a symbolic irrelevant capability or an invalid token
//gosym:weight 2
func VP_B03_delegation() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	s := setup{in: map[string]bool{}, managed: map[string]string{}}
	if nd.Thorough() {
		s.in["a"], s.in["b"] = nd.Bool("in.a"), nd.Bool("in.b")
		s.managed["a"], s.managed["b"] = nd.Choose("mgr.a", "", "a", "b", "c"), nd.Choose("mgr.b", "", "a", "b")
	} else {
		// at most one direct membership
		switch nd.Pick("in", 3) {
		case 1:
			s.in["a"] = true
		case 2:
			s.in["b"] = true
		}
		s.managed["a"] = nd.Choose("mgr.a", "", "a", "b", "c")
		if nd.Bool("mgr.b") {
			s.managed["b"] = "a"
		}
	}
	seed(w, kv, s)
	incl := nd.Bool("a includes b")
	if incl {
		g := kv.Group("a")
		g.Expansions = []string{"INCLUDE:b"}
		kv.PutGroup(g)
		w.Load()
	}
	snap := kv.Snapshot()
	rid := nd.Choose("requester", "a", "b")
	valid := rid == "b" || nd.Bool("valid")
	ctx := env.Ctx("bogus")
	if valid {
		cap := env.SymCap("cap")
		nd.Assume(cap != pb.Capability_GLOBAL_ROOT && cap != pb.Capability_MODIFY_GROUP_META && cap != pb.Capability_MODIFY_GROUP_MEMBERS &&
			cap != pb.Capability_CREATE_GROUP && cap != pb.Capability_DESTROY_GROUP)
		ctx = w.CtxWith(rid, cap)
	}
	names := []string{"GroupUpdate", "GroupUM", "GroupUpdateRules", "GroupAddMember", "GroupDelMember", "GroupCreate", "GroupDestroy", "GroupKVDel", "SystemCapabilities"}
	if nd.Thorough() {
		names = append(names, "GroupKVAdd", "GroupKVReplace")
	}
	r := w.AnyOf(names, &env.Gen{Name: nameAC, Text: func(string) string { return "k" }, Shapes: 1, NoKV: true})
	// for membership requests the groups named are what matters
	target := r.Target
	if r.Name == "GroupAddMember" || r.Name == "GroupDelMember" {
		target = r.Targets[0]
	}
	_, err := r.Call(ctx)
	nd.NoteBool("ok", err == nil)
	memberOf := func(g string) bool {
		switch g {
		case "a":
			return s.in["a"] || incl && s.in["b"]
		case "b":
			return s.in["b"]
		}
		return false
	}
	entitled := false
	if rid == "a" && valid && delegable(r.Name) {
		for _, g := range []string{"a", "b"} {
			if s.managed[g] != "" && memberOf(s.managed[g]) {
				entitled = nd.Or(entitled, target == g)
			}
		}
	}
	if entitled {
		nd.Reach("entitled")
		if err != nil {
			nd.Assert(!unqualified(err), "a delegated manager needs no further capability")
		} else {
			nd.Reach("done")
		}
		return
	}
	nd.Reach("not entitled")
	nd.Assert(kv.Same(snap), "nobody gains authority over a group without managing it")
	if r.Mut {
		nd.Assert(err != nil, "a request without authority is refused")
	}
}

//gosym:bounds a group managed by the first of a row of 2, 5 or 13 (thorough also 30) groups that include each other or where one at the start, middle or end excludes the next, an entity in any of three of them or none; every delegable request by it without capability
func VP_B03_deep() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	sizes := []int{2, 5, 13}
	if nd.Thorough() {
		sizes = append(sizes, 30)
	}
	n := sizes[nd.Pick("n", len(sizes))]
	cut := []int{-1, 0, n / 2, n - 2}[nd.Pick("excludes", 4)]
	at := []int{-1, 0, n / 2, n - 1}[nd.Pick("in", 4)]
	name := func(i int) string { return "m" + string([]byte{byte('a' + i)}) }
	for i := 0; i < n; i++ {
		g := &pb.Group{Name: env.S(name(i)), Number: env.I(int32(i + 10))}
		if i+1 < n {
			g.Expansions = []string{"INCLUDE:" + name(i+1)}
			if i == cut {
				g.Expansions = []string{"EXCLUDE:" + name(i+1)}
			}
		}
		kv.PutGroup(g)
	}
	kv.PutGroup(&pb.Group{Name: env.S("a"), Number: env.I(1), ManagedBy: env.S(name(0))})
	kv.PutGroup(&pb.Group{Name: env.S("b"), Number: env.I(2)})
	e := &pb.Entity{ID: env.S("a"), Number: env.I(1), Meta: &pb.EntityMeta{}}
	if at >= 0 {
		e.Meta.Groups = []string{name(at)}
	}
	kv.PutEntity(e)
	kv.PutEntity(&pb.Entity{ID: env.S("b"), Number: env.I(2)})
	w.Load()
	snap := kv.Snapshot()
	r := w.AnyOf([]string{"GroupUpdate", "GroupUM", "GroupUpdateRules", "GroupAddMember", "GroupDelMember"},
		&env.Gen{Name: func(l string) string { return nd.Choose(l, "a", "b") }, Text: func(string) string { return "k" }, Shapes: 1, NoKV: true})
	target := r.Target
	if r.Name == "GroupAddMember" || r.Name == "GroupDelMember" {
		target = r.Targets[0]
	}
	_, err := r.Call(w.CtxWith("a"))
	// members of a later group belong to the first if nothing between excludes
	member := at >= 0 && !(cut >= 0 && cut < at)
	if member && target == "a" {
		nd.Reach("entitled")
		nd.Assert(err == nil || !unqualified(err), "a delegated manager needs no further capability")
		return
	}
	nd.Reach("not entitled")
	nd.Assert((err != nil || !r.Mut) && kv.Same(snap), "nobody gains authority over a group without managing it")
}

//gosym:bounds three (thorough four) groups, each managed by any of them or none, none including another; an entity that is a direct member of one of them or none; every delegable request by it on any of them, without capability
//gosym:weight 2
func VP_B03_chain() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	n := 3
	if nd.Thorough() {
		n = 4
	}
	names := []string{"a", "b", "c", "d"}[:n]
	mgr := make([]int, n)
	for i := range names {
		g := &pb.Group{Name: env.S(names[i]), Number: env.I(int32(i + 1)), UntypedMeta: []string{"k:v"}}
		mgr[i] = nd.Pick("manager", n+1) - 1
		if mgr[i] >= 0 {
			g.ManagedBy = env.S(names[mgr[i]])
		}
		kv.PutGroup(g)
	}
	in := nd.Pick("in", n+1) - 1
	e := &pb.Entity{ID: env.S("a"), Number: env.I(1), Meta: &pb.EntityMeta{}}
	if in >= 0 {
		e.Meta.Groups = []string{names[in]}
	}
	kv.PutEntity(e)
	kv.PutEntity(&pb.Entity{ID: env.S("x"), Number: env.I(2)})
	w.Load()
	snap := kv.Snapshot()
	t := nd.Pick("target", n)
	target := names[t]
	ctx := w.CtxWith("a")
	var err error
	switch nd.Pick("request", 4) {
	case 0:
		_, err = w.Srv.GroupUpdate(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: &target, DisplayName: env.S("n")}})
	case 1:
		_, err = w.Srv.GroupUM(ctx, &rpc.KVRequest{Target: &target, Action: actionOf(rpc.Action_UPSERT), Key: env.S("k"), Value: env.S("n")})
	case 2:
		rule := rpc.RuleAction_INCLUDE
		_, err = w.Srv.GroupUpdateRules(ctx, &rpc.GroupRulesRequest{Group: &pb.Group{Name: &target}, Target: &pb.Group{Name: &names[(t+1)%n]}, RuleAction: &rule})
	case 3:
		err = membersCall(w, "GroupAddMember", ctx, &pb.Entity{ID: env.S("x"), Meta: &pb.EntityMeta{Groups: []string{target}}})
	}
	if mgr[t] >= 0 && mgr[t] == in {
		nd.Reach("entitled")
		nd.Assert(err == nil, "a delegated manager needs no further capability")
		return
	}
	nd.Reach("not entitled")
	nd.Assert(err != nil && kv.Same(snap), "nobody gains authority over a group without managing it")
}

//gosym:bounds two groups whose names, and two entities whose names, are strange texts that a careless comparison would take for each other (29 texts, 16 ways); the first group manages a third; a member of either, or an entity of the name alike, changes the third
func VP_B03_strange() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	n := env.Names[nd.Pick("name", len(env.Names))]
	l := env.Alike(n)
	m := l[nd.Pick("alike", len(l))]
	nd.Assume(env.Valid(m))
	kv.PutGroup(&pb.Group{Name: env.S("g"), Number: env.I(9), ManagedBy: env.S(n)})
	kv.PutGroup(&pb.Group{Name: env.S(m), Number: env.I(2)})
	if nd.Bool("managing group stored") {
		kv.PutGroup(&pb.Group{Name: env.S(n), Number: env.I(1)})
	}
	stored := kv.Group(n) != nil
	in := nd.Pick("in", 3)
	who := []string{n, m}
	for i, id := range who {
		e := &pb.Entity{ID: env.S(id), Number: env.I(int32(i + 1)), Meta: &pb.EntityMeta{}}
		switch {
		case i == 1:
		case in == 0 && stored:
			e.Meta.Groups = []string{n}
		case in == 1:
			e.Meta.Groups = []string{m}
		}
		kv.PutEntity(e)
	}
	w.Load()
	i := nd.Pick("requester", 2)
	snap := kv.Snapshot()
	_, err := w.Srv.GroupUpdate(w.CtxWith(who[i]), &rpc.GroupRequest{Group: &pb.Group{Name: env.S("g"), DisplayName: env.S("x")}})
	want := i == 0 && in == 0 && stored
	if want {
		nd.Reach("entitled")
	} else {
		nd.Reach("not entitled")
	}
	nd.Assert((err == nil) == want, "exactly the members of the managing group are entitled")
	nd.Assert(want || kv.Same(snap), "a refused request changes nothing")
}
