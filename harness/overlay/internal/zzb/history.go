package zzb

import (
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

//gosym:bounds entity a in group a which manages group b; a delegated change of b by a (first, or not), then one change that ends or keeps the delegation (leave, manager changed or cleared, rules excluding or including, groups or the entity destroyed, destroyed and created again), then the delegated change again by a or by b
func VP_B03_history() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	seed(w, kv, setup{in: map[string]bool{"a": true}, managed: map[string]string{"b": "a"}})
	g := &pb.Group{Name: env.S("c"), Number: env.I(3)}
	kv.PutGroup(g)
	e := kv.Entity("a")
	e.Meta.Groups = append(e.Meta.Groups, "c")
	kv.PutEntity(e)
	w.Load()
	root := w.CtxWith("z", pb.Capability_GLOBAL_ROOT)
	a, b := w.CtxWith("a"), w.CtxWith("b")
	manage := func(who string, d string) error {
		ctx := a
		if who == "b" {
			ctx = b
		}
		_, err := w.Srv.GroupUpdate(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: env.S("b"), DisplayName: &d}})
		return err
	}
	if nd.Bool("before") {
		nd.Assert(manage("a", "first") == nil, "a member of the managing group may change the group")
		nd.Assert(manage("b", "first") != nil, "others may not change the group")
	}
	still, exists := true, true
	mode := rpc.RuleAction_INCLUDE
	switch nd.Choose("change", "none", "leave", "leave other", "manager", "no manager", "rule", "destroy managing", "recreate managing", "recreate managed", "destroy entity", "recreate entity", "join b") {
	case "leave":
		w.Srv.GroupDelMember(root, &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("a"), Meta: &pb.EntityMeta{Groups: []string{"a"}}}})
		still = false
	case "leave other":
		w.Srv.GroupDelMember(root, &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("a"), Meta: &pb.EntityMeta{Groups: []string{"c"}}}})
	case "manager":
		m := nd.Choose("manager", "a", "b", "c")
		_, err := w.Srv.GroupUpdate(root, &rpc.GroupRequest{Group: &pb.Group{Name: env.S("b"), ManagedBy: &m}})
		nd.Assert(err == nil, "the managing group can be changed")
		still = m != "b"
	case "no manager":
		x := kv.Group("b")
		x.ManagedBy = nil
		kv.PutGroup(x)
		w.Load()
		still = false
	case "rule":
		if nd.Bool("exclude") {
			mode = rpc.RuleAction_EXCLUDE
			still = false
		}
		_, err := w.Srv.GroupUpdateRules(root, &rpc.GroupRulesRequest{Group: &pb.Group{Name: env.S("a")}, Target: &pb.Group{Name: env.S("c")}, RuleAction: &mode})
		nd.Assert(err == nil, "rules can be added")
	case "destroy managing":
		_, err := w.Srv.GroupDestroy(root, &rpc.GroupRequest{Group: &pb.Group{Name: env.S("a")}})
		nd.Assert(err == nil, "groups can be destroyed")
		still = false
	case "recreate managing":
		w.Srv.GroupDestroy(root, &rpc.GroupRequest{Group: &pb.Group{Name: env.S("a")}})
		_, err := w.Srv.GroupCreate(root, &rpc.GroupRequest{Group: &pb.Group{Name: env.S("a"), Number: env.I(-1)}})
		nd.Assert(err == nil, "groups can be created again")
		// direct memberships name the group and hold for the new one too
	case "recreate managed":
		w.Srv.GroupDestroy(root, &rpc.GroupRequest{Group: &pb.Group{Name: env.S("b")}})
		_, err := w.Srv.GroupCreate(root, &rpc.GroupRequest{Group: &pb.Group{Name: env.S("b"), Number: env.I(-1)}})
		nd.Assert(err == nil, "groups can be created again")
		still = false
	case "destroy entity":
		w.Srv.EntityDestroy(root, &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("a")}})
		still = false
	case "recreate entity":
		w.Srv.EntityDestroy(root, &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("a")}})
		_, err := w.Srv.EntityCreate(root, &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("a"), Number: env.I(-1), Secret: env.S("s")}})
		nd.Assert(err == nil, "entities can be created again")
		still = false
	case "join b":
		// entity b joins the managing group
		_, err := w.Srv.GroupAddMember(root, &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("b"), Meta: &pb.EntityMeta{Groups: []string{"a"}}}})
		nd.Assert(err == nil, "members can be added")
		exists = false
		nd.Assert(manage("b", "second") == nil, "a new member of the managing group may change the group")
	}
	snap := kv.Snapshot()
	if still {
		nd.Reach("still")
		nd.Assert(manage("a", "last") == nil, "a member of the managing group may change the group, whatever happened before")
		nd.Assert(kv.Group("b").GetDisplayName() == "last", "the change is stored")
		return
	}
	nd.Reach("ended")
	nd.Assert(manage("a", "last") != nil, "who is no longer a member of the managing group may not change the group")
	if exists {
		nd.Assert(manage("b", "last") != nil, "others may not change the group")
	}
	nd.Assert(kv.Same(snap), "a refused change leaves the group untouched")
}

//gosym:bounds any first request with full contents by a holder of root, then the same one, or (thorough: any; quick: the same or one of three) mutating request by another holder of a token with one symbolic capability or none; and the other way round
func VP_B01_history() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	seed(w, kv, setup{})
	root, z := w.CtxWith("z", pb.Capability_GLOBAL_ROOT), w.CtxWith("y")
	first := root
	if nd.Bool("unauthorized first") {
		first = z
	}
	r := w.AnyOf(env.MutatingRPCs, &env.Gen{Name: func(string) string { return "a" }, Text: func(string) string { return "n" }, Shapes: 1, NoKV: true})
	_, err := r.Call(first)
	if err != nil {
		nd.Reach("first refused")
	}
	snap := kv.Snapshot()
	if nd.Bool("same request") {
		again := root
		if first == root {
			again = z
		}
		_, err = r.Call(again)
	} else {
		names := env.MutatingRPCs
		if !nd.Thorough() {
			names = []string{r.Name, "EntityUpdate", "SystemCapabilities", "GroupAddMember"}
		}
		r = w.AnyOf(names, &env.Gen{Name: func(string) string { return "b" }, Text: func(string) string { return "m" }, Shapes: 1, NoKV: true})
		c := w.CtxWith("y", env.SymCap("cap"))
		rq := requester{valid: true, caps: w.Tok.C[len(w.Tok.C)-1].Capabilities}
		_, err = r.Call(c)
		need := r.Cap
		if r.Root {
			need = pb.Capability_GLOBAL_ROOT
		}
		if rq.holds(need) {
			nd.Reach("authorized")
			if err != nil {
				nd.Assert(!unqualified(err), "a requester holding the capability is not refused for lack of authority, whatever was asked before")
			}
			return
		}
		nd.Reach("unauthorized")
		nd.Assert(kv.Same(snap), "an unauthorized request changes nothing, whatever was asked before")
		nd.Assert(err != nil || !r.Mut, "an unauthorized request is refused, whatever was asked before")
		return
	}
	if first == root {
		nd.Reach("repeated without authority")
		nd.Assert(kv.Same(snap), "an unauthorized request changes nothing, whatever was asked before")
		nd.Assert(err != nil || !r.Mut, "an unauthorized request is refused, whatever was asked before")
	} else if err != nil {
		nd.Reach("repeated with authority")
		nd.Assert(!unqualified(err), "a requester holding the capability is not refused for lack of authority, whatever was asked before")
	}
}
