package zza

import (
	"context"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

// login asks for a token for e and compares its claims with the store.
func login(w *env.World, probe pb.Capability) {
	n := len(w.Tok.T)
	r, err := w.Srv.AuthGetToken(context.Background(), &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S("e")}, Secret: env.S("s")})
	e := w.KV.Entity("e")
	if e == nil || e.GetMeta().GetLocked() {
		nd.Assert(err != nil && len(w.Tok.T) == n, "no token without authentication")
		nd.Reach("no login")
		return
	}
	nd.Assert(err == nil && len(w.Tok.T) == n+1 && r.GetToken() == w.Tok.T[n], "a token is issued")
	want := false
	for _, c := range e.GetMeta().GetCapabilities() {
		want = nd.Or(want, c == probe)
	}
	in := func(g string) bool {
		for _, x := range e.GetMeta().GetGroups() {
			if x == g {
				return w.KV.Group(g) != nil
			}
		}
		return false
	}
	g0, g1 := in("g0"), in("g1")
	for _, x := range w.KV.Group("g0").GetExpansions() {
		switch x {
		case "INCLUDE:g1":
			g0 = g0 || g1
		case "EXCLUDE:g1":
			g0 = g0 && !g1
		}
	}
	add := func(g string, is bool) {
		if is {
			for _, c := range w.KV.Group(g).GetCapabilities() {
				want = nd.Or(want, c == probe)
			}
		}
	}
	add("g0", g0)
	add("g1", g1)
	got := false
	for _, c := range w.Tok.C[n].Capabilities {
		got = nd.Or(got, c == probe)
	}
	nd.Assert(w.Tok.C[n].EntityID == "e", "the token names the authenticated entity")
	nd.Assert(got == want, "the token carries exactly the capabilities held at the time of the login")
}

//gosym:bounds an entity in at most one of two groups, each with a capability, the first with an include rule, an exclude rule or none for the second, or a third capability of its own; a login, one change (thorough: two, with logins between) of capabilities, memberships, rules, lock or existence, and another login, all for any capability
func VP_A03_history() {
	w := env.NewWorld(env.NewStore())
	e := &pb.Entity{ID: env.S("e"), Number: env.I(1), Secret: env.S(w.Cr.Seed("s")), Meta: &pb.EntityMeta{}}
	if nd.Bool("own") {
		e.Meta.Capabilities = []pb.Capability{pb.Capability_LOCK_ENTITY}
	}
	if i := nd.Pick("in", 3); i > 0 {
		e.Meta.Groups = []string{gname[i-1]}
	}
	w.KV.PutEntity(e)
	g0 := &pb.Group{Name: env.S("g0"), Number: env.I(1), Capabilities: []pb.Capability{pb.Capability_CREATE_GROUP}}
	switch nd.Pick("rule", 3) {
	case 1:
		g0.Expansions = []string{"INCLUDE:g1"}
	case 2:
		g0.Expansions = []string{"EXCLUDE:g1"}
	}
	w.KV.PutGroup(g0)
	w.KV.PutGroup(&pb.Group{Name: env.S("g1"), Number: env.I(2), Capabilities: []pb.Capability{pb.Capability_CREATE_ENTITY}})
	w.Load()
	probe := env.SymCap("probe")
	ctx := w.CtxWith("z", pb.Capability_GLOBAL_ROOT)
	login(w, probe)
	k := 1
	if nd.Thorough() {
		k = 2
	}
	for i := 0; i < k; i++ {
		var err error
		switch nd.Choose("change", "capability", "join", "leave", "rule", "destroy group", "destroy entity", "lock") {
		case "capability":
			c := []pb.Capability{pb.Capability_LOCK_ENTITY, pb.Capability_CREATE_GROUP, pb.Capability_GLOBAL_ROOT}[nd.Pick("c", 3)]
			direct := nd.Bool("direct")
			t := "e"
			if !direct {
				t = gname[nd.Pick("g", 2)]
			}
			act := rpc.Action_ADD
			if nd.Bool("drop") {
				act = rpc.Action_DROP
			}
			_, err = w.Srv.SystemCapabilities(ctx, &rpc.CapabilityRequest{Direct: &direct, Target: &t, Capability: &c, Action: &act})
		case "join":
			_, err = w.Srv.GroupAddMember(ctx, &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("e"), Meta: &pb.EntityMeta{Groups: []string{gname[nd.Pick("g", 2)]}}}})
		case "leave":
			_, err = w.Srv.GroupDelMember(ctx, &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("e"), Meta: &pb.EntityMeta{Groups: []string{gname[nd.Pick("g", 2)]}}}})
		case "rule":
			act := []rpc.RuleAction{rpc.RuleAction_INCLUDE, rpc.RuleAction_EXCLUDE, rpc.RuleAction_REMOVE_RULE}[nd.Pick("action", 3)]
			_, err = w.Srv.GroupUpdateRules(ctx, &rpc.GroupRulesRequest{Group: &pb.Group{Name: env.S("g0")}, Target: &pb.Group{Name: env.S("g1")}, RuleAction: &act})
		case "destroy group":
			_, err = w.Srv.GroupDestroy(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: env.S(gname[nd.Pick("g", 2)])}})
		case "destroy entity":
			_, err = w.Srv.EntityDestroy(ctx, &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("e")}})
		case "lock":
			_, err = w.Srv.EntityLock(ctx, &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("e")}})
		}
		if err == nil {
			nd.Reach("changed")
		}
		login(w, probe)
	}
}
