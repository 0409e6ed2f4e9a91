package zzd

import (
	"context"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

// answers collects what a server says about everything.
func answers(w *env.World, n int, es ...string) string {
	bg := context.Background()
	out := ""
	bit := func(b bool) {
		if b {
			out += "1"
		} else {
			out += "0"
		}
	}
	for _, e := range es {
		for _, s := range []string{"se", "sf", "sn"} {
			_, err := w.Srv.AuthEntity(bg, &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S(e)}, Secret: env.S(s)})
			bit(err == nil)
		}
		for i := 0; i < n; i++ {
			bit(listed(w, e, gn[i]) > 0)
			bit(lists(w, e, gn[i]) > 0)
		}
		out += "/"
		t := len(w.Tok.T)
		w.Srv.AuthGetToken(bg, &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S(e)}, Secret: env.S("s" + e)})
		for _, c := range env.AllCaps {
			if len(w.Tok.T) > t {
				has := false
				for _, x := range w.Tok.C[t].Capabilities {
					has = has || x == c
				}
				bit(has)
			}
		}
		w.Tok.T, w.Tok.C, w.Tok.Cfg = w.Tok.T[:t], w.Tok.C[:t], w.Tok.Cfg[:t]
		out += "|"
	}
	return out
}

// shuffle reorders the store's enumeration.
func shuffle(kv *env.Store) {
	k := 1
	if nd.Thorough() {
		k = nd.Pick("enumeration", 3)
	}
	switch k {
	case 1:
		for i, j := 0, len(kv.K)-1; i < j; i, j = i+1, j-1 {
			kv.K[i], kv.K[j] = kv.K[j], kv.K[i]
			kv.V[i], kv.V[j] = kv.V[j], kv.V[i]
		}
	case 2:
		kv.K = append(kv.K[1:], kv.K[0])
		kv.V = append(kv.V[1:], kv.V[0])
	}
}

//gosym:bounds 3 groups with every acyclic graph, one entity in at most one group and one in all; one (thorough two) membership, rule or group changes; restart with the store enumerated in reverse (thorough: also as it was or rotated)
//gosym:weight 2
func VP_D05_groups() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	groups(kv, graph(3), perms[0])
	entities(w, kv, 3, nd.Thorough())
	w.Load()
	answers(w, 3, "e", "f") // whatever is remembered of these must not stay
	k := 1
	if nd.Thorough() {
		k = 2
	}
	for i := 0; i < k; i++ {
		if change(w, 3) == nil {
			nd.Reach("changed")
		}
	}
	before := answers(w, 3, "e", "f")
	shuffle(kv)
	w.Boot()
	w.Load()
	after := answers(w, 3, "e", "f")
	nd.Note("answers", after)
	nd.Assert(before == after, "a restarted server gives the same answers")
}

//gosym:bounds 2 groups with every acyclic graph; one request (thorough two) of any mutating kind with full contents for e, f, or a new entity or group; restart
func VP_D05_requests() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	groups(kv, graph(2), perms[0][:2])
	entities(w, kv, 2, false)
	w.Load()
	answers(w, 2, "e", "f", "n")
	k := 1
	if nd.Thorough() {
		k = 2
	}
	for i := 0; i < k; i++ {
		name := func(l string) string {
			if l == "entity.id" || l == "target" {
				return nd.Choose(l, "e", "n", "g0")
			}
			return nd.Choose(l, "g0", "g1", "n")
		}
		r := w.AnyOf(env.MutatingRPCs, &env.Gen{Name: name, Text: func(l string) string { return "sn" }, Shapes: 1, NoKV: true})
		if _, err := r.Call(w.CtxWith("z", env.AllCaps...)); err == nil {
			nd.Reach("changed")
		}
	}
	before := answers(w, 2, "e", "f", "n")
	w.Boot()
	w.Load()
	nd.Assert(before == answers(w, 2, "e", "f", "n"), "a restarted server gives the same answers")
}

//gosym:bounds 2 entities and 2 groups with names that differ in case, by a trailing space, a prefix only a leading or trailing dot, or after 60 characters, or have a colon; any membership of the first and any rule between the groups; one membership, rule, lock, metadata or secret change or destruction through the server; restart
func VP_D05_names() {
	w := env.NewWorld(env.NewStore())
	kv := w.KV
	ns := [][]string{{"a", "A"}, {"a", "a "}, {"aa", "a"}, {long + "0", long + "1"}, {"a:b", "INCLUDE"}, {".a", "a"}, {"a.", "a.dat"}}[nd.Pick("names", 7)]
	for i := 0; i < 2; i++ {
		g := &pb.Group{Name: env.S(ns[i]), Number: env.I(int32(i + 1)), Capabilities: []pb.Capability{env.AllCaps[i+1]}}
		if i == 0 && nd.Bool("rule") {
			g.Expansions = []string{"INCLUDE:" + ns[1]}
		}
		kv.PutGroup(g)
		e := &pb.Entity{ID: env.S(ns[i]), Number: env.I(int32(i + 1)), Secret: env.S(w.Cr.Seed("s" + ns[i])), Meta: &pb.EntityMeta{}}
		if k := nd.Pick("in", 3); k > 0 {
			e.Meta.Groups = []string{ns[k-1]}
		}
		kv.PutEntity(e)
	}
	w.Load()
	nameAnswers(w, ns)
	ctx := w.CtxWith("z", env.AllCaps...)
	a, b := ns[nd.Pick("who", 2)], ns[nd.Pick("group", 2)]
	e := &pb.Entity{ID: env.S(a), Meta: &pb.EntityMeta{Groups: []string{b}}}
	act := rpc.RuleAction_EXCLUDE
	var err error
	switch nd.Pick("change", 7) {
	case 0:
		_, err = w.Srv.GroupAddMember(ctx, &rpc.EntityRequest{Entity: e})
	case 1:
		_, err = w.Srv.GroupDelMember(ctx, &rpc.EntityRequest{Entity: e})
	case 2:
		_, err = w.Srv.EntityLock(ctx, &rpc.EntityRequest{Entity: e})
	case 3:
		_, err = w.Srv.EntityDestroy(ctx, &rpc.EntityRequest{Entity: e})
	case 4:
		_, err = w.Srv.GroupUpdateRules(ctx, &rpc.GroupRulesRequest{Group: &pb.Group{Name: &a}, Target: &pb.Group{Name: &b}, RuleAction: &act})
	case 5:
		_, err = w.Srv.AuthChangeSecret(ctx, &rpc.AuthRequest{Entity: e, Secret: env.S("s" + b)})
	case 6:
		_, err = w.Srv.GroupDestroy(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: &b}})
	}
	if err == nil {
		nd.Reach("changed")
	}
	before := nameAnswers(w, ns)
	w.Boot()
	w.Load()
	nd.Assert(before == nameAnswers(w, ns), "a restarted server gives the same answers")
}

func nameAnswers(w *env.World, ns []string) string {
	out := ""
	bit := func(b bool) {
		if b {
			out += "1"
		} else {
			out += "0"
		}
	}
	for _, e := range ns {
		for _, n := range ns {
			bit(listed(w, e, n) > 0)
			bit(lists(w, e, n) > 0)
			t := len(w.Tok.T)
			_, err := w.Srv.AuthGetToken(context.Background(), &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S(e)}, Secret: env.S("s" + n)})
			bit(err == nil)
			for _, c := range env.AllCaps {
				has := false
				if len(w.Tok.T) > t {
					for _, x := range w.Tok.C[t].Capabilities {
						has = has || x == c
					}
				}
				bit(has)
			}
			w.Tok.T, w.Tok.C, w.Tok.Cfg = w.Tok.T[:t], w.Tok.C[:t], w.Tok.Cfg[:t]
		}
		out += "|"
	}
	return out
}

//gosym:bounds a restart over 2 entities and 2 groups with any rule between them, when any one of the first 16 accesses of the store fails, or none
func VP_D05_preload() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	groups(kv, graph(2), perms[0][:2])
	entities(w, kv, 2, false)
	w.Load()
	before := answers(w, 2, "e", "f")
	kv.N, kv.FailAt, kv.Failed = 0, nd.Pick("fault", 16), ""
	w.Boot()
	err := w.DB.EventUpdateAll()
	failed := kv.Failed
	kv.FailAt = -1
	nd.Note("failed", failed)
	if failed == "keys" {
		nd.Reach("not enumerated")
		nd.Assert(err != nil, "a server that cannot enumerate its store does not start")
		return
	}
	if failed == "" && err == nil {
		nd.Reach("started")
		nd.Assert(before == answers(w, 2, "e", "f"), "a restarted server gives the same answers")
	}
}

//gosym:bounds a row of 12 (thorough 30) groups that include each other, 12 (30) entities each in one of them; one change of a membership, rule, group or entity at either end or the middle; restart with the store enumerated in reverse
func VP_D05_many() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	n := 12
	if nd.Thorough() {
		n = 30
	}
	gs, es := serial("g", n), serial("e", n)
	for i := range gs {
		g := &pb.Group{Name: env.S(gs[i]), Number: env.I(int32(i + 1)), Capabilities: []pb.Capability{env.AllCaps[i%len(env.AllCaps)]}}
		if i+1 < n {
			g.Expansions = []string{"INCLUDE:" + gs[i+1]}
		}
		kv.PutGroup(g)
		kv.PutEntity(&pb.Entity{ID: env.S(es[i]), Number: env.I(int32(i + 1)), Meta: &pb.EntityMeta{Groups: []string{gs[i]}}})
	}
	w.Load()
	all := func() (out string) {
		for _, e := range []string{es[0], es[n/2], es[n-1]} {
			for _, g := range gs {
				if lists(w, e, g) > 0 {
					out += "1"
				} else {
					out += "0"
				}
				if listed(w, e, g) > 0 {
					out += "1"
				} else {
					out += "0"
				}
			}
		}
		return out
	}
	all()
	ctx := w.CtxWith("z", env.AllCaps...)
	at := []int{0, n / 2, n - 1}[nd.Pick("at", 3)]
	e := &pb.Entity{ID: env.S(es[n-1]), Meta: &pb.EntityMeta{Groups: []string{gs[at]}}}
	act := rpc.RuleAction_REMOVE_RULE
	var err error
	switch nd.Pick("change", 5) {
	case 0:
		_, err = w.Srv.GroupAddMember(ctx, &rpc.EntityRequest{Entity: e})
	case 1:
		_, err = w.Srv.GroupDelMember(ctx, &rpc.EntityRequest{Entity: e})
	case 2:
		_, err = w.Srv.EntityDestroy(ctx, &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S(es[at])}})
	case 3:
		_, err = w.Srv.GroupDestroy(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: env.S(gs[at])}})
	case 4:
		_, err = w.Srv.GroupUpdateRules(ctx, &rpc.GroupRulesRequest{Group: &pb.Group{Name: env.S(gs[at])}, Target: &pb.Group{Name: env.S(gs[(at+1)%n])}, RuleAction: &act})
	}
	if err == nil {
		nd.Reach("changed")
	}
	before := all()
	shuffle(kv)
	w.Boot()
	w.Load()
	nd.Assert(before == all(), "a restarted server gives the same answers")
}
