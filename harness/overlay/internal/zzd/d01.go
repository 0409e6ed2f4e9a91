package zzd

import (
	"strings"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

func agree(w *env.World, kv *env.Store, n int) {
	for _, e := range []string{"e", "f"} {
		for i := 0; i < n; i++ {
			want := truth(kv, e, gn[i], 0)
			if want {
				nd.Reach("member")
			} else {
				nd.Reach("not a member")
			}
			if kv.Group(gn[i]) != nil {
				nd.Assert((listed(w, e, gn[i]) > 0) == want, "the member listing follows the declared semantics")
			}
			nd.Assert((lists(w, e, gn[i]) > 0) == want, "the membership listing follows the declared semantics")
		}
	}
}

var long = strings.Repeat("n", 60)

//gosym:bounds 3 groups with every acyclic include/exclude graph, stored in every order, one entity with every set of direct memberships and one in all groups, answers right after the start
func VP_D01_start() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	rules := graph(3)
	order := perms[nd.Pick("order", 6)]
	if nd.Bool("groups first") {
		groups(kv, rules, order)
		entities(w, kv, 3, true)
	} else {
		entities(w, kv, 3, false)
		groups(kv, rules, order)
	}
	w.Load()
	agree(w, kv, 3)
}

//gosym:bounds 3 groups with every acyclic include/exclude graph, one entity in at most one group (thorough: any) and one in all; one (thorough two) arbitrary changes: member added or removed, rule added or removed, group destroyed or created again
//gosym:weight 3
func VP_D01_changes() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	groups(kv, graph(3), perms[0])
	entities(w, kv, 3, nd.Thorough())
	w.Load()
	agree(w, kv, 3)
	k := 1
	if nd.Thorough() {
		k = 2
	}
	for i := 0; i < k; i++ {
		if change(w, 3) == nil {
			nd.Reach("changed")
		} else {
			nd.Reach("refused")
		}
		agree(w, kv, 3)
	}
}

//gosym:bounds 2 groups with any rule, one entity in at most one group and one in both; two (thorough three) arbitrary changes
//gosym:weight 2
func VP_D01_history() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	groups(kv, graph(2), []int{1, 0})
	entities(w, kv, 2, false)
	w.Load()
	agree(w, kv, 2)
	k := 2
	if nd.Thorough() {
		k = 3
	}
	for i := 0; i < k; i++ {
		if change(w, 2) == nil {
			nd.Reach("changed")
		}
	}
	agree(w, kv, 2)
}

//gosym:bounds two entities and two groups whose names differ in case, a leading or trailing space, a prefix only or after 60 characters, or have a colon, each entity in one of the groups or none, a rule between the groups or none, then a membership, lock or metadata change of either entity, or its destruction
func VP_D01_names() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	es := [][]string{{"a", "A"}, {"a", "a "}, {"aa", "a"}, {" a", "a"}, {long + "0", long + "1"}, {"a:b", "INCLUDE"}}[nd.Pick("names", 6)]
	gs := es
	for i := 0; i < 2; i++ {
		g := &pb.Group{Name: env.S(gs[i]), Number: env.I(int32(i + 1))}
		if i == 0 {
			switch nd.Pick("rule", 3) {
			case 1:
				g.Expansions = []string{"INCLUDE:" + gs[1]}
			case 2:
				g.Expansions = []string{"EXCLUDE:" + gs[1]}
			}
		}
		kv.PutGroup(g)
		e := &pb.Entity{ID: env.S(es[i]), Number: env.I(int32(i + 1)), Meta: &pb.EntityMeta{}}
		if k := nd.Pick("in", 3); k > 0 {
			e.Meta.Groups = []string{gs[k-1]}
		}
		kv.PutEntity(e)
	}
	w.Load()
	namesAgree(w, kv, es, gs)
	ctx := w.CtxWith("z", env.AllCaps...)
	m := &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S(es[nd.Pick("who", 2)]), Meta: &pb.EntityMeta{Groups: []string{gs[nd.Pick("group", 2)]}}}}
	switch nd.Pick("change", 4) {
	case 0:
		w.Srv.GroupAddMember(ctx, m)
	case 1:
		w.Srv.GroupDelMember(ctx, m)
	case 2:
		w.Srv.EntityLock(ctx, m)
	case 3:
		w.Srv.EntityDestroy(ctx, m)
	}
	namesAgree(w, kv, es, gs)
}

func namesAgree(w *env.World, kv *env.Store, es, gs []string) {
	for _, e := range es {
		for _, g := range gs {
			want := truth(kv, e, g, 0)
			if want {
				nd.Reach("member")
			}
			nd.Assert((listed(w, e, g) > 0) == want, "the member listing follows the declared semantics")
			if kv.Entity(e) != nil {
				nd.Assert((lists(w, e, g) > 0) == want, "the membership listing follows the declared semantics")
			}
		}
	}
}

//gosym:bounds a chain of 2, 4, 6 or 14 (thorough also 30) groups, each with a rule for the next, include rules only or exclude rules at every second, an entity in one of them or none; a membership or rule change at either end or the middle
func VP_D01_chain() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	names := serial("c", 30)
	sizes := []int{2, 4, 6, 14}
	if nd.Thorough() {
		sizes = append(sizes, 30)
	}
	n := sizes[nd.Pick("n", len(sizes))]
	excl := nd.Bool("exclude")
	back := nd.Bool("backwards")
	var gs []*pb.Group
	for i := 0; i < n; i++ {
		g := &pb.Group{Name: env.S(names[i]), Number: env.I(int32(i + 1))}
		if i+1 < n {
			if excl && i%2 == 1 {
				g.Expansions = []string{"EXCLUDE:" + names[i+1]}
			} else {
				g.Expansions = []string{"INCLUDE:" + names[i+1]}
			}
		}
		gs = append(gs, g)
	}
	for i := range gs {
		if back {
			kv.PutGroup(gs[n-1-i])
		} else {
			kv.PutGroup(gs[i])
		}
	}
	all := append([]string{"none"}, names[:n]...)
	if n > 6 {
		all = []string{"none", names[0], names[n/2], names[n-1]}
	}
	kv.PutEntity(&pb.Entity{ID: env.S("e"), Number: env.I(1), Meta: &pb.EntityMeta{Groups: []string{all[nd.Pick("in", len(all))]}}})
	w.Load()
	es := []string{"e"}
	namesAgree(w, kv, es, names[:n])
	ctx := w.CtxWith("z", env.AllCaps...)
	at := []int{0, (n - 1) / 2, n - 2, n - 1}[nd.Pick("at", 4)]
	m := &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("e"), Meta: &pb.EntityMeta{Groups: []string{names[at]}}}}
	drop := rpc.RuleAction_REMOVE_RULE
	switch nd.Pick("change", 4) {
	case 0:
		w.Srv.GroupAddMember(ctx, m)
	case 1:
		w.Srv.GroupDelMember(ctx, m)
	case 2:
		nd.Assume(at+1 < n)
		w.Srv.GroupUpdateRules(ctx, &rpc.GroupRulesRequest{Group: &pb.Group{Name: env.S(names[at])}, Target: &pb.Group{Name: env.S(names[at+1])}, RuleAction: &drop})
	case 3:
		w.Srv.GroupDestroy(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: env.S(names[at])}})
		es = []string{"e"}
	}
	var left []string
	for _, g := range names[:n] {
		if kv.Group(g) != nil {
			left = append(left, g)
		}
	}
	namesAgree(w, kv, es, left)
}

// serial makes n names.
func serial(p string, n int) (out []string) {
	for i := 0; i < n; i++ {
		out = append(out, p+string([]byte{byte('a' + i/10), byte('0' + i%10)}))
	}
	return out
}

//gosym:bounds a group with rules for 11 (thorough 25) others, all including, one excluding, every second or all of them excluding (some entities then direct members), 11 (25) entities, each in one of the others or all in the same; one change of a membership, a rule, a group or an entity
func VP_D01_wide() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	n := 11
	if nd.Thorough() {
		n = 25
	}
	gs, es := serial("g", n), serial("e", n)
	top := &pb.Group{Name: env.S("top"), Number: env.I(100)}
	excl := []int{-1, 0, n - 1, -2, -3}[nd.Pick("exclude", 5)]
	same := nd.Bool("same")
	if nd.Bool("top first") {
		kv.PutGroup(top)
	}
	for i := range gs {
		kv.PutGroup(&pb.Group{Name: env.S(gs[i]), Number: env.I(int32(i + 1))})
		in := gs[i]
		if same {
			in = gs[n-2]
		}
		m := []string{in}
		if i == n-1 {
			m = gs
		}
		if excl < -1 && i%4 < 2 {
			m = append([]string{"top"}, m...)
		}
		if excl < -1 && i == 0 {
			m = []string{"top"}
		}
		kv.PutEntity(&pb.Entity{ID: env.S(es[i]), Number: env.I(int32(i + 1)), Meta: &pb.EntityMeta{Groups: m}})
		if i == excl || excl == -3 || excl == -2 && i%2 == 1 {
			top.Expansions = append(top.Expansions, "EXCLUDE:"+gs[i])
		} else {
			top.Expansions = append(top.Expansions, "INCLUDE:"+gs[i])
		}
	}
	kv.PutGroup(top)
	w.Load()
	all := append([]string{"top"}, gs...)
	everyone(w, kv, es, all)
	ctx := w.CtxWith("z", env.AllCaps...)
	at := []int{0, n - 2, n - 1}[nd.Pick("at", 3)]
	m := &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S(es[at]), Meta: &pb.EntityMeta{Groups: []string{gs[n-2]}}}}
	drop := rpc.RuleAction_REMOVE_RULE
	switch nd.Pick("change", 5) {
	case 0:
		w.Srv.GroupAddMember(ctx, m)
	case 1:
		w.Srv.GroupDelMember(ctx, m)
	case 2:
		w.Srv.GroupUpdateRules(ctx, &rpc.GroupRulesRequest{Group: &pb.Group{Name: env.S("top")}, Target: &pb.Group{Name: env.S(gs[at])}, RuleAction: &drop})
	case 3:
		w.Srv.EntityDestroy(ctx, m)
	case 4:
		w.Srv.GroupDestroy(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: env.S(gs[at])}})
		all = append(append([]string{"top"}, gs[:at]...), gs[at+1:]...)
	}
	nd.Reach("changed")
	everyone(w, kv, es, all)
}

// everyone compares all listings at once.
func everyone(w *env.World, kv *env.Store, es, gs []string) {
	for _, g := range gs {
		for _, e := range es {
			if g != "top" && e != es[0] && g != gs[len(gs)-1] {
				continue
			}
			want := truth(kv, e, g, 0)
			nd.Assert((listed(w, e, g) > 0) == want, "the member listing follows the declared semantics")
			if kv.Entity(e) != nil {
				nd.Assert((lists(w, e, g) > 0) == want, "the membership listing follows the declared semantics")
			}
		}
	}
}

//gosym:bounds a group that 2, 5 or 12 others include or exclude, itself including another; a membership change, a rule added to it or removed from it, or its destruction
func VP_D01_shared() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	n := []int{2, 5, 12}[nd.Pick("n", 3)]
	tops := serial("t", n)
	b := &pb.Group{Name: env.S("base"), Number: env.I(1)}
	if nd.Bool("rule") {
		b.Expansions = []string{"INCLUDE:in"}
	}
	if nd.Bool("base first") {
		kv.PutGroup(b)
	}
	kv.PutGroup(&pb.Group{Name: env.S("in"), Number: env.I(2)})
	var direct []string
	for i, t := range tops {
		g := &pb.Group{Name: env.S(t), Number: env.I(int32(i + 3)), Expansions: []string{"INCLUDE:base"}}
		if i%3 == 2 {
			g.Expansions[0] = "EXCLUDE:base"
			direct = append(direct, t)
		}
		kv.PutGroup(g)
	}
	kv.PutGroup(b)
	kv.PutEntity(&pb.Entity{ID: env.S("e"), Number: env.I(1), Meta: &pb.EntityMeta{Groups: append(direct, "in")}})
	kv.PutEntity(&pb.Entity{ID: env.S("f"), Number: env.I(2), Meta: &pb.EntityMeta{Groups: append(direct, "base")}})
	w.Load()
	ctx := w.CtxWith("z", env.AllCaps...)
	m := &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("e"), Meta: &pb.EntityMeta{Groups: []string{"base"}}}}
	var rule *rpc.RuleAction
	add, ex, drop := rpc.RuleAction_INCLUDE, rpc.RuleAction_EXCLUDE, rpc.RuleAction_REMOVE_RULE
	gs := append([]string{"base", "in"}, tops...)
	switch nd.Pick("change", 6) {
	case 0:
		rule = &add
	case 1:
		rule = &ex
	case 2:
		rule = &drop
	case 3:
		w.Srv.GroupAddMember(ctx, m)
	case 4:
		w.Srv.GroupDestroy(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: env.S("in")}})
		gs = append([]string{"base"}, tops...)
	case 5:
		w.Srv.GroupDestroy(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: env.S("base")}})
		gs = append([]string{"in"}, tops...)
	}
	if rule != nil {
		w.Srv.GroupUpdateRules(ctx, &rpc.GroupRulesRequest{Group: &pb.Group{Name: env.S("base")}, Target: &pb.Group{Name: env.S("in")}, RuleAction: rule})
	}
	nd.Reach("changed")
	namesAgree(w, kv, []string{"e", "f"}, gs)
}
