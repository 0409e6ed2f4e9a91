package zzd

import (
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

func target(rule string) string {
	for i := 0; i < len(rule); i++ {
		if rule[i] == ':' {
			return rule[i+1:]
		}
	}
	return ""
}

// reaches tells whether rules lead from a to b.
func reaches(kv *env.Store, a, b string, depth int) bool {
	if a == b {
		return true
	}
	if depth > 40 {
		return true
	}
	for _, r := range kv.Group(a).GetExpansions() {
		if reaches(kv, target(r), b, depth+1) {
			return true
		}
	}
	return false
}

// whole tells whether all groups that rules lead to from a exist.
func whole(kv *env.Store, a string) bool {
	x := kv.Group(a)
	if x == nil {
		return false
	}
	for _, r := range x.GetExpansions() {
		if !whole(kv, target(r)) {
			return false
		}
	}
	return true
}

//gosym:bounds 3 groups (thorough 4) with every acyclic graph, one of which may have been destroyed; every rule change between any two of them or a missing one, by every route (typed request)
//gosym:weight 2
func VP_D03_graph() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	n := 3
	if nd.Thorough() {
		n = 4
	}
	groups(kv, graph(n), []int{0, 1, 2, 3}[:n])
	w.Load()
	ctx := w.CtxWith("z", env.AllCaps...)
	if nd.Bool("hole") {
		w.Srv.GroupDestroy(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: env.S(name("destroyed", n))}})
	}
	snap := kv.Snapshot()
	g, t := name("g", n+1), name("t", n+1)
	oneChange(w, kv, snap, g, t)
	for i := 0; i < n; i++ {
		for _, r := range kv.Group(gn[i]).GetExpansions() {
			nd.Assert(!reaches(kv, target(r), gn[i], 0), "no group depends on itself")
		}
	}
}

func oneChange(w *env.World, kv *env.Store, snap env.Snap, g, t string) {
	ruleChange(w, kv, snap, g, t, nd.Pick("action", 3))
}

func linkGroups(w *env.World, kv *env.Store, snap env.Snap, g, t string) {
	ruleChange(w, kv, snap, g, t, nd.Pick("action", 2))
	for _, r := range kv.Group(g).GetExpansions() {
		nd.Assert(!reaches(kv, target(r), g, 0), "no group depends on itself")
	}
}

func ruleChange(w *env.World, kv *env.Store, snap env.Snap, g, t string, k int) {
	acts := []rpc.RuleAction{rpc.RuleAction_INCLUDE, rpc.RuleAction_EXCLUDE, rpc.RuleAction_REMOVE_RULE}
	gg, tt := kv.Group(g), kv.Group(t)
	conflict, size := false, len(gg.GetExpansions())
	for _, r := range gg.GetExpansions() {
		if target(r) == t {
			conflict = true
		}
	}
	_, err := w.Srv.GroupUpdateRules(w.CtxWith("z", env.AllCaps...), &rpc.GroupRulesRequest{Group: &pb.Group{Name: &g}, Target: &pb.Group{Name: &t}, RuleAction: &acts[k]})
	nd.NoteBool("ok", err == nil)
	if err != nil {
		nd.Reach("refused")
		nd.Assert(kv.Same(snap), "a refused rule change leaves everything as it was")
	} else {
		nd.Reach("accepted")
	}
	if k == 2 {
		nd.Assert((err == nil) == (gg != nil), "rules of an existing group can be removed")
		return
	}
	bad := gg == nil || tt == nil || conflict || t == g
	if err == nil {
		nd.Assert(!bad, "rules for missing or already named targets are refused")
		now := kv.Group(g).GetExpansions()
		nd.Assert(len(now) == size+1, "an accepted rule is stored")
		return
	}
	ok := !bad && whole(kv, t) && !reaches(kv, t, g, 0)
	nd.Assert(!ok, "an admissible rule is never refused")
}

//gosym:bounds 2 groups of any distinct names of 1..2 bytes over a, b, A and colon, one rule between them or none; every rule change with such names
func VP_D03_names() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	x, y := nd.Str("x", 1, 2, "abA:"), nd.Str("y", 1, 2, "abA:")
	nd.Assume(x != y)
	gx := &pb.Group{Name: &x, Number: env.I(1)}
	switch nd.Pick("rule", 3) {
	case 1:
		gx.Expansions = []string{"INCLUDE:" + y}
	case 2:
		gx.Expansions = []string{"EXCLUDE:" + y}
	}
	kv.PutGroup(gx)
	kv.PutGroup(&pb.Group{Name: &y, Number: env.I(2)})
	w.Load()
	snap := kv.Snapshot()
	g, t := x, y
	if nd.Bool("reverse") {
		g, t = y, x
	}
	if nd.Bool("other") {
		t = nd.Str("t", 1, 2, "abA:")
	}
	oneChange(w, kv, snap, g, t)
	if nd.Bool("then") {
		// the opposite rule would close a cycle
		_, e2 := w.Srv.GroupUpdateRules(w.CtxWith("z", env.AllCaps...), &rpc.GroupRulesRequest{Group: &pb.Group{Name: &t}, Target: &pb.Group{Name: &g}, RuleAction: rpc.RuleAction_INCLUDE.Enum()})
		forward := false
		for _, r := range kv.Group(g).GetExpansions() {
			forward = forward || target(r) == t
		}
		nd.Assert(e2 != nil || !forward, "the opposite of a rule is refused")
	}
}

//gosym:bounds two groups whose names are strange texts that a careless comparison would take for each other (29 texts, 16 ways) and a third with a rule for one of them or for none; rules of the third for each, and of the two for each other
func VP_D03_strange() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	n := env.Names[nd.Pick("name", len(env.Names))]
	l := env.Alike(n)
	m := l[nd.Pick("alike", len(l))]
	nd.Assume(env.Valid(m))
	names := []string{n, m, "ggg"}
	g := &pb.Group{Name: env.S("ggg"), Number: env.I(9)}
	if k := nd.Pick("rule", 3); k > 0 {
		g.Expansions = []string{"INCLUDE:" + names[k-1]}
	}
	kv.PutGroup(&pb.Group{Name: env.S(n), Number: env.I(1)})
	stored := nd.Bool("both stored")
	if stored {
		kv.PutGroup(&pb.Group{Name: env.S(m), Number: env.I(2)})
	}
	kv.PutGroup(g)
	w.Load()
	p := [][2]string{{"ggg", n}, {"ggg", m}, {n, m}, {m, n}}[nd.Pick("change", 4)]
	oneChange(w, kv, kv.Snapshot(), p[0], p[1])
}
