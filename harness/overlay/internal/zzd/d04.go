package zzd

import (
	"github.com/golang/protobuf/proto"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		n, m := 0, 0
		for _, y := range a {
			if x == y {
				n++
			}
		}
		for _, y := range b {
			if x == y {
				m++
			}
		}
		if n != m {
			return false
		}
	}
	return true
}

// covers tells whether every element of b is in a.
func covers(a, b []string) bool {
	for _, y := range b {
		in := false
		for _, x := range a {
			in = in || x == y
		}
		if !in {
			return false
		}
	}
	return true
}

//gosym:bounds group g with 0..2 rules for groups of distinct names of 1..2 bytes over a, b, A and colon (sharing prefixes and substrings); a rule added for, or removed from, any such name
//gosym:weight 2
func VP_D04_rules() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	var names, rules []string
	for i := 0; i < 2; i++ {
		t := nd.Str("t", 1, 2, "abA:")
		for _, o := range names {
			nd.Assume(o != t)
		}
		names = append(names, t)
		kv.PutGroup(&pb.Group{Name: env.S(t), Number: env.I(int32(i + 2))})
		switch nd.Pick("rule", 3) {
		case 1:
			rules = append(rules, "INCLUDE:"+t)
		case 2:
			rules = append(rules, "EXCLUDE:"+t)
		}
	}
	g := &pb.Group{Name: env.S("ggg"), Number: env.I(1), Expansions: rules, DisplayName: env.S("d"), Capabilities: env.AllCaps[:2], UntypedMeta: []string{"k:v"}}
	kv.PutGroup(g)
	w.Load()
	snap := kv.Snapshot()
	acts := []rpc.RuleAction{rpc.RuleAction_INCLUDE, rpc.RuleAction_EXCLUDE, rpc.RuleAction_REMOVE_RULE}
	k := nd.Pick("action", 3)
	t := names[0]
	if nd.Bool("other") {
		t = nd.Str("target", 1, 2, "abA:")
	}
	_, err := w.Srv.GroupUpdateRules(w.CtxWith("z", env.AllCaps...), &rpc.GroupRulesRequest{Group: &pb.Group{Name: env.S("ggg")}, Target: &pb.Group{Name: &t}, RuleAction: &acts[k]})
	nd.NoteBool("ok", err == nil)
	if err != nil {
		nd.Reach("refused")
		nd.Assert(kv.Same(snap), "a refused change leaves everything as it was")
		return
	}
	nd.Reach("done")
	var want []string
	switch k {
	case 0:
		want = append(append(want, rules...), "INCLUDE:"+t)
	case 1:
		want = append(append(want, rules...), "EXCLUDE:"+t)
	case 2:
		for _, r := range rules {
			if target(r) != t {
				want = append(want, r)
			}
		}
	}
	got := kv.Group("ggg")
	nd.Assert(sameSet(got.GetExpansions(), want), "exactly the named rule changes")
	got.Expansions = rules
	nd.Assert(proto.Equal(got, g), "nothing but the rules changes")
	nd.Assert(kv.SameBut(snap, "/groups/ggg"), "no other group changes")
}

//gosym:bounds entity with direct memberships in 0..2 of the groups of distinct names of 1..2 bytes over a, b and A, one of them possibly recorded twice; a request adding or removing one or two such names, for an existing or missing entity, with or without metadata
func VP_D04_members() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	var names, have []string
	for i := 0; i < 2; i++ {
		t := nd.Str("t", 1, 2, "abA")
		for _, o := range names {
			nd.Assume(o != t)
		}
		names = append(names, t)
		kv.PutGroup(&pb.Group{Name: env.S(t), Number: env.I(int32(i + 2))})
		if nd.Bool("in") {
			have = append(have, t)
			if i == 0 && nd.Bool("twice") {
				// as earlier versions could store it
				have = append(have, t)
			}
		}
	}
	e := &pb.Entity{ID: env.S("e"), Number: env.I(1), Secret: env.S("$h"), Meta: &pb.EntityMeta{Groups: have, GECOS: env.S("g"), Keys: []string{"SSH:k"}, UntypedMeta: []string{"k:v"}}}
	if len(have) == 0 && nd.Bool("nometa") {
		e.Meta = nil
	}
	kv.PutEntity(e)
	kv.PutEntity(&pb.Entity{ID: env.S("f"), Number: env.I(2), Meta: &pb.EntityMeta{Groups: names}})
	w.Load()
	snap := kv.Snapshot()
	req := []string{names[nd.Pick("which", 2)]}
	if nd.Bool("two") {
		req = append(req, nd.Str("second", 1, 2, "abA"))
	}
	add := nd.Bool("add")
	id := nd.Choose("id", "e", "x")
	m := &rpc.EntityRequest{Entity: &pb.Entity{ID: &id, Number: env.I(9), Secret: env.S("evil"), Meta: &pb.EntityMeta{Groups: req, GECOS: env.S("evil")}}}
	var err error
	if add {
		_, err = w.Srv.GroupAddMember(w.CtxWith("z", env.AllCaps...), m)
	} else {
		_, err = w.Srv.GroupDelMember(w.CtxWith("z", env.AllCaps...), m)
	}
	nd.NoteBool("ok", err == nil)
	if err != nil {
		nd.Reach("refused")
		nd.Assert(id == "x" || len(req) > 1, "a membership change of an existing entity and group succeeds")
		nd.Assert(kv.Same(snap), "a refused change leaves everything as it was")
		return
	}
	nd.Reach("done")
	var want []string
	for _, h := range have {
		named := false
		for _, r := range req {
			named = named || r == h
		}
		if !named {
			want = append(want, h)
		}
	}
	if add {
		for i, r := range req {
			if i == 0 || r != req[0] {
				want = append(want, r)
			}
		}
	}
	got := kv.Entity("e")
	if len(have) > 1 && have[0] == have[1] {
		// recording a membership once more, or not, changes nothing
		nd.Assert(covers(got.GetMeta().GetGroups(), want) && covers(want, got.GetMeta().GetGroups()), "exactly the named memberships change")
		got.Meta.Groups = want
	}
	nd.Assert(sameSet(got.GetMeta().GetGroups(), want), "exactly the named memberships change")
	if e.Meta == nil {
		e.Meta = &pb.EntityMeta{}
	}
	if got.Meta == nil {
		got.Meta = &pb.EntityMeta{}
	}
	got.Meta.Groups = have
	nd.Assert(proto.Equal(got, e), "nothing but the memberships changes")
	nd.Assert(kv.SameBut(snap, "/entities/e"), "no other object changes")
}

//gosym:bounds a group with rules for two groups whose names are strange texts that a careless comparison would take for each other (29 texts, 16 ways), and an entity in both; a rule dropped, or a rule added where there is none yet, a membership dropped or added
func VP_D04_strange() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	n := env.Names[nd.Pick("name", len(env.Names))]
	l := env.Alike(n)
	m := l[nd.Pick("alike", len(l))]
	nd.Assume(env.Valid(m))
	what := nd.Pick("what", 4)
	names := []string{n, m}
	i := nd.Pick("which", 2)
	at := names[i]
	all := []string{[]string{"INCLUDE:", "EXCLUDE:"}[nd.Pick("kind", 2)] + n, "INCLUDE:" + m}
	rules, in := all, names
	switch what {
	case 1:
		rules = all[1-i : 2-i]
	case 3:
		in = names[1-i : 2-i]
	}
	for j, x := range names {
		kv.PutGroup(&pb.Group{Name: env.S(x), Number: env.I(int32(j + 1))})
	}
	kv.PutGroup(&pb.Group{Name: env.S("ggg"), Number: env.I(9), Expansions: rules})
	kv.PutEntity(&pb.Entity{ID: env.S("e"), Number: env.I(1), Meta: &pb.EntityMeta{Groups: in}})
	w.Load()
	ctx := w.CtxWith("z", env.AllCaps...)
	act := rpc.RuleAction_REMOVE_RULE
	q := &rpc.GroupRulesRequest{Group: &pb.Group{Name: env.S("ggg")}, Target: &pb.Group{Name: env.S(at)}, RuleAction: &act}
	e := &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("e"), Meta: &pb.EntityMeta{Groups: []string{at}}}}
	var err error
	switch what {
	case 0:
		_, err = w.Srv.GroupUpdateRules(ctx, q)
		rules = all[1-i : 2-i]
	case 1:
		act = rpc.RuleAction_INCLUDE
		if all[i][0] == 'E' {
			act = rpc.RuleAction_EXCLUDE
		}
		_, err = w.Srv.GroupUpdateRules(ctx, q)
		rules = all
	case 2:
		_, err = w.Srv.GroupDelMember(ctx, e)
		in = names[1-i : 2-i]
	case 3:
		_, err = w.Srv.GroupAddMember(ctx, e)
		in = names
	}
	nd.Assert(err == nil, "an admissible change succeeds")
	nd.Reach("done")
	nd.Assert(sameSet(kv.Group("ggg").GetExpansions(), rules), "exactly the named rule changes")
	nd.Assert(sameSet(kv.Entity("e").GetMeta().GetGroups(), in), "exactly the named membership changes")
}
