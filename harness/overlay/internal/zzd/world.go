// Package zzd checks properties of groups, rules and memberships.
package zzd

import (
	"context"
	"strings"

	_ "github.com/netauth/netauth/internal/tree/hooks"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

var gn = []string{"g0", "g1", "g2", "g3"}

var perms = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

// graph draws the rules of n groups: group i may include or exclude any
// group j>i. The names stand in any relation to the order of storage.
func graph(n int) [][]string {
	out := make([][]string, n)
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			switch nd.Pick("rule", 3) {
			case 1:
				out[i] = append(out[i], "INCLUDE:"+gn[j])
			case 2:
				out[i] = append(out[i], "EXCLUDE:"+gn[j])
			}
		}
	}
	return out
}

// name is the symbolic name of one of n groups.
func name(l string, n int) string {
	return "g" + nd.Str(l, 1, 1, []string{"0", "0", "01", "0-2", "0-3", "0-4"}[n])
}

// entities stores e in one of the groups or a missing one, or in any subset
// of them, and f in all groups.
func entities(w *env.World, kv *env.Store, n int, all bool) {
	var in []string
	if all {
		for i := 0; i < n; i++ {
			if nd.Bool("in") {
				in = append(in, gn[i])
			}
		}
	} else {
		in = []string{name("in", n+1)}
	}
	kv.PutEntity(&pb.Entity{ID: env.S("e"), Number: env.I(1), Secret: env.S(w.Cr.Seed("se")), Meta: &pb.EntityMeta{Groups: in}})
	kv.PutEntity(&pb.Entity{ID: env.S("f"), Number: env.I(2), Secret: env.S(w.Cr.Seed("sf")), Meta: &pb.EntityMeta{Groups: gn[:n]}})
}

func groups(kv *env.Store, rules [][]string, order []int) {
	for _, i := range order {
		kv.PutGroup(&pb.Group{Name: env.S(gn[i]), Number: env.I(int32(i + 1)), DisplayName: env.S("d" + gn[i]), Capabilities: []pb.Capability{env.AllCaps[i]}, Expansions: rules[i]})
	}
}

// truth is the declared meaning of membership, from the stored records.
func truth(kv *env.Store, e, g string, depth int) bool {
	if depth > 40 {
		nd.Assert(false, "stored rules are acyclic")
		return false
	}
	x := kv.Group(g)
	ent := kv.Entity(e)
	if x == nil || ent == nil {
		return false
	}
	in := false
	for _, d := range ent.GetMeta().GetGroups() {
		in = in || d == g
	}
	for _, r := range x.GetExpansions() {
		if strings.HasPrefix(r, "INCLUDE:") {
			in = in || truth(kv, e, r[8:], depth+1)
		}
	}
	for _, r := range x.GetExpansions() {
		if strings.HasPrefix(r, "EXCLUDE:") {
			in = in && !truth(kv, e, r[8:], depth+1)
		}
	}
	return in
}

// change makes one change to memberships or rules through the server.
func change(w *env.World, n int) error {
	ctx := w.CtxWith("z", env.AllCaps...)
	g := name("group", n)
	switch op := nd.Pick("change", 6); op {
	case 0:
		_, err := w.Srv.GroupAddMember(ctx, &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("e"), Meta: &pb.EntityMeta{Groups: []string{g}}}})
		return err
	case 1:
		_, err := w.Srv.GroupDelMember(ctx, &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("e"), Meta: &pb.EntityMeta{Groups: []string{g}}}})
		return err
	case 2, 3, 4:
		t := name("target", n)
		acts := []rpc.RuleAction{rpc.RuleAction_INCLUDE, rpc.RuleAction_EXCLUDE, rpc.RuleAction_REMOVE_RULE}
		_, err := w.Srv.GroupUpdateRules(ctx, &rpc.GroupRulesRequest{Group: &pb.Group{Name: &g}, Target: &pb.Group{Name: &t}, RuleAction: &acts[op-2]})
		return err
	}
	if w.KV.Group(g) == nil {
		_, err := w.Srv.GroupCreate(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: &g, Number: env.I(-1)}})
		return err
	}
	_, err := w.Srv.GroupDestroy(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: &g}})
	return err
}

// listed tells whether group g lists entity e.
func listed(w *env.World, e, g string) (times int) {
	res, err := w.Srv.GroupMembers(context.Background(), &rpc.GroupRequest{Group: &pb.Group{Name: &g}})
	if err != nil {
		return -1
	}
	for _, x := range res.GetEntities() {
		if x.GetID() == e {
			times++
		}
	}
	return times
}

// lists tells how often the membership listing of e names g.
func lists(w *env.World, e, g string) (times int) {
	res, err := w.Srv.EntityGroups(context.Background(), &rpc.EntityRequest{Entity: &pb.Entity{ID: &e}})
	if err != nil {
		return -1
	}
	for _, x := range res.GetGroups() {
		if x.GetName() == g {
			times++
		}
	}
	return times
}
