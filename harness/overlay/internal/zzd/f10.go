package zzd

import (
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

//gosym:bounds every acyclic graph of include and exclude rules over 3 groups; an entity in any of them or a missing one and one in all (thorough: in any set of them); any one group undecodable or unreadable since before the start, thorough: in any order of storage, followed by none or one change to rules or memberships
//gosym:weight 2
func VP_F10_members() {
	n := 3
	kv := env.NewStore()
	w := env.NewWorld(kv)
	rules := graph(n)
	order := perms[nd.Pick("order", len(perms))]
	if !nd.Thorough() {
		order = perms[0]
	}
	groups(kv, rules, order)
	entities(w, kv, n, nd.Thorough())
	bad := nd.Pick("bad", n)
	good, _ := kv.RawGet("/groups/" + gn[bad])
	damage := func(on bool) {
		switch {
		case !on:
			kv.RawPut("/groups/"+gn[bad], good)
			kv.Broken = ""
		default:
			kv.Broken = "/groups/" + gn[bad]
		}
	}
	damage(true)
	w.Boot()
	w.Load()
	if nd.Thorough() && nd.Bool("change") {
		change(w, n)
	}
	damage(false)
	// want is what the rules say.
	want := map[string]map[string]bool{}
	for _, id := range []string{"e", "f"} {
		want[id] = map[string]bool{}
		for i := 0; i < n; i++ {
			want[id][gn[i]] = truth(kv, id, gn[i], 0)
		}
	}
	damage(true)
	for _, id := range []string{"e", "f"} {
		for _, g := range w.Tree.GetMemberships(&pb.Entity{ID: env.S(id)}) {
			nd.Assert(want[id][g], "unreadable rules grant no membership")
		}
	}
	for i := 0; i < n; i++ {
		res, err := w.Srv.GroupMembers(env.Ctx(""), &rpc.GroupRequest{Group: &pb.Group{Name: env.S(gn[i])}})
		if i == bad {
			nd.Assert(status.Code(err) == codes.Internal, "the members of an unreadable group are not listed")
			continue
		}
		if err != nil {
			nd.Reach("failed")
			if kv.Group(gn[i]) != nil {
				nd.Assert(status.Code(err) == codes.Internal, "a failure to resolve a group is an internal error")
			}
			continue
		}
		nd.Reach("listed")
		for _, id := range []string{"e", "f"} {
			in := false
			for _, m := range res.GetEntities() {
				in = in || m.GetID() == id
			}
			nd.Assert(in == want[id][gn[i]], "a listing is right or fails")
		}
	}
}
