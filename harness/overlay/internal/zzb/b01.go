// Package zzb checks authorization properties.
package zzb

import (
	"context"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"

	_ "github.com/netauth/netauth/internal/tree/hooks"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

func nameAC(l string) string { return nd.Str(l, 1, 1, "a-cA") }

func text(l string) string { return nd.Choose(l, "sa", "k", "n") }

// world stores entities a and b and groups a and b with every field set.
// member tells which groups entity a is in, managed who manages each group.
type setup struct {
	in      map[string]bool   // groups entity a is a direct member of
	managed map[string]string // managing group by group
	bare    bool              // no optional field is set
	kind    int               // other kinds of objects
}

func seed(w *env.World, kv *env.Store, s setup) {
	if s.bare {
		for i, id := range []string{"a", "b"} {
			e := &pb.Entity{ID: env.S(id), Number: env.I(int32(i + 1)), Secret: env.S(w.Cr.Seed("s" + id))}
			if id == "b" {
				e.Meta = &pb.EntityMeta{}
			}
			kv.PutEntity(e)
			kv.PutGroup(&pb.Group{Name: env.S(id), Number: env.I(int32(i + 1))})
		}
		w.Load()
		return
	}
	if s.kind != env.Full {
		for i, id := range []string{"a", "b"} {
			kv.PutEntity(w.Shaped(s.kind, id, int32(i+1), "s"+id, false))
			kv.PutGroup(env.ShapedGroup(s.kind, id, int32(i+1), ""))
		}
		w.Load()
		return
	}
	for i, id := range []string{"a", "b"} {
		m := &pb.EntityMeta{GECOS: env.S("g"), Keys: []string{"SSH:k"}, UntypedMeta: []string{"k:v"}, Capabilities: []pb.Capability{pb.Capability_LOCK_ENTITY},
			KV: []*pb.KVData{{Key: env.S("k"), Values: []*pb.KVValue{{Value: env.S("1")}}}}}
		if id == "a" {
			for _, g := range []string{"a", "b"} {
				if s.in[g] {
					m.Groups = append(m.Groups, g)
				}
			}
		}
		kv.PutEntity(&pb.Entity{ID: env.S(id), Number: env.I(int32(i + 1)), Secret: env.S(w.Cr.Seed("s" + id)), Meta: m})
	}
	for i, id := range []string{"a", "b"} {
		g := &pb.Group{Name: env.S(id), Number: env.I(int32(i + 1)), DisplayName: env.S("d"), Capabilities: []pb.Capability{pb.Capability_CREATE_GROUP}, UntypedMeta: []string{"k:v"},
			KV: []*pb.KVData{{Key: env.S("k"), Values: []*pb.KVValue{{Value: env.S("1")}}}}}
		if s.managed[id] != "" {
			g.ManagedBy = env.S(s.managed[id])
		}
		kv.PutGroup(g)
	}
	w.Load()
}

// delegable requests may be made by members of the managing group.
func delegable(name string) bool {
	switch name {
	case "GroupUpdate", "GroupUM", "GroupUpdateRules", "GroupAddMember", "GroupDelMember":
		return true
	}
	return false
}

// requester draws the token a request carries: whether it is valid, who it
// names and which capability it holds.
type requester struct {
	ctx   context.Context
	id    string
	valid bool
	caps  []pb.Capability
}

func draw(w *env.World) requester {
	r := requester{id: nameAC("requester")}
	switch nd.Pick("token", 6) {
	case 0:
		r.valid, r.caps = true, []pb.Capability{env.SymCap("cap")}
		if nd.Thorough() {
			r.caps = append(r.caps, env.SymCap("cap2"))
		}
		r.ctx = w.CtxWith(r.id, r.caps...)
	case 1:
		r.valid = true
		r.ctx = w.CtxWith(r.id)
	case 2:
		r.ctx = env.Ctx("bogus")
	case 3:
		r.ctx = env.Ctx("")
	case 4:
		w.CtxWith(r.id, env.AllCaps...)
		r.ctx = metadata.NewIncomingContext(context.Background(), metadata.Pairs("authorization", "tok0", "authorization", "tok0"))
	case 5:
		r.ctx = context.Background()
	}
	return r
}

// holds tells whether the valid token's claims cover the capability.
func (r requester) holds(c pb.Capability) bool {
	ok := false
	for _, x := range r.caps {
		ok = nd.Or(ok, nd.Or(x == c, x == pb.Capability_GLOBAL_ROOT))
	}
	return nd.And(r.valid, ok)
}

// unqualified tells whether the error is a refusal for lack of authority.
func unqualified(err error) bool {
	c := status.Code(err)
	return c == codes.PermissionDenied || c == codes.Unauthenticated || c == codes.Unimplemented
}

//gosym:bounds 2 entities, 2 groups without managing group, all of one kind (every field, bare, holding root, odd values); every mutating request with 1-byte symbolic names and full or minimal contents; requester of any 1-byte name with a valid token holding one symbolic capability (thorough: two) or none, or an unknown, empty, doubled or missing token
//gosym:weight 3
func VP_B01_gate() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	seed(w, kv, setup{kind: []int{env.Full, env.None, env.Root, env.Odd}[nd.Pick("kind", 4)]})
	snap := kv.Snapshot()
	rq := draw(w)
	// what concerns one's own secret is A05
	r := w.AnyOf(env.MutatingRPCs, &env.Gen{Name: nameAC, Text: text, Shapes: 2, NoKV: true})
	_, err := r.Call(rq.ctx)
	nd.NoteBool("ok", err == nil)
	holds := rq.holds(r.Cap)
	if r.Root {
		holds = rq.holds(pb.Capability_GLOBAL_ROOT)
	}
	own := false
	switch r.Name {
	case "EntityKeys":
		own = nd.And(rq.valid, rq.id == r.Target)
	case "AuthChangeSecret":
		own = nd.And(rq.valid, rq.id == r.Target)
		if own {
			// the old secret decides, not the capability
			nd.Reach("own secret")
			nd.Assert(kv.Same(snap) || err == nil, "a refused change of the own secret changes nothing")
			return
		}
	}
	if !nd.Or(holds, own) {
		nd.Reach("unauthorized")
		nd.Assert(kv.Same(snap), "an unauthorized request changes nothing")
		if r.Mut {
			nd.Assert(err != nil, "an unauthorized request is refused")
		}
		if r.Name == "EntityKeys" && !r.Mut {
			return
		}
		return
	}
	nd.Reach("authorized")
	if err != nil {
		nd.Reach("authorized but impossible")
		nd.Assert(!unqualified(err), "a requester holding the capability is not refused for lack of authority")
		nd.Assert(kv.Same(snap), "a refused request changes nothing")
	} else {
		nd.Reach("done")
	}
}

//gosym:bounds as VP_B01_gate for membership requests naming two groups; one symbolic capability or none
func VP_B01_members() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	s := setup{in: map[string]bool{"a": true}, managed: map[string]string{"a": "a"}}
	seed(w, kv, s)
	snap := kv.Snapshot()
	rq := draw(w)
	name := []string{"GroupAddMember", "GroupDelMember"}[nd.Pick("rpc", 2)]
	g1, g2 := nameAC("g1"), nameAC("g2")
	e := &pb.Entity{ID: env.S(nameAC("entity")), Meta: &pb.EntityMeta{Groups: []string{g1, g2}}}
	err := membersCall(w, name, rq.ctx, e)
	holds := rq.holds(pb.Capability_MODIFY_GROUP_MEMBERS)
	// only group a is delegated, to its own members
	delegated := nd.And(nd.And(rq.valid, rq.id == "a"), nd.And(g1 == "a", g2 == "a"))
	nd.NoteBool("ok", err == nil)
	if !nd.Or(holds, delegated) {
		nd.Reach("unauthorized")
		nd.Assert(err != nil, "an unauthorized membership request is refused")
		nd.Assert(kv.Same(snap), "an unauthorized membership request changes nothing")
		return
	}
	nd.Reach("authorized")
	if err != nil {
		nd.Assert(!unqualified(err), "authority over every named group suffices")
	}
}

//gosym:bounds a token with 0..4 (thorough 6) symbolic capabilities in any order, or all but one symbolic one; a request for each of five capabilities
func VP_B01_claims() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	seed(w, kv, setup{})
	snap := kv.Snapshot()
	rq := requester{id: "z", valid: true}
	if nd.Bool("nearly all") {
		not := env.SymCap("not")
		descending := nd.Bool("descending")
		for i := range env.AllCaps {
			c := env.AllCaps[i]
			if descending {
				c = env.AllCaps[len(env.AllCaps)-1-i]
			}
			if c != not && c != pb.Capability_GLOBAL_ROOT {
				rq.caps = append(rq.caps, c)
			}
		}
	} else {
		most := 5
		if nd.Thorough() {
			most = 7
		}
		for i, n := 0, nd.Pick("n", most); i < n; i++ {
			rq.caps = append(rq.caps, env.SymCap("cap"))
		}
	}
	rq.ctx = w.CtxWith(rq.id, rq.caps...)
	var err error
	var need pb.Capability
	switch nd.Pick("request", 5) {
	case 0:
		need = pb.Capability_LOCK_ENTITY
		_, err = w.Srv.EntityLock(rq.ctx, &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("a")}})
	case 1:
		need = pb.Capability_CREATE_ENTITY
		_, err = w.Srv.EntityCreate(rq.ctx, &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("c"), Number: env.I(9), Secret: env.S("s")}})
	case 2:
		need = pb.Capability_DESTROY_GROUP
		_, err = w.Srv.GroupDestroy(rq.ctx, &rpc.GroupRequest{Group: &pb.Group{Name: env.S("b")}})
	case 3:
		need = pb.Capability_GLOBAL_ROOT
		_, err = w.Srv.SystemCapabilities(rq.ctx, &rpc.CapabilityRequest{Target: env.S("a"), Capability: capOf(pb.Capability_CREATE_GROUP), Action: actionOf(rpc.Action_ADD)})
	case 4:
		need = pb.Capability_MODIFY_GROUP_META
		_, err = w.Srv.GroupUpdate(rq.ctx, &rpc.GroupRequest{Group: &pb.Group{Name: env.S("b"), DisplayName: env.S("x")}})
	}
	if rq.holds(need) {
		nd.Reach("authorized")
		nd.Assert(err == nil, "a requester holding the capability is not refused for lack of authority")
		return
	}
	nd.Reach("unauthorized")
	nd.Assert(err != nil && kv.Same(snap), "an unauthorized request changes nothing")
}

func capOf(c pb.Capability) *pb.Capability { return &c }

func actionOf(a rpc.Action) *rpc.Action { return &a }
