package zza

import (
	"context"

	"github.com/netauth/netauth/internal/token"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

// rules draws, for every ordered pair of groups i<j, whether i includes or
// excludes j; the graph is acyclic by construction.
func rules(n int) ([][]int, func(i int) []string) {
	m := make([][]int, n)
	for i := range m {
		m[i] = make([]int, n)
		for j := i + 1; j < n; j++ {
			m[i][j] = nd.Pick("rule", 3)
		}
	}
	return m, func(i int) []string {
		var out []string
		for j := i + 1; j < n; j++ {
			switch m[i][j] {
			case 1:
				out = append(out, "INCLUDE:"+gname[j])
			case 2:
				out = append(out, "EXCLUDE:"+gname[j])
			}
		}
		return out
	}
}

var gname = []string{"g0", "g1", "g2", "g3"}

// member is the declared meaning of membership.
func member(m [][]int, direct []bool, i int) bool {
	in := direct[i]
	for j := i + 1; j < len(m); j++ {
		if m[i][j] == 1 {
			in = nd.Or(in, member(m, direct, j))
		}
	}
	for j := i + 1; j < len(m); j++ {
		if m[i][j] == 2 {
			in = nd.And(in, !member(m, direct, j))
		}
	}
	return in
}

//gosym:bounds 3 groups (4 thorough) with every acyclic include/exclude graph in a fixed order, symbolic direct memberships of the authenticating entity and of another, one symbolic capability per group, one or none held directly
func VP_A03_claims() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	n := 3
	m, exps := rules(n)
	var direct []bool
	var groups []string
	for i := 0; i < n; i++ {
		d := nd.Bool("direct")
		if d {
			groups = append(groups, gname[i])
		}
		direct = append(direct, d)
	}
	caps := make([]pb.Capability, n)
	for i := 0; i < n; i++ {
		g := &pb.Group{Name: env.S(gname[i]), Number: env.I(int32(i + 1)), Expansions: exps(i)}
		caps[i] = env.SymCap("gcap")
		g.Capabilities = []pb.Capability{caps[i]}
		kv.PutGroup(g)
	}
	own := env.SymCap("own")
	hasOwn := nd.Bool("hasOwn")
	e := &pb.Entity{ID: env.S("e"), Number: env.I(1), Secret: env.S(w.Cr.Seed("s")), Meta: &pb.EntityMeta{Groups: groups}}
	if hasOwn {
		e.Meta.Capabilities = []pb.Capability{own}
	}
	kv.PutEntity(e)
	// another entity, which is in every group and holds everything
	kv.PutEntity(&pb.Entity{ID: env.S("f"), Number: env.I(2), Secret: env.S(w.Cr.Seed("s")), Meta: &pb.EntityMeta{Groups: gname[:n], Capabilities: env.AllCaps}})
	w.Load()
	res, err := w.Srv.AuthGetToken(context.Background(), &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S("e"), Meta: &pb.EntityMeta{Capabilities: env.AllCaps}}, Secret: env.S("s")})
	nd.Assert(err == nil && len(w.Tok.T) == 1 && res.GetToken() == w.Tok.T[0], "a token is issued")
	c := w.Tok.C[0]
	nd.Assert(c.EntityID == "e", "the token names the authenticated entity")
	// compare as sets over all capabilities
	probe := env.SymCap("probe")
	want := nd.And(hasOwn, own == probe)
	for i := 0; i < n; i++ {
		want = nd.Or(want, nd.And(member(m, direct, i), caps[i] == probe))
	}
	got := false
	for _, x := range c.Capabilities {
		got = nd.Or(got, x == probe)
	}
	if want {
		nd.Reach("held")
	} else {
		nd.Reach("not held")
	}
	nd.Assert(got == want, "the token carries exactly the capabilities held directly or through groups")
	cfg := token.GetConfig()
	nd.Assert(w.Tok.Cfg[0].Lifetime == cfg.Lifetime, "the token has the configured lifetime")
}

//gosym:bounds two stored entities with symbolic one-letter names and capabilities; the request names any one-letter name with any stored secret
func VP_A03_identity() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	x, y := nd.Str("x", 1, 1, "a-b"), nd.Str("y", 1, 1, "a-b")
	nd.Assume(x != y)
	cx, cy := env.SymCap("cx"), env.SymCap("cy")
	kv.PutEntity(&pb.Entity{ID: &x, Number: env.I(1), Secret: env.S(w.Cr.Seed("sx")), Meta: &pb.EntityMeta{Capabilities: []pb.Capability{cx}}})
	kv.PutEntity(&pb.Entity{ID: &y, Number: env.I(2), Secret: env.S(w.Cr.Seed("sy")), Meta: &pb.EntityMeta{Capabilities: []pb.Capability{cy}}})
	kv.PutGroup(&pb.Group{Name: &x, Number: env.I(1), Capabilities: env.AllCaps})
	w.Load()
	id := nameAC("id")
	sec := nd.Choose("sec", "sx", "sy")
	res, err := w.Srv.AuthGetToken(context.Background(), &rpc.AuthRequest{Entity: &pb.Entity{ID: &id, Secret: env.S("sx")}, Secret: &sec})
	if err != nil {
		nd.Reach("refused")
		nd.Assert(len(w.Tok.T) == 0 && res.GetToken() == "", "no token without authentication")
		nd.Assert(!nd.Or(nd.And(id == x, sec == "sx"), nd.And(id == y, sec == "sy")), "the right secret obtains a token")
		return
	}
	nd.Reach("issued")
	nd.Assert(len(w.Tok.C) == 1 && w.Tok.C[0].EntityID == id, "the token names the authenticated entity")
	want := cx
	if id == y {
		want = cy
	}
	nd.Assert(len(w.Tok.C[0].Capabilities) == 1 && w.Tok.C[0].Capabilities[0] == want, "the token carries only its own capabilities")
}

//gosym:bounds an entity that holds any set of three capabilities directly and is directly in any of up to five groups, one of which does not exist and one of which cannot be read, the others holding every capability between them or one each, listed in either direction
func VP_A03_many() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	all := nd.Bool("everything")
	names := []string{"damaged", "p", "q", "r", "missing"}
	var in []string
	held := map[pb.Capability]bool{}
	for i, n := range names {
		member := nd.Bool("in " + n)
		if member {
			in = append(in, n)
		}
		if n == "missing" {
			continue
		}
		g := &pb.Group{Name: env.S(n), Number: env.I(int32(i + 1))}
		for j, c := range env.AllCaps {
			if n != "damaged" && (all && j%3+1 == i || !all && j == i) {
				g.Capabilities = append(g.Capabilities, c)
				if member {
					held[c] = true
				}
			}
		}
		kv.PutGroup(g)
	}
	if nd.Bool("reversed") {
		for i, j := 0, len(in)-1; i < j; i, j = i+1, j-1 {
			in[i], in[j] = in[j], in[i]
		}
	}
	e := &pb.Entity{ID: env.S("e"), Number: env.I(1), Secret: env.S(w.Cr.Seed("s")), Meta: &pb.EntityMeta{Groups: in}}
	for _, c := range []pb.Capability{env.AllCaps[0], env.AllCaps[4], env.AllCaps[len(env.AllCaps)-1]} {
		if nd.Bool("own") {
			e.Meta.Capabilities = append(e.Meta.Capabilities, c)
			held[c] = true
		}
	}
	kv.PutEntity(e)
	w.Load()
	kv.RawPut("/groups/damaged", []byte{0xff})
	r, err := w.Srv.AuthGetToken(context.Background(), &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S("e")}, Secret: env.S("s")})
	if err != nil {
		nd.Assert(has(in, "damaged"), "a token is issued")
		return
	}
	nd.Reach("issued")
	nd.Assert(len(w.Tok.T) == 1 && r.GetToken() == w.Tok.T[0], "a token is issued")
	got := map[pb.Capability]bool{}
	for _, c := range w.Tok.C[0].Capabilities {
		got[c] = true
	}
	if len(held) == len(env.AllCaps) {
		nd.Reach("every capability")
	}
	for _, c := range env.AllCaps {
		nd.Assert(got[c] == held[c], "the token carries exactly the capabilities held directly or through groups")
	}
}

//gosym:bounds every capability is held directly, through one of two groups of the entity, or not at all: all but one in one place and that one in any of them, or the first k in one place and the rest in another, for every k and every pair of places
func VP_A03_split() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	n := len(env.AllCaps)
	e := &pb.Entity{ID: env.S("e"), Number: env.I(1), Secret: env.S(w.Cr.Seed("s")), Meta: &pb.EntityMeta{Groups: []string{"g0", "g1"}}}
	gs := []*pb.Group{{Name: env.S("g0"), Number: env.I(1)}, {Name: env.S("g1"), Number: env.I(2)}}
	a, b := nd.Pick("most in", 4), nd.Pick("rest in", 4)
	k := nd.Pick("k", n)
	one := nd.Bool("one")
	held := map[pb.Capability]bool{}
	for i, c := range env.AllCaps {
		at := a
		if i == k || i > k && !one {
			at = b
		}
		switch at {
		case 0:
			e.Meta.Capabilities = append(e.Meta.Capabilities, c)
		case 1, 2:
			gs[at-1].Capabilities = append(gs[at-1].Capabilities, c)
		}
		held[c] = at != 3
	}
	kv.PutGroup(gs[0])
	kv.PutGroup(gs[1])
	kv.PutEntity(e)
	w.Load()
	r, err := w.Srv.AuthGetToken(context.Background(), &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S("e")}, Secret: env.S("s")})
	nd.Assert(err == nil && len(w.Tok.T) == 1 && r.GetToken() == w.Tok.T[0], "a token is issued")
	got := map[pb.Capability]bool{}
	for _, c := range w.Tok.C[0].Capabilities {
		got[c] = true
	}
	nd.Reach("issued")
	for _, c := range env.AllCaps {
		nd.Assert(got[c] == held[c], "the token carries exactly the capabilities held directly or through groups")
	}
}

func has(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}
