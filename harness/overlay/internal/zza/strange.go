package zza

import (
	"context"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

// pairOf draws a strange text and one alike.
func pairOf(label string, from []string) (string, string) {
	s := from[nd.Pick(label, len(from))]
	l := env.Alike(s)
	return s, l[nd.Pick(label+" alike", len(l))]
}

// oddWorld holds two entities; either their names or their secrets are alike.
type oddWorld struct {
	*env.World
	kv  *env.Store
	id  []string
	sec []string
}

func odd() *oddWorld {
	kv := env.NewStore()
	w := &oddWorld{World: env.NewWorld(kv), kv: kv, id: []string{"n", "m"}, sec: []string{"s", "t"}}
	if nd.Bool("names") {
		w.id[0], w.id[1] = pairOf("name", env.Names)
		nd.Assume(env.Valid(w.id[1]))
	} else {
		w.sec[0], w.sec[1] = pairOf("secret", env.Strange)
	}
	for i, id := range w.id {
		kv.PutEntity(&pb.Entity{ID: env.S(id), Number: env.I(int32(i + 1)), Secret: env.S(w.Cr.Seed(w.sec[i])), Meta: &pb.EntityMeta{Capabilities: env.AllCaps[i : i+1], Groups: []string{id}}})
		kv.PutGroup(&pb.Group{Name: env.S(id), Number: env.I(int32(i + 1)), Capabilities: env.AllCaps[i+2 : i+3]})
	}
	w.Load()
	return w
}

//gosym:bounds two entities whose names or secrets are strange texts (31: blanks around them, lines, quotes, not UTF-8, up to 2100 bytes) that a careless comparison would take for each other (16 ways); a login as either with either secret, or with the name or secret of the other only
func VP_A01_strange() {
	w := odd()
	second := nd.Bool("second stored")
	if !second {
		w.Srv.EntityDestroy(w.CtxWith("z", env.AllCaps...), &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S(w.id[1])}})
	}
	i, j := nd.Pick("who", 2), nd.Pick("secret of", 2)
	q := &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S(w.id[i])}, Secret: env.S(w.sec[j])}
	var err error
	n := len(w.Tok.T)
	if nd.Bool("token") {
		_, err = w.Srv.AuthGetToken(context.Background(), q)
		nd.Assert((err == nil) == (len(w.Tok.T) == n+1), "only a successful login yields a token")
	} else {
		_, err = w.Srv.AuthEntity(context.Background(), q)
	}
	want := i == j && (i == 0 || second)
	if want {
		nd.Reach("succeeds")
	} else {
		nd.Reach("fails")
	}
	nd.Assert((err == nil) == want, "authentication succeeds exactly with the entity's own secret")
}

//gosym:bounds two entities with groups of the same names, whose names are strange texts a careless comparison would take for each other; a token for either
func VP_A03_strange() {
	w := odd()
	i := nd.Pick("who", 2)
	_, err := w.Srv.AuthGetToken(context.Background(), &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S(w.id[i])}, Secret: env.S(w.sec[i])})
	nd.Assert(err == nil, "a token is issued")
	nd.Reach("issued")
	c := w.Tok.C[len(w.Tok.C)-1]
	nd.Assert(c.EntityID == w.id[i], "the token names the authenticated entity")
	nd.Assert(len(c.Capabilities) == 2, "the token carries only its own capabilities")
	for _, k := range c.Capabilities {
		nd.Assert(k == env.AllCaps[i] || k == env.AllCaps[i+2], "the token carries only its own capabilities")
	}
}

//gosym:bounds two entities whose names or secrets are strange texts a careless comparison would take for each other; one of them, holding no capability, asks to change the secret of either, with the old secret of either, to another strange one or an empty one; then authentication
func VP_A05_strange() {
	w := odd()
	r, i, j := nd.Pick("requester", 2), nd.Pick("who", 2), nd.Pick("old secret of", 2)
	nd.Assume(r == i || i == j)
	neu := []string{"new ", "", env.Strange[28], " \xff"}[nd.Pick("new", 4)]
	snap := w.kv.Snapshot()
	_, err := w.Srv.AuthChangeSecret(w.CtxWith(w.id[r]), &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S(w.id[i]), Secret: env.S(w.sec[j])}, Secret: &neu})
	nd.Assert((err == nil) == (r == i && i == j), "a secret is changed exactly by its unlocked owner with the old secret or by another with the capability")
	if err != nil {
		nd.Reach("refused")
		nd.Assert(w.kv.Same(snap), "a refused change leaves everything as it was")
		return
	}
	nd.Reach("changed")
	nd.Assert(w.kv.SameBut(snap, "/entities/"+w.id[i]), "only the target changes")
	for _, s := range []string{neu, w.sec[i], w.sec[1-i], neu + "x", "new"} {
		_, aerr := w.Srv.AuthEntity(context.Background(), &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S(w.id[i])}, Secret: env.S(s)})
		nd.Assert((aerr == nil) == (s == neu), "only the new secret authenticates afterwards")
	}
}

//gosym:bounds a secret that is any of 31 strange texts or empty, set for a new entity, or for a stored one by its owner, by another or by a bootstrap
func VP_A06_strange() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	kv.PutEntity(&pb.Entity{ID: env.S("e"), Number: env.I(1), Secret: env.S(w.Cr.Seed("s")), Meta: &pb.EntityMeta{}})
	w.Load()
	sec := append([]string{""}, env.Strange...)[nd.Pick("secret", 1+len(env.Strange))]
	id := "e"
	var err error
	switch nd.Pick("way", 5) {
	case 0:
		id = "n"
		_, err = w.Srv.EntityCreate(w.CtxWith("z", env.AllCaps...), &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("n"), Number: env.I(2), Secret: &sec}})
	case 1:
		_, err = w.Srv.AuthChangeSecret(w.CtxWith("e"), &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S("e"), Secret: env.S("s")}, Secret: &sec})
	case 2:
		_, err = w.Srv.AuthChangeSecret(w.CtxWith("z", env.AllCaps...), &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S("e")}, Secret: &sec})
	case 3:
		w.Tree.Bootstrap("e", sec)
	case 4:
		id = "n"
		w.Tree.Bootstrap("n", sec)
	}
	nd.Assert(err == nil, "a secret can be set")
	nd.Reach("set")
	e := kv.Entity(id)
	nd.Assert(e != nil && e.GetSecret() != w.Cr.H[0] && w.Cr.Opens(sec, e.GetSecret()), "the persisted secret is the engine's output for the presented one")
}
