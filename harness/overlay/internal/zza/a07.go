package zza

import (
	"strings"

	"github.com/golang/protobuf/proto"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

//gosym:bounds 2 stored entities in group a (full fields), every one of the 35 requests with symbolic names of 1 byte (thorough: also names with path separators), root or no token; the stored handles must not occur anywhere in the serialised response
func VP_A07_responses() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	seedTwo(w, kv)
	r := w.AnyOf(env.RPCs, &env.Gen{Name: nameAC, Text: func(l string) string { return "x" }, Shapes: 2})
	ctx := env.Ctx("")
	if nd.Bool("root") {
		ctx = w.CtxWith("a", env.AllCaps...)
	}
	noLeak(w, r, func() (proto.Message, error) { return r.Call(ctx) })
}

// names that might reach objects of the other kind
var strange = []string{"../entities/a", "../groups/a", "./a", "a/", "/a", "a/../a", "..", "", "../../entities/a", "*"}

//gosym:bounds as above for the reading requests, with the names listed in "strange" (path separators, dot segments, empty, wildcard)
func VP_A07_strange() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	seedTwo(w, kv)
	n := strange[nd.Pick("name", len(strange))]
	r := w.AnyOf([]string{"EntityInfo", "EntityGroups", "GroupInfo", "GroupMembers", "EntityKVGet", "GroupKVGet", "EntityUM", "GroupUM", "EntityKeys"},
		&env.Gen{Name: func(string) string { return n }, Text: func(l string) string { return "*" }, Shapes: 1})
	noLeak(w, r, func() (proto.Message, error) { return r.Call(w.CtxWith("z")) })
}

func noLeak(w *env.World, r *env.Req, call func() (proto.Message, error)) {
	seeded := len(w.Cr.H)
	res, err := call()
	nd.NoteBool("ok", err == nil)
	if err == nil {
		nd.Reach("answered")
	} else {
		for i := 0; i < seeded; i++ {
			nd.Assert(!strings.Contains(err.Error(), w.Cr.H[i]), "no error discloses a stored secret")
		}
	}
	b, merr := proto.Marshal(res)
	nd.Assert(merr == nil, "the response can be sent")
	for i := 0; i < len(w.Cr.H); i++ {
		nd.Assert(!strings.Contains(string(b), w.Cr.H[i]), "no response discloses a stored secret")
	}
}

//gosym:bounds 2 stored entities whose records hold the secrets alpha1 and beta2; a search for either in the secret field, by a holder of root or nobody
func VP_A07_search() {
	w := env.NewWorld(env.NewStore())
	for i, h := range []string{"alpha1", "beta2"} {
		w.KV.PutEntity(&pb.Entity{ID: env.S([]string{"a", "b"}[i]), Number: env.I(int32(i + 1)), Secret: env.S(h), Meta: &pb.EntityMeta{DisplayName: env.S("n")}})
	}
	w.Load()
	ctx := env.Ctx("")
	if nd.Bool("root") {
		ctx = w.CtxWith("a", env.AllCaps...)
	}
	q := []string{"secret:alpha1", "secret:beta2"}[nd.Pick("q", 2)]
	r, err := w.Srv.EntitySearch(ctx, &rpc.SearchRequest{Expression: &q})
	nd.Assert(err != nil || len(r.GetEntities()) == 0, "whether a search finds an entity does not depend on its secret")
	q = "meta.DisplayName:n"
	r, err = w.Srv.EntitySearch(ctx, &rpc.SearchRequest{Expression: &q})
	if err == nil && len(r.GetEntities()) == 2 {
		nd.Reach("found by name")
	}
}
