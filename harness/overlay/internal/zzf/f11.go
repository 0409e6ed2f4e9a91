package zzf

import (
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

func redacted(e *pb.Entity) *pb.Entity {
	c := proto.Clone(e).(*pb.Entity)
	c.Secret = nil
	return c
}

// searches compares what searches find with the store.
func searches(w *env.World) {
	for _, q := range []string{"*", "meta.DisplayName:alpha", "meta.DisplayName:beta"} {
		var want []string
		for _, id := range []string{"e1", "e2"} {
			if e := w.KV.Entity(id); e != nil && (q == "*" || "meta.DisplayName:"+e.GetMeta().GetDisplayName() == q) {
				want = append(want, id)
			}
		}
		r, err := w.Srv.EntitySearch(env.Ctx(""), &rpc.SearchRequest{Expression: env.S(q)})
		nd.Assert(err == nil, "a search for entities succeeds")
		var got []string
		for _, e := range r.GetEntities() {
			got = append(got, e.GetID())
			s := w.KV.Entity(e.GetID())
			nd.Assert(s != nil, "a search finds only stored entities")
			nd.Assert(e.GetSecret() == "" || e.GetSecret() == "<REDACTED>", "a search does not reveal secrets")
			a, b := redacted(e), redacted(s)
			nd.Assert(proto.Equal(a, b), "a search returns the stored entity")
		}
		sort.Strings(got)
		same(got, want, "entities")
		if len(got) == 1 && q != "*" {
			nd.Reach("entity found by content")
		}
	}
	for _, q := range []string{"*", "DisplayName:alpha", "DisplayName:beta"} {
		var want []string
		for _, id := range []string{"g1", "g2"} {
			if g := w.KV.Group(id); g != nil && (q == "*" || "DisplayName:"+g.GetDisplayName() == q) {
				want = append(want, id)
			}
		}
		r, err := w.Srv.GroupSearch(env.Ctx(""), &rpc.SearchRequest{Expression: env.S(q)})
		nd.Assert(err == nil, "a search for groups succeeds")
		var got []string
		for _, g := range r.GetGroups() {
			got = append(got, g.GetName())
			s := w.KV.Group(g.GetName())
			nd.Assert(s != nil && proto.Equal(g, s), "a search returns the stored group")
		}
		sort.Strings(got)
		same(got, want, "groups")
		if len(got) == 1 && q != "*" {
			nd.Reach("group found by content")
		}
	}
}

func same(got, want []string, kind string) {
	ok := len(got) == len(want)
	for i := range want {
		ok = ok && got[i] == want[i]
	}
	if kind == "entities" {
		nd.Assert(ok, "a search finds exactly the entities that match")
	} else {
		nd.Assert(ok, "a search finds exactly the groups that match")
	}
}

//gosym:bounds every history of 2 (thorough 3) requests to create, change, and destroy two entities and two groups, or to restart the server, on top of a store that has one of each, under the same number or new ones, with or without storage events in both directions; searches for everything and for the words of display names; the text analysis and the query language of the engine are outside
func VP_F11_coherence() {
	w := env.NewWorld(env.NewStore())
	num := []int32{-1, 1}[nd.Pick("number", 2)]
	e := &pb.Entity{ID: env.S("e1"), Number: env.I(1), Secret: env.S("x"), Meta: &pb.EntityMeta{DisplayName: env.S("alpha")}}
	w.KV.PutEntity(e)
	w.KV.PutGroup(&pb.Group{Name: env.S("g1"), Number: env.I(1), DisplayName: env.S("alpha")})
	w.Load()
	ctx := w.CtxWith("admin", pb.Capability_GLOBAL_ROOT)
	n := 2
	if nd.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		id := []string{"1", "2"}[nd.Pick("target", 2)]
		word := []string{"alpha", "beta"}[nd.Pick("word", 2)]
		var err error
		switch nd.Choose("op", "create entity", "change entity", "destroy entity", "create group", "change group", "destroy group", "join", "restart") {
		case "create entity":
			_, err = w.Srv.EntityCreate(ctx, &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("e" + id), Number: env.I(num), Secret: env.S("s")}})
		case "change entity":
			_, err = w.Srv.EntityUpdate(ctx, &rpc.EntityRequest{Data: &pb.Entity{ID: env.S("e" + id), Meta: &pb.EntityMeta{DisplayName: env.S(word)}}})
		case "destroy entity":
			_, err = w.Srv.EntityDestroy(ctx, &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("e" + id)}})
		case "create group":
			_, err = w.Srv.GroupCreate(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: env.S("g" + id), DisplayName: env.S(word), Number: env.I(num)}})
		case "change group":
			_, err = w.Srv.GroupUpdate(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: env.S("g" + id), DisplayName: env.S(word)}})
		case "destroy group":
			_, err = w.Srv.GroupDestroy(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: env.S("g" + id)}})
		case "join":
			_, err = w.Srv.GroupAddMember(ctx, &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("e" + id), Meta: &pb.EntityMeta{Groups: []string{"g1"}}}})
		case "restart":
			w.Boot()
			w.Load()
		}
		if err == nil && i > 0 {
			nd.Reach("succeeded later")
		}
		if err != nil {
			nd.Reach("failed")
		}
		searches(w)
	}
}

//gosym:bounds 40 or 110 entities and as many groups, each number in use twice, half of them with names of 41 characters, each found by one search, with any of four of them changed or removed before by any writer
func VP_F11_many() {
	w := env.NewWorld(env.NewStore())
	var ids []string
	n := 40
	if nd.Bool("more") {
		n = 110
	}
	for i := 0; i < n; i++ {
		n := string('A' + rune(i))
		if i%2 == 1 {
			n += strings.Repeat("n", 40)
		}
		ids = append(ids, n)
		w.KV.PutEntity(&pb.Entity{ID: env.S(n), Number: env.I(int32(i / 2))})
		w.KV.PutGroup(&pb.Group{Name: env.S(n), Number: env.I(int32(i / 2))})
	}
	w.Load()
	k := []int{0, 9, 26, n - 1}[nd.Pick("which", 4)]
	gone := nd.Bool("gone")
	if gone {
		nd.Assert(w.KV.Del("/entities/"+ids[k]) == nil && w.KV.Del("/groups/"+ids[k]) == nil, "the store works")
	} else {
		nd.Assert(w.DB.SaveEntity(&pb.Entity{ID: env.S(ids[k]), Number: env.I(77)}) == nil && w.DB.SaveGroup(&pb.Group{Name: env.S(ids[k]), Number: env.I(77)}) == nil, "the store works")
	}
	r, err := w.Srv.EntitySearch(env.Ctx(""), &rpc.SearchRequest{Expression: env.S("*")})
	g, err2 := w.Srv.GroupSearch(env.Ctx(""), &rpc.SearchRequest{Expression: env.S("*")})
	nd.Assert(err == nil && err2 == nil, "a search of a large store succeeds")
	var es, gs []string
	for _, e := range r.GetEntities() {
		es = append(es, e.GetID())
		nd.Assert(gone || e.GetID() != ids[k] || e.GetNumber() == 77, "a search returns the stored entity")
	}
	for _, x := range g.GetGroups() {
		gs = append(gs, x.GetName())
		nd.Assert(gone || x.GetName() != ids[k] || x.GetNumber() == 77, "a search returns the stored group")
	}
	sort.Strings(es)
	sort.Strings(gs)
	want := ids
	if gone {
		want = append(append([]string{}, ids[:k]...), ids[k+1:]...)
		nd.Reach("one removed")
	}
	same(es, want, "entities")
	same(gs, want, "groups")
}

//gosym:bounds two entities and two groups whose names are strange texts that a careless comparison would take for each other, both there, or one removed or changed; found by one search
func VP_F11_strange() {
	w := env.NewWorld(env.NewStore())
	a := env.Names[nd.Pick("name", len(env.Names))]
	l := env.Alike(a)
	b := l[nd.Pick("alike", len(l))]
	nd.Assume(env.Valid(b))
	ids := []string{a, b}
	for i, n := range ids {
		w.KV.PutEntity(&pb.Entity{ID: env.S(n), Number: env.I(int32(i))})
		w.KV.PutGroup(&pb.Group{Name: env.S(n), Number: env.I(int32(i))})
	}
	w.Load()
	k := nd.Pick("which", 2)
	ctx := w.CtxWith("admin", pb.Capability_GLOBAL_ROOT)
	op := nd.Pick("op", 2)
	var e1, e2 error
	if op == 0 {
		_, e1 = w.Srv.EntityDestroy(ctx, &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S(ids[k])}})
		_, e2 = w.Srv.GroupDestroy(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: env.S(ids[k])}})
	} else {
		_, e1 = w.Srv.EntityUpdate(ctx, &rpc.EntityRequest{Data: &pb.Entity{ID: env.S(ids[k]), Meta: &pb.EntityMeta{GECOS: env.S("new")}}})
		_, e2 = w.Srv.GroupUpdate(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: env.S(ids[k]), DisplayName: env.S("new")}})
	}
	nd.Assert(e1 == nil && e2 == nil, "the objects can be changed")
	r, err := w.Srv.EntitySearch(env.Ctx(""), &rpc.SearchRequest{Expression: env.S("*")})
	g, err2 := w.Srv.GroupSearch(env.Ctx(""), &rpc.SearchRequest{Expression: env.S("*")})
	nd.Assert(err == nil && err2 == nil, "a search succeeds")
	var es, gs []string
	for _, e := range r.GetEntities() {
		es = append(es, e.GetID())
		nd.Assert((e.GetMeta().GetGECOS() == "new") == (e.GetID() == ids[k]), "a search returns the stored entity")
	}
	for _, x := range g.GetGroups() {
		gs = append(gs, x.GetName())
		nd.Assert((x.GetDisplayName() == "new") == (x.GetName() == ids[k]), "a search returns the stored group")
	}
	want := []string{a, b}
	if op == 0 {
		want = []string{ids[1-k]}
		nd.Reach("one removed")
	} else {
		nd.Reach("one changed")
	}
	sort.Strings(es)
	sort.Strings(gs)
	sort.Strings(want)
	same(es, want, "entities")
	same(gs, want, "groups")
}
