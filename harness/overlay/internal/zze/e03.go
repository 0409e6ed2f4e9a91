package zze

import (
	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/db/memory"
	"github.com/netauth/netauth/internal/mresolver"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/pkg/netauth/cache"
	_ "github.com/netauth/netauth/pkg/netauth/cache/memory"
)

func resolver() *mresolver.MResolver {
	r := mresolver.New()
	r.SyncGroup("g0", nil, nil)
	r.SyncGroup("g1", []string{"g0"}, nil)
	r.SyncGroup("g2", []string{"g1"}, []string{"g3"})
	r.SyncDirectGroups("e", []string{"g0"})
	r.SyncDirectGroups("f", []string{"g1", "g3"})
	return r
}

// resolverOp is one of the resolver's operations.
func resolverOp(r *mresolver.MResolver, op int) func() {
	g := "g" + nd.Str("group", 1, 1, "0-3")
	e := nd.Str("entity", 1, 1, "e-g")
	switch op {
	case 0:
		return func() { r.SyncDirectGroups(e, []string{g}) }
	case 1:
		return func() { r.RemoveEntity(e) }
	case 2:
		return func() { r.SyncGroup(g, nil, nil) }
	case 3:
		return func() { r.SyncGroup("g4", []string{g}, nil) }
	case 4:
		return func() { r.SyncGroup("g4", nil, []string{g}) }
	case 5:
		return func() { r.RemoveGroup(g) }
	case 6:
		return func() { r.MembersOfGroup(g) }
	case 7:
		return func() { r.GroupsForEntity(e) }
	}
	return func() { r.Resolve(g) }
}

//gosym:bounds any two of the resolver's nine operations with symbolic group (of 4) and entity (of 3), from a state with chains of includes and an exclude: lock sets of conflicting accesses to the resolver's memory
func VP_E03_resolver() {
	r := resolver()
	f := resolverOp(r, nd.Pick("first", 9))
	g := resolverOp(r, nd.Pick("second", 9))
	nd.Reach("raced")
	nd.Race([]interface{}{r}, f, g, "resolver operations")
}

//gosym:bounds every resolver operation followed by a writer on each lock and a reader: no lock is left held, no operation waits for itself
func VP_E03_resolver_locks() {
	r := resolver()
	resolverOp(r, nd.Pick("op", 9))()
	nd.Reach("returned")
	r.SyncDirectGroups("x", []string{"x"})
	r.SyncGroup("x", nil, nil)
	r.MembersOfGroup("x")
	nd.Assert(len(r.GroupsForEntity("x")) > 0, "the resolver is usable after any operation")
}

func storeOp(kv db.KVStore, op int) func() {
	k := "/entities/" + nd.Str("key", 1, 1, "a-c")
	switch op {
	case 0:
		return func() { kv.Put(k, []byte("v")) }
	case 1:
		return func() { kv.Get(k) }
	case 2:
		return func() { kv.Del(k) }
	}
	return func() { kv.Keys("/entities/*") }
}

func memoryStore() db.KVStore {
	kv, err := memory.NewKV(hclog.NewNullLogger())
	if err != nil {
		panic(err)
	}
	kv.SetEventFunc(func(db.Event) {})
	kv.Put("/entities/a", []byte("1"))
	kv.Put("/entities/b", []byte("2"))
	return kv
}

//gosym:bounds any two operations of the in-memory store on a symbolic key of 3, two of them present
func VP_E03_store() {
	kv := memoryStore()
	f := storeOp(kv, nd.Pick("first", 4))
	g := storeOp(kv, nd.Pick("second", 4))
	nd.Reach("raced")
	nd.Race([]interface{}{kv}, f, g, "store operations")
}

//gosym:bounds every operation of the in-memory store, then one that needs its lock
func VP_E03_store_locks() {
	kv := memoryStore()
	storeOp(kv, nd.Pick("op", 4))()
	nd.Reach("returned")
	kv.Put("/groups/x", []byte("y"))
	v, err := kv.Get("/groups/x")
	nd.Assert(err == nil && string(v) == "y", "the store is usable after any operation")
	// the event for a change may read the store
	kv.SetEventFunc(func(e db.Event) { kv.Get("/entities/a") })
	kv.Put("/entities/a", []byte("3"))
	nd.Assert(kv.Del("/entities/a") == nil, "a change announces itself without holding the lock")
}

func cacheOp(c cache.TokenCache, op int) func() {
	o := nd.Str("owner", 1, 1, "a-c")
	switch op {
	case 0:
		return func() { c.PutToken(o, "t") }
	case 1:
		return func() { c.GetToken(o) }
	}
	return func() { c.DelToken(o) }
}

//gosym:bounds any two operations of the in-memory token cache on a symbolic owner of 3, and every operation followed by one that needs its lock
func VP_E03_cache() {
	c, err := cache.NewTokenCache("memory")
	if err != nil {
		panic(err)
	}
	c.PutToken("a", "1")
	if nd.Bool("locks") {
		cacheOp(c, nd.Pick("op", 3))()
		c.PutToken("x", "y")
		v, err := c.GetToken("x")
		nd.Assert(err == nil && v == "y", "the cache is usable after any operation")
		return
	}
	f := cacheOp(c, nd.Pick("first", 3))
	g := cacheOp(c, nd.Pick("second", 3))
	nd.Reach("raced")
	nd.Race([]interface{}{c}, f, g, "cache operations")
}

//gosym:bounds any two requests of any kind with full contents naming the same stored objects (of the same kind also different ones), by requesters with every capability: lock sets of conflicting accesses to memory of the server, tree, resolver, database layer and search callbacks
//gosym:weight 2
func VP_E03_requests() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	seed(w, kv)
	g := &env.Gen{Name: func(l string) string {
		if l == "entity.id" || nd.Thorough() && l == "target" {
			return "e"
		}
		return "g"
	}, Text: func(string) string { return "t" }, Shapes: 1}
	all := env.MutatingRPCs
	if nd.Thorough() {
		all = env.RPCs
	}
	a := w.AnyOf(env.RPCs, g)
	kind := all[nd.Pick("second", len(all))]
	if kind == a.Name && nd.Bool("other objects") {
		g = &env.Gen{Name: func(l string) string {
			if l == "entity.id" || nd.Thorough() && l == "target" {
				return "f"
			}
			return "h"
		}, Text: g.Text, Shapes: 1}
	}
	b := w.Request(kind, g)
	actx, bctx := w.CtxWith("z", env.AllCaps...), w.CtxWith("y", env.AllCaps...)
	nd.Reach("raced")
	nd.Race([]interface{}{w.Srv, w.Tree, w.DB}, func() { a.Call(actx) }, func() { b.Call(bctx) }, "requests")
}
