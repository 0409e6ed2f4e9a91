package zza

import (
	"strings"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
)

//gosym:bounds 2 stored entities, any request that carries a secret with symbolic name (1 byte) and 1..2 byte secret or one that has the form of a bcrypt hash or equals a stored secret, full or minimal contents; crypto engine working or failing; or a bootstrap
func VP_A06_stored() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	seedTwo(w, kv)
	snap := kv.Snapshot()
	seeded := len(w.Cr.H)
	w.Cr.Fail = nd.Bool("cryptoFails")
	sec := ""
	switch nd.Pick("looks like a hash", 3) {
	case 0:
		sec = nd.Str("newsecret", 1, 2, "")
	case 1:
		// the form of what the shipped engine makes
		sec = "$2a$15$abcdefghijklmnopqrstuuXYZ0123456789ABCDEFGHIJKLMNOPQRS"
	case 2:
		// a stored secret presented again
		sec = w.Cr.H[0]
	}
	name := nameAC("name")
	texts := func(l string) string {
		if strings.HasSuffix(l, "secret") {
			return sec
		}
		return "t"
	}
	names := func(l string) string {
		if strings.HasSuffix(l, ".id") || strings.HasSuffix(l, "target") {
			return name
		}
		return "a"
	}
	k := nd.Pick("op", len(env.MutatingRPCs)+1)
	var err error
	sets := false
	if k == len(env.MutatingRPCs) {
		w.Tree.Bootstrap(name, sec)
		sets = !w.Cr.Fail
		if w.Cr.Fail {
			nd.Assert(kv.Same(snap), "a failed bootstrap persists nothing")
		}
		nd.Reach("bootstrap")
	} else {
		r := w.Request(env.MutatingRPCs[k], &env.Gen{Name: names, Text: texts, Shapes: 2})
		_, err = r.Call(w.CtxWith("z", env.AllCaps...))
		sets = err == nil && (r.Name == "EntityCreate" || r.Name == "AuthChangeSecret")
		if r.Name == "EntityCreate" && r.Secret == nil {
			// nothing presented; the engine secures the empty string
			sec = ""
		}
		if err != nil {
			nd.Reach("refused")
			nd.Assert(kv.Same(snap), "a failed request persists nothing")
		}
	}
	nd.NoteBool("ok", err == nil)
	if sets {
		nd.Reach("set")
		e := kv.Entity(name)
		nd.Assert(e != nil && w.Cr.Opens(sec, e.GetSecret()) && !w.Cr.Fail, "the persisted secret is the engine's output for the presented one")
	}
	for _, id := range []string{"a", "b", "c"} {
		e := kv.Entity(id)
		if e == nil {
			continue
		}
		issued := false
		for i, h := range w.Cr.H {
			if e.GetSecret() == h && (i < seeded || sets && name == id) {
				issued = true
			}
			if i < seeded && !(sets && name == id) && h == e.GetSecret() {
				nd.Assert(w.Cr.S[i] == "s"+id, "other secrets stay as they were")
			}
		}
		nd.Assert(issued, "every persisted secret came from the engine")
		_ = pb.Capability_GLOBAL_ROOT
	}
}
