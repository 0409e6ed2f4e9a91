package zzb

import (
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
)

func sameCaps(a, b []pb.Capability) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		in := false
		for j := range b {
			in = nd.Or(in, a[i] == b[j])
		}
		if !in {
			return false
		}
	}
	return true
}

//gosym:bounds 2 entities, 2 groups with one capability each and every other field, or with no optional field; one request (thorough: two) of any mutating kind with 1-byte symbolic names and full contents, which include capability fields; requester with every capability except root, delegated manager of both groups
func VP_B04_elsewhere() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	bare := nd.Bool("bare")
	seed(w, kv, setup{in: map[string]bool{"a": true}, managed: map[string]string{"a": "a", "b": "a"}, bare: bare})
	caps := []pb.Capability{}
	for _, c := range env.AllCaps {
		if c != pb.Capability_GLOBAL_ROOT {
			caps = append(caps, c)
		}
	}
	n := 1
	if nd.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		r := w.AnyOf(env.MutatingRPCs, &env.Gen{Name: nameAC, Text: text, Shapes: 1})
		_, err := r.Call(w.CtxWith("a", caps...))
		if err == nil {
			nd.Reach("done")
		}
		for _, id := range []string{"a", "b", "c"} {
			if e := kv.Entity(id); e != nil {
				if id == "c" || bare {
					nd.Assert(len(e.GetMeta().GetCapabilities()) == 0, "a new entity has no capabilities")
				} else if !(r.Name == "EntityCreate") {
					nd.Assert(len(e.GetMeta().GetCapabilities()) == 1 && e.GetMeta().GetCapabilities()[0] == pb.Capability_LOCK_ENTITY || n > 1 && len(e.GetMeta().GetCapabilities()) == 0,
						"entity capabilities change only through root requests")
				}
			}
			if g := kv.Group(id); g != nil {
				if id == "c" || bare {
					nd.Assert(len(g.GetCapabilities()) == 0, "a new group has no capabilities")
				} else if !(r.Name == "GroupCreate") {
					nd.Assert(len(g.GetCapabilities()) == 1 && g.GetCapabilities()[0] == pb.Capability_CREATE_GROUP || n > 1 && len(g.GetCapabilities()) == 0,
						"group capabilities change only through root requests")
				}
			}
		}
		nd.NoteBool("ok", err == nil)
	}
}

//gosym:bounds as above with root: every request kind but capability administration
func VP_B04_root() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	bare := nd.Bool("bare")
	seed(w, kv, setup{bare: bare})
	names := []string{}
	for _, n := range env.MutatingRPCs {
		if n != "SystemCapabilities" {
			names = append(names, n)
		}
	}
	r := w.AnyOf(names, &env.Gen{Name: nameAC, Text: text, Shapes: 1})
	_, err := r.Call(w.CtxWith("a", pb.Capability_GLOBAL_ROOT))
	nd.NoteBool("ok", err == nil)
	if err == nil {
		nd.Reach("done")
	}
	for _, id := range []string{"a", "b", "c"} {
		if e := kv.Entity(id); e != nil {
			want := []pb.Capability{pb.Capability_LOCK_ENTITY}
			if id == "c" || bare {
				want = nil
			}
			nd.Assert(sameCaps(e.GetMeta().GetCapabilities(), want), "entity capabilities change only through capability administration")
		}
		if g := kv.Group(id); g != nil {
			want := []pb.Capability{pb.Capability_CREATE_GROUP}
			if id == "c" || bare {
				want = nil
			}
			nd.Assert(sameCaps(g.GetCapabilities(), want), "group capabilities change only through capability administration")
		}
	}
}
