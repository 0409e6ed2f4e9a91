// Package zze checks properties about faults, concurrency and stores.
package zze

import (
	_ "github.com/netauth/netauth/internal/tree/hooks"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
)

func kvd(k string, v ...string) *pb.KVData {
	d := &pb.KVData{Key: env.S(k)}
	for i := range v {
		d.Values = append(d.Values, &pb.KVValue{Value: env.S(v[i])})
	}
	return d
}

// seed stores entities e and f and groups g, h and i.
func seed(w *env.World, kv *env.Store) {
	ent := func(id string, n int32, groups ...string) {
		kv.PutEntity(&pb.Entity{ID: env.S(id), Number: env.I(n), Secret: env.S(w.Cr.Seed("s" + id)), Meta: &pb.EntityMeta{
			GECOS: env.S("gecos"), Shell: env.S("shell"), Groups: groups, Capabilities: []pb.Capability{pb.Capability_LOCK_ENTITY}, Keys: []string{"SSH:k"},
			UntypedMeta: []string{"k:v"}, KV: []*pb.KVData{kvd("k", "1")}}})
	}
	ent("e", 1, "g")
	ent("f", 2, "h", "i")
	grp := func(n string, num int32, mb string, exp ...string) {
		kv.PutGroup(&pb.Group{Name: env.S(n), Number: env.I(num), DisplayName: env.S("dn"), ManagedBy: env.S(mb),
			Capabilities: []pb.Capability{pb.Capability_LOCK_ENTITY}, UntypedMeta: []string{"k:v"}, KV: []*pb.KVData{kvd("k", "1")}, Expansions: exp})
	}
	grp("g", 1, "h", "INCLUDE:i")
	grp("h", 2, "")
	grp("i", 3, "", "EXCLUDE:h")
	w.Load()
}

// rewind restores the store and the server to an earlier state.
func rewind(w *env.World, s env.Snap, handles int) {
	w.KV.K = append([]string{}, s.K...)
	w.KV.V = append([][]byte{}, s.V...)
	w.KV.FailAt = -1
	w.KV.Hook = nil
	w.Cr.Fail = false
	w.Cr.H, w.Cr.S = w.Cr.H[:handles], w.Cr.S[:handles]
	w.Boot()
	w.Load()
}

// gen draws names among the stored objects and a missing one.
func gen() *env.Gen {
	return &env.Gen{Name: func(l string) string {
		switch l {
		case "entity.id":
			return nd.Choose(l, "e", "n")
		case "target", "group.name", "target.name":
			return nd.Choose(l, "g", "e", "i", "n")
		case "entity.meta.grp", "group.mb":
			return nd.Choose(l, "g", "h")
		}
		return "h"
	}, Text: func(l string) string {
		switch l {
		case "data.key", "key":
			return nd.Choose(l, "k", "x")
		case "secret", "entity.secret":
			return "se"
		}
		return "t"
	}, Shapes: 1}
}
