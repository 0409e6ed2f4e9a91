package zzenv

import (
	pb "github.com/netauth/protocol"
)

// Kinds of stored objects. Requests must treat all of them alike.
const (
	Full  = iota // every field set
	Flag         // metadata hold the lock flag alone
	None         // no metadata at all unless locked
	Root         // holds the capability above all others, and some more
	Odd          // doubled, empty and dangling values
	Kinds        // number of kinds
)

// Shaped is a stored entity of the given kind.
func (w *World) Shaped(kind int, id string, num int32, sec string, lock bool, groups ...string) *pb.Entity {
	e := &pb.Entity{ID: S(id), Number: I(num), Secret: S(w.Cr.Seed(sec))}
	switch kind {
	case Full:
		e.Meta = &pb.EntityMeta{
			PrimaryGroup: S("p"), GECOS: S("g"), LegalName: S("l"), DisplayName: S("d"), Home: S("/h"), Shell: S("/s"), GraphicalShell: S("/x"), BadgeNumber: S("7"),
			Keys: []string{"SSH:k"}, UntypedMeta: []string{"k:v"}, Capabilities: []pb.Capability{pb.Capability_LOCK_ENTITY},
			KV: []*pb.KVData{{Key: S("x"), Values: []*pb.KVValue{{Value: S("1")}}}},
		}
	case Flag:
		e.Meta = &pb.EntityMeta{}
	case None:
		if !lock && len(groups) == 0 {
			return e
		}
		e.Meta = &pb.EntityMeta{}
	case Root:
		e.Meta = &pb.EntityMeta{Shell: S("/s"), Capabilities: []pb.Capability{pb.Capability_CREATE_ENTITY, pb.Capability_GLOBAL_ROOT, pb.Capability_UNLOCK_ENTITY}}
	case Odd:
		e.Meta = &pb.EntityMeta{
			PrimaryGroup: S(""), Shell: S(""), DisplayName: S("a long name with spaces: and, signs"), Keys: []string{"SSH:k", "SSH:k", ""}, UntypedMeta: []string{"k:v", "k:w", "k{0}:x"},
			Capabilities: []pb.Capability{pb.Capability_LOCK_ENTITY, pb.Capability_LOCK_ENTITY},
			KV:           []*pb.KVData{{Key: S("x")}, {Key: S(""), Values: []*pb.KVValue{{Value: S("")}}}},
		}
		e.Meta.Groups = append([]string{"nowhere"}, groups...)
	}
	if kind != Odd {
		e.Meta.Groups = append([]string(nil), groups...)
	}
	if kind != None || lock {
		e.Meta.Locked = B(lock)
	}
	return e
}

// ShapedGroup is a stored group of the given kind.
func ShapedGroup(kind int, name string, num int32, mgr string) *pb.Group {
	g := &pb.Group{Name: S(name), Number: I(num)}
	if mgr != "" {
		g.ManagedBy = S(mgr)
	}
	switch kind {
	case Full:
		g.DisplayName, g.Capabilities, g.UntypedMeta = S("d"), []pb.Capability{pb.Capability_CREATE_GROUP}, []string{"k:v"}
		g.KV = []*pb.KVData{{Key: S("x"), Values: []*pb.KVValue{{Value: S("1")}}}}
	case Root:
		g.Capabilities = []pb.Capability{pb.Capability_DESTROY_GROUP, pb.Capability_GLOBAL_ROOT}
	case Odd:
		g.DisplayName = S("a long name with spaces: and, signs")
		g.Capabilities = []pb.Capability{pb.Capability_CREATE_GROUP, pb.Capability_CREATE_GROUP}
		g.UntypedMeta = []string{"k:v", "k:w", "k{0}:x"}
		g.KV = []*pb.KVData{{Key: S("x")}, {Key: S(""), Values: []*pb.KVValue{{Value: S("")}}}}
	}
	return g
}
