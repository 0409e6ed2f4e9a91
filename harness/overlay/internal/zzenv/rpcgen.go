package zzenv

import (
	"context"

	"github.com/golang/protobuf/proto"

	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

// Req is one remote request with symbolic contents.
type Req struct {
	Name   string
	Mut    bool          // may change stored state
	Root   bool          // needs root itself
	Cap    pb.Capability // the capability documented for it
	Group  bool          // names a group
	Target string
	// Targets are all groups named by a membership request.
	Targets []string
	Secret  *string
	Call    func(ctx context.Context) (proto.Message, error)
}

// Gen describes how request contents are drawn.
type Gen struct {
	Name func(l string) string // object names
	Text func(l string) string // free text
	// Shapes: how many shapes of optional parts are explored: 1 full,
	// 2 full and minimal, 3 full, minimal and absent.
	Shapes int
	// NoKV leaves key/value data out of full shapes
	NoKV bool
}

// RPC names, in the order of Pick.
var RPCs = []string{
	"EntityCreate", "EntityUpdate", "EntityInfo", "EntitySearch", "EntityUM", "EntityKVAdd", "EntityKVGet", "EntityKVDel", "EntityKVReplace",
	"EntityKeys", "EntityDestroy", "EntityLock", "EntityUnlock", "EntityGroups", "AuthEntity", "AuthGetToken", "AuthValidateToken", "AuthChangeSecret",
	"GroupCreate", "GroupUpdate", "GroupInfo", "GroupUM", "GroupKVAdd", "GroupKVGet", "GroupKVDel", "GroupKVReplace", "GroupUpdateRules",
	"GroupAddMember", "GroupDelMember", "GroupDestroy", "GroupMembers", "GroupSearch", "SystemCapabilities", "SystemPing", "SystemStatus",
}

// MutatingRPCs are those that may change stored state.
var MutatingRPCs = []string{
	"EntityCreate", "EntityUpdate", "EntityUM", "EntityKVAdd", "EntityKVDel", "EntityKVReplace", "EntityKeys", "EntityDestroy", "EntityLock",
	"EntityUnlock", "AuthChangeSecret", "GroupCreate", "GroupUpdate", "GroupUM", "GroupKVAdd", "GroupKVDel", "GroupKVReplace", "GroupUpdateRules",
	"GroupAddMember", "GroupDelMember", "GroupDestroy", "SystemCapabilities",
}

func (g *Gen) shape(l string) int {
	n := g.Shapes
	if n < 1 {
		n = 1
	}
	return nd.Pick(l, n)
}

// KVData draws one key/value record; nil in the absent shape.
func (g *Gen) KVData(l string) *pb.KVData {
	switch g.shape(l + ".shape") {
	case 0:
		return &pb.KVData{Key: S(g.Text(l + ".key")), Values: []*pb.KVValue{{Value: S(g.Text(l + ".val"))}}}
	case 1:
		return &pb.KVData{Key: S(g.Text(l + ".key"))}
	}
	return nil
}

// Meta draws entity metadata with every field present.
func (g *Gen) Meta(l string) *pb.EntityMeta {
	switch g.shape(l + ".shape") {
	case 0:
		m := &pb.EntityMeta{
			PrimaryGroup: S(g.Text(l + ".pg")), GECOS: S(g.Text(l + ".gecos")), LegalName: S("Legal"), DisplayName: S("Display"),
			Home: S("/h"), Shell: S("/s"), GraphicalShell: S("/gs"), BadgeNumber: S("77"), Locked: B(nd.Bool(l + ".locked")),
			Groups: []string{g.Name(l + ".grp")}, Capabilities: []pb.Capability{SymCap(l + ".cap")}, Keys: []string{"SSH:" + g.Text(l+".sshkey")},
			UntypedMeta: []string{g.Text(l+".um") + ":v"},
		}
		if !g.NoKV {
			m.KV = []*pb.KVData{{Key: S("mk"), Values: []*pb.KVValue{{Value: S("mv")}}}}
		}
		return m
	case 1:
		return &pb.EntityMeta{}
	}
	return nil
}

// Entity draws an entity with every field present.
func (g *Gen) Entity(l string) *pb.Entity {
	switch g.shape(l + ".shape") {
	case 0:
		return &pb.Entity{ID: S(g.Name(l + ".id")), Number: I(nd.Int32(l + ".number")), Secret: S(g.Text(l + ".secret")), Meta: g.Meta(l + ".meta")}
	case 1:
		return &pb.Entity{ID: S(g.Name(l + ".id"))}
	}
	return nil
}

// GroupMsg draws a group with every field present.
func (g *Gen) GroupMsg(l string) *pb.Group {
	switch g.shape(l + ".shape") {
	case 0:
		x := &pb.Group{Name: S(g.Name(l + ".name")), DisplayName: S(g.Text(l + ".dn")), Number: I(nd.Int32(l + ".number")), ManagedBy: S(g.Name(l + ".mb")),
			Capabilities: []pb.Capability{SymCap(l + ".cap")}, Expansions: []string{"INCLUDE:" + g.Name(l+".exp")}, UntypedMeta: []string{g.Text(l+".um") + ":v"}}
		if !g.NoKV {
			x.KV = []*pb.KVData{{Key: S("mk"), Values: []*pb.KVValue{{Value: S("mv")}}}}
		}
		return x
	case 1:
		return &pb.Group{Name: S(g.Name(l + ".name"))}
	}
	return nil
}

// decoy fills the part of a request that the request has no use for with
// another entity.
func (g *Gen) decoy() *pb.Entity {
	return &pb.Entity{ID: S("b"), Number: I(9), Secret: S("decoy"), Meta: &pb.EntityMeta{GECOS: S("decoy"), Locked: B(false), Groups: []string{"b"},
		Capabilities: []pb.Capability{pb.Capability_GLOBAL_ROOT}, Keys: []string{"SSH:decoy"}}}
}

func (g *Gen) action(l string, opts ...rpc.Action) rpc.Action {
	return opts[nd.Pick(l, len(opts))]
}

// Request draws the named request.
func (w *World) Request(name string, g *Gen) *Req {
	r := &Req{Name: name}
	entityReq := func(mut bool, cap pb.Capability, f func(context.Context, *rpc.EntityRequest) (proto.Message, error)) {
		e := g.Entity("entity")
		r.Mut, r.Cap, r.Target = mut, cap, e.GetID()
		if e != nil {
			r.Secret = e.Secret
		}
		m := &rpc.EntityRequest{Entity: e}
		if e.GetMeta() != nil {
			m.Data = g.decoy()
		}
		r.Call = func(ctx context.Context) (proto.Message, error) { return f(ctx, proto.Clone(m).(*rpc.EntityRequest)) }
	}
	groupReq := func(mut bool, cap pb.Capability, f func(context.Context, *rpc.GroupRequest) (proto.Message, error)) {
		x := g.GroupMsg("group")
		r.Mut, r.Cap, r.Target, r.Group = mut, cap, x.GetName(), true
		m := &rpc.GroupRequest{Group: x}
		r.Call = func(ctx context.Context) (proto.Message, error) { return f(ctx, proto.Clone(m).(*rpc.GroupRequest)) }
	}
	// Every call gets a message of its own: handlers may change theirs.
	kv2 := func(mut, group bool, f func(context.Context, *rpc.KV2Request) (proto.Message, error)) {
		m := &rpc.KV2Request{Target: S(g.Name("target")), Data: g.KVData("data")}
		r.Mut, r.Target, r.Group, r.Cap = mut, m.GetTarget(), group, pb.Capability_MODIFY_ENTITY_META
		if group {
			r.Cap = pb.Capability_MODIFY_GROUP_META
		}
		r.Call = func(ctx context.Context) (proto.Message, error) { return f(ctx, proto.Clone(m).(*rpc.KV2Request)) }
	}
	kv := func(group bool, cap pb.Capability, a rpc.Action, f func(context.Context, *rpc.KVRequest) (proto.Message, error)) {
		m := &rpc.KVRequest{Target: S(g.Name("target")), Action: &a, Key: S(g.Text("key")), Value: S(g.Text("value"))}
		r.Mut, r.Target, r.Group, r.Cap = a != rpc.Action_READ, m.GetTarget(), group, cap
		r.Call = func(ctx context.Context) (proto.Message, error) { return f(ctx, m) }
	}
	switch name {
	case "EntityCreate":
		entityReq(true, pb.Capability_CREATE_ENTITY, func(c context.Context, m *rpc.EntityRequest) (proto.Message, error) { return w.Srv.EntityCreate(c, m) })
	case "EntityUpdate":
		e := g.Entity("entity")
		m := &rpc.EntityRequest{Data: e}
		if e.GetMeta() != nil {
			m.Entity = g.decoy()
		}
		r.Mut, r.Cap, r.Target = true, pb.Capability_MODIFY_ENTITY_META, e.GetID()
		if e != nil {
			r.Secret = e.Secret
		}
		r.Call = func(ctx context.Context) (proto.Message, error) {
			return w.Srv.EntityUpdate(ctx, proto.Clone(m).(*rpc.EntityRequest))
		}
	case "EntityInfo":
		entityReq(false, 0, func(c context.Context, m *rpc.EntityRequest) (proto.Message, error) { return w.Srv.EntityInfo(c, m) })
	case "EntitySearch", "GroupSearch":
		m := &rpc.SearchRequest{Expression: S([]string{"*", ""}[nd.Pick("expr", 2)])}
		r.Group = name == "GroupSearch"
		r.Call = func(ctx context.Context) (proto.Message, error) {
			if r.Group {
				return w.Srv.GroupSearch(ctx, m)
			}
			return w.Srv.EntitySearch(ctx, m)
		}
	case "EntityUM":
		a := g.action("action", rpc.Action_UPSERT, rpc.Action_CLEAREXACT, rpc.Action_CLEARFUZZY, rpc.Action_READ, rpc.Action_ADD)
		kv(false, pb.Capability_MODIFY_ENTITY_META, a, func(c context.Context, m *rpc.KVRequest) (proto.Message, error) { return w.Srv.EntityUM(c, m) })
	case "GroupUM":
		a := g.action("action", rpc.Action_UPSERT, rpc.Action_CLEAREXACT, rpc.Action_CLEARFUZZY, rpc.Action_READ, rpc.Action_ADD)
		kv(true, pb.Capability_MODIFY_GROUP_META, a, func(c context.Context, m *rpc.KVRequest) (proto.Message, error) { return w.Srv.GroupUM(c, m) })
	case "EntityKeys":
		a := g.action("action", rpc.Action_ADD, rpc.Action_DROP, rpc.Action_READ, rpc.Action_UPSERT)
		kv(false, pb.Capability_MODIFY_ENTITY_KEYS, a, func(c context.Context, m *rpc.KVRequest) (proto.Message, error) { return w.Srv.EntityKeys(c, m) })
	case "EntityKVAdd":
		kv2(true, false, func(c context.Context, m *rpc.KV2Request) (proto.Message, error) { return w.Srv.EntityKVAdd(c, m) })
	case "EntityKVGet":
		kv2(false, false, func(c context.Context, m *rpc.KV2Request) (proto.Message, error) { return w.Srv.EntityKVGet(c, m) })
	case "EntityKVDel":
		kv2(true, false, func(c context.Context, m *rpc.KV2Request) (proto.Message, error) { return w.Srv.EntityKVDel(c, m) })
	case "EntityKVReplace":
		kv2(true, false, func(c context.Context, m *rpc.KV2Request) (proto.Message, error) { return w.Srv.EntityKVReplace(c, m) })
	case "GroupKVAdd":
		kv2(true, true, func(c context.Context, m *rpc.KV2Request) (proto.Message, error) { return w.Srv.GroupKVAdd(c, m) })
	case "GroupKVGet":
		kv2(false, true, func(c context.Context, m *rpc.KV2Request) (proto.Message, error) { return w.Srv.GroupKVGet(c, m) })
	case "GroupKVDel":
		kv2(true, true, func(c context.Context, m *rpc.KV2Request) (proto.Message, error) { return w.Srv.GroupKVDel(c, m) })
	case "GroupKVReplace":
		kv2(true, true, func(c context.Context, m *rpc.KV2Request) (proto.Message, error) { return w.Srv.GroupKVReplace(c, m) })
	case "EntityDestroy":
		entityReq(true, pb.Capability_DESTROY_ENTITY, func(c context.Context, m *rpc.EntityRequest) (proto.Message, error) { return w.Srv.EntityDestroy(c, m) })
	case "EntityLock":
		entityReq(true, pb.Capability_LOCK_ENTITY, func(c context.Context, m *rpc.EntityRequest) (proto.Message, error) { return w.Srv.EntityLock(c, m) })
	case "EntityUnlock":
		entityReq(true, pb.Capability_UNLOCK_ENTITY, func(c context.Context, m *rpc.EntityRequest) (proto.Message, error) { return w.Srv.EntityUnlock(c, m) })
	case "EntityGroups":
		entityReq(false, 0, func(c context.Context, m *rpc.EntityRequest) (proto.Message, error) { return w.Srv.EntityGroups(c, m) })
	case "AuthEntity", "AuthGetToken", "AuthValidateToken", "AuthChangeSecret":
		e := g.Entity("entity")
		m := &rpc.AuthRequest{Entity: e, Secret: S(g.Text("secret"))}
		if name == "AuthValidateToken" {
			m.Token = S("tok0")
		}
		r.Target = e.GetID()
		r.Secret = m.Secret
		r.Mut = name == "AuthChangeSecret"
		r.Cap = pb.Capability_CHANGE_ENTITY_SECRET
		r.Call = func(ctx context.Context) (proto.Message, error) {
			switch name {
			case "AuthEntity":
				return w.Srv.AuthEntity(ctx, m)
			case "AuthGetToken":
				return w.Srv.AuthGetToken(ctx, m)
			case "AuthValidateToken":
				return w.Srv.AuthValidateToken(ctx, m)
			}
			return w.Srv.AuthChangeSecret(ctx, m)
		}
	case "GroupCreate":
		groupReq(true, pb.Capability_CREATE_GROUP, func(c context.Context, m *rpc.GroupRequest) (proto.Message, error) { return w.Srv.GroupCreate(c, m) })
	case "GroupUpdate":
		groupReq(true, pb.Capability_MODIFY_GROUP_META, func(c context.Context, m *rpc.GroupRequest) (proto.Message, error) { return w.Srv.GroupUpdate(c, m) })
	case "GroupInfo":
		groupReq(false, 0, func(c context.Context, m *rpc.GroupRequest) (proto.Message, error) { return w.Srv.GroupInfo(c, m) })
	case "GroupDestroy":
		groupReq(true, pb.Capability_DESTROY_GROUP, func(c context.Context, m *rpc.GroupRequest) (proto.Message, error) { return w.Srv.GroupDestroy(c, m) })
	case "GroupMembers":
		groupReq(false, 0, func(c context.Context, m *rpc.GroupRequest) (proto.Message, error) { return w.Srv.GroupMembers(c, m) })
	case "GroupUpdateRules":
		acts := []rpc.RuleAction{rpc.RuleAction_INCLUDE, rpc.RuleAction_EXCLUDE, rpc.RuleAction_REMOVE_RULE}
		a := acts[nd.Pick("rule", len(acts))]
		m := &rpc.GroupRulesRequest{Group: &pb.Group{Name: S(g.Name("group.name"))}, Target: &pb.Group{Name: S(g.Name("target.name"))}, RuleAction: &a}
		if g.Shapes > 2 {
			switch nd.Pick("rules.shape", 3) {
			case 1:
				m.Group = nil
			case 2:
				m.Target = nil
			}
		}
		r.Mut, r.Cap, r.Group, r.Target = true, pb.Capability_MODIFY_GROUP_META, true, m.GetGroup().GetName()
		r.Call = func(ctx context.Context) (proto.Message, error) { return w.Srv.GroupUpdateRules(ctx, m) }
	case "GroupAddMember", "GroupDelMember":
		m := &rpc.EntityRequest{Entity: g.Entity("entity")}
		if m.GetEntity().GetMeta() != nil {
			m.Data = g.decoy()
		}
		r.Mut, r.Cap, r.Target = true, pb.Capability_MODIFY_GROUP_MEMBERS, m.GetEntity().GetID()
		r.Targets = m.GetEntity().GetMeta().GetGroups()
		r.Call = func(ctx context.Context) (proto.Message, error) {
			if name == "GroupAddMember" {
				return w.Srv.GroupAddMember(ctx, m)
			}
			return w.Srv.GroupDelMember(ctx, m)
		}
	case "SystemCapabilities":
		a := g.action("action", rpc.Action_ADD, rpc.Action_DROP, rpc.Action_UPSERT)
		m := &rpc.CapabilityRequest{Direct: B(nd.Bool("direct")), Target: S(g.Name("target")), Action: &a}
		if g.shape("cap.shape") == 0 {
			c := SymCap("cap")
			m.Capability = &c
		}
		r.Mut, r.Cap, r.Root, r.Target = true, pb.Capability_GLOBAL_ROOT, true, m.GetTarget()
		r.Group = !m.GetDirect()
		r.Call = func(ctx context.Context) (proto.Message, error) { return w.Srv.SystemCapabilities(ctx, m) }
	case "SystemPing":
		r.Call = func(ctx context.Context) (proto.Message, error) { return w.Srv.SystemPing(ctx, &rpc.Empty{}) }
	case "SystemStatus":
		r.Call = func(ctx context.Context) (proto.Message, error) { return w.Srv.SystemStatus(ctx, &rpc.Empty{}) }
	default:
		panic("unknown request " + name)
	}
	return r
}

// AnyOf draws one request among the named ones.
func (w *World) AnyOf(names []string, g *Gen) *Req {
	return w.Request(names[nd.Pick("rpc", len(names))], g)
}

// Key is the storage key of the object the request names.
func (r *Req) Key() string {
	if r.Group {
		return "/groups/" + r.Target
	}
	return "/entities/" + r.Target
}
