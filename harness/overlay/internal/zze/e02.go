package zze

import (
	"context"

	"github.com/golang/protobuf/proto"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

// a client is one client's request; it can be sent repeatedly.
type client func(w *env.World, ctx context.Context) error

func entityReq(id string) *rpc.EntityRequest {
	return &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S(id), Number: env.I(-1), Secret: env.S("new"), Meta: &pb.EntityMeta{}}}
}

// onEntity draws one of the requests that change entity id; n distinguishes
// the contents.
func onEntity(id, n string, op int) client {
	c := proto.Clone
	switch op {
	case 0:
		return func(w *env.World, ctx context.Context) error {
			_, err := w.Srv.AuthEntity(ctx, &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S(id)}, Secret: env.S("s" + id)})
			return err
		}
	case 1:
		return func(w *env.World, ctx context.Context) error {
			_, err := w.Srv.EntityLock(ctx, entityReq(id))
			return err
		}
	case 2:
		return func(w *env.World, ctx context.Context) error {
			_, err := w.Srv.AuthChangeSecret(ctx, &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S(id), Secret: env.S("s" + id)}, Secret: env.S("new" + n)})
			return err
		}
	case 3:
		cp := pb.Capability_LOCK_ENTITY
		act := rpc.Action_DROP
		if n == "1" {
			cp, act = pb.Capability_GLOBAL_ROOT, rpc.Action_ADD
		}
		m := &rpc.CapabilityRequest{Direct: env.B(true), Target: env.S(id), Action: &act, Capability: &cp}
		return func(w *env.World, ctx context.Context) error { _, err := w.Srv.SystemCapabilities(ctx, m); return err }
	case 4:
		m := entityReq(id)
		m.Entity.Meta.Groups = []string{[]string{"g", "h"}[len(n)]}
		if n == "1" {
			return func(w *env.World, ctx context.Context) error {
				_, err := w.Srv.GroupAddMember(ctx, c(m).(*rpc.EntityRequest))
				return err
			}
		}
		return func(w *env.World, ctx context.Context) error {
			_, err := w.Srv.GroupDelMember(ctx, c(m).(*rpc.EntityRequest))
			return err
		}
	case 5:
		return func(w *env.World, ctx context.Context) error {
			_, err := w.Srv.EntityDestroy(ctx, entityReq(id))
			return err
		}
	case 6:
		return func(w *env.World, ctx context.Context) error {
			_, err := w.Srv.EntityCreate(ctx, entityReq(id+n))
			return err
		}
	case 7:
		m := &rpc.EntityRequest{Data: &pb.Entity{ID: env.S(id), Meta: &pb.EntityMeta{}}}
		if n == "1" {
			m.Data.Meta.GECOS = env.S("new")
		} else {
			m.Data.Meta.Shell = env.S("new")
		}
		return func(w *env.World, ctx context.Context) error {
			_, err := w.Srv.EntityUpdate(ctx, c(m).(*rpc.EntityRequest))
			return err
		}
	case 8:
		a := rpc.Action_UPSERT
		m := &rpc.KVRequest{Target: env.S(id), Action: &a, Key: env.S("k" + n), Value: env.S("v" + n)}
		return func(w *env.World, ctx context.Context) error { _, err := w.Srv.EntityUM(ctx, m); return err }
	case 9:
		a := rpc.Action_ADD
		m := &rpc.KVRequest{Target: env.S(id), Action: &a, Key: env.S("SSH"), Value: env.S("k" + n)}
		return func(w *env.World, ctx context.Context) error { _, err := w.Srv.EntityKeys(ctx, m); return err }
	case 10:
		return func(w *env.World, ctx context.Context) error {
			_, err := w.Srv.EntityKVAdd(ctx, &rpc.KV2Request{Target: env.S(id), Data: kvd("x", n)})
			return err
		}
	case 11:
		return func(w *env.World, ctx context.Context) error {
			_, err := w.Srv.EntityKVReplace(ctx, &rpc.KV2Request{Target: env.S(id), Data: kvd("k", n)})
			return err
		}
	case 12:
		return func(w *env.World, ctx context.Context) error {
			_, err := w.Srv.EntityKVDel(ctx, &rpc.KV2Request{Target: env.S(id), Data: kvd("k")})
			return err
		}
	}
	return func(w *env.World, ctx context.Context) error {
		_, err := w.Srv.EntityUnlock(ctx, entityReq(id))
		return err
	}
}

// onGroup draws one of the requests that change group g.
func onGroup(g, n string, op int) client {
	c := proto.Clone
	m := &rpc.GroupRequest{Group: &pb.Group{Name: env.S(g)}}
	switch op {
	case 0:
		if n == "1" {
			m.Group.DisplayName = env.S("new")
		} else {
			m.Group.ManagedBy = env.S("i")
		}
		return func(w *env.World, ctx context.Context) error {
			_, err := w.Srv.GroupUpdate(ctx, c(m).(*rpc.GroupRequest))
			return err
		}
	case 1:
		a := rpc.Action_UPSERT
		m := &rpc.KVRequest{Target: env.S(g), Action: &a, Key: env.S("k" + n), Value: env.S("v" + n)}
		return func(w *env.World, ctx context.Context) error { _, err := w.Srv.GroupUM(ctx, m); return err }
	case 2:
		return func(w *env.World, ctx context.Context) error {
			_, err := w.Srv.GroupKVAdd(ctx, &rpc.KV2Request{Target: env.S(g), Data: kvd("x", n)})
			return err
		}
	case 3:
		return func(w *env.World, ctx context.Context) error {
			_, err := w.Srv.GroupKVReplace(ctx, &rpc.KV2Request{Target: env.S(g), Data: kvd("k", n)})
			return err
		}
	case 4, 5:
		acts := []rpc.RuleAction{rpc.RuleAction_EXCLUDE, rpc.RuleAction_REMOVE_RULE}
		m := &rpc.GroupRulesRequest{Group: &pb.Group{Name: env.S(g)}, Target: &pb.Group{Name: env.S([]string{"h", "i"}[op-4])}, RuleAction: &acts[op-4]}
		return func(w *env.World, ctx context.Context) error { _, err := w.Srv.GroupUpdateRules(ctx, m); return err }
	case 6:
		cp := pb.Capability_LOCK_ENTITY
		act := rpc.Action_DROP
		if n == "1" {
			cp, act = pb.Capability_GLOBAL_ROOT, rpc.Action_ADD
		}
		m := &rpc.CapabilityRequest{Direct: env.B(false), Target: env.S(g), Action: &act, Capability: &cp}
		return func(w *env.World, ctx context.Context) error { _, err := w.Srv.SystemCapabilities(ctx, m); return err }
	case 7:
		return func(w *env.World, ctx context.Context) error {
			_, err := w.Srv.GroupDestroy(ctx, c(m).(*rpc.GroupRequest))
			return err
		}
	case 8:
		m.Group.Number = env.I(-1)
		m.Group.Name = env.S(g + n)
		return func(w *env.World, ctx context.Context) error {
			_, err := w.Srv.GroupCreate(ctx, c(m).(*rpc.GroupRequest))
			return err
		}
	}
	// the reverse rule
	act := rpc.RuleAction_INCLUDE
	r := &rpc.GroupRulesRequest{Group: &pb.Group{Name: env.S("h")}, Target: &pb.Group{Name: env.S(g)}, RuleAction: &act}
	return func(w *env.World, ctx context.Context) error { _, err := w.Srv.GroupUpdateRules(ctx, r); return err }
}

// together runs b at one storage access (or crypto call) of a, and compares
// with both serial orders.
func together(w *env.World, a, b client, actx, bctx context.Context) {
	kv := w.KV
	snap := kv.Snapshot()
	h := len(w.Cr.H)
	at := nd.IntRange("at", 0, 27)
	var berr error
	ran := false
	n := 0
	point := func() {
		if ran {
			return
		}
		if n == at {
			ran = true
			nd.Interpose(func() { berr = b(w, bctx) })
		}
		n++
	}
	kv.Hook = func(int, string, string) { point() }
	kv.After = point
	w.Before = point
	aerr := a(w, actx)
	kv.Hook = nil
	kv.After = nil
	w.Before = nil
	if !ran {
		nd.Stop()
	}
	nd.NoteBool("a", aerr == nil)
	nd.NoteBool("b", berr == nil)
	if aerr != nil || berr != nil {
		return
	}
	nd.Reach("both acknowledged")
	got := sealed(w)
	// a then b
	rewind(w, snap, h)
	ok := a(w, actx) == nil && b(w, bctx) == nil && same(sealed(w), got)
	if !ok {
		rewind(w, snap, h)
		ok = b(w, bctx) == nil && a(w, actx) == nil && same(sealed(w), got)
	}
	nd.Assert(ok, "both acknowledged changes are stored as if made one after the other")
}

// sealed is the stored data with secrets replaced by their plaintext.
func sealed(w *env.World) env.Snap {
	s := w.KV.Snapshot()
	for i, k := range s.K {
		if len(k) > 10 && k[:10] == "/entities/" {
			e := w.KV.Entity(k[10:])
			if e == nil {
				continue
			}
			for j := range w.Cr.H {
				if w.Cr.H[j] == e.GetSecret() {
					e.Secret = env.S(w.Cr.S[j])
					break
				}
			}
			b, err := proto.Marshal(e)
			if err == nil {
				s.V[i] = b
			}
		}
	}
	return s
}

func same(a, b env.Snap) bool {
	s := &env.Store{K: a.K, V: a.V}
	return s.Same(b)
}

//gosym:bounds any two of 14 requests that change (or authenticate) one entity or create others with automatic numbers, the second one running as a whole at any of the first 28 points (before or after a storage access, before a call into the tree) of the first; the result must be that of one of the two serial orders
func VP_E02_entities() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	seed(w, kv)
	id := "e"
	n := []string{"", "1"}
	if nd.Bool("swap") {
		n[0], n[1] = n[1], n[0]
	}
	a := onEntity(id, n[0], nd.Pick("a", 14))
	b := onEntity(id, n[1], nd.Pick("b", 14))
	actx := w.CtxWith("e", env.AllCaps...)
	if !nd.Bool("self") {
		w.Tok.C[0].EntityID = "z"
	}
	together(w, a, b, actx, w.CtxWith("y", env.AllCaps...))
}

//gosym:bounds any two of 10 requests that change one group, its reverse rules, or create others with automatic numbers, the second one running as a whole at any of the first 28 points (before or after a storage access, before a call into the tree) of the first; the result must be that of one of the two serial orders
func VP_E02_groups() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	seed(w, kv)
	n := []string{"", "1"}
	if nd.Bool("swap") {
		n[0], n[1] = n[1], n[0]
	}
	a := onGroup("g", n[0], nd.Pick("a", 10))
	b := onGroup("g", n[1], nd.Pick("b", 10))
	together(w, a, b, w.CtxWith("z", env.AllCaps...), w.CtxWith("y", env.AllCaps...))
}
