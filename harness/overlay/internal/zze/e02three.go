package zze

import (
	"context"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

// change is one of the requests that add something of their own to an entity
// or a group, and whether the stored object has it.
func change(w *env.World, ctx context.Context, what, op int, n string) (func() error, func() bool) {
	a, up := rpc.Action_ADD, rpc.Action_UPSERT
	um := &rpc.KVRequest{Target: env.S("e"), Action: &up, Key: env.S("k" + n), Value: env.S("v" + n)}
	kv := &rpc.KV2Request{Target: env.S("e"), Data: kvd("x"+n, n)}
	if what == 1 {
		um.Target, kv.Target = env.S("g"), env.S("g")
	}
	has := func(um []string, kv []*pb.KVData, op int) bool {
		if op == 0 {
			return hasStr(um, "k"+n+":v"+n)
		}
		for _, d := range kv {
			if d.GetKey() == "x"+n {
				return true
			}
		}
		return false
	}
	switch {
	case what == 0 && op == 0:
		return func() error { _, err := w.Srv.EntityUM(ctx, um); return err },
			func() bool { m := w.KV.Entity("e").GetMeta(); return has(m.GetUntypedMeta(), m.GetKV(), 0) }
	case what == 0 && op == 1:
		return func() error { _, err := w.Srv.EntityKVAdd(ctx, kv); return err },
			func() bool { m := w.KV.Entity("e").GetMeta(); return has(m.GetUntypedMeta(), m.GetKV(), 1) }
	case what == 0:
		k := &rpc.KVRequest{Target: env.S("e"), Action: &a, Key: env.S("SSH"), Value: env.S("q" + n)}
		return func() error { _, err := w.Srv.EntityKeys(ctx, k); return err },
			func() bool { return hasStr(w.KV.Entity("e").GetMeta().GetKeys(), "SSH:q"+n) }
	case what == 1 && op == 0:
		return func() error { _, err := w.Srv.GroupUM(ctx, um); return err },
			func() bool { g := w.KV.Group("g"); return has(g.GetUntypedMeta(), g.GetKV(), 0) }
	case what == 1 && op == 1:
		return func() error { _, err := w.Srv.GroupKVAdd(ctx, kv); return err },
			func() bool { g := w.KV.Group("g"); return has(g.GetUntypedMeta(), g.GetKV(), 1) }
	case what == 1:
		act := rpc.RuleAction_EXCLUDE
		m := &rpc.GroupRulesRequest{Group: &pb.Group{Name: env.S("g")}, Target: &pb.Group{Name: env.S("r" + n)}, RuleAction: &act}
		return func() error { _, err := w.Srv.GroupUpdateRules(ctx, m); return err },
			func() bool { return hasStr(w.KV.Group("g").GetExpansions(), "EXCLUDE:r"+n) }
	case what == 2:
		m := entityReq("n" + n)
		return func() error { _, err := w.Srv.EntityCreate(ctx, m); return err },
			func() bool { return w.KV.Entity("n"+n) != nil }
	}
	m := &rpc.GroupRequest{Group: &pb.Group{Name: env.S("n" + n), Number: env.I(-1)}}
	return func() error { _, err := w.Srv.GroupCreate(ctx, m); return err },
		func() bool { return w.KV.Group("n"+n) != nil }
}

func hasStr(l []string, s string) bool {
	for i := range l {
		if l[i] == s {
			return true
		}
	}
	return false
}

//gosym:bounds three clients changing the same entity or group (three ways each) or creating entities or groups with automatic numbers; every order of their starts and of their storage writes (or reads) going ahead that the server's locks allow, goroutines switching where they block
func VP_E02_three() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	seed(w, kv)
	if w.KV.Group("r0") == nil {
		for i, n := range []string{"r0", "r1", "r2"} {
			kv.PutGroup(&pb.Group{Name: env.S(n), Number: env.I(int32(10 + i))})
		}
		w.Load()
	}
	ctx := w.CtxWith("z", env.AllCaps...)
	what := nd.Pick("what", 4)
	gate := nd.Choose("gate", "put", "get")
	var do []func() error
	var has []func() bool
	for i := 0; i < 3; i++ {
		op := 0
		if what < 2 {
			op = nd.Pick("op", 3)
		}
		d, h := change(w, ctx, what, op, []string{"0", "1", "2"}[i])
		do, has = append(do, d), append(has, h)
	}

	var gates []chan struct{}
	open := 0
	kv.Hook = func(_ int, op, _ string) {
		if op != gate {
			return
		}
		c := make(chan struct{})
		gates = append(gates, c)
		<-c
	}
	started, done := 0, 0
	errs := make([]error, 3)
	start := func() {
		i := started
		started++
		go func() {
			errs[i] = do[i]()
			done++
		}()
	}
	nd.GoSync()
	start()
	for open < len(gates) || started < 3 || done < 3 {
		tries := 0
		nd.Settle(func() bool { tries++; return done == 3 || tries > 8 })
		if done == 3 {
			break
		}
		if started < 3 && (open == len(gates) || nd.Bool("start")) {
			start()
			continue
		}
		if open == len(gates) {
			break
		}
		close(gates[open])
		open++
	}
	kv.Hook = nil
	nd.Assert(done == 3, "no client waits forever")
	for i := range has {
		nd.NoteBool("acknowledged", errs[i] == nil)
		nd.Assert(errs[i] == nil, "changes that do not conflict are all accepted")
		nd.Assert(has[i](), "no acknowledged change is undone by another client")
	}
	if what == 2 {
		a, b, c := w.KV.Entity("n0").GetNumber(), w.KV.Entity("n1").GetNumber(), w.KV.Entity("n2").GetNumber()
		nd.Assert(a != b && b != c && a != c, "automatic numbers are unique")
	}
	if what == 3 {
		a, b, c := w.KV.Group("n0").GetNumber(), w.KV.Group("n1").GetNumber(), w.KV.Group("n2").GetNumber()
		nd.Assert(a != b && b != c && a != c, "automatic numbers are unique")
	}
	nd.Reach("three clients")
}
