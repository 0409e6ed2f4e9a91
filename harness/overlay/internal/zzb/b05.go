package zzb

import (
	"github.com/golang/protobuf/proto"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

//gosym:bounds an entity and a group of the same name with 0..2 (thorough 3) distinct symbolic capabilities each, with or without entity metadata; grant, removal or any other action for a symbolic capability (or none) on either or on a missing target, after one storage fault at a symbolic access or none
func VP_B05_exact() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	max := 2
	if nd.Thorough() {
		max = 3
	}
	n := nd.Pick("n", max+1)
	var have []pb.Capability
	for i := 0; i < n; i++ {
		c := env.SymCap("have")
		for _, o := range have {
			nd.Assume(c != o)
		}
		have = append(have, c)
	}
	e := &pb.Entity{ID: env.S("a"), Number: env.I(1), Secret: env.S("$h"), Meta: &pb.EntityMeta{Capabilities: have, GECOS: env.S("g"), Groups: []string{"a"}}}
	if n == 0 && nd.Bool("nometa") {
		e.Meta = nil
	}
	kv.PutEntity(e)
	kv.PutEntity(&pb.Entity{ID: env.S("b"), Number: env.I(2), Meta: &pb.EntityMeta{Capabilities: have}})
	g := &pb.Group{Name: env.S("a"), Number: env.I(1), Capabilities: have, DisplayName: env.S("d")}
	kv.PutGroup(g)
	kv.PutGroup(&pb.Group{Name: env.S("b"), Number: env.I(2), Capabilities: have})
	w.Load()
	snap := kv.Snapshot()

	direct := nd.Bool("direct")
	act := rpc.Action_ADD
	proper := true
	if nd.Bool("drop") {
		act = rpc.Action_DROP
	} else if nd.Bool("improper") {
		proper = false
		act = []rpc.Action{rpc.Action_UPSERT, rpc.Action_READ, rpc.Action_CLEAREXACT, rpc.Action_CLEARFUZZY, rpc.Action(77)}[nd.Pick("action", 5)]
	}
	target := nd.Choose("target", "a", "c")
	q := &rpc.CapabilityRequest{Direct: &direct, Target: &target, Action: &act}
	var cap pb.Capability
	named := nd.Bool("named")
	if named {
		cap = env.SymCap("cap")
		q.Capability = &cap
	}
	kv.FailAt = nd.Pick("fault", 3) - 1
	_, err := w.Srv.SystemCapabilities(w.CtxWith("z", pb.Capability_GLOBAL_ROOT), q)
	nd.NoteBool("ok", err == nil)
	if err != nil {
		nd.Reach("refused")
		nd.Assert(kv.Same(snap), "a refused capability request changes nothing")
		nd.Assert(!named || !proper || target == "c" || kv.Failed != "", "a capability request for an existing object succeeds")
		return
	}
	nd.Reach("done")
	nd.Assert(proper, "a request that is neither grant nor removal fails")
	nd.Assert(named && target == "a", "a capability request without capability or existing target fails")
	key := "/groups/a"
	if direct {
		key = "/entities/a"
	}
	nd.Assert(kv.SameBut(snap, key), "only the target changes")
	var got []pb.Capability
	if direct {
		x := kv.Entity("a")
		got = x.GetMeta().GetCapabilities()
		if x.Meta == nil {
			x.Meta = &pb.EntityMeta{}
		}
		x.Meta.Capabilities = have
		if e.Meta == nil {
			e.Meta = &pb.EntityMeta{}
		}
		nd.Assert(proto.Equal(x, e), "nothing but the capabilities of the target changes")
	} else {
		x := kv.Group("a")
		got = x.GetCapabilities()
		x.Capabilities = have
		nd.Assert(proto.Equal(x, g), "nothing but the capabilities of the target changes")
	}
	probe := env.SymCap("probe")
	was, is, times := false, false, 0
	for _, c := range have {
		was = nd.Or(was, c == probe)
	}
	for _, c := range got {
		is = nd.Or(is, c == probe)
		if c == probe {
			times++
		}
	}
	want := nd.Or(was, probe == cap)
	if act == rpc.Action_DROP {
		want = nd.And(was, !(probe == cap))
	}
	nd.Assert(is == want, "capabilities change by exactly the one named")
	nd.Assert(times <= 1, "no capability is recorded twice")
}

//gosym:bounds an entity and a group that hold all capabilities but 0..2, in any rotation of either direction; one or two grants or removals of any capability
func VP_B05_many() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	n := len(env.AllCaps)
	at, step := nd.Pick("first", n), 1
	if nd.Bool("backwards") {
		step = n - 1
	}
	have := map[pb.Capability]bool{}
	var l []pb.Capability
	missing := nd.Pick("missing", 3)
	for i := missing; i < n; i++ {
		c := env.AllCaps[(at+i*step)%n]
		have[c] = true
		l = append(l, c)
	}
	kv.PutEntity(&pb.Entity{ID: env.S("a"), Number: env.I(1), Meta: &pb.EntityMeta{Capabilities: l}})
	kv.PutGroup(&pb.Group{Name: env.S("a"), Number: env.I(1), Capabilities: l})
	w.Load()
	direct := nd.Bool("direct")
	rounds := 1
	if nd.Thorough() {
		rounds += nd.Pick("rounds", 2)
	}
	for i := 0; i < rounds; i++ {
		act := rpc.Action_ADD
		c := env.AllCaps[nd.Pick("cap", n)]
		if nd.Bool("drop") {
			act = rpc.Action_DROP
			delete(have, c)
		} else {
			have[c] = true
		}
		target := "a"
		_, err := w.Srv.SystemCapabilities(w.CtxWith("z", pb.Capability_GLOBAL_ROOT), &rpc.CapabilityRequest{Direct: &direct, Target: &target, Action: &act, Capability: &c})
		nd.Assert(err == nil, "a capability request for an existing object succeeds")
	}
	got := kv.Entity("a").GetMeta().GetCapabilities()
	if !direct {
		got = kv.Group("a").GetCapabilities()
	}
	nd.Reach("done")
	seen := map[pb.Capability]bool{}
	for _, c := range got {
		nd.Assert(have[c], "capabilities change by exactly the one named")
		nd.Assert(!seen[c], "no capability is recorded twice")
		seen[c] = true
	}
	nd.Assert(len(seen) == len(have), "capabilities change by exactly the one named")
}
