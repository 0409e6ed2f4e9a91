package main

import (
	"time"

	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/plugin/tree/common"
	"github.com/netauth/netauth/internal/plugin/tree/manager"
	_ "github.com/netauth/netauth/internal/tree/hooks"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zznet"

	pb "github.com/netauth/protocol"
)

//gosym:net

// zzserver makes a server that has loaded this plugin.
func zzserver() (*env.World, *zznet.Child) {
	ch := zznet.NewChild("/p/fail2lock.treeplugin", func() {
		zznet.Init()
		main()
	})
	m, err := manager.New(hclog.NewNullLogger())
	nd.Assert(err == nil, "the plugin manager starts")
	env.SetConf("plugin.loadstatic", false)
	env.SetConf("plugin.path", "/p")
	m.LoadPlugins()
	m.RegisterEntityHooks()
	m.RegisterGroupHooks()
	w := env.NewWorld(env.NewStore())
	m.ConfigureEntityChains(w.Tree.RegisterEntityHookToChain)
	m.ConfigureGroupChains(w.Tree.RegisterGroupHookToChain)
	return w, ch
}

// zzclock is a clock the harness moves.
type zzclock struct{ sec int64 }

func (c *zzclock) now() time.Time { return time.Unix(1700000000+c.sec, 0) }

func (c *zzclock) pass() {
	// any second of a period of 36 hours
	n := int64(nd.Uint32("time") & 0x1ffff)
	nd.Assume(n >= c.sec)
	c.sec = n
}

// zzconf decides the configuration; settings may be left out.
func zzconf() (allowed int, interval int64) {
	allowed, interval = 3, 900
	if nd.Bool("allowed set") {
		allowed = nd.Pick("allowed", 3)
		env.SetConf("plugin.fail2lock.allowed_fails", allowed)
	}
	if nd.Bool("interval set") {
		interval = []int64{1, 60, 86400}[nd.Pick("interval", 3)]
		env.SetConf("plugin.fail2lock.interval", time.Duration(interval)*time.Second)
	}
	return
}

func zzseed(w *env.World, id string) {
	e := &pb.Entity{ID: env.S(id), Secret: env.S(w.Cr.Seed("right"))}
	if id == "a" && nd.Bool("meta") {
		e.Meta = &pb.EntityMeta{GECOS: env.S("g"), UntypedMeta: []string{"um:v"}}
	}
	w.KV.PutEntity(e)
}

// zzran runs a history of n steps of the given kinds.
func zzran(n int, resets bool) {
	clk := &zzclock{}
	zznet.Clock = clk.now
	allowed, interval := 0, int64(60)
	if resets {
		allowed = 1 + nd.Pick("allowed", 2)
		env.SetConf("plugin.fail2lock.allowed_fails", allowed)
		env.SetConf("plugin.fail2lock.interval", time.Minute)
	} else {
		allowed, interval = zzconf()
	}
	w, _ := zzserver()
	zzseed(w, "a")
	zzseed(w, "b")
	fails := map[string][]int64{}
	pending := false
	ops := []string{"wrong a", "right a", "wrong b", "right b"}
	if resets {
		ops = []string{"wrong a", "right a", "reset a"}
	}
	for i := 0; i < n; i++ {
		op := ops[nd.Pick("op", len(ops))]
		id := op[len(op)-1:]
		if op[:5] == "reset" {
			nd.Reach("reset")
			v := nd.Choose("marker", "RESET", "RESETTING")
			_, err := w.Tree.ManageUntypedEntityMeta(id, "UPSERT", "fail2lock", v)
			nd.Assert(err == nil, "a reset can be requested")
			pending = v == "RESET"
			continue
		}
		clk.pass()
		if id == "a" && pending {
			fails[id], pending = nil, false
		}
		in := 0
		for _, t := range fails[id] {
			// attempts exactly as old as the window count either way
			nd.Assume(clk.sec-t != interval)
			if clk.sec-t < interval {
				in++
			} else {
				nd.Reach("failure outside the window")
			}
		}
		snap := w.KV.Snapshot()
		secret := "right"
		if op[:5] == "wrong" {
			secret = "wrong"
		}
		err := w.Tree.ValidateSecret(id, secret)
		switch {
		case in >= allowed:
			nd.Assert(err != nil, "an entity with too many recent failures is refused")
			nd.Assert(w.KV.Same(snap), "a refused login changes nothing")
			if secret == "right" {
				nd.Reach("locked")
			}
		case secret == "wrong":
			nd.Assert(err != nil, "a wrong secret is refused")
			nd.Assert(w.KV.Same(snap), "a refused login changes nothing")
			fails[id] = append(fails[id], clk.sec)
		default:
			nd.Assert(err == nil, "an entity with few recent failures can log in")
			nd.Assert(!w.KV.Entity(id).GetMeta().GetLocked(), "a successful login does not lock")
			nd.Assert(!resets || len(w.KV.Entity(id).GetMeta().GetUntypedMeta()) == 0 || !zzhas(w.KV.Entity(id), "fail2lock:RESET"), "a reset is gone after a successful login")
			fails[id] = nil
			if i > 0 {
				nd.Reach("success later")
			}
		}
	}
}

func zzhas(e *pb.Entity, um string) bool {
	for _, u := range e.GetMeta().GetUntypedMeta() {
		if u == um {
			return true
		}
	}
	return false
}

//gosym:bounds every history of 3 (thorough 4) logins of two entities with right and wrong secrets, with and without metadata, at any whole seconds within 36 hours; allowed failures 0..2 or left at the default, a window of a second, a minute or a day or left at the default; attempts exactly as old as the window are not judged
func VP_F09_window() {
	n := 3
	if nd.Thorough() {
		n = 4
	}
	zzran(n, false)
}

//gosym:bounds every history of 4 (thorough 5) steps of one entity with 1..2 allowed failures and a window of a minute, at any seconds of 36 hours: logins with right or wrong secret and requests to reset its failures or to note something else under the same key
func VP_F09_reset() {
	n := 4
	if nd.Thorough() {
		n = 5
	}
	zzran(n, true)
}

//gosym:bounds the default configuration, a fifth login after any 4 earlier ones of one entity
func VP_F09_default() {
	clk := &zzclock{}
	zznet.Clock = clk.now
	w, _ := zzserver()
	zzseed(w, "a")
	var fails []int64
	for i := 0; i < 4; i++ {
		clk.pass()
		in := 0
		for _, t := range fails {
			nd.Assume(clk.sec-t != 900)
			if clk.sec-t < 900 {
				in++
			}
		}
		secret := "wrong"
		if i == 3 {
			secret = "right"
		}
		err := w.Tree.ValidateSecret("a", secret)
		if in >= 3 {
			nd.Reach("locked")
			nd.Assert(err != nil, "an entity with too many recent failures is refused")
		} else {
			nd.Assert((err == nil) == (secret == "right"), "an entity with few recent failures can log in")
			if secret == "right" {
				nd.Reach("not locked")
			}
		}
		if secret == "wrong" && in < 3 {
			fails = append(fails, clk.sec)
		}
	}
}

//gosym:bounds two concurrent requests of any kind to the plugin about the same or different entities, any schedule of their memory accesses
func VP_F09_races() {
	_, ch := zzserver()
	mk := func(tag string) func() {
		o := common.PluginOpts{Action: common.PreAuthCheck, Entity: &pb.Entity{ID: env.S("a")}, DataEntity: &pb.Entity{}}
		switch nd.Pick(tag, 4) {
		case 1:
			o.Action = common.PostAuthCheck
		case 2:
			o.Action = common.EntityUpdate
		case 3:
			o.Entity.Meta = &pb.EntityMeta{UntypedMeta: []string{"fail2lock:RESET"}}
		}
		if nd.Bool(tag + " other") {
			o.Entity.ID = env.S("b")
		}
		return func() {
			var r common.PluginResult
			ch.Server.ProcessEntity(o, &r)
		}
	}
	f, g := mk("first"), mk("second")
	if nd.Bool("earlier") {
		mk("third")()
	}
	nd.Reach("raced")
	nd.Race([]interface{}{ch.Server}, f, g, "plugin requests")
}

//gosym:bounds 1, 4, 12 or 25 allowed failures and one fewer, as many or one more failures of one entity within the window, all at once or with 0, 3 or 9 other entities failing before or in between once or as often; then a login of each with the right secret
func VP_F09_many() {
	clk := &zzclock{}
	zznet.Clock = clk.now
	allowed := []int{1, 4, 12, 25}[nd.Pick("allowed", 4)]
	env.SetConf("plugin.fail2lock.allowed_fails", allowed)
	env.SetConf("plugin.fail2lock.interval", time.Hour)
	w, _ := zzserver()
	others := []int{0, 3, 9}[nd.Pick("others", 3)]
	times := allowed - 1 + nd.Pick("times", 3)
	each := nd.Bool("as often")
	first := nd.Bool("first")
	ids := []string{"a"}
	for i := 0; i < others; i++ {
		ids = append(ids, "o"+string(rune('0'+i)))
	}
	for i, id := range ids {
		w.KV.PutEntity(&pb.Entity{ID: env.S(id), Number: env.I(int32(i + 1)), Secret: env.S(w.Cr.Seed("right"))})
	}
	fails := map[string]int{}
	fail := func(id string) {
		clk.sec++
		nd.Assert(w.Tree.ValidateSecret(id, "wrong") != nil, "a wrong secret is refused")
		fails[id]++
	}
	for i := 0; i < times; i++ {
		if !first {
			fail("a")
		}
		for _, id := range ids[1:] {
			if each || i == times/2 {
				fail(id)
			}
		}
		if first {
			fail("a")
		}
	}
	for _, id := range ids {
		err := w.Tree.ValidateSecret(id, "right")
		if fails[id] < allowed {
			nd.Reach("not locked")
			nd.Assert(err == nil, "an entity with few recent failures can log in")
		} else {
			nd.Reach("locked")
			nd.Assert(err != nil, "an entity with too many recent failures is refused")
		}
	}
}

//gosym:bounds two entities whose names are strange texts that a careless comparison would take for each other, two allowed failures: one fails twice and logs in, or fails, logs in, fails and logs in again; the other logs in at the end
func VP_F09_strange() {
	clk := &zzclock{}
	zznet.Clock = clk.now
	env.SetConf("plugin.fail2lock.allowed_fails", 2)
	env.SetConf("plugin.fail2lock.interval", time.Hour)
	w, _ := zzserver()
	a := env.Names[nd.Pick("name", len(env.Names))]
	l := env.Alike(a)
	b := l[nd.Pick("alike", len(l))]
	nd.Assume(env.Valid(b))
	for i, id := range []string{a, b} {
		w.KV.PutEntity(&pb.Entity{ID: env.S(id), Number: env.I(int32(i + 1)), Secret: env.S(w.Cr.Seed("right"))})
	}
	fail := func(id string) {
		nd.Assert(w.Tree.ValidateSecret(id, "wrong") != nil, "a wrong secret is refused")
	}
	fail(a)
	between := nd.Bool("success between")
	if between {
		nd.Reach("succeeded between")
		nd.Assert(w.Tree.ValidateSecret(a, "right") == nil, "an entity with few recent failures can log in")
	}
	fail(a)
	if nd.Bool("other fails too") {
		fail(b)
	}
	nd.Assert((w.Tree.ValidateSecret(a, "right") == nil) == between, "exactly an entity with too many recent failures is refused")
	nd.Assert(w.Tree.ValidateSecret(b, "right") == nil, "the failures of others do not count")
}
