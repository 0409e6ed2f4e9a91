package zzp

//gosym:net

import (
	"context"

	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/health"
	"github.com/netauth/netauth/internal/plugin/tree/manager"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zznet"
	ptree "github.com/netauth/netauth/pkg/plugin/tree"

	rpc "github.com/netauth/protocol/v2"
)

//gosym:bounds 1..2 (thorough 3) plugins of which each runs, does not start, serves something else, or dies later, next to one other check with a symbolic result; the status asked for while they run and after some died, and after the server stopped them
func VP_F03_plugins() {
	n := 2
	if nd.Thorough() {
		n = 3
	}
	n = 1 + nd.Pick("n", n)
	other := nd.Bool("other")
	health.RegisterCheck("other", func() health.SubsystemStatus { return health.SubsystemStatus{Name: "other", OK: other} })
	names := []string{"a", "b", "c"}
	log := new([]string)
	fate := make([]int, n)
	var cs []*zznet.Child
	for i := 0; i < n; i++ {
		p := &plug{name: names[i], log: log}
		c := zznet.NewChild("/p/"+names[i]+".treeplugin", func() { ptree.PluginMain(p) })
		fate[i] = nd.Pick("fate", 4)
		c.StartFails = fate[i] == 1
		c.DispenseFails = fate[i] == 2
		cs = append(cs, c)
	}
	m, err := manager.New(hclog.NewNullLogger())
	nd.Assert(err == nil, "the plugin manager starts")
	env.SetConf("plugin.loadstatic", false)
	env.SetConf("plugin.path", "/p")
	m.LoadPlugins()
	m.RegisterEntityHooks()
	m.RegisterGroupHooks()
	w := env.NewWorld(env.NewStore())
	m.ConfigureEntityChains(w.Tree.RegisterEntityHookToChain)
	m.ConfigureGroupChains(w.Tree.RegisterGroupHookToChain)
	stage := nd.Pick("stage", 3)
	ok := make([]bool, n)
	all := other
	for i := 0; i < n; i++ {
		ok[i] = fate[i] == 0 || fate[i] == 3
		if stage > 0 && fate[i] == 3 {
			cs[i].Dead, cs[i].Running = true, false
			ok[i] = false
		}
		if stage == 2 {
			ok[i] = false
		}
		all = all && ok[i]
	}
	if stage == 2 {
		m.Shutdown()
	}
	nd.MapOrders(true)
	res, err := w.Srv.SystemStatus(context.Background(), &rpc.Empty{})
	nd.MapOrders(false)
	nd.Assert(err == nil && res != nil, "a status request succeeds")
	nd.Assert(res.GetSystemOK() == all, "healthy exactly when every plugin runs and every check passes")
	nd.Assert(len(res.GetSubSystems()) == n+1, "every plugin is listed once")
	for i := 0; i < n; i++ {
		seen := 0
		for _, s := range res.GetSubSystems() {
			if s.GetName() == "plugin-"+names[i] {
				seen++
				nd.Assert(s.GetOK() == ok[i], "a plugin is healthy exactly when it runs")
				nd.Assert(s.GetOK() || s.GetFaultMessage() != "", "a failure says why")
			}
		}
		nd.Assert(seen == 1, "every plugin is listed once")
	}
	ff := res.GetFirstFailure()
	nd.Assert((ff == nil) == all, "a first failure is named exactly when a check fails")
	if ff != nil {
		nd.Reach("failing")
		good := ff.GetName() == "other" && !other
		for i := 0; i < n; i++ {
			good = good || ff.GetName() == "plugin-"+names[i] && !ok[i]
		}
		nd.Assert(good && !ff.GetOK(), "the first failure is a failing check")
	} else {
		nd.Reach("healthy")
	}
}
