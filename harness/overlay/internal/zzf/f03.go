// Package zzf checks properties about start-up, robustness, processing
// stages, plugins and health.
package zzf

import (
	"context"

	"github.com/netauth/netauth/internal/health"
	"github.com/netauth/netauth/internal/rpc2"
	_ "github.com/netauth/netauth/internal/tree/hooks"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	rpc "github.com/netauth/protocol/v2"

	"github.com/hashicorp/go-hclog"
)

type probe struct {
	name string // name it is registered under
	st   health.SubsystemStatus
	runs int
	live bool // not refused at registration
}

//gosym:bounds 0..3 (thorough 4) checks registered under names drawn from x, y, z (repeats included), each reporting a symbolic result under a symbolic 0..1-byte name and status message, polled in any order, through health.Check and through the SystemStatus request
func VP_F03_health() {
	max := 3
	if nd.Thorough() {
		max = 4
	}
	n := nd.Pick("n", max+1)
	var ps []*probe
	for i := 0; i < n; i++ {
		p := &probe{name: nd.Choose("name", "x", "y", "z"), live: true}
		p.st = health.SubsystemStatus{OK: nd.Bool("ok"), Name: nd.Str("sname", 0, 1, "ab"), Status: nd.Str("status", 0, 1, "ab")}
		for _, o := range ps {
			if o.name == p.name {
				p.live = false
			}
		}
		ps = append(ps, p)
		health.RegisterCheck(p.name, func() health.SubsystemStatus { p.runs++; return p.st })
	}
	live, allok := 0, true
	for _, p := range ps {
		if p.live {
			live++
			allok = nd.And(allok, p.st.OK)
		}
	}
	nd.MapOrders(true)
	if nd.Bool("remote") {
		srv := rpc2.New(rpc2.Refs{}, hclog.NewNullLogger())
		res, err := srv.SystemStatus(context.Background(), &rpc.Empty{})
		nd.MapOrders(false)
		nd.Reach("remote")
		nd.Assert(err == nil, "a status request succeeds")
		nd.Assert(res.GetSystemOK() == allok, "healthy exactly when every check passes")
		var got []health.SubsystemStatus
		for _, s := range res.GetSubSystems() {
			got = append(got, health.SubsystemStatus{OK: s.GetOK(), Name: s.GetName(), Status: s.GetFaultMessage()})
		}
		each(ps, got, live)
		ff := res.FirstFailure
		nd.Assert((ff == nil) == allok, "a first failure is named exactly when a check fails")
		if ff != nil {
			named(ps, health.SubsystemStatus{OK: ff.GetOK(), Name: ff.GetName(), Status: ff.GetFaultMessage()})
		}
		return
	}
	res := health.Check()
	nd.MapOrders(false)
	nd.Reach("local")
	nd.Assert(res.OK == allok, "healthy exactly when every check passes")
	each(ps, res.Subsystems, live)
	if allok {
		nd.Assert(res.FirstFailure == health.SubsystemStatus{}, "a first failure is named exactly when a check fails")
	} else {
		named(ps, res.FirstFailure)
	}
}

func each(ps []*probe, got []health.SubsystemStatus, live int) {
	nd.Assert(len(got) == live, "every check is listed exactly once")
	used := make([]bool, len(got))
	for _, p := range ps {
		if !p.live {
			nd.Assert(p.runs == 0, "a second registration never replaces a check")
			continue
		}
		nd.Assert(p.runs == 1, "every check is polled once")
		hit := false
		for i := range got {
			if !used[i] && got[i] == p.st {
				used[i], hit = true, true
				break
			}
		}
		nd.Assert(hit, "every check is listed with its own result")
	}
}

func named(ps []*probe, f health.SubsystemStatus) {
	ok := false
	for _, p := range ps {
		ok = nd.Or(ok, nd.And(p.live, nd.And(!p.st.OK, nd.And(p.st.Name == f.Name, p.st.Status == f.Status))))
	}
	nd.Assert(nd.And(ok, !f.OK), "the first failure is a failing check")
}

var _ = env.S
