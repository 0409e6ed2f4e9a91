package main

import (
	"os"
	"syscall"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zznet"
	"github.com/netauth/netauth/internal/zzos"
	ptree "github.com/netauth/netauth/pkg/plugin/tree"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

//gosym:net

// zzplug changes the shell on every login.
type zzplug struct {
	ptree.NullPlugin
	n int
}

func (p *zzplug) PostAuthCheck(e, de pb.Entity) (pb.Entity, error) {
	p.n++
	e.Meta.Shell = env.S("seen")
	return e, nil
}

//gosym:bounds the server's main function with 0..2 plugin programs, each of which starts, fails to start, or serves something else, an interrupt or a termination signal once or twice, and 0..2 requests in flight when it arrives that finish afterwards; goroutines switch where they block
func VP_G03_shutdown() {
	w := zznew()
	env.SetConf("plugin.enabled", true)
	env.SetConf("plugin.loadstatic", nd.Bool("static"))
	env.SetConf("plugin.path", "/p")
	n := nd.Pick("plugins", 3)
	var paths []string
	var ps []*zzplug
	good := 0
	for i := 0; i < n; i++ {
		p := &zzplug{}
		c := zznet.NewChild([]string{"/p/0.treeplugin", "/p/1.treeplugin"}[i], func() { ptree.PluginMain(p) })
		switch nd.Pick("state", 3) {
		case 0:
			good++
			ps = append(ps, p)
		case 1:
			c.StartFails = true
		case 2:
			c.DispenseFails = true
		}
		paths = append(paths, c.Path)
	}
	env.SetConf("plugin.list", paths)
	w.kv.PutEntity(&pb.Entity{ID: env.S("e"), Number: env.I(3), Secret: env.S(w.cr.Seed("s")), Meta: &pb.EntityMeta{GECOS: env.S("g")}})
	flights := nd.Pick("flights", 3)
	sig := os.Signal(syscall.SIGTERM)
	if nd.Bool("interrupt") {
		sig = syscall.SIGINT
	}
	again := nd.Bool("again")

	var srv *zznet.GrpcServer
	heard, served, ended, code := false, 0, false, 0
	running, left, busy := 0, 0, 0
	release := make(chan struct{})
	zznet.OnServe = func(s *zznet.GrpcServer) error {
		srv = s
		for _, c := range zznet.Children {
			if c.Running {
				running++
			}
		}
		for i := 0; i < flights; i++ {
			s.Flight.Add(1)
			s.Busy++
			go func() {
				<-release
				_, err := s.Svc.AuthEntity(env.Ctx(""), &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S("e")}, Secret: env.S("s")})
				if err == nil && (good == 0 || w.kv.Entity("e").GetMeta().GetShell() == "seen") {
					served++
				}
				s.Busy--
				s.Flight.Done()
			}()
		}
		go func() {
			heard = zznet.Deliver(sig)
			if again {
				zznet.Deliver(sig)
			}
			close(release)
		}()
		<-s.Quit
		return nil
	}
	nd.GoSync()
	go func() {
		defer func() {
			if r := recover(); r != nil {
				x, ok := r.(zzos.ExitCode)
				if !ok {
					panic(r)
				}
				code = x.N
			}
			for _, c := range zznet.Children {
				if c.Running {
					left++
				}
			}
			if srv != nil {
				busy = srv.Busy
			}
			ended = true
		}()
		main()
	}()
	nd.Settle(func() bool { return ended })
	nd.Assert(srv != nil, "the server starts whatever its plugins do")
	nd.Assert(running == good, "only usable plugins are left running")
	nd.Assert(heard, "the server listens for termination signals")
	nd.Assert(ended, "the server ends after a termination signal")
	nd.Assert(left == 0 && busy == 0, "the process ends only when its plugins and requests have")
	nd.Assert(code == 0, "an orderly shutdown is not a failure")
	nd.Assert(!srv.Cut && srv.Busy == 0 && served == flights, "requests in flight are finished")
	nd.Assert(srv.Stopped, "no new requests are accepted")
	for _, c := range zznet.Children {
		nd.Assert(!c.Running, "no plugin is left running")
	}
	if flights > 0 && good > 0 {
		nd.Reach("in flight")
	}
	if n > good {
		nd.Reach("unusable plugin")
	}
}
