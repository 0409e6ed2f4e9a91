package main

import (
	"context"
	"time"

	env "github.com/netauth/netauth/internal/zzenv"
	"github.com/netauth/netauth/internal/zzlog"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zznet"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

//gosym:net

//gosym:bounds a server with the failed-login plugin (1 failure allowed), three logins with the right or a wrong secret and a change of the secret; everything logged or printed by server and plugin is searched for the secrets and what is stored for them
func VP_A08_plugin() {
	zzlog.Start()
	appLogger = zzlog.New()
	env.SetConf("plugin.fail2lock.allowed_fails", 1)
	env.SetConf("plugin.fail2lock.interval", time.Minute)
	clk := &zzclock{}
	zznet.Clock = clk.now
	w, _ := zzserver()
	w.KV.PutEntity(&pb.Entity{ID: env.S("a"), Secret: env.S(w.Cr.Seed("~right~")), Meta: &pb.EntityMeta{UntypedMeta: []string{"um:v"}}})
	w.Load()
	for i := 0; i < 3; i++ {
		sec := "~right~"
		if nd.Bool("wrong") {
			sec = "~wrong~"
		}
		_, err := w.Srv.AuthEntity(context.Background(), &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S("a")}, Secret: &sec})
		if err == nil {
			nd.Reach("login")
		} else if sec == "~right~" {
			nd.Reach("locked")
		}
	}
	w.Srv.AuthChangeSecret(w.CtxWith("z", pb.Capability_GLOBAL_ROOT), &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S("a")}, Secret: env.S("~next~")})
	for _, s := range []string{"~right~", "~wrong~", "~next~", "$h", "tok0"} {
		nd.Assert(!zzlog.Has(s), "no secret or token is logged or printed")
	}
}
