package main

import (
	"context"

	env "github.com/netauth/netauth/internal/zzenv"
	"github.com/netauth/netauth/internal/zzlog"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zznet"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

//gosym:net

//gosym:bounds the server's main function with a bootstrap asked for that has a symbolic 6 byte secret, the entity present or not, well formed or lacking the separator, the store, crypto engine or socket failing or not, followed by a login; everything logged or printed is searched for the secret, what is stored for it and the token
func VP_A08_main() {
	zzlog.Start()
	appLogger = zzlog.New()
	w := zznew()
	sec := "~" + nd.Str("secret", 5, 5, "A-Z0-9")
	if nd.Bool("present") {
		w.kv.PutEntity(&pb.Entity{ID: env.S("r"), Number: env.I(1), Secret: env.S(w.cr.Seed("old"))})
	}
	boot := "r:" + sec
	if nd.Bool("malformed") {
		boot = sec
	}
	zznet.SetFlagString("server.bootstrap", boot)
	w.cr.Fail = nd.Bool("crypto fails")
	if nd.Bool("store fails") {
		w.kv.FailAt = nd.Pick("at", 4)
	}
	zznet.ListenFails = nd.Bool("nosocket")
	w.start()
	if w.served == nil {
		nd.Reach("refused")
	} else {
		nd.Reach("serving")
		srv := w.served.Svc.(rpc.NetAuth2Server)
		if _, err := srv.AuthGetToken(context.Background(), &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S("r")}, Secret: &sec}); err == nil {
			nd.Reach("login")
		}
	}
	nd.Assert(!zzlog.Has(sec), "no secret is logged or printed")
	nd.Assert(!zzlog.Has("$h"), "no stored secret is logged or printed")
	nd.Assert(!zzlog.Has("tok0"), "no token is logged or printed")
	nd.Assert(zzlog.N() > 0, "something is logged")
}
