package main

import (
	"context"
	"time"

	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/crypto"
	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/token"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zznet"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

//gosym:net

// zzname draws the name of an implementation and whether it is one of the
// two stand-ins registered as zz<kind> and ZZ<kind>, the first, the second or
// neither.
func zzname(kind string, others ...string) (string, int) {
	l := append([]string{"zz" + kind, "ZZ" + kind, "", "zz", " zz" + kind, "zz" + kind + "x"}, others...)
	i := nd.Pick(kind, len(l))
	if i > 1 {
		return l[i], -1
	}
	return l[i], i
}

//gosym:bounds the server's main function with two implementations registered of each kind (storage, secrets, tokens) whose names differ in case only, any of which may fail to start; the configuration names either, none, a prefix, an extension, or one that exists for tests only (no cryptography, unsigned tokens, memory store); a login with the secret the first implementations hold and a drawn token lifetime
func VP_F13_server() {
	w := zznew()
	other := &zzworld{kv: env.NewStore(), cr: &env.Crypto{}, tok: &env.Tokens{}}
	var made [3][2]int
	fails := nd.Pick("fails", 4)
	count := func(kind, i int) bool {
		made[kind][i]++
		return fails == kind+1
	}
	name, dbi := zzname("store2", "memory")
	env.SetConf("db.backend", name)
	name, cri := zzname("crypto2", "nocrypto")
	env.SetConf("crypto.backend", name)
	name, tki := zzname("token2", "null")
	env.SetConf("token.backend", name)
	// at most one of them is out of the ordinary
	odd := 0
	for _, i := range []int{dbi, cri, tki} {
		if i < 0 {
			odd++
		}
	}
	nd.Assume(odd <= 1)
	for i, x := range []*zzworld{w, other} {
		i, x := i, x
		p := []string{"zz", "ZZ"}[i]
		db.RegisterKV(p+"store2", func(hclog.Logger) (db.KVStore, error) {
			if count(0, i) {
				return nil, db.ErrInternalError
			}
			return x.kv, nil
		})
		crypto.Register(p+"crypto2", func(hclog.Logger) (crypto.EMCrypto, error) {
			if count(1, i) {
				return nil, crypto.ErrInternalError
			}
			return x.cr, nil
		})
		token.Register(p+"token2", func(hclog.Logger) (token.Service, error) {
			if count(2, i) {
				return nil, token.ErrInternalError
			}
			return x.tok, nil
		})
	}
	life := []time.Duration{time.Second, time.Minute, time.Hour}[nd.Pick("lifetime", 3)]
	env.SetConf("token.lifetime", life)
	ws := []*zzworld{w, other}
	for i, x := range ws {
		x.kv.PutEntity(&pb.Entity{ID: env.S([]string{"e", "f"}[i]), Number: env.I(3), Secret: env.S(ws[0].cr.Seed("s")), Meta: &pb.EntityMeta{}})
	}
	w.start()
	for kind, i := range []int{dbi, cri, tki} {
		for j := range ws {
			nd.Assert(made[kind][j] == 0 || i == j, "only the configured implementations are started")
		}
	}
	if odd > 0 || fails > 0 {
		nd.Reach("refused")
		nd.Assert(w.served == nil && w.code > 0, "the server does not start without the configured implementations")
		return
	}
	nd.Assert(w.served != nil, "the server starts")
	nd.Assert(made[0][dbi] == 1 && made[1][cri] == 1 && made[2][tki] == 1, "the configured implementations are started")
	nd.Reach("serving")
	srv := w.served.Svc.(rpc.NetAuth2Server)
	id := nd.Choose("id", "e", "f")
	r, err := srv.AuthGetToken(context.Background(), &rpc.AuthRequest{Entity: &pb.Entity{ID: &id}, Secret: env.S("s")})
	stored := id == []string{"e", "f"}[dbi]
	if !stored || cri != 0 {
		nd.Reach("no login")
		nd.Assert(err != nil && len(w.tok.T)+len(other.tok.T) == 0, "the configured store and engine decide on a login")
		return
	}
	nd.Reach("login")
	t := ws[tki].tok
	nd.Assert(err == nil && len(t.T) == 1 && r.GetToken() == t.T[0] && len(ws[1-tki].tok.T) == 0, "the configured service makes the token")
	nd.Assert(t.Cfg[0].Lifetime == life, "the token has the configured lifetime")
}

//gosym:bounds the server's main function with the secret engine of a production server configured and a decoy registered besides; the implementations made for tests asked for by name afterwards
func VP_F13_shipped() {
	w := zznew()
	n := 0
	crypto.Register("nocrypto2", func(hclog.Logger) (crypto.EMCrypto, error) { n++; return &env.Crypto{}, nil })
	env.SetConf("crypto.backend", "bcrypt")
	env.SetConf("crypto.bcrypt.cost", 4)
	zznet.SetFlagString("server.bootstrap", "")
	w.start()
	nd.Reach("started")
	nd.Assert(w.served != nil, "the server starts with the engine it ships with")
	nd.Assert(n == 0, "only the configured implementations are started")
	x, err := crypto.New("bcrypt")
	nd.Assert(err == nil && x != nil, "the engine the server ships with exists")
	_, err = crypto.New("nocrypto")
	nd.Assert(err != nil, "engines for tests do not exist in a server")
	_, err = db.NewKV("memory", hclog.NewNullLogger())
	nd.Assert(err != nil, "stores for tests do not exist in a server")
	_, err = token.New("null")
	nd.Assert(err != nil, "token services for tests do not exist in a server")
}
