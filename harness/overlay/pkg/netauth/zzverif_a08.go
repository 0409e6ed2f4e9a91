package netauth

import (
	"context"

	"github.com/golang/protobuf/proto"

	env "github.com/netauth/netauth/internal/zzenv"
	"github.com/netauth/netauth/internal/zzlog"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zznet"

	rpc "github.com/netauth/protocol/v2"
)

//gosym:net

//gosym:bounds every client call with a symbolic 6 byte secret wherever it takes one and a token, the server answering with a result (a token, if asked for one) or an error, the server reachable or not; everything the client logs or prints is searched for secret and tokens
func VP_A08_client() {
	zzlog.Start()
	c, _, _ := zzconnect()
	c.log = zzlog.New()
	zzplain = true
	zzsecret = "~" + nd.Str("secret", 5, 5, "A-Z0-9")
	ctx := Authorize(context.Background(), "~tok~")
	z := zzdraw(c, ctx, zznames[nd.Pick("call", len(zznames))])
	fail := nd.Bool("fail")
	zznet.DialFails = nd.Bool("unreachable")
	zznet.Answer = func(k *zznet.Call) (proto.Message, error) {
		if fail {
			return nil, errZZ
		}
		if z.name == "AuthGetToken" {
			return &rpc.AuthResult{Token: env.S("~tok~")}, nil
		}
		if z.name == "GroupInfo" && k.Method == "GroupSearch" {
			return &rpc.ListOfGroups{}, nil
		}
		return z.res, nil
	}
	_, err := z.run()
	if err != nil {
		nd.Reach("failed")
	} else {
		nd.Reach("done")
	}
	nd.Assert(!zzlog.Has(zzsecret), "no secret is logged or printed")
	nd.Assert(!zzlog.Has("~tok~"), "no token is logged or printed")
}
