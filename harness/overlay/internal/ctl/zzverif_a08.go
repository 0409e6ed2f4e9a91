package ctl

import (
	"strings"

	"github.com/golang/protobuf/proto"

	env "github.com/netauth/netauth/internal/zzenv"
	"github.com/netauth/netauth/internal/zzlog"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zznet"

	rpcv "github.com/netauth/protocol/v2"
)

//gosym:net

//gosym:bounds every command with simple arguments and those about the local token, secrets prompted for, mistyped or given by flag, a valid token, an expired one or none at hand, the cache writable or not, login and request succeeding or failing; everything shown or logged is searched for secrets and tokens
func VP_A08_ctl() {
	zzlog.Start()
	c := zzsetup()
	zzplain = true
	verbs := append([]string{"auth get-token", "auth inspect-token", "auth destroy-token"}, zzverbs...)
	verb := verbs[nd.Pick("command", len(verbs))]
	args := strings.Split(verb, " ")
	var res proto.Message = &rpcv.Empty{}
	if args[0] != "auth" || !strings.HasSuffix(verb, "-token") {
		z := zzdraw(verb)
		args, res = z.args, z.res
	}
	mine, next := "~mine~", "~next~"
	switch verb {
	case "entity create":
		if nd.Bool("given") {
			args = append(args, "--initial-secret", next)
		}
	case "auth change-secret":
		if nd.Bool("given") {
			args = append(args, "--csSecret", next)
		}
	}
	if nd.Bool("secret given") {
		args = append(args, "--secret", mine)
	}
	switch nd.Pick("cached", 3) {
	case 1:
		c.m["me"] = "~good~"
	case 2:
		c.m["me"] = "~old~"
	}
	if nd.Bool("cannot keep") {
		c.putErr = zzerr
	}
	zzmistyped = nd.Bool("mistyped")
	zznet.Ask = func(p string) (string, error) {
		switch {
		case strings.HasPrefix(p, "Verify") && zzmistyped:
			return "~typo~", nil
		case strings.HasPrefix(p, "Initial"), strings.HasPrefix(p, "New"), strings.HasPrefix(p, "Verify"):
			return next, nil
		}
		return mine, nil
	}
	refused, fail := nd.Bool("refused"), nd.Bool("fail")
	zznet.Answer = func(k *zznet.Call) (proto.Message, error) {
		if k.Method == "AuthGetToken" {
			if refused {
				return nil, zzerr
			}
			return &rpcv.AuthResult{Token: env.S("~fresh~")}, nil
		}
		if fail {
			return nil, zzerr
		}
		return res, nil
	}
	if zzrun(args...) == 0 {
		nd.Reach("done")
	} else {
		nd.Reach("failed")
	}
	for _, s := range []string{mine, next, "~typo~"} {
		nd.Assert(!strings.Contains(zznet.Out, s) && !zzlog.Has(s), "no secret is shown or logged")
	}
	for _, s := range []string{"~good~", "~old~", "~fresh~"} {
		nd.Assert(!strings.Contains(zznet.Out, s) && !zzlog.Has(s), "no token is shown or logged")
	}
}
