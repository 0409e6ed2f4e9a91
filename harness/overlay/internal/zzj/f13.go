package zzj

import (
	"crypto/rsa"
	"time"

	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/token"
	_ "github.com/netauth/netauth/internal/token/jwt"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zzos"
	"github.com/netauth/netauth/pkg/netauth"
)

//gosym:net

//gosym:bounds the token service asked for by name, with key generation on or off, one of three key sizes, and started once or twice
func VP_F13_keys() {
	generate := nd.Bool("generate")
	configure(generate)
	bits := []int{1024, 1536, 2048}[nd.Pick("bits", 3)]
	env.SetConf("token.jwt.bits", bits)
	s, err := token.New("jwt-rsa")
	if !generate {
		nd.Reach("refused")
		_, pub := zzos.Raw(pubFile)
		_, priv := zzos.Raw(privFile)
		nd.Assert(err != nil && s == nil && !pub && !priv, "no keys are made without being asked to")
		return
	}
	nd.Reach("generated")
	nd.Assert(err == nil && s != nil && size(own()) == bits, "keys have the configured size")
	k, _ := zzos.Raw(privFile)
	if nd.Bool("again") {
		env.SetConf("token.jwt.generate", nd.Bool("generate again"))
		_, err = token.New("jwt-rsa")
		nd.Reach("again")
		l, _ := zzos.Raw(privFile)
		nd.Assert(err == nil && string(k) == string(l), "keys are made once")
	}
	_, err = token.New("jwt")
	nd.Assert(err != nil, "an unknown implementation is refused")
}

// size is the number of bits of a key.
func size(k *rsa.PrivateKey) int {
	if nd.Symbolic() {
		return lastBits
	}
	return k.N.BitLen()
}

//gosym:bounds a client where the key to check tokens is present, with the shipped token service, none, or an unknown one configured, and a genuine token
func VP_F13_fallback() {
	svc := service()
	clock(func() time.Time { return time.Unix(1000, 0) })
	t, err := svc.Generate(claims("a", env.AllCaps...), token.Config{Lifetime: time.Hour, IssuedAt: time.Unix(900, 0), NotBefore: time.Unix(900, 0)})
	nd.Assert(err == nil, "a token is issued")
	name := []string{"jwt-rsa", "null", "", "jwt", "JWT-RSA"}[nd.Pick("backend", 5)]
	env.SetConf("core.port", 17)
	env.SetConf("core.server", "a")
	env.SetConf("core.master", "")
	env.SetConf("tls.pwn_me", true)
	env.SetConf("token.cache", "memory")
	env.SetConf("token.backend", name)
	env.SetConf("client.ID", "cli")
	c, err := netauth.NewWithLog(hclog.NewNullLogger())
	if err != nil {
		nd.Assert(name != "jwt-rsa", "a client is made")
		return
	}
	cl, err := c.Validate(t)
	if name == "jwt-rsa" {
		nd.Reach("validated")
		nd.Assert(err == nil && cl.EntityID == "a", "the configured token service validates")
		return
	}
	nd.Reach("not validated")
	nd.Assert(err != nil && cl.EntityID == "" && len(cl.Capabilities) == 0, "without a token service nothing is valid")
}
