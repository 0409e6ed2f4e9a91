package zzj

import (
	"strings"
	"time"

	jwtgo "github.com/dgrijalva/jwt-go"

	"github.com/netauth/netauth/internal/token"
	"github.com/netauth/netauth/internal/token/jwt"
	"github.com/netauth/netauth/internal/zzlog"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zzos"

	pb "github.com/netauth/protocol"
)

//gosym:net

//gosym:bounds the RSA token service generating its keys or loading intact, damaged, misprotected or missing ones; a token issued and presented within its validity, before or after it, cut off, mixed up or signed by other means; everything logged or printed is searched for tokens and the private key
func VP_A08_jwt() {
	zzlog.Start()
	token.SetParentLogger(zzlog.New())
	configure(true)
	s, err := jwt.NewRSA(zzlog.New())
	nd.Assert(err == nil, "the token service starts")
	key, _ := zzos.Raw(privFile)
	switch nd.Pick("restart", 5) {
	case 1:
		s, err = jwt.NewRSA(zzlog.New())
	case 2:
		zzos.Put(privFile, key[:len(key)-20], 0400)
		s, err = jwt.NewRSA(zzlog.New())
	case 3:
		zzos.Put(privFile, key, 0644)
		s, err = jwt.NewRSA(zzlog.New())
	case 4:
		zzos.Remove(pubFile)
		s, err = jwt.NewRSA(zzlog.New())
	}
	var t string
	if err == nil {
		nd.Reach("started")
		now := int64(1700000000)
		clock(func() time.Time { return time.Unix(now, 0) })
		t, err = s.Generate(claims("a", pb.Capability_LOCK_ENTITY), token.GetConfig())
		if err == nil {
			nd.Reach("issued")
			p := t
			switch nd.Pick("present", 6) {
			case 5:
				// as another server would sign it
				var c jwt.RSAToken
				c.Claims, c.ExpiresAt, c.NotBefore, c.IssuedAt, c.Id = claims("a"), now+60, now-1, now, "a"
				p = strings.Join(make1(jwtgo.SigningMethodHS256, c, []byte("k")), ".")
			case 1:
				now += 100000000
			case 2:
				now -= 100000000
			case 3:
				p = t[:len(t)-3]
			case 4:
				q := parts(t)
				p = q[0] + "." + q[2] + "." + q[1]
			}
			if _, err = s.Validate(p); err == nil {
				nd.Reach("accepted")
			}
			nd.Assert(!zzlog.Has(p), "no token is logged or printed")
			for _, x := range strings.Split(t, ".")[1:] {
				nd.Assert(!zzlog.Has(x), "no token is logged or printed")
			}
		}
	}
	nd.Assert(!zzlog.Has("PRIVATE KEY"), "no private key is logged or printed")
	nd.Assert(zzlog.N() > 0, "something is logged")
}
