package netauth

import (
	"errors"

	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/token"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zznet"
	"github.com/netauth/netauth/pkg/netauth/cache"

	rpc "github.com/netauth/protocol/v2"
)

//gosym:net

// zzcache remembers what it was asked to hold.
type zzcache struct{ put []string }

func (c *zzcache) PutToken(o, t string) error { c.put = append(c.put, o, t); return nil }
func (c *zzcache) GetToken(o string) (string, error) {
	for i := 0; i < len(c.put); i += 2 {
		if c.put[i] == o {
			return c.put[i+1], nil
		}
	}
	return "", cache.ErrNoCachedToken
}
func (c *zzcache) DelToken(string) error { return nil }

//gosym:bounds a client with two token caches and two token services registered besides the shipped ones, any of which may fail to start; the configuration names either, a shipped one, none, or an unknown one; one to two clients in a row
func VP_F13_client() {
	ca := [2]*zzcache{{}, {}}
	tk := [2]*env.Tokens{{}, {}}
	var madeC, madeT [2]int
	failC, failT := nd.Bool("cache fails"), nd.Bool("tokens fail")
	for i := range ca {
		i := i
		p := []string{"zza", "zzA"}[i]
		cache.RegisterTokenCacheFactory(p, func() (cache.TokenCache, error) {
			madeC[i]++
			if failC {
				return nil, errors.New("cache")
			}
			return ca[i], nil
		})
		token.Register(p, func(hclog.Logger) (token.Service, error) {
			madeT[i]++
			if failT {
				return nil, errors.New("tokens")
			}
			return tk[i], nil
		})
	}
	cn := []string{"zza", "zzA", "memory", "", "zz"}
	tn := []string{"zza", "zzA", "null", "", "zz"}
	c, t := nd.Pick("cache", len(cn)), nd.Pick("tokens", len(tn))
	env.SetConf("core.port", 17)
	env.SetConf("core.server", "a")
	env.SetConf("core.master", "")
	env.SetConf("core.conf", "/d")
	env.SetConf("tls.pwn_me", true)
	env.SetConf("token.cache", cn[c])
	env.SetConf("token.backend", tn[t])
	env.SetConf("client.ID", "cli")
	zznet.Answer = func(*zznet.Call) (proto.Message, error) { return &rpc.Empty{}, nil }
	tk[0].Generate(token.Claims{EntityID: "e"}, token.Config{})
	tk[1].Generate(token.Claims{EntityID: "f"}, token.Config{})
	rounds := 1 + nd.Pick("rounds", 2)
	for r := 0; r < rounds; r++ {
		x, err := NewWithLog(hclog.NewNullLogger())
		for i := range madeC {
			nd.Assert(madeC[i] == 0 || i == c, "only the configured cache is started")
			nd.Assert(madeT[i] == 0 || i == t, "only the configured token service is started")
		}
		if c > 2 || c < 2 && failC {
			nd.Reach("refused")
			nd.Assert(err != nil && x == nil, "no client without the configured cache")
			return
		}
		nd.Assert(err == nil && x != nil, "a client is made")
		nd.Assert(x.PutToken("o", "t") == nil, "tokens can be cached")
		for i := range ca {
			if i == c {
				nd.Reach("cached")
				nd.Assert(len(ca[i].put) == 2*(r+1), "the configured cache is used")
			} else {
				nd.Assert(len(ca[i].put) == 0, "the configured cache is used")
			}
		}
		if g, err := x.GetToken("o"); c == 2 {
			nd.Reach("memory")
			nd.Assert(err == nil && g == "t", "the shipped cache holds tokens")
		}
		for i := range tk {
			cl, err := x.Validate(tk[i].T[0])
			if t < 2 && !failT && i == t {
				nd.Reach("validated")
				nd.Assert(err == nil && cl.EntityID == []string{"e", "f"}[i], "the configured token service validates")
			} else if t > 1 || failT {
				nd.Reach("not validated")
				nd.Assert(err != nil && cl.EntityID == "" && len(cl.Capabilities) == 0, "without a token service nothing is valid")
			}
		}
	}
}
