package main

import (
	"github.com/netauth/netauth/internal/token"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zznet"
	ptree "github.com/netauth/netauth/pkg/plugin/tree"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

//gosym:net

// zztold is a plugin that writes down what it is told.
type zztold struct {
	ptree.NullPlugin
	calls []string
}

func (p *zztold) e(what string, e pb.Entity) (pb.Entity, error) {
	p.calls = append(p.calls, what+":"+e.GetID())
	return e, nil
}

func (p *zztold) g(what string, g pb.Group) (pb.Group, error) {
	p.calls = append(p.calls, what+":"+g.GetName())
	return g, nil
}

func (p *zztold) EntityCreate(e, de pb.Entity) (pb.Entity, error)     { return p.e("create", e) }
func (p *zztold) EntityUpdate(e pb.Entity) (pb.Entity, error)         { return p.e("update", e) }
func (p *zztold) EntityLock(e pb.Entity) (pb.Entity, error)           { return p.e("lock", e) }
func (p *zztold) EntityUnlock(e pb.Entity) (pb.Entity, error)         { return p.e("unlock", e) }
func (p *zztold) EntityDestroy(e pb.Entity) (pb.Entity, error)        { return p.e("destroy", e) }
func (p *zztold) PreSecretChange(e, de pb.Entity) (pb.Entity, error)  { return p.e("presecret", e) }
func (p *zztold) PostSecretChange(e, de pb.Entity) (pb.Entity, error) { return p.e("postsecret", e) }
func (p *zztold) PreAuthCheck(e, de pb.Entity) (pb.Entity, error)     { return p.e("preauth", e) }
func (p *zztold) PostAuthCheck(e, de pb.Entity) (pb.Entity, error)    { return p.e("postauth", e) }
func (p *zztold) GroupCreate(g pb.Group) (pb.Group, error)            { return p.g("gcreate", g) }
func (p *zztold) GroupUpdate(g pb.Group) (pb.Group, error)            { return p.g("gupdate", g) }
func (p *zztold) GroupDestroy(g pb.Group) (pb.Group, error)           { return p.g("gdestroy", g) }

//gosym:bounds the server's main function with two plugin programs, plugins disabled, found by search, or listed (one of them or both); each of fourteen requests on an entity or a group, or two of them one after the other
func VP_F08_main() {
	w := zznew()
	zznet.SetFlagString("server.bootstrap", "")
	enabled := nd.Bool("enabled")
	env.SetConf("plugin.enabled", enabled)
	static := enabled && nd.Bool("static")
	env.SetConf("plugin.loadstatic", static)
	env.SetConf("plugin.path", "/p")
	ps := []*zztold{{}, {}}
	var cs []*zznet.Child
	for i, p := range []string{"/p/0.treeplugin", "/p/1.treeplugin"} {
		q := ps[i]
		cs = append(cs, zznet.NewChild(p, func() { ptree.PluginMain(q) }))
	}
	on := []bool{enabled, enabled}
	if static {
		l := [][]string{{cs[0].Path}, {cs[1].Path}, {cs[1].Path, cs[0].Path}}[nd.Pick("list", 3)]
		on[0] = len(l) == 2 || l[0] == cs[0].Path
		on[1] = len(l) == 2 || l[0] == cs[1].Path
		env.SetConf("plugin.list", l)
	}
	w.kv.PutEntity(&pb.Entity{ID: env.S("e"), Number: env.I(3), Secret: env.S(w.cr.Seed("s")), Meta: &pb.EntityMeta{}})
	w.kv.PutGroup(&pb.Group{Name: env.S("g"), Number: env.I(3)})
	tok, err := w.tok.Generate(token.Claims{EntityID: "z", Capabilities: []pb.Capability{pb.Capability_GLOBAL_ROOT}}, token.Config{})
	nd.Assert(err == nil, "a token is made")
	var want []string
	n := 1 + nd.Pick("more", 2)
	zznet.OnServe = func(s *zznet.GrpcServer) error {
		w.served = s
		svc := s.Svc.(rpc.NetAuth2Server)
		c := env.Ctx(tok)
		er := func(id string) *rpc.EntityRequest {
			return &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S(id), Secret: env.S("s"), Meta: &pb.EntityMeta{GECOS: env.S("x")}}}
		}
		gr := func(name string) *rpc.GroupRequest {
			return &rpc.GroupRequest{Group: &pb.Group{Name: env.S(name), DisplayName: env.S("x")}}
		}
		um := func(target string) *rpc.KVRequest {
			return &rpc.KVRequest{Target: env.S(target), Key: env.S("k"), Value: env.S("v"), Action: []rpc.Action{rpc.Action_UPSERT, rpc.Action_CLEAREXACT, rpc.Action_CLEARFUZZY}[nd.Pick("action", 3)].Enum()}
		}
		for i := 0; i < n; i++ {
			var err error
			req := 0
			if i == 0 {
				req = nd.Pick("request", 14)
			} else {
				req = []int{2, 5, 12}[nd.Pick("second request", 3)]
			}
			switch req {
			case 0:
				_, err = svc.EntityCreate(c, er("n"))
				want = append(want, "create:n")
			case 1:
				_, err = svc.EntityUpdate(c, &rpc.EntityRequest{Data: er("e").Entity})
				want = append(want, "update:e")
			case 2:
				_, err = svc.EntityLock(c, er("e"))
				want = append(want, "lock:e")
			case 3:
				_, err = svc.EntityUnlock(c, er("e"))
				want = append(want, "unlock:e")
			case 4:
				_, err = svc.EntityUM(c, um("e"))
				want = append(want, "update:e")
			case 5:
				_, err = svc.AuthChangeSecret(c, &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S("e")}, Secret: env.S("t")})
				want = append(want, "presecret:e", "postsecret:e")
			case 6:
				_, err = svc.AuthEntity(c, &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S("e")}, Secret: env.S("s")})
				want = append(want, "preauth:e", "postauth:e")
			case 7:
				_, err = svc.AuthGetToken(c, &rpc.AuthRequest{Entity: &pb.Entity{ID: env.S("e")}, Secret: env.S("s")})
				want = append(want, "preauth:e", "postauth:e")
			case 8:
				nd.Assume(n == 1)
				_, err = svc.EntityDestroy(c, er("e"))
				want = append(want, "destroy:e")
			case 9:
				_, err = svc.EntityInfo(c, er("e"))
			case 10:
				_, err = svc.GroupCreate(c, gr("h"))
				want = append(want, "gcreate:h")
			case 11:
				_, err = svc.GroupUpdate(c, gr("g"))
				want = append(want, "gupdate:g")
			case 12:
				_, err = svc.GroupUM(c, um("g"))
				want = append(want, "gupdate:g")
			case 13:
				nd.Assume(n == 1)
				_, err = svc.GroupDestroy(c, gr("g"))
				want = append(want, "gdestroy:g")
			}
			nd.Assert(err == nil, "plugins that change nothing leave the outcome as it is")
		}
		panic(zzserved{})
	}
	w.run()
	nd.Assert(w.served != nil, "the server starts")
	for i, p := range ps {
		if !on[i] {
			nd.Reach("left out")
			nd.Assert(len(p.calls) == 0 && !cs[i].Running, "only configured plugins are run")
			continue
		}
		nd.Reach("told")
		for j := range want {
			nd.Assert(len(p.calls) > j && p.calls[j] == want[j], "every configured plugin is told of every action")
		}
		nd.Assert(len(p.calls) == len(want), "every configured plugin is told of every action once")
	}
}
