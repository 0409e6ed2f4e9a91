package main

import (
	"path"
	"time"

	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/crypto"
	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/token"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zznet"
	"github.com/netauth/netauth/internal/zzos"

	"github.com/golang/protobuf/proto"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

//gosym:net

type zzserved struct{}

// zzworld is what the server process is given.
type zzworld struct {
	kv     *env.Store
	cr     *env.Crypto
	tok    *env.Tokens
	served *zznet.GrpcServer // the server when it started serving
	code   int               // exit status, -1 for none
}

func zznew() *zzworld {
	w := &zzworld{kv: env.NewStore(), cr: &env.Crypto{}, tok: &env.Tokens{}, code: -1}
	db.RegisterKV("zzstore", func(hclog.Logger) (db.KVStore, error) { return w.kv, nil })
	crypto.Register("zzcrypto", func(hclog.Logger) (crypto.EMCrypto, error) { return w.cr, nil })
	token.Register("zztoken", func(hclog.Logger) (token.Service, error) { return w.tok, nil })
	env.SetConf("db.backend", "zzstore")
	env.SetConf("crypto.backend", "zzcrypto")
	env.SetConf("token.backend", "zztoken")
	env.SetConf("token.lifetime", time.Minute)
	env.SetConf("core.home", "/h")
	env.SetConf("core.conf", "/d")
	env.SetConf("server.bind", "localhost")
	env.SetConf("server.port", 1729)
	env.SetConf("server.readonly", false)
	env.SetConf("plugin.enabled", false)
	env.SetConf("tls.certificate", "c.pem")
	env.SetConf("tls.key", "c.key")
	return w
}

// start runs the server process until it serves or exits.
func (w *zzworld) start() {
	zznet.OnServe = func(s *zznet.GrpcServer) error {
		w.served = s
		panic(zzserved{})
	}
	w.run()
}

// run runs the server process until it exits or OnServe stops it.
func (w *zzworld) run() {
	defer func() {
		r := recover()
		switch v := r.(type) {
		case zzos.ExitCode:
			w.code = v.N
		case zzserved:
		default:
			panic(r)
		}
	}()
	nd.GoSync()
	main()
}

//gosym:bounds certificate and key paths relative or absolute with 0..1 symbolic bytes, configuration directory set or inferred, the insecure switch on or off, read-only mode on or off, reading the configuration, loading the certificate and binding the socket succeeding or failing, bootstrap asked for or not: the server's main function
func VP_F04_server() {
	w := zznew()
	cert, key := nd.Str("cert", 0, 1, "k."), nd.Str("key", 0, 1, "k.")
	wantC, wantK := "/d/"+cert, "/d/"+key
	if nd.Bool("absolute") {
		cert, key = "/x/"+cert, "/y/"+key
		wantC, wantK = cert, key
	}
	env.SetConf("tls.certificate", cert)
	env.SetConf("tls.key", key)
	if nd.Bool("inferred") {
		env.SetConf("core.conf", "")
		zznet.ConfigFile = "/d/config.toml"
	}
	env.SetConf("server.readonly", nd.Bool("readonly"))
	pwn := nd.Bool("insecure")
	zznet.SetFlagBool("tls.PWN_ME", pwn)
	if nd.Bool("bootstrap") {
		zznet.SetFlagString("server.bootstrap", "r:s")
	}
	zznet.ConfigFails = nd.Bool("noconfig")
	zznet.CredsFail = nd.Bool("bad")
	zznet.CredsMissing = zznet.CredsFail && nd.Bool("missing")
	zznet.ListenFails = nd.Bool("nosocket")
	w.start()
	if zznet.ConfigFails || zznet.CredsFail && !pwn || zznet.ListenFails {
		nd.Reach("refused")
		nd.Assert(w.served == nil && w.code > 0, "the server does not start without configuration, certificate or socket")
		return
	}
	nd.Assert(w.served != nil, "the server starts")
	nd.Assert(w.served.Svc != nil, "the server serves requests")
	n := 0
	for _, o := range w.served.Opts {
		if o.Creds == nil {
			continue
		}
		n++
		k, ok := o.Creds.(*zznet.Creds)
		nd.Assert(ok && k.Server, "the server identifies itself")
		nd.Assert(path.Clean(k.Cert) == path.Clean(wantC) && path.Clean(k.Key) == path.Clean(wantK), "the configured certificate and key are used")
	}
	if pwn {
		nd.Reach("insecure")
		return
	}
	nd.Reach("secure")
	nd.Assert(n == 1, "the server only serves with transport security")
}

// zzentity seeds an entity that may be locked and hold capabilities.
func (w *zzworld) zzentity(id string, n int32) *pb.Entity {
	e := &pb.Entity{ID: env.S(id), Number: env.I(n), Secret: env.S(w.cr.Seed("old" + id))}
	if nd.Bool("meta") {
		e.Meta = &pb.EntityMeta{GECOS: env.S("g"), Groups: []string{"x"}, Keys: []string{"SSH:k"}, UntypedMeta: []string{"k:v"},
			KV: []*pb.KVData{{Key: env.S("k"), Values: []*pb.KVValue{{Value: env.S("v")}}}}}
		if nd.Bool("haslock") {
			e.Meta.Locked = env.B(nd.Bool("locked"))
		}
		for i, k := 0, nd.Pick("caps", 3); i < k; i++ {
			c := env.SymCap("cap")
			for _, o := range e.Meta.Capabilities {
				nd.Assume(c != o)
			}
			e.Meta.Capabilities = append(e.Meta.Capabilities, c)
		}
	}
	w.kv.PutEntity(e)
	return e
}

// zzroot checks that entity id is what a bootstrap makes of e (nil: nothing).
func (w *zzworld) zzroot(id, secret string, e *pb.Entity, used []int32) {
	x := w.kv.Entity(id)
	nd.Assert(x != nil, "the entity exists after a bootstrap")
	nd.Assert(w.cr.Opens(secret, x.GetSecret()), "a bootstrap sets the secret")
	nd.Assert(!x.GetMeta().GetLocked(), "a bootstrap unlocks")
	root, times := false, 0
	var rest []pb.Capability
	for _, c := range x.GetMeta().GetCapabilities() {
		if c == pb.Capability_GLOBAL_ROOT {
			root = true
			times++
		} else {
			rest = append(rest, c)
		}
	}
	nd.Assert(root && times == 1, "a bootstrap grants root")
	if e == nil {
		for _, n := range used {
			nd.Assert(x.GetNumber() != n, "a new entity has a number of its own")
		}
		nd.Assert(len(rest) == 0 && len(x.GetMeta().GetGroups()) == 0, "a bootstrap grants nothing else")
		return
	}
	var had []pb.Capability
	for _, c := range e.GetMeta().GetCapabilities() {
		if c != pb.Capability_GLOBAL_ROOT {
			had = append(had, c)
		}
	}
	x.Secret, e.Secret = nil, nil
	for _, y := range []*pb.Entity{x, e} {
		if y.Meta == nil {
			y.Meta = &pb.EntityMeta{}
		}
		y.Meta.Locked = nil
	}
	nd.Assert(len(rest) == len(had), "a bootstrap preserves the other capabilities")
	for _, c := range had {
		ok := false
		for _, d := range rest {
			ok = nd.Or(ok, c == d)
		}
		nd.Assert(ok, "a bootstrap preserves the other capabilities")
	}
	x.Meta.Capabilities, e.Meta.Capabilities = nil, nil
	nd.Assert(proto.Equal(x, e), "a bootstrap preserves everything else")
}

//gosym:bounds the server's main function over a store with or without the named entity (any lock flag, 0..2 symbolic capabilities, with or without metadata) and another entity, bootstrap text with an ID of one and a secret of 0..2 symbolic bytes (colons and spaces included), malformed, or absent; then Bootstrap once more, as anybody holding the server could call it
func VP_F01_main() {
	w := zznew()
	var e *pb.Entity
	used := []int32{7}
	if nd.Bool("exists") {
		e = w.zzentity("e", 3)
		used = append(used, 3)
	}
	w.kv.PutEntity(&pb.Entity{ID: env.S("o"), Number: env.I(7), Secret: env.S(w.cr.Seed("oo")), Meta: &pb.EntityMeta{Locked: env.B(true)}})
	snap := w.kv.Snapshot()
	secret := ""
	kind := nd.Pick("kind", 3)
	switch kind {
	case 0:
		secret = nd.Str("secret", 0, 2, "s: ")
		zznet.SetFlagString("server.bootstrap", "e:"+secret)
	case 1:
		zznet.SetFlagString("server.bootstrap", nd.Str("text", 1, 2, "eo"))
	}
	w.start()
	if kind == 1 {
		nd.Reach("malformed")
		nd.Assert(w.served == nil && w.code > 0, "a malformed bootstrap text is refused")
		nd.Assert(w.kv.Same(snap), "a malformed bootstrap text changes nothing")
		return
	}
	nd.Assert(w.served != nil, "the server starts")
	if kind == 2 {
		nd.Reach("none")
		nd.Assert(w.kv.Same(snap), "a start without bootstrap changes nothing")
	} else {
		nd.Reach("bootstrapped")
		nd.Assert(w.kv.SameBut(snap, "/entities/e"), "a bootstrap changes nothing else")
		w.zzroot("e", secret, e, used)
	}
	snap = w.kv.Snapshot()
	t, ok := w.served.Svc.(interface{ Bootstrap(string, string) })
	if ok {
		t.Bootstrap(nd.Choose("again", "e", "o", "n"), "again")
		nd.Reach("again")
		nd.Assert(w.kv.Same(snap), "no bootstrap after start-up")
	}
}

var _ rpc.NetAuth2Server
