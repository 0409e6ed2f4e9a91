package netauth

import (
	"context"
	"errors"
	"fmt"

	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zznet"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

//gosym:net

var errZZ = errors.New("the server's error")

// zzcall is one client call: what it is to send and what it returns.
type zzcall struct {
	name string
	run  func() (interface{}, error)
	req  proto.Message // the request expected, nil if none may be sent
	res  proto.Message // the server's result
	want interface{}   // what the caller must be given
	mut  bool
}

var zznames = []string{
	"EntityCreate", "EntityUpdate", "EntityInfo", "EntitySearch", "EntityUM", "EntityKVAdd", "EntityKVGet", "EntityKVDel", "EntityKVReplace",
	"EntityKeys", "EntityDestroy", "EntityLock", "EntityUnlock", "EntityGroups", "AuthEntity", "AuthGetToken", "AuthValidateToken", "AuthChangeSecret",
	"GroupCreate", "GroupUpdate", "GroupInfo", "GroupUM", "GroupKVAdd", "GroupKVGet", "GroupKVDel", "GroupKVReplace", "GroupUpdateRules",
	"GroupAddMember", "GroupDelMember", "GroupDestroy", "GroupMembers", "GroupSearch", "SystemCapabilities", "SystemPing", "SystemStatus",
}

// zzplain makes zzdraw draw fixed texts and only two actions.
var zzplain bool

// zztext, if set, is every text zzdraw draws, and what the server answers with.
var zztext string

// zzsecret is the secret zzdraw draws, if not empty.
var zzsecret string

func zzact(l string) (string, rpc.Action, bool) {
	if zzplain {
		if nd.Bool(l) {
			return "UPSERT", rpc.Action_UPSERT, true
		}
		return "READ", rpc.Action_READ, true
	}
	switch nd.Pick(l, 8) {
	case 0:
		return "UPSERT", rpc.Action_UPSERT, true
	case 1:
		return "clearfuzzy", rpc.Action_CLEARFUZZY, true
	case 2:
		return "ClearExact", rpc.Action_CLEAREXACT, true
	case 3:
		return "add", rpc.Action_ADD, true
	case 4:
		return "Drop", rpc.Action_DROP, true
	case 5:
		return "read", rpc.Action_READ, true
	case 6:
		return "READ", rpc.Action_READ, true
	}
	return "nonsense", 0, false
}

// zzdraw draws one call with symbolic arguments.
func zzdraw(c *Client, ctx context.Context, name string) *zzcall {
	z := &zzcall{name: name, mut: true, res: &rpc.Empty{}}
	text := func(l string) string {
		if zzsecret != "" && (l == "secret" || l == "old" || l == "new") {
			return zzsecret
		}
		if zztext != "" {
			return zztext
		}
		if zzplain {
			return "a"
		}
		return nd.Str(l, 0, 1, "a *")
	}
	id := "e"
	if !zzplain {
		id = nd.Str("id", 0, 2, "e *")
	}
	r := "r"
	if zztext != "" {
		id, r = zztext, zztext
	}
	if zzsecret != "" && name == "AuthValidateToken" {
		id = zzsecret
	}
	id2 := id
	errOnly := func(f func() error) { z.run = func() (interface{}, error) { return nil, f() } }
	byID := func(f func(context.Context, string) error) {
		errOnly(func() error { return f(ctx, id) })
		z.req = &rpc.EntityRequest{Entity: &pb.Entity{ID: &id2}}
	}
	number := func() (int, *int32) {
		n := nd.Int32("number")
		return int(n), &n
	}
	vals := func() ([]string, []*pb.KVValue) {
		var in []string
		var out []*pb.KVValue
		n := nd.Pick("values", 3)
		if zztext != "" && n > 0 {
			n = 20
		}
		for i := 0; i < n; i++ {
			v := text("value")
			w, x := v, int32(i)
			in = append(in, v)
			out = append(out, &pb.KVValue{Value: &w, Index: &x})
		}
		return in, out
	}
	kv := func(f func(context.Context, string, string, []string) error) {
		k := text("key")
		k2 := k
		in, out := vals()
		errOnly(func() error { return f(ctx, id, k, in) })
		z.req = &rpc.KV2Request{Target: &id2, Data: &pb.KVData{Key: &k2, Values: out}}
	}
	kvdel := func(f func(context.Context, string, string) error) {
		k := text("key")
		k2 := k
		errOnly(func() error { return f(ctx, id, k) })
		z.req = &rpc.KV2Request{Target: &id2, Data: &pb.KVData{Key: &k2}}
	}
	kvget := func(f func(context.Context, string, string) (map[string][]string, error)) {
		k := text("key")
		k2 := k
		z.mut = false
		z.run = func() (interface{}, error) {
			m, err := f(ctx, id, k)
			return fmt.Sprint(len(m), m["k"]), err
		}
		z.req = &rpc.KV2Request{Target: &id2, Data: &pb.KVData{Key: &k2}}
		z.res = &rpc.ListOfKVData{KVData: []*pb.KVData{{Key: env.S("k"), Values: []*pb.KVValue{{Value: env.S("v" + r), Index: env.I(1)}, {Value: env.S("w"), Index: env.I(0)}}}}}
		z.want = "1 [w v" + r + "]"
	}
	um := func(f func(context.Context, string, string, string, string) (map[string][]string, error)) {
		a, act, ok := zzact("action")
		k, v := text("key"), text("value")
		k2, v2 := k, v
		z.mut = act != rpc.Action_READ
		z.run = func() (interface{}, error) {
			m, err := f(ctx, id, a, k, v)
			return len(m), err
		}
		z.want = 0
		if act == rpc.Action_READ {
			z.want = 1
		}
		if ok {
			z.req = &rpc.KVRequest{Target: &id2, Action: &act, Key: &k2, Value: &v2}
		}
		z.res = &rpc.ListOfStrings{Strings: []string{"a:v"}}
	}
	entities := []*pb.Entity{{ID: &r}, {ID: env.S("q")}}
	groups := []*pb.Group{{Name: &r}, {Name: env.S("q")}}
	switch name {
	case "EntityCreate":
		s := text("secret")
		s2 := s
		n, n2 := number()
		errOnly(func() error { return c.EntityCreate(ctx, id, s, n) })
		z.req = &rpc.EntityRequest{Entity: &pb.Entity{ID: &id2, Secret: &s2, Number: n2}}
	case "EntityUpdate":
		var m *pb.EntityMeta
		if nd.Bool("meta") {
			m = &pb.EntityMeta{GECOS: env.S(text("gecos")), Shell: env.S(text("shell"))}
			if zztext != "" {
				m.PrimaryGroup, m.LegalName, m.DisplayName, m.Home, m.GraphicalShell, m.BadgeNumber = &r, &r, &r, &r, &r, &r
			}
		}
		errOnly(func() error { return c.EntityUpdate(ctx, id, m) })
		x := &pb.Entity{ID: &id2}
		if m != nil {
			x.Meta = proto.Clone(m).(*pb.EntityMeta)
		}
		z.req = &rpc.EntityRequest{Data: x}
	case "EntityInfo":
		z.mut = false
		z.run = func() (interface{}, error) {
			e, err := c.EntityInfo(ctx, id)
			return e.GetID(), err
		}
		z.req = &rpc.EntityRequest{Entity: &pb.Entity{ID: &id2}}
		z.res, z.want = &rpc.ListOfEntities{Entities: entities[:1]}, r
	case "EntitySearch":
		z.mut = false
		z.run = func() (interface{}, error) {
			l, err := c.EntitySearch(ctx, id)
			return zzids(l), err
		}
		z.req = &rpc.SearchRequest{Expression: &id2}
		z.res, z.want = &rpc.ListOfEntities{Entities: entities}, r + ",q,"
	case "EntityUM":
		um(c.EntityUM)
	case "GroupUM":
		um(c.GroupUM)
	case "EntityKeys":
		um(c.EntityKeys)
	case "EntityKVAdd":
		kv(c.EntityKVAdd)
	case "EntityKVReplace":
		kv(c.EntityKVReplace)
	case "GroupKVAdd":
		kv(c.GroupKVAdd)
	case "GroupKVReplace":
		kv(c.GroupKVReplace)
	case "EntityKVGet":
		kvget(c.EntityKVGet)
	case "GroupKVGet":
		kvget(c.GroupKVGet)
	case "EntityKVDel":
		kvdel(c.EntityKVDel)
	case "GroupKVDel":
		kvdel(c.GroupKVDel)
	case "EntityDestroy":
		byID(c.EntityDestroy)
	case "EntityLock":
		byID(c.EntityLock)
	case "EntityUnlock":
		byID(c.EntityUnlock)
	case "EntityGroups":
		z.mut = false
		z.run = func() (interface{}, error) {
			l, err := c.EntityGroups(ctx, id)
			return zzgroups(l), err
		}
		z.req = &rpc.EntityRequest{Entity: &pb.Entity{ID: &id2}}
		z.res, z.want = &rpc.ListOfGroups{Groups: groups}, r + ",q,"
	case "AuthEntity":
		s := text("secret")
		s2 := s
		z.mut = false
		errOnly(func() error { return c.AuthEntity(ctx, id, s) })
		z.req = &rpc.AuthRequest{Entity: &pb.Entity{ID: &id2}, Secret: &s2}
	case "AuthGetToken":
		s := text("secret")
		s2 := s
		z.mut = false
		z.run = func() (interface{}, error) { return c.AuthGetToken(ctx, id, s) }
		z.req = &rpc.AuthRequest{Entity: &pb.Entity{ID: &id2}, Secret: &s2}
		z.res, z.want = &rpc.AuthResult{Token: env.S("t" + r)}, "t" + r
	case "AuthValidateToken":
		z.mut = false
		errOnly(func() error { return c.AuthValidateToken(ctx, id) })
		z.req = &rpc.AuthRequest{Token: &id2}
	case "AuthChangeSecret":
		s, o := text("secret"), text("old")
		s2, o2 := s, o
		errOnly(func() error { return c.AuthChangeSecret(ctx, id, s, o) })
		z.req = &rpc.AuthRequest{Entity: &pb.Entity{ID: &id2, Secret: &o2}, Secret: &s2}
	case "GroupCreate":
		d, m := text("display"), text("managed")
		d2, m2 := d, m
		n, n2 := number()
		errOnly(func() error { return c.GroupCreate(ctx, id, d, m, n) })
		z.req = &rpc.GroupRequest{Group: &pb.Group{Name: &id2, DisplayName: &d2, ManagedBy: &m2, Number: n2}}
	case "GroupUpdate":
		g := &pb.Group{Name: &id, DisplayName: env.S(text("display"))}
		errOnly(func() error { return c.GroupUpdate(ctx, g) })
		z.req = &rpc.GroupRequest{Group: proto.Clone(g).(*pb.Group)}
	case "GroupInfo":
		z.mut = false
		z.run = func() (interface{}, error) {
			g, m, err := c.GroupInfo(ctx, id)
			return g.GetName() + "," + zzgroups(m), err
		}
		z.req = &rpc.GroupRequest{Group: &pb.Group{Name: &id2}}
		z.res, z.want = &rpc.ListOfGroups{Groups: groups[:1]}, r + ",r,q,"
	case "GroupUpdateRules":
		t := text("target")
		t2 := t
		a := rpc.RuleAction_INCLUDE
		s, ok := "include", true
		switch nd.Pick("rule", 5) {
		case 1:
			s, a = "EXCLUDE", rpc.RuleAction_EXCLUDE
		case 2:
			s, a = "Remove_Rule", rpc.RuleAction_REMOVE_RULE
		case 3:
			s, a = "drop", rpc.RuleAction_REMOVE_RULE
		case 4:
			s, ok = "nonsense", false
		}
		errOnly(func() error { return c.GroupUpdateRules(ctx, id, s, t) })
		if ok {
			z.req = &rpc.GroupRulesRequest{Group: &pb.Group{Name: &id2}, Target: &pb.Group{Name: &t2}, RuleAction: &a}
		}
	case "GroupAddMember", "GroupDelMember":
		g := text("group")
		g2 := g
		errOnly(func() error {
			if name == "GroupAddMember" {
				return c.GroupAddMember(ctx, g, id)
			}
			return c.GroupDelMember(ctx, g, id)
		})
		z.req = &rpc.EntityRequest{Entity: &pb.Entity{ID: &id2, Meta: &pb.EntityMeta{Groups: []string{g2}}}}
	case "GroupDestroy":
		errOnly(func() error { return c.GroupDestroy(ctx, id) })
		z.req = &rpc.GroupRequest{Group: &pb.Group{Name: &id2}}
	case "GroupMembers":
		z.mut = false
		z.run = func() (interface{}, error) {
			l, err := c.GroupMembers(ctx, id)
			return zzids(l), err
		}
		z.req = &rpc.GroupRequest{Group: &pb.Group{Name: &id2}}
		z.res, z.want = &rpc.ListOfEntities{Entities: entities}, r + ",q,"
	case "GroupSearch":
		z.mut = false
		z.run = func() (interface{}, error) {
			l, err := c.GroupSearch(ctx, id)
			return zzgroups(l), err
		}
		z.req = &rpc.SearchRequest{Expression: &id2}
		z.res, z.want = &rpc.ListOfGroups{Groups: groups}, r + ",q,"
	case "SystemCapabilities":
		d := nd.Bool("direct")
		caps := []string{"CREATE_ENTITY", "GLOBAL_ROOT", "nonsense"}
		k := nd.Pick("cap", 3)
		acts := []string{"ADD", "DROP", "nonsense"}
		a := nd.Pick("action", 3)
		errOnly(func() error { return c.SystemCapabilities(ctx, id, acts[a], caps[k], d) })
		if a < 2 && k < 2 {
			d2 := d
			z.req = &rpc.CapabilityRequest{Direct: &d2, Target: &id2, Action: rpc.Action(rpc.Action_value[acts[a]]).Enum(),
				Capability: pb.Capability(pb.Capability_value[caps[k]]).Enum()}
		}
	case "SystemPing":
		z.mut = false
		errOnly(func() error { return c.SystemPing(ctx) })
		z.req = &rpc.Empty{}
	case "SystemStatus":
		z.mut = false
		z.run = func() (interface{}, error) {
			s, err := c.SystemStatus(ctx)
			return s.GetSystemOK(), err
		}
		z.req = &rpc.Empty{}
		z.res, z.want = &rpc.ServerStatus{SystemOK: env.B(true)}, true
	}
	return z
}

func zzids(l []*pb.Entity) string {
	s := ""
	for _, e := range l {
		s += e.GetID() + ","
	}
	return s
}

func zzgroups(l []*pb.Group) string {
	s := ""
	for _, g := range l {
		s += g.GetName() + ","
	}
	return s
}

func zzsame(name string, a, b proto.Message) bool {
	switch name {
	case "SystemPing", "SystemStatus":
		return true
	}
	return proto.Equal(a, b)
}

// zzconnect makes a client under drawn server and master settings, and
// returns the addresses of both.
func zzconnect() (*Client, string, string) {
	server, master := "a", "b"
	if zztext == "" {
		server = nd.Choose("server", "a", "b", "abc")
		master = nd.Choose("master", "", "a", "b", "ab")
	}
	env.SetConf("core.conf", "/c")
	env.SetConf("core.port", 17)
	env.SetConf("core.server", server)
	env.SetConf("core.master", master)
	env.SetConf("tls.certificate", "k.pem")
	env.SetConf("token.cache", "memory")
	env.SetConf("token.backend", "none")
	env.SetConf("client.ID", "cli")
	c, err := NewWithLog(hclog.NewNullLogger())
	nd.Assert(err == nil && c != nil, "a client is made")
	if master == "" {
		master = server
	}
	return c, server + ":17", master + ":17"
}

// zzcheck runs one call and checks what was sent and returned.
func zzcheck(c *Client, z *zzcall, server, master, svc, tok string) {
	before := len(zznet.Calls)
	fail := nd.Bool("fail")
	zznet.Answer = func(k *zznet.Call) (proto.Message, error) {
		if fail {
			return nil, errZZ
		}
		if z.name == "GroupInfo" && k.Method == "GroupSearch" {
			return &rpc.ListOfGroups{Groups: []*pb.Group{{Name: env.S("r")}, {Name: env.S("q")}}}, nil
		}
		return z.res, nil
	}
	out, err := z.run()
	sent := zznet.Calls[before:]
	if z.req == nil {
		nd.Reach("refused")
		nd.Assert(err != nil, "arguments the protocol cannot express are refused")
		nd.Assert(len(sent) == 0, "a refused call sends nothing")
		return
	}
	want := 1
	if z.name == "GroupInfo" && !fail {
		want = 2
	}
	nd.Assert(len(sent) == want, "a call sends one request")
	nd.Assert(sent[0].Method == z.name, "the request is of the matching kind")
	nd.Assert(zzsame(z.name, sent[0].Req, z.req), "the request carries exactly the arguments")
	for i, k := range sent {
		if z.mut {
			nd.Reach("mutation")
			nd.Assert(k.Target == master, "changes are sent to the master")
		} else {
			nd.Assert(nd.Or(k.Target == server, k.Target == master), "reads are sent to a configured server")
		}
		nd.Assert(zzmd(k.MD["client-name"], "cli", i) && zzmd(k.MD["service-name"], svc, i), "client and service are identified")
		nd.Assert(zzmd(k.MD["authorization"], tok, 0), "the caller's token is passed on")
	}
	if fail {
		nd.Reach("failed")
		nd.Assert(err == errZZ, "the server's error is returned")
		return
	}
	nd.Reach("answered")
	nd.Assert(err == nil, "the server's success is returned")
	nd.Assert(out == z.want, "the server's result is returned")
}

// zzmd checks one metadata value; follow-up requests may repeat it.
func zzmd(got []string, want string, extra int) bool {
	if len(got) < 1 || len(got) > 1+extra {
		return false
	}
	ok := true
	for _, g := range got {
		ok = nd.And(ok, g == want)
	}
	return ok
}

//gosym:bounds every client call with symbolic arguments (names 0..2 bytes, other texts 0..1 byte, any 32-bit number, 0..2 values, every action in assorted case, unknown actions and capabilities), server and master equal, different or master unset, symbolic service name, the server answering with a result or an error
//gosym:weight 2
func VP_F05_call() {
	c, server, master := zzconnect()
	svc := nd.Str("svc", 0, 1, "s")
	c.SetServiceName(svc)
	ctx := Authorize(context.Background(), "tok")
	z := zzdraw(c, ctx, zznames[nd.Pick("call", len(zznames))])
	zzcheck(c, z, server, master, svc, "tok")
}

//gosym:bounds every client call with names, secrets and all other texts, the token, the service and the texts of the answer one of 31 that code could be tempted to trim, fold, cut or interpret (up to 300 bytes and more), 0 or 20 values
func VP_F05_strange() {
	zztext = env.Strange[nd.Pick("text", len(env.Strange))]
	zzplain = true
	defer func() { zztext, zzplain = "", false }()
	c, server, master := zzconnect()
	c.SetServiceName(zztext)
	zzcheck(c, zzdraw(c, Authorize(context.Background(), zztext), zznames[nd.Pick("call", len(zznames))]), server, master, zztext, zztext)
}

//gosym:bounds two (thorough three) calls in sequence out of five changes and reads, among them untyped metadata with either action, with server and master equal, different or master unset, each answered with a result or an error, arguments fixed
func VP_F05_sequence() {
	c, server, master := zzconnect()
	c.SetServiceName("s")
	ctx := Authorize(context.Background(), "tok")
	names := []string{"EntityLock", "EntityInfo", "EntityUM", "GroupInfo", "AuthChangeSecret"}
	zzplain = true
	n := 2
	if nd.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		z := zzdraw(c, ctx, names[nd.Pick("call", len(names))])
		zzcheck(c, z, server, master, "s", "tok")
	}
}

//gosym:bounds every call, with the master equal to the server or different, and unreachable, then tried once more
func VP_F05_unreachable() {
	c, _, master := zzconnect()
	ctx := context.Background()
	zznet.DialFails = true
	z := zzdraw(c, ctx, zznames[nd.Pick("call", len(zznames))])
	zznet.Answer = func(k *zznet.Call) (proto.Message, error) {
		if !z.mut {
			return z.res, nil
		}
		nd.Assert(k.Target == master, "changes are sent to the master")
		return nil, errZZ
	}
	if !z.mut && z.req != nil {
		_, err := z.run()
		nd.Reach("read")
		nd.Assert(err == nil, "reading does not need the master")
		return
	}
	_, err := z.run()
	nd.Reach("tried")
	nd.Assert(err != nil, "a change that did not reach the master is not reported as done")
	// once more, while it is still unreachable or reachable again
	zznet.DialFails = nd.Bool("still unreachable")
	_, err = z.run()
	nd.Reach("again")
	nd.Assert(err != nil, "a change that did not reach the master is not reported as done")
}

//gosym:bounds EntityInfo and GroupInfo answered with a list of no entries
func VP_F05_empty() {
	c, _, _ := zzconnect()
	zznet.Answer = func(k *zznet.Call) (proto.Message, error) {
		if k.Method == "EntityInfo" {
			return &rpc.ListOfEntities{}, nil
		}
		return &rpc.ListOfGroups{}, nil
	}
	if nd.Bool("group") {
		_, _, err := c.GroupInfo(context.Background(), "g")
		nd.Assert(err != nil, "an empty answer is not taken for an object")
	} else {
		_, err := c.EntityInfo(context.Background(), "e")
		nd.Assert(err != nil, "an empty answer is not taken for an object")
	}
	nd.Reach("answered")
}

//gosym:bounds EntityCreate and GroupCreate with any 64-bit number
func VP_F05_number() {
	c, _, _ := zzconnect()
	n := nd.Int("number")
	var got *int32
	zznet.Answer = func(k *zznet.Call) (proto.Message, error) {
		switch q := k.Req.(type) {
		case *rpc.EntityRequest:
			got = q.GetEntity().Number
		case *rpc.GroupRequest:
			got = q.GetGroup().Number
		}
		return &rpc.Empty{}, nil
	}
	var err error
	if nd.Bool("group") {
		err = c.GroupCreate(context.Background(), "g", "", "", n)
	} else {
		err = c.EntityCreate(context.Background(), "e", "s", n)
	}
	nd.Reach("called")
	if got == nil {
		nd.Assert(err != nil, "nothing is silently dropped")
		return
	}
	nd.Assert(int(*got) == n, "the request carries exactly the number asked for")
}
