package ctl

import (
	"errors"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"
	"github.com/spf13/cobra"

	tokens "github.com/netauth/netauth/internal/token"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zznet"
	"github.com/netauth/netauth/internal/zzos"
	"github.com/netauth/netauth/pkg/netauth/cache"

	pb "github.com/netauth/protocol"
	rpcv "github.com/netauth/protocol/v2"
)

//gosym:net

var zzerr = errors.New("the server's error")

// zzcache is a token cache.
type zzcache struct {
	m                  map[string]string
	getErr, putErr, de error
	puts, dels         int
}

func (c *zzcache) PutToken(k, v string) error {
	c.puts++
	if c.putErr == nil {
		c.m[k] = v
	}
	return c.putErr
}

func (c *zzcache) GetToken(k string) (string, error) {
	if c.getErr != nil {
		return "", c.getErr
	}
	v, ok := c.m[k]
	if !ok {
		return "", cache.ErrNoCachedToken
	}
	return v, nil
}

func (c *zzcache) DelToken(k string) error {
	c.dels++
	if c.de == nil {
		delete(c.m, k)
	}
	return c.de
}

// zzcaps are the capabilities in tokens, if zzcapsSet.
var zzcaps []pb.Capability
var zzcapsSet bool

// zzsvc accepts some tokens.
type zzsvc struct{}

func (zzsvc) Generate(tokens.Claims, tokens.Config) (string, error) {
	return "", tokens.ErrInternalError
}

func (zzsvc) Validate(t string) (tokens.Claims, error) {
	if t == "good" || t == "fresh" || t == "~good~" || t == "~fresh~" {
		c := []pb.Capability{pb.Capability_LOCK_ENTITY}
		if zzcapsSet {
			c = zzcaps
		}
		return tokens.Claims{EntityID: "who-" + strings.Trim(t, "~"), Capabilities: c}, nil
	}
	return tokens.Claims{}, tokens.ErrTokenInvalid
}

// zzsetup configures a command-line session of the user "me".
func zzsetup() *zzcache {
	c := &zzcache{m: map[string]string{}}
	zzos.Printed = func(b []byte) { zznet.Out += string(b) }
	cache.RegisterTokenCacheFactory("zz", func() (cache.TokenCache, error) { return c, nil })
	tokens.Register("zz", func(hclog.Logger) (tokens.Service, error) { return zzsvc{}, nil })
	tokens.Register("broken", func(hclog.Logger) (tokens.Service, error) { return nil, tokens.ErrKeyUnavailable })
	env.SetConf("core.conf", "/c")
	env.SetConf("core.port", 17)
	env.SetConf("core.server", "a")
	env.SetConf("core.master", "m")
	env.SetConf("tls.certificate", "k.pem")
	env.SetConf("token.cache", "zz")
	env.SetConf("token.backend", "zz")
	env.SetConf("client.ID", "cli")
	return c
}

// zzrun runs the tool.
func zzrun(args ...string) (code int) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(zzos.ExitCode)
			if !ok {
				panic(r)
			}
			code = e.N
		}
	}()
	nd.Note("args", strings.Join(args, " "))
	rootCmd.SetArgs(args)
	rootCmd.SetOutput(zznet.Terminal)
	rootCmd.SetHelpFunc(func(*cobra.Command, []string) {})
	Execute()
	return 0
}

// zzcmd is a command and the request it stands for.
type zzcmd struct {
	args   []string
	method string
	req    proto.Message
	auth   bool // needs a token
	res    proto.Message
	out    []string // what is printed, in this order
}

// zzodd, if set, is every text zzdraw draws, and the user and the secrets.
var zzodd string

// zzuser is the user of the tool, zzmine the secret prompted for.
func zzuser() string {
	if zzodd != "" {
		return zzodd
	}
	return "me"
}

func zzmine(s string) string {
	if zzodd != "" {
		return zzodd
	}
	return s
}

// zzplain makes zzdraw draw only what decides about logins.
var zzplain bool

func zztext(l string) string {
	if zzodd != "" {
		return zzodd
	}
	if zzplain {
		return "x"
	}
	return nd.Choose(l, "x", "x y", "X:y{0}", "é*")
}

func zzcase(l, s string) string {
	if zzplain {
		return s
	}
	switch nd.Pick(l, 3) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s[:1]) + strings.ToLower(s[1:])
	}
	return s
}

var zzverbs = []string{
	"entity create", "entity destroy", "entity info", "entity key", "entity kv", "entity lock", "entity unlock", "entity membership", "entity memberships", "entity search", "entity update",
	"group create", "group destroy", "group info", "group kv", "group members", "group rule", "group search", "group update",
	"kv2 add", "kv2 del", "kv2 get", "kv2 replace", "system capability", "system ping", "system status", "auth check", "auth validate-token", "auth change-secret",
}

func zzum(kind string) *zzcmd {
	z := &zzcmd{auth: true, method: "EntityUM"}
	if kind == "group" {
		z.method = "GroupUM"
	}
	act := nd.Choose("action", "UPSERT", "CLEARFUZZY", "CLEAREXACT", "READ")
	t, k := zztext("target"), zztext("key")
	z.args = []string{t, zzcase("case", act), k}
	a := rpcv.Action(rpcv.Action_value[act])
	q := &rpcv.KVRequest{Target: &t, Key: &k, Action: &a, Value: env.S("")}
	if act == "UPSERT" {
		v := zztext("value")
		z.args = append(z.args, v)
		q.Value = &v
	}
	z.req = q
	z.auth = act != "READ"
	z.res = &rpcv.ListOfStrings{}
	return z
}

// zzdraw draws a command.
func zzdraw(verb string) *zzcmd {
	z := &zzcmd{auth: true, res: &rpcv.Empty{}}
	p := strings.SplitN(verb, " ", 2)
	kind := p[0]
	flag := func(name string) *string {
		if zzodd == "" && (zzplain && name != "csEntity" || !nd.Bool(name)) {
			return nil
		}
		if zzodd != "" {
			z.args = append(z.args, "--"+name+"="+zzodd)
			return env.S(zzodd)
		}
		if zzplain {
			z.args = append(z.args, "--"+name, "v")
			return env.S("v")
		}
		v := nd.Choose(name+" value", "v", "", "v w")
		if v == "v w" {
			z.args = append(z.args, "--"+name+"="+v)
		} else {
			z.args = append(z.args, "--"+name, v)
		}
		return &v
	}
	str := func(p *string) *string {
		if p == nil {
			return env.S("")
		}
		return p
	}
	entity := func(m string) {
		id := zztext("id")
		z.args = []string{id}
		z.method, z.req = m, &rpcv.EntityRequest{Entity: &pb.Entity{ID: &id}}
	}
	number := func() *int32 {
		k := 3
		if !zzplain {
			k = nd.Pick("number", 4)
		}
		switch k {
		case 0:
			z.args = append(z.args, "--number", "7")
			return env.I(7)
		case 1:
			z.args = append(z.args, "--number", "0")
			return env.I(0)
		case 2:
			z.args = append(z.args, "--number=-3")
			return env.I(-3)
		}
		return env.I(-1)
	}
	switch verb {
	case "entity create":
		id := zztext("id")
		z.args = []string{id}
		n := number()
		s := zzmine("initial") // prompted for
		if f := flag("initial-secret"); f != nil {
			s = *f
		}
		z.method, z.req = "EntityCreate", &rpcv.EntityRequest{Entity: &pb.Entity{ID: &id, Secret: &s, Number: n}}
	case "entity destroy":
		entity("EntityDestroy")
	case "entity lock":
		entity("EntityLock")
	case "entity unlock":
		entity("EntityUnlock")
	case "entity info":
		entity("EntityInfo")
		z.auth = false
		z.res = &rpcv.ListOfEntities{Entities: []*pb.Entity{{ID: env.S("q"), Number: env.I(9), Meta: &pb.EntityMeta{Shell: env.S("sh")}}}}
		z.out = []string{"ID: q\n", "Number: 9\n", "sh\n"}
	case "entity memberships":
		entity("EntityGroups")
		z.auth = false
		z.res = &rpcv.ListOfGroups{Groups: []*pb.Group{{Name: env.S("q"), Number: env.I(9)}, {Name: env.S("r"), Number: env.I(8)}}}
		z.out = []string{"Name: q\n", "Number: 9\n", "Name: r\n", "Number: 8\n"}
	case "entity key":
		id := zzuser()
		f := flag("entityID")
		if f != nil && *f != "" {
			id = *f
		}
		z.method = "EntityKeys"
		typ, key := nd.Choose("type", "SSH", "ssh", "GPG"), zztext("key")
		q := &rpcv.KVRequest{Target: &id}
		a := rpcv.Action_READ
		z.res = &rpcv.ListOfStrings{}
		switch m := nd.Choose("mode", "ADD", "DROP", "READ", "READ type"); m {
		case "ADD":
			a = rpcv.Action_ADD
			z.args = append(z.args, zzcase("case", m), typ, key)
			q.Key, q.Value = &typ, &key
		case "DROP":
			a = rpcv.Action_DROP
			z.args = append(z.args, zzcase("case", m), key)
			q.Key, q.Value = env.S(""), &key
		case "READ":
			z.auth = false
			z.args = append(z.args, zzcase("case", m))
			q.Key, q.Value = env.S("SSH"), env.S("")
			z.res = &rpcv.ListOfStrings{Strings: []string{"SSH:k1", "GPG:k2"}}
			z.out = []string{"SSH", "k1"}
		default:
			z.auth = false
			z.args = append(z.args, "read", typ)
			q.Key, q.Value = env.S(strings.ToUpper(typ)), env.S("")
		}
		q.Action = &a
		z.req = q
	case "entity kv", "group kv":
		z = zzum(kind)
	case "entity membership":
		e, g := zztext("entity"), zztext("group")
		z.method = "GroupAddMember"
		mode := "ADD"
		if nd.Bool("drop") {
			mode, z.method = "DROP", "GroupDelMember"
		}
		z.args = []string{e, zzcase("case", mode), g}
		z.req = &rpcv.EntityRequest{Entity: &pb.Entity{ID: &e, Meta: &pb.EntityMeta{Groups: []string{g}}}}
	case "entity search", "group search":
		x := zztext("expression")
		z.args = []string{x}
		z.auth = false
		z.req = &rpcv.SearchRequest{Expression: &x}
		if kind == "entity" {
			z.method = "EntitySearch"
			z.res = &rpcv.ListOfEntities{Entities: []*pb.Entity{{ID: env.S("q"), Number: env.I(9)}, {ID: env.S("r"), Number: env.I(8)}}}
			z.out = []string{"ID: q\n", "Number: 9\n", "ID: r\n", "Number: 8\n"}
		} else {
			z.method = "GroupSearch"
			z.res = &rpcv.ListOfGroups{Groups: []*pb.Group{{Name: env.S("q"), Number: env.I(9)}, {Name: env.S("r"), Number: env.I(8)}}}
			z.out = []string{"Name: q\n", "Number: 9\n", "Name: r\n", "Number: 8\n"}
		}
	case "entity update":
		id := zztext("id")
		z.args = []string{id}
		m := &pb.EntityMeta{}
		a := nd.Pick("field", 8)
		b := (a + 3) % 8
		for i, n := range []string{"primary-group", "GECOS", "legalName", "displayName", "homedir", "shell", "graphicalShell", "badgeNumber"} {
			if i != a && i != b {
				continue
			}
			v := flag(n)
			switch i {
			case 0:
				m.PrimaryGroup = v
			case 1:
				m.GECOS = v
			case 2:
				m.LegalName = v
			case 3:
				m.DisplayName = v
			case 4:
				m.Home = v
			case 5:
				m.Shell = v
			case 6:
				m.GraphicalShell = v
			case 7:
				m.BadgeNumber = v
			}
		}
		z.method, z.req = "EntityUpdate", &rpcv.EntityRequest{Data: &pb.Entity{ID: &id, Meta: m}}
	case "group create":
		n := zztext("name")
		z.args = []string{n}
		num := number()
		g := &pb.Group{Name: &n, Number: num, DisplayName: str(flag("display-name")), ManagedBy: str(flag("managed-by"))}
		z.method, z.req = "GroupCreate", &rpcv.GroupRequest{Group: g}
	case "group update":
		n := zztext("name")
		z.args = []string{n}
		z.method, z.req = "GroupUpdate", &rpcv.GroupRequest{Group: &pb.Group{Name: &n, DisplayName: flag("display-name"), ManagedBy: flag("managed-by")}}
	case "group destroy":
		n := zztext("name")
		z.args = []string{n}
		z.method, z.req = "GroupDestroy", &rpcv.GroupRequest{Group: &pb.Group{Name: &n}}
	case "group info":
		n := zztext("name")
		z.args = []string{n}
		z.auth = false
		z.method, z.req = "GroupInfo", &rpcv.GroupRequest{Group: &pb.Group{Name: &n}}
		z.res = &rpcv.ListOfGroups{Groups: []*pb.Group{{Name: env.S("q"), Number: env.I(9), Expansions: []string{"INCLUDE:z"}, ManagedBy: env.S("y")}}}
		z.out = []string{"Name: q\n", "Number: 9\n", "y\n", "INCLUDE:z\n"}
	case "group members":
		n := zztext("name")
		z.args = []string{n}
		z.auth = false
		z.method, z.req = "GroupMembers", &rpcv.GroupRequest{Group: &pb.Group{Name: &n}}
		z.res = &rpcv.ListOfEntities{Entities: []*pb.Entity{{ID: env.S("q"), Number: env.I(9)}, {ID: env.S("r"), Number: env.I(8)}}}
		z.out = []string{"ID: q\n", "Number: 9\n", "ID: r\n", "Number: 8\n"}
	case "group rule":
		g, t := zztext("name"), zztext("target")
		i := nd.Pick("rule", 3)
		a := []rpcv.RuleAction{rpcv.RuleAction_INCLUDE, rpcv.RuleAction_EXCLUDE, rpcv.RuleAction_REMOVE_RULE}[i]
		z.args = []string{g, zzcase("case", []string{"INCLUDE", "EXCLUDE", "DROP"}[i]), t}
		z.method, z.req = "GroupUpdateRules", &rpcv.GroupRulesRequest{Group: &pb.Group{Name: &g}, Target: &pb.Group{Name: &t}, RuleAction: &a}
	case "kv2 add", "kv2 del", "kv2 get", "kv2 replace":
		on := "Entity"
		if nd.Bool("group") {
			on = "Group"
		}
		t, k := zztext("target"), zztext("key")
		z.args = []string{zzcase("case", on), t, k}
		d := &pb.KVData{Key: &k}
		z.method = on + map[string]string{"add": "KVAdd", "del": "KVDel", "get": "KVGet", "replace": "KVReplace"}[p[1]]
		if p[1] == "add" || p[1] == "replace" {
			n := 1
			if zzodd != "" {
				n = 12
			} else if !zzplain {
				n += nd.Pick("values", 2)
			}
			for i := 0; i < n; i++ {
				v := zzmine("b")
				if zzodd == "" {
					v = nd.Choose("value", "b", "a c")
				}
				z.args = append(z.args, v)
				d.Values = append(d.Values, &pb.KVValue{Value: &v, Index: env.I(int32(i))})
			}
		}
		if p[1] == "get" {
			z.auth = false
			z.res = &rpcv.ListOfKVData{KVData: []*pb.KVData{{Key: env.S("k"), Values: []*pb.KVValue{{Value: env.S("w"), Index: env.I(1)}, {Value: env.S("v"), Index: env.I(0)}}}}}
			z.out = []string{"v\n", "w\n"}
		}
		z.req = &rpcv.KV2Request{Target: &t, Data: d}
	case "system capability":
		t := zztext("target")
		q := &rpcv.CapabilityRequest{Target: &t}
		c := env.AllCaps[0]
		if !zzplain {
			c = env.AllCaps[nd.Pick("capability", len(env.AllCaps))]
		}
		direct := false
		q.Direct, q.Capability = &direct, &c
		mode := "ADD"
		a := rpcv.Action_ADD
		if nd.Bool("drop") {
			mode, a = "DROP", rpcv.Action_DROP
		}
		q.Action = &a
		z.args = []string{t, zzcase("case", mode), zzcase("case", c.String())}
		if !zzplain && nd.Bool("direct") {
			direct = true
			z.args = append(z.args, "--direct")
		}
		z.method, z.req = "SystemCapabilities", q
	case "system ping":
		z.auth = false
		z.method, z.req = "SystemPing", &rpcv.Empty{}
	case "system status":
		z.auth = false
		z.method, z.req = "SystemStatus", &rpcv.Empty{}
		z.res = &rpcv.ServerStatus{SystemOK: proto.Bool(false)}
		z.out = []string{"[FAIL]"}
	case "auth check":
		z.auth = false
		z.method, z.req = "AuthEntity", &rpcv.AuthRequest{Entity: &pb.Entity{ID: env.S(zzuser())}, Secret: env.S(zzmine("mine"))}
	case "auth validate-token":
		z.method = "AuthValidateToken"
	case "auth change-secret":
		id := zzuser()
		if f := flag("csEntity"); f != nil && *f != "" {
			id = *f
		}
		s := zzmine("changed") // prompted for
		if f := flag("csSecret"); f != nil && *f != "" {
			s = *f
		}
		old := ""
		if id == zzuser() {
			old = zzmine("mine")
		}
		z.method, z.req = "AuthChangeSecret", &rpcv.AuthRequest{Entity: &pb.Entity{ID: &id, Secret: &old}, Secret: &s}
	}
	z.args = append(strings.Split(verb, " "), z.args...)
	return z
}

// zzmistyped makes the new secret differ the second time.
var zzmistyped bool

// zzprompt answers prompts as the user would.
func zzprompt(prompt string) (string, error) {
	switch {
	case zzodd != "":
		return zzodd, nil
	case strings.HasPrefix(prompt, "Initial"):
		return "initial", nil
	case strings.HasPrefix(prompt, "Verify") && zzmistyped:
		return "chanbed", nil
	case strings.HasPrefix(prompt, "New"), strings.HasPrefix(prompt, "Verify"):
		return "changed", nil
	}
	return "mine", nil
}

//gosym:bounds every command but those about the local token, its positional arguments out of four texts with spaces, colons, braces and wildcards, its keywords in three cases, every flag (of entity update: two at a time) left out or with one of three values; with a valid token at hand, if one is needed, and the secret prompted for; the server answers
//gosym:weight 3
func VP_F12_commands() {
	c := zzsetup()
	verb := zzverbs[nd.Pick("command", len(zzverbs))]
	z := zzdraw(verb)
	if z.auth {
		c.m["me"] = "good"
	}
	zzcheck(c, z, verb, &zzlogin{})
}

//gosym:bounds every command but those about the local token with simple arguments; a valid token, an expired one or none is cached, or the cache fails, when reading or when writing; the secret is prompted for or given on the command line, the user is the default or given; the login and the request succeed or fail; the key to check tokens with is there or not
//gosym:weight 3
func VP_F12_login() {
	c := zzsetup()
	zzplain = true
	verb := zzverbs[nd.Pick("command", len(zzverbs))]
	z := zzdraw(verb)
	l := &zzlogin{}
	nokey := nd.Bool("no key")
	if nokey {
		env.SetConf("token.backend", "broken")
	}
	if z.auth {
		cached := nd.Choose("cached", "good", "old", "none", "error")
		l.login = cached != "good" || nokey
		switch cached {
		case "none":
		case "error":
			c.getErr = zzerr
		default:
			c.m["me"] = cached
		}
		if l.login {
			l.refused = nd.Bool("login refused")
			if !l.refused && nd.Bool("cannot keep") {
				c.putErr = zzerr
			}
		}
	}
	l.given = nd.Bool("secret given")
	l.fail = nd.Bool("fail")
	if nd.Bool("no terminal") {
		zznet.Ask = func(string) (string, error) { return "", zzerr }
	}
	zzcheck(c, z, verb, l)
}

//gosym:bounds every command but those about the local token with all its arguments and flags, the user and the secrets one of 31 texts that code could be tempted to trim, fold, cut or interpret, and 12 values where any number is allowed; the secret is prompted for or given, a valid token is cached or none
func VP_F12_strange() {
	c := zzsetup()
	zzplain = true
	zzodd = env.Strange[nd.Pick("text", len(env.Strange))]
	nd.Assume(zzodd[0] != '-')
	verb := zzverbs[nd.Pick("command", len(zzverbs))]
	z := zzdraw(verb)
	l := &zzlogin{}
	if z.auth {
		l.login = nd.Bool("none cached")
		if !l.login {
			c.m[zzodd] = "good"
		}
	}
	l.given = nd.Bool("secret given")
	zzcheck(c, z, verb, l)
}

// zzlogin is how a command gets its token.
type zzlogin struct{ login, refused, given, fail bool }

func zzcheck(c *zzcache, z *zzcmd, verb string, l *zzlogin) {
	c.m["you"] = "good"
	tok := "good"
	if l.login {
		tok = "fresh"
	}
	args := z.args
	if zzodd != "" {
		args = append(append([]string{}, args...), "--entity="+zzodd)
	}
	if l.given && zzodd != "" {
		args = append(append([]string{}, args...), "--secret="+zzodd)
	} else if l.given {
		args = append(append([]string{}, args...), "--secret", "mine")
	}
	prompt := zznet.Ask
	prompts, failed := 0, false
	zznet.Ask = func(p string) (string, error) {
		prompts++
		if prompt != nil {
			failed = true
			return prompt(p)
		}
		return zzprompt(p)
	}
	if verb == "auth validate-token" {
		z.req = &rpcv.AuthRequest{Token: &tok}
	}
	var sent []*zznet.Call
	zznet.Answer = func(k *zznet.Call) (proto.Message, error) {
		nd.Assert(!failed, "no request is made with a secret that could not be read")
		if k.Method == "AuthGetToken" {
			nd.Reach("login")
			nd.Assert(l.login, "no login is made while a valid token is at hand, or without need")
			q := k.Req.(*rpcv.AuthRequest)
			nd.Assert(q.GetEntity().GetID() == zzuser() && q.GetSecret() == zzmine("mine"), "a login is for the user with the secret given")
			if l.refused {
				return nil, zzerr
			}
			return &rpcv.AuthResult{Token: env.S("fresh")}, nil
		}
		sent = append(sent, k)
		if l.fail {
			return nil, zzerr
		}
		return z.res, nil
	}
	code := zzrun(args...)
	nd.NoteInt("exit", code)
	nd.Assert(c.m["you"] == "good", "tokens of others are left alone")
	if failed || l.refused {
		nd.Reach("not logged in")
		nd.Assert(len(sent) == 0 && code != 0, "without a secret or a token no request is made and the failure is reported")
		return
	}
	if c.putErr != nil {
		nd.Reach("cannot keep")
		nd.Assert(code != 0 || len(sent) == 1, "a command makes one request")
		return
	}
	want := 1
	if z.method == "GroupInfo" && !l.fail {
		want = 2
	}
	nd.Assert(len(sent) == want, "a command makes one request")
	nd.Assert(sent[0].Method == z.method, "the request is the one the command stands for")
	if verb != "system ping" && verb != "system status" {
		nd.Assert(proto.Equal(sent[0].Req, z.req), "the request says exactly what the arguments say")
	}
	if z.auth && verb != "auth validate-token" {
		nd.Reach("authorized")
		a := sent[0].MD["authorization"]
		nd.Assert(len(a) == 1 && a[0] == tok, "the request carries the user's valid token")
	}
	if l.login {
		nd.Assert(c.m[zzuser()] == "fresh", "a token obtained is kept for the user")
	}
	if l.fail {
		nd.Reach("failed")
		nd.Assert(code != 0, "a failed request is reported by the exit status")
		return
	}
	nd.Reach("succeeded")
	nd.Assert(code == 0, "a successful request is reported by the exit status")
	out := zznet.Out
	for _, s := range z.out {
		i := strings.Index(out, s)
		nd.Assert(i >= 0, "what the server answered is printed")
		if i >= 0 {
			out = out[i+len(s):]
		}
	}
}

//gosym:bounds every command with an argument too few or too many, an unknown keyword, capability or flag; unknown and incomplete commands
func VP_F12_usage() {
	c := zzsetup()
	c.m["me"] = "good"
	zzplain = true
	verb := zzverbs[nd.Pick("command", len(zzverbs))]
	z := zzdraw(verb)
	args := z.args
	fixed := len(args) > 2
	mistake := nd.Choose("mistake", "fewer", "more", "keyword", "flag", "command", "subsystem", "nothing", "secret")
	switch mistake {
	case "fewer":
		nd.Assume(fixed && verb != "entity key" || verb == "entity key" && args[2] != "READ" && args[2] != "read")
		args = args[:len(args)-1]
	case "more":
		nd.Assume(fixed && verb != "kv2 add" && verb != "kv2 replace" && verb != "entity key" && verb != "auth change-secret")
		nd.Assume(verb != "entity kv" && verb != "group kv")
		args = append(args, "y")
	case "keyword":
		at := map[string]int{"entity key": 2, "entity kv": 3, "group kv": 3, "entity membership": 3, "group rule": 3, "kv2 add": 2, "kv2 del": 2, "kv2 get": 2, "kv2 replace": 2, "system capability": 3}[verb]
		nd.Assume(at > 0)
		if verb == "system capability" && nd.Bool("of capability") {
			at = 4
		}
		args[at] = nd.Choose("wrong", "", "nonsense", "1")
	case "flag":
		args = append(args, "--nonsense")
	case "command":
		args = append([]string{args[0], args[1] + "x"}, args[2:]...)
	case "subsystem":
		args = append([]string{args[0] + "x"}, args[1:]...)
	case "secret":
		nd.Assume(verb == "auth change-secret")
		zzmistyped = true
	case "nothing":
		args = args[:nd.Pick("words", 2)]
	}
	zznet.Ask = zzprompt
	zznet.Answer = func(k *zznet.Call) (proto.Message, error) { return &rpcv.Empty{}, nil }
	code := zzrun(args...)
	nd.Reach("mistake")
	nd.Assert(len(zznet.Calls) == 0, "a command that is not understood makes no request")
	// these show what commands there are
	help := mistake == "command" || mistake == "nothing"
	nd.Assert(code != 0 || help, "a command that is not understood is reported by the exit status")
}

//gosym:bounds the commands about the local token with a valid, expired or no token, the user default or given, the cache failing or not, the login refused or not, the key to check tokens with there or not
func VP_F12_token() {
	c := zzsetup()
	cached := nd.Choose("cached", "good", "old", "none")
	user := nd.Choose("user", "me", "you", "")
	id := user
	var args []string
	if user != "" {
		args = []string{"--entity", user}
	} else {
		id = "me"
	}
	if cached != "none" {
		c.m[id] = cached
	}
	c.m["other"] = "good"
	if nd.Bool("cache fails") {
		c.putErr, c.de = zzerr, zzerr
	}
	refused := nd.Bool("refused")
	nokey := nd.Bool("no key")
	if nokey {
		env.SetConf("token.backend", "broken")
	}
	zznet.Ask = zzprompt
	logins := 0
	zznet.Answer = func(k *zznet.Call) (proto.Message, error) {
		nd.Assert(k.Method == "AuthGetToken", "commands about the local token make no requests but logins")
		logins++
		q := k.Req.(*rpcv.AuthRequest)
		nd.Assert(q.GetEntity().GetID() == id && q.GetSecret() == "mine", "a login is for the user with the secret given")
		if refused {
			return nil, zzerr
		}
		return &rpcv.AuthResult{Token: env.S("fresh")}, nil
	}
	cmd := nd.Choose("command", "get-token", "inspect-token", "destroy-token")
	code := zzrun(append([]string{"auth", cmd}, args...)...)
	nd.Assert(c.m["other"] == "good", "tokens of others are left alone")
	_, left := c.m[id]
	switch cmd {
	case "destroy-token":
		nd.Reach("destroy")
		nd.Assert(logins == 0, "destroying a token makes no request")
		nd.Assert((code == 0) == (c.de == nil), "failing to destroy a token is reported by the exit status")
		nd.Assert(c.de != nil || !left, "a destroyed token is gone")
	case "get-token":
		nd.Reach("get")
		nd.Assert(code != 0 || c.m[id] == "fresh" || logins == 0 && c.m[id] == "good", "a valid token is available after it was asked for")
		nd.Assert(code == 0 || refused || c.putErr != nil, "getting a token succeeds")
	default:
		nd.Reach("inspect")
		nd.Assert(logins == 0 || cached != "good" || nokey, "no login is made while a valid token is at hand, or without need")
		if code == 0 {
			nd.Assert(!nokey, "a token that cannot be checked is not shown as valid")
			want := "who-good"
			if cached != "good" {
				want = "who-fresh"
			}
			nd.Assert(strings.Contains(zznet.Out, "'"+want+"'"), "what the server answered is printed")
			nd.Assert(strings.Contains(zznet.Out, "LOCK_ENTITY"), "what the server answered is printed")
		} else {
			nd.Assert(refused || nokey || c.putErr != nil, "inspecting a token succeeds")
		}
	}
}
