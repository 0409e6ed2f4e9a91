// Package zzp checks properties about plugins.
package zzp

import (
	"errors"
	"sort"

	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/plugin/tree/manager"
	_ "github.com/netauth/netauth/internal/tree/hooks"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zznet"
	ptree "github.com/netauth/netauth/pkg/plugin/tree"

	pb "github.com/netauth/protocol"
)

//gosym:net

const (
	null  = iota // does nothing
	amend        // changes the object at every call
	veto         // refuses at one call
	die          // its process ends at one call
	modes
)

// plug is a plugin program.
type plug struct {
	ptree.NullPlugin
	name  string
	mode  int
	at    int // call at which it refuses
	locks bool
	log   *[]string
	n     int
	ch    *zznet.Child

	secrets []string // the object's secret at each call
	wanted  []string // the secret in the request's data at each call
	states  []*pb.Entity
}

var errVeto = errors.New("refused by plugin")

func (p *plug) entity(what string, e, de pb.Entity, f func() (pb.Entity, error)) (pb.Entity, error) {
	*p.log = append(*p.log, what)
	p.secrets = append(p.secrets, e.GetSecret())
	p.wanted = append(p.wanted, de.GetSecret())
	p.states = append(p.states, proto.Clone(&e).(*pb.Entity))
	n := p.n
	p.n++
	switch {
	case p.mode == veto && n == p.at:
		return pb.Entity{ID: env.S("other")}, errVeto
	case p.mode == amend:
		if e.Meta == nil {
			e.Meta = &pb.EntityMeta{}
		}
		if p.locks {
			e.Meta.Locked = env.B(true)
		}
		e.Meta.UntypedMeta = append(e.Meta.UntypedMeta, "zz"+p.name+":"+what)
		return e, nil
	}
	return f()
}

func (p *plug) group(what string, g pb.Group, f func(pb.Group) (pb.Group, error)) (pb.Group, error) {
	*p.log = append(*p.log, what)
	n := p.n
	p.n++
	switch {
	case p.mode == veto && n == p.at:
		return pb.Group{Name: env.S("other")}, errVeto
	case p.mode == amend:
		g.UntypedMeta = append(g.UntypedMeta, "zz"+p.name+":"+what)
		return g, nil
	}
	return f(g)
}

func (p *plug) EntityCreate(e, de pb.Entity) (pb.Entity, error) {
	return p.entity("create", e, de, func() (pb.Entity, error) { return p.NullPlugin.EntityCreate(e, de) })
}
func (p *plug) EntityUpdate(e pb.Entity) (pb.Entity, error) {
	return p.entity("update", e, pb.Entity{}, func() (pb.Entity, error) { return p.NullPlugin.EntityUpdate(e) })
}
func (p *plug) EntityLock(e pb.Entity) (pb.Entity, error) {
	return p.entity("lock", e, pb.Entity{}, func() (pb.Entity, error) { return p.NullPlugin.EntityLock(e) })
}
func (p *plug) EntityUnlock(e pb.Entity) (pb.Entity, error) {
	return p.entity("unlock", e, pb.Entity{}, func() (pb.Entity, error) { return p.NullPlugin.EntityUnlock(e) })
}
func (p *plug) EntityDestroy(e pb.Entity) (pb.Entity, error) {
	return p.entity("destroy", e, pb.Entity{}, func() (pb.Entity, error) { return p.NullPlugin.EntityDestroy(e) })
}
func (p *plug) PreSecretChange(e, de pb.Entity) (pb.Entity, error) {
	return p.entity("presecret", e, de, func() (pb.Entity, error) { return p.NullPlugin.PreSecretChange(e, de) })
}
func (p *plug) PostSecretChange(e, de pb.Entity) (pb.Entity, error) {
	return p.entity("postsecret", e, de, func() (pb.Entity, error) { return p.NullPlugin.PostSecretChange(e, de) })
}
func (p *plug) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
	return p.entity("preauth", e, de, func() (pb.Entity, error) { return p.NullPlugin.PreAuthCheck(e, de) })
}
func (p *plug) PostAuthCheck(e, de pb.Entity) (pb.Entity, error) {
	return p.entity("postauth", e, de, func() (pb.Entity, error) { return p.NullPlugin.PostAuthCheck(e, de) })
}
func (p *plug) GroupCreate(g pb.Group) (pb.Group, error) {
	return p.group("gcreate", g, p.NullPlugin.GroupCreate)
}
func (p *plug) GroupUpdate(g pb.Group) (pb.Group, error) {
	return p.group("gupdate", g, p.NullPlugin.GroupUpdate)
}
func (p *plug) GroupDestroy(g pb.Group) (pb.Group, error) {
	return p.group("gdestroy", g, p.NullPlugin.GroupDestroy)
}

// the actions plugins are told about, per chain
var told = map[string][]string{
	"CREATE": {"create"}, "DESTROY": {"destroy"}, "SET-SECRET": {"presecret", "postsecret"}, "VALIDATE-IDENTITY": {"preauth", "postauth"},
	"LOCK": {"lock"}, "UNLOCK": {"unlock"}, "MERGE-METADATA": {"update"}, "UEM-UPSERT": {"update"}, "UEM-CLEARFUZZY": {"update"}, "UEM-CLEAREXACT": {"update"},
}

var gtold = map[string][]string{
	"CREATE": {"gcreate"}, "DESTROY": {"gdestroy"}, "MERGE-METADATA": {"gupdate"}, "UGM-UPSERT": {"gupdate"}, "UGM-CLEARFUZZY": {"gupdate"}, "UGM-CLEAREXACT": {"gupdate"},
}

// plugins loads n plugins into a server.
func plugins(n int) (*env.World, []*plug, *[]string) {
	log := new([]string)
	var ps []*plug
	for i := 0; i < n; i++ {
		p := &plug{name: []string{"0", "1"}[i], mode: nd.Pick("mode", modes), log: log}
		p.ch = zznet.NewChild("/p/"+p.name+".treeplugin", func() { ptree.PluginMain(p) })
		switch p.mode {
		case veto:
			p.at = nd.Pick("at", 2)
		case die:
			p.ch.DieAt = nd.Pick("at", 2)
			p.ch.DieLate = nd.Bool("late")
		}
		ps = append(ps, p)
	}
	m, err := manager.New(hclog.NewNullLogger())
	nd.Assert(err == nil, "the plugin manager starts")
	env.SetConf("plugin.loadstatic", false)
	env.SetConf("plugin.path", "/p")
	m.LoadPlugins()
	m.RegisterEntityHooks()
	m.RegisterGroupHooks()
	w := env.NewWorld(env.NewStore())
	m.ConfigureEntityChains(w.Tree.RegisterEntityHookToChain)
	m.ConfigureGroupChains(w.Tree.RegisterGroupHookToChain)
	return w, ps, log
}

// strip removes what the plugins added; the number of additions is returned.
func strip(um []string) ([]string, int) {
	var out []string
	n := 0
	for _, u := range um {
		if len(u) > 2 && u[:2] == "zz" {
			n++
		} else {
			out = append(out, u)
		}
	}
	return out, n
}

func z(p **string) {
	if *p != nil && **p == "" {
		*p = nil
	}
}

func zi(p **int32) {
	if *p != nil && **p == 0 {
		*p = nil
	}
}

func zkv(kv []*pb.KVData) {
	for _, d := range kv {
		for _, v := range d.Values {
			zi(&v.Index)
		}
	}
}

// plainE makes unset and zero fields the same.
func plainE(e *pb.Entity) *pb.Entity {
	if e == nil {
		return nil
	}
	z(&e.ID)
	zi(&e.Number)
	z(&e.Secret)
	if m := e.Meta; m != nil {
		for _, p := range []**string{&m.PrimaryGroup, &m.GECOS, &m.LegalName, &m.DisplayName, &m.Home, &m.Shell, &m.GraphicalShell, &m.BadgeNumber} {
			z(p)
		}
		if m.Locked != nil && !*m.Locked {
			m.Locked = nil
		}
		zkv(m.KV)
		// sets
		sort.Strings(m.Keys)
		sort.Strings(m.Groups)
		sort.Strings(m.UntypedMeta)
		sort.Slice(m.Capabilities, func(i, j int) bool { return m.Capabilities[i] < m.Capabilities[j] })
		if proto.Equal(m, &pb.EntityMeta{}) {
			e.Meta = nil
		}
	}
	return e
}

func plainG(g *pb.Group) *pb.Group {
	if g == nil {
		return nil
	}
	z(&g.Name)
	z(&g.DisplayName)
	zi(&g.Number)
	z(&g.ManagedBy)
	zkv(g.KV)
	sort.Strings(g.UntypedMeta)
	sort.Strings(g.Expansions)
	sort.Slice(g.Capabilities, func(i, j int) bool { return g.Capabilities[i] < g.Capabilities[j] })
	return g
}

// zeros decides which of the object's fields hold zero values: all or none
// (thorough: each by itself).
type zeros struct{ all bool }

func (z *zeros) is(name string) bool {
	if nd.Thorough() {
		return nd.Bool(name)
	}
	return z.all
}

func (z *zeros) s(name, v string) string {
	if z.is(name) {
		return ""
	}
	return v
}

func (z *zeros) i(name string, v int32) *int32 {
	if z.is(name) {
		v = 0
	}
	return &v
}

func (z *zeros) kv() []*pb.KVData {
	return []*pb.KVData{{Key: env.S(z.s("key", "k")), Values: []*pb.KVValue{{Value: env.S(z.s("value", "v")), Index: z.i("index", 1)}, {Value: env.S("w")}}}}
}

// expect computes what the plugins of one request with the given actions do,
// for one plugin.
func expect(ps []*plug, acts []string) (stops bool) {
	for _, p := range ps {
		switch p.mode {
		case veto:
			stops = stops || p.at < len(acts)
		case die:
			stops = stops || p.ch.DieAt < len(acts)
		}
	}
	return
}

//gosym:bounds every built-in entity chain with 1 plugin (thorough 2, called in any order), each inert, changing the object at every call, refusing or losing its process before or after one call; an entity whose number, metadata and key/value strings are zero or not, any lock flag, with or without metadata, right or wrong secret; compared with a server without plugins
func VP_F08_entity() {
	chain := nd.Choose("chain", "CREATE", "DESTROY", "FETCH", "BOOTSTRAP-SERVER", "SET-SECRET", "SET-CAPABILITY", "DROP-CAPABILITY", "ADD-KEY", "DEL-KEY",
		"VALIDATE-IDENTITY", "MERGE-METADATA", "LOCK", "UNLOCK", "UEM-UPSERT", "UEM-CLEARFUZZY", "UEM-CLEAREXACT", "KV-ADD", "KV-DEL", "KV-REPLACE", "GROUP-ADD", "GROUP-DEL")
	np := 1
	if nd.Thorough() {
		np = 1 + nd.Pick("two", 2)
	}
	w, ps, log := plugins(np)
	v := env.NewWorld(env.NewStore())
	v.Boot()
	var seed *pb.Entity
	z := &zeros{nd.Bool("zeros")}
	if chain != "CREATE" {
		seed = &pb.Entity{ID: env.S("e"), Number: z.i("number", 3)}
		if nd.Bool("meta") {
			seed.Meta = &pb.EntityMeta{GECOS: env.S(z.s("gecos", "g")), Capabilities: []pb.Capability{pb.Capability_GLOBAL_ROOT},
				Groups: []string{"g1"}, Keys: []string{"SSH:k"}, UntypedMeta: []string{"um:v"}, KV: z.kv()}
			if nd.Bool("locked") {
				seed.Meta.Locked = env.B(true)
			}
		} else if chain == "VALIDATE-IDENTITY" && nd.Bool("lock flag") {
			seed.Meta = &pb.EntityMeta{Locked: env.B(false)}
		}
		seed.Secret = env.S(w.Cr.Seed("old"))
		v.Cr.Seed("old")
		w.KV.PutEntity(seed)
		v.KV.PutEntity(seed)
	}
	locked := seed.GetMeta().GetLocked()
	de := &pb.Entity{ID: env.S("e"), Number: env.I(5), Secret: env.S("new"), Meta: &pb.EntityMeta{GECOS: env.S("G"), Capabilities: []pb.Capability{pb.Capability_LOCK_ENTITY},
		Groups: []string{"g2"}, Keys: []string{"SSH:k2"}, UntypedMeta: []string{"um2:v"}, KV: []*pb.KVData{{Key: env.S("k2"), Values: []*pb.KVValue{{Value: env.S("")}}}}}}
	right := false
	switch chain {
	case "VALIDATE-IDENTITY":
		if right = nd.Bool("right"); right {
			de.Secret = env.S("old")
		}
		for _, p := range ps {
			p.locks = p.mode == amend && nd.Bool("locks")
		}
	case "DROP-CAPABILITY":
		de.Meta.Capabilities = []pb.Capability{pb.Capability_GLOBAL_ROOT}
	case "DEL-KEY":
		de.Meta.Keys = []string{"SSH:k"}
	case "UEM-CLEARFUZZY", "UEM-CLEAREXACT":
		de.Meta.UntypedMeta = []string{"um:v"}
	case "GROUP-DEL":
		de.Meta.Groups = []string{"g1"}
	}
	snap := w.KV.Snapshot()
	nd.MapOrders(true)
	got, err := w.Tree.RunEntityChain(chain, proto.Clone(de).(*pb.Entity))
	nd.MapOrders(false)
	want, perr := v.Tree.RunEntityChain(chain, proto.Clone(de).(*pb.Entity))

	acts := told[chain]
	if chain == "VALIDATE-IDENTITY" {
		for _, p := range ps {
			locked = locked || p.locks
		}
		if locked || !right {
			acts = acts[:1]
		}
	}
	if expect(ps, acts) {
		nd.Reach("stopped")
		nd.Assert(err != nil, "a request refused by a plugin fails")
		nd.Assert(w.KV.Same(snap), "a request refused by a plugin changes nothing")
		return
	}
	marks := 0
	for _, p := range ps {
		nd.Assert(p.n == len(acts), "every plugin is told of every action")
		if p.mode == amend {
			marks += len(acts)
		}
	}
	for i, a := range *log {
		nd.Assert(a == acts[i/np], "plugins are told of the actions in order")
	}
	if chain == "VALIDATE-IDENTITY" && (locked || !right) {
		nd.Reach("refused")
		nd.Assert(err != nil && w.KV.Same(snap), "a plugin cannot turn a refused login into a successful one")
		if !seed.GetMeta().GetLocked() && right {
			nd.Reach("locked by plugin")
		}
		return
	}
	nd.Assert((err == nil) == (perr == nil), "plugins that do not refuse leave the outcome as it is")
	if chain == "SET-SECRET" {
		for _, p := range ps {
			nd.Assert(w.Cr.Opens("old", p.secrets[0]) && w.Cr.Opens("new", p.secrets[1]), "plugins see the secret before and after a change")
			nd.Assert(p.wanted[0] == "new" && p.wanted[1] == "new", "plugins are told the new secret")
		}
	}
	nd.Assert(w.KV.SameBut(snap, "/entities/e"), "plugins change nothing else")
	now, plain := w.KV.Entity("e"), v.KV.Entity("e")
	nd.Assert((now == nil) == (plain == nil), "plugins that do not refuse leave the outcome as it is")
	if now == nil {
		nd.Reach("gone")
		return
	}
	if chain == "CREATE" {
		for _, p := range ps {
			nd.Assert(p.states[0].GetID() == "e" && p.states[0].GetNumber() == 5 && w.Cr.Opens("new", p.states[0].GetSecret()), "plugins see the entity that is created")
		}
	}
	var n, k int
	if now.Meta != nil {
		now.Meta.UntypedMeta, n = strip(now.Meta.UntypedMeta)
	}
	if err == nil && got.GetMeta() != nil {
		got.Meta.UntypedMeta, k = strip(got.Meta.UntypedMeta)
		nd.Assert(k == marks, "the result is what the plugins made of it")
	}
	nd.Assert(n == marks, "what plugins change is stored")
	if marks > 0 {
		nd.Reach("amended")
	} else {
		nd.Reach("inert")
	}
	nd.Assert(proto.Equal(plainE(now), plainE(plain)), "plugins that change nothing leave the request as it is")
	if err == nil {
		nd.Assert(proto.Equal(plainE(got), plainE(want)), "plugins that change nothing leave the result as it is")
	}
}

//gosym:bounds every built-in group chain with 1 plugin (thorough 2, called in any order), each inert, changing the object at every call, refusing or losing its process before or after one call; a group whose number, names and key/value strings are zero or not; compared with a server without plugins
func VP_F08_group() {
	chain := nd.Choose("chain", "CREATE", "DESTROY", "FETCH", "MERGE-METADATA", "SET-CAPABILITY", "DROP-CAPABILITY", "UGM-UPSERT", "UGM-CLEARFUZZY", "UGM-CLEAREXACT",
		"MODIFY-EXPANSIONS", "KV-ADD", "KV-DEL", "KV-REPLACE")
	np := 1
	if nd.Thorough() {
		np = 1 + nd.Pick("two", 2)
	}
	w, ps, _ := plugins(np)
	v := env.NewWorld(env.NewStore())
	z := &zeros{nd.Bool("zeros")}
	var seed *pb.Group
	if chain != "CREATE" {
		seed = &pb.Group{Name: env.S("g"), DisplayName: env.S(z.s("dn", "d")), Number: z.i("number", 3), ManagedBy: env.S(z.s("mb", "m")),
			Capabilities: []pb.Capability{pb.Capability_GLOBAL_ROOT}, UntypedMeta: []string{"um:v"}, KV: z.kv()}
		w.KV.PutGroup(seed)
		v.KV.PutGroup(seed)
	}
	for _, x := range []*env.World{w, v} {
		x.KV.PutGroup(&pb.Group{Name: env.S("m"), Number: env.I(4)})
	}
	dg := &pb.Group{Name: env.S("g"), DisplayName: env.S("D"), Number: env.I(9), ManagedBy: env.S("m"), Capabilities: []pb.Capability{pb.Capability_LOCK_ENTITY},
		UntypedMeta: []string{"um2:v"}, KV: []*pb.KVData{{Key: env.S("k2"), Values: []*pb.KVValue{{Value: env.S("")}}}}, Expansions: []string{"INCLUDE:m"}}
	switch chain {
	case "DROP-CAPABILITY":
		dg.Capabilities = []pb.Capability{pb.Capability_GLOBAL_ROOT}
	case "UGM-CLEARFUZZY", "UGM-CLEAREXACT":
		dg.UntypedMeta = []string{"um:v"}
	}
	snap := w.KV.Snapshot()
	nd.MapOrders(true)
	got, err := w.Tree.RunGroupChain(chain, proto.Clone(dg).(*pb.Group))
	nd.MapOrders(false)
	want, perr := v.Tree.RunGroupChain(chain, proto.Clone(dg).(*pb.Group))
	acts := gtold[chain]
	if expect(ps, acts) {
		nd.Reach("stopped")
		nd.Assert(err != nil, "a request refused by a plugin fails")
		nd.Assert(w.KV.Same(snap), "a request refused by a plugin changes nothing")
		return
	}
	marks := 0
	for _, p := range ps {
		nd.Assert(p.n == len(acts), "every plugin is told of every action")
		if p.mode == amend {
			marks += len(acts)
		}
	}
	nd.Assert((err == nil) == (perr == nil), "plugins that do not refuse leave the outcome as it is")
	nd.Assert(w.KV.SameBut(snap, "/groups/g"), "plugins change nothing else")
	now, plain := w.KV.Group("g"), v.KV.Group("g")
	nd.Assert((now == nil) == (plain == nil), "plugins that do not refuse leave the outcome as it is")
	if now == nil {
		nd.Reach("gone")
		return
	}
	var n int
	now.UntypedMeta, n = strip(now.UntypedMeta)
	nd.Assert(n == marks, "what plugins change is stored")
	if marks > 0 {
		nd.Reach("amended")
	} else {
		nd.Reach("inert")
	}
	nd.Assert(proto.Equal(plainG(now), plainG(plain)), "plugins that change nothing leave the request as it is")
	if err == nil {
		got.UntypedMeta, n = strip(got.UntypedMeta)
		nd.Assert(n == marks, "the result is what the plugins made of it")
		nd.Assert(proto.Equal(plainG(got), plainG(want)), "plugins that change nothing leave the result as it is")
	}
}

//gosym:bounds one of seven chains with 2 plugins, called in any order, each inert, changing the object, refusing or losing its process at one call; compared with the number of calls and the stored object
func VP_F08_two() {
	chain := nd.Choose("chain", "CREATE", "LOCK", "SET-SECRET", "VALIDATE-IDENTITY", "DESTROY", "GROUP-CREATE", "GROUP-UPDATE")
	w, ps, log := plugins(2)
	seed := &pb.Entity{ID: env.S("e"), Number: env.I(3), Secret: env.S(w.Cr.Seed("old")), Meta: &pb.EntityMeta{}}
	if chain != "CREATE" {
		w.KV.PutEntity(seed)
	}
	if chain == "GROUP-UPDATE" {
		w.KV.PutGroup(&pb.Group{Name: env.S("g"), Number: env.I(3)})
	}
	snap := w.KV.Snapshot()
	nd.MapOrders(true)
	var err error
	var um []string
	acts := told[chain]
	switch chain {
	case "GROUP-CREATE":
		acts = gtold["CREATE"]
		_, err = w.Tree.RunGroupChain("CREATE", &pb.Group{Name: env.S("g"), Number: env.I(3)})
	case "GROUP-UPDATE":
		acts = gtold["MERGE-METADATA"]
		_, err = w.Tree.RunGroupChain("MERGE-METADATA", &pb.Group{Name: env.S("g"), DisplayName: env.S("d")})
	default:
		_, err = w.Tree.RunEntityChain(chain, &pb.Entity{ID: env.S("e"), Number: env.I(3), Secret: env.S(map[bool]string{true: "old", false: "new"}[chain == "VALIDATE-IDENTITY"]), Meta: &pb.EntityMeta{}})
	}
	nd.MapOrders(false)
	if expect(ps, acts) {
		nd.Reach("stopped")
		nd.Assert(err != nil, "a request refused by a plugin fails")
		nd.Assert(w.KV.Same(snap), "a request refused by a plugin changes nothing")
		return
	}
	nd.Reach("done")
	nd.Assert(err == nil, "plugins that do not refuse leave the outcome as it is")
	marks := 0
	for _, p := range ps {
		nd.Assert(p.n == len(acts), "every plugin is told of every action")
		if p.mode == amend {
			marks += len(acts)
		}
	}
	for i, a := range *log {
		nd.Assert(a == acts[i/2], "plugins are told of the actions in order")
	}
	if chain == "DESTROY" {
		nd.Assert(w.KV.Entity("e") == nil, "plugins that do not refuse leave the outcome as it is")
		return
	}
	um = w.KV.Entity("e").GetMeta().GetUntypedMeta()
	if chain[0] == 'G' {
		um = w.KV.Group("g").GetUntypedMeta()
	}
	nd.Assert(len(um) == marks, "what plugins change is stored")
}
