package zzf

import (
	"errors"

	"github.com/golang/protobuf/proto"

	"github.com/netauth/netauth/internal/tree"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
)

var errStage = errors.New("stage failed")

// estage is a processing stage that records when it runs.
type estage struct {
	name string
	prio int
	fail bool
	run  func(e, de *pb.Entity)
}

func (s *estage) Name() string  { return s.name }
func (s *estage) Priority() int { return s.prio }
func (s *estage) Run(e, de *pb.Entity) error {
	s.run(e, de)
	if s.fail {
		return errStage
	}
	return nil
}

type gstage struct {
	name string
	prio int
	fail bool
	run  func(g, dg *pb.Group)
}

func (s *gstage) Name() string  { return s.name }
func (s *gstage) Priority() int { return s.prio }
func (s *gstage) Run(g, dg *pb.Group) error {
	s.run(g, dg)
	if s.fail {
		return errStage
	}
	return nil
}

// regE makes the tree know a stage.
func regE(s *estage) {
	tree.RegisterEntityHookConstructor(s.name, func(tree.RefContext) (tree.EntityHook, error) { return s, nil })
}

func regG(s *gstage) {
	tree.RegisterGroupHookConstructor(s.name, func(tree.RefContext) (tree.GroupHook, error) { return s, nil })
}

func prio(name string) int {
	p := nd.Int32(name)
	nd.Assume(nd.And(p >= 0, p <= 100))
	return int(p)
}

//gosym:bounds 0..3 (thorough 4) stages of symbolic priorities 0..100 registered in one chain, each succeeding or failing, some registered with the chain and others added to it later, entities and groups
func VP_F07_order() {
	max := 3
	if nd.Thorough() {
		max = 4
	}
	groups := nd.Bool("groups")
	n := nd.Pick("n", max+1)
	late := nd.Pick("late", n+1)
	names := []string{"zz0", "zz1", "zz2", "zz3"}
	var prios []int
	var fails []bool
	var order []int
	seen := true
	for i := 0; i < n; i++ {
		i := i
		prios = append(prios, prio("prio"))
		fails = append(fails, nd.Bool("fail"))
		if groups {
			s := &gstage{name: names[i], prio: prios[i], fail: fails[i]}
			s.run = func(g, dg *pb.Group) {
				seen = seen && len(g.UntypedMeta) == len(order) && dg.GetName() == "d"
				order = append(order, i)
				g.UntypedMeta = append(g.UntypedMeta, "x")
			}
			regG(s)
		} else {
			s := &estage{name: names[i], prio: prios[i], fail: fails[i]}
			s.run = func(e, de *pb.Entity) {
				seen = seen && len(e.GetMeta().GetUntypedMeta()) == len(order) && de.GetID() == "d"
				order = append(order, i)
				if e.Meta == nil {
					e.Meta = &pb.EntityMeta{}
				}
				e.Meta.UntypedMeta = append(e.Meta.UntypedMeta, "x")
			}
			regE(s)
		}
	}
	w := env.NewWorld(env.NewStore())
	m := w.Tree
	var err error
	var marks int
	got := false
	if groups {
		nd.Assert(m.InitializeGroupChains(tree.ChainConfig{"ZZ": names[:late]}) == nil, "known stages are accepted")
		for _, h := range names[late:n] {
			nd.Assert(m.RegisterGroupHookToChain(h, "ZZ") == nil, "known stages are accepted")
		}
		nd.Assert(m.RegisterGroupHookToChain("nothere", "ZZ") != nil, "unknown stages are refused")
		var g *pb.Group
		g, err = m.RunGroupChain("ZZ", &pb.Group{Name: env.S("d")})
		marks, got = len(g.GetUntypedMeta()), g != nil
	} else {
		nd.Assert(m.InitializeEntityChains(tree.ChainConfig{"ZZ": names[:late]}) == nil, "known stages are accepted")
		for _, h := range names[late:n] {
			nd.Assert(m.RegisterEntityHookToChain(h, "ZZ") == nil, "known stages are accepted")
		}
		nd.Assert(m.RegisterEntityHookToChain("nothere", "ZZ") != nil, "unknown stages are refused")
		var e *pb.Entity
		e, err = m.RunEntityChain("ZZ", &pb.Entity{ID: env.S("d")})
		marks, got = len(e.GetMeta().GetUntypedMeta()), e != nil
	}
	times := make([]int, n)
	for k, i := range order {
		times[i]++
		if k > 0 {
			nd.Assert(prios[order[k-1]] <= prios[i], "stages run in ascending priority")
			nd.Assert(!fails[order[k-1]], "no stage runs after one that failed")
		}
	}
	for i := range times {
		nd.Assert(times[i] <= 1, "a stage runs once")
	}
	nd.Assert(seen, "each stage sees the effects of the earlier ones")
	if len(order) > 0 && fails[order[len(order)-1]] {
		nd.Reach("failed")
		nd.Assert(err == errStage, "the error of a failing stage is reported")
		for i := range times {
			for _, j := range order {
				nd.Assert(nd.Or(times[i] == 1, prios[i] >= prios[j]), "no stage of lower priority was left out")
			}
		}
		return
	}
	nd.Reach("ran")
	nd.Assert(err == nil && got, "a request none of whose stages fails succeeds")
	nd.Assert(len(order) == n && marks == n, "every stage runs")
}

// full is an entity to run the stages on.
func full(id string, num int32, secret string) *pb.Entity {
	return &pb.Entity{ID: env.S(id), Number: env.I(num), Secret: env.S(secret), Meta: &pb.EntityMeta{
		GECOS: env.S("g"), Capabilities: []pb.Capability{pb.Capability_CREATE_ENTITY}, Groups: []string{"g1"}, Keys: []string{"SSH:k"},
		UntypedMeta: []string{"um:v"}, KV: []*pb.KVData{{Key: env.S("k"), Values: []*pb.KVValue{{Value: env.S("v")}}}}}}
}

//gosym:bounds every built-in entity chain with one more stage of symbolic priority 11..98, succeeding or failing, over an entity with every field, locked or not, and a matching or other secret
func VP_F07_entity() {
	chain := nd.Choose("chain", "CREATE", "DESTROY", "FETCH", "BOOTSTRAP-SERVER", "SET-SECRET", "SET-CAPABILITY", "DROP-CAPABILITY", "ADD-KEY", "DEL-KEY",
		"VALIDATE-IDENTITY", "MERGE-METADATA", "LOCK", "UNLOCK", "UEM-UPSERT", "UEM-CLEARFUZZY", "UEM-CLEAREXACT", "KV-ADD", "KV-DEL", "KV-REPLACE", "GROUP-ADD", "GROUP-DEL")
	p := prio("prio")
	nd.Assume(nd.And(p > 10, p < 99))
	s := &estage{name: "zz", prio: p, fail: nd.Bool("fail")}
	regE(s)
	w := env.NewWorld(env.NewStore())
	nd.Assert(w.Tree.RegisterEntityHookToChain("zz", chain) == nil, "a stage can be added to a chain")
	was := full("e", 3, w.Cr.Seed("old"))
	locked := nd.Bool("locked")
	was.Meta.Locked = env.B(locked)
	if chain == "CREATE" {
		was = &pb.Entity{}
	} else {
		w.KV.PutEntity(was)
	}
	de := &pb.Entity{ID: env.S("e"), Number: env.I(5), Secret: env.S("new"), Meta: &pb.EntityMeta{GECOS: env.S("G"), Capabilities: []pb.Capability{pb.Capability_LOCK_ENTITY},
		Groups: []string{"g2"}, Keys: []string{"SSH:k2"}, UntypedMeta: []string{"um2:v"}, KV: []*pb.KVData{{Key: env.S("k2"), Values: []*pb.KVValue{{Value: env.S("v")}}}}}}
	right := nd.Bool("right")
	switch chain {
	case "VALIDATE-IDENTITY":
		if right {
			de.Secret = env.S("old")
		}
	case "DROP-CAPABILITY":
		de.Meta.Capabilities = was.Meta.Capabilities
	case "DEL-KEY":
		de.Meta.Keys = was.Meta.Keys
	case "UEM-CLEARFUZZY", "UEM-CLEAREXACT":
		de.Meta.UntypedMeta = was.Meta.UntypedMeta
	case "KV-DEL", "KV-REPLACE":
		de.Meta.KV[0] = &pb.KVData{Key: env.S("k"), Values: []*pb.KVValue{{Value: env.S("v2")}}}
	case "GROUP-DEL":
		de.Meta.Groups = was.Meta.Groups
	}
	snap := w.KV.Snapshot()
	runs := 0
	stored := false
	var at *pb.Entity
	s.run = func(e, d *pb.Entity) {
		runs++
		stored = w.KV.Same(snap)
		at = proto.Clone(e).(*pb.Entity)
		nd.Assert(d == de, "an added stage is given the request's data")
		if e.Meta == nil {
			e.Meta = &pb.EntityMeta{}
		}
		e.Meta.Shell = env.S("mark")
	}
	_, err := w.Tree.RunEntityChain(chain, de)
	if chain == "VALIDATE-IDENTITY" {
		switch {
		case p < 20:
			nd.Reach("before the decision")
			nd.Assert(runs == 1, "a stage ahead of the check runs whatever the check decides")
		case p > 50:
			nd.Reach("after the decision")
			nd.Assert(runs == 0 || right && !locked, "a stage after the check only runs when it passed")
		}
		if !right || locked {
			nd.Assert(err != nil && w.KV.Same(snap), "no stage makes a failing check pass")
			return
		}
	}
	nd.Assert(runs == 1, "an added stage runs")
	nd.Assert(stored, "nothing is stored before every other stage ran")
	if chain != "CREATE" && p < 20 {
		nd.Reach("early")
		nd.Assert(proto.Equal(at, was), "an added stage sees the loaded entity")
	}
	if p < 40 {
		nd.Assert(at.GetSecret() == was.GetSecret(), "a stage ahead of a secret change sees the former secret")
	}
	if s.fail {
		nd.Reach("failed")
		nd.Assert(err == errStage, "the error of an added stage is reported")
		nd.Assert(w.KV.Same(snap), "a failing stage keeps the request from being stored")
		return
	}
	nd.Assert(err == nil, "a request none of whose stages fails succeeds")
	now := w.KV.Entity("e")
	switch chain {
	case "DESTROY":
		nd.Reach("destroyed")
		nd.Assert(now == nil, "a destroyed entity is gone")
		return
	case "FETCH":
		nd.Assert(w.KV.Same(snap), "fetching changes nothing")
		return
	}
	nd.Assert(now.GetMeta().GetShell() == "mark", "what an added stage changes is stored")
	if p > 50 {
		nd.Reach("late")
		if at.Meta == nil {
			at.Meta = &pb.EntityMeta{}
		}
		at.Meta.Shell = env.S("mark")
		nd.Assert(proto.Equal(at, now), "an added stage sees the effects of all earlier ones")
		if chain != "VALIDATE-IDENTITY" && chain != "UNLOCK" && chain != "LOCK" {
			at.Meta.Shell = nil
			nd.Assert(!proto.Equal(at, was), "an added stage sees the effects of all earlier ones")
		}
	}
}

//gosym:bounds every built-in group chain with one more stage of symbolic priority 11..98, succeeding or failing, over a group with every field
func VP_F07_group() {
	chain := nd.Choose("chain", "CREATE", "DESTROY", "FETCH", "MERGE-METADATA", "SET-CAPABILITY", "DROP-CAPABILITY", "UGM-UPSERT", "UGM-CLEARFUZZY", "UGM-CLEAREXACT",
		"MODIFY-EXPANSIONS", "KV-ADD", "KV-DEL", "KV-REPLACE")
	p := prio("prio")
	nd.Assume(nd.And(p > 10, p < 99))
	s := &gstage{name: "zz", prio: p, fail: nd.Bool("fail")}
	regG(s)
	w := env.NewWorld(env.NewStore())
	nd.Assert(w.Tree.RegisterGroupHookToChain("zz", chain) == nil, "a stage can be added to a chain")
	was := &pb.Group{Name: env.S("g"), DisplayName: env.S("d"), Number: env.I(3), ManagedBy: env.S("m"), Capabilities: []pb.Capability{pb.Capability_CREATE_ENTITY},
		UntypedMeta: []string{"um:v"}, KV: []*pb.KVData{{Key: env.S("k"), Values: []*pb.KVValue{{Value: env.S("v")}}}}}
	if chain == "CREATE" {
		was = &pb.Group{}
	} else {
		w.KV.PutGroup(was)
	}
	w.KV.PutGroup(&pb.Group{Name: env.S("m"), Number: env.I(4)})
	dg := &pb.Group{Name: env.S("g"), DisplayName: env.S("D"), Number: env.I(9), ManagedBy: env.S("m"), Capabilities: []pb.Capability{pb.Capability_LOCK_ENTITY},
		UntypedMeta: []string{"um2:v"}, KV: []*pb.KVData{{Key: env.S("k2"), Values: []*pb.KVValue{{Value: env.S("v")}}}}, Expansions: []string{"INCLUDE:m"}}
	switch chain {
	case "DROP-CAPABILITY":
		dg.Capabilities = was.Capabilities
	case "UGM-CLEARFUZZY", "UGM-CLEAREXACT":
		dg.UntypedMeta = was.UntypedMeta
	case "KV-DEL", "KV-REPLACE":
		dg.KV[0] = &pb.KVData{Key: env.S("k"), Values: []*pb.KVValue{{Value: env.S("v2")}}}
	}
	snap := w.KV.Snapshot()
	runs := 0
	stored := false
	var at *pb.Group
	s.run = func(g, d *pb.Group) {
		runs++
		stored = w.KV.Same(snap)
		at = proto.Clone(g).(*pb.Group)
		nd.Assert(d == dg, "an added stage is given the request's data")
		g.UntypedMeta = append(g.UntypedMeta, "mark:x")
	}
	_, err := w.Tree.RunGroupChain(chain, dg)
	nd.Assert(runs == 1, "an added stage runs")
	nd.Assert(stored, "nothing is stored before every other stage ran")
	if chain != "CREATE" && p < 40 {
		nd.Reach("early")
		nd.Assert(proto.Equal(at, was), "an added stage sees the loaded group")
	}
	if s.fail {
		nd.Reach("failed")
		nd.Assert(err == errStage, "the error of an added stage is reported")
		nd.Assert(w.KV.Same(snap), "a failing stage keeps the request from being stored")
		return
	}
	nd.Assert(err == nil, "a request none of whose stages fails succeeds")
	now := w.KV.Group("g")
	switch chain {
	case "DESTROY":
		nd.Reach("destroyed")
		nd.Assert(now == nil, "a destroyed group is gone")
		return
	case "FETCH":
		nd.Assert(w.KV.Same(snap), "fetching changes nothing")
		return
	}
	marked := false
	for _, u := range now.GetUntypedMeta() {
		marked = marked || u == "mark:x"
	}
	nd.Assert(marked, "what an added stage changes is stored")
	if p > 50 {
		nd.Reach("late")
		nd.Assert(!proto.Equal(at, was), "an added stage sees the effects of all earlier ones")
		at.UntypedMeta = append(at.UntypedMeta, "mark:x")
		nd.Assert(proto.Equal(at, now), "an added stage sees the effects of all earlier ones")
	}
}
