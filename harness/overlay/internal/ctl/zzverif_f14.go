package ctl

import (
	"strconv"
	"strings"

	"github.com/golang/protobuf/proto"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zznet"

	pb "github.com/netauth/protocol"
	rpcv "github.com/netauth/protocol/v2"
)

//gosym:net

// What can be asked for of an entity and of a group.
var zzentityFields = []string{"ID", "number", "PrimaryGroup", "GECOS", "legalName", "displayName", "homedir", "shell", "graphicalShell", "badgeNumber", "capabilities"}
var zzgroupFields = []string{"name", "displayName", "number", "managedBy", "rules", "capabilities"}

// zzalike gives all fields the same value.
var zzalike bool

// zzval is the value of a field of the i-th object.
func zzval(f string, i int) string {
	if zzalike {
		return "<alike>"
	}
	return "<" + f + strconv.Itoa(i) + ">"
}

// zztwo is set when two fields are asked for.
var zztwo bool

// zzcapsOf draws the capabilities of an object; the first one may be the one
// with the zero value.
func zzcapsOf(i int) []pb.Capability {
	if i > 0 || zztwo || !nd.Bool("root") {
		return []pb.Capability{pb.Capability_MODIFY_GROUP_META, pb.Capability_CREATE_ENTITY}
	}
	return []pb.Capability{pb.Capability_GLOBAL_ROOT, pb.Capability_CREATE_ENTITY}
}

func zznames(l []pb.Capability) (s []string) {
	for _, c := range l {
		s = append(s, c.String())
	}
	return s
}

// zzhas draws which fields an object has.
func zzhas(fields, list []string) map[string]bool {
	has := map[string]bool{}
	kind := ""
	if zztwo {
		kind = nd.Choose("has", "all", "none")
	} else {
		kind = nd.Choose("has", "all", "none", "one", "others")
	}
	one := -1
	if kind == "one" || kind == "others" {
		if len(list) == 1 {
			for i, f := range fields {
				if f == list[0] {
					one = i
				}
			}
		} else {
			one = nd.Pick("which", len(fields))
		}
	}
	for i, f := range fields {
		has[f] = kind == "all" || kind == "one" && i == one || kind == "others" && i != one
	}
	return has
}

// zzentity is the i-th entity and what is to be shown of each of its fields.
func zzentity(i int, has map[string]bool) (*pb.Entity, map[string][]string) {
	show := map[string][]string{}
	e := &pb.Entity{ID: env.S(zzval("ID", i)), Number: env.I(int32(70001 + i)), Secret: env.S("<secret>")}
	show["ID"] = []string{e.GetID()}
	show["number"] = []string{strconv.Itoa(70001 + i)}
	m := &pb.EntityMeta{}
	any := false
	set := func(f string, p **string) {
		if has[f] {
			*p = env.S(zzval(f, i))
			show[f] = []string{**p}
			any = true
		}
	}
	set("PrimaryGroup", &m.PrimaryGroup)
	set("GECOS", &m.GECOS)
	set("legalName", &m.LegalName)
	set("displayName", &m.DisplayName)
	set("homedir", &m.Home)
	set("shell", &m.Shell)
	set("graphicalShell", &m.GraphicalShell)
	set("badgeNumber", &m.BadgeNumber)
	if has["capabilities"] {
		m.Capabilities = zzcapsOf(i)
		show["capabilities"] = zznames(m.Capabilities)
		any = true
	}
	if any || nd.Bool("empty metadata") {
		e.Meta = m
	}
	return e, show
}

// zzgroup is the i-th group and what is to be shown of each of its fields.
func zzgroup(i int, has map[string]bool) (*pb.Group, map[string][]string) {
	show := map[string][]string{}
	g := &pb.Group{Name: env.S(zzval("name", i)), Number: env.I(int32(70001 + i))}
	show["name"] = []string{g.GetName()}
	show["number"] = []string{strconv.Itoa(70001 + i)}
	if has["displayName"] {
		g.DisplayName = env.S(zzval("displayName", i))
		show["displayName"] = []string{g.GetDisplayName()}
	}
	if has["managedBy"] {
		g.ManagedBy = env.S(zzval("managedBy", i))
		show["managedBy"] = []string{g.GetManagedBy()}
	}
	if has["rules"] {
		g.Expansions = []string{"INCLUDE:" + zzval("r", i), "EXCLUDE:" + zzval("s", i), "INCLUDE:" + zzval("q", i)}
		show["rules"] = g.Expansions
	}
	if has["capabilities"] {
		g.Capabilities = zzcapsOf(i)
		show["capabilities"] = zznames(g.Capabilities)
	}
	return g, show
}

// zzwanted draws the value of the --fields flag: none, one field or two.
func zzwanted(fields []string) (string, []string) {
	switch nd.Pick("fields", 4) {
	case 1:
		f := fields[nd.Pick("field", len(fields))]
		return zzcase("case", f), []string{f}
	case 2:
		f := fields[nd.Pick("field", len(fields))]
		g := fields[nd.Pick("second", len(fields))]
		return f + "," + g, []string{f, g}
	case 3:
		var l []string
		for i := range fields {
			l = append(l, fields[len(fields)-1-i])
		}
		return strings.Join(l, ",") + ",nonsense", l
	}
	return "", fields
}

// zzexactly checks that out has exactly the values given, in this order.
func zzexactly(out string, want []string) {
	n, rest := 0, out
	for _, s := range want {
		i := strings.Index(rest, s)
		nd.Assert(i >= 0, "everything asked for is printed, in order")
		rest = rest[i+len(s):]
		n += strings.Count(s, "<")
	}
	nd.Assert(strings.Count(out, "<") == n, "nothing else of the answer is printed, and nothing twice")
	for _, c := range []string{"GLOBAL_ROOT", "MODIFY_GROUP_META", "CREATE_ENTITY", "7000"} {
		n = 0
		for _, s := range want {
			n += strings.Count(s, c)
		}
		nd.Assert(strings.Count(out, c) == n, "no other number or capability is printed, and none twice")
	}
	if len(want) > 0 {
		nd.Reach("printed")
	}
}

//gosym:bounds entity info, entity search, entity memberships, group info, group search and group members; up to three objects in the answer, the first with all, none, one or all but one of its fields (the one asked for, if one is), the others with all, all values different or (but for two fields) alike; the --fields flag left out, with any one field (in three spellings), any two (of objects with all or none of their fields), or all of them reversed with an unknown one
//gosym:weight 3
func VP_F14_objects() {
	zzsetup()
	verb := nd.Choose("command", "entity info", "entity search", "group members", "group info", "group search", "entity memberships")
	ents := verb == "entity info" || verb == "entity search" || verb == "group members"
	fields := zzgroupFields
	if ents {
		fields = zzentityFields
	}
	flag, list := zzwanted(fields)
	zztwo = len(list) == 2
	zzalike = !zztwo && nd.Bool("alike")
	n := 1
	if verb != "entity info" && verb != "group info" {
		n = nd.Pick("objects", 4)
		nd.Assume(len(list) != 2 || n != 2)
	}
	le, lg := &rpcv.ListOfEntities{}, &rpcv.ListOfGroups{}
	var want []string
	all := map[string]bool{}
	for _, f := range fields {
		all[f] = true
	}
	for i := 0; i < n; i++ {
		has := all
		if i == 0 {
			has = zzhas(fields, list)
		}
		var show map[string][]string
		if ents {
			var e *pb.Entity
			e, show = zzentity(i, has)
			le.Entities = append(le.Entities, e)
		} else {
			var g *pb.Group
			g, show = zzgroup(i, has)
			lg.Groups = append(lg.Groups, g)
		}
		for _, f := range list {
			want = append(want, show[f]...)
		}
	}
	sub := &rpcv.ListOfGroups{}
	if verb == "group info" {
		for i := nd.Pick("managed", 3); i > 0; i-- {
			g := &pb.Group{Name: env.S(zzval("sub", i)), DisplayName: env.S("other"), Number: env.I(5)}
			sub.Groups = append(sub.Groups, g)
			want = append(want, g.GetName())
		}
	}
	first := true
	zznet.Answer = func(k *zznet.Call) (proto.Message, error) {
		if ents {
			return le, nil
		}
		if verb == "group info" && !first {
			return sub, nil
		}
		first = false
		return lg, nil
	}
	args := append(strings.Split(verb, " "), "x")
	if flag != "" {
		args = append(args, "--fields", flag)
	}
	code := zzrun(args...)
	nd.Note("out", zznet.Out)
	nd.Assert(code == 0, "the command succeeds")
	zzexactly(zznet.Out, want)
}

// zzlists checks that out consists of the keys, each followed by its values
// in order.
func zzlists(out string, keys []string, vals map[string][]string) {
	var lines []string
	for _, l := range strings.Split(out, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			lines = append(lines, l)
		}
	}
	n := 0
	for _, k := range keys {
		at := -1
		for i, l := range lines {
			if strings.TrimSuffix(l, ":") == k {
				nd.Assert(at < 0, "a key is printed once")
				at = i
			}
		}
		nd.Assert(at >= 0, "every key of the answer is printed")
		for j, v := range vals[k] {
			nd.Assert(at+1+j < len(lines) && lines[at+1+j] == v, "the values of a key follow it in order")
		}
		n += 1 + len(vals[k])
	}
	nd.Assert(len(lines) == n, "nothing but the keys and values of the answer is printed")
	nd.Reach("listed")
}

//gosym:bounds entity kv read, group kv read (one key, or all), entity key read (one type, or all), kv2 get for entities and groups; up to three keys with up to three values each (the first one also with 12 to 14, some alike) that hold spaces, colons, braces and other keys, in any of three orders of the answer
//gosym:weight 2
func VP_F14_values() {
	zzsetup()
	verb := nd.Choose("command", "entity kv", "group kv", "entity key", "kv2 entity", "kv2 group")
	keys := []string{"k", "key two", "z"}
	if verb == "entity key" {
		keys = []string{"SSH", "GPG", "X5"}
	}
	star := nd.Bool("all")
	nk := 1
	if star {
		nk = nd.Pick("keys", 4)
	}
	keys = keys[:nk]
	text := []string{"a", "b c", "k:{1}", "k: d", "é{0}"}
	vals := map[string][]string{}
	var l []string
	lkv := &rpcv.ListOfKVData{}
	for i, k := range keys {
		nv := 1
		if i == 0 {
			nv = 1 + nd.Pick("values", 3)
		} else if i == 1 {
			nv = 2
		}
		d := &pb.KVData{Key: env.S(k)}
		from := i
		if i == 0 {
			from = nd.Pick("text", len(text))
			if nd.Bool("many") {
				nv += 11
			}
		}
		for j := 0; j < nv; j++ {
			v := text[(from+j)%len(text)]
			vals[k] = append(vals[k], v)
			d.Values = append(d.Values, &pb.KVValue{Value: env.S(v), Index: env.I(int32(j))})
		}
		// the answer has them in any order
		ord := 0
		if nv > 1 {
			ord = nd.Pick("order", map[bool]int{true: 2, false: 3}[nv == 2])
		}
		if ord == 1 {
			d.Values[0], d.Values[nv-1] = d.Values[nv-1], d.Values[0]
		}
		if ord == 2 {
			d.Values[0], d.Values[1] = d.Values[1], d.Values[0]
		}
		lkv.KVData = append(lkv.KVData, d)
		for _, v := range d.Values {
			p := k
			if nv > 1 && verb != "entity key" {
				p = k + "{" + strconv.Itoa(int(v.GetIndex())) + "}"
			}
			l = append(l, p+":"+v.GetValue())
		}
		if verb == "entity key" {
			// keys have no order but that of the answer
			vals[k] = nil
			for _, v := range d.Values {
				vals[k] = append(vals[k], v.GetValue())
			}
		}
	}
	key := "*"
	if !star {
		key = keys[0]
	}
	args := []string{"kv2", "get", strings.TrimPrefix(verb, "kv2 "), "x", key}
	switch verb {
	case "entity kv", "group kv":
		args = append(strings.Split(verb, " "), "x", "read", key)
	case "entity key":
		args = []string{"entity", "key", "read", key}
		if !star && nd.Bool("spelling") {
			args[3] = strings.ToLower(key)
		}
	}
	zznet.Answer = func(k *zznet.Call) (proto.Message, error) {
		if verb == "kv2 entity" || verb == "kv2 group" {
			return lkv, nil
		}
		return &rpcv.ListOfStrings{Strings: l}, nil
	}
	code := zzrun(args...)
	nd.Note("out", zznet.Out)
	nd.Assert(code == 0, "the command succeeds")
	zzlists(zznet.Out, keys, vals)
}

//gosym:bounds system status with up to three subsystems, each failing or not with or without a message, the first failure given or not; auth inspect-token with none to three capabilities
func VP_F14_status() {
	c := zzsetup()
	if nd.Bool("token") {
		c.m["me"] = "good"
		n := nd.Pick("capabilities", 4)
		caps := []pb.Capability{pb.Capability_MODIFY_GROUP_META, pb.Capability_CREATE_ENTITY, pb.Capability_LOCK_ENTITY}[:n]
		zzcaps, zzcapsSet = caps, true
		code := zzrun("auth", "inspect-token")
		nd.Note("out", zznet.Out)
		nd.Assert(code == 0, "the command succeeds")
		want := []string{"who-good"}
		for _, x := range caps {
			want = append(want, x.String())
		}
		rest := zznet.Out
		for _, s := range want {
			i := strings.Index(rest, s)
			nd.Assert(i >= 0, "the owner of the token and its capabilities are printed")
			rest = rest[i+len(s):]
		}
		nd.Assert(strings.Count(zznet.Out, "_") == strings.Count(strings.Join(want, ""), "_"), "no other capability is printed")
		nd.Reach("token")
		return
	}
	st := &rpcv.ServerStatus{SystemOK: proto.Bool(nd.Bool("ok"))}
	n := nd.Pick("subsystems", 4)
	for i := 0; i < n; i++ {
		s := &rpcv.SubSystemStatus{Name: env.S(zzval("sub", i)), OK: proto.Bool(nd.Bool("sub ok"))}
		if nd.Bool("message") {
			s.FaultMessage = env.S(zzval("fault", i))
		}
		st.SubSystems = append(st.SubSystems, s)
		if !s.GetOK() && st.FirstFailure == nil {
			st.FirstFailure = s
		}
	}
	zznet.Answer = func(k *zznet.Call) (proto.Message, error) { return st, nil }
	code := zzrun("system", "status")
	nd.Assert(code == 0, "the command succeeds")
	lines := strings.Split(zznet.Out, "\n")
	nd.Assert(strings.Contains(lines[0], "FAIL") == !st.GetSystemOK(), "the state of the server is printed")
	for _, s := range st.SubSystems {
		found := 0
		for _, l := range lines {
			if strings.Contains(l, s.GetName()) && strings.Contains(l, "FAIL") == !s.GetOK() && strings.Contains(l, "PASS") == s.GetOK() && strings.Contains(l, s.GetFaultMessage()) {
				found++
			}
		}
		nd.Assert(found == 1, "the state of every subsystem is printed")
	}
	if f := st.FirstFailure; f != nil {
		nd.Reach("failure")
		nd.Assert(strings.Count(zznet.Out, f.GetName()) == 2, "the first failure is named")
	}
}
