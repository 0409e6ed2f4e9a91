package zzc

import (
	"sort"
	"strings"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

// strip removes index annotations: an opening brace, digits, a closing brace.
func strip(s string) string {
	out := ""
	for i := 0; i < len(s); {
		if s[i] == '{' {
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			if j > i+1 && j < len(s) && s[j] == '}' {
				i = j + 1
				continue
			}
		}
		out += s[i : i+1]
		i++
	}
	return out
}

func keyOf(s string) string {
	if i := strings.Index(s, ":"); i >= 0 {
		return s[:i]
	}
	return s
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	x := append([]string{}, a...)
	y := append([]string{}, b...)
	sort.Strings(x)
	sort.Strings(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// umKey is a key: some letters with or without index annotations.
func umKey(l string) string {
	base := nd.Choose(l+".base", "k", "", "K", "*")
	switch nd.Pick(l+".index", 4) {
	case 1:
		return base + "{" + nd.Choose(l+".digit", "0", "1", "10") + "}"
	case 2:
		return base + nd.Str(l+".junk", 1, 1, "k{}0")
	case 3:
		return "{1}" + base
	}
	return base
}

//gosym:bounds an entity and a group with 0..2 entries with keys "k", "K", "kk", "*", "*k" or "" (possibly the same) with index annotations, partial annotations and 0..1-byte values that may be colons; one upsert, exact clear, fuzzy clear or read with such a key (without colon) or the wildcard
//gosym:weight 2
func VP_C06_entries() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	group := nd.Bool("group")
	var have []string
	n := nd.Pick("n", 3)
	for i := 0; i < n; i++ {
		k, v := "", ":"
		if i == 0 {
			k = nd.Choose("hk", "k", "k{0}", "k{10}", "kk", "{1}k", "k{", "{}k", "K", "*", "*k", "*{0}")
			v = nd.Choose("hv", "v", "k")
		} else {
			k = nd.Choose("hk2", "k", "k{1}", "kk")
		}
		have = append(have, k+":"+v)
	}
	kv.PutEntity(&pb.Entity{ID: env.S("a"), Number: env.I(1), Meta: &pb.EntityMeta{UntypedMeta: have}})
	kv.PutGroup(&pb.Group{Name: env.S("a"), Number: env.I(1), UntypedMeta: have})
	w.Load()
	snap := kv.Snapshot()
	check(w, kv, snap, group, have, umKey("key"))
}

func check(w *env.World, kv *env.Store, snap env.Snap, group bool, have []string, key string, values ...string) {
	acts := []rpc.Action{rpc.Action_UPSERT, rpc.Action_CLEAREXACT, rpc.Action_CLEARFUZZY, rpc.Action_READ}
	act := acts[nd.Pick("action", 4)]
	val := "v"
	if act == rpc.Action_UPSERT {
		val = nd.Choose("value", append([]string{"n", "", "a:b"}, values...)...)
	}
	if act == rpc.Action_READ && nd.Bool("all") {
		key = "*"
	}
	q := &rpc.KVRequest{Target: env.S("a"), Action: &act, Key: &key, Value: &val}
	var res *rpc.ListOfStrings
	var err error
	ctx := w.CtxWith("z", env.AllCaps...)
	if group {
		res, err = w.Srv.GroupUM(ctx, q)
	} else {
		res, err = w.Srv.EntityUM(ctx, q)
	}
	nd.NoteBool("ok", err == nil)
	nd.Assert(err == nil, "a metadata request for an existing object succeeds")
	var want []string
	switch act {
	case rpc.Action_UPSERT:
		nd.Reach("upsert")
		for _, s := range have {
			if keyOf(s) != key {
				want = append(want, s)
			}
		}
		want = append(want, key+":"+val)
	case rpc.Action_CLEAREXACT:
		nd.Reach("exact clear")
		for _, s := range have {
			if keyOf(s) != key {
				want = append(want, s)
			}
		}
	case rpc.Action_CLEARFUZZY:
		nd.Reach("fuzzy clear")
		for _, s := range have {
			if strip(keyOf(s)) != strip(key) {
				want = append(want, s)
			}
		}
	case rpc.Action_READ:
		nd.Reach("read")
		for _, s := range have {
			if key == "*" || strip(keyOf(s)) == strip(key) {
				want = append(want, s)
			}
		}
		sort.Strings(want)
		got := res.GetStrings()
		nd.Assert(len(got) == len(want), "a read returns exactly the matching entries")
		for i := range want {
			nd.Assert(got[i] == want[i], "a read returns the matching entries in order")
		}
		nd.Assert(kv.Same(snap), "a read changes nothing")
		return
	}
	path := "/entities/a"
	stored := kv.Entity("a").GetMeta().GetUntypedMeta()
	if group {
		stored, path = kv.Group("a").GetUntypedMeta(), "/groups/a"
	}
	nd.Assert(sameSet(stored, want), "exactly the entries of the named key change")
	nd.Assert(kv.SameBut(snap, path), "only the named object changes")
}

//gosym:thorough
//gosym:bounds as VP_C06_entries with one prior entry whose key, and a request key, of 0..4 bytes over the alphabet of letter k, braces and digits 0 and 1
func VP_C06_alphabet() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	have := []string{nd.Str("hk", 0, 3, "k{}01") + ":v"}
	kv.PutEntity(&pb.Entity{ID: env.S("a"), Number: env.I(1), Meta: &pb.EntityMeta{UntypedMeta: have}})
	kv.PutGroup(&pb.Group{Name: env.S("a"), Number: env.I(1), UntypedMeta: have})
	w.Load()
	check(w, kv, kv.Snapshot(), nd.Bool("group"), have, nd.Str("key", 0, 4, "k{}01"))
}

//gosym:bounds an entity and a group with 9 to 12 (thorough 20) entries, among them runs of the same key and of the same key with different annotations; one request as above
func VP_C06_many() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	var have []string
	n := 9 + nd.Pick("n", 4)
	if nd.Thorough() {
		n += 8
	}
	for i := 0; i < n; i++ {
		d := string([]byte{byte('a' + i)})
		switch i % 4 {
		case 0:
			have = append(have, "k:"+d)
		case 1:
			have = append(have, "k{"+string([]byte{byte('0' + i%10)})+"}:"+d)
		case 2:
			have = append(have, "j"+d+":x")
		case 3:
			have = append(have, "kk:"+d)
		}
	}
	kv.PutEntity(&pb.Entity{ID: env.S("a"), Number: env.I(1), Meta: &pb.EntityMeta{UntypedMeta: have}})
	kv.PutGroup(&pb.Group{Name: env.S("a"), Number: env.I(1), UntypedMeta: have})
	w.Load()
	check(w, kv, kv.Snapshot(), nd.Bool("group"), have, nd.Choose("key", "k", "k{1}", "k{5}", "kk", "jc", "j", "", "x"))
}

//gosym:bounds an entity and a group with an entry whose key is any of 30 strange texts without colon (blanks around it, lines, quotes, not UTF-8, up to 2100 bytes), plain or with an index annotation of three or twenty digits, and others differing from it in index, case, blanks or at the end; one request for it or a similar key; strange values
func VP_C06_strange() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	k := env.Strange[nd.Pick("key", len(env.Strange))]
	nd.Assume(strings.Index(k, ":") < 0)
	i := nd.Choose("index", "", "{123}", "{12345678901234567890}")
	have := []string{k + i + ":v", k + "{124}:w", k[:len(k)-1] + "?:x", k + "?:y", "?" + k + ":z"}
	kv.PutEntity(&pb.Entity{ID: env.S("a"), Number: env.I(1), Meta: &pb.EntityMeta{UntypedMeta: have}})
	kv.PutGroup(&pb.Group{Name: env.S("a"), Number: env.I(1), UntypedMeta: have})
	w.Load()
	q := k + i
	switch nd.Pick("asked", 5) {
	case 1:
		q = k
	case 2:
		q = k[:len(k)-1]
	case 3:
		q = strings.TrimSpace(k)
	case 4:
		q = strings.ToUpper(k)
	}
	check(w, kv, kv.Snapshot(), nd.Bool("group"), have, q, "\xff", " x ", env.Strange[29])
}

//gosym:bounds an entity and a group with 40 entries, each under a key of its own or all under the same key with a different index; one request for the first, last or a new key
func VP_C06_lots() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	var have []string
	same := nd.Bool("same")
	for i := 0; i < 40; i++ {
		n := string([]byte{byte('0' + i/10), byte('0' + i%10)})
		if same {
			have = append(have, "k{"+n+"}:"+n)
		} else {
			have = append(have, "k"+n+":"+n)
		}
	}
	kv.PutEntity(&pb.Entity{ID: env.S("a"), Number: env.I(1), Meta: &pb.EntityMeta{UntypedMeta: have}})
	kv.PutGroup(&pb.Group{Name: env.S("a"), Number: env.I(1), UntypedMeta: have})
	w.Load()
	check(w, kv, kv.Snapshot(), nd.Bool("group"), have, nd.Choose("key", "k", "k00", "k{39}", "k39", "n"))
}
