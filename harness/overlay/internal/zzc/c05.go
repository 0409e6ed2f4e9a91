package zzc

import (
	"strings"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

type pair struct {
	k string
	v []string
}

func kvList(ps []pair) []*pb.KVData {
	var out []*pb.KVData
	for _, p := range ps {
		out = append(out, kvd(p.k, p.v...))
	}
	return out
}

func sameVals(d *pb.KVData, v []string) bool {
	if len(d.GetValues()) != len(v) {
		return false
	}
	ok := true
	for i := range v {
		ok = nd.And(ok, d.GetValues()[i].GetValue() == v[i])
	}
	return ok
}

// samePairs compares as maps.
func samePairs(ds []*pb.KVData, ps []pair) bool {
	if len(ds) != len(ps) {
		return false
	}
	ok := true
	for _, p := range ps {
		in := false
		for _, d := range ds {
			in = nd.Or(in, nd.And(d.GetKey() == p.k, sameVals(d, p.v)))
		}
		ok = nd.And(ok, in)
	}
	return ok
}

func vals(l string) []string {
	n := nd.Pick(l+".n", 3)
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, nd.Str(l, 0, 1, "a-z"))
	}
	return out
}

//gosym:bounds an entity and a group with 0..2 distinct keys of 0..1 symbolic bytes and 0..2 values each; one (thorough two) add, delete or replace with symbolic key and 0..2 values on either, on an existing or missing object, with metadata present or not; then a read of a symbolic key and of everything
//gosym:weight 2
func VP_C05_map() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	group := nd.Bool("group")
	var have []pair
	n := nd.Pick("n", 3)
	for i := 0; i < n; i++ {
		p := pair{k: nd.Str("key", 0, 1, "a-cA")}
		if i == 0 {
			p.v = vals("val")
		} else if nd.Bool("one") {
			p.v = []string{nd.Str("val", 0, 1, "a-z")}
		}
		for _, o := range have {
			nd.Assume(o.k != p.k)
		}
		have = append(have, p)
	}
	e := &pb.Entity{ID: env.S("a"), Number: env.I(1), Meta: &pb.EntityMeta{KV: kvList(have), GECOS: env.S("g")}}
	if n == 0 && nd.Bool("nometa") {
		e.Meta = nil
	}
	kv.PutEntity(e)
	kv.PutGroup(&pb.Group{Name: env.S("a"), Number: env.I(1), KV: kvList(have), DisplayName: env.S("g")})
	w.Load()
	ctx := w.CtxWith("z", env.AllCaps...)
	target := nd.Choose("target", "a", "c")
	rounds := 1
	if nd.Thorough() {
		rounds = 2
	}
	for r := 0; r < rounds; r++ {
		snap := kv.Snapshot()
		k := nd.Str("k", 0, 1, "a-cA")
		v := vals("v")
		q := &rpc.KV2Request{Target: &target, Data: kvd(k, v...)}
		op := nd.Pick("op", 3)
		var err error
		switch {
		case op == 0 && group:
			_, err = w.Srv.GroupKVAdd(ctx, q)
		case op == 0:
			_, err = w.Srv.EntityKVAdd(ctx, q)
		case op == 1 && group:
			_, err = w.Srv.GroupKVDel(ctx, q)
		case op == 1:
			_, err = w.Srv.EntityKVDel(ctx, q)
		case op == 2 && group:
			_, err = w.Srv.GroupKVReplace(ctx, q)
		case op == 2:
			_, err = w.Srv.EntityKVReplace(ctx, q)
		}
		nd.NoteBool("ok", err == nil)
		at := -1
		for i := range have {
			if have[i].k == k {
				at = i
			}
		}
		if target == "c" {
			nd.Reach("missing object")
			nd.Assert(status.Code(err) == codes.NotFound && kv.Same(snap), "a missing object is reported")
			return
		}
		if err != nil {
			nd.Reach("refused")
			nd.Assert(kv.Same(snap), "a failed key/value request changes nothing")
			nd.Assert((op == 0) == (at >= 0), "adding fails only for present keys, deleting and replacing only for missing ones")
			want := codes.NotFound
			if op == 0 {
				want = codes.AlreadyExists
			}
			nd.Assert(status.Code(err) == want, "presence and absence are reported distinctly")
		} else {
			nd.Reach("done")
			nd.Assert((op == 0) == (at < 0), "adding succeeds only for missing keys, deleting and replacing only for present ones")
			var now []pair
			for i := range have {
				if i != at {
					now = append(now, have[i])
				}
			}
			if op != 1 {
				now = append(now, pair{k, v})
			}
			have = now
		}
		stored := kv.Entity("a").GetMeta().GetKV()
		key := "/entities/a"
		if group {
			stored, key = kv.Group("a").GetKV(), "/groups/a"
		}
		nd.Assert(samePairs(stored, have), "exactly the named key changes")
		nd.Assert(kv.SameBut(snap, key), "only the named object changes")
	}
	if group {
		nd.Assert(kv.Group("a").GetDisplayName() == "g" && kv.Group("a").GetNumber() == 1, "the rest of the object stays")
	} else {
		nd.Assert(kv.Entity("a").GetNumber() == 1 && (e.Meta == nil || kv.Entity("a").GetMeta().GetGECOS() == "g"), "the rest of the object stays")
	}
}

//gosym:bounds an entity and a group with 0..2 distinct keys of 0..1 bytes with 0..2 values; a read of a symbolic key or of everything on an existing or missing object
func VP_C05_read() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	group := nd.Bool("group")
	var have []pair
	n := nd.Pick("n", 3)
	for i := 0; i < n; i++ {
		p := pair{nd.Str("key", 0, 1, "a-c"), vals("val")}
		for _, o := range have {
			nd.Assume(o.k != p.k)
		}
		have = append(have, p)
	}
	kv.PutEntity(&pb.Entity{ID: env.S("a"), Number: env.I(1), Meta: &pb.EntityMeta{KV: kvList(have)}})
	kv.PutGroup(&pb.Group{Name: env.S("a"), Number: env.I(1), KV: kvList(have)})
	w.Load()
	snap := kv.Snapshot()
	target := nd.Choose("target", "a", "c")
	q := &rpc.KV2Request{Target: &target}
	all := nd.Bool("all")
	k := "*"
	if !all {
		k = nd.Str("k", 0, 1, "a-c")
	}
	q.Data = &pb.KVData{Key: &k}
	var res *rpc.ListOfKVData
	var err error
	if group {
		res, err = w.Srv.GroupKVGet(env.Ctx(""), q)
	} else {
		res, err = w.Srv.EntityKVGet(env.Ctx(""), q)
	}
	nd.NoteBool("ok", err == nil)
	nd.Assert(kv.Same(snap), "a read changes nothing")
	if target == "c" {
		nd.Assert(status.Code(err) == codes.NotFound, "a missing object is reported")
		return
	}
	if all {
		nd.Reach("all")
		nd.Assert(err == nil && samePairs(res.GetKVData(), have), "the wildcard returns everything")
		return
	}
	var want []pair
	for _, p := range have {
		if p.k == k {
			want = append(want, p)
		}
	}
	if len(want) == 0 {
		nd.Reach("no such key")
		nd.Assert(status.Code(err) == codes.NotFound, "a missing key is reported")
		return
	}
	nd.Reach("found")
	nd.Assert(err == nil && samePairs(res.GetKVData(), want), "a read returns exactly the stored values of the key")
}

//gosym:bounds an entity and a group with 10 to 13 (thorough 25) keys, the last with as many values; one add, delete, replace or read of the first, middle or last key, one with the same beginning, or a missing one, with 0 or 12 values
func VP_C05_many() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	n := 10 + nd.Pick("n", 4)
	if nd.Thorough() {
		n += 12
	}
	var have []pair
	var vs []string
	for i := 0; i < n; i++ {
		c := string([]byte{byte('a' + i)})
		vs = append(vs, "v"+c)
		have = append(have, pair{"key" + c, []string{c}})
	}
	have[n-1].v = vs
	kv.PutEntity(&pb.Entity{ID: env.S("a"), Number: env.I(1), Meta: &pb.EntityMeta{KV: kvList(have)}})
	kv.PutGroup(&pb.Group{Name: env.S("a"), Number: env.I(1), KV: kvList(have)})
	w.Load()
	at := []int{0, n / 2, n - 1, -1, -2}[nd.Pick("key", 5)]
	k := "key"
	if at >= 0 {
		k = have[at].k
	} else if at == -2 {
		k = "keyaa"
	}
	var v []string
	if nd.Bool("values") {
		v = vs[:9]
	}
	q := &rpc.KV2Request{Target: env.S("a"), Data: kvd(k, v...)}
	ctx := w.CtxWith("z", env.AllCaps...)
	group := nd.Bool("group")
	op := nd.Pick("op", 4)
	var err error
	if op == 3 {
		var res *rpc.ListOfKVData
		if group {
			res, err = w.Srv.GroupKVGet(ctx, q)
		} else {
			res, err = w.Srv.EntityKVGet(ctx, q)
		}
		nd.Assert((err == nil && len(res.GetKVData()) > 0) == (at >= 0), "a read returns what is there")
		if at >= 0 {
			nd.Assert(samePairs(res.GetKVData(), have[at:at+1]), "a read returns the values of the key")
			nd.Reach("read")
		}
		return
	}
	f := [][]func() error{{
		func() error { _, err := w.Srv.EntityKVAdd(ctx, q); return err },
		func() error { _, err := w.Srv.EntityKVDel(ctx, q); return err },
		func() error { _, err := w.Srv.EntityKVReplace(ctx, q); return err },
	}, {
		func() error { _, err := w.Srv.GroupKVAdd(ctx, q); return err },
		func() error { _, err := w.Srv.GroupKVDel(ctx, q); return err },
		func() error { _, err := w.Srv.GroupKVReplace(ctx, q); return err },
	}}
	g := 0
	if group {
		g = 1
	}
	err = f[g][op]()
	nd.Assert((err == nil) == ((op == 0) == (at < 0)), "adding succeeds only for missing keys, deleting and replacing only for present ones")
	if err == nil {
		nd.Reach("done")
		var now []pair
		for i := range have {
			if i != at {
				now = append(now, have[i])
			}
		}
		if op != 1 {
			now = append(now, pair{k, v})
		}
		have = now
	}
	stored := kv.Entity("a").GetMeta().GetKV()
	if group {
		stored = kv.Group("a").GetKV()
	}
	nd.Assert(samePairs(stored, have), "exactly the named key changes")
}

//gosym:bounds an entity and a group with a key and a value, each any of 31 strange texts (blanks around it, lines, quotes, not UTF-8, up to 2100 bytes, long ones differing only at their ends), and another key; one add, delete, replace or read of that key, of one differing at its end, or of one a careless comparison would take for it
func VP_C05_strange() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	k := env.Strange[nd.Pick("key", len(env.Strange))]
	v := env.Strange[nd.Pick("value", 2)*(len(env.Strange)-2)]
	have := []pair{{k, []string{v, k}}, {"other", []string{"o"}}}
	kv.PutEntity(&pb.Entity{ID: env.S("a"), Number: env.I(1), Meta: &pb.EntityMeta{KV: kvList(have)}})
	kv.PutGroup(&pb.Group{Name: env.S("a"), Number: env.I(1), KV: kvList(have)})
	w.Load()
	q := k
	switch nd.Pick("asked", 5) {
	case 1:
		q = k[:len(k)-1] + "?"
	case 2:
		q = strings.TrimSpace(k)
	case 3:
		q = strings.ToLower(k) + "\n"
	case 4:
		q = strings.Replace(strings.ToUpper(k), "\x00", "", -1)
	}
	nd.Assume(q != "*" && q != "other")
	at := 1
	if q == k {
		at = 0
	}
	have2 := []pair{have[1]}
	if at == 1 {
		have2 = have
	}
	nv := []string{v + "x", k, ""}
	d := &rpc.KV2Request{Target: env.S("a"), Data: kvd(q, nv...)}
	ctx := w.CtxWith("z", env.AllCaps...)
	group := nd.Bool("group")
	op := nd.Pick("op", 4)
	var err error
	var res *rpc.ListOfKVData
	switch {
	case op == 0 && group:
		_, err = w.Srv.GroupKVAdd(ctx, d)
	case op == 0:
		_, err = w.Srv.EntityKVAdd(ctx, d)
	case op == 1 && group:
		_, err = w.Srv.GroupKVDel(ctx, d)
	case op == 1:
		_, err = w.Srv.EntityKVDel(ctx, d)
	case op == 2 && group:
		_, err = w.Srv.GroupKVReplace(ctx, d)
	case op == 2:
		_, err = w.Srv.EntityKVReplace(ctx, d)
	case group:
		res, err = w.Srv.GroupKVGet(ctx, d)
	default:
		res, err = w.Srv.EntityKVGet(ctx, d)
	}
	want := have
	if op == 3 {
		if at == 0 {
			nd.Assert(err == nil && samePairs(res.GetKVData(), have[:1]), "a read returns exactly the stored values of the key")
			nd.Reach("read")
		} else {
			nd.Assert(status.Code(err) == codes.NotFound, "a missing key is reported")
		}
	} else {
		nd.Assert((err == nil) == ((op == 0) == (at == 1)), "adding succeeds only for missing keys, deleting and replacing only for present ones")
		if err == nil {
			nd.Reach("done")
			want = have2
			if op != 1 {
				want = append(append([]pair{}, have2...), pair{q, nv})
			}
		}
	}
	now := kv.Entity("a").GetMeta().GetKV()
	if group {
		now = kv.Group("a").GetKV()
	}
	nd.Assert(samePairs(now, want), "each operation affects its key alone")
}
