package zzc

import (
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

//gosym:bounds 0..2 (thorough 3) existing entities and groups with arbitrary 32-bit numbers, or without one; automatic or explicit arbitrary number; a storage fault at one of the first six accesses, an unreadable record, or none
func VP_C02_numbers() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	max := 2
	if nd.Thorough() {
		max = 3
	}
	n := nd.Pick("existing", max+1)
	group := nd.Bool("group")
	names := []string{"a", "b", "c"}
	var nums []int32
	for i := 0; i < n; i++ {
		x := nd.Int32("n")
		nums = append(nums, x)
		p := &x
		// the other kind has numbers of its own
		other := int32(7 + i)
		if group {
			kv.PutGroup(&pb.Group{Name: env.S(names[i]), Number: p})
			kv.PutEntity(&pb.Entity{ID: env.S(names[i]), Number: &other})
		} else {
			kv.PutEntity(&pb.Entity{ID: env.S(names[i]), Number: p})
			kv.PutGroup(&pb.Group{Name: env.S(names[i]), Number: &other})
		}
	}
	w.Load()
	corrupt := n > 0 && nd.Bool("corrupt")
	if corrupt {
		kv.RawPut("/entities/a", []byte("\xff\xff"))
		kv.RawPut("/groups/a", []byte("\xff\xff"))
	}
	req := nd.Int32("number")
	if nd.Bool("auto") {
		req = -1
	}
	kv.FailAt = nd.Pick("fault", 7) - 1
	ctx := w.CtxWith("z", env.AllCaps...)
	var err error
	var got int32
	if group {
		_, err = w.Srv.GroupCreate(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: env.S("new"), Number: &req}})
		got = kv.Group("new").GetNumber()
	} else {
		_, err = w.Srv.EntityCreate(ctx, &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("new"), Number: &req, Secret: env.S("s")}})
		got = kv.Entity("new").GetNumber()
	}
	nd.NoteBool("ok", err == nil)
	if err != nil {
		nd.Reach("refused")
		full := false
		for _, x := range nums {
			full = nd.Or(full, x == 2147483647)
		}
		nd.Assert(nd.Or(corrupt || kv.Failed != "", nd.And(req == -1, full)), "a number is found when there is room above the existing ones")
		return
	}
	nd.Reach("created")
	if req == -1 {
		nd.Reach("automatic")
		nd.Assert(got > 0, "an automatic number is positive")
		free := true
		for i, x := range nums {
			if corrupt && i == 0 {
				continue
			}
			free = nd.And(free, x != got)
		}
		nd.Assert(free, "an automatic number is not held by another object of the kind")
		nd.Assert(!corrupt && (kv.Failed == "" || kv.Before > 0), "no number is assigned when some object could not be examined")
		return
	}
	nd.Assert(got == req, "an explicit number is stored exactly")
}

//gosym:bounds two successive automatic creations (thorough three) of entities or groups beside one with an arbitrary number, the first destroyed meanwhile, or another one created with an explicit arbitrary number, or neither
func VP_C02_sequence() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	group := nd.Bool("group")
	x := nd.Int32("n")
	nd.Assume(x < 2147483640)
	kv.PutEntity(&pb.Entity{ID: env.S("a"), Number: &x})
	kv.PutGroup(&pb.Group{Name: env.S("a"), Number: &x})
	w.Load()
	ctx := w.CtxWith("z", env.AllCaps...)
	k := 2
	if nd.Thorough() {
		k = 3
	}
	seen := []int32{x}
	for i := 0; i < k; i++ {
		n := []string{"n0", "n1", "n2"}[i]
		var got int32
		if group {
			_, err := w.Srv.GroupCreate(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: &n, Number: env.I(-1)}})
			nd.Assert(err == nil, "creation succeeds")
			got = kv.Group(n).GetNumber()
		} else {
			_, err := w.Srv.EntityCreate(ctx, &rpc.EntityRequest{Entity: &pb.Entity{ID: &n, Number: env.I(-1)}})
			nd.Assert(err == nil, "creation succeeds")
			got = kv.Entity(n).GetNumber()
		}
		nd.Assert(got > 0, "an automatic number is positive")
		for _, s := range seen {
			nd.Assert(s != got, "automatic numbers are unused")
		}
		seen = append(seen, got)
		if i > 0 {
			continue
		}
		switch nd.Pick("meanwhile", 3) {
		case 1:
			// destroying the latest and creating again must not collide either
			nd.Reach("destroyed")
			if group {
				w.Srv.GroupDestroy(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: &n}})
			} else {
				w.Srv.EntityDestroy(ctx, &rpc.EntityRequest{Entity: &pb.Entity{ID: &n}})
			}
			seen = seen[:1]
		case 2:
			// nor must numbers that were asked for
			y := nd.Int32("explicit")
			nd.Assume(y < 2147483640 && y != -1)
			var err error
			if group {
				_, err = w.Srv.GroupCreate(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: env.S("x"), Number: &y}})
			} else {
				_, err = w.Srv.EntityCreate(ctx, &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("x"), Number: &y}})
			}
			if err == nil {
				nd.Reach("explicit")
				seen = append(seen, y)
			}
		}
	}
	nd.Reach("end")
}

//gosym:bounds 8 to 12 (thorough 20) existing objects of a kind, numbered from 1 on in either order, one of them with an arbitrary number instead; automatic creation of an entity or group
func VP_C02_many() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	group := nd.Bool("group")
	n := 8 + nd.Pick("n", 5)
	if nd.Thorough() {
		n += 8
	}
	odd := []int{0, 4, n - 1}[nd.Pick("odd", 3)]
	up := nd.Bool("upwards")
	var nums []int32
	for i := 0; i < n; i++ {
		x := int32(i + 1)
		if !up {
			x = int32(n - i)
		}
		if i == odd {
			x = nd.Int32("n")
			nd.Assume(x < 2147483640)
		}
		nums = append(nums, x)
		name := "o" + string([]byte{byte('a' + i)})
		if group {
			kv.PutGroup(&pb.Group{Name: &name, Number: &x})
		} else {
			kv.PutEntity(&pb.Entity{ID: &name, Number: &x})
		}
	}
	w.Load()
	ctx := w.CtxWith("z", env.AllCaps...)
	var got int32
	var err error
	if group {
		_, err = w.Srv.GroupCreate(ctx, &rpc.GroupRequest{Group: &pb.Group{Name: env.S("new"), Number: env.I(-1)}})
		got = kv.Group("new").GetNumber()
	} else {
		_, err = w.Srv.EntityCreate(ctx, &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("new"), Number: env.I(-1), Secret: env.S("s")}})
		got = kv.Entity("new").GetNumber()
	}
	nd.Assert(err == nil, "a number is found when there is room above the existing ones")
	nd.Reach("created")
	nd.Assert(got > 0, "an automatic number is positive")
	free := true
	for _, x := range nums {
		free = nd.And(free, x != got)
	}
	nd.Assert(free, "an automatic number is not held by another object of the kind")
}
