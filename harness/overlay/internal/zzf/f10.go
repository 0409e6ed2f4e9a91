package zzf

import (
	"bytes"
	"strings"

	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

// f10World is a server over two entities, one of them a member of group h,
// and two groups, of which g includes h and is managed by h. The record under
// key bad, if any, is damaged before or after the server starts: undecodable,
// or unreadable.
func f10World(bad string, early, corrupt bool) *env.World {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	kv.PutEntity(&pb.Entity{ID: env.S("e"), Number: env.I(1), Secret: env.S(w.Cr.Seed("s")), Meta: &pb.EntityMeta{Groups: []string{"h"}, Keys: []string{"SSH:k"},
		UntypedMeta: []string{"u:v"}, KV: []*pb.KVData{{Key: env.S("k"), Values: []*pb.KVValue{{Value: env.S("v")}}}}}})
	kv.PutEntity(&pb.Entity{ID: env.S("f"), Number: env.I(2), Secret: env.S(w.Cr.Seed("s")), Meta: &pb.EntityMeta{Groups: []string{"g"}}})
	kv.PutGroup(&pb.Group{Name: env.S("g"), Number: env.I(1), ManagedBy: env.S("h"), Expansions: []string{"INCLUDE:h"}, Capabilities: []pb.Capability{pb.Capability_LOCK_ENTITY},
		UntypedMeta: []string{"u:v"}, KV: []*pb.KVData{{Key: env.S("k"), Values: []*pb.KVValue{{Value: env.S("v")}}}}})
	kv.PutGroup(&pb.Group{Name: env.S("h"), Number: env.I(2), Capabilities: []pb.Capability{pb.Capability_UNLOCK_ENTITY}})
	if bad != "" && early {
		f10Damage(kv, bad, corrupt)
	}
	w.Boot()
	w.Load()
	if bad != "" && !early {
		f10Damage(kv, bad, corrupt)
	}
	return w
}

func f10Damage(kv *env.Store, bad string, corrupt bool) {
	if corrupt {
		kv.RawPut(bad, []byte{0xff})
		return
	}
	kv.Broken = bad
}

func f10Name(l string) string { return nd.Str(l, 1, 1, "e-i") }

func f10Text(l string) string { return nd.Str(l, 1, 1, "k-z") }

// listed returns the names of the objects in a response.
func listed(m proto.Message) []string {
	out := []string{}
	switch x := m.(type) {
	case *rpc.ListOfEntities:
		for _, e := range x.GetEntities() {
			out = append(out, e.GetID())
		}
	case *rpc.ListOfGroups:
		for _, g := range x.GetGroups() {
			out = append(out, g.GetName())
		}
	case *rpc.ListOfStrings:
		out = append(out, x.GetStrings()...)
	case *rpc.ListOfKVData:
		for _, d := range x.GetKVData() {
			out = append(out, d.GetKey())
		}
	}
	return out
}

func among(a, b []string) bool {
	ok := true
	for _, x := range a {
		in := false
		for _, y := range b {
			in = nd.Or(in, x == y)
		}
		ok = nd.And(ok, in)
	}
	return ok
}

var f10Keys = []string{"/entities/e", "/entities/f", "/groups/g", "/groups/h"}

//gosym:bounds 2 entities and 2 groups (one including, managed by the other) with every kind of data; any one record undecodable or unreadable, from before the start or after it; any request of any kind with 1-byte symbolic names, full or (thorough) minimal contents, by a holder of every capability or by a member of the managing group; against the same request on undamaged data
//gosym:weight 3
func VP_F10_requests() {
	bad := f10Keys[nd.Pick("bad", len(f10Keys))]
	early, corrupt := nd.Bool("early"), nd.Bool("corrupt")
	a := f10World("", false, false)
	b := f10World(bad, early, corrupt)
	n := 1
	if nd.Thorough() {
		n = 2
	}
	w := *a
	r := w.AnyOf(env.RPCs, &env.Gen{Name: f10Name, Text: f10Text, Shapes: n})
	root := nd.Bool("root")
	auth := r.Name == "AuthEntity" || r.Name == "AuthGetToken" || r.Name == "AuthChangeSecret"
	call := func(x *env.World) (proto.Message, error) {
		w = *x
		if root {
			return r.Call(w.CtxWith("z", env.AllCaps...))
		}
		return r.Call(w.CtxWith("e"))
	}
	before := b.KV.Snapshot()
	raw, _ := b.KV.RawGet(bad)
	m0, err0 := call(a)
	m1, err1 := call(b)
	after, ok := b.KV.RawGet(bad)
	nd.Assert(ok && bytes.Equal(raw, after), "a record that cannot be read is not changed")
	if err1 == nil {
		nd.Reach("succeeded")
		nd.Assert(err0 == nil, "a request succeeds only if it does with readable data")
		names := r.Target != "" && bad == r.Key()
		if len(r.Targets) > 0 && strings.HasPrefix(bad, "/groups/") {
			// Membership changes do not need the group's record.
			names = false
		}
		if names && r.Name != "GroupSearch" && r.Name != "EntitySearch" && r.Name != "AuthValidateToken" {
			nd.Assert(false, "a request for an unreadable record fails")
		}
		nd.Assert(b.KV.SameBut(a.KV.Snapshot(), bad), "a request that succeeds has its usual effect")
		nd.Assert(among(listed(m1), listed(m0)), "unreadable data grants no membership")
		if !early {
			nd.Assert(len(listed(m1)) == len(listed(m0)), "a listing is complete or fails")
		}
		return
	}
	nd.Reach("failed")
	nd.Assert(b.KV.Same(before), "a failed request changes nothing")
	c0, c1 := status.Code(err0), status.Code(err1)
	fine := c1 == codes.Internal || err0 != nil && c0 == c1 || auth && c1 == codes.Unauthenticated || !root && c1 == codes.PermissionDenied
	nd.NoteInt("want", int(c0))
	nd.NoteInt("got", int(c1))
	nd.Assert(fine, "unreadable data is reported as an internal error")
}
