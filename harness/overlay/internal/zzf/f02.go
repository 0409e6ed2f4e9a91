package zzf

import (
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

// f02Name is a name the store knows, one it does not, or none at all.
func f02Name(l string) string { return nd.Str(l, 0, 1, "a-c") }

// f02Seed stores object a in one of several shapes: rich, without any
// optional part, or a record without content; and b, which refers to it.
func f02Seed(w *env.World) {
	n := 2
	if nd.Thorough() {
		n = 3
	}
	switch nd.Pick("stored", n) {
	case 0:
		w.KV.PutEntity(&pb.Entity{ID: env.S("a"), Number: env.I(1), Secret: env.S(w.Cr.Seed("s")), Meta: &pb.EntityMeta{Groups: []string{"a", "b", "c"}, Keys: []string{"SSH:k", "x"},
			UntypedMeta: []string{"u:v", "a:", ":"}, Capabilities: []pb.Capability{pb.Capability_LOCK_ENTITY}, KV: []*pb.KVData{{Key: env.S("a")}, {Key: env.S(""), Values: []*pb.KVValue{{Value: env.S("v")}}}}}})
		w.KV.PutGroup(&pb.Group{Name: env.S("a"), Number: env.I(1), ManagedBy: env.S("a"), Expansions: []string{"INCLUDE:b"}, UntypedMeta: []string{"u:v", "a:", ":"},
			Capabilities: []pb.Capability{pb.Capability_LOCK_ENTITY}, KV: []*pb.KVData{{Key: env.S("a")}, {Key: env.S(""), Values: []*pb.KVValue{{Value: env.S("v")}}}}})
	case 1:
		w.KV.PutEntity(&pb.Entity{ID: env.S("a")})
		w.KV.PutGroup(&pb.Group{Name: env.S("a")})
	case 2:
		w.KV.RawPut("/entities/a", []byte{})
		w.KV.RawPut("/groups/a", []byte{})
	}
	w.KV.PutEntity(&pb.Entity{ID: env.S("b"), Number: env.I(2), Secret: env.S(w.Cr.Seed("s")), Meta: &pb.EntityMeta{Groups: []string{"b"}}})
	w.KV.PutGroup(&pb.Group{Name: env.S("b"), Number: env.I(2), ManagedBy: env.S("b")})
}

// answered asserts that a request was answered properly.
func answered(m interface{}, err error) {
	nd.Assert(m != nil, "every request is answered")
	switch status.Code(err) {
	case codes.Unknown, codes.OK:
		nd.Assert(err == nil, "every failure has a status")
		nd.Reach("done")
	default:
		nd.Reach("refused")
	}
}

//gosym:bounds any request of any kind with full, minimal or absent parts, names of 0..1 and text of 0..1 (thorough 2) symbolic bytes including separators and braces; by a holder of every capability, one of none, or without a valid token; over a rich, a bare or (thorough) an empty stored entity and group, and others
//gosym:weight 4
func VP_F02_requests() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	f02Seed(w)
	w.Load()
	n := 1
	if nd.Thorough() {
		n = 2
	}
	text := func(l string) string { return nd.Str(l, 0, n, ":/.{}*a0") }
	r := w.AnyOf(env.RPCs, &env.Gen{Name: f02Name, Text: text, Shapes: 3})
	ctx := env.Ctx("nonsense")
	switch nd.Pick("who", 3) {
	case 0:
		ctx = w.CtxWith("b", env.AllCaps...)
	case 1:
		ctx = w.CtxWith("a")
	}
	m, err := r.Call(ctx)
	answered(m, err)
	// The server goes on to serve.
	_, err = w.Srv.EntityInfo(env.Ctx(""), &rpc.EntityRequest{Entity: &pb.Entity{ID: env.S("b")}})
	nd.Assert(err == nil || r.Name == "EntityDestroy", "the server goes on serving")
}
