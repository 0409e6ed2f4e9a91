package zzb

import (
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
)

//gosym:bounds 2 entities and 2 groups managed by each other or by nobody; every one of the 35 requests with 1-byte symbolic names, full, minimal or absent contents; requester with root, with one symbolic capability, a delegated manager, or without token
//gosym:weight 2
func VP_B02_readonly() {
	env.SetConf("server.readonly", true)
	kv := env.NewStore()
	w := env.NewWorld(kv)
	seed(w, kv, setup{in: map[string]bool{"a": true, "b": true}, managed: map[string]string{"a": nd.Choose("mgr", "", "a", "b"), "b": "a"}})
	snap := kv.Snapshot()
	ctx := env.Ctx("bogus")
	switch nd.Pick("token", 3) {
	case 0:
		ctx = w.CtxWith(nameAC("requester"), env.AllCaps...)
	case 1:
		ctx = w.CtxWith(nameAC("requester"), env.SymCap("cap"))
	}
	r := w.AnyOf(env.RPCs, &env.Gen{Name: nameAC, Text: text, Shapes: 3})
	_, err := r.Call(ctx)
	nd.NoteBool("ok", err == nil)
	nd.Assert(kv.Same(snap), "a read-only server changes nothing")
	if r.Mut {
		nd.Reach("mutating request")
		nd.Assert(err != nil, "a mutating request to a read-only server is refused")
		c := status.Code(err)
		nd.Assert(c == codes.Unimplemented || c == codes.InvalidArgument, "a mutating request to a read-only server is refused as unsupported")
	} else if err == nil {
		nd.Reach("answered")
	}
	_ = pb.Capability_GLOBAL_ROOT
}
