// Package zza checks authentication properties.
package zza

import (
	"context"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	_ "github.com/netauth/netauth/internal/tree/hooks"
	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

// entity ids come from a small alphabet so that collisions are likely
const idAlpha = "a-c"

//gosym:bounds 2 stored entities with symbolic 1-byte ids, secrets of 0..2 symbolic bytes, symbolic lock flags, the first of any kind (full, bare, without metadata, holding root, with odd values); request id 0..1 bytes, secret 0..2 bytes
func VP_A01_auth() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	type ent struct {
		id, sec string
		lock    bool
	}
	var es []ent
	kind := nd.Pick("kind", env.Kinds)
	for i := 0; i < 2; i++ {
		e := ent{id: nd.Str("id", 1, 1, idAlpha), sec: nd.Str("sec", 0, 2, ""), lock: nd.Bool("lock")}
		es = append(es, e)
		kv.PutEntity(w.Shaped(kind, e.id, int32(i+1), e.sec, e.lock))
		kind = env.Flag
	}
	nd.Assume(es[0].id != es[1].id)
	w.Load()
	snap := kv.Snapshot()
	rid := nd.Str("rid", 0, 2, idAlpha+"A .")
	rsec := nd.Str("rsec", 0, 2, "")
	_, err := w.Srv.AuthEntity(context.Background(), &rpc.AuthRequest{Entity: &pb.Entity{ID: &rid}, Secret: &rsec})
	want := false
	for _, e := range es {
		if e.id == rid && e.sec == rsec && !e.lock {
			want = true
		}
	}
	if err == nil {
		nd.Reach("accepted")
	} else {
		nd.Reach("refused")
	}
	nd.NoteBool("ok", err == nil)
	nd.Assert((err == nil) == want, "authentication succeeds exactly for the current secret of an unlocked stored entity")
	nd.Assert(kv.Same(snap), "authentication changes no stored entity")
}

//gosym:bounds an entity (locked or not, with or without metadata, 0..1 byte secret, member of a group with a capability or not) in any record state: fine, undecodable, empty or unreadable; one storage fault at any access or none; AuthEntity and AuthGetToken with 0..1 byte secrets or none, with the entity's name, another's, or none
func VP_A01_faults() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	sec, lock := nd.Str("sec", 0, 1, "s-t"), nd.Bool("lock")
	x := &pb.Entity{ID: env.S("e"), Number: env.I(1), Secret: env.S(w.Cr.Seed(sec))}
	if nd.Bool("meta") {
		x.Meta = &pb.EntityMeta{Locked: &lock, Groups: []string{"g"}}
	} else {
		lock = false
	}
	kv.PutEntity(x)
	kv.PutEntity(&pb.Entity{ID: env.S("f"), Number: env.I(2), Secret: env.S(w.Cr.Seed("u"))})
	kv.PutGroup(&pb.Group{Name: env.S("g"), Number: env.I(1), Capabilities: []pb.Capability{pb.Capability_LOCK_ENTITY}})
	w.Load()
	state := nd.Pick("state", 4)
	switch state {
	case 1:
		kv.RawPut("/entities/e", []byte{0xff})
	case 2:
		kv.RawPut("/entities/e", []byte{})
	case 3:
		kv.Broken = "/entities/e"
	}
	fault := ""
	at := -1
	if nd.Bool("fault") {
		at = nd.Pick("at", 6)
		kv.FailAt = at
		kv.Hook = func(n int, op, key string) {
			if n == at {
				fault = key
			}
		}
	}
	snap := kv.Snapshot()
	req := &rpc.AuthRequest{}
	id, psec := "", ""
	switch nd.Pick("who", 3) {
	case 0:
		id = "e"
		req.Entity = &pb.Entity{ID: &id, Secret: env.S("u")}
	case 1:
		id = "x"
		req.Entity = &pb.Entity{ID: &id}
	}
	if nd.Bool("present") {
		psec = nd.Str("psec", 0, 1, "s-t")
		req.Secret = &psec
	}
	right := state == 0 && id == "e" && !lock && psec == sec
	var err error
	tok := ""
	if nd.Bool("token") {
		var r *rpc.AuthResult
		r, err = w.Srv.AuthGetToken(context.Background(), req)
		tok = r.GetToken()
		nd.Assert((tok != "") == (err == nil), "a token is given exactly on success")
	} else {
		_, err = w.Srv.AuthEntity(context.Background(), req)
	}
	if err == nil {
		nd.Reach("accepted")
		nd.Assert(right, "authentication succeeds only for the current secret of an unlocked readable entity")
		nd.Assert(!(fault == "/entities/e" && (at == 0 || kv.Failed == "put")), "authentication fails when the entity cannot be read or stored")
	} else {
		nd.Reach("refused")
		nd.Assert(!right || fault != "", "authentication succeeds for the current secret of an unlocked readable entity")
		if !right {
			nd.Assert(status.Code(err) == codes.Unauthenticated, "a failed authentication is reported as such")
		}
	}
	if kv.Failed != "put" {
		nd.Assert(kv.Same(snap), "authentication changes no stored entity")
	}
}
