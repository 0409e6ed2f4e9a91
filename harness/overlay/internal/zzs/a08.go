package zzs

import (
	"strings"

	"github.com/golang/protobuf/proto"

	"github.com/netauth/netauth/internal/db"
	env "github.com/netauth/netauth/internal/zzenv"
	"github.com/netauth/netauth/internal/zzlog"
	nd "github.com/netauth/netauth/internal/zznd"
	"github.com/netauth/netauth/internal/zzos"

	pb "github.com/netauth/protocol"
)

//gosym:bounds each of the three stores: two operations out of reading an entity with a symbolic stored secret, writing it (under its name or a key that is no object), reading a missing one, listing and deleting; everything logged or printed is searched for the stored secret
func VP_A08_stores() {
	zzlog.Start()
	db.SetParentLogger(zzlog.New())
	zzos.Reset()
	zzos.Put(base+"/.mutable", nil, 0644)
	w := open([]string{"memory", "filesystem", "bitcask"}[nd.Pick("store", 3)])
	h := "$2a$15$" + nd.Str("hash", 4, 4, "A-Z0-9")
	b, err := proto.Marshal(&pb.Entity{ID: env.S("a"), Number: env.I(1), Secret: &h})
	nd.Assert(err == nil, "an entity is encoded")
	for i := 0; i < 2; i++ {
		switch nd.Pick("op", 6) {
		case 0:
			if w.kv.Put("/entities/a", b) == nil {
				nd.Reach("put")
			}
		case 1:
			got, err := w.kv.Get("/entities/a")
			if err == nil {
				nd.Reach("got")
				nd.Assert(strings.Contains(string(got), h), "the record is read back")
			}
		case 2:
			w.kv.Get("/entities/b")
		case 3:
			w.kv.Keys("/entities/*")
		case 4:
			w.kv.Del("/entities/a")
		case 5:
			w.kv.Put("/other/a", b)
		}
	}
	nd.Assert(!zzlog.Has(h), "no stored secret is logged or printed")
}
