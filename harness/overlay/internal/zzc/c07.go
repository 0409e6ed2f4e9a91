package zzc

import (
	"strings"

	"github.com/golang/protobuf/proto"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

//gosym:bounds an entity with 0..2 distinct keys of type SSH or S and 1..2-byte texts over k and colon (prefixes and substrings of each other included) alone or behind a common text of 66 bytes, with or without metadata; add, remove or read with type in any case and text of 1..2 such bytes (removal also without type, or without text)
func VP_C07_keys() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	var have []string
	n := nd.Pick("n", 3)
	// real keys are long and share their beginnings
	long := ""
	if nd.Bool("long") {
		long = "AAAAB3NzaC1yc2EAAAADAQABAAABAQDAAAAB3NzaC1yc2EAAAADAQABAAABAQD/+= "
	}
	for i := 0; i < n; i++ {
		k := nd.Choose("ht", "SSH", "S") + ":" + long + nd.Str("hk", 1, 2, "k:")
		for _, o := range have {
			nd.Assume(o != k)
		}
		have = append(have, k)
	}
	e := fullEntity("a", 1, "$h")
	e.Meta.Keys = have
	if n == 0 && nd.Bool("nometa") {
		e.Meta = nil
	}
	kv.PutEntity(e)
	kv.PutEntity(fullEntity("b", 2, "$h"))
	w.Load()
	snap := kv.Snapshot()
	acts := []rpc.Action{rpc.Action_ADD, rpc.Action_DROP, rpc.Action_READ}
	act := acts[nd.Pick("action", 3)]
	types := []string{"SSH", "ssh", "S"}
	texts := 1
	if act == rpc.Action_DROP {
		types = append(types, "")
		texts = 0
	}
	typ := types[nd.Pick("type", len(types))]
	text := nd.Str("text", texts, 2, "k:")
	nd.Assume(typ != "" || text != "")
	if text != "" {
		text = long + text
	}
	target := nd.Choose("target", "a", "c")
	res, err := w.Srv.EntityKeys(w.CtxWith("z", pb.Capability_MODIFY_ENTITY_KEYS), &rpc.KVRequest{Target: &target, Action: &act, Key: &typ, Value: &text})
	nd.NoteBool("ok", err == nil)
	if target == "c" {
		nd.Assert(err != nil && kv.Same(snap), "a missing entity is reported")
		return
	}
	nd.Assert(err == nil, "a key request for an existing entity succeeds")
	named := strings.ToUpper(typ) + ":" + text
	var want []string
	switch act {
	case rpc.Action_READ:
		nd.Reach("read")
		nd.Assert(sameSet(res.GetStrings(), have), "a read returns the stored keys")
		nd.Assert(kv.Same(snap), "a read changes nothing")
		return
	case rpc.Action_ADD:
		nd.Reach("added")
		for _, k := range have {
			if k != named {
				want = append(want, k)
			}
		}
		want = append(want, named)
	case rpc.Action_DROP:
		nd.Reach("dropped")
		for _, k := range have {
			i := strings.Index(k, ":")
			hit := k == named
			if typ == "" {
				hit = k[i+1:] == text
			} else if text == "" {
				hit = k[:i] == strings.ToUpper(typ)
			}
			if !hit {
				want = append(want, k)
			}
		}
	}
	got := kv.Entity("a")
	nd.Assert(sameSet(got.GetMeta().GetKeys(), want), "exactly the named key is added or removed")
	nd.Assert(kv.SameBut(snap, "/entities/a"), "only the named entity changes")
	if e.Meta != nil {
		got.Meta.Keys = have
		nd.Assert(proto.Equal(got, e), "nothing but the keys changes")
	}
}

//gosym:bounds an entity with 9 to 12 (thorough 20) keys of three types; one of them, or another, is added or dropped by type and text, or dropped by type or by text alone
func VP_C07_many() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	n := 9 + nd.Pick("n", 4)
	if nd.Thorough() {
		n += 8
	}
	var have []string
	for i := 0; i < n; i++ {
		have = append(have, []string{"SSH", "PGP", "S"}[i%3]+":k"+string([]byte{byte('a' + i/2)}))
	}
	kv.PutEntity(&pb.Entity{ID: env.S("a"), Number: env.I(1), Meta: &pb.EntityMeta{Keys: have}})
	w.Load()
	act := []rpc.Action{rpc.Action_ADD, rpc.Action_DROP}[nd.Pick("action", 2)]
	typ, text := nd.Choose("type", "SSH", "PGP", "S", ""), nd.Choose("text", "ka", "kb", "ke", "kz", "")
	nd.Assume(typ != "" || text != "")
	if act == rpc.Action_ADD {
		nd.Assume(typ != "" && text != "")
	}
	_, err := w.Srv.EntityKeys(w.CtxWith("z", pb.Capability_MODIFY_ENTITY_KEYS), &rpc.KVRequest{Target: env.S("a"), Action: &act, Key: &typ, Value: &text})
	nd.Assert(err == nil, "a key request for an existing entity succeeds")
	var want []string
	for _, k := range have {
		i := strings.Index(k, ":")
		if (typ == "" || k[:i] == typ) && (text == "" || k[i+1:] == text) {
			continue
		}
		want = append(want, k)
	}
	if act == rpc.Action_ADD {
		nd.Reach("added")
		want = append(want, typ+":"+text)
	}
	nd.Assert(sameSet(kv.Entity("a").GetMeta().GetKeys(), want), "exactly the named key is added or removed")
}

//gosym:bounds an entity with a key whose text is any of 31 strange texts, or a complete public key with or without a comment, and keys differing from it in comment, case, blanks or at the end; one of these added or dropped
func VP_C07_strange() {
	kv := env.NewStore()
	w := env.NewWorld(kv)
	texts := append([]string{"ssh-ed25519 AAAAC3NzaC1lZDI1 me@host", "ssh-ed25519 AAAAC3NzaC1lZDI1"}, env.Strange...)
	k := texts[nd.Pick("text", len(texts))]
	alike := []string{k, k + " other@host", " " + k, k + "\n", strings.ToUpper(k), strings.ToLower(k), k[:len(k)-1] + "?", strings.Replace(k, " ", "  ", -1), strings.TrimSpace(k)}
	var have []string
	q := alike[nd.Pick("alike", len(alike))]
	for _, x := range alike {
		dup := len(x) == 0
		for _, o := range have {
			dup = dup || o == "SSH:"+x
		}
		if !dup {
			have = append(have, "SSH:"+x)
		}
	}
	nd.Assume(q != "")
	act := []rpc.Action{rpc.Action_ADD, rpc.Action_DROP}[nd.Pick("action", 2)]
	var want []string
	for _, x := range have {
		if x != "SSH:"+q {
			want = append(want, x)
		}
	}
	if act == rpc.Action_ADD {
		nd.Reach("added")
		have, want = want, have
	}
	kv.PutEntity(&pb.Entity{ID: env.S("a"), Number: env.I(1), Meta: &pb.EntityMeta{Keys: have}})
	w.Load()
	_, err := w.Srv.EntityKeys(w.CtxWith("z", pb.Capability_MODIFY_ENTITY_KEYS), &rpc.KVRequest{Target: env.S("a"), Action: &act, Key: env.S("SSH"), Value: &q})
	nd.Assert(err == nil, "a key request for an existing entity succeeds")
	nd.Assert(sameSet(kv.Entity("a").GetMeta().GetKeys(), want), "exactly the named key is added or removed")
}
