package netauth

import (
	"context"
	"fmt"
	"strings"

	"google.golang.org/grpc"

	env "github.com/netauth/netauth/internal/zzenv"
	nd "github.com/netauth/netauth/internal/zznd"

	"github.com/hashicorp/go-hclog"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

// zzum answers untyped metadata requests with a fixed list.
type zzum struct {
	rpc.NetAuth2Client
	list []string
	kvd  []*pb.KVData
}

func (z *zzum) EntityUM(context.Context, *rpc.KVRequest, ...grpc.CallOption) (*rpc.ListOfStrings, error) {
	return &rpc.ListOfStrings{Strings: z.list}, nil
}

func (z *zzum) GroupUM(context.Context, *rpc.KVRequest, ...grpc.CallOption) (*rpc.ListOfStrings, error) {
	return &rpc.ListOfStrings{Strings: z.list}, nil
}

func (z *zzum) EntityKeys(context.Context, *rpc.KVRequest, ...grpc.CallOption) (*rpc.ListOfStrings, error) {
	return &rpc.ListOfStrings{Strings: z.list}, nil
}

func (z *zzum) EntityKVGet(context.Context, *rpc.KV2Request, ...grpc.CallOption) (*rpc.ListOfKVData, error) {
	return &rpc.ListOfKVData{KVData: z.kvd}, nil
}

func (z *zzum) GroupKVGet(context.Context, *rpc.KV2Request, ...grpc.CallOption) (*rpc.ListOfKVData, error) {
	return &rpc.ListOfKVData{KVData: z.kvd}, nil
}

// zzval is one value a caller must be given.
type zzval struct {
	key, text string
	idx       int
}

// zzjudge checks that out holds, for the keys chosen by want, exactly the
// values, each once and in the order of their indices.
func zzjudge(out map[string][]string, vals []zzval, ask string) {
	for k, got := range out {
		n := 0
		for _, v := range vals {
			if v.key == k {
				n++
			}
		}
		nd.Assert(len(got) == n || ask == k && n == 0 && len(got) == 0, "no value is lost, duplicated or attributed to another key")
	}
	for i, v := range vals {
		if ask != "*" && v.key != ask {
			continue
		}
		// the values of the key in front of which v has to come
		lo, hi := 0, 0
		for j, o := range vals {
			if o.key != v.key || j == i {
				continue
			}
			if o.idx < v.idx {
				lo++
			}
			if o.idx <= v.idx {
				hi++
			}
		}
		got := out[v.key]
		hit := false
		for p := lo; p <= hi && p < len(got); p++ {
			hit = nd.Or(hit, got[p] == v.text)
		}
		nd.Assert(hit, "every value is found under its key at the place of its index")
	}
}

func zzclient(z rpc.NetAuth2Client) *Client {
	return &Client{rpc: z, log: hclog.NewNullLogger()}
}

// zzentry draws one entry.
func zzentry(z *zzum, bad bool, vlen int) zzval {
	k := nd.Choose("key", "k", "kk", "", "k{1}k")
	v := zzval{key: k, idx: -1}
	ann := ""
	if nd.Bool("indexed") {
		d := nd.Str("digits", 1, 2, "0123456789")
		v.idx = 0
		for j := 0; j < len(d); j++ {
			v.idx = v.idx*10 + int(d[j]-'0')
		}
		ann = "{" + d + "}"
	}
	if bad {
		z.list = append(z.list, k+ann)
		return v
	}
	v.text = nd.Str("val", 0, vlen, "a:{1}")
	z.list = append(z.list, k+ann+":"+v.text)
	return v
}

func zzread(z *zzum, ask string) map[string][]string {
	c := zzclient(z)
	var out map[string][]string
	var err error
	calls := 2
	if ask == "*" {
		calls = 3
	}
	switch nd.Pick("call", calls) {
	case 0:
		out, err = c.EntityUM(context.Background(), "e", "read", ask, "")
	case 1:
		out, err = c.GroupUM(context.Background(), "g", "READ", ask, "")
	case 2:
		out, err = c.EntityKeys(context.Background(), "e", "Read", ask, "")
	}
	nd.Assert(err == nil, "a read returns the values")
	nd.Reach("read")
	return out
}

//gosym:bounds up to 2 (thorough 3) entries over keys k, kk, k{1}k and the empty key, without index or with one of 1..2 symbolic decimal digits, values of 0..1 (thorough 2) symbolic bytes over the separators and braces; asked for all keys or one, with or without an index, of an entity's or a group's untyped metadata or public keys
//gosym:weight 3
func VP_F06_indexed() {
	max, vlen := 2, 1
	if nd.Thorough() {
		max, vlen = 3, 2
	}
	n := nd.Pick("n", max+1)
	z := &zzum{}
	var vals []zzval
	for i := 0; i < n; i++ {
		vals = append(vals, zzentry(z, false, vlen))
	}
	ask := nd.Choose("ask", "*", "k", "kk", "x", "k{1}k", "k{1}", "k{7}", "k{1}k{0}", "{2}", "")
	out := zzread(z, ask)
	// an index in the question does not matter
	if i := strings.LastIndex(ask, "{"); i >= 0 && ask[len(ask)-1] == '}' {
		nd.Assert(len(out) <= 1, "only the key asked for is returned")
		out = map[string][]string{ask[:i]: out[ask]}
		ask = ask[:i]
		nd.Reach("asked with an index")
	}
	zzjudge(out, vals, ask)
}

//gosym:bounds up to 3 (thorough 4) entries of one key, without index or with one of 1..2 symbolic decimal digits, with distinct values; asked for that key of an entity's untyped metadata
func VP_F06_order() {
	max := 3
	if nd.Thorough() {
		max = 4
	}
	z := &zzum{}
	var vals []zzval
	for i, n := 0, nd.Pick("n", max+1); i < n; i++ {
		v := zzval{key: "k", text: string(rune('a' + i)), idx: -1}
		ann := ""
		if nd.Bool("indexed") {
			d := nd.Str("digits", 1, 2, "0123456789")
			v.idx = 0
			for j := 0; j < len(d); j++ {
				v.idx = v.idx*10 + int(d[j]-'0')
			}
			ann = "{" + d + "}"
		}
		vals = append(vals, v)
		z.list = append(z.list, "k"+ann+":"+v.text)
	}
	out, err := zzclient(z).EntityUM(context.Background(), "e", "READ", "k", "")
	nd.Assert(err == nil, "a read returns the values")
	nd.Reach("read")
	zzjudge(out, vals, "k")
}

//gosym:bounds up to 2 (thorough 3) entries as above of which one has no separator
func VP_F06_malformed() {
	max := 2
	if nd.Thorough() {
		max = 3
	}
	n := 1 + nd.Pick("n", max)
	bad := nd.Pick("bad", n)
	z := &zzum{}
	var vals []zzval
	for i := 0; i < n; i++ {
		v := zzentry(z, i == bad, 1)
		if i != bad {
			vals = append(vals, v)
		}
	}
	out := zzread(z, "*")
	// what is made of an entry without a value is not specified, but it
	// must not hide others
	for _, v := range vals {
		hit := false
		for _, g := range out[v.key] {
			hit = nd.Or(hit, g == v.text)
		}
		nd.Assert(hit, "a malformed entry does not hide others")
	}
}

//gosym:bounds up to 2 records (keys k, x; repeated or not) with up to 3 (thorough 4) values under symbolic 32-bit indices (absent and negative included), value texts symbolic; entity or group
func VP_F06_records() {
	max := 3
	if nd.Thorough() {
		max = 4
	}
	z := &zzum{}
	var vals []zzval
	for _, k := range []string{"k", "x"} {
		d := &pb.KVData{Key: &k}
		key := k
		d.Key = &key
		n := nd.Pick("n", max+1)
		for i := 0; i < n; i++ {
			t := nd.Str("val", 0, 1, "ab")
			v := &pb.KVValue{Value: &t}
			idx := int32(0)
			if nd.Bool("indexed") {
				idx = nd.Int32("index")
				v.Index = &idx
			}
			vals = append(vals, zzval{key: key, text: t, idx: int(idx)})
			d.Values = append(d.Values, v)
		}
		if n > 0 {
			z.kvd = append(z.kvd, d)
		}
		max = 1
	}
	c := zzclient(z)
	var out map[string][]string
	var err error
	if nd.Bool("group") {
		out, err = c.GroupKVGet(context.Background(), "g", "k")
	} else {
		out, err = c.EntityKVGet(context.Background(), "e", "k")
	}
	nd.Assert(err == nil, "a read returns the values")
	nd.Reach("read")
	zzjudge(out, vals, "*")
}

//gosym:bounds up to 3 stored public keys of types SSH, S and PGP with texts that share their beginning, hold a colon, or look like annotations, read for one type given in any case, or for all
func VP_F06_types() {
	z := &zzum{}
	var vals []zzval
	for i, n := 0, nd.Pick("n", 4); i < n; i++ {
		v := zzval{key: nd.Choose("type", "SSH", "S", "PGP"), text: nd.Choose("text", "k", "k:k", "{1}", ":"), idx: -1}
		vals = append(vals, v)
		z.list = append(z.list, v.key+":"+v.text)
	}
	ask := nd.Choose("ask", "SSH", "ssh", "Ssh", "s", "S", "pgp", "*", "X", "")
	out, err := zzclient(z).EntityKeys(context.Background(), "e", []string{"READ", "read"}[nd.Pick("mode", 2)], ask, "")
	nd.Assert(err == nil, "a read returns the values")
	nd.Reach("read")
	if up := strings.ToUpper(ask); up != ask {
		out = map[string][]string{up: out[ask]}
		ask = up
	}
	zzjudge(out, vals, ask)
}

//gosym:bounds two values of one untyped key or public key type, or of one record, one of them after another the texts code could be tempted to trim, fold, cut or interpret, under indices of up to ten digits or none
func VP_F06_strange() {
	t := env.Strange[nd.Pick("text", len(env.Strange))]
	idx := []int{-1, 0, 9, 10, 99, 100, 1000, 65536, 2147483647}
	a, b := idx[nd.Pick("index", len(idx))], idx[nd.Pick("index", len(idx))]
	vals := []zzval{{key: "k", text: t, idx: a}, {key: "k", text: "v", idx: b}}
	z := &zzum{}
	for _, v := range vals {
		ann := ""
		if v.idx >= 0 {
			ann = fmt.Sprintf("{%d}", v.idx)
		}
		z.list = append(z.list, v.key+ann+":"+v.text)
	}
	zzjudge(zzread(z, "k"), vals, "k")
	d := &pb.KVData{Key: env.S("k")}
	for _, v := range vals {
		d.Values = append(d.Values, &pb.KVValue{Value: env.S(v.text), Index: env.I(int32(v.idx))})
	}
	z.kvd = append(z.kvd, d)
	out, err := zzclient(z).EntityKVGet(context.Background(), "e", "k")
	nd.Assert(err == nil, "a read returns the values")
	zzjudge(out, vals, "k")
}

//gosym:bounds 13 or 40 values of one key, stored in descending or another order of their indices, read as untyped metadata or as a record of an entity or group
func VP_F06_many() {
	n := []int{13, 40}[nd.Pick("n", 2)]
	step := []int{n - 1, 7, 3}[nd.Pick("order", 3)]
	z := &zzum{}
	d := &pb.KVData{Key: env.S("k")}
	var vals []zzval
	for i := 0; i < n; i++ {
		v := zzval{key: "k", idx: (i + 1) * step % n}
		v.text = fmt.Sprint("v", v.idx)
		vals = append(vals, v)
		z.list = append(z.list, fmt.Sprintf("k{%d}:%s", v.idx, v.text))
		d.Values = append(d.Values, &pb.KVValue{Value: env.S(v.text), Index: env.I(int32(v.idx))})
	}
	z.kvd = append(z.kvd, d)
	c := zzclient(z)
	zzjudge(zzread(z, "k"), vals, "k")
	var out map[string][]string
	var err error
	if nd.Bool("group") {
		out, err = c.GroupKVGet(context.Background(), "g", "k")
	} else {
		out, err = c.EntityKVGet(context.Background(), "e", "k")
	}
	nd.Assert(err == nil, "a read returns the values")
	zzjudge(out, vals, "k")
}
