package zzenv

import (
	"context"
	"strings"
	"time"

	"github.com/blevesearch/bleve"
	"github.com/blevesearch/bleve/mapping"
	"github.com/blevesearch/bleve/search"
	"github.com/blevesearch/bleve/search/query"
	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"
	"github.com/spf13/pflag"
	"github.com/spf13/viper"

	"github.com/netauth/netauth/internal/zzlog"
	nd "github.com/netauth/netauth/internal/zznd"

	pb "github.com/netauth/protocol"
)

// Functions marked gosym:replace stand in for library functions while the
// engine executes the code symbolically. Native replay uses the real ones.

// ---- viper ----

// made on first use: packages may set defaults before this one is initialised
var conf map[string]interface{}

func setConf(k string, v interface{}) {
	if conf == nil {
		conf = map[string]interface{}{}
	}
	conf[k] = v
	delete(confDefaults, k)
}

// SetConf sets a configuration value.
func SetConf(key string, v interface{}) {
	if nd.Symbolic() {
		setConf(key, v)
		return
	}
	viper.Set(key, v)
}

//gosym:replace github.com/spf13/viper.GetString
func viperGetString(k string) string {
	s, _ := conf[k].(string)
	return s
}

//gosym:replace github.com/spf13/viper.GetBool
func viperGetBool(k string) bool {
	b, _ := conf[k].(bool)
	return b
}

//gosym:replace github.com/spf13/viper.GetInt
func viperGetInt(k string) int {
	switch v := conf[k].(type) {
	case int:
		return v
	}
	return 0
}

//gosym:replace github.com/spf13/viper.GetDuration
func viperGetDuration(k string) time.Duration {
	switch v := conf[k].(type) {
	case time.Duration:
		return v
	case int:
		return time.Duration(v)
	}
	return 0
}

//gosym:replace github.com/spf13/viper.GetStringSlice
func viperGetStringSlice(k string) []string {
	s, _ := conf[k].([]string)
	return s
}

//gosym:replace github.com/spf13/viper.IsSet
func viperIsSet(k string) bool {
	_, ok := conf[k]
	return ok
}

//gosym:replace github.com/spf13/viper.Set
func viperSet(k string, v interface{}) { setConf(k, v) }

//gosym:replace github.com/spf13/viper.SetDefault
func viperSetDefault(k string, v interface{}) {
	if confDefaults == nil {
		confDefaults = map[string]bool{}
	}
	if _, ok := conf[k]; !ok || confDefaults[k] {
		setConf(k, v)
		confDefaults[k] = true
	}
}

// keys whose value is a default
var confDefaults map[string]bool

// subtrees of the configuration
var confSubs map[*viper.Viper]map[string]interface{}

//gosym:replace github.com/spf13/viper.Sub
func viperSub(k string) *viper.Viper {
	// defaults are only part of a sub-tree none of which is configured
	set, def := map[string]interface{}{}, map[string]interface{}{}
	for c, v := range conf {
		if strings.HasPrefix(c, k+".") {
			if confDefaults[c] {
				def[c[len(k)+1:]] = v
			} else {
				set[c[len(k)+1:]] = v
			}
		}
	}
	if len(set) == 0 {
		set = def
	}
	if len(set) == 0 {
		return nil
	}
	if confSubs == nil {
		confSubs = map[*viper.Viper]map[string]interface{}{}
	}
	v := new(viper.Viper)
	confSubs[v] = set
	return v
}

//gosym:replace (*github.com/spf13/viper.Viper).GetInt
func subGetInt(v *viper.Viper, k string) int {
	n, _ := confSubs[v][k].(int)
	return n
}

//gosym:replace (*github.com/spf13/viper.Viper).GetDuration
func subGetDuration(v *viper.Viper, k string) time.Duration {
	n, _ := confSubs[v][k].(time.Duration)
	return n
}

//gosym:replace (*github.com/spf13/viper.Viper).GetString
func subGetString(v *viper.Viper, k string) string {
	n, _ := confSubs[v][k].(string)
	return n
}

//gosym:replace (*github.com/spf13/viper.Viper).GetBool
func subGetBool(v *viper.Viper, k string) bool {
	n, _ := confSubs[v][k].(bool)
	return n
}

//gosym:replace github.com/spf13/viper.BindPFlag
func viperBindPFlag(k string, f *pflag.Flag) error { return nil }

//gosym:replace github.com/spf13/viper.BindPFlags
func viperBindPFlags(f *pflag.FlagSet) error { return nil }

//gosym:replace github.com/spf13/viper.ConfigFileUsed
func viperConfigFileUsed() string { return "" }

// ---- pflag ----

//gosym:replace github.com/spf13/pflag.Bool
func pflagBool(name string, v bool, usage string) *bool { return &v }

//gosym:replace github.com/spf13/pflag.String
func pflagString(name, v, usage string) *string { return &v }

//gosym:replace github.com/spf13/pflag.Int
func pflagInt(name string, v int, usage string) *int { return &v }

//gosym:replace github.com/spf13/pflag.Duration
func pflagDuration(name string, v time.Duration, usage string) *time.Duration { return &v }

//gosym:replace github.com/spf13/pflag.Parse
func pflagParse() {}

// ---- hclog ----

//gosym:replace github.com/hashicorp/go-hclog.L
func hclogL() hclog.Logger { return zzlog.New() }

//gosym:replace github.com/hashicorp/go-hclog.Default
func hclogDefault() hclog.Logger { return zzlog.New() }

//gosym:replace github.com/hashicorp/go-hclog.New
func hclogNew(o *hclog.LoggerOptions) hclog.Logger { return zzlog.New() }

//gosym:replace github.com/hashicorp/go-hclog.SetDefault
func hclogSetDefault(l hclog.Logger) hclog.Logger { return l }

// ---- grpc ----

//gosym:replace google.golang.org/grpc.Method
func grpcMethod(ctx context.Context) (string, bool) { return "", false }

// ---- bleve: an index that remembers which documents it holds ----

// the alias keeps the embedded field from being called Index, like the method
type bleveIface = bleve.Index

// memIndex is the set of documents given to the index. The query language is
// outside the model, apart from "*" and the field queries of field below; every
// other expression matches every document.
type memIndex struct {
	bleveIface
	m    *mapping.IndexMappingImpl
	ids  []string
	docs []interface{}
}

func (f *memIndex) find(id string) int {
	for i := range f.ids {
		if f.ids[i] == id {
			return i
		}
	}
	return -1
}

func (f *memIndex) SetName(string) {}

func (f *memIndex) Index(id string, data interface{}) error {
	if id == "" {
		return bleve.ErrorEmptyID
	}
	// the documents are analysed at once
	switch d := data.(type) {
	case *pb.Entity:
		data = proto.Clone(d)
	case *pb.Group:
		data = proto.Clone(d)
	default:
		panic("unknown document")
	}
	if i := f.find(id); i >= 0 {
		f.docs[i] = data
		return nil
	}
	f.ids = append(f.ids, id)
	f.docs = append(f.docs, data)
	return nil
}

func (f *memIndex) Delete(id string) error {
	i := f.find(id)
	if i < 0 {
		return nil
	}
	var n []string
	var d []interface{}
	for j := range f.ids {
		if j != i {
			n = append(n, f.ids[j])
			d = append(d, f.docs[j])
		}
	}
	f.ids, f.docs = n, d
	return nil
}

// field tells whether a document matches a query.
func (f *memIndex) field(q string, d interface{}) bool {
	if i := strings.IndexByte(q, ':'); i > 0 {
		v := ""
		switch d := d.(type) {
		case *pb.Entity:
			switch q[:i] {
			case "ID":
				v = d.GetID()
			case "meta.DisplayName":
				v = d.GetMeta().GetDisplayName()
			case "secret":
				if !f.indexed("secret") {
					return false
				}
				v = d.GetSecret()
			default:
				return true
			}
		case *pb.Group:
			switch q[:i] {
			case "Name":
				v = d.GetName()
			case "DisplayName":
				v = d.GetDisplayName()
			default:
				return true
			}
		}
		return v == q[i+1:]
	}
	return true
}

func (f *memIndex) Search(r *bleve.SearchRequest) (*bleve.SearchResult, error) {
	res := &bleve.SearchResult{}
	q, ok := r.Query.(*query.QueryStringQuery)
	for i, id := range f.ids {
		if ok && !f.field(q.Query, f.docs[i]) {
			continue
		}
		if len(res.Hits) < r.Size {
			res.Hits = append(res.Hits, &search.DocumentMatch{ID: id})
		}
	}
	return res, nil
}

//gosym:replace github.com/blevesearch/bleve.NewMemOnly
func bleveNewMemOnly(m mapping.IndexMapping) (bleve.Index, error) {
	im, _ := m.(*mapping.IndexMappingImpl)
	return &memIndex{m: im}, nil
}

//gosym:replace github.com/blevesearch/bleve.NewIndexMapping
func bleveNewIndexMapping() *mapping.IndexMappingImpl {
	return &mapping.IndexMappingImpl{TypeMapping: map[string]*mapping.DocumentMapping{}, DefaultMapping: bleveNewDocumentMapping()}
}

//gosym:replace github.com/blevesearch/bleve.NewDocumentMapping
func bleveNewDocumentMapping() *mapping.DocumentMapping {
	return &mapping.DocumentMapping{Enabled: true, Dynamic: true}
}

//gosym:replace github.com/blevesearch/bleve.NewDocumentDisabledMapping
func bleveNewDocumentDisabledMapping() *mapping.DocumentMapping { return &mapping.DocumentMapping{} }

//gosym:replace (*github.com/blevesearch/bleve/mapping.DocumentMapping).AddSubDocumentMapping
func bleveAddSub(dm *mapping.DocumentMapping, property string, sdm *mapping.DocumentMapping) {
	if dm.Properties == nil {
		dm.Properties = map[string]*mapping.DocumentMapping{}
	}
	dm.Properties[property] = sdm
}

//gosym:replace (*github.com/blevesearch/bleve/mapping.IndexMappingImpl).AddDocumentMapping
func bleveAddDoc(im *mapping.IndexMappingImpl, doctype string, dm *mapping.DocumentMapping) {
	im.TypeMapping[doctype] = dm
}

// indexed tells whether a property on the first level is analysed.
func (f *memIndex) indexed(property string) bool {
	if f.m == nil {
		return true
	}
	dm := f.m.TypeMapping["_default"]
	if dm == nil {
		dm = f.m.DefaultMapping
	}
	if !dm.Enabled {
		return false
	}
	if sub := dm.Properties[property]; sub != nil {
		return sub.Enabled
	}
	return dm.Dynamic
}

//gosym:replace github.com/blevesearch/bleve.NewQueryStringQuery
func bleveNewQSQ(q string) *query.QueryStringQuery { return &query.QueryStringQuery{Query: q} }

//gosym:replace github.com/blevesearch/bleve.NewSearchRequest
func bleveNewSR(q query.Query) *bleve.SearchRequest { return &bleve.SearchRequest{Query: q, Size: 10} }

//gosym:replace github.com/blevesearch/bleve.NewSearchRequestOptions
func bleveNewSRO(q query.Query, size, from int, explain bool) *bleve.SearchRequest {
	return &bleve.SearchRequest{Query: q, Size: size, From: from, Explain: explain}
}

// ---- time ----

// Now is the harness clock while executing symbolically.
var Now func() time.Time

//gosym:replace time.Now
func timeNow() time.Time {
	if Now != nil {
		return Now()
	}
	return time.Unix(1700000000, 0)
}

// ---- net/url ----

//gosym:replace net/url.PathEscape
func urlPathEscape(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9',
			c == '-', c == '_', c == '.', c == '~', c == '$', c == '&', c == '+', c == '=', c == ':', c == '@':
			out += s[i : i+1]
		case c == '/':
			out += "%2F"
		case c == '%':
			out += "%25"
		default:
			const hex = "0123456789ABCDEF"
			out += "%" + string(rune(hex[c>>4])) + string(rune(hex[c&15]))
		}
	}
	return out
}

// Sub without saturation: the harness clocks stay within 292 years.
//
//gosym:replace (time.Time).Sub
func timeSub(t, u time.Time) time.Duration {
	return time.Duration((t.Unix()-u.Unix())*1000000000 + int64(t.Nanosecond()-u.Nanosecond()))
}

//gosym:replace (time.Duration).String
func durationString(d time.Duration) string { return "duration" }
