package main

// Stand-in for the protobuf codec. An encoded message is a byte slice whose
// elements are field records (*Rec); decoding goes by field number and wire
// type. Real bytes are decoded with the real wire format when concrete.

import (
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Rec struct {
	num  int
	wt   int // 0 varint, 2 length delimited
	v    Value
	recs []Value // nested message
	msg  bool
}

func (c *TermCtx) recEq(a, b *Rec) *Term {
	if a == b {
		return True
	}
	if a.num != b.num || a.wt != b.wt || a.msg != b.msg {
		return False
	}
	if a.msg {
		if len(a.recs) != len(b.recs) {
			return False
		}
		r := True
		for i := range a.recs {
			r = c.And(r, c.byteEq(a.recs[i], b.recs[i]))
		}
		return r
	}
	switch x := a.v.(type) {
	case *Term:
		y, ok := b.v.(*Term)
		if !ok || x.w != y.w {
			return False
		}
		return c.Eq(x, y)
	}
	if _, ok := b.v.(*Term); ok {
		return False
	}
	return c.strEq(a.v, b.v)
}

type pfield struct {
	idx int
	num int
	wt  int
	rep bool
	req bool
	ft  types.Type
}

type pmsg struct {
	fields []pfield
	unrec  int
	st     *types.Struct
}

var pmsgCache = map[types.Type]*pmsg{}

func (ex *Exec) pdesc(t types.Type) *pmsg {
	k := canon(t)
	canonMu.RLock()
	d, ok := pmsgCache[k]
	canonMu.RUnlock()
	if ok {
		return d
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(unsup("protobuf message type %v", t))
	}
	d = &pmsg{unrec: -1, st: st}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == "XXX_unrecognized" {
			d.unrec = i
		}
		tag := reflect.StructTag(st.Tag(i)).Get("protobuf")
		if tag == "" {
			continue
		}
		parts := strings.Split(tag, ",")
		n, _ := strconv.Atoi(parts[1])
		pf := pfield{idx: i, num: n, ft: f.Type()}
		switch parts[0] {
		case "varint":
			pf.wt = 0
		case "bytes":
			pf.wt = 2
		default:
			panic(unsup("protobuf wire type %s", parts[0]))
		}
		pf.rep = parts[2] == "rep"
		pf.req = parts[2] == "req"
		d.fields = append(d.fields, pf)
	}
	canonMu.Lock()
	pmsgCache[k] = d
	canonMu.Unlock()
	return d
}

func isMsgPtr(t types.Type) (types.Type, bool) {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	if _, ok := p.Elem().Underlying().(*types.Struct); ok {
		return p.Elem(), true
	}
	return nil, false
}

func varintTerm(ex *Exec, v *Term, t types.Type) *Term {
	k, ok := basicInt(t)
	if !ok { // bool
		return ex.c.Ite(v, mkConst(64, 1), mkConst(64, 0))
	}
	return ex.c.Conv(v, 64, k.signed)
}

func varintBack(ex *Exec, v *Term, t types.Type) Value {
	k, ok := basicInt(t)
	if !ok {
		return ex.c.Not(ex.c.Eq(v, mkConst(64, 0)))
	}
	return ex.c.Conv(v, k.w, false)
}

func (ex *Exec) pencode(t types.Type, s Struct) (out []Value, reqErr bool) {
	d := ex.pdesc(t)
	out = []Value{}
	one := func(pf pfield, et types.Type, v Value) {
		if mt, ok := isMsgPtr(et); ok {
			p := v.(*Value)
			if p == nil {
				// nil element inside a repeated field: encoded as empty message
				_, e := ex.pencode(mt, zero(mt).(Struct))
				reqErr = reqErr || e
				out = append(out, &Rec{num: pf.num, wt: 2, msg: true})
				return
			}
			sub, e := ex.pencode(mt, (*p).(Struct))
			reqErr = reqErr || e
			out = append(out, &Rec{num: pf.num, wt: 2, recs: sub, msg: true})
			return
		}
		if pf.wt == 0 {
			out = append(out, &Rec{num: pf.num, wt: 0, v: varintTerm(ex, v.(*Term), et)})
			return
		}
		if sl, ok := v.(Slice); ok {
			out = append(out, &Rec{num: pf.num, wt: 2, v: normStr(sl.v)})
			return
		}
		out = append(out, &Rec{num: pf.num, wt: 2, v: v})
	}
	for _, pf := range d.fields {
		v := s[pf.idx]
		if pf.rep {
			sl := v.(Slice)
			et := pf.ft.Underlying().(*types.Slice).Elem()
			for _, e := range sl.v {
				one(pf, et, e)
			}
			continue
		}
		switch x := v.(type) {
		case *Value:
			if x == nil {
				if pf.req {
					reqErr = true
				}
				continue
			}
			if _, ok := isMsgPtr(pf.ft); ok {
				one(pf, pf.ft, x)
			} else {
				one(pf, pf.ft.Underlying().(*types.Pointer).Elem(), *x)
			}
		case Slice: // bytes
			if x.v != nil {
				one(pf, pf.ft, x)
			}
		default:
			panic(unsup("protobuf field of %T", v))
		}
	}
	if d.unrec >= 0 {
		out = append(out, s[d.unrec].(Slice).v...)
	}
	return out, reqErr
}

// toRecs turns plain concrete bytes into records.
func (ex *Exec) toRecs(b []Value) ([]Value, bool) {
	var out []Value
	i := 0
	bad := false
	plain := func() (byte, bool) {
		if i >= len(b) {
			return 0, false
		}
		t, ok := b[i].(*Term)
		if !ok {
			return 0, false
		}
		if t.op != OpConst {
			return byte(ex.concretize(t)), true
		}
		return byte(t.k), true
	}
	varint := func() uint64 {
		var r uint64
		for sh := uint(0); sh < 64; sh += 7 {
			c, ok := plain()
			if !ok {
				bad = true
				return 0
			}
			i++
			r |= uint64(c&0x7f) << sh
			if c < 0x80 {
				return r
			}
		}
		bad = true
		return 0
	}
	for i < len(b) {
		if r, ok := b[i].(*Rec); ok {
			out = append(out, r)
			i++
			continue
		}
		key := varint()
		if bad {
			return nil, false
		}
		num, wt := int(key>>3), int(key&7)
		if num == 0 {
			return nil, false
		}
		switch wt {
		case 0:
			v := varint()
			if bad {
				return nil, false
			}
			out = append(out, &Rec{num: num, wt: 0, v: mkConst(64, v)})
		case 2:
			n := varint()
			if bad || n > uint64(len(b)-i) {
				return nil, false
			}
			pl := b[i : i+int(n)]
			for _, x := range pl {
				if _, ok := x.(*Rec); ok {
					return nil, false
				}
			}
			i += int(n)
			out = append(out, &Rec{num: num, wt: 2, v: normStr(pl)})
		default:
			return nil, false
		}
	}
	return out, true
}

func (ex *Exec) pdecode(t types.Type, s Struct, b []Value) (ok bool) {
	d := ex.pdesc(t)
	recs, ok := ex.toRecs(b)
	if !ok {
		return false
	}
	byNum := map[int]*pfield{}
	for i := range d.fields {
		byNum[d.fields[i].num] = &d.fields[i]
	}
	good := true
	for _, rv := range recs {
		r := rv.(*Rec)
		pf := byNum[r.num]
		if pf == nil || pf.wt != r.wt {
			if pf != nil && pf.wt == 0 && r.wt == 2 && pf.rep {
				panic(unsup("packed varints"))
			}
			if d.unrec >= 0 {
				u := s[d.unrec].(Slice)
				s[d.unrec] = Slice{append(append([]Value{}, u.v...), r)}
			}
			continue
		}
		et := pf.ft
		if pf.rep {
			et = pf.ft.Underlying().(*types.Slice).Elem()
		}
		var val Value // element value (for pointers: the cell)
		if mt, isMsg := isMsgPtr(et); isMsg {
			sub := r.recs
			if !r.msg {
				// a string where a message is expected: parse its bytes
				sb := strBytes(r.v)
				allc := true
				for _, x := range sb {
					if tt, ok := x.(*Term); !ok || tt.op != OpConst {
						allc = false
					}
				}
				if !allc {
					panic(unsup("symbolic text decoded as a message"))
				}
				sub = sb
			}
			var cell *Value
			if !pf.rep {
				if c := s[pf.idx].(*Value); c != nil {
					cell = c
				}
			}
			if cell == nil {
				cell = new(Value)
				*cell = zero(mt)
			}
			if !ex.pdecode(mt, (*cell).(Struct), sub) {
				good = false
			}
			val = cell
		} else {
			var base types.Type = et
			isPtr := false
			if p, ok := et.Underlying().(*types.Pointer); ok {
				base, isPtr = p.Elem(), true
			}
			var x Value
			if r.wt == 0 {
				x = varintBack(ex, r.v.(*Term), base)
			} else if r.msg {
				// a nested message read as text: opaque but stable
				x = &SymStr{b: append([]Value{}, r.recs...)}
			} else {
				x = r.v
			}
			if _, isSl := base.Underlying().(*types.Slice); isSl {
				x = Slice{append([]Value{}, strBytes(x)...)}
			}
			if isPtr {
				c := new(Value)
				*c = x
				val = c
			} else {
				val = x
			}
		}
		if pf.rep {
			sl := s[pf.idx].(Slice)
			s[pf.idx] = Slice{append(append([]Value{}, sl.v...), val)}
		} else {
			s[pf.idx] = val
		}
	}
	for _, pf := range d.fields {
		if pf.req {
			if c, ok := s[pf.idx].(*Value); ok && c == nil {
				good = false
			}
		}
	}
	return good
}

func (ex *Exec) pmerge(t types.Type, dst, src Struct) {
	d := ex.pdesc(t)
	dup := func(et types.Type, v Value) Value {
		if mt, ok := isMsgPtr(et); ok {
			c := new(Value)
			*c = zero(mt)
			if p := v.(*Value); p != nil {
				ex.pmerge(mt, (*c).(Struct), (*p).(Struct))
			}
			return c
		}
		return copyVal(v)
	}
	for _, pf := range d.fields {
		v := src[pf.idx]
		if pf.rep {
			sl := v.(Slice)
			if len(sl.v) == 0 {
				continue
			}
			et := pf.ft.Underlying().(*types.Slice).Elem()
			old := dst[pf.idx].(Slice)
			n := append([]Value{}, old.v...)
			for _, e := range sl.v {
				n = append(n, dup(et, e))
			}
			dst[pf.idx] = Slice{n}
			continue
		}
		switch x := v.(type) {
		case *Value:
			if x == nil {
				continue
			}
			if mt, ok := isMsgPtr(pf.ft); ok {
				c := dst[pf.idx].(*Value)
				if c == nil {
					c = new(Value)
					*c = zero(mt)
					dst[pf.idx] = c
				}
				ex.pmerge(mt, (*c).(Struct), (*x).(Struct))
			} else {
				c := new(Value)
				*c = copyVal(*x)
				dst[pf.idx] = c
			}
		case Slice:
			if x.v != nil {
				dst[pf.idx] = Slice{append([]Value{}, x.v...)}
			}
		}
	}
	if d.unrec >= 0 {
		if u := src[d.unrec].(Slice); len(u.v) > 0 {
			o := dst[d.unrec].(Slice)
			dst[d.unrec] = Slice{append(append([]Value{}, o.v...), u.v...)}
		}
	}
}

func (ex *Exec) pequal(t types.Type, a, b Struct) *Term {
	x, _ := ex.pencode(t, a)
	y, _ := ex.pencode(t, b)
	if len(x) != len(y) {
		return False
	}
	r := True
	for i := range x {
		r = ex.c.And(r, ex.c.byteEq(x[i], y[i]))
	}
	return r
}

// msgOf unpacks an interface holding a message pointer.
func msgOf(v Value) (types.Type, *Value, bool) {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return nil, nil, false
	}
	mt, ok := isMsgPtr(i.t)
	if !ok {
		return nil, nil, false
	}
	p, ok := i.v.(*Value)
	return mt, p, ok
}

func init() {
	for _, pk := range []string{"github.com/golang/protobuf/proto", "google.golang.org/protobuf/proto"} {
		v1 := pk == "github.com/golang/protobuf/proto"
		intrinsics[pk+".Marshal"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []Value) Value {
			mt, p, ok := msgOf(args[0])
			if !ok || p == nil {
				if v1 || !ok {
					return Tuple{Slice{}, ex.mkError("proto: Marshal called with nil")}
				}
				return Tuple{Slice{}, Iface{}}
			}
			out, req := ex.pencode(mt, (*p).(Struct))
			if req {
				return Tuple{Slice{out}, ex.mkError("proto: required field not set")}
			}
			return Tuple{Slice{out}, Iface{}}
		}
		intrinsics[pk+".Unmarshal"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []Value) Value {
			mt, p, ok := msgOf(args[1])
			if !ok || p == nil {
				panic(unsup("Unmarshal into %v", args[1]))
			}
			*p = zero(mt)
			if !ex.pdecode(mt, (*p).(Struct), args[0].(Slice).v) {
				return ex.mkError("proto: cannot parse invalid wire-format data")
			}
			return Iface{}
		}
		intrinsics[pk+".Merge"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []Value) Value {
			mt, d, ok := msgOf(args[0])
			st, s, ok2 := msgOf(args[1])
			if !ok || !ok2 {
				panic(unsup("Merge"))
			}
			if d == nil {
				panic(&goPanic{rt: "proto: nil destination"})
			}
			if canon(mt) != canon(st) {
				panic(&goPanic{rt: "proto: type mismatch"})
			}
			if s == nil {
				return nil
			}
			ex.pmerge(mt, (*d).(Struct), (*s).(Struct))
			return nil
		}
		intrinsics[pk+".Clone"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []Value) Value {
			mt, s, ok := msgOf(args[0])
			if !ok {
				return args[0]
			}
			if s == nil {
				return args[0]
			}
			if len(ex.pdesc(mt).fields) == 0 || hasOddFields(mt) {
				c := new(Value)
				*c = copyVal(*s)
				return Iface{args[0].(Iface).t, c}
			}
			c := new(Value)
			*c = zero(mt)
			ex.pmerge(mt, (*c).(Struct), (*s).(Struct))
			return Iface{args[0].(Iface).t, c}
		}
		intrinsics[pk+".Equal"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []Value) Value {
			mt, a, ok := msgOf(args[0])
			mt2, b, ok2 := msgOf(args[1])
			if !ok || !ok2 {
				return mkBool(!ok && !ok2)
			}
			if canon(mt) != canon(mt2) {
				return False
			}
			if a == nil || b == nil {
				return mkBool(a == nil && b == nil)
			}
			return ex.pequal(mt, (*a).(Struct), (*b).(Struct))
		}
		intrinsics[pk+".Reset"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []Value) Value {
			mt, a, ok := msgOf(args[0])
			if ok && a != nil {
				*a = zero(mt)
			}
			return nil
		}
		intrinsics[pk+".Size"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []Value) Value {
			mt, a, ok := msgOf(args[0])
			if !ok || a == nil {
				return mkConst(64, 0)
			}
			o, _ := ex.pencode(mt, (*a).(Struct))
			return ex.recsSize(o)
		}
		for _, n := range []string{"String", "Int32", "Int64", "Uint32", "Uint64", "Bool", "Int", "Float64", "Float32"} {
			intrinsics[pk+"."+n] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []Value) Value {
				c := new(Value)
				*c = args[0]
				if fn.Name() == "Int" {
					*c = ex.c.Conv(args[0].(*Term), 32, true)
				}
				return c
			}
		}
		intrinsics[pk+".EnumName"] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []Value) Value {
			m := args[0].(*Map)
			t := args[1].(*Term)
			e := ex.mapFind(m, t, types.Typ[types.Int32])
			if e != nil {
				return e.v
			}
			return strconv.FormatInt(sx(ex.concretize(t), 32), 10)
		}
		for _, n := range []string{"CompactTextString", "MarshalTextString"} {
			intrinsics[pk+"."+n] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []Value) Value {
				i := args[0].(Iface)
				p, ok := i.v.(*Value)
				if !ok || p == nil {
					return "<nil>"
				}
				mt, ok := isMsgPtr(i.t)
				if !ok {
					return "<message>"
				}
				return ex.ptext(mt, (*p).(Struct))
			}
		}
		for _, n := range []string{"RegisterType", "RegisterEnum", "RegisterFile", "RegisterMapType", "SetDefaults"} {
			intrinsics[pk+"."+n] = func(ex *Exec, fr *Frame, fn *ssa.Function, args []Value) Value { return nil }
		}
	}
}

// recsSize is the length of the wire format of encoded elements.
func (ex *Exec) recsSize(recs []Value) *Term {
	c := ex.c
	varint := func(v *Term) *Term {
		n := mkConst(64, 10)
		for k := 9; k >= 1; k-- {
			n = c.Ite(c.Bin(OpUlt, v, mkConst(64, uint64(1)<<uint(7*k))), mkConst(64, uint64(k)), n)
		}
		return n
	}
	sum := mkConst(64, 0)
	for _, x := range recs {
		r, ok := x.(*Rec)
		if !ok {
			sum = c.Bin(OpAdd, sum, mkConst(64, 1))
			continue
		}
		n := varint(mkConst(64, uint64(r.num)<<3))
		switch {
		case r.msg:
			l := ex.recsSize(r.recs)
			n = c.Bin(OpAdd, n, c.Bin(OpAdd, varint(l), l))
		case r.wt == 0:
			n = c.Bin(OpAdd, n, varint(r.v.(*Term)))
		default:
			l := mkConst(64, uint64(strLen(r.v)))
			n = c.Bin(OpAdd, n, c.Bin(OpAdd, varint(l), l))
		}
		sum = c.Bin(OpAdd, sum, n)
	}
	return sum
}

// recsContain tells whether a text occurs in the encoded elements: in a run
// of plain bytes or in a text of a record at any depth.
func (ex *Exec) recsContain(els []Value, sub Value) *Term {
	m := strLen(sub)
	r := mkBool(m == 0)
	var run []Value
	flush := func() {
		for i := 0; i+m <= len(run); i++ {
			r = ex.c.Or(r, ex.c.bytesEqAt(run[i:i+m], sub))
		}
		run = nil
	}
	for _, x := range els {
		rec, ok := x.(*Rec)
		if !ok {
			run = append(run, x)
			continue
		}
		flush()
		switch {
		case rec.msg:
			r = ex.c.Or(r, ex.recsContain(rec.recs, sub))
		case rec.wt != 0:
			r = ex.c.Or(r, ex.recsContain(strBytes(rec.v), sub))
		}
	}
	flush()
	return r
}

func hasRecs(b []Value) bool {
	for _, x := range b {
		if _, ok := x.(*Rec); ok {
			return true
		}
	}
	return false
}

func hasOddFields(t types.Type) bool {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "sizeCache" {
			return true
		}
	}
	return false
}

// ptext is the text form of a message; numbers that are not fixed are left
// out, as are the escapes of text that is not.
func (ex *Exec) ptext(t types.Type, s Struct) Value {
	d := ex.pdesc(t)
	var out Value = ""
	one := func(pf pfield, et types.Type, v Value) {
		if out != Value("") {
			out = strConcat(out, " ")
		}
		out = strConcat(out, d.st.Field(pf.idx).Name()+":")
		if mt, ok := isMsgPtr(et); ok {
			out = strConcat(out, "<")
			if p := v.(*Value); p != nil {
				out = strConcat(out, ex.ptext(mt, (*p).(Struct)))
			}
			out = strConcat(out, ">")
			return
		}
		switch x := v.(type) {
		case *Term:
			switch {
			case x == True:
				out = strConcat(out, "true")
			case x == False:
				out = strConcat(out, "false")
			case x.w > 0 && x.op == OpConst:
				out = strConcat(out, strconv.FormatInt(sx(x.k, x.w), 10))
			}
			return
		case Slice:
			v = normStr(x.v)
		}
		if cs, ok := v.(string); ok {
			v = strconv.Quote(cs)
		} else {
			v = strConcat(strConcat("\"", v), "\"")
		}
		out = strConcat(out, v)
	}
	for _, pf := range d.fields {
		v := s[pf.idx]
		if pf.rep {
			et := pf.ft.Underlying().(*types.Slice).Elem()
			for _, e := range v.(Slice).v {
				one(pf, et, e)
			}
			continue
		}
		switch x := v.(type) {
		case *Value:
			if x == nil {
				continue
			}
			if _, ok := isMsgPtr(pf.ft); ok {
				one(pf, pf.ft, x)
			} else {
				one(pf, pf.ft.Underlying().(*types.Pointer).Elem(), *x)
			}
		case Slice:
			if x.v != nil {
				one(pf, pf.ft, x)
			}
		}
	}
	return out
}
