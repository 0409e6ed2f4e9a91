package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value kinds:
//
//	*Term                booleans and integers
//	float64              floating point (concrete only)
//	string, *SymStr      strings (concrete length)
//	*Value               pointers (address of a cell), nil pointer = (*Value)(nil)
//	*SymPtr              pointer to slice[symbolic index] (loads only)
//	Struct, Array        aggregates
//	Slice                slices
//	*Map, *Chan, Iface, Tuple, *Closure, *ssa.Function, *ssa.Builtin
//	*Rec                 pseudo byte inside an encoded protobuf message
//	Poison               result of an initialiser that could not be run
type Value = interface{}

type Struct []Value
type Array []Value
type Tuple []Value
type Slice struct{ v []Value }

type SymStr struct{ b []Value } // *Term (w8) or *Rec

type SymPtr struct {
	base []Value
	idx  *Term
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	// bookkeeping of blocked goroutines
	sent, taken, waiting int
}

type Poison struct{ why string }

type mapEntry struct {
	k, v Value
	dead bool
}

type Map struct {
	ents []*mapEntry
	idx  map[interface{}]*mapEntry // concrete keys
	sym  int                       // live entries with keys that are not concretely indexable
	live int
	id   int
}

type mapIter struct {
	m     *Map
	order []*mapEntry
	pos   int
	str   Value // string iteration
	spos  int
	isStr bool
}

type unsafePtr struct{ p Value }

// ---- type canonicalisation ----

var (
	canonMu  sync.RWMutex
	canonMap typeutil.Map
	canonPtr = map[types.Type]types.Type{}
)

func canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	canonMu.RLock()
	c, ok := canonPtr[t]
	canonMu.RUnlock()
	if ok {
		return c
	}
	canonMu.Lock()
	defer canonMu.Unlock()
	u := types.Unalias(t)
	if x := canonMap.At(u); x != nil {
		c = x.(types.Type)
	} else {
		canonMap.Set(u, u)
		c = u
	}
	canonPtr[t] = c
	return c
}

// ---- integers ----

type intKind struct {
	w      uint8
	signed bool
}

func basicInt(t types.Type) (intKind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intKind{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intKind{64, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intKind{64, false}, true
	case types.Int32, types.UntypedRune:
		return intKind{32, true}, true
	case types.Uint32:
		return intKind{32, false}, true
	case types.Int16:
		return intKind{16, true}, true
	case types.Uint16:
		return intKind{16, false}, true
	case types.Int8:
		return intKind{8, true}, true
	case types.Uint8:
		return intKind{8, false}, true
	}
	return intKind{}, false
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

var nilPtr = (*Value)(nil)

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if k, ok := basicInt(u); ok {
			return mkConst(k.w, 0)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Kind() == types.UnsafePointer:
			return unsafePtr{nilPtr}
		case u.Kind() == types.UntypedNil:
			return nil
		}
		panic(unsup("zero of %v", t))
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return Slice{}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		if n > 1<<20 {
			panic(unsup("array of %d elements", n))
		}
		a := make(Array, n)
		if n > 0 {
			z := zero(u.Elem())
			switch z.(type) {
			case Struct, Array:
				for i := range a {
					a[i] = zero(u.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = zero(u.At(i).Type())
		}
		return tp
	}
	panic(unsup("zero of %T", t.Underlying()))
}

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i, e := range x {
			n[i] = copyVal(e)
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i, e := range x {
			n[i] = copyVal(e)
		}
		return n
	}
	return v
}

// storeInto writes v into cell p, keeping the identity of nested cells.
func storeInto(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if old, ok := (*p).(Struct); ok && len(old) == len(x) {
			if len(x) > 0 && &old[0] == &x[0] {
				return
			}
			tmp := copyVal(x).(Struct)
			for i := range tmp {
				storeInto(&old[i], tmp[i])
			}
			return
		}
		*p = copyVal(x)
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(x) {
			if len(x) > 0 && &old[0] == &x[0] {
				return
			}
			tmp := copyVal(x).(Array)
			for i := range tmp {
				storeInto(&old[i], tmp[i])
			}
			return
		}
		*p = copyVal(x)
	default:
		*p = v
	}
}

// ---- strings ----

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(unsup("strLen of %T", v))
}

func strAt(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return mkConst(8, uint64(s[i]))
	case *SymStr:
		return s.b[i]
	}
	panic(unsup("strAt of %T", v))
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return normStr(s.b[lo:hi])
	}
	panic(unsup("strSlice of %T", v))
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = mkConst(8, uint64(s[i]))
		}
		return r
	case *SymStr:
		return s.b
	}
	panic(unsup("strBytes of %T", v))
}

// normStr makes a string value of bytes, concrete where possible.
func normStr(b []Value) Value {
	for _, x := range b {
		t, ok := x.(*Term)
		if !ok || t.op != OpConst {
			return &SymStr{b: append([]Value(nil), b...)}
		}
	}
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x.(*Term).k)
	}
	return string(r)
}

func strConcat(a, b Value) Value {
	as, ok1 := a.(string)
	bs, ok2 := b.(string)
	if ok1 && ok2 {
		return as + bs
	}
	if ok1 && as == "" {
		return b
	}
	if ok2 && bs == "" {
		return a
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return &SymStr{b: r}
}

func (c *TermCtx) byteEq(x, y Value) *Term {
	tx, ok1 := x.(*Term)
	ty, ok2 := y.(*Term)
	if ok1 && ok2 {
		return c.Eq(tx, ty)
	}
	rx, ok3 := x.(*Rec)
	ry, ok4 := y.(*Rec)
	if ok3 && ok4 {
		return c.recEq(rx, ry)
	}
	return False
}

func (c *TermCtx) strEq(a, b Value) *Term {
	as, ok1 := a.(string)
	bs, ok2 := b.(string)
	if ok1 && ok2 {
		return mkBool(as == bs)
	}
	n := strLen(a)
	if n != strLen(b) {
		return False
	}
	r := True
	for i := 0; i < n && r != False; i++ {
		r = c.And(r, c.byteEq(strAt(a, i), strAt(b, i)))
	}
	return r
}

func (c *TermCtx) bytesEqAt(a []Value, b Value) *Term {
	r := True
	for i := 0; i < len(a) && r != False; i++ {
		r = c.And(r, c.byteEq(a[i], strAt(b, i)))
	}
	return r
}

func (c *TermCtx) strLess(a, b Value) *Term {
	as, ok1 := a.(string)
	bs, ok2 := b.(string)
	if ok1 && ok2 {
		return mkBool(as < bs)
	}
	la, lb := strLen(a), strLen(b)
	n := min(la, lb)
	r := mkBool(la < lb)
	for i := n - 1; i >= 0; i-- {
		x, ok := strAt(a, i).(*Term)
		y, ok2 := strAt(b, i).(*Term)
		if !ok || !ok2 {
			panic(unsup("ordering of encoded messages"))
		}
		r = c.Ite(c.Eq(x, y), r, c.Bin(OpUlt, x, y))
	}
	return r
}

// concrete key for map indexing; ok=false if v has symbolic parts.
func concKey(v Value) (interface{}, bool) {
	switch x := v.(type) {
	case *Term:
		if x.op == OpConst {
			return ckey{x.w, x.k}, true
		}
		return nil, false
	case string:
		return x, true
	case *Value:
		return x, true
	case float64:
		return x, true
	case *ssa.Function, *Chan:
		return x, true
	case Iface:
		if x.t == nil {
			return "\x00nil-iface", true
		}
		k, ok := concKey(x.v)
		if !ok {
			return nil, false
		}
		return struct {
			t types.Type
			k interface{}
		}{canon(x.t), k}, true
	case Struct:
		return aggKey("S", x)
	case Array:
		return aggKey("A", x)
	}
	return nil, false
}

func aggKey(tag string, xs []Value) (interface{}, bool) {
	var sb strings.Builder
	sb.WriteString(tag)
	for _, e := range xs {
		k, ok := concKey(e)
		if !ok {
			return nil, false
		}
		fmt.Fprintf(&sb, "|%T:%v", k, k)
	}
	return sb.String(), true
}

// ---- equality ----

func (c *TermCtx) eqVal(t types.Type, a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			panic(unsup("compare %T with %T", a, b))
		}
		return c.Eq(x, y)
	case string, *SymStr:
		return c.strEq(a, b)
	case float64:
		return mkBool(x == b.(float64))
	case *Value:
		switch y := b.(type) {
		case *Value:
			return mkBool(x == y)
		}
		return False
	case unsafePtr:
		return mkBool(x == b)
	case *Map:
		return mkBool(x == b.(*Map))
	case *Chan:
		return mkBool(x == b.(*Chan))
	case Slice:
		y := b.(Slice)
		if x.v == nil || y.v == nil {
			return mkBool(x.v == nil && y.v == nil)
		}
		panic(unsup("slice compare"))
	case *ssa.Function:
		if y, ok := b.(*ssa.Function); ok {
			return mkBool(x == y)
		}
		return False
	case *Closure:
		if y, ok := b.(*Closure); ok {
			return mkBool(x == y)
		}
		return False
	case *ssa.Builtin:
		return mkBool(a == b)
	case Struct:
		y := b.(Struct)
		st, _ := t.Underlying().(*types.Struct)
		r := True
		for i := range x {
			if r == False {
				break
			}
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
				if st.Field(i).Name() == "_" {
					continue
				}
			}
			r = c.And(r, c.eqVal(ft, x[i], y[i]))
		}
		return r
	case Array:
		y := b.(Array)
		var et types.Type
		if at, ok := t.Underlying().(*types.Array); ok {
			et = at.Elem()
		}
		r := True
		for i := range x {
			if r == False {
				break
			}
			r = c.And(r, c.eqVal(et, x[i], y[i]))
		}
		return r
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(unsup("compare iface with %T", b))
		}
		if x.t == nil || y.t == nil {
			return mkBool(x.t == nil && y.t == nil)
		}
		if canon(x.t) != canon(y.t) {
			return False
		}
		if !types.Comparable(x.t) {
			panic(runtimePanic("comparing uncomparable type " + x.t.String()))
		}
		return c.eqVal(x.t, x.v, y.v)
	case *Native:
		return mkBool(a == b)
	case nil:
		return mkBool(b == nil)
	}
	panic(unsup("equality on %T", a))
}

// Native wraps an engine-side object (for example a compiled regexp).
type Native struct{ x interface{} }

func (m *Map) length() int {
	if m == nil {
		return 0
	}
	return m.live
}
