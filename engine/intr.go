package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsicFn{}

// values of variables in packages that are not interpreted
var globalStandins = map[string]func(ex *Exec, g *ssa.Global) Value{
	"os.Stdin":  anyFile,
	"os.Stdout": anyFile,
	"os.Stderr": anyFile,
}

// anyFile is a file that can be passed around, but not used.
func anyFile(ex *Exec, g *ssa.Global) Value {
	p := new(Value)
	*p = Poison{"variable of an uninterpreted package: " + g.String()}
	return p
}

type lockState struct {
	w       int // writing thread, 0 if none
	readers map[int]int
}

func (ex *Exec) lockOf(p Value) *lockState {
	c, ok := p.(*Value)
	if !ok || c == nil {
		panic(nilDeref())
	}
	l := ex.locks[c]
	if l == nil {
		l = &lockState{readers: map[int]int{}}
		ex.locks[c] = l
	}
	return l
}

func (l *lockState) nreaders() int {
	n := 0
	for _, k := range l.readers {
		n += k
	}
	return n
}

func (ex *Exec) blocked(self bool, what string) {
	if self {
		if ex.pos >= len(ex.prefix) {
			ex.report("deadlock", "deadlock", what+" is already held by the same operation", ex.model)
		}
		panic(&pathEnd{"deadlock"})
	}
	// the other thread holds it: this interleaving cannot happen here
	panic(&pathEnd{"infeasible"})
}

func (ex *Exec) lockW(p Value) {
	l := ex.lockOf(p)
	if (l.w != 0 || l.nreaders() > 0) && ex.ncoro > 0 && ex.block(func() bool { return l.w == 0 && l.nreaders() == 0 }) {
		l.w = ex.thread
		return
	}
	if l.w != 0 {
		ex.blocked(l.w == ex.thread, "mutex")
	}
	if l.nreaders() > 0 {
		ex.blocked(l.nreaders() == l.readers[ex.thread], "rwmutex (reader)")
	}
	l.w = ex.thread
	if ex.acc != nil {
		ex.acc.lock(p.(*Value), true)
	}
}

func (ex *Exec) unlockW(p Value) {
	l := ex.lockOf(p)
	if l.w == 0 {
		panic(&goPanic{rt: "fatal error: sync: unlock of unlocked mutex"})
	}
	l.w = 0
	if ex.acc != nil {
		ex.acc.unlock(p.(*Value))
	}
}

func (ex *Exec) lockR(p Value) {
	l := ex.lockOf(p)
	if l.w != 0 && ex.ncoro > 0 {
		ex.block(func() bool { return l.w == 0 })
	}
	if l.w != 0 {
		ex.blocked(l.w == ex.thread, "rwmutex (writer)")
	}
	l.readers[ex.thread]++
	if ex.acc != nil {
		ex.acc.lock(p.(*Value), false)
	}
}

func (ex *Exec) unlockR(p Value) {
	l := ex.lockOf(p)
	if l.readers[ex.thread] == 0 {
		if l.nreaders() == 0 {
			panic(&goPanic{rt: "fatal error: sync: RUnlock of unlocked RWMutex"})
		}
	} else {
		l.readers[ex.thread]--
	}
	if ex.acc != nil {
		ex.acc.unlock(p.(*Value))
	}
}

func (ex *Exec) mkError(msg Value) Value {
	fn := ex.R.lookupFunc("errors", "New")
	if fn == nil {
		panic(unsup("errors.New not loaded"))
	}
	return ex.callFn(nil, fn, []Value{msg}, nil)
}

func (ex *Exec) invokeNamed(fr *Frame, i Iface, name string, args ...Value) (Value, bool) {
	fn := ex.R.methodByName(i.t, name)
	if fn == nil {
		return nil, false
	}
	return ex.callFn(fr, fn, append([]Value{i.v}, args...), nil), true
}

func nop(ex *Exec, fr *Frame, fn *ssa.Function, args []Value) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return zero(res.At(0).Type())
	}
	return zero(res)
}

func (ex *Exec) nativeMethod(i Iface, name string) *nativeFn { return nil }

func symIdx(ex *Exec, s Value, sub Value, from int) int {
	n, m := strLen(s), strLen(sub)
	if cs, ok := s.(string); ok {
		if cb, ok := sub.(string); ok {
			r := strings.Index(cs[from:], cb)
			if r < 0 {
				return -1
			}
			return r + from
		}
	}
	sb := strBytes(s)
	if hasRecs(sb) {
		panic(unsup("index into an encoded message"))
	}
	for i := from; i+m <= n; i++ {
		if ex.branch(ex.c.bytesEqAt(sb[i:i+m], sub)) {
			return i
		}
	}
	return -1
}

func intV(i int) Value { return mkConst(64, uint64(int64(i))) }

func mapASCII(ex *Exec, v Value, upper bool) (Value, bool) {
	b := strBytes(v)
	for _, x := range b {
		t, ok := x.(*Term)
		if !ok {
			return nil, false
		}
		if !ex.branch(ex.c.Bin(OpUlt, t, mkConst(8, 0x80))) {
			return nil, false
		}
	}
	out := make([]Value, len(b))
	lo, hi, d := uint64('a'), uint64('z'), uint64(0xE0) // -32
	if !upper {
		lo, hi, d = 'A', 'Z', 32
	}
	for i, x := range b {
		t := x.(*Term)
		in := ex.c.And(ex.c.Bin(OpUle, mkConst(8, lo), t), ex.c.Bin(OpUle, t, mkConst(8, hi)))
		out[i] = ex.c.Ite(in, ex.c.Bin(OpAdd, t, mkConst(8, d)), t)
	}
	return normStr(out), true
}

func sliceStr(v Value) Value { return normStr(v.(Slice).v) }

func init() {
	I := intrinsics
	// ---- sync ----
	I["(*sync.Mutex).Lock"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value { ex.lockW(a[0]); return nil }
	I["(*sync.Mutex).Unlock"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value { ex.unlockW(a[0]); return nil }
	I["(*sync.Mutex).TryLock"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		l := ex.lockOf(a[0])
		if l.w != 0 {
			return False
		}
		ex.lockW(a[0])
		return True
	}
	I["(*sync.RWMutex).Lock"] = I["(*sync.Mutex).Lock"]
	I["(*sync.RWMutex).Unlock"] = I["(*sync.Mutex).Unlock"]
	I["(*sync.RWMutex).RLock"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value { ex.lockR(a[0]); return nil }
	I["(*sync.RWMutex).RUnlock"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value { ex.unlockR(a[0]); return nil }
	I["(*sync.Once).Do"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := a[0].(*Value)
		if c == nil {
			panic(nilDeref())
		}
		s, ok := (*c).(Struct)
		if ok && len(s) > 0 {
			// use an engine-side marker tied to the cell
			if ex.onceDone[c] {
				return nil
			}
			ex.onceDone[c] = true
		}
		ex.call(fr, a[1], nil)
		return nil
	}
	I["(*sync.Pool).Get"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := (*a[0].(*Value)).(Struct)
		nf := s[len(s)-1]
		if f, ok := nf.(*ssa.Function); ok && f == nil {
			return Iface{}
		}
		return ex.call(fr, nf, nil)
	}
	I["(*sync.Pool).Put"] = nop
	wgIntr(I)
	I["sync.runtime_registerPoolCleanup"] = nop

	// sync.Map as an ordinary map kept beside the cell
	smap := func(ex *Exec, a Value) *Map {
		c := a.(*Value)
		k := fmt.Sprintf("syncmap:%p", c)
		m, ok := ex.files[k].(*Map)
		if !ok {
			m = ex.newMap()
			ex.files[k] = m
		}
		return m
	}
	anyT := types.NewInterfaceType(nil, nil)
	I["(*sync.Map).Load"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		v, ok := ex.mapGet(smap(ex, a[0]), a[1], anyT)
		if !ok {
			v = Iface{}
		}
		return Tuple{v, mkBool(ok)}
	}
	I["(*sync.Map).Store"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		ex.mapSet(smap(ex, a[0]), a[1], a[2], anyT)
		return nil
	}
	I["(*sync.Map).Delete"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		ex.mapDel(smap(ex, a[0]), a[1], anyT)
		return nil
	}
	I["(*sync.Map).LoadOrStore"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		m := smap(ex, a[0])
		if v, ok := ex.mapGet(m, a[1], anyT); ok {
			return Tuple{v, True}
		}
		ex.mapSet(m, a[1], a[2], anyT)
		return Tuple{a[2], False}
	}
	I["(*sync.Map).LoadAndDelete"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		m := smap(ex, a[0])
		v, ok := ex.mapGet(m, a[1], anyT)
		if !ok {
			return Tuple{Iface{}, False}
		}
		ex.mapDel(m, a[1], anyT)
		return Tuple{v, True}
	}
	I["(*sync.Map).Range"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		for _, e := range ex.iterOrder(smap(ex, a[0]).ents) {
			if e.dead {
				continue
			}
			if !ex.branch(ex.call(fr, a[1], []Value{e.k, e.v}).(*Term)) {
				break
			}
		}
		return nil
	}

	// ---- sync/atomic ----
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		I["sync/atomic.Load"+ty] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
			acc := ex.acc
			ex.acc = nil
			v := fr.load(a[0])
			ex.acc = acc
			return v
		}
		I["sync/atomic.Store"+ty] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
			acc := ex.acc
			ex.acc = nil
			fr.store(a[0], a[1])
			ex.acc = acc
			return nil
		}
		I["sync/atomic.Add"+ty] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
			acc := ex.acc
			ex.acc = nil
			v := ex.c.Bin(OpAdd, fr.load(a[0]).(*Term), a[1].(*Term))
			fr.store(a[0], v)
			ex.acc = acc
			return v
		}
		I["sync/atomic.Swap"+ty] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
			acc := ex.acc
			ex.acc = nil
			v := fr.load(a[0])
			fr.store(a[0], a[1])
			ex.acc = acc
			return v
		}
		I["sync/atomic.CompareAndSwap"+ty] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
			acc := ex.acc
			ex.acc = nil
			defer func() { ex.acc = acc }()
			v := fr.load(a[0])
			if ex.branch(ex.c.eqVal(nil, v, a[1])) {
				fr.store(a[0], a[2])
				return True
			}
			return False
		}
	}
	ap := "(*sync/atomic.Pointer[T])."
	ptrCell := func(a Value) *Value {
		c, ok := a.(*Value)
		if !ok || c == nil {
			panic(nilDeref())
		}
		s := (*c).(Struct)
		return &s[len(s)-1]
	}
	unw := func(v Value) Value {
		if u, ok := v.(unsafePtr); ok {
			if u.p == nil {
				return nilPtr
			}
			return u.p
		}
		return v
	}
	I[ap+"Load"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value { return unw(*ptrCell(a[0])) }
	I[ap+"Store"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		*ptrCell(a[0]) = a[1]
		return nil
	}
	I[ap+"Swap"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := ptrCell(a[0])
		o := unw(*c)
		*c = a[1]
		return o
	}
	I[ap+"CompareAndSwap"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := ptrCell(a[0])
		if unw(*c) == a[1] {
			*c = a[2]
			return True
		}
		return False
	}
	I["(*sync/atomic.Value).Load"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := (*a[0].(*Value)).(Struct)
		return s[0]
	}
	I["(*sync/atomic.Value).Store"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := (*a[0].(*Value)).(Struct)
		s[0] = a[1]
		return nil
	}

	// ---- bytealg ----
	idxByte := func(ex *Exec, b []Value, c Value) Value {
		ct := c.(*Term)
		for i, x := range b {
			t, ok := x.(*Term)
			if !ok {
				continue
			}
			if ex.branch(ex.c.Eq(t, ct)) {
				return intV(i)
			}
		}
		return intV(-1)
	}
	I["internal/bytealg.IndexByteString"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			if t := a[1].(*Term); t.op == OpConst {
				return intV(strings.IndexByte(s, byte(t.k)))
			}
		}
		return idxByte(ex, strBytes(a[0]), a[1])
	}
	I["internal/bytealg.IndexByte"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		return idxByte(ex, a[0].(Slice).v, a[1])
	}
	I["internal/bytealg.CountString"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, x := range strBytes(a[0]) {
			if ex.branch(ex.c.Eq(x.(*Term), a[1].(*Term))) {
				n++
			}
		}
		return intV(n)
	}
	I["internal/bytealg.Count"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, x := range a[0].(Slice).v {
			if t, ok := x.(*Term); ok && ex.branch(ex.c.Eq(t, a[1].(*Term))) {
				n++
			}
		}
		return intV(n)
	}
	I["internal/bytealg.LastIndexByteString"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		b := strBytes(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if ex.branch(ex.c.Eq(b[i].(*Term), a[1].(*Term))) {
				return intV(i)
			}
		}
		return intV(-1)
	}
	I["internal/bytealg.IndexString"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		return intV(symIdx(ex, a[0], a[1], 0))
	}
	I["internal/bytealg.Equal"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		return ex.c.strEq(sliceStr(a[0]), sliceStr(a[1]))
	}
	I["internal/bytealg.CompareString"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		lt, eq := ex.c.strLess(a[0], a[1]), ex.c.strEq(a[0], a[1])
		return ex.c.Ite(eq, mkConst(64, 0), ex.c.Ite(lt, mkConst(64, ^uint64(0)), mkConst(64, 1)))
	}
	I["runtime.cmpstring"] = I["internal/bytealg.CompareString"]
	I["internal/bytealg.Compare"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		x, y := sliceStr(a[0]), sliceStr(a[1])
		lt, eq := ex.c.strLess(x, y), ex.c.strEq(x, y)
		return ex.c.Ite(eq, mkConst(64, 0), ex.c.Ite(lt, mkConst(64, ^uint64(0)), mkConst(64, 1)))
	}
	I["bytes.Equal"] = I["internal/bytealg.Equal"]
	I["internal/bytealg.MakeNoZero"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := ex.concInt(a[0], "length")
		v := make([]Value, n)
		for i := range v {
			v[i] = mkConst(8, 0)
		}
		return Slice{v}
	}
	I["strings.Clone"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value { return a[0] }
	I["internal/stringslite.Clone"] = I["strings.Clone"]
	I["(*strings.Builder).copyCheck"] = nop
	I["strings.Index"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		return intV(symIdx(ex, a[0], a[1], 0))
	}
	I["strings.Contains"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		n, m := strLen(a[0]), strLen(a[1])
		if cs, ok := a[0].(string); ok {
			if cb, ok := a[1].(string); ok {
				return mkBool(strings.Contains(cs, cb))
			}
		}
		sb := strBytes(a[0])
		if hasRecs(sb) {
			return ex.recsContain(sb, a[1])
		}
		r := False
		for i := 0; i+m <= n; i++ {
			r = ex.c.Or(r, ex.c.bytesEqAt(sb[i:i+m], a[1]))
		}
		return r
	}
	I["strings.HasPrefix"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		if strLen(a[0]) < strLen(a[1]) {
			return False
		}
		return ex.c.strEq(strSlice(a[0], 0, strLen(a[1])), a[1])
	}
	I["strings.HasSuffix"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		n, m := strLen(a[0]), strLen(a[1])
		if n < m {
			return False
		}
		return ex.c.strEq(strSlice(a[0], n-m, n), a[1])
	}
	I["internal/stringslite.HasPrefix"] = I["strings.HasPrefix"]
	I["internal/stringslite.HasSuffix"] = I["strings.HasSuffix"]
	I["internal/stringslite.Index"] = I["strings.Index"]
	I["strings.ToUpper"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return strings.ToUpper(s)
		}
		if v, ok := mapASCII(ex, a[0], true); ok {
			return v
		}
		panic(unsup("ToUpper of non-ASCII symbolic text"))
	}
	I["strings.ToLower"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return strings.ToLower(s)
		}
		if v, ok := mapASCII(ex, a[0], false); ok {
			return v
		}
		panic(unsup("ToLower of non-ASCII symbolic text"))
	}
	I["strings.EqualFold"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		x, y := a[0], a[1]
		if xs, ok := x.(string); ok {
			if ys, ok := y.(string); ok {
				return mkBool(strings.EqualFold(xs, ys))
			}
		}
		ux, ok1 := mapASCII(ex, x, true)
		uy, ok2 := mapASCII(ex, y, true)
		if !ok1 || !ok2 {
			panic(unsup("EqualFold of non-ASCII symbolic text"))
		}
		return ex.c.strEq(ux, uy)
	}

	// ---- strconv ----
	I["strconv.Itoa"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		return strconv.Itoa(ex.concInt(a[0], "Itoa"))
	}
	I["strconv.FormatInt"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		return strconv.FormatInt(int64(ex.concInt(a[0], "FormatInt")), ex.concInt(a[1], "base"))
	}
	I["strconv.FormatUint"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		return strconv.FormatUint(uint64(ex.concInt(a[0], "FormatUint")), ex.concInt(a[1], "base"))
	}
	I["strconv.FormatBool"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		return strconv.FormatBool(ex.branch(a[0].(*Term)))
	}
	I["strconv.Quote"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return strconv.Quote(s)
		}
		return strConcat(strConcat("\"", a[0]), "\"")
	}

	// ---- sort ----
	sortSlice := func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		s, ok := i.v.(Slice)
		if !ok {
			panic(unsup("sort.Slice of %T", i.v))
		}
		less := func(x, y int) bool {
			return ex.branch(ex.call(fr, a[1], []Value{intV(x), intV(y)}).(*Term))
		}
		for x := 1; x < len(s.v); x++ {
			for y := x; y > 0 && less(y, y-1); y-- {
				if ex.acc != nil {
					ex.acc.access(ex, fr, &s.v[y], true)
					ex.acc.access(ex, fr, &s.v[y-1], true)
				}
				t := copyVal(s.v[y])
				storeInto(&s.v[y], s.v[y-1])
				storeInto(&s.v[y-1], t)
			}
		}
		return nil
	}
	I["sort.Slice"] = sortSlice
	I["sort.SliceStable"] = sortSlice
	sortStrings := func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := a[0].(Slice)
		conc := true
		for _, v := range s.v {
			if _, ok := v.(string); !ok {
				conc = false
			}
		}
		if ex.acc != nil {
			for i := range s.v {
				ex.acc.access(ex, fr, &s.v[i], true)
			}
		}
		if conc {
			sort.Slice(s.v, func(i, j int) bool { return s.v[i].(string) < s.v[j].(string) })
			return nil
		}
		for x := 1; x < len(s.v); x++ {
			for y := x; y > 0 && ex.branch(ex.c.strLess(s.v[y], s.v[y-1])); y-- {
				s.v[y], s.v[y-1] = s.v[y-1], s.v[y]
			}
		}
		return nil
	}
	I["sort.Strings"] = sortStrings

	// ---- os / runtime / misc ----
	I["os.Exit"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value { panic(&pathEnd{"exit"}) }
	I["os.Getenv"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value { return "" }
	I["runtime.Gosched"] = nop
	I["runtime.GC"] = nop
	I["runtime.KeepAlive"] = nop
	I["runtime.SetFinalizer"] = nop
	I["time.Sleep"] = nop
	I["(runtime.errorString).Error"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		return strConcat("runtime error: ", a[0])
	}
	I["(runtime.errorString).RuntimeError"] = nop
	I["internal/godebug.New"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := new(Value)
		*c = zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		return c
	}
	I["(*internal/godebug.Setting).Value"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value { return "" }
	I["(*internal/godebug.Setting).IncNonDefault"] = nop
	I["internal/race.Acquire"] = nop
	I["internal/race.Release"] = nop

	// ---- errors ----
	I["errors.Is"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkBool(ex.errorsIs(fr, a[0].(Iface), a[1].(Iface)))
	}
	I["errors.As"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		err := a[0].(Iface)
		tgt := a[1].(Iface)
		if tgt.t == nil {
			panic(&goPanic{rt: "errors: target cannot be nil"})
		}
		et := tgt.t.Underlying().(*types.Pointer).Elem()
		for err.t != nil {
			if it, ok := et.Underlying().(*types.Interface); ok {
				if ex.implements(err.t, it) {
					storeInto(tgt.v.(*Value), err)
					return True
				}
			} else if canon(err.t) == canon(et) {
				storeInto(tgt.v.(*Value), err.v)
				return True
			}
			if r, ok := ex.invokeNamed(fr, err, "As", tgt); ok {
				if ex.branch(r.(*Term)) {
					return True
				}
			}
			u, ok := ex.invokeNamed(fr, err, "Unwrap")
			if !ok {
				break
			}
			n, ok := u.(Iface)
			if !ok {
				break
			}
			err = n
		}
		return False
	}

	// ---- context ----
	I["context.WithValue"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		pkg := fn.Pkg
		vt := pkg.Type("valueCtx").Type()
		c := new(Value)
		*c = Struct{a[0], a[1], a[2]}
		return Iface{t: types.NewPointer(vt), v: c}
	}
	cancelCtx := func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		return Tuple{a[0], &nativeFn{f: func(ex *Exec, fr *Frame, args []Value) Value { return nil }}}
	}
	I["context.WithCancel"] = cancelCtx
	I["context.WithTimeout"] = cancelCtx
	I["context.WithDeadline"] = cancelCtx

	// ---- reflect subset ----
	I["reflect.DeepEqual"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		return ex.deepEq(a[0], a[1], 0)
	}

	// ---- fmt ----
	vargs := func(v Value) []Value { return v.(Slice).v }
	I["fmt.Sprintf"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		return ex.sprintf(fr, a[0], vargs(a[1]))
	}
	I["fmt.Sprint"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		var out Value = ""
		prevStr := true
		for i, v := range vargs(a[0]) {
			iv := v.(Iface)
			isS := iv.t != nil && isStringT(iv.t)
			if i > 0 && !isS && !prevStr {
				out = strConcat(out, " ")
			}
			prevStr = isS
			out = strConcat(out, ex.fmtV(fr, iv, 'v', false))
		}
		return out
	}
	I["fmt.Sprintln"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		var out Value = ""
		for i, v := range vargs(a[0]) {
			if i > 0 {
				out = strConcat(out, " ")
			}
			out = strConcat(out, ex.fmtV(fr, v.(Iface), 'v', false))
		}
		return strConcat(out, "\n")
	}
	I["fmt.Errorf"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		msg := ex.sprintf(fr, a[0], vargs(a[1]))
		if f, ok := a[0].(string); ok && strings.Contains(f, "%w") {
			// find the wrapped error
			n := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] == '%' {
					if f[i+1] == '%' {
						i++
						continue
					}
					j := i + 1
					for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
						j++
					}
					if j < len(f) && f[j] == 'w' {
						va := vargs(a[1])
						if n < len(va) {
							if e, ok := va[n].(Iface); ok && e.t != nil {
								wt := fn.Pkg.Type("wrapError").Type()
								c := new(Value)
								*c = Struct{msg, e}
								return Iface{t: types.NewPointer(wt), v: c}
							}
						}
					}
					n++
					i = j
				}
			}
		}
		return ex.mkError(msg)
	}
	for k, n := range []string{"Printf", "Println", "Print"} {
		k := k
		I["fmt."+n] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
			if ex.printed != nil {
				switch k {
				case 0:
					ex.printed = strConcat(ex.printed, ex.sprintf(fr, a[0], vargs(a[1])))
				case 1:
					ex.printed = strConcat(ex.printed, intrinsics["fmt.Sprintln"](ex, fr, fn, a))
				default:
					ex.printed = strConcat(ex.printed, intrinsics["fmt.Sprint"](ex, fr, fn, a))
				}
			}
			return Tuple{mkConst(64, 0), Iface{}}
		}
	}
	fpr := func(kind int) intrinsicFn {
		return func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
			w := a[0].(Iface)
			file := w.t != nil && w.t.String() == "*os.File"
			if file && ex.printed == nil {
				return Tuple{mkConst(64, 0), Iface{}}
			}
			var s Value
			switch kind {
			case 0:
				s = ex.sprintf(fr, a[1], vargs(a[2]))
			case 1:
				s = intrinsics["fmt.Sprintln"](ex, fr, fn, a[1:])
			default:
				s = intrinsics["fmt.Sprint"](ex, fr, fn, a[1:])
			}
			if file {
				ex.printed = strConcat(ex.printed, s)
				return Tuple{mkConst(64, 0), Iface{}}
			}
			if w.t == nil {
				panic(nilDeref())
			}
			r, ok := ex.invokeNamed(fr, w, "Write", Slice{append([]Value{}, strBytes(s)...)})
			if !ok {
				panic(unsup("Fprintf to %v", w.t))
			}
			return r
		}
	}
	I["fmt.Fprintf"] = fpr(0)
	I["fmt.Fprintln"] = fpr(1)
	I["fmt.Fprint"] = fpr(2)
	I["fmt.Fscanf"] = nil
	delete(I, "fmt.Fscanf")
}

func (ex *Exec) errorsIs(fr *Frame, err, target Iface) bool {
	if err.t == nil || target.t == nil {
		return err.t == nil && target.t == nil
	}
	cmp := types.Comparable(target.t)
	for err.t != nil {
		if cmp && canon(err.t) == canon(target.t) && ex.branch(ex.c.eqVal(nil, err, target)) {
			return true
		}
		if r, ok := ex.invokeNamed(fr, err, "Is", target); ok {
			if ex.branch(r.(*Term)) {
				return true
			}
		}
		u, ok := ex.invokeNamed(fr, err, "Unwrap")
		if !ok {
			return false
		}
		switch n := u.(type) {
		case Iface:
			err = n
		case Slice:
			for _, e := range n.v {
				if ex.errorsIs(fr, e.(Iface), target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func (ex *Exec) deepEq(a, b Value, d int) *Term {
	if d > 30 {
		panic(unsup("deep equality depth"))
	}
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return False
		}
		if x.t == nil || y.t == nil {
			return mkBool(x.t == nil && y.t == nil)
		}
		if canon(x.t) != canon(y.t) {
			return False
		}
		return ex.deepEq(x.v, y.v, d+1)
	case Slice:
		y := b.(Slice)
		if (x.v == nil) != (y.v == nil) || len(x.v) != len(y.v) {
			return False
		}
		r := True
		for i := range x.v {
			r = ex.c.And(r, ex.deepEq(x.v[i], y.v[i], d+1))
		}
		return r
	case Struct:
		y := b.(Struct)
		r := True
		for i := range x {
			r = ex.c.And(r, ex.deepEq(x[i], y[i], d+1))
		}
		return r
	case Array:
		y := b.(Array)
		r := True
		for i := range x {
			r = ex.c.And(r, ex.deepEq(x[i], y[i], d+1))
		}
		return r
	case *Value:
		y, ok := b.(*Value)
		if !ok {
			return False
		}
		if x == y {
			return True
		}
		if x == nil || y == nil {
			return False
		}
		return ex.deepEq(*x, *y, d+1)
	case *Map:
		y := b.(*Map)
		if (x == nil) != (y == nil) {
			return False
		}
		if x.length() != y.length() {
			return False
		}
		if x == nil {
			return True
		}
		r := True
		for _, e := range x.ents {
			v, ok := ex.mapGet(y, e.k, nil)
			if !ok {
				return False
			}
			r = ex.c.And(r, ex.deepEq(e.v, v, d+1))
		}
		return r
	}
	return ex.c.eqVal(nil, a, b)
}

// sprintf formats with a concrete format string.
func (ex *Exec) sprintf(fr *Frame, f Value, args []Value) Value {
	fs, ok := f.(string)
	if !ok {
		panic(unsup("symbolic format string"))
	}
	var out Value = ""
	n := 0
	i := 0
	for i < len(fs) {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			out = strConcat(out, fs[i:])
			break
		}
		out = strConcat(out, fs[i:i+j])
		i += j + 1
		st := i
		for i < len(fs) && strings.IndexByte("+-# 0123456789.", fs[i]) >= 0 {
			i++
		}
		if i >= len(fs) {
			out = strConcat(out, "%!(NOVERB)")
			break
		}
		flags := fs[st:i]
		verb := fs[i]
		i++
		if verb == '%' {
			out = strConcat(out, "%")
			continue
		}
		if n >= len(args) {
			out = strConcat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a, _ := args[n].(Iface)
		n++
		s := ex.fmtV(fr, a, verb, strings.Contains(flags, "+") || strings.Contains(flags, "#"))
		flags = strings.Trim(flags, "+#")
		if flags != "" {
			if cs, ok := a.v.(*Term); ok && cs.op == OpConst {
				if k, isI := basicInt(a.t); isI {
					if k.signed {
						s = fmt.Sprintf("%"+flags+string(verb), sx(cs.k, cs.w))
					} else {
						s = fmt.Sprintf("%"+flags+string(verb), cs.k)
					}
				}
			} else if cs, ok := s.(string); ok {
				s = fmt.Sprintf("%"+flags+"s", cs)
			}
		}
		out = strConcat(out, s)
	}
	if n < len(args) {
		out = strConcat(out, "%!(EXTRA)")
	}
	return out
}

func (ex *Exec) fmtV(fr *Frame, a Iface, verb byte, plus bool) Value {
	if a.t == nil {
		if verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'T' {
		return a.t.String()
	}
	if verb == 'w' {
		verb = 'v'
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if p, ok := a.v.(*Value); ok && p == nil {
			return "<nil>"
		}
		for _, m := range []string{"Error", "String"} {
			if f := ex.R.methodByName(a.t, m); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && isStringT(f.Signature.Results().At(0).Type()) {
				r := ex.callFn(fr, f, []Value{a.v}, nil)
				if verb == 'q' {
					r = strConcat(strConcat("\"", r), "\"")
				}
				return r
			}
		}
	}
	return ex.fmtRaw(fr, a.t, a.v, verb, 0)
}

func (ex *Exec) fmtRaw(fr *Frame, t types.Type, v Value, verb byte, depth int) Value {
	if depth > 6 {
		return "..."
	}
	switch x := v.(type) {
	case string, *SymStr:
		switch verb {
		case 'q':
			if s, ok := x.(string); ok {
				return strconv.Quote(s)
			}
			return strConcat(strConcat("\"", v), "\"")
		case 'x':
			if s, ok := x.(string); ok {
				return fmt.Sprintf("%x", s)
			}
			panic(unsup("%%x of symbolic text"))
		}
		return v
	case *Term:
		if x.w == 0 {
			if ex.branch(x) {
				return "true"
			}
			return "false"
		}
		k, _ := basicInt(t)
		c := ex.concretize(x)
		if verb == 'c' {
			return string(rune(c))
		}
		vb := string(verb)
		if verb == 'v' || verb == 's' {
			vb = "d"
		}
		if k.signed {
			return fmt.Sprintf("%"+vb, sx(c, x.w))
		}
		return fmt.Sprintf("%"+vb, c)
	case float64:
		return fmt.Sprintf("%"+string(verb), x)
	case Slice:
		if et, ok := t.Underlying().(*types.Slice); ok {
			if b, ok := et.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && verb == 's' {
				return normStr(x.v)
			}
			var out Value = "["
			for i, e := range x.v {
				if i > 0 {
					out = strConcat(out, " ")
				}
				if _, isI := e.(Iface); isI {
					out = strConcat(out, ex.fmtV(fr, e.(Iface), verb, false))
				} else {
					out = strConcat(out, ex.fmtV(fr, Iface{et.Elem(), e}, verb, false))
				}
			}
			return strConcat(out, "]")
		}
	case Struct:
		st := t.Underlying().(*types.Struct)
		var out Value = "{"
		for i, e := range x {
			if i > 0 {
				out = strConcat(out, " ")
			}
			if ie, isI := e.(Iface); isI {
				out = strConcat(out, ex.fmtV(fr, ie, verb, false))
			} else {
				out = strConcat(out, ex.fmtRaw(fr, st.Field(i).Type(), e, verb, depth+1))
			}
		}
		return strConcat(out, "}")
	case *Value:
		if x == nil {
			return "<nil>"
		}
		return "0xc000010000"
	case *Map:
		return "map[...]"
	case Iface:
		return ex.fmtV(fr, x, verb, false)
	}
	return fmt.Sprintf("<%T>", v)
}
