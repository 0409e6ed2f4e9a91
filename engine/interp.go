package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---- control-flow panics of the interpreter itself ----

type unsupErr struct{ msg string }

func unsup(f string, a ...interface{}) *unsupErr { return &unsupErr{fmt.Sprintf(f, a...)} }

type pathEnd struct{ why string } // infeasible, exit, bound reached

// goPanic is a Go-level panic of the interpreted program.
type goPanic struct {
	v     Value
	rt    string // runtime error text
	where string
}

func runtimePanic(msg string) *goPanic { return &goPanic{rt: msg} }

// ---- frames ----

type deferred struct {
	fn   Value
	args []Value
	inv  *ssa.CallCommon
	tail *deferred
}

type Frame struct {
	ex       *Exec
	fi       *fnInfo
	caller   *Frame
	regs     []Value
	block    int
	prev     int
	defers   *deferred
	result   Value
	pan      *goPanic // active panic
	depth    int
	curIn    ssa.Instruction
	goexit   bool
	tolerant bool
}

func (fr *Frame) get(o *opnd) Value {
	switch o.kind {
	case okSlot:
		return fr.regs[o.slot]
	case okConst:
		return o.val
	case okGlobal:
		return fr.ex.globalAddr(o.g)
	}
	return nil
}

func (ex *Exec) runtimeErrIface(msg string) Value {
	return Iface{t: ex.R.rtErrType, v: msg}
}

func (ex *Exec) call(caller *Frame, fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			panic(runtimePanic("invalid memory address or nil pointer dereference"))
		}
		return ex.callFn(caller, f, args, nil)
	case *Closure:
		return ex.callFn(caller, f.fn, args, f.env)
	case *ssa.Builtin:
		return ex.builtin(caller, f, args, nil)
	case Poison:
		panic(unsup("call of poison function: %s", f.why))
	case *nativeFn:
		return f.f(ex, caller, args)
	}
	panic(unsup("call of %T", fn))
}

type nativeFn struct {
	f func(ex *Exec, fr *Frame, args []Value) Value
}

func (ex *Exec) callFn(caller *Frame, fn *ssa.Function, args []Value, env []Value) Value {
	fi := ex.R.info(fn)
	if fi.repl != nil {
		fi = ex.R.info(fi.repl)
		fn = fi.fn
	}
	if fi.intr != nil {
		return fi.intr(ex, caller, fn, args)
	}
	if fi.noBody {
		panic(unsup("%s", fi.why))
	}
	depth := 1
	if caller != nil {
		depth = caller.depth + 1
	}
	if depth > ex.R.maxDepth {
		panic(&goPanic{rt: "stack overflow (recursion depth bound)", where: ex.where(caller)})
	}
	if fi.inMod && !fi.harness {
		ex.funcs[fi] = true
	}
	fr := &Frame{ex: ex, fi: fi, caller: caller, regs: make([]Value, fi.nslots), depth: depth, prev: -1}
	for i, s := range fi.params {
		if i < len(args) {
			fr.regs[s] = args[i]
		}
	}
	for i, s := range fi.free {
		fr.regs[s] = env[i]
	}
	fr.run()
	return fr.result
}

func (ex *Exec) where(fr *Frame) string {
	var parts []string
	for f := fr; f != nil && len(parts) < 6; f = f.caller {
		pos := ""
		if f.curIn != nil && f.curIn.Pos().IsValid() {
			p := ex.R.P.fset.Position(f.curIn.Pos())
			fn := p.Filename
			if i := strings.LastIndex(fn, "/"); i >= 0 {
				fn = fn[i+1:]
			}
			pos = fmt.Sprintf(" %s:%d", fn, p.Line)
		}
		parts = append(parts, f.fi.fn.String()+pos)
	}
	return strings.Join(parts, " < ")
}

// run executes the frame including deferred calls and recovery.
func (fr *Frame) run() {
	for {
		if fr.runBlocks() {
			return
		}
		// a Go panic reached this frame: run its deferred calls
		fr.runDefers()
		if fr.pan != nil {
			panic(fr.pan)
		}
		// recovered
		if fr.fi.recover < 0 {
			// no named results: zero values
			sig := fr.fi.fn.Signature.Results()
			switch sig.Len() {
			case 0:
				fr.result = nil
			case 1:
				fr.result = zero(sig.At(0).Type())
			default:
				fr.result = zero(sig)
			}
			return
		}
		fr.block = fr.fi.recover
		fr.prev = -1
	}
}

// runBlocks returns true on normal return; false when a Go panic is pending.
func (fr *Frame) runBlocks() (done bool) {
	if fr.fi.fn.Recover != nil || fr.defers != nil || hasDefer(fr.fi) {
		defer func() {
			if r := recover(); r != nil {
				if gp, ok := r.(*goPanic); ok {
					if gp.where == "" {
						gp.where = fr.ex.where(fr)
					}
					fr.pan = gp
					done = false
					return
				}
				panic(r)
			}
		}()
	}
	ex := fr.ex
	for {
		b := &fr.fi.blocks[fr.block]
		if len(b.phis) > 0 {
			fr.doPhis(b)
		}
		next := -1
		for i := range b.instrs {
			ci := &b.instrs[i]
			ex.steps++
			if ex.steps > ex.R.maxSteps {
				if ex.pos >= len(ex.prefix) {
					ex.report("endless", "no end", "no end after "+fmt.Sprint(ex.steps)+" steps at "+ex.where(fr), ex.model)
				}
				panic(&pathEnd{"step bound"})
			}
			fr.curIn = ci.in
			switch in := ci.in.(type) {
			case *ssa.Jump:
				next = b.succs[0]
			case *ssa.If:
				c := fr.get(&ci.ops[0])
				t, ok := c.(*Term)
				if !ok {
					panic(unsup("branch on %T (%v)", c, c))
				}
				if ex.branch(t) {
					next = b.succs[0]
				} else {
					next = b.succs[1]
				}
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&ci.ops[0])
				default:
					t := make(Tuple, len(ci.ops))
					for j := range ci.ops {
						t[j] = fr.get(&ci.ops[j])
					}
					fr.result = t
				}
				return true
			case *ssa.RunDefers:
				fr.runDefers()
				if fr.pan != nil {
					panic(fr.pan)
				}
			case *ssa.Panic:
				v := fr.get(&ci.ops[0])
				panic(&goPanic{v: v, where: ex.where(fr)})
			default:
				_ = in
				if fr.tolerant {
					fr.execTolerant(ci)
				} else {
					fr.exec(ci)
				}
			}
		}
		if next < 0 {
			panic(unsup("block without successor in %s", fr.fi.name))
		}
		fr.prev = fr.block
		fr.block = next
	}
}

func hasDefer(fi *fnInfo) bool { return fi.fn.Recover != nil }

func (fr *Frame) doPhis(b *cblock) {
	bb := fr.fi.fn.Blocks[fr.block]
	pi := -1
	for i, p := range bb.Preds {
		if p.Index == fr.prev {
			pi = i
			break
		}
	}
	if pi < 0 {
		panic(unsup("phi without predecessor"))
	}
	var tmp [8]Value
	vals := tmp[:0]
	for i := range b.phis {
		vals = append(vals, fr.get(&b.phis[i].ops[pi]))
	}
	for i := range b.phis {
		fr.regs[b.phis[i].dst] = vals[i]
	}
}

func (fr *Frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.tail
		func() {
			defer func() {
				if r := recover(); r != nil {
					if gp, ok := r.(*goPanic); ok {
						fr.pan = gp
						return
					}
					panic(r)
				}
			}()
			fr.ex.call(fr, d.fn, d.args)
		}()
	}
}

func (fr *Frame) set(ci *cinstr, v Value) { fr.regs[ci.dst] = v }

func (fr *Frame) execTolerant(ci *cinstr) {
	defer func() {
		if r := recover(); r != nil {
			why := fmt.Sprint(r)
			switch x := r.(type) {
			case *unsupErr:
				why = x.msg
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "INIT %s: %s\n", fr.fi.name, why)
				}
			case *pathEnd:
				panic(r)
			case *goPanic:
				why = "panic in initialiser"
			}
			if ci.dst >= 0 {
				fr.regs[ci.dst] = Poison{why}
			}
		}
	}()
	if c, ok := ci.in.(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil && f.Signature.Recv() == nil {
			if f.Name() == "init" && f.Synthetic != "" {
				// the initialiser of an imported package: ours run on every path,
				// the others when one of their variables is first used
				path := ""
				if f.Pkg != nil {
					path = f.Pkg.Pkg.Path()
				}
				if fr.ex.R.isPerPath(path) && !fr.ex.R.P.pkgs[path].noBody {
					fr.ex.R.P.ensureBuilt(f.Pkg)
					fr.ex.runTolerant(f)
				}
				return
			}
			if strings.HasPrefix(f.Name(), "init#") {
				path := ""
				if f.Pkg != nil {
					path = f.Pkg.Pkg.Path()
				}
				if !fr.ex.R.isPerPath(path) {
					return
				}
			}
		}
	}
	fr.exec(ci)
}

func nilDeref() *goPanic {
	return runtimePanic("invalid memory address or nil pointer dereference")
}

func (fr *Frame) load(p Value) Value {
	ex := fr.ex
	switch a := p.(type) {
	case *Value:
		if a == nil {
			panic(nilDeref())
		}
		if ex.acc != nil {
			ex.acc.access(ex, fr, a, false)
		}
		return copyVal(*a)
	case *SymPtr:
		return ex.symRead(a.base, a.idx)
	case Poison:
		panic(unsup("load through poison: %s", a.why))
	case unsafePtr:
		return fr.load(a.p)
	}
	panic(unsup("load from %T", p))
}

func (fr *Frame) store(p, v Value) {
	ex := fr.ex
	switch a := p.(type) {
	case *Value:
		if a == nil {
			panic(nilDeref())
		}
		if ex.acc != nil {
			ex.acc.access(ex, fr, a, true)
		}
		storeInto(a, v)
		return
	case *SymPtr:
		i := ex.concretize(a.idx)
		storeInto(&a.base[i], v)
		return
	case unsafePtr:
		fr.store(a.p, v)
		return
	case Poison:
		panic(unsup("store through poison"))
	}
	panic(unsup("store to %T", p))
}

// symRead reads base[idx] for an in-range symbolic index.
func (ex *Exec) symRead(base []Value, idx *Term) Value {
	all := true
	for _, v := range base {
		if _, ok := v.(*Term); !ok {
			all = false
			break
		}
	}
	if !all || len(base) > 512 {
		return copyVal(base[ex.concretize(idx)])
	}
	r := base[len(base)-1].(*Term)
	for i := len(base) - 2; i >= 0; i-- {
		r = ex.c.Ite(ex.c.Eq(idx, mkConst(idx.w, uint64(i))), base[i].(*Term), r)
	}
	return r
}

// boundsCheck returns a concrete index, or symbolic one after checking the range.
func (ex *Exec) checkIndex(iv Value, n int, signed bool) (*Term, int) {
	t, ok := iv.(*Term)
	if !ok {
		panic(unsup("index %T", iv))
	}
	if t.op == OpConst {
		i := int64(t.k)
		if signed {
			i = sx(t.k, t.w)
		}
		if i < 0 || i >= int64(n) {
			panic(runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", i, n)))
		}
		return nil, int(i)
	}
	// unsigned comparison catches negatives as well
	if t.w < 64 && uint64(n) > mask(t.w) {
		if signed {
			if !ex.branch(ex.c.Bin(OpSle, mkConst(t.w, 0), t)) {
				panic(runtimePanic("index out of range"))
			}
		}
	} else if !ex.branch(ex.c.Bin(OpUlt, t, mkConst(t.w, uint64(n)))) {
		panic(runtimePanic(fmt.Sprintf("index out of range with length %d", n)))
	}
	return t, -1
}

func intSigned(t types.Type) bool {
	k, ok := basicInt(t)
	return !ok || k.signed
}

func (ex *Exec) concInt(v Value, what string) int {
	t, ok := v.(*Term)
	if !ok {
		panic(unsup("%s is %T", what, v))
	}
	if t.op == OpConst {
		return int(sx(t.k, t.w))
	}
	return int(sx(ex.concretize(t), t.w))
}

// concIntT is concInt for a value of type t.
func (ex *Exec) concIntT(v Value, t types.Type, what string) int {
	n := ex.concInt(v, what)
	if k, ok := v.(*Term); ok && k.w < 64 && !intSigned(t) {
		n = int(uint64(n) & mask(k.w))
	}
	return n
}

func (fr *Frame) exec(ci *cinstr) {
	ex := fr.ex
	switch in := ci.in.(type) {
	case *ssa.Alloc:
		cell := new(Value)
		*cell = zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.set(ci, cell)
	case *ssa.UnOp:
		fr.set(ci, fr.unop(in, fr.get(&ci.ops[0])))
	case *ssa.BinOp:
		fr.set(ci, ex.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1])))
	case *ssa.Store:
		fr.store(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.FieldAddr:
		p := fr.get(&ci.ops[0])
		if u, ok := p.(unsafePtr); ok {
			p = u.p
		}
		c, ok := p.(*Value)
		if !ok {
			panic(unsup("field address of %T", p))
		}
		if c == nil {
			panic(nilDeref())
		}
		s, ok := (*c).(Struct)
		if !ok {
			panic(unsup("field address in %T", *c))
		}
		fr.set(ci, &s[in.Field])
	case *ssa.Field:
		s, ok := fr.get(&ci.ops[0]).(Struct)
		if !ok {
			panic(unsup("field of non-struct"))
		}
		fr.set(ci, copyVal(s[in.Field]))
	case *ssa.IndexAddr:
		x := fr.get(&ci.ops[0])
		var base []Value
		switch b := x.(type) {
		case Slice:
			base = b.v
		case *Value:
			if b == nil {
				panic(nilDeref())
			}
			a, ok := (*b).(Array)
			if !ok {
				panic(unsup("index address in %T", *b))
			}
			base = a
		default:
			panic(unsup("index address of %T", x))
		}
		t, i := ex.checkIndex(fr.get(&ci.ops[1]), len(base), intSigned(in.Index.Type()))
		if t != nil {
			fr.set(ci, &SymPtr{base, t})
		} else {
			fr.set(ci, &base[i])
		}
	case *ssa.Index:
		x := fr.get(&ci.ops[0])
		switch b := x.(type) {
		case Array:
			t, i := ex.checkIndex(fr.get(&ci.ops[1]), len(b), intSigned(in.Index.Type()))
			if t != nil {
				fr.set(ci, ex.symRead(b, t))
			} else {
				fr.set(ci, copyVal(b[i]))
			}
		case string, *SymStr:
			n := strLen(x)
			t, i := ex.checkIndex(fr.get(&ci.ops[1]), n, intSigned(in.Index.Type()))
			if t != nil {
				fr.set(ci, ex.symRead(strBytes(x), t))
			} else {
				fr.set(ci, strAt(x, i))
			}
		default:
			panic(unsup("index of %T", x))
		}
	case *ssa.Lookup:
		x := fr.get(&ci.ops[0])
		k := fr.get(&ci.ops[1])
		switch m := x.(type) {
		case string, *SymStr:
			n := strLen(x)
			t, i := ex.checkIndex(k, n, intSigned(in.Index.Type()))
			if t != nil {
				fr.set(ci, ex.symRead(strBytes(x), t))
			} else {
				fr.set(ci, strAt(x, i))
			}
		case *Map:
			if ex.acc != nil && m != nil {
				ex.acc.access(ex, fr, m, false)
			}
			mt := in.X.Type().Underlying().(*types.Map)
			v, ok := ex.mapGet(m, k, mt.Key())
			if !ok {
				v = zero(mt.Elem())
			} else {
				v = copyVal(v)
			}
			if in.CommaOk {
				fr.set(ci, Tuple{v, mkBool(ok)})
			} else {
				fr.set(ci, v)
			}
		default:
			panic(unsup("lookup in %T", x))
		}
	case *ssa.MapUpdate:
		m, ok := fr.get(&ci.ops[0]).(*Map)
		if !ok {
			panic(unsup("map update on %T", fr.get(&ci.ops[0])))
		}
		if m == nil {
			panic(runtimePanic("assignment to entry in nil map"))
		}
		if ex.acc != nil {
			ex.acc.access(ex, fr, m, true)
		}
		mt := in.Map.Type().Underlying().(*types.Map)
		ex.mapSet(m, fr.get(&ci.ops[1]), fr.get(&ci.ops[2]), mt.Key())
	case *ssa.MakeMap:
		fr.set(ci, ex.newMap())
	case *ssa.MakeSlice:
		n := ex.concIntT(fr.get(&ci.ops[0]), in.Len.Type(), "slice length")
		cp := ex.concIntT(fr.get(&ci.ops[1]), in.Cap.Type(), "slice capacity")
		if n < 0 || n > cp {
			panic(runtimePanic("makeslice: len out of range"))
		}
		if cp > 1<<20 {
			panic(unsup("makeslice of %d", cp))
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		v := make([]Value, cp)
		z := zero(et)
		switch z.(type) {
		case Struct, Array:
			for i := range v {
				v[i] = zero(et)
			}
		default:
			for i := range v {
				v[i] = z
			}
		}
		fr.set(ci, Slice{v[:n:cp]})
	case *ssa.MakeChan:
		fr.set(ci, &Chan{cap: ex.concInt(fr.get(&ci.ops[0]), "chan size")})
	case *ssa.MakeInterface:
		v := fr.get(&ci.ops[0])
		if p, ok := v.(Poison); ok {
			panic(unsup("poison: %s", p.why))
		}
		fr.set(ci, Iface{t: in.X.Type(), v: v})
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.ops)-1)
		for i := range env {
			env[i] = fr.get(&ci.ops[i+1])
		}
		fr.set(ci, &Closure{fn: in.Fn.(*ssa.Function), env: env})
	case *ssa.ChangeInterface, *ssa.ChangeType:
		fr.set(ci, fr.get(&ci.ops[0]))
	case *ssa.Convert:
		fr.set(ci, ex.convert(in.X.Type(), in.Type(), fr.get(&ci.ops[0])))
	case *ssa.MultiConvert:
		fr.set(ci, ex.convert(in.X.Type(), in.Type(), fr.get(&ci.ops[0])))
	case *ssa.SliceToArrayPointer:
		s := fr.get(&ci.ops[0]).(Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s.v) < n {
			panic(runtimePanic("cannot convert slice to array"))
		}
		cell := new(Value)
		*cell = Array(s.v[:n:n])
		fr.set(ci, cell)
	case *ssa.Slice:
		fr.set(ci, fr.slice(in, ci))
	case *ssa.Extract:
		t, ok := fr.get(&ci.ops[0]).(Tuple)
		if !ok {
			if p, ok := fr.get(&ci.ops[0]).(Poison); ok {
				panic(unsup("poison: %s", p.why))
			}
			panic(unsup("extract from %T", fr.get(&ci.ops[0])))
		}
		fr.set(ci, t[in.Index])
	case *ssa.TypeAssert:
		fr.set(ci, ex.typeAssert(in, fr.get(&ci.ops[0])))
	case *ssa.Range:
		fr.set(ci, ex.rangeIter(fr, fr.get(&ci.ops[0])))
	case *ssa.Next:
		fr.set(ci, ex.next(fr, in, fr.get(&ci.ops[0]).(*mapIter)))
	case *ssa.Call:
		fr.set(ci, fr.doCall(&in.Call, ci))
	case *ssa.Defer:
		fn, args := fr.prepCall(&in.Call, ci)
		if b, ok := fn.(*ssa.Builtin); ok && b.Name() == "recover" {
			panic(unsup("defer recover()"))
		}
		d := &deferred{fn: fn, args: args, tail: fr.defers}
		if in.DeferStack != nil {
			// range-over-func: defers of the enclosing function
			tgt, ok := fr.get(&ci.ops[len(ci.ops)-1]).(*Frame)
			if !ok {
				panic(unsup("defer stack"))
			}
			d.tail = tgt.defers
			tgt.defers = d
		} else {
			fr.defers = d
		}
	case *ssa.Go:
		fn, args := fr.prepCall(&in.Call, ci)
		ex.goStmt(fr, fn, args)
	case *ssa.Send:
		c := fr.get(&ci.ops[0]).(*Chan)
		ex.send(c, fr.get(&ci.ops[1]))
	case *ssa.Select:
		fr.set(ci, fr.doSelect(in, ci))
	default:
		panic(unsup("instruction %T", ci.in))
	}
}

func (fr *Frame) doSelect(in *ssa.Select, ci *cinstr) Value {
	ex := fr.ex
	res := func(idx int, ok bool, recvIdx int, rv Value) Value {
		t := Tuple{mkConst(64, uint64(int64(idx))), mkBool(ok)}
		k := 0
		for i, st := range in.States {
			if st.Dir == types.RecvOnly {
				if i == idx {
					t = append(t, rv)
				} else {
					t = append(t, zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
				k++
			}
		}
		return t
	}
	chans := make([]*Chan, len(in.States))
	for i := range in.States {
		if c, okc := fr.get(&ci.ops[2*i]).(*Chan); okc {
			chans[i] = c
		}
	}
	pick := func() int {
		for i, st := range in.States {
			c := chans[i]
			if c == nil {
				continue
			}
			if st.Dir == types.RecvOnly {
				if len(c.buf) > 0 || c.closed {
					return i
				}
			} else if c.closed || len(c.buf) < c.cap || c.cap == 0 && c.waiting > len(c.buf) {
				return i
			}
		}
		return -1
	}
	if pick() < 0 && in.Blocking {
		for i, st := range in.States {
			if st.Dir == types.RecvOnly && chans[i] != nil {
				chans[i].waiting++
			}
		}
		ok := ex.block(func() bool { return pick() >= 0 })
		for i, st := range in.States {
			if st.Dir == types.RecvOnly && chans[i] != nil {
				chans[i].waiting--
			}
		}
		if !ok {
			ex.stuck("select")
		}
	}
	if i := pick(); i >= 0 {
		c := chans[i]
		if in.States[i].Dir == types.RecvOnly {
			if len(c.buf) > 0 {
				return res(i, true, i, c.take())
			}
			return res(i, false, i, zero(in.States[i].Chan.Type().Underlying().(*types.Chan).Elem()))
		}
		ex.send(c, fr.get(&ci.ops[2*i+1]))
		return res(i, false, i, nil)
	}
	if !in.Blocking {
		return res(-1, false, -1, nil)
	}
	panic(unsup("blocking select"))
}

func (fr *Frame) unop(in *ssa.UnOp, x Value) Value {
	ex := fr.ex
	switch in.Op {
	case token.MUL:
		return fr.load(x)
	case token.NOT:
		t, ok := x.(*Term)
		if !ok {
			panic(unsup("! on %T", x))
		}
		return ex.c.Not(t)
	case token.SUB:
		switch v := x.(type) {
		case *Term:
			return ex.c.Neg(v)
		case float64:
			return -v
		}
	case token.XOR:
		if t, ok := x.(*Term); ok {
			return ex.c.BNot(t)
		}
	case token.ARROW:
		c, ok := x.(*Chan)
		if !ok {
			panic(unsup("receive from %T", x))
		}
		et := in.X.Type().Underlying().(*types.Chan).Elem()
		v, good := ex.recv(c)
		if !good {
			v = zero(et)
		}
		if in.CommaOk {
			return Tuple{v, mkBool(good)}
		}
		return v
	}
	panic(unsup("unop %v on %T", in.Op, x))
}

func (ex *Exec) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return ex.eqMixed(xt, yt, x, y)
	case token.NEQ:
		return ex.c.Not(ex.eqMixed(xt, yt, x, y))
	}
	c := ex.c
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			panic(unsup("binop %v on %T,%T", op, x, y))
		}
		if a.w == 0 {
			switch op {
			case token.LAND, token.AND:
				return c.And(a, b)
			case token.LOR, token.OR:
				return c.Or(a, b)
			}
			panic(unsup("bool binop %v", op))
		}
		k, _ := basicInt(xt)
		signed := k.signed
		switch op {
		case token.ADD:
			return c.Bin(OpAdd, a, b)
		case token.SUB:
			return c.Bin(OpSub, a, b)
		case token.MUL:
			return c.Bin(OpMul, a, b)
		case token.QUO, token.REM:
			if b.op == OpConst {
				if b.k == 0 {
					panic(runtimePanic("integer divide by zero"))
				}
			} else if ex.branch(c.Eq(b, mkConst(b.w, 0))) {
				panic(runtimePanic("integer divide by zero"))
			}
			switch {
			case op == token.QUO && signed:
				return c.Bin(OpSDiv, a, b)
			case op == token.QUO:
				return c.Bin(OpUDiv, a, b)
			case signed:
				return c.Bin(OpSRem, a, b)
			default:
				return c.Bin(OpURem, a, b)
			}
		case token.AND:
			return c.Bin(OpBAnd, a, b)
		case token.OR:
			return c.Bin(OpBOr, a, b)
		case token.XOR:
			return c.Bin(OpBXor, a, b)
		case token.AND_NOT:
			return c.Bin(OpBAnd, a, c.BNot(b))
		case token.SHL, token.SHR:
			yk, _ := basicInt(yt)
			if yk.signed {
				if b.op == OpConst {
					if sx(b.k, b.w) < 0 {
						panic(runtimePanic("negative shift amount"))
					}
				} else if ex.branch(c.Bin(OpSlt, b, mkConst(b.w, 0))) {
					panic(runtimePanic("negative shift amount"))
				}
			}
			sh := b
			if b.w > a.w {
				// saturate
				big := c.Bin(OpUlt, mkConst(b.w, uint64(a.w)-1), b)
				sh = c.Ite(big, mkConst(a.w, uint64(a.w)), c.Conv(b, a.w, false))
			} else if b.w < a.w {
				sh = c.Conv(b, a.w, false)
			}
			switch {
			case op == token.SHL:
				return c.Bin(OpShl, a, sh)
			case signed:
				return c.Bin(OpAShr, a, sh)
			default:
				return c.Bin(OpLShr, a, sh)
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				a, b = b, a
			}
			lt := op == token.LSS || op == token.GTR
			switch {
			case lt && signed:
				return c.Bin(OpSlt, a, b)
			case lt:
				return c.Bin(OpUlt, a, b)
			case signed:
				return c.Bin(OpSle, a, b)
			default:
				return c.Bin(OpUle, a, b)
			}
		}
	case string, *SymStr:
		switch op {
		case token.ADD:
			return strConcat(x, y)
		case token.LSS:
			return c.strLess(x, y)
		case token.GTR:
			return c.strLess(y, x)
		case token.LEQ:
			return c.Not(c.strLess(y, x))
		case token.GEQ:
			return c.Not(c.strLess(x, y))
		}
	case float64:
		b := y.(float64)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return mkBool(a < b)
		case token.LEQ:
			return mkBool(a <= b)
		case token.GTR:
			return mkBool(a > b)
		case token.GEQ:
			return mkBool(a >= b)
		}
	case Poison:
		panic(unsup("poison: %s", a.why))
	}
	panic(unsup("binop %v on %T", op, x))
}

func (ex *Exec) eqMixed(xt, yt types.Type, x, y Value) *Term {
	if p, ok := x.(Poison); ok {
		panic(unsup("poison: %s", p.why))
	}
	if p, ok := y.(Poison); ok {
		panic(unsup("poison: %s", p.why))
	}
	xi := types.IsInterface(xt)
	yi := types.IsInterface(yt)
	if xi && !yi {
		if _, ok := y.(Iface); !ok {
			y = Iface{yt, y}
		}
	} else if yi && !xi {
		if _, ok := x.(Iface); !ok {
			x = Iface{xt, x}
		}
	}
	// comparisons with nil
	switch a := x.(type) {
	case *Closure:
		if f, ok := y.(*ssa.Function); ok && f == nil {
			return False
		}
	case *ssa.Function:
		if _, ok := y.(*Closure); ok {
			return False
		}
		if f, ok := y.(*ssa.Function); ok {
			return mkBool(a == f)
		}
		if _, ok := y.(*nativeFn); ok {
			return False
		}
	case *nativeFn:
		return mkBool(x == y)
	case *Native:
		return mkBool(x == y)
	case *SymPtr:
		return False
	}
	if _, ok := y.(*Native); ok {
		return False
	}
	return ex.c.eqVal(xt, x, y)
}

func (ex *Exec) convert(from, to types.Type, x Value) Value {
	if p, ok := x.(Poison); ok {
		panic(unsup("poison: %s", p.why))
	}
	fu, tu := from.Underlying(), to.Underlying()
	if tp, ok := tu.(*types.TypeParam); ok {
		panic(unsup("convert to type parameter %v", tp))
	}
	if tb, ok := tu.(*types.Basic); ok {
		if tk, ok := basicInt(tb); ok {
			switch v := x.(type) {
			case *Term:
				fk, _ := basicInt(fu)
				return ex.c.Conv(v, tk.w, fk.signed)
			case float64:
				if tk.signed {
					return mkConst(tk.w, uint64(int64(v)))
				}
				if v < 0 || v > math.MaxInt64 {
					return mkConst(tk.w, uint64(v))
				}
				return mkConst(tk.w, uint64(int64(v)))
			case unsafePtr:
				panic(unsup("unsafe pointer to integer"))
			}
		}
		if tb.Info()&types.IsFloat != 0 {
			switch v := x.(type) {
			case float64:
				if tb.Kind() == types.Float32 {
					return float64(float32(v))
				}
				return v
			case *Term:
				fk, _ := basicInt(fu)
				if v.op != OpConst {
					// concretise: floating point is outside the encoding
					k := ex.concretize(v)
					v = mkConst(v.w, k)
				}
				if fk.signed {
					return float64(sx(v.k, v.w))
				}
				return float64(v.k)
			}
		}
		if tb.Info()&types.IsString != 0 {
			switch v := x.(type) {
			case string, *SymStr:
				return v
			case Slice:
				et := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
				if et.Kind() == types.Uint8 {
					return normStr(v.v)
				}
				var out Value = ""
				for _, r := range v.v {
					out = strConcat(out, ex.runeToStr(r.(*Term)))
				}
				return out
			case *Term:
				fk, _ := basicInt(fu)
				r := v
				if fk.w < 32 {
					r = ex.c.Conv(v, 32, fk.signed)
				} else if fk.w > 32 {
					r = ex.c.Conv(v, 32, fk.signed)
					if !ex.branch(ex.c.Eq(ex.c.Conv(r, fk.w, true), v)) {
						return "\uFFFD"
					}
				}
				return ex.runeToStr(r)
			}
		}
		if tb.Kind() == types.UnsafePointer {
			switch v := x.(type) {
			case *Value:
				return unsafePtr{v}
			case unsafePtr:
				return v
			}
			return unsafePtr{x}
		}
	}
	switch tt := tu.(type) {
	case *types.Slice:
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			eb := tt.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				b := strBytes(x)
				nb := make([]Value, len(b))
				copy(nb, b)
				return Slice{nb}
			}
			// []rune
			out := []Value{}
			pos := 0
			for pos < strLen(x) {
				r, n := ex.decodeRune(x, pos)
				out = append(out, r)
				pos += n
			}
			return Slice{out}
		}
		return x
	case *types.Pointer:
		if u, ok := x.(unsafePtr); ok {
			if v, ok := u.p.(*Value); ok {
				// only same-shape reinterpretations are allowed
				return ex.reinterpret(v, tt.Elem())
			}
			return u.p
		}
		return x
	}
	return x
}

// reinterpret supports the *[]byte <-> *string punning idioms.
func (ex *Exec) reinterpret(p *Value, to types.Type) Value {
	if p == nil {
		return p
	}
	switch v := (*p).(type) {
	case Slice:
		if isStringT(to) {
			c := new(Value)
			*c = normStr(v.v)
			return c
		}
	case string, *SymStr:
		if _, ok := to.Underlying().(*types.Slice); ok {
			c := new(Value)
			*c = Slice{append([]Value(nil), strBytes(v)...)}
			return c
		}
	}
	return p
}

func (ex *Exec) runeToStr(r *Term) Value {
	if r.op == OpConst {
		return string(rune(int32(sx(r.k, r.w))))
	}
	if ex.branch(ex.c.Bin(OpUlt, r, mkConst(r.w, 0x80))) {
		return normStr([]Value{ex.c.Conv(r, 8, false)})
	}
	return string(rune(int32(sx(ex.concretize(r), r.w))))
}

// decodeRune decodes the rune at position pos.
func (ex *Exec) decodeRune(s Value, pos int) (*Term, int) {
	if cs, ok := s.(string); ok {
		r, n := utf8.DecodeRuneInString(cs[pos:])
		return mkConst(32, uint64(uint32(r))), n
	}
	b, ok := strAt(s, pos).(*Term)
	if !ok {
		panic(unsup("rune of encoded message"))
	}
	if ex.branch(ex.c.Bin(OpUlt, b, mkConst(8, 0x80))) {
		return ex.c.Conv(b, 32, false), 1
	}
	// multi-byte: interpret the real decoder
	fn := ex.R.lookupFunc("unicode/utf8", "DecodeRuneInString")
	if fn == nil {
		panic(unsup("utf8 decoder"))
	}
	end := min(strLen(s), pos+4)
	t := ex.callFn(nil, fn, []Value{strSlice(s, pos, end)}, nil).(Tuple)
	return t[0].(*Term), ex.concInt(t[1], "rune width")
}

func (fr *Frame) slice(in *ssa.Slice, ci *cinstr) Value {
	ex := fr.ex
	x := fr.get(&ci.ops[0])
	// Operands() yields pointers for X, Low, High, Max in order, nil entries included
	get := func(i int, b ssa.Value) (int, bool) {
		if b == nil {
			return 0, false
		}
		return ex.concIntT(fr.get(&ci.ops[i]), b.Type(), "slice bound"), true
	}
	lo, _ := get(1, in.Low)
	hi, hasHi := get(2, in.High)
	mx, hasMax := get(3, in.Max)
	switch b := x.(type) {
	case string, *SymStr:
		n := strLen(x)
		if !hasHi {
			hi = n
		}
		if hi < 0 || hi > n {
			panic(runtimePanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, n)))
		}
		if lo < 0 || lo > hi {
			panic(runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi)))
		}
		return strSlice(x, lo, hi)
	case Slice, *Value:
		var v []Value
		isNil := false
		if s, ok := b.(Slice); ok {
			v = s.v
			isNil = s.v == nil
		} else {
			p := b.(*Value)
			if p == nil {
				panic(nilDeref())
			}
			a, ok := (*p).(Array)
			if !ok {
				panic(unsup("slice of pointer to %T", *p))
			}
			v = a
		}
		if !hasHi {
			hi = len(v)
		}
		c := cap(v)
		if hasMax {
			if mx < 0 || mx > c {
				panic(runtimePanic("slice bounds out of range (max)"))
			}
			c = mx
		}
		if hi < 0 || hi > c {
			panic(runtimePanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, c)))
		}
		if lo < 0 || lo > hi {
			panic(runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi)))
		}
		if isNil {
			return Slice{}
		}
		return Slice{v[lo:hi:c]}
	}
	panic(unsup("slice of %T", x))
}

func (ex *Exec) implements(t types.Type, it *types.Interface) bool {
	return ex.R.implements(t, it)
}

func (ex *Exec) typeAssert(in *ssa.TypeAssert, x Value) Value {
	i, ok := x.(Iface)
	if !ok {
		if p, ok := x.(Poison); ok {
			panic(unsup("poison: %s", p.why))
		}
		panic(unsup("type assert on %T", x))
	}
	var res Value
	good := false
	if i.t != nil {
		if it, ok := in.AssertedType.Underlying().(*types.Interface); ok {
			if ex.implements(i.t, it) {
				good, res = true, i
			}
		} else if canon(i.t) == canon(in.AssertedType) {
			good, res = true, i.v
		}
	}
	if !good {
		if !in.CommaOk {
			d := "nil"
			if i.t != nil {
				d = i.t.String()
			}
			panic(runtimePanic("interface conversion: " + d + " is not " + in.AssertedType.String()))
		}
		res = zero(in.AssertedType)
	}
	if in.CommaOk {
		return Tuple{res, mkBool(good)}
	}
	return res
}

func (fr *Frame) prepCall(cc *ssa.CallCommon, ci *cinstr) (Value, []Value) {
	nargs := len(cc.Args)
	if cc.IsInvoke() {
		recv := fr.get(&ci.ops[0])
		i, ok := recv.(Iface)
		if !ok {
			if p, ok := recv.(Poison); ok {
				panic(unsup("poison: %s", p.why))
			}
			panic(unsup("invoke on %T", recv))
		}
		if i.t == nil {
			panic(nilDeref())
		}
		args := make([]Value, 0, nargs+1)
		args = append(args, i.v)
		for j := 0; j < nargs; j++ {
			args = append(args, fr.get(&ci.ops[j+1]))
		}
		if nf := fr.ex.nativeMethod(i, cc.Method.Name()); nf != nil {
			return nf, args
		}
		fn := fr.ex.R.lookupMethod(i.t, cc.Method)
		if fn == nil {
			panic(unsup("no method %s on %v", cc.Method.Name(), i.t))
		}
		return fn, args
	}
	fn := fr.get(&ci.ops[0])
	args := make([]Value, nargs)
	for j := 0; j < nargs; j++ {
		args[j] = fr.get(&ci.ops[j+1])
	}
	return fn, args
}

func (fr *Frame) doCall(cc *ssa.CallCommon, ci *cinstr) Value {
	fn, args := fr.prepCall(cc, ci)
	if b, ok := fn.(*ssa.Builtin); ok {
		return fr.ex.builtin(fr, b, args, cc)
	}
	return fr.ex.call(fr, fn, args)
}

func (ex *Exec) builtin(fr *Frame, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return mkConst(64, uint64(strLen(x)))
		case Slice:
			return mkConst(64, uint64(len(x.v)))
		case *Map:
			if ex.acc != nil && x != nil {
				ex.acc.access(ex, fr, x, false)
			}
			return mkConst(64, uint64(x.length()))
		case *Chan:
			if x == nil {
				return mkConst(64, 0)
			}
			return mkConst(64, uint64(len(x.buf)))
		case Array:
			return mkConst(64, uint64(len(x)))
		case *Value:
			return mkConst(64, uint64(len((*x).(Array))))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return mkConst(64, uint64(cap(x.v)))
		case *Chan:
			return mkConst(64, uint64(x.cap))
		case Array:
			return mkConst(64, uint64(len(x)))
		}
	case "append":
		s, ok := args[0].(Slice)
		if !ok {
			panic(unsup("append to %T", args[0]))
		}
		if len(args) == 1 {
			return s
		}
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y.v
		case string, *SymStr:
			add = strBytes(y)
		default:
			panic(unsup("append of %T", args[1]))
		}
		if len(add) == 0 {
			return s
		}
		need := len(s.v) + len(add)
		if need <= cap(s.v) {
			n := s.v[:need]
			// elements may alias: copy first
			tmp := make([]Value, len(add))
			for i, e := range add {
				tmp[i] = copyVal(e)
			}
			for i, e := range tmp {
				if ex.acc != nil {
					ex.acc.access(ex, fr, &n[len(s.v)+i], true)
				}
				n[len(s.v)+i] = e
			}
			return Slice{n}
		}
		nc := need
		if c2 := 2 * cap(s.v); c2 > nc && cap(s.v) < 256 {
			nc = c2
		}
		n := make([]Value, need, nc)
		for i, e := range s.v {
			if ex.acc != nil {
				ex.acc.access(ex, fr, &s.v[i], false)
			}
			n[i] = copyVal(e)
		}
		for i, e := range add {
			n[len(s.v)+i] = copyVal(e)
		}
		if nc > need {
			var z Value = nil
			if cc != nil {
				et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
				full := n[:nc]
				for i := need; i < nc; i++ {
					full[i] = zero(et)
				}
			} else {
				n = n[:need:need]
			}
			_ = z
		}
		return Slice{n}
	case "copy":
		d, ok := args[0].(Slice)
		if !ok {
			panic(unsup("copy to %T", args[0]))
		}
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y.v
		case string, *SymStr:
			src = strBytes(y)
		default:
			panic(unsup("copy of %T", args[1]))
		}
		n := min(len(d.v), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			if ex.acc != nil {
				ex.acc.access(ex, fr, &d.v[i], true)
			}
			storeInto(&d.v[i], tmp[i])
		}
		return mkConst(64, uint64(n))
	case "delete":
		m, ok := args[0].(*Map)
		if !ok {
			panic(unsup("delete from %T", args[0]))
		}
		if m != nil {
			if ex.acc != nil {
				ex.acc.access(ex, fr, m, true)
			}
			var kt types.Type
			if cc != nil {
				kt = cc.Args[0].Type().Underlying().(*types.Map).Key()
			}
			ex.mapDel(m, args[1], kt)
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				if ex.acc != nil {
					ex.acc.access(ex, fr, x, true)
				}
				for _, e := range x.ents {
					e.dead = true
				}
				x.ents, x.idx, x.live, x.sym = nil, map[interface{}]*mapEntry{}, 0, 0
			}
			return nil
		case Slice:
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x.v {
				x.v[i] = zero(et)
			}
			return nil
		}
	case "close":
		c := args[0].(*Chan)
		if c == nil {
			panic(runtimePanic("close of nil channel"))
		}
		if c.closed {
			panic(runtimePanic("close of closed channel"))
		}
		c.closed = true
		return nil
	case "panic":
		panic(&goPanic{v: args[0], where: ex.where(fr)})
	case "recover":
		// called directly by a deferred function: fr is the deferred function's
		// frame, its caller is the panicking frame.
		if fr != nil && fr.caller != nil && fr.caller.pan != nil {
			p := fr.caller.pan
			fr.caller.pan = nil
			if p.rt != "" {
				return ex.runtimeErrIface(p.rt)
			}
			return p.v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			var less *Term
			t := cc.Args[0].Type()
			less = ex.binop(token.LSS, t, t, y, r).(*Term)
			if b.Name() == "max" {
				less = ex.binop(token.LSS, t, t, r, y).(*Term)
			}
			tr, ok1 := r.(*Term)
			ty, ok2 := y.(*Term)
			if ok1 && ok2 {
				r = ex.c.Ite(less, ty, tr)
			} else if ex.branch(less) {
				r = y
			}
		}
		return r
	case "ssa:wrapnilchk":
		p, ok := args[0].(*Value)
		if ok && p == nil {
			panic(nilDeref())
		}
		return args[0]
	case "ssa:deferstack":
		return fr
	case "String": // unsafe.String(ptr, len)
		return ex.unsafeString(args)
	case "StringData":
		b := strBytes(args[0])
		if len(b) == 0 {
			return nilPtr
		}
		return &sdata{b: b}
	case "SliceData":
		s := args[0].(Slice)
		if cap(s.v) == 0 {
			return nilPtr
		}
		return &sdata{b: s.v[:cap(s.v)]}
	case "Slice":
		n := ex.concInt(args[1], "unsafe.Slice length")
		if d, ok := args[0].(*sdata); ok {
			return Slice{d.b[:n:n]}
		}
		if n == 0 {
			return Slice{}
		}
	}
	panic(unsup("builtin %s on %T", b.Name(), args[0]))
}

type sdata struct{ b []Value }

func (ex *Exec) unsafeString(args []Value) Value {
	n := ex.concInt(args[1], "unsafe.String length")
	if d, ok := args[0].(*sdata); ok {
		return normStr(d.b[:n])
	}
	if n == 0 {
		return ""
	}
	panic(unsup("unsafe.String"))
}

// ---- maps ----

func (ex *Exec) newMap() *Map {
	ex.mapSeq++
	return &Map{idx: map[interface{}]*mapEntry{}, id: ex.mapSeq}
}

func (ex *Exec) mapFind(m *Map, k Value, kt types.Type) *mapEntry {
	if m == nil || m.live == 0 {
		if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
			panic(runtimePanic("hash of unhashable type " + i.t.String()))
		}
		return nil
	}
	ck, conc := concKey(k)
	if conc {
		if e, ok := m.idx[ck]; ok {
			return e
		}
		if m.sym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		eq := ex.c.eqVal(kt, e.k, k)
		if eq == False {
			continue
		}
		if ex.branch(eq) {
			return e
		}
	}
	return nil
}

func (ex *Exec) mapGet(m *Map, k Value, kt types.Type) (Value, bool) {
	e := ex.mapFind(m, k, kt)
	if e == nil {
		return nil, false
	}
	return e.v, true
}

func (ex *Exec) mapSet(m *Map, k, v Value, kt types.Type) {
	if e := ex.mapFind(m, k, kt); e != nil {
		e.v = copyVal(v)
		return
	}
	e := &mapEntry{k: copyVal(k), v: copyVal(v)}
	m.ents = append(m.ents, e)
	m.live++
	if ck, ok := concKey(k); ok {
		m.idx[ck] = e
	} else {
		m.sym++
	}
}

func (ex *Exec) mapDel(m *Map, k Value, kt types.Type) {
	e := ex.mapFind(m, k, kt)
	if e == nil {
		return
	}
	e.dead = true
	m.live--
	if ck, ok := concKey(e.k); ok {
		delete(m.idx, ck)
	} else {
		m.sym--
	}
	for i, x := range m.ents {
		if x == e {
			n := make([]*mapEntry, 0, len(m.ents)-1)
			n = append(n, m.ents[:i]...)
			n = append(n, m.ents[i+1:]...)
			m.ents = n
			break
		}
	}
}

func (ex *Exec) rangeIter(fr *Frame, x Value) Value {
	switch v := x.(type) {
	case *Map:
		it := &mapIter{m: v}
		if v != nil {
			if ex.acc != nil {
				ex.acc.access(ex, fr, v, false)
			}
			it.order = ex.iterOrder(v.ents)
		}
		return it
	case string, *SymStr:
		return &mapIter{isStr: true, str: v}
	}
	panic(unsup("range over %T", x))
}

// iterOrder chooses the iteration order of a map.
func (ex *Exec) iterOrder(ents []*mapEntry) []*mapEntry {
	out := append([]*mapEntry(nil), ents...)
	if !ex.mapOrders || len(out) < 2 {
		return out
	}
	if len(out) <= ex.R.permMax {
		// any permutation
		for i := 0; i < len(out)-1; i++ {
			j := i + ex.pick(len(out)-i, "maporder")
			out[i], out[j] = out[j], out[i]
		}
		return out
	}
	// rotation / reversal
	switch ex.pick(3, "maporder") {
	case 1:
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	case 2:
		out = append(out[1:], out[0])
	}
	return out
}

func (ex *Exec) next(fr *Frame, in *ssa.Next, it *mapIter) Value {
	if it.isStr {
		if it.spos >= strLen(it.str) {
			return Tuple{False, mkConst(64, 0), mkConst(32, 0)}
		}
		r, n := ex.decodeRune(it.str, it.spos)
		p := it.spos
		it.spos += n
		return Tuple{True, mkConst(64, uint64(p)), r}
	}
	if ex.acc != nil && it.m != nil {
		ex.acc.access(ex, fr, it.m, false)
	}
	for it.pos < len(it.order) {
		e := it.order[it.pos]
		it.pos++
		if e.dead {
			continue
		}
		return Tuple{True, copyVal(e.k), copyVal(e.v)}
	}
	tt := in.Type().(*types.Tuple)
	z := func(t types.Type) Value {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return zero(t)
	}
	return Tuple{False, z(tt.At(1).Type()), z(tt.At(2).Type())}
}
