package main

// Intrinsics of the harness vocabulary (package internal/zznd).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const ndPath = "github.com/netauth/netauth/internal/zznd"

func isHarnessPkg(path string) bool {
	return strings.Contains(path, "/internal/zz")
}

func (ex *Exec) cstr(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(unsup("label is not a constant"))
	}
	return s
}

// accessRec records memory accesses with the locks held (race checks).
type accessRec struct {
	on    bool
	held  map[*Value]bool // lock -> exclusive
	log   map[interface{}]*cellAcc
	roots map[interface{}]bool // cells reachable by both operations
	desc  map[interface{}]string
}

type accSite struct {
	write bool
	locks map[*Value]bool
	where string
}

type cellAcc struct{ sites []accSite }

func (a *accessRec) lock(p *Value, excl bool) { a.held[p] = excl }
func (a *accessRec) unlock(p *Value)          { delete(a.held, p) }

func (a *accessRec) access(ex *Exec, fr *Frame, p interface{}, write bool) {
	if !a.on {
		return
	}
	if a.roots != nil {
		if !a.roots[p] {
			return
		}
	}
	// the instruction must belong to the module, outside the harness
	f := fr
	for f != nil && f.fi.harness {
		return
	}
	c := a.log[p]
	if c == nil {
		c = &cellAcc{}
		a.log[p] = c
	}
	l := make(map[*Value]bool, len(a.held))
	for k, v := range a.held {
		l[k] = v
	}
	for _, s := range c.sites {
		if s.write == write && sameLocks(s.locks, l) {
			return
		}
	}
	c.sites = append(c.sites, accSite{write, l, ex.where(fr)})
}

func sameLocks(a, b map[*Value]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// reach collects every cell and map reachable from v.
func reach(v Value, seen map[interface{}]bool) {
	switch x := v.(type) {
	case *Value:
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		reachIn(x, seen)
	case Slice:
		full := x.v[:cap(x.v)]
		for i := range full {
			if !seen[&full[i]] {
				seen[&full[i]] = true
				reachIn(&full[i], seen)
			}
		}
	case *Map:
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		for _, e := range x.ents {
			reach(e.k, seen)
			reach(e.v, seen)
		}
	case Iface:
		reach(x.v, seen)
	case *Closure:
		for _, e := range x.env {
			reach(e, seen)
		}
	case Struct:
		for i := range x {
			reachIn(&x[i], seen)
		}
	case Array:
		for i := range x {
			reachIn(&x[i], seen)
		}
	}
}

func reachIn(c *Value, seen map[interface{}]bool) {
	seen[c] = true
	switch x := (*c).(type) {
	case Struct:
		for i := range x {
			reachIn(&x[i], seen)
		}
	case Array:
		for i := range x {
			reachIn(&x[i], seen)
		}
	default:
		reach(x, seen)
	}
}

func excludes(a, b map[*Value]bool) bool {
	for k, ex1 := range a {
		if ex2, ok := b[k]; ok && (ex1 || ex2) {
			return true
		}
	}
	return false
}

func init() {
	nd := func(name string, f intrinsicFn) { intrinsics[ndPath+"."+name] = f }
	rec := func(ex *Exec, kind string, name Value, t *Term, sgn bool) {
		ex.inputs = append(ex.inputs, Input{Kind: kind, Name: ex.cstr(name), term: t, sgn: sgn})
	}
	nd("Symbolic", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value { return True })
	nd("Thorough", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value { return mkBool(thorough) })
	nd("Bool", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := ex.newVar(0, 0)
		rec(ex, "bool", a[0], t, false)
		return t
	})
	ints := map[string]struct {
		w uint8
		s bool
	}{"Byte": {8, false}, "Int32": {32, true}, "Int64": {64, true}, "Uint32": {32, false}, "Int": {64, true}}
	for n, k := range ints {
		k := k
		nd(n, func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
			t := ex.newVar(k.w, 0)
			rec(ex, "int", a[0], t, k.s)
			return t
		})
	}
	// IntRange(name, lo, hi): symbolic int in [lo,hi]
	nd("IntRange", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		lo, hi := a[1].(*Term), a[2].(*Term)
		if lo.op != OpConst || hi.op != OpConst {
			panic(unsup("IntRange bounds"))
		}
		t := ex.newVar(64, lo.k)
		rec(ex, "int", a[0], t, true)
		ex.assume(ex.c.Bin(OpSle, lo, t))
		ex.assume(ex.c.Bin(OpSle, t, hi))
		return t
	})
	nd("Pick", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := ex.concInt(a[1], "pick")
		if n <= 0 {
			panic(&pathEnd{"infeasible"})
		}
		v := ex.pick(n, "pick")
		ex.inputs = append(ex.inputs, Input{Kind: "pick", Name: ex.cstr(a[0]), pick: v})
		return intV(v)
	})
	// Str(name, minLen, maxLen, alphabet)
	nd("Str", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		lo, hi := ex.concInt(a[1], "min"), ex.concInt(a[2], "max")
		alpha := ex.cstr(a[3])
		n := lo + ex.pick(hi-lo+1, "len")
		ranges := parseAlphabet(alpha)
		b := make([]Value, n)
		for i := range b {
			init := uint64(0)
			if len(ranges) > 0 {
				init = uint64(ranges[0][0])
			}
			t := ex.newVar(8, init)
			b[i] = t
			if len(ranges) > 0 {
				c := False
				for _, r := range ranges {
					if r[0] == r[1] {
						c = ex.c.Or(c, ex.c.Eq(t, mkConst(8, uint64(r[0]))))
					} else {
						c = ex.c.Or(c, ex.c.And(ex.c.Bin(OpUle, mkConst(8, uint64(r[0])), t), ex.c.Bin(OpUle, t, mkConst(8, uint64(r[1])))))
					}
				}
				ex.assume(c)
			}
		}
		ex.inputs = append(ex.inputs, Input{Kind: "string", Name: ex.cstr(a[0]), str: b})
		return normStr(b)
	})
	// Choose(name, opts...): symbolic selection among same-length or different strings.
	// Same-length groups stay symbolic (one selector variable), lengths fork.
	nd("Choose", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		opts := a[1].(Slice).v
		strs := make([]string, len(opts))
		for i, o := range opts {
			strs[i] = ex.cstr(o)
		}
		groups := map[int][]int{}
		var lens []int
		for i, s := range strs {
			if _, ok := groups[len(s)]; !ok {
				lens = append(lens, len(s))
			}
			groups[len(s)] = append(groups[len(s)], i)
		}
		g := groups[lens[ex.pick(len(lens), "choose")]]
		if len(g) == 1 {
			ex.inputs = append(ex.inputs, Input{Kind: "string", Name: ex.cstr(a[0]), str: strBytes(strs[g[0]])})
			return strs[g[0]]
		}
		sel := ex.newVar(8, 0)
		ex.assume(ex.c.Bin(OpUlt, sel, mkConst(8, uint64(len(g)))))
		n := len(strs[g[0]])
		b := make([]Value, n)
		for p := 0; p < n; p++ {
			t := mkConst(8, uint64(strs[g[len(g)-1]][p]))
			for k := len(g) - 2; k >= 0; k-- {
				t = ex.c.Ite(ex.c.Eq(sel, mkConst(8, uint64(k))), mkConst(8, uint64(strs[g[k]][p])), t)
			}
			b[p] = t
		}
		ex.inputs = append(ex.inputs, Input{Kind: "string", Name: ex.cstr(a[0]), str: b})
		return normStr(b)
	})
	nd("Assume", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		ex.assume(a[0].(*Term))
		return nil
	})
	nd("Assert", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		ex.assert(a[0].(*Term), ex.cstr(a[1]))
		return nil
	})
	nd("Reach", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		ex.reached[ex.cstr(a[0])] = true
		return nil
	})
	nd("CapturePrint", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		ex.printed = ""
		return nil
	})
	nd("Printed", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		if ex.printed == nil {
			return ""
		}
		return ex.printed
	})
	nd("Note", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		ex.notes = append(ex.notes, noteVal{ex.cstr(a[0]), a[1]})
		return nil
	})
	nd("NoteInt", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		ex.notes = append(ex.notes, noteVal{ex.cstr(a[0]), a[1]})
		return nil
	})
	nd("NoteBool", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		ex.notes = append(ex.notes, noteVal{ex.cstr(a[0]), a[1]})
		return nil
	})
	nd("MapOrders", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		ex.mapOrders = a[0] == Value(True)
		return nil
	})
	nd("Stop", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value { panic(&pathEnd{"exit"}) })
	// Eq/And/Or without forking
	nd("And", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		return ex.c.And(a[0].(*Term), a[1].(*Term))
	})
	nd("Or", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		return ex.c.Or(a[0].(*Term), a[1].(*Term))
	})
	nd("Implies", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		return ex.c.Or(ex.c.Not(a[0].(*Term)), a[1].(*Term))
	})
	// IsConcrete(s) tells whether a string has no symbolic bytes
	nd("IsConcrete", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		_, ok := a[0].(string)
		return mkBool(ok)
	})
	nd("Fix", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(*SymStr); ok {
			b := make([]Value, len(s.b))
			for i, x := range s.b {
				b[i] = mkConst(8, ex.concretize(x.(*Term)))
			}
			return normStr(b)
		}
		return a[0]
	})
	nd("FixInt", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkConst(64, ex.concretize(a[0].(*Term)))
	})
	// Interpose(f): run f as another thread at this point. Returns false when
	// the other thread would block (the engine prunes that interleaving).
	nd("Interpose", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := ex.thread
		ex.thread = t + 1
		ex.call(fr, a[0], nil)
		ex.thread = t
		return True
	})
	nd("GoSync", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		return nil
	})
	nd("Settle", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		ex.drain()
		return nil
	})
	// RaceRoots(x): from here accesses to memory reachable from x are recorded
	// RaceOps(f, g): both operations run from this state; report unordered conflicts
	nd("Race", func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		roots := map[interface{}]bool{}
		for _, r := range a[0].(Slice).v {
			reach(r, roots)
		}
		if closures := a[1:]; len(closures) > 0 {
			_ = closures
		}
		// package-level variables of the module are shared as well
		for g, c := range ex.globals {
			if g.Pkg != nil && !isHarnessPkg(g.Pkg.Pkg.Path()) {
				roots[c] = true
				reachIn(c, roots)
			}
		}
		var logs [2]map[interface{}]*cellAcc
		for i := 0; i < 2; i++ {
			ex.acc = &accessRec{on: true, held: map[*Value]bool{}, log: map[interface{}]*cellAcc{}, roots: roots}
			ex.thread = i + 1
			ex.call(fr, a[1+i], nil)
			logs[i] = ex.acc.log
			ex.acc = nil
		}
		ex.thread = 1
		for p, ca := range logs[0] {
			cb := logs[1][p]
			if cb == nil {
				continue
			}
			for _, s1 := range ca.sites {
				for _, s2 := range cb.sites {
					if (s1.write || s2.write) && !excludes(s1.locks, s2.locks) {
						w := func(s accSite) string {
							if s.write {
								return "write"
							}
							return "read"
						}
						if ex.pos >= len(ex.prefix) {
							lbl := "data race: " + ex.cstr(a[3])
							ex.report("race", lbl, w(s1)+" at "+s1.where+" / "+w(s2)+" at "+s2.where, ex.model)
						}
						panic(&pathEnd{"violated"})
					}
				}
			}
		}
		ex.nassert++
		ex.assertSeen[ex.cstr(a[3])] = true
		return nil
	})
	_ = types.Typ
}

func parseAlphabet(s string) [][2]byte {
	var out [][2]byte
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
			out = append(out, [2]byte{s[i], s[i]})
			continue
		}
		if i+2 < len(s) && s[i+1] == '-' {
			out = append(out, [2]byte{s[i], s[i+2]})
			i += 2
			continue
		}
		out = append(out, [2]byte{s[i], s[i]})
	}
	return out
}

var thorough bool
