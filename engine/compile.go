package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	okConst opKind = iota
	okSlot
	okGlobal
	okNone
)

type opnd struct {
	kind opKind
	slot int
	val  Value
	g    *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	dst int // -1 if none
	ops []opnd
}

type cblock struct {
	phis   []cinstr
	instrs []cinstr
	succs  []int
	loopHd bool
}

type fnInfo struct {
	fn      *ssa.Function
	name    string
	nslots  int
	params  []int
	free    []int
	blocks  []cblock
	recover int
	intr    intrinsicFn
	repl    *ssa.Function
	inMod   bool
	noBody  bool
	harness bool
	why     string
}

type intrinsicFn func(ex *Exec, fr *Frame, fn *ssa.Function, args []Value) Value

var fnCache sync.Map // *ssa.Function -> *fnInfo

func (P *Program) ensureBuilt(pkg *ssa.Package) {
	if pkg == nil {
		return
	}
	lp := P.pkgs[pkg.Pkg.Path()]
	if lp == nil || lp.noBody {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			lp.noBody = true
			if os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "BUILD %s: %v\n%s\n", lp.ImportPath, r, debug.Stack())
			}
		}
	}()
	pkg.Build()
}

func baseName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Prog.Package(fn.Object().Pkg())
	}
	return nil
}

func (R *Runner) info(fn *ssa.Function) *fnInfo {
	if fi, ok := fnCache.Load(fn); ok {
		return fi.(*fnInfo)
	}
	fi := R.compile(fn)
	a, _ := fnCache.LoadOrStore(fn, fi)
	return a.(*fnInfo)
}

func (R *Runner) compile(fn *ssa.Function) *fnInfo {
	P := R.P
	fi := &fnInfo{fn: fn, name: fn.String(), recover: -1}
	bn := baseName(fn)
	pkg := fnPkg(fn)
	if pkg != nil {
		if lp := P.pkgs[pkg.Pkg.Path()]; lp != nil {
			fi.inMod = lp.inMod
			fi.harness = lp.inMod && (isHarnessPkg(lp.ImportPath) || strings.Contains(P.fset.Position(fn.Pos()).Filename, "zzverif"))
		}
	}
	if fn.Synthetic == "" || fn.Origin() != nil || fn.Object() != nil {
		if fn.Synthetic == "" || strings.HasPrefix(fn.Synthetic, "instance") || len(fn.Blocks) == 0 {
			if r, ok := R.repl[bn]; ok {
				P.ensureBuilt(r.Pkg)
				fi.repl = r
				return fi
			}
			if f, ok := intrinsics[bn]; ok {
				fi.intr = f
				return fi
			}
		}
	}
	P.ensureBuilt(pkg)
	if len(fn.Blocks) == 0 {
		fi.noBody = true
		fi.why = "no body to encode: " + bn
		return fi
	}
	slot := map[ssa.Value]int{}
	alloc := func(v ssa.Value) int {
		s := fi.nslots
		slot[v] = s
		fi.nslots++
		return s
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, alloc(p))
	}
	for _, p := range fn.FreeVars {
		fi.free = append(fi.free, alloc(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	mkop := func(v ssa.Value) opnd {
		if v == nil {
			return opnd{kind: okNone}
		}
		switch x := v.(type) {
		case *ssa.Const:
			return opnd{kind: okConst, val: constVal(x)}
		case *ssa.Function:
			return opnd{kind: okConst, val: x}
		case *ssa.Builtin:
			return opnd{kind: okConst, val: x}
		case *ssa.Global:
			return opnd{kind: okGlobal, g: x}
		}
		s, ok := slot[v]
		if !ok {
			panic(fmt.Sprintf("no slot for %v in %v", v, fn))
		}
		return opnd{kind: okSlot, slot: s}
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cb := &fi.blocks[i]
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = slot[v]
			}
			for _, o := range in.Operands(nil) {
				if o == nil {
					ci.ops = append(ci.ops, opnd{kind: okNone})
				} else {
					ci.ops = append(ci.ops, mkop(*o))
				}
			}
			if _, ok := in.(*ssa.Phi); ok {
				cb.phis = append(cb.phis, ci)
			} else {
				cb.instrs = append(cb.instrs, ci)
			}
		}
	}
	if fn.Recover != nil {
		fi.recover = fn.Recover.Index
	}
	return fi
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		if k, ok := basicInt(b); ok {
			if k.signed {
				return mkConst(k.w, uint64(c.Int64()))
			}
			return mkConst(k.w, c.Uint64())
		}
		switch {
		case b.Info()&types.IsBoolean != 0:
			return mkBool(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		case b.Info()&types.IsFloat != 0:
			return c.Float64()
		case b.Info()&types.IsComplex != 0:
			return c.Complex128()
		}
	}
	// type-parameterised constants and the like
	return Poison{"constant of type " + c.Type().String()}
}
