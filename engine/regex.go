package main

// Backtracking matcher over (possibly symbolic) bytes for regexp patterns.

import (
	"go/types"
	"regexp/syntax"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type reProg struct {
	p   *syntax.Prog
	src string
}

func (ex *Exec) reCompile(src string) (*reProg, error) {
	r, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Compile(r.Simplify())
	if err != nil {
		return nil, err
	}
	return &reProg{p, src}, nil
}

func (ex *Exec) reTable() map[*Value]*reProg {
	m, ok := ex.files["regexps"].(map[*Value]*reProg)
	if !ok {
		m = map[*Value]*reProg{}
		ex.files["regexps"] = m
	}
	return m
}

func runeCond(ex *Exec, in *syntax.Inst, b *Term) *Term {
	switch in.Op {
	case syntax.InstRuneAny:
		return True
	case syntax.InstRuneAnyNotNL:
		return ex.c.Not(ex.c.Eq(b, mkConst(8, '\n')))
	}
	rs := in.Rune
	if len(rs) == 1 {
		if rs[0] > 0x7f || syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
			panic(unsup("regexp case folding"))
		}
		return ex.c.Eq(b, mkConst(8, uint64(rs[0])))
	}
	c := False
	for i := 0; i+1 < len(rs); i += 2 {
		lo, hi := rs[i], rs[i+1]
		if lo > 0x7f {
			continue
		}
		if hi > 0x7f {
			hi = 0x7f
		}
		c = ex.c.Or(c, ex.c.And(ex.c.Bin(OpUle, mkConst(8, uint64(lo)), b), ex.c.Bin(OpUle, b, mkConst(8, uint64(hi)))))
	}
	return c
}

// runeAt decodes the character at pos, whose first byte is a constant.
func (ex *Exec) runeAt(s []Value, pos int) (rune, int) {
	var b []byte
	for i := pos; i < len(s) && i < pos+utf8.UTFMax; i++ {
		t := s[i].(*Term)
		if t.op == OpIte {
			// one of a few texts
			t = mkConst(8, ex.concretize(t))
			s[i] = t
		}
		if t.op != OpConst {
			panic(unsup("regexp over non-ASCII text"))
		}
		b = append(b, byte(t.k))
		if utf8.FullRune(b) {
			break
		}
	}
	return utf8.DecodeRune(b)
}

// inRune tells whether pos is inside a character.
func (ex *Exec) inRune(s []Value, pos int) bool {
	for i := pos - 1; i >= 0 && i > pos-utf8.UTFMax; i-- {
		t := s[i].(*Term)
		if t.op != OpConst || t.k < 0x80 {
			return false
		}
		if t.k >= 0xc0 {
			_, n := ex.runeAt(s, i)
			return i+n > pos
		}
	}
	return false
}

// match tries to match at position pos; returns the end or -1 (leftmost-first).
// Positions of captures are recorded in cap unless it is nil.
func (ex *Exec) reMatchAt(p *syntax.Prog, s []Value, pos int, pc uint32, depth int, cap []int) int {
	if depth > 10000 {
		panic(unsup("regexp depth"))
	}
	for {
		in := &p.Inst[pc]
		switch in.Op {
		case syntax.InstMatch:
			return pos
		case syntax.InstFail:
			return -1
		case syntax.InstNop:
			pc = in.Out
		case syntax.InstCapture:
			if int(in.Arg) < len(cap) {
				old := cap[in.Arg]
				cap[in.Arg] = pos
				e := ex.reMatchAt(p, s, pos, in.Out, depth+1, cap)
				if e < 0 {
					cap[in.Arg] = old
				}
				return e
			}
			pc = in.Out
		case syntax.InstAlt, syntax.InstAltMatch:
			if e := ex.reMatchAt(p, s, pos, in.Out, depth+1, cap); e >= 0 {
				return e
			}
			pc = in.Arg
		case syntax.InstEmptyWidth:
			f := syntax.EmptyOp(in.Arg)
			if f&^(syntax.EmptyBeginText|syntax.EmptyEndText|syntax.EmptyBeginLine|syntax.EmptyEndLine) != 0 {
				panic(unsup("regexp assertion"))
			}
			if f&(syntax.EmptyBeginText|syntax.EmptyBeginLine) != 0 && pos != 0 {
				return -1
			}
			if f&(syntax.EmptyEndText|syntax.EmptyEndLine) != 0 && pos != len(s) {
				return -1
			}
			pc = in.Out
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			if pos >= len(s) {
				return -1
			}
			b := s[pos].(*Term)
			if b.op == OpConst && b.k >= 0x80 {
				r, n := ex.runeAt(s, pos)
				if !in.MatchRune(r) {
					return -1
				}
				pos += n
				pc = in.Out
				continue
			}
			if b.op != OpConst {
				if !ex.branch(ex.c.Bin(OpUlt, b, mkConst(8, 0x80))) {
					if b.op != OpIte {
						panic(unsup("regexp over non-ASCII text"))
					}
					s[pos] = mkConst(8, ex.concretize(b))
					continue
				}
			}
			if !ex.branch(runeCond(ex, in, b)) {
				return -1
			}
			pos++
			pc = in.Out
		}
	}
}

func init() {
	compile := func(ex *Exec, src Value) (*reProg, error) {
		s, ok := src.(string)
		if !ok {
			panic(unsup("symbolic regular expression"))
		}
		return ex.reCompile(s)
	}
	mk := func(ex *Exec, fn *ssa.Function, r *reProg, t types.Type) Value {
		c := new(Value)
		*c = &Native{r}
		return c
	}
	intrinsics["regexp.MustCompile"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		r, err := compile(ex, a[0])
		if err != nil {
			panic(&goPanic{rt: "regexp: " + err.Error()})
		}
		return mk(ex, fn, r, nil)
	}
	intrinsics["regexp.Compile"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		r, err := compile(ex, a[0])
		if err != nil {
			return Tuple{nilPtr, ex.mkError(err.Error())}
		}
		return Tuple{mk(ex, fn, r, nil), Iface{}}
	}
	get := func(v Value) *reProg {
		c, ok := v.(*Value)
		if !ok || c == nil {
			panic(nilDeref())
		}
		n, ok := (*c).(*Native)
		if !ok {
			panic(unsup("regexp value"))
		}
		return n.x.(*reProg)
	}
	// submatch returns the capture positions of the first match, nil if there is none
	submatch := func(ex *Exec, r *reProg, s []Value, from int) []int {
		for i := from; i <= len(s); i++ {
			if ex.inRune(s, i) {
				continue
			}
			cap := make([]int, r.p.NumCap)
			for j := range cap {
				cap[j] = -1
			}
			if e := ex.reMatchAt(r.p, s, i, uint32(r.p.Start), 0, cap); e >= 0 {
				cap[0], cap[1] = i, e
				return cap
			}
		}
		return nil
	}
	var noSlice Value = Slice{}
	pick := func(s []Value, cap []int) []Value {
		var out []Value
		for j := 0; j+1 < len(cap); j += 2 {
			if cap[j] < 0 {
				out = append(out, "")
			} else {
				out = append(out, normStr(s[cap[j]:cap[j+1]]))
			}
		}
		return out
	}
	find := func(ex *Exec, r *reProg, s []Value, from int) (int, int) {
		for i := from; i <= len(s); i++ {
			if ex.inRune(s, i) {
				continue
			}
			if e := ex.reMatchAt(r.p, s, i, uint32(r.p.Start), 0, nil); e >= 0 {
				return i, e
			}
		}
		return -1, -1
	}
	intrinsics["(*regexp.Regexp).MatchString"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		i, _ := find(ex, get(a[0]), strBytes(a[1]), 0)
		return mkBool(i >= 0)
	}
	intrinsics["(*regexp.Regexp).FindString"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := strBytes(a[1])
		i, e := find(ex, get(a[0]), s, 0)
		if i < 0 {
			return ""
		}
		return normStr(s[i:e])
	}
	intrinsics["regexp.MatchString"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		r, err := compile(ex, a[0])
		if err != nil {
			return Tuple{False, ex.mkError(err.Error())}
		}
		i, _ := find(ex, r, strBytes(a[1]), 0)
		return Tuple{mkBool(i >= 0), Iface{}}
	}
	repl := func(ex *Exec, r *reProg, s []Value, with Value) Value {
		var out []Value
		pos := 0
		for pos <= len(s) {
			i, e := find(ex, r, s, pos)
			if i < 0 {
				break
			}
			out = append(out, s[pos:i]...)
			if e == i {
				panic(unsup("regexp replacing an empty match"))
			}
			out = append(out, strBytes(with)...)
			pos = e
		}
		if pos < len(s) {
			out = append(out, s[pos:]...)
		}
		return normStr(out)
	}
	intrinsics["(*regexp.Regexp).ReplaceAllString"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		w, ok := a[2].(string)
		if !ok {
			panic(unsup("symbolic regexp replacement"))
		}
		for i := 0; i < len(w); i++ {
			if w[i] == '$' {
				panic(unsup("regexp replacement with $"))
			}
		}
		return repl(ex, get(a[0]), strBytes(a[1]), w)
	}
	intrinsics["(*regexp.Regexp).ReplaceAllLiteralString"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		return repl(ex, get(a[0]), strBytes(a[1]), a[2])
	}
	intrinsics["(*regexp.Regexp).String"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value { return get(a[0]).src }
	intrinsics["(*regexp.Regexp).FindStringSubmatch"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := strBytes(a[1])
		cap := submatch(ex, get(a[0]), s, 0)
		if cap == nil {
			return noSlice
		}
		return Slice{pick(s, cap)}
	}
	intrinsics["(*regexp.Regexp).FindStringSubmatchIndex"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		cap := submatch(ex, get(a[0]), strBytes(a[1]), 0)
		if cap == nil {
			return noSlice
		}
		out := make([]Value, len(cap))
		for i := range cap {
			out[i] = mkConst(64, uint64(int64(cap[i])))
		}
		return Slice{out}
	}
	intrinsics["(*regexp.Regexp).FindStringIndex"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		i, e := find(ex, get(a[0]), strBytes(a[1]), 0)
		if i < 0 {
			return noSlice
		}
		return Slice{[]Value{mkConst(64, uint64(i)), mkConst(64, uint64(e))}}
	}
	intrinsics["(*regexp.Regexp).FindAllString"] = func(ex *Exec, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := strBytes(a[1])
		lim, ok := a[2].(*Term)
		if !ok || lim.op != OpConst {
			panic(unsup("symbolic match limit"))
		}
		max := int64(lim.k)
		var out []Value
		for pos := 0; pos <= len(s) && (max < 0 || int64(len(out)) < max); {
			i, e := find(ex, get(a[0]), s, pos)
			if i < 0 {
				break
			}
			if e == i {
				panic(unsup("regexp finding an empty match"))
			}
			out = append(out, normStr(s[i:e]))
			pos = e
		}
		if out == nil {
			return noSlice
		}
		return Slice{out}
	}
}
