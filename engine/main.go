package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	flagProp    = flag.String("prop", "", "property id")
	flagTier    = flag.String("tier", "quick", "quick or thorough")
	flagVerif   = flag.String("verif", "/verif", "verification tree")
	flagRepo    = flag.String("repo", "/repo", "tree under test")
	flagHarness = flag.String("harness", "", "only this harness")
	flagBudget  = flag.Float64("budget", 0, "exploration seconds")
	flagNoRepl  = flag.Bool("noreplay", false, "skip native replay (development)")
	flagVerbose = flag.Bool("v", false, "verbose")
	flagReplay  = flag.String("replay", "", "replay a recorded counterexample file natively")
	flagWarm    = flag.Bool("warm", false, "build the native replay binaries once to fill the build cache")
	flagWorkers = flag.Int("workers", runtime.NumCPU(), "workers")
)

// harnessFn is one harness function found in the overlay.
type harnessFn struct {
	name     string
	pkg      string // import path
	dir      string // directory in the repo
	reach    []string
	bounds   []string
	weight   float64
	thorough bool
	quickOff bool
	vfs, net bool // the package runs against the virtual file system
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
	Status   string `json:"status"`
	Commit   string `json:"commit,omitempty"`
}

func logf(f string, a ...interface{}) {
	if *flagVerbose {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func readKnown(path string) []knownFinding {
	var out []knownFinding
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(data), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil {
			out = append(out, k)
		}
	}
	return out
}

var fnRe = regexp.MustCompile(`(?m)^func (VP_([A-Z][0-9]+)_\w+)\(\)`)
var reachRe = regexp.MustCompile(`\.Reach\("([^"]+)"\)`)
var replRe = regexp.MustCompile(`(?m)^//gosym:replace (.+)$`)

func findHarnesses(root, repo, mod, prop string) (map[string]string, []*harnessFn, error) {
	overlay := map[string]string{}
	var hs []*harnessFn
	err := filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, path)
		overlay[filepath.Join(repo, rel)] = path
		data, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		src := string(data)
		locs := fnRe.FindAllStringSubmatchIndex(src, -1)
		for i, l := range locs {
			name, id := src[l[2]:l[3]], src[l[4]:l[5]]
			if prop != "" && id != prop {
				continue
			}
			end := len(src)
			if i+1 < len(locs) {
				end = locs[i+1][0]
			}
			body := src[l[0]:end]
			if e := strings.Index(body, "\n}\n"); e > 0 {
				body = body[:e]
			}
			h := &harnessFn{name: name, dir: filepath.Join(repo, filepath.Dir(rel)), weight: 1, vfs: strings.Contains(src, "\n//gosym:vfs\n"), net: strings.Contains(src, "\n//gosym:net\n")}
			h.pkg = mod + "/" + filepath.ToSlash(filepath.Dir(rel))
			for _, m := range reachRe.FindAllStringSubmatch(body, -1) {
				h.reach = append(h.reach, m[1])
			}
			// doc comment directives
			doc := src[:l[0]]
			for {
				doc = strings.TrimRight(doc, "\n")
				k := strings.LastIndex(doc, "\n")
				line := doc[k+1:]
				if !strings.HasPrefix(line, "//") {
					break
				}
				switch {
				case strings.HasPrefix(line, "//gosym:bounds "):
					h.bounds = append([]string{strings.TrimPrefix(line, "//gosym:bounds ")}, h.bounds...)
				case strings.HasPrefix(line, "//gosym:weight "):
					h.weight, _ = strconv.ParseFloat(strings.TrimSpace(strings.TrimPrefix(line, "//gosym:weight ")), 64)
				case strings.HasPrefix(line, "//gosym:thorough"):
					h.thorough = true
				}
				if k < 0 {
					break
				}
				doc = doc[:k]
			}
			hs = append(hs, h)
		}
		return nil
	})
	sort.Slice(hs, func(i, j int) bool { return hs[i].name < hs[j].name })
	return overlay, hs, err
}

type harnessResult struct {
	h     *harnessFn
	st    Stats
	cands map[string][]*Candidate
	smps  []Sample
	wall  float64
	why   string
}

type session struct {
	scratch  string
	overlay  map[string]string
	ovFile   string
	modFile  string
	goArgs   []string
	goEnv    []string
	known    []knownFinding
	prop     string
	tier     string
	mu       sync.Mutex
	viol     []violation
	findings map[string]knownFinding
	unrepro  []string
	native   map[string]*nativeBin
	stop     bool
	sel      []*harnessFn
	valid    int
	diverged []string
	natErr   []string
	smpDone  []interface{}
}

type violation struct {
	c      *Candidate
	detail string
	path   string
}

func main() {
	flag.Parse()
	thorough = *flagTier == "thorough"
	t0 := time.Now()
	if *flagProp == "" && *flagReplay == "" && !*flagWarm {
		fmt.Fprintln(os.Stderr, "usage: gosym -prop ID")
		os.Exit(0)
	}
	code := 0
	func() {
		scratch, err := os.MkdirTemp("", "gosym-")
		if err != nil {
			fmt.Println("scratch:", err)
			return
		}
		defer os.RemoveAll(scratch)
		if *flagWarm {
			warm(scratch)
			return
		}
		if *flagReplay != "" {
			code = replayFile(scratch, *flagReplay)
			return
		}
		code = check(scratch, *flagProp, t0)
	}()
	os.Exit(code)
}

func newSession(scratch, prop string) (*session, []*harnessFn, error) {
	s := &session{scratch: scratch, prop: prop, tier: *flagTier, native: map[string]*nativeBin{}, findings: map[string]knownFinding{}}
	s.known = readKnown(filepath.Join(*flagVerif, "known-findings.jsonl"))
	ov, hs, err := findHarnesses(filepath.Join(*flagVerif, "harness", "overlay"), *flagRepo, "github.com/netauth/netauth", prop)
	if err != nil {
		return nil, nil, err
	}
	s.overlay = ov
	s.modFile = filepath.Join(scratch, "go.mod")
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(*flagRepo, n))
		if err != nil {
			return nil, nil, err
		}
		if err := os.WriteFile(filepath.Join(scratch, n), b, 0o644); err != nil {
			return nil, nil, err
		}
	}
	vfs, net := false, false
	for _, h := range hs {
		vfs, net = vfs || h.vfs, net || h.net
	}
	if vfs || net {
		if err := addRewrites(*flagRepo, scratch, ov, net); err != nil {
			return nil, nil, err
		}
	}
	s.ovFile = filepath.Join(scratch, "overlay.json")
	js, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	if err := os.WriteFile(s.ovFile, js, 0o644); err != nil {
		return nil, nil, err
	}
	s.goArgs = []string{"-overlay", s.ovFile, "-modfile", s.modFile}
	s.goEnv = []string{"GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "GOWORK=off"}
	return s, hs, nil
}

func check(scratch, prop string, t0 time.Time) int {
	s, hs, err := newSession(scratch, prop)
	ev := newEvidence(prop)
	if err != nil {
		return ev.finishEmpty(t0, err.Error())
	}
	var sel []*harnessFn
	for _, h := range hs {
		if *flagHarness != "" && h.name != *flagHarness {
			continue
		}
		if h.thorough && !thorough {
			continue
		}
		sel = append(sel, h)
	}
	if len(sel) == 0 {
		return ev.finishEmpty(t0, "no harness for this property")
	}
	s.sel = sel
	pkgSet := map[string]bool{}
	var pats []string
	for _, h := range sel {
		if !pkgSet[h.pkg] {
			pkgSet[h.pkg] = true
			pats = append(pats, h.pkg)
		}
	}
	if !*flagNoRepl {
		for _, p := range pats {
			s.startBuild(p, hsIn(sel, p), false)
		}
	}
	P := &Program{overlay: s.overlay, modPath: "github.com/netauth/netauth", goArgs: s.goArgs, goEnv: s.goEnv}
	groups := [][]string{pats}
	if err := P.load(*flagRepo, pats); err != nil {
		if len(pats) == 1 {
			return ev.finishEmpty(t0, "cannot encode: "+err.Error())
		}
		groups = nil
		for _, p := range pats {
			groups = append(groups, []string{p})
		}
	}
	_ = groups
	logf("loaded %d packages in %.1fs", len(P.order), time.Since(t0).Seconds())
	R, err := newRunner(P)
	if err != nil {
		return ev.finishEmpty(t0, err.Error())
	}
	budget := 110.0
	if thorough {
		budget = 600
	}
	if *flagBudget > 0 {
		budget = *flagBudget
	}
	deadline := time.Now().Add(time.Duration(budget * float64(time.Second)))
	var results []*harnessResult
	for i, h := range sel {
		var wsum float64
		for _, k := range sel[i:] {
			wsum += k.weight
		}
		left := time.Until(deadline).Seconds()
		share := left * h.weight / wsum
		if share < 1 {
			share = 1
		}
		r := s.runHarness(R, h, time.Duration(share*float64(time.Second)))
		results = append(results, r)
		s.mu.Lock()
		stop := s.stop
		s.mu.Unlock()
		if stop {
			break
		}
	}
	s.settle(results, t0)
	return ev.finish(s, results, sel, t0)
}

func hsIn(hs []*harnessFn, pkg string) []*harnessFn {
	var out []*harnessFn
	for _, h := range hs {
		if h.pkg == pkg {
			out = append(out, h)
		}
	}
	return out
}

func newRunner(P *Program) (*Runner, error) {
	R := &Runner{P: P, repl: map[string]*ssa.Function{}, maxDepth: 1500, maxSteps: 3000000, permMax: 3, solverBin: "z3", solverMS: 8000,
		perPath: map[string]bool{}, implC: map[implKey]bool{}, methC: map[methKey]*ssa.Function{}}
	if thorough {
		R.permMax = 4
		R.solverMS = 30000
	}
	if rp := P.pkgs["runtime"]; rp != nil && rp.types != nil {
		if o := rp.types.Scope().Lookup("errorString"); o != nil {
			R.rtErrType = o.Type()
		}
	}
	for _, p := range []string{"github.com/spf13/viper", "github.com/spf13/pflag", "github.com/spf13/cobra", "github.com/dgrijalva/jwt-go"} {
		R.perPath[p] = true
	}
	// stand-ins named by the harness environment
	for _, lp := range P.order {
		if !lp.inMod || !isHarnessPkg(lp.ImportPath) || lp.ssa == nil {
			continue
		}
		for _, f := range lp.files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if m := replRe.FindStringSubmatch(c.Text); m != nil {
						fn := lp.ssa.Func(fd.Name.Name)
						if fn == nil {
							return nil, fmt.Errorf("stand-in %s not found", fd.Name.Name)
						}
						R.repl[strings.TrimSpace(m[1])] = fn
					}
				}
			}
		}
	}
	return R, nil
}

func (s *session) runHarness(R *Runner, h *harnessFn, d time.Duration) *harnessResult {
	t0 := time.Now()
	res := &harnessResult{h: h}
	fn := R.lookupFunc(h.pkg, h.name)
	if fn == nil {
		res.why = "harness function not found"
		return res
	}
	E := &Explorer{R: R, harness: fn, hname: h.name, deadline: time.Now().Add(d)}
	E.nsample = 6
	if thorough {
		E.nsample = 24
	}
	if n, err := strconv.Atoi(os.Getenv("GOSYM_SAMPLES")); err == nil {
		E.nsample, E.everySample = n, true
	}
	done := make(chan struct{})
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(200 * time.Millisecond):
				s.mu.Lock()
				st := s.stop
				s.mu.Unlock()
				if st {
					E.mu.Lock()
					E.stop = true
					E.mu.Unlock()
					E.cond.Broadcast()
					return
				}
			}
		}
	}()
	E.cond = sync.NewCond(&E.mu)
	E.onCand = func(c *Candidate) {
		logf("candidate %s %s: %s %s %v", c.Harness, c.Kind, c.Label, c.Detail, c.Inputs)
		if !*flagNoRepl {
			s.submit(h, c)
		}
	}
	E.run(*flagWorkers)
	close(done)
	res.st = E.stats
	res.cands = E.cands
	res.smps = E.samples
	res.wall = time.Since(t0).Seconds()
	if *flagVerbose {
		st := &res.st
		fmt.Fprintf(os.Stderr, "%s: paths=%d infeasible=%d branches=%d forks=%d asserts=%d(const %d) queries=%d sat=%d unsat=%d unk=%d errs=%d solver=%.1fs steps=%d exhausted=%v wall=%.1fs funcs=%d vars=%d\n", h.name, st.Paths, st.Infeasible, st.Branches, st.Forks,
			st.Asserts, st.AssertConst, st.Queries, st.SatN, st.UnsatN, st.UnkN, st.Errs, st.SolverTime.Seconds(), st.Steps, st.Exhausted, res.wall, len(st.Funcs), st.MaxVars)
		for k, v := range st.Incomplete {
			fmt.Fprintf(os.Stderr, "  incomplete %d: %s\n", v, k)
		}
		for _, l := range h.reach {
			if st.Reached[l] == 0 {
				fmt.Fprintf(os.Stderr, "  NEVER REACHED: %s\n", l)
			}
		}
		fmt.Fprintf(os.Stderr, "  reach %v\n  asserts %v\n", st.Reached, st.AssertSeen)
	}
	return res
}

var _ = types.Typ

func warm(scratch string) {
	s, hs, err := newSession(scratch, "")
	if err != nil {
		fmt.Println(err)
		return
	}
	seen := map[string]bool{}
	for _, h := range hs {
		if !seen[h.pkg] {
			seen[h.pkg] = true
			nb := s.startBuild(h.pkg, hsIn(hs, h.pkg), false)
			<-nb.done
			if nb.err != nil {
				fmt.Println(nb.err)
			}
		}
	}
}
