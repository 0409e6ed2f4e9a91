package main

// Native replay: every counterexample, and a sample of the explored paths,
// is executed against the compiled real code with the concrete inputs the
// solver produced. Only reproduced violations are reported.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type nativeBin struct {
	pkg  string
	race bool
	path string
	err  error
	done chan struct{}
}

type nativeOut struct {
	Status string   `json:"status"` // ok, violated, panic, infeasible, stop
	Label  string   `json:"label"`
	Detail string   `json:"detail"`
	Notes  []string `json:"notes"`
	Reach  []string `json:"reach"`
}

func (s *session) startBuild(pkg string, hs []*harnessFn, race bool) *nativeBin {
	key := pkg
	if race {
		key += " race"
	}
	s.mu.Lock()
	if b := s.native[key]; b != nil {
		s.mu.Unlock()
		return b
	}
	nb := &nativeBin{pkg: pkg, race: race, done: make(chan struct{})}
	s.native[key] = nb
	n := len(s.native)
	s.mu.Unlock()
	go func() {
		defer close(nb.done)
		nb.build(s, pkg, hs, n)
	}()
	return nb
}

func (nb *nativeBin) build(s *session, pkg string, hs []*harnessFn, n int) {
	dir := hs[0].dir
	var b bytes.Buffer
	name := filepath.Base(dir)
	if pn := packageName(s, dir); pn != "" {
		name = pn
	}
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"testing\"\n\n\t\"github.com/netauth/netauth/internal/zznd\"\n)\n\nfunc TestZZReplay(t *testing.T) {\n\tzznd.RunReplay(map[string]func(){\n", name)
	for _, h := range hs {
		fmt.Fprintf(&b, "\t\t%q: %s,\n", h.name, h.name)
	}
	fmt.Fprintf(&b, "\t})\n}\n")
	tf := filepath.Join(s.scratch, fmt.Sprintf("zz_replay%d_test.go", n))
	if nb.err = os.WriteFile(tf, b.Bytes(), 0o644); nb.err != nil {
		return
	}
	ov := map[string]string{}
	for k, v := range s.overlay {
		ov[k] = v
	}
	// the package's own test files stay out of the replay binary
	ms, _ := filepath.Glob(filepath.Join(dir, "*_test.go"))
	for _, m := range ms {
		ov[m] = ""
	}
	ov[filepath.Join(dir, "zzreplay_test.go")] = tf
	js, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(s.scratch, fmt.Sprintf("overlay%d.json", n))
	if nb.err = os.WriteFile(of, js, 0o644); nb.err != nil {
		return
	}
	nb.path = filepath.Join(s.scratch, fmt.Sprintf("replay%d.test", n))
	args := []string{"test", "-c", "-vet=off", "-overlay", of, "-modfile", s.modFile, "-o", nb.path}
	if nb.race {
		args = append(args, "-race")
	}
	args = append(args, pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = *flagRepo
	cmd.Env = append(os.Environ(), s.goEnv...)
	out, err := cmd.CombinedOutput()
	if err != nil {
		nb.err = fmt.Errorf("go test -c %s: %v: %s", pkg, err, trim(string(out), 1500))
	}
}

func packageName(s *session, dir string) string {
	for k, v := range s.overlay {
		if filepath.Dir(k) == dir {
			data, _ := os.ReadFile(v)
			for _, l := range strings.Split(string(data), "\n") {
				if strings.HasPrefix(l, "package ") {
					return strings.Fields(l)[1]
				}
			}
		}
	}
	return ""
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var natSem = make(chan struct{}, 6)

// runOnce executes one replay.
func (nb *nativeBin) runOnce(s *session, h string, inputs []ReplayVal, timeout time.Duration, tag string) (*nativeOut, string) {
	natSem <- struct{}{}
	defer func() { <-natSem }()
	dir, err := os.MkdirTemp(s.scratch, "run")
	if err != nil {
		return nil, err.Error()
	}
	defer os.RemoveAll(dir)
	js, _ := json.Marshal(map[string]interface{}{"harness": h, "inputs": inputs, "thorough": thorough})
	in, out := filepath.Join(dir, "in.json"), filepath.Join(dir, "out.json")
	os.WriteFile(in, js, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, nb.path, "-test.run", "^TestZZReplay$", "-test.timeout", "0")
	if !nb.race {
		// a run without end must not take all memory with it
		cmd = exec.CommandContext(ctx, "/bin/sh", "-c", `ulimit -v 12000000; exec "$0" "$@"`, nb.path, "-test.run", "^TestZZReplay$", "-test.timeout", "0")
	}
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOSYM_REPLAY="+in, "GOSYM_OUT="+out, "GOSYM_DIR="+dir, "HOME="+dir, "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66", "GOMEMLIMIT=2GiB")
	var eb bytes.Buffer
	cmd.Stdout = &limitW{b: &eb, n: 200000}
	cmd.Stderr = cmd.Stdout
	err = cmd.Run()
	txt := eb.String()
	if nb.race && strings.Contains(txt, "WARNING: DATA RACE") {
		return &nativeOut{Status: "race", Detail: trim(txt, 3000)}, txt
	}
	if data, e2 := os.ReadFile(out); e2 == nil {
		var o nativeOut
		if json.Unmarshal(data, &o) == nil {
			return &o, txt
		}
	}
	if ctx.Err() != nil {
		return &nativeOut{Status: "timeout", Detail: "no end after " + timeout.String()}, txt
	}
	if err != nil {
		st := "crash"
		d := txt
		if strings.Contains(txt, "stack overflow") || strings.Contains(txt, "goroutine stack exceeds") {
			st = "overflow"
			d = "stack overflow"
		} else if i := strings.Index(txt, "fatal error: "); i >= 0 {
			d = txt[i:]
		} else if i := strings.Index(txt, "panic: "); i >= 0 {
			d = txt[i:]
		}
		return &nativeOut{Status: st, Detail: trim(d, 800)}, txt
	}
	return nil, txt
}

type limitW struct {
	b *bytes.Buffer
	n int
}

func (l *limitW) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

var subWG sync.WaitGroup

func (s *session) isKnown(c *Candidate) (knownFinding, bool) {
	for _, k := range s.known {
		if k.Property == s.prop && k.Status != "fixed" && k.Label == c.Label && (k.Harness == "" || k.Harness == c.Harness) {
			return k, true
		}
	}
	return knownFinding{}, false
}

func violates(o *nativeOut) bool {
	switch o.Status {
	case "violated", "panic", "crash", "overflow", "race", "timeout":
		return true
	}
	return false
}

// submit replays a candidate in the background.
func (s *session) submit(h *harnessFn, c *Candidate) {
	subWG.Add(1)
	go func() {
		defer subWG.Done()
		nb := s.startBuild(h.pkg, hsIn(s.sel, h.pkg), c.Kind == "race")
		<-nb.done
		if nb.err != nil {
			s.mu.Lock()
			s.natErr = appendUniq(s.natErr, nb.err.Error())
			s.unrepro = append(s.unrepro, c.Harness+": "+c.Label+" (no native build)")
			s.mu.Unlock()
			return
		}
		tries := 48
		if c.Kind == "endless" {
			tries = 6
		}
		var last *nativeOut
		for i := 0; i < tries; i++ {
			s.mu.Lock()
			st := s.stop
			s.mu.Unlock()
			if st {
				return
			}
			o, txt := nb.runOnce(s, c.Harness, c.Inputs, 20*time.Second, "")
			if o == nil {
				s.mu.Lock()
				s.natErr = appendUniq(s.natErr, "no result: "+trim(txt, 400))
				s.mu.Unlock()
				break
			}
			last = o
			if violates(o) {
				s.confirmed(h, c, o)
				return
			}
			if o.Status == "infeasible" {
				break
			}
		}
		s.mu.Lock()
		d := ""
		if last != nil {
			d = last.Status + " " + last.Label + " " + last.Detail
		}
		s.unrepro = append(s.unrepro, fmt.Sprintf("%s: %s %s inputs %s -> %s", c.Harness, c.Label, c.Detail, inputsText(c.Inputs), d))
		s.mu.Unlock()
	}()
}

func inputsText(in []ReplayVal) string {
	var p []string
	for _, v := range in {
		if v.Kind == "string" {
			var b []byte
			fmt.Sscanf(v.S, "%x", &b)
			p = append(p, fmt.Sprintf("%s=%q", v.Name, b))
		} else {
			p = append(p, fmt.Sprintf("%s=%d", v.Name, v.I))
		}
	}
	return strings.Join(p, " ")
}

func appendUniq(xs []string, x string) []string {
	for _, y := range xs {
		if x == y {
			return xs
		}
	}
	return append(xs, x)
}

func (s *session) confirmed(h *harnessFn, c *Candidate, o *nativeOut) {
	s.mu.Lock()
	defer s.mu.Unlock()
	cc := *c
	if o.Label != "" && o.Label != c.Label {
		// the real run failed at another assertion; judge it by that one
		cc.Label = o.Label
	}
	if k, ok := s.isKnown(&cc); ok {
		s.findings[k.Harness+"|"+k.Label] = k
		return
	}
	for _, v := range s.viol {
		if v.c.Harness == cc.Harness && v.c.Label == cc.Label {
			return
		}
	}
	dir := filepath.Join(*flagVerif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", s.prop, len(s.viol)))
	js, _ := json.MarshalIndent(map[string]interface{}{
		"property": s.prop, "package": h.pkg, "harness": c.Harness, "label": cc.Label, "kind": c.Kind, "symbolic_detail": c.Detail,
		"inputs": c.Inputs, "inputs_text": inputsText(c.Inputs), "native": o, "thorough": thorough,
		"how": "bash /verif/run.sh replay " + p,
	}, "", " ")
	os.WriteFile(p, append(js, '\n'), 0o644)
	s.viol = append(s.viol, violation{&cc, trim(strings.ReplaceAll(o.Status+" "+o.Detail, "\n", " | "), 300) + " inputs: " + inputsText(c.Inputs), p})
	s.stop = true
}

// settle replays samples and waits for the candidates.
func (s *session) settle(results []*harnessResult, t0 time.Time) {
	if *flagNoRepl {
		return
	}
	var wg sync.WaitGroup
	for _, r := range results {
		if s.stop {
			break
		}
		nb := s.startBuild(r.h.pkg, hsIn(s.sel, r.h.pkg), false)
		<-nb.done
		if nb.err != nil {
			s.mu.Lock()
			s.natErr = appendUniq(s.natErr, nb.err.Error())
			s.mu.Unlock()
			continue
		}
		for i := range r.smps {
			wg.Add(1)
			go func(r *harnessResult, sm *Sample) {
				defer wg.Done()
				var why string
				for try := 0; try < 12; try++ {
					o, txt := nb.runOnce(s, r.h.name, sm.Inputs, 30*time.Second, "")
					if o == nil {
						why = "no result " + trim(txt, 300)
						continue
					}
					why = compare(sm, o)
					if why == "" {
						s.mu.Lock()
						s.valid++
						if len(s.smpDone) < 12 {
							s.smpDone = append(s.smpDone, map[string]interface{}{"harness": r.h.name, "inputs": inputsText(sm.Inputs), "reached": sm.Reach, "notes": sm.Notes})
						}
						s.mu.Unlock()
						return
					}
					if violates(o) && o.Status != "timeout" {
						// the real code violates on a path the solver passed: report it
						c := &Candidate{Harness: r.h.name, Label: o.Label, Kind: "assert", Detail: "found while validating a path", Inputs: sm.Inputs}
						if c.Label == "" {
							c.Label = o.Status
						}
						s.confirmed(r.h, c, o)
						return
					}
				}
				s.mu.Lock()
				s.diverged = append(s.diverged, r.h.name+": "+why+" inputs "+inputsText(sm.Inputs))
				s.mu.Unlock()
			}(r, &r.smps[i])
		}
	}
	wg.Wait()
	fin := make(chan struct{})
	go func() { subWG.Wait(); close(fin) }()
	lim := 120 * time.Second
	select {
	case <-fin:
	case <-time.After(lim):
	}
}

func compare(sm *Sample, o *nativeOut) string {
	if o.Status != "ok" && o.Status != "stop" {
		return "native status " + o.Status + " " + o.Label + " " + o.Detail
	}
	r := append([]string(nil), o.Reach...)
	sort.Strings(r)
	if strings.Join(r, ",") != strings.Join(sm.Reach, ",") {
		return fmt.Sprintf("reached %v natively, %v symbolically", r, sm.Reach)
	}
	if len(o.Notes) != len(sm.Notes) {
		return fmt.Sprintf("notes %v natively, %v symbolically", o.Notes, sm.Notes)
	}
	for i := range o.Notes {
		if o.Notes[i] != sm.Notes[i] && !strings.Contains(sm.Notes[i], "<") {
			return fmt.Sprintf("note %s natively, %s symbolically", o.Notes[i], sm.Notes[i])
		}
	}
	return ""
}

func replayFile(scratch, path string) int {
	data, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r struct {
		Property, Package, Harness, Kind string
		Inputs                           []ReplayVal
		Thorough                         bool
	}
	if err := json.Unmarshal(data, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	thorough = r.Thorough
	s, hs, err := newSession(scratch, r.Property)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for _, h := range hs {
		if h.name == r.Harness {
			nb := s.startBuild(h.pkg, []*harnessFn{h}, r.Kind == "race")
			<-nb.done
			if nb.err != nil {
				fmt.Println(nb.err)
				return 2
			}
			for i := 0; i < 48; i++ {
				o, txt := nb.runOnce(s, r.Harness, r.Inputs, 20*time.Second, "")
				if o != nil && violates(o) {
					fmt.Printf("reproduced: %s %s %s\n%s\n", o.Status, o.Label, o.Detail, trim(txt, 4000))
					return 1
				}
			}
			fmt.Println("not reproduced")
			return 0
		}
	}
	fmt.Println("harness not found")
	return 2
}
