package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|run|list|replay ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "repository under test")
	verif := fs.String("verif", "/verif", "verification tree")
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	hname := fs.String("h", "", "harness (run)")
	workers := fs.Int("workers", 8, "parallel workers")
	budget := fs.Int("budget", 0, "wall seconds for exploration")
	solver := fs.String("solver", "z3-new", "solver")
	maxPaths := fs.Int64("paths", 0, "path limit")
	novalidate := fs.Bool("novalidate", false, "skip native validation")
	fs.Parse(os.Args[2:])
	code := 2
	func() {
		ws, err := newWorkspace(*repo, *verif)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return
		}
		defer ws.close()
		switch cmd {
		case "check", "run":
			c := &checker{ws: ws, prop: *prop, tier: *tier, only: *hname, workers: *workers, budget: *budget, solver: *solver, maxPaths: *maxPaths, debug: cmd == "run", noval: *novalidate}
			code = c.run()
		case "list":
			code = listHarnesses(ws)
		case "replay":
			code = replayFile(ws, fs.Arg(0))
		default:
			fmt.Fprintln(os.Stderr, "unknown command", cmd)
		}
	}()
	os.Exit(code)
}

// harnessPkgs lists the harness packages with a check for the property.
func harnessPkgs(ws *workspace, want func(src string) bool) []string {
	set := map[string]bool{}
	for _, real := range ws.overlay {
		b, err := os.ReadFile(real)
		if err == nil && want(string(b)) {
			set[filepath.Base(filepath.Dir(real))] = true
		}
	}
	return sortedKeys(set)
}

func listHarnesses(ws *workspace) int {
	e, err := load(ws, harnessPkgs(ws, func(s string) bool { return strings.Contains(s, "//verif:check ") }), "quick")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, h := range e.harnesses {
		fmt.Println(h.Prop, h.Name, h.Doc)
	}
	return 0
}

func replayFile(ws *workspace, file string) int {
	b, err := os.ReadFile(file)
	var in replayInput
	if err == nil {
		err = json.Unmarshal(b, &in)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	parts := strings.SplitN(in.Harness, ".", 2)
	n := newNative(ws, []*Harness{{Name: in.Harness, Pkg: parts[0], Func: parts[1]}})
	bin, err := n.binary(in.Variant)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tries := 1
	if in.Variant == "race" {
		tries = 60
	}
	for i := 0; i < tries; i++ {
		r := n.run(bin, &in, "")
		if r.outcome != "ok" || i == tries-1 {
			fmt.Println(r.outcome, r.label)
			fmt.Print(r.out)
			if r.outcome == "ok" {
				return 0
			}
			return 1
		}
	}
	return 0
}

type checker struct {
	ws       *workspace
	prop     string
	tier     string
	only     string
	workers  int
	budget   int
	solver   string
	maxPaths int64
	debug    bool
	noval    bool
}

type hsum struct {
	x           *Exploration
	validated   int
	mismatch    []string
	unconfirmed []string
	confirmed   *replayInput
}

func (c *checker) run() int {
	t0 := time.Now()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	prop := c.prop
	pk := harnessPkgs(c.ws, func(s string) bool {
		if c.only != "" {
			i := strings.IndexByte(c.only, '.')
			return strings.HasPrefix(s, "package "+c.only[:i]+"\n") || strings.Contains(s, "\npackage "+c.only[:i]+"\n")
		}
		return strings.Contains(s, "//verif:check "+prop+"\n")
	})
	if len(pk) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", prop)
		return 2
	}
	e, err := load(c.ws, pk, c.tier)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	loadT := time.Since(t0)
	var hs []*Harness
	for _, h := range e.harnesses {
		if c.only != "" && h.Name != c.only || c.only == "" && h.Prop != prop {
			continue
		}
		if h.Opts["tier"] == "thorough" && c.tier != "thorough" {
			continue
		}
		hs = append(hs, h)
	}
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness selected")
		return 2
	}
	if prop == "" {
		prop = hs[0].Prop
	}
	known := loadKnown(c.ws.verif, prop)
	nat := newNative(c.ws, hs)
	if !c.noval {
		anySched := false
		for _, h := range hs {
			anySched = anySched || h.Opts["sched"] != ""
		}
		go func() {
			nat.binary("plain")
			if anySched {
				nat.binary("sched")
			}
		}()
	}
	budget := c.budget
	if budget == 0 {
		budget = 420
		if c.tier == "thorough" {
			budget = 700
		}
	}
	end := time.Now().Add(time.Duration(budget) * time.Second)
	var sums []*hsum
	code := 0
	violations := 0
	weight := func(h *Harness) float64 {
		if w, err := strconv.ParseFloat(h.Opts["weight"], 64); err == nil {
			return w
		}
		return 1
	}
	totalW := 0.0
	for _, h := range hs {
		totalW += weight(h)
	}
	for _, h := range hs {
		left := time.Until(end)
		share := time.Duration(float64(left) * weight(h) / totalW)
		totalW -= weight(h)
		x := newExploration(e, h, seed+1)
		x.maxPaths = c.maxPaths
		s := &hsum{x: x}
		sums = append(sums, s)
		x.onViol = func(p *PathResult) bool {
			if c.noval {
				fmt.Printf("  unreplayed violation %s: %s %v %v\n", p.Label, p.Msg, p.Inputs, p.UFs)
				return true
			}
			in, why := nat.confirm(h, c.tier, p)
			x.mu.Lock()
			defer x.mu.Unlock()
			if in == nil {
				if len(s.unconfirmed) < 5 {
					s.unconfirmed = append(s.unconfirmed, p.Label+": "+p.Msg+"\n"+why)
				}
				if c.debug {
					fmt.Printf("  unconfirmed %s: %s\n%s\n%v %v sched=%v\n", p.Label, p.Msg, why, p.Inputs, p.UFs, p.Schedule)
				}
				return c.debug || len(s.unconfirmed) >= 5
			}
			if k := known.match(h.Name, in); k != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
				return false
			}
			if s.confirmed == nil {
				s.confirmed = in
			}
			return true
		}
		x.run(c.workers, share, c.solver)
		c.printSummary(h, s)
		if s.confirmed != nil {
			violations++
			c.report(prop, h, s.confirmed)
			code = 1
			break
		}
		if !c.noval {
			if in := c.validate(nat, h, s); in != nil {
				violations++
				s.confirmed = in
				c.report(prop, h, in)
				code = 1
				break
			}
		}
		if c.debug {
			for _, m := range s.mismatch {
				fmt.Println("  MISMATCH", m)
			}
		}
	}
	if code == 0 {
		for _, s := range sums {
			var bad []string
			for _, r := range s.x.h.Reach {
				if !s.x.reach[r] {
					bad = append(bad, r)
				}
			}
			if len(bad) > 0 {
				fmt.Printf("INCOMPLETE property=%s %s never reached: %s\n", prop, s.x.h.Name, strings.Join(bad, " "))
				code = 2
			}
			if len(s.mismatch) > 0 {
				fmt.Printf("MISMATCH property=%s %s: the encoding and the compiled code disagree: %s\n", prop, s.x.h.Name, s.mismatch[0])
				code = 2
			}
			if s.x.kinds[stopDone] == 0 {
				fmt.Printf("INCOMPLETE property=%s %s: no path was explored to its end\n", prop, s.x.h.Name)
				code = 2
			}
			if len(s.unconfirmed) > 0 {
				fmt.Printf("UNCONFIRMED property=%s %s: a counterexample of the encoding does not fail on the compiled code; those paths count as unexplored: %.300s\n", prop, s.x.h.Name, s.unconfirmed[0])
			}
			if n := s.x.kinds[stopUnsupported] + s.x.kinds[stopLimit]; n > 0 {
				fmt.Printf("BOUND property=%s %s: %d of %d paths left the encodable fragment (%s)\n", prop, s.x.h.Name, n, s.x.paths, strings.Join(topN(s.x.problems, 3), "; "))
			}
			if s.x.leftover > 0 {
				fmt.Printf("BOUND property=%s %s: %d path prefixes left when the time budget ended\n", prop, s.x.h.Name, s.x.leftover)
			}
		}
	}
	c.evidence(prop, seed, e, sums, violations, time.Since(t0), loadT)
	if code == 0 {
		fmt.Printf("OK property=%s wall=%.1fs\n", prop, time.Since(t0).Seconds())
	}
	return code
}

func topN(m map[string]int64, n int) []string {
	ks := sortedKeys(m)
	sort.SliceStable(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] })
	var out []string
	for i, k := range ks {
		if i >= n {
			break
		}
		if len(k) > 1000 {
			k = k[:1000]
		}
		out = append(out, fmt.Sprintf("%dx %s", m[k], k))
	}
	return out
}

// validate replays explored paths against the compiled code.
func (c *checker) validate(nat *native, h *Harness, s *hsum) *replayInput {
	x := s.x
	variant := "plain"
	if h.Opts["sched"] != "" {
		variant = "sched"
	}
	bin, err := nat.binary(variant)
	if err != nil {
		s.mismatch = append(s.mismatch, err.Error())
		return nil
	}
	check := func(p *PathResult, isSample bool) *replayInput {
		in := nat.input(h, c.tier, p)
		in.Variant = variant
		r := nat.run(bin, in, "")
		switch r.outcome {
		case "fail", "panic", "deadlock", "race", "timeout":
			// the solver's input fails on the real code
			if r2 := nat.run(bin, in, ""); r2.outcome == r.outcome {
				in.Label, in.Outcome, in.Output = r.label, r.outcome+" "+r.label, r.out
				in.Message = "found when replaying an explored path: " + p.Msg
				return in
			}
		case "ok":
			if !isSample {
				return nil
			}
			var want []string
			for _, o := range p.Obs {
				want = append(want, fmt.Sprintf("%s %d", o.Label, o.Val))
			}
			if strings.Join(want, "|") != strings.Join(r.obs, "|") && !p.MapOrder {
				s.mismatch = append(s.mismatch, fmt.Sprintf("observed %v natively, %v symbolically, on %v %v", r.obs, want, p.Inputs, p.UFs))
				return nil
			}
			s.validated++
		default:
			if isSample {
				s.mismatch = append(s.mismatch, fmt.Sprintf("replay of an explored path ended with %s: %.500s on %v", r.outcome, r.out, p.Inputs))
			}
		}
		return nil
	}
	for _, p := range x.samples {
		if in := check(p, true); in != nil {
			return in
		}
	}
	for _, p := range x.probPaths {
		if in := check(p, false); in != nil {
			return in
		}
	}
	return nil
}

func (c *checker) printSummary(h *Harness, s *hsum) {
	x := s.x
	fmt.Printf("%s: paths=%d (done=%d assume=%d unsup=%d limit=%d viol=%d) left=%d queries=%d solver=%.1fs max=%.2fs unknown=%d bvpaths=%d asserts=%d trivial=%d depth=%d wall=%.1fs\n",
		h.Name, x.paths, x.kinds[stopDone], x.kinds[stopAssume], x.kinds[stopUnsupported], x.kinds[stopLimit], x.kinds[stopViolation], x.leftover, x.stats.Queries, x.stats.Time.Seconds(), x.stats.MaxTime.Seconds(), x.stats.Unknown, x.stats.BVPaths, x.asserts, x.trivial, x.maxDepth, x.wall.Seconds())
	if c.debug {
		for _, p := range topN(x.problems, 10) {
			fmt.Println("  PROBLEM", p)
		}
		fmt.Println("  reach:", strings.Join(sortedKeys(x.reach), " "))
		fmt.Println("  notes:", strings.Join(sortedKeys(x.notes), "; "))
		fmt.Println("  unknown:", x.unknowns)
	}
}

func (c *checker) report(prop string, h *Harness, in *replayInput) {
	in.Property = prop
	dir := filepath.Join(c.ws.verif, "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s.json", prop, h.Func))
	b, _ := json.MarshalIndent(in, "", " ")
	os.WriteFile(p, b, 0o644)
	fmt.Printf("counterexample in %s: %s (%s)\n", h.Name, in.Label, in.Message)
	for _, k := range sortedKeys(in.Vars) {
		fmt.Printf("   %s = %d\n", k, int64(in.Vars[k]))
	}
	fmt.Printf("real code (%s build): %s\n", in.Variant, in.Outcome)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
}

// --- known findings ---

type knownList []knownFinding

type knownFinding struct {
	Property string            `json:"property"`
	Status   string            `json:"status"` // "known" or "fixed"
	Harness  string            `json:"harness"`
	Label    string            `json:"label"`
	Inputs   map[string]uint64 `json:"inputs"`
	What     string            `json:"what"`
}

func loadKnown(verif, prop string) knownList {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out knownList
	for _, l := range strings.Split(string(b), "\n") {
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil && k.Status == "known" && k.Property == prop {
			out = append(out, k)
		}
	}
	return out
}

// match finds a listed finding with the same harness, label and inputs.
func (l knownList) match(h string, in *replayInput) string {
next:
	for _, k := range l {
		if k.Harness != h || k.Label != in.Label {
			continue
		}
		for n, v := range k.Inputs {
			if in.Vars[n] != v {
				continue next
			}
		}
		return k.What
	}
	return ""
}
