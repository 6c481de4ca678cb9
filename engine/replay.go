package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"
)

// native builds and runs the harnesses against the compiled code.
type native struct {
	ws    *workspace
	hs    []*Harness
	mu    sync.Mutex
	built map[string]*buildRes
}

type buildRes struct {
	once sync.Once
	path string
	err  error
}

func newNative(ws *workspace, hs []*Harness) *native {
	return &native{ws: ws, hs: hs, built: map[string]*buildRes{}}
}

var atomicImport = regexp.MustCompile(`(?m)^(\s*(?:import\s+)?)(?:atomic\s+)?"sync/atomic"\s*$`)

var syncImport = regexp.MustCompile(`(?m)^(\s*(?:import\s+)?)(?:sync\s+)?"sync"\s*$`)

// binary builds one variant: plain, race or sched.
func (n *native) binary(variant string) (string, error) {
	n.mu.Lock()
	b := n.built[variant]
	if b == nil {
		b = &buildRes{}
		n.built[variant] = b
	}
	n.mu.Unlock()
	b.once.Do(func() { b.path, b.err = n.build(variant) })
	return b.path, b.err
}

func (n *native) build(variant string) (string, error) {
	pkgs := map[string]bool{}
	for _, h := range n.hs {
		pkgs[h.Pkg] = true
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"fmt\"\n\t\"os\"\n\n")
	fmt.Fprintf(&sb, "\t%q\n\t%q\n", vsymPath, vhPath+"/vsched")
	for _, p := range sortedKeys(pkgs) {
		fmt.Fprintf(&sb, "\t%q\n", vhPath+"/"+p)
	}
	sb.WriteString(")\n\nvar harnesses = map[string]func(){\n")
	for _, h := range n.hs {
		fmt.Fprintf(&sb, "\t%q: %s,\n", h.Name, h.Name)
	}
	fmt.Fprintf(&sb, "}\n\nfunc main() {\n\tvsched.On = %v\n\th := vsym.Load(os.Args[1])\n\tharnesses[h]()\n\tif vsched.Diverged {\n\t\tfmt.Println(\"REPLAY-DIVERGED\")\n\t}\n\tfmt.Println(\"REPLAY-OK\")\n}\n", variant == "sched")
	src := filepath.Join(n.ws.scratch, "main-"+variant+".go.txt")
	if err := os.WriteFile(src, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	extra := map[string]string{filepath.Join(n.ws.repo, "vharness/vreplay", "main.go"): src}
	if variant == "sched" {
		k := 0
		filepath.Walk(n.ws.repo, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() {
				if fi != nil && strings.HasPrefix(fi.Name(), ".") && p != n.ws.repo {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			b, err := os.ReadFile(p)
			if err != nil || !syncImport.Match(b) && !atomicImport.Match(b) {
				return nil
			}
			b = syncImport.ReplaceAll(b, []byte(`${1}sync "`+vhPath+`/vsync"`))
			b = atomicImport.ReplaceAll(b, []byte(`${1}atomic "`+vhPath+`/vatomic"`))
			k++
			q := filepath.Join(n.ws.scratch, fmt.Sprintf("sched-%d.go.txt", k))
			if os.WriteFile(q, b, 0o644) == nil {
				extra[p] = q
			}
			return nil
		})
	}
	ov := n.ws.writeOverlay("overlay-"+variant+".json", extra)
	out := filepath.Join(n.ws.scratch, "replay-"+variant)
	args := append([]string{"build"}, n.ws.flags(ov)...)
	if mod := n.schedModule(); variant == "sched" && mod != "" {
		args = append(args, "-modfile="+mod)
	}
	args = append(args, "-o", out)
	env := os.Environ()
	if variant == "race" {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	} else {
		env = append(env, "CGO_ENABLED=0")
	}
	args = append(args, vhPath+"/vreplay")
	cmd := exec.Command("go", args...)
	cmd.Dir = n.ws.repo
	cmd.Env = env
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("building the replay binary (%s): %v\n%s", variant, err, b)
	}
	return out, nil
}

// poolModule keeps a pool that the bodies use.
const poolModule = "github.com/chronos-tachyon/bufferpool"

// schedModule writes a go.mod that replaces the pool's module by a copy with
// scheduling points, and returns its name, or nothing.
func (n *native) schedModule() string {
	cmd := exec.Command("go", "list", "-modfile="+filepath.Join(n.ws.scratch, "go.mod"), "-m", "-f", "{{.Dir}}", poolModule)
	cmd.Dir = n.ws.repo
	b, err := cmd.Output()
	src := strings.TrimSpace(string(b))
	if err != nil || src == "" {
		return ""
	}
	dst := filepath.Join(n.ws.scratch, "pool")
	os.MkdirAll(dst, 0o755)
	fs, _ := os.ReadDir(src)
	for _, f := range fs {
		if f.IsDir() || strings.HasSuffix(f.Name(), "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, f.Name()))
		if err != nil {
			return ""
		}
		b = syncImport.ReplaceAll(b, []byte(`${1}sync "`+vhPath+`/vsync"`))
		if os.WriteFile(filepath.Join(dst, f.Name()), b, 0o644) != nil {
			return ""
		}
	}
	for _, ext := range []string{".mod", ".sum"} {
		b, err := os.ReadFile(filepath.Join(n.ws.scratch, "go"+ext))
		if err != nil {
			return ""
		}
		if ext == ".mod" {
			b = append(b, "\nreplace "+poolModule+" => "+dst+"\n"...)
		}
		if os.WriteFile(filepath.Join(n.ws.scratch, "sched"+ext), b, 0o644) != nil {
			return ""
		}
	}
	return filepath.Join(n.ws.scratch, "sched.mod")
}

// replayInput is the file a replay runs from.
type replayInput struct {
	Property string                       `json:"property,omitempty"`
	Harness  string                       `json:"harness"`
	Tier     string                       `json:"tier"`
	Variant  string                       `json:"variant"`
	Label    string                       `json:"label,omitempty"`
	Message  string                       `json:"message,omitempty"`
	Outcome  string                       `json:"outcome,omitempty"`
	Vars     map[string]uint64            `json:"vars"`
	UFs      map[string]map[uint64]uint64 `json:"ufs"`
	Schedule []int                        `json:"schedule,omitempty"`
	Output   string                       `json:"output,omitempty"`
}

type nativeResult struct {
	outcome string // ok, fail, panic, race, deadlock, assume, error, timeout
	label   string
	obs     []string
	out     string
}

func (n *native) run(bin string, in *replayInput, file string) nativeResult {
	if file == "" {
		f, err := os.CreateTemp(n.ws.scratch, "in*.json")
		if err != nil {
			return nativeResult{outcome: "error", out: err.Error()}
		}
		b, _ := json.Marshal(in)
		f.Write(b)
		f.Close()
		file = f.Name()
		defer os.Remove(file)
	}
	r := n.runFor(bin, in, file, 20*time.Second)
	if r.outcome == "timeout" {
		// not just a busy machine
		r = n.runFor(bin, in, file, 90*time.Second)
	}
	return r
}

func (n *native) runFor(bin string, in *replayInput, file string, limit time.Duration) nativeResult {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, file)
	cmd.Dir = n.ws.scratch
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMEMLIMIT=2GiB")
	if in.Variant == "race" || in.Variant == "plain" {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=4")
	} else {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=1") // what a pool holds is found again
	}
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	err := cmd.Run()
	r := nativeResult{out: buf.String()}
	if len(r.out) > 6000 {
		r.out = r.out[:6000]
	}
	okLine := false
	for _, l := range strings.Split(buf.String(), "\n") {
		switch {
		case strings.HasPrefix(l, "OBS "):
			r.obs = append(r.obs, l[4:])
		case strings.HasPrefix(l, "REPLAY-FAIL "):
			r.outcome, r.label = "fail", l[12:]
		case l == "REPLAY-ASSUME":
			r.outcome = "assume"
		case l == "REPLAY-DEADLOCK":
			r.outcome, r.label = "deadlock", "deadlock"
		case strings.HasPrefix(l, "REPLAY-ERROR"):
			r.outcome = "error"
		case l == "REPLAY-OK":
			okLine = true
		case strings.Contains(l, "WARNING: DATA RACE"):
			if r.outcome == "" {
				r.outcome, r.label = "race", "race"
			}
		case strings.Contains(l, "all goroutines are asleep - deadlock"):
			r.outcome, r.label = "deadlock", "deadlock"
		case strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: "):
			if r.outcome == "" {
				r.outcome, r.label = "panic", "panic"
			}
		}
	}
	if r.outcome == "" {
		switch {
		case ctx.Err() != nil:
			r.outcome, r.label = "timeout", "deadlock"
		case err == nil && okLine:
			r.outcome = "ok"
		default:
			r.outcome = "error"
			r.out += fmt.Sprint(" ", err)
		}
	}
	return r
}

func (n *native) input(h *Harness, tier string, p *PathResult) *replayInput {
	return &replayInput{Harness: h.Name, Tier: tier, Label: p.Label, Message: p.Msg, Vars: p.Inputs, UFs: p.UFs, Schedule: p.Schedule, Variant: "plain"}
}

// confirm replays a counterexample; it returns nil if the real code does not
// show the failure.
func (n *native) confirm(h *Harness, tier string, p *PathResult) (*replayInput, string) {
	in := n.input(h, tier, p)
	variant := "plain"
	tries := 1
	switch {
	case p.Label == "race":
		variant, tries = "race", 60
	case h.Opts["sched"] != "":
		variant = "sched"
	}
	if p.MapOrder {
		tries = 200
	}
	bad := func(o string) bool {
		return o == "fail" || o == "panic" || o == "race" || o == "deadlock" || o == "timeout"
	}
	last := ""
	for _, v := range []string{variant, "plain"} {
		in.Variant = v
		bin, err := n.binary(v)
		if err != nil {
			return nil, err.Error()
		}
		for i := 0; i < tries; i++ {
			r := n.run(bin, in, "")
			last = r.outcome + " " + r.label + "\n" + r.out
			if bad(r.outcome) {
				in.Variant, in.Outcome, in.Output = v, r.outcome+" "+r.label, r.out
				return in, ""
			}
		}
		if v == "plain" {
			break
		}
	}
	return nil, last
}
