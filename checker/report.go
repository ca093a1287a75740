package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"ofxcheck/eng"
)

// C is one check run: it counts obligations and collects violations.
type C struct {
	ID, Tier    string
	W           *eng.World
	Fz          *eng.Frozen
	Init        []*eng.Event
	InitUnd     []string
	Viols       []Viol
	obl         map[string]bool // rule|construct -> discharged
	rules       map[string]int
	funcs       map[string]bool
	paths       int
	branches    int
	loops       int
	calls       int
	steps       int
	variant     string
	notes       []string
	samples     []string
	closeMemo   map[string]map[int]bool
	verdictMemo map[*ssa.Function]bool
	mods        *modAn
	cmds        []*cliCmd
	cliMemo     map[*ssa.Function]*cliRes
	reachMemo   map[*ssa.Function]string
}

type Viol struct{ Rule, Construct, Pos, Msg string }

func (v Viol) Key() string { return v.Rule + "|" + v.Construct }

// Check records an obligation: the rule applied to the construct.
func (c *C) Check(ok bool, rule, construct, pos, msg string, a ...any) bool {
	k := rule + "|" + construct
	if c.variant != "" {
		k = c.variant + ":" + k
	}
	old, seen := c.obl[k]
	if !seen {
		c.rules[rule]++
		c.obl[k] = ok
	} else if old && !ok {
		c.obl[k] = false
	}
	if !ok {
		if !seen || old {
			c.Viols = append(c.Viols, Viol{rule, construct, pos, fmt.Sprintf(msg, a...)})
		}
	}
	return ok
}

// Note adds a remark to the evidence.
func (c *C) Note(f string, a ...any) { c.notes = append(c.notes, fmt.Sprintf(f, a...)) }

func (c *C) Fail(rule, construct, pos, msg string, a ...any) {
	c.Check(false, rule, construct, pos, msg, a...)
}
func (c *C) OK(rule, construct string) { c.Check(true, rule, construct, "", "") }

// Run makes an engine run whose statistics are added to the check.
func (c *C) Run() *eng.Run {
	return &eng.Run{W: c.W, Frozen: c.Fz, Funcs: map[*ssa.Function]bool{}}
}

// Done books an engine run; undecided parts of it are violations.
func (c *C) Done(r *eng.Run, root string, outs int) {
	for f := range r.Funcs {
		c.funcs[eng.ShortName(f)] = true
	}
	c.paths += outs
	c.branches += r.Branches
	c.loops += r.Loops
	c.calls += r.Calls
	for _, u := range r.Undecided {
		c.Fail("undecided", root, "", "the analysis could not decide: %s", u)
	}
}

// Analyze runs the engine on fn and books it.
func (c *C) Analyze(r *eng.Run, fn *ssa.Function, setup func(st *eng.State, params []*eng.Term) *eng.State) ([]eng.Outcome, []*eng.Term) {
	outs, ps := r.Analyze(fn, setup)
	c.Done(r, eng.ShortName(fn), len(outs))
	return outs, ps
}

// Lib finds a library function; a missing one is a violation.
func (c *C) Lib(name string) *ssa.Function {
	f := c.W.LibFunc(name)
	if f == nil {
		c.Fail("anchor", name, "", "function %s not found", name)
	}
	return f
}

type known struct{ prop, key, text string }

// knownFindings reads the committed list of findings; "fixed:" lines suppress
// nothing.
func knownFindings(path string) (out []known) {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		// finding: property=Cxx key=<rule|construct> <text>
		fs := strings.SplitN(strings.TrimSpace(l[8:]), " ", 3)
		if len(fs) < 2 {
			continue
		}
		k := known{prop: strings.TrimPrefix(fs[0], "property="), key: strings.TrimPrefix(fs[1], "key=")}
		if len(fs) == 3 {
			k.text = fs[2]
		}
		out = append(out, k)
	}
	return
}

func (c *C) finish(verif string, start time.Time, seed int) int {
	var viols []Viol
	kn := knownFindings(filepath.Join(verif, "known_findings.txt"))
	knownHit := 0
	for _, v := range c.Viols {
		hit := false
		for _, k := range kn {
			if k.prop == c.ID && k.key == strings.ReplaceAll(v.Key(), " ", "_") {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.ID, v.Key(), k.text)
				hit = true
				knownHit++
			}
		}
		if !hit {
			viols = append(viols, v)
		}
	}
	n, done := 0, 0
	var keys []string
	for k, ok := range c.obl {
		n++
		if ok {
			done++
		}
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	if n < floors[c.ID] {
		viols = append(viols, Viol{"coverage", c.ID, "", fmt.Sprintf("only %d obligations found, at least %d expected: the rules no longer match the code", n, floors[c.ID])})
	}
	samples := sample(keys, 25)
	cov := map[string]any{
		"explanation":            explanations[c.ID],
		"obligations":            n,
		"obligations_discharged": done,
		"obligations_by_rule":    c.rules,
		"samples":                samples,
		"functions_analysed":     len(fns),
		"functions":              fns,
		"abstract_paths":         c.paths,
		"branches_followed":      c.branches,
		"loops_analysed":         c.loops,
		"calls_inlined":          c.calls,
		"known_findings":         knownHit,
		"notes":                  c.notes,
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": seed, "level": levels[c.ID],
		"coverage": cov, "wall_s": time.Since(start).Seconds(),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", c.ID+".json"), append(b, '\n'), 0o644)
	rp := filepath.Join(verif, "evidence", c.ID+".violations.txt")
	os.Remove(rp)
	if len(viols) == 0 {
		fmt.Printf("%s: %d obligations over %d functions, %d paths: all hold\n", c.ID, n, len(fns), c.paths)
		return 0
	}
	var sb strings.Builder
	for _, v := range viols {
		fmt.Fprintf(&sb, "%s [%s] %s: %s\n", v.Pos, v.Rule, v.Construct, v.Msg)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	s := sb.String()
	if len(s) > 6000 {
		s = s[:6000] + "…\n"
	}
	fmt.Print(s)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rp)
	return 1
}

func sample(keys []string, n int) []string {
	if len(keys) <= n {
		return keys
	}
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, keys[i*len(keys)/n])
	}
	return out
}
