package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check is one registered property check.
type Check struct {
	ID        string
	Title     string
	Rule      string // the rule applied, in words
	Assume    []string
	Technique string
	Run       func(c *C)
	Min       int // obligations confirmed by hand on the reference tree: fewer means the rule went vacuous
}

var checks = map[string]*Check{}

func register(ch *Check) { checks[ch.ID] = ch }

// Obligation is one instance of a rule at one construct.
type Obligation struct {
	Key    string // rule + construct, never a line number
	Pos    string
	OK     bool
	Detail string
}

// C is the context of one check run.
type C struct {
	tags  map[*types.Var]string
	P     *Program
	T     *Terms
	Tier  string
	ch    *Check
	obs   map[string]*Obligation
	order []string
	Funcs map[string]int
	Opq   map[string]int
	Steps int
	Sts   int
	Paths int
	Extra map[string]any
	inits map[string]*State
	mute  bool
}

func newC(P *Program, ch *Check, tier string) *C {
	return &C{P: P, T: NewTerms(), Tier: tier, ch: ch, obs: map[string]*Obligation{}, Funcs: map[string]int{}, Opq: map[string]int{}, Extra: map[string]any{}}
}

// Ob records an instance of rule key. Several records of one key are conjoined.
func (c *C) Ob(key string, pos token.Pos, ok bool, detail string, a ...any) bool {
	c.ob(key, c.P.Pos(pos), ok, fmt.Sprintf(detail, a...))
	return ok
}

func (c *C) ob(key, pos string, ok bool, detail string) {
	o := c.obs[key]
	if o == nil {
		o = &Obligation{Key: key, Pos: pos, OK: true}
		c.obs[key] = o
		c.order = append(c.order, key)
	}
	if !ok && o.OK {
		o.OK = false
		o.Pos = pos
		o.Detail = detail
	}
}

// Anchor fails the check when a construct the rule speaks about is not found.
func (c *C) Anchor(what string, ok bool) bool {
	if !ok {
		c.ob("anchor:"+what, "?", false, "the construct this rule is about was not found: "+what)
	}
	return ok
}

// Fn resolves a function anchor.
func (c *C) Fn(rel, name string) *ssa.Function {
	f := c.P.Func(rel, name)
	if f == nil || len(f.Blocks) == 0 {
		c.Anchor(rel+":"+name, false)
		return nil
	}
	return f
}

// Done folds the statistics of an exploration into the run and reports bounds that were hit.
func (c *C) Done(x *Exec, what string) {
	c.Steps += x.Steps
	c.Sts += x.States
	for k, n := range x.Inlined {
		c.Funcs[k] += n
	}
	for k, n := range x.OpaqueSet {
		c.Opq[k] += n
	}
	for _, u := range x.Undecided {
		c.ob("undecided:"+what, "?", false, u)
	}
}

// Path renders the branch decisions that lead to a state.
func (c *C) Path(st *State) string {
	var l []string
	n := 0
	for t := st.trace; t != nil && n < 14; t = t.parent {
		if t.text == "" {
			continue
		}
		s := t.text
		if len(s) > 160 {
			s = strings.ToValidUTF8(s[:160], "") + "…"
		}
		l = append(l, "      "+c.P.Pos(t.pos)+": "+s)
		n++
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return "\n    path:\n" + strings.Join(l, "\n")
}

// Field finds a field of a struct type by name.
func (c *C) Field(t types.Type, name string) *types.Var {
	f := fieldOf(t, name)
	if f == nil {
		c.Anchor(fmt.Sprintf("field %s of %v", name, t), false)
	}
	return f
}

func fieldOf(t types.Type, name string) *types.Var {
	s := structOf(t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Origin()
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if f := fieldOf(s.Field(i).Type(), name); f != nil {
				return f
			}
		}
	}
	return nil
}

// selPath selects a dotted path of fields, walking through embedded structs.
func (c *C) Sel(x *Term, t types.Type, path string) *Term {
	for _, n := range strings.Split(path, ".") {
		x, t = c.sel1(x, t, n)
		if x == nil {
			c.Anchor(fmt.Sprintf("field path %s", path), false)
			return c.T.mk(OpSym, "missing", 0, nil, nil)
		}
	}
	return x
}

func (c *C) sel1(x *Term, t types.Type, name string) (*Term, types.Type) {
	s := structOf(t)
	if s == nil {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return c.T.Sel(x, s, i), s.Field(i).Type()
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if y, ty := c.sel1(c.T.Sel(x, s, i), s.Field(i).Type(), name); y != nil {
				return y, ty
			}
		}
	}
	return nil, nil
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

type knownFile struct {
	Known []knownFinding `json:"known"`
	Fixed []string       `json:"fixed"`
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err == nil {
		d := filepath.Dir(filepath.Dir(exe))
		if _, err := os.Stat(filepath.Join(d, "properties.jsonl")); err == nil {
			return d
		}
	}
	return "/verif"
}

// runCheck runs one check and returns the process exit code.
func runCheck(P *Program, loadErr error, ch *Check, tier string, seed int) int {
	start := time.Now()
	c := newC(P, ch, tier)
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.ob("panic", "?", false, fmt.Sprintf("analysis panicked: %v\n%s", r, debug.Stack()))
			}
		}()
		if loadErr != nil {
			c.ob("load", "?", false, "the tree does not type-check: "+loadErr.Error())
			return
		}
		ch.Run(c)
		if len(c.obs) < ch.Min {
			c.ob("vacuous", "?", false, fmt.Sprintf("only %d rule instances were found, at least %d are expected", len(c.obs), ch.Min))
		}
	}()
	dir := verifDir()
	var kf knownFile
	if b, err := os.ReadFile(filepath.Join(dir, "known_findings.json")); err == nil {
		_ = json.Unmarshal(b, &kf)
	}
	known := map[string]string{}
	for _, k := range kf.Known {
		if k.Property == ch.ID {
			known[k.Key] = k.What
		}
	}
	var bad, found []*Obligation
	okN := 0
	for _, k := range c.order {
		o := c.obs[k]
		if o.OK {
			okN++
			continue
		}
		if _, ok := known[k]; ok {
			found = append(found, o)
			continue
		}
		bad = append(bad, o)
	}
	var fns []string
	for f := range c.Funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var opq []string
	for f := range c.Opq {
		opq = append(opq, f)
	}
	sort.Strings(opq)
	var keys []string
	for _, k := range c.order {
		keys = append(keys, k+" @ "+c.obs[k].Pos)
	}
	cov := map[string]any{
		"explanation":        "Static analysis of the type-checked SSA form of /repo's current tree. Rule: " + ch.Rule,
		"obligations":        len(c.obs),
		"discharged":         okN,
		"known_findings":     len(found),
		"functions_analysed": len(fns),
		"functions":          fns,
		"opaque_callees":     opq,
		"abstract_states":    c.Sts,
		"abstract_steps":     c.Steps,
		"paths_checked":      c.Paths,
		"rule_instances":     keys,
	}
	for k, v := range c.Extra {
		cov[k] = v
	}
	ev := map[string]any{
		"property": ch.ID, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": ch.Assume,
		"wall_s": time.Since(start).Seconds(), "violations": len(bad),
	}
	if ch.Assume == nil {
		ev["assumptions"] = []string{}
	}
	_ = os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "evidence", ch.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
	for _, o := range found {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", ch.ID, known[o.Key])
	}
	if len(bad) == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d functions=%d states=%d\n", ch.ID, len(c.obs), okN, len(fns), c.Sts)
		return 0
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: %s\nrule: %s\n\n", ch.ID, ch.Title, ch.Rule)
	for _, o := range bad {
		fmt.Fprintf(&sb, "%s: [%s] %s\n\n", o.Pos, o.Key, o.Detail)
	}
	rp := filepath.Join(dir, "reports", ch.ID+".txt")
	_ = os.MkdirAll(filepath.Dir(rp), 0o755)
	_ = os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, rp)
	return 1
}
