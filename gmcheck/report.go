package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Report collects one property's obligations.
type Report struct {
	P     *Program
	prop  string
	obls  []*Obl
	seen  map[*ssa.Function]bool
	steps int
	byKey map[string]*Obl
	notes []string
	rules map[string]string
}

type Obl struct {
	key, rule, what string
	ok              bool
	detail          string
	pos             string
}

func newReport(P *Program, prop string) *Report {
	return &Report{P: P, prop: prop, seen: map[*ssa.Function]bool{}, byKey: map[string]*Obl{}, rules: map[string]string{}}
}

func (R *Report) add(rule, what string, ok bool, detail string, pos token.Pos) {
	key := rule + ": " + what
	o := R.byKey[key]
	if o == nil {
		o = &Obl{key: key, rule: rule, what: what, ok: true}
		R.byKey[key] = o
		R.obls = append(R.obls, o)
	}
	if !ok && o.ok {
		violated = true
		o.ok = false
		o.detail, o.pos = detail, R.P.pos(pos)
	} else if ok && o.ok {
		o.detail = detail
	}
}

func (R *Report) ok(rule, what, detail string) { R.add(rule, what, true, detail, token.NoPos) }
func (R *Report) bad(rule, what, detail string, pos token.Pos) {
	R.add(rule, what, false, detail, pos)
}

// floor demands a minimum number of obligations under a rule, so that a
// check whose anchors vanish does not pass vacuously.
func (R *Report) floor(rule string, n int) {
	c := 0
	for _, o := range R.obls {
		if o.rule == rule {
			c++
		}
	}
	if c < n {
		R.bad(rule, "instance floor", fmt.Sprintf("%d obligations found, at least %d expected", c, n), token.NoPos)
	}
}

type knownFinding struct{ prop, key, text string }

func loadKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=C01 key=<obligation key> :: <text>
		l = strings.TrimPrefix(l, "known: ")
		i := strings.Index(l, " key=")
		j := strings.Index(l, " :: ")
		if i < 0 || j < i {
			continue
		}
		r = append(r, knownFinding{strings.TrimPrefix(l[:i], "property="), l[i+5 : j], l[j+4:]})
	}
	return r
}

// finish prints the verdict, writes evidence, and returns the exit code.
func (R *Report) finish(dir, tier string, seed int, start time.Time) int {
	known := loadKnown(filepath.Join(dir, "known_findings.txt"))
	sort.SliceStable(R.obls, func(i, j int) bool { return R.obls[i].key < R.obls[j].key })
	code := 0
	proved, nbad := 0, 0
	ruleN := map[string]int{}
	var samples []string
	for _, o := range R.obls {
		ruleN[o.rule]++
		if o.ok {
			proved++
			continue
		}
		isKnown := false
		for _, k := range known {
			if k.prop == R.prop && k.key == o.key {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", R.prop, k.text)
				isKnown = true
				break
			}
		}
		if isKnown {
			continue
		}
		nbad++
		code = 1
		fmt.Printf("VIOLATION property=%s replay=evidence/%s.json\n  at %s\n  rule: %s; construct: %s\n  %s\n", R.prop, R.prop, o.pos, o.rule, o.what, o.detail)
	}
	if len(R.obls) == 0 {
		fmt.Printf("VIOLATION property=%s replay=none\n  no obligations were generated\n", R.prop)
		code = 1
	}
	for i, o := range R.obls {
		if i < 400 {
			s := o.key
			if o.ok {
				s += " — proved (" + o.detail + ")"
			} else {
				s += " — VIOLATED at " + o.pos + ": " + o.detail
			}
			samples = append(samples, s)
		}
	}
	var fns []string
	for f := range R.seen {
		if R.P.inRepo(f) {
			fns = append(fns, strings.ReplaceAll(fnName(f), R.P.modPath+"/", ""))
		}
	}
	sort.Strings(fns)
	rule, assume := about[R.prop].rule, about[R.prop].assume
	if assume == nil {
		assume = []string{}
	}
	ev := map[string]interface{}{
		"property": R.prop, "tier": tier, "seed": seed, "level": "other",
		"wall_s": time.Since(start).Seconds(), "violations": nbad, "assumptions": assume,
		"coverage": map[string]interface{}{
			"obligations": len(R.obls), "discharged": proved,
			"obligations_by_rule": ruleN, "functions_analysed": len(fns), "functions": fns, "abstract_steps": R.steps,
			"rule":        rule,
			"explanation": fmt.Sprintf("%d of %d obligations discharged over %d functions of the current source (%d abstract steps). Rule: %s", proved, len(R.obls), len(fns), R.steps, rule),
			"samples":     samples,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(dir, "evidence", R.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	if code == 0 {
		fmt.Printf("OK property=%s obligations=%d functions=%d %.1fs\n", R.prop, len(R.obls), len(fns), time.Since(start).Seconds())
	}
	return code
}
