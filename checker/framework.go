package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Finding is one violated obligation.
type Finding struct {
	Rule      string
	Construct string
	Pos       string
	Msg       string
	Trace     []string
}

func (f Finding) Key() string { return f.Rule + "|" + f.Construct }

// Check collects the obligations of one property.
type Check struct {
	ID       string
	P        *Prog
	Findings map[string]Finding
	Counts   map[string]int             // rule → instances decided
	Seen     map[string]map[string]bool // rule → constructs
	Rules    map[string]string          // rule → text
	Info     map[string]any
	order    []string
}

func NewCheck(id string, p *Prog) *Check {
	return &Check{ID: id, P: p, Findings: map[string]Finding{}, Counts: map[string]int{}, Seen: map[string]map[string]bool{}, Rules: map[string]string{}, Info: map[string]any{}}
}

// Rule declares a rule and its text.
func (c *Check) Rule(name, text string) {
	c.Rules[name] = text
	if c.Seen[name] == nil {
		c.Seen[name] = map[string]bool{}
		c.order = append(c.order, name)
	}
}

// Instance records that an obligation of a rule was examined.
func (c *Check) Instance(rule, construct string) {
	if c.Seen[rule] == nil {
		c.Seen[rule] = map[string]bool{}
		c.order = append(c.order, rule)
	}
	c.Counts[rule]++
	c.Seen[rule][construct] = true
}

// Fail records a violated obligation.
func (c *Check) Fail(rule, construct, pos, msg string, tr ...string) {
	c.Instance(rule, construct)
	f := Finding{rule, construct, pos, msg, tr}
	if _, ok := c.Findings[f.Key()]; !ok {
		c.Findings[f.Key()] = f
	}
}

// Oblige records an obligation and its outcome.
func (c *Check) Oblige(ok bool, rule, construct, pos, msg string, tr ...string) {
	if ok {
		c.Instance(rule, construct)
	} else {
		c.Fail(rule, construct, pos, msg, tr...)
	}
}

// Floor fails the check when a rule matched fewer distinct constructs than confirmed by hand.
func (c *Check) Floor(rule string, min int) {
	n := len(c.Seen[rule])
	if os.Getenv("VERIF_FLOORS") != "" {
		fmt.Fprintln(os.Stderr, "FLOOR", c.ID, rule, n, min)
	}
	if n < min {
		c.Findings["floor|"+rule] = Finding{"floor", rule, "-", fmt.Sprintf("rule %s matched %d constructs, at least %d expected: the analysis no longer sees the code it must decide", rule, n, min), nil}
	}
}

// Anchor fails the check when a named construct cannot be found.
func (c *Check) Anchor(ok bool, name string) bool {
	if !ok {
		c.Findings["anchor|"+name] = Finding{"anchor", name, "-", "cannot resolve " + name + " in the current source: property undecided", nil}
	}
	return ok
}

type knownEntry struct{ prop, key, text string }

func loadKnown(path string) []knownEntry {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownEntry
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		// finding: property=C11 key=<rule|construct> :: text
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		i := strings.Index(l, " key=")
		j := strings.Index(l, " :: ")
		if i < 0 || j < i {
			continue
		}
		out = append(out, knownEntry{l[:i], l[i+5 : j], l[j+4:]})
	}
	return out
}

// unlisted gives the findings that the known-findings file does not name.
func (c *Check) unlisted(verifDir string) (bad []Finding) {
	known := map[string]bool{}
	for _, e := range loadKnown(filepath.Join(verifDir, "known_findings.txt")) {
		if e.prop == c.ID {
			known[e.key] = true
		}
	}
	for _, f := range c.Findings {
		if !known[f.Key()] {
			bad = append(bad, f)
		}
	}
	return
}

// Finish prints the verdict, writes the evidence and returns the exit code.
func (c *Check) Finish(verifDir, tier string, seed int, start time.Time, level string) int {
	known := loadKnown(filepath.Join(verifDir, "known_findings.txt"))
	var keys []string
	for k := range c.Findings {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var bad []Finding
	var knownHit []string
	for _, k := range keys {
		f := c.Findings[k]
		isKnown := false
		for _, e := range known {
			if e.prop == c.ID && e.key == f.Key() {
				isKnown = true
				knownHit = append(knownHit, f.Key())
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.ID, f.Key(), e.text)
			}
		}
		if !isKnown {
			bad = append(bad, f)
		}
	}
	obl := 0
	var ruleInfo []map[string]any
	for _, r := range c.order {
		var cs []string
		for s := range c.Seen[r] {
			cs = append(cs, s)
		}
		sort.Strings(cs)
		obl += len(cs)
		show := cs
		if len(show) > 60 && tier != "thorough" {
			show = show[:60]
		}
		ruleInfo = append(ruleInfo, map[string]any{"rule": r, "text": c.Rules[r], "instances": c.Counts[r], "distinct_constructs": len(cs), "constructs": show})
	}
	exp := fmt.Sprintf("Static analysis of /repo's current source (type-checked with go/packages, lowered to SSA): %d obligations over %d rules examined, %d violated, %d of those listed as known findings. No library code was executed.", obl, len(c.order), len(keys), len(knownHit))
	cov := map[string]any{"explanation": exp, "obligations": obl, "discharged": obl - len(keys), "rules": ruleInfo, "violations": len(bad), "known_findings": knownHit}
	if c.P != nil {
		cov["functions_in_library"] = len(c.P.SrcFuncs())
		cov["packages"] = len(c.P.Pkgs)
	}
	for k, v := range c.Info {
		cov[k] = v
	}
	ev := map[string]any{"property": c.ID, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": time.Since(start).Seconds()}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	replay := filepath.Join("evidence", c.ID+".violations.txt")
	if len(bad) == 0 {
		os.Remove(filepath.Join(verifDir, replay))
		fmt.Printf("OK property=%s obligations=%d rules=%d wall=%.1fs\n", c.ID, obl, len(c.order), time.Since(start).Seconds())
		return 0
	}
	var sb strings.Builder
	for _, f := range bad {
		fmt.Fprintf(&sb, "%s: [%s] %s: %s\n", f.Pos, f.Rule, f.Construct, f.Msg)
		if t := c.Rules[f.Rule]; t != "" {
			fmt.Fprintf(&sb, "    rule: %s\n", t)
		}
		for _, t := range f.Trace {
			fmt.Fprintf(&sb, "    via %s\n", t)
		}
	}
	os.WriteFile(filepath.Join(verifDir, replay), []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replay)
	return 1
}
