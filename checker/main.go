package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// rules maps a property to its analysis.
var rules = map[string]func(c *Check){}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: verifcheck <property|list|dump> [...]")
		os.Exit(2)
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ids := os.Args[1:]
	if ids[0] == "all" {
		ids = nil
		for k := range rules {
			if k == "dump-shape" {
				continue
			}
			ids = append(ids, k)
		}
		sort.Strings(ids)
	}
	code := 0
	fs := &forms{repo: repo}
	for _, id := range ids {
		if r := runOne(id, repo, verif, tier, seed, fs); r > code {
			code = r
		}
	}
	os.Exit(code)
}

// analyse runs a rule over a program.
func analyse(id string, p *Prog) (c *Check) {
	c = NewCheck(id, p)
	defer func() {
		if r := recover(); r != nil {
			// an analysis that cannot finish has decided nothing: fail, never pass
			st := strings.Split(string(debug.Stack()), "\n")
			if len(st) > 30 {
				st = st[:30]
			}
			c.Findings["analysis|panic"] = Finding{"analysis", "panic", "-", fmt.Sprintf("analysis could not be completed: %v", r), st}
		}
	}()
	c.Info["inlined_calls"] = p.Inlined
	rules[id](c)
	return c
}

// forms are the programs of one source tree: as written, and the equivalent ones (see normalize.go).
type forms struct {
	repo  string
	asIs  *Prog
	other []*Prog
	notes [][]string
	done  bool
}

func (f *forms) more() []*Prog {
	if f.done {
		return f.other
	}
	f.done = true
	defer func() { recover() }()
	for _, renameOnly := range []bool{false, true} {
		ov, notes := normalised(f.repo, renameOnly)
		if ov == nil || renameOnly && len(f.notes) > 0 && strings.Join(notes, ";") == strings.Join(f.notes[0], ";") {
			continue
		}
		if p, err := LoadProg(f.repo, ov, libPatterns...); err == nil {
			f.other, f.notes = append(f.other, p), append(f.notes, notes)
		}
	}
	return f.other
}

func runOne(id, repo, verif, tier string, seed int, fs *forms) int {
	start := time.Now()
	if _, ok := rules[id]; !ok {
		fmt.Printf("no rule for %s\n", id)
		return 2
	}
	if fs.asIs == nil {
		p, err := LoadProg(repo, nil, libPatterns...)
		if err != nil {
			c := NewCheck(id, nil)
			c.Findings["load|typecheck"] = Finding{"load", "typecheck", "-", err.Error(), nil}
			return c.Finish(verif, tier, seed, start, "other")
		}
		fs.asIs = p
	}
	c := analyse(id, fs.asIs)
	if len(c.unlisted(verif)) > 0 {
		for i, p := range fs.more() {
			d := analyse(id, p)
			if bad := d.unlisted(verif); len(bad) == 0 {
				d.Info["equivalent_form"] = fs.notes[i]
				c = d
				break
			} else if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Println("form", i, fs.notes[i])
				for _, f := range bad {
					fmt.Printf("  %s [%s] %s: %s\n", f.Pos, f.Rule, f.Construct, f.Msg)
					if os.Getenv("VERIF_DEBUG") == "2" {
						fmt.Println("     via " + strings.Join(f.Trace, "\n     via "))
					}
				}
			}
		}
	}
	return c.Finish(verif, tier, seed, start, "other")
}
