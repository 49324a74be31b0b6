// Package report collects obligations, writes evidence and prints verdicts.
package report

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Obligation is one thing a check had to establish.
type Obligation struct {
	Rule   string   `json:"rule"`
	Key    string   `json:"key"` // construct the obligation is about, independent of line numbers
	Pos    string   `json:"pos,omitempty"`
	OK     bool     `json:"ok"`
	Detail string   `json:"detail,omitempty"`
	Path   []string `json:"path,omitempty"`
}

// Report is the result of one property's check.
type Report struct {
	ID          string
	Tier        string
	Seed        int
	Rules       map[string]string
	Obls        []Obligation
	Counts      map[string]int
	Floors      map[string]int
	Assumptions []string
	start       time.Time
	seen        map[string]bool
}

func New(id string) *Report {
	return &Report{ID: id, Rules: map[string]string{}, Counts: map[string]int{}, Floors: map[string]int{}, start: time.Now(), seen: map[string]bool{}}
}

// Rule declares a rule and what it requires.
func (r *Report) Rule(name, text string) { r.Rules[name] = text }

// Assume records an assumption of the argument.
func (r *Report) Assume(s string) {
	for _, a := range r.Assumptions {
		if a == s {
			return
		}
	}
	r.Assumptions = append(r.Assumptions, s)
}

// OK records an established obligation.
func (r *Report) OK(rule, key, pos string) {
	r.Obls = append(r.Obls, Obligation{Rule: rule, Key: key, Pos: pos, OK: true})
}

// Fail records a violated (or undecided) obligation once per rule, key and detail.
func (r *Report) Fail(rule, key, pos, detail string, path ...string) {
	k := rule + "|" + key + "|" + pos + "|" + detail
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	if len(path) > 40 {
		path = append(path[:20:20], append([]string{"..."}, path[len(path)-19:]...)...)
	}
	r.Obls = append(r.Obls, Obligation{Rule: rule, Key: key, Pos: pos, Detail: detail, Path: path})
}

// Check records either outcome.
func (r *Report) Check(ok bool, rule, key, pos, detail string, path ...string) bool {
	if ok {
		r.OK(rule, key, pos)
	} else {
		r.Fail(rule, key, pos, detail, path...)
	}
	return ok
}

// Count adds to a counter of what was analysed.
func (r *Report) Count(name string, n int) { r.Counts[name] += n }

// Merge takes over what a part of the check found.
func (r *Report) Merge(p *Report) {
	for _, o := range p.Obls {
		k := o.Rule + "|" + o.Key + "|" + o.Pos + "|" + o.Detail
		if o.OK || !r.seen[k] {
			r.seen[k] = !o.OK
			r.Obls = append(r.Obls, o)
		}
	}
	for n, k := range p.Counts {
		r.Counts[n] += k
	}
	for _, a := range p.Assumptions {
		r.Assume(a)
	}
}

// Floor demands a minimum for a counter.
func (r *Report) Floor(name string, n int) { r.Floors[name] = n }

// known findings accepted for this property, keyed by rule and construct.
func loadKnown(dir, id string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" ")
		if !strings.HasPrefix(rest, "key=") {
			continue
		}
		rest = strings.TrimPrefix(rest, "key=")
		if i := strings.Index(rest, " :: "); i > 0 {
			m[rest[:i]] = rest[i+4:]
		}
	}
	return m
}

// Finish writes the evidence, prints the verdict and returns the exit code.
func (r *Report) Finish(dir string, explanation string) int {
	for n, min := range r.Floors {
		if r.Counts[n] < min {
			r.Fail("coverage", n, "", fmt.Sprintf("only %d %s analysed, at least %d were confirmed by hand", r.Counts[n], n, min))
		}
	}
	known := loadKnown(dir, r.ID)
	var bad []Obligation
	okN, knownN := 0, 0
	perRule := map[string]int{}
	printed := map[string]bool{}
	for _, o := range r.Obls {
		perRule[o.Rule]++
		if o.OK {
			okN++
			continue
		}
		if what, isKnown := known[o.Rule+"/"+o.Key]; isKnown {
			knownN++
			if !printed[o.Rule+"/"+o.Key] {
				printed[o.Rule+"/"+o.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, what)
			}
			continue
		}
		bad = append(bad, o)
	}
	evdir := filepath.Join(dir, "evidence")
	os.MkdirAll(evdir, 0o755)
	cov := map[string]interface{}{
		"explanation":            explanation,
		"rules":                  r.Rules,
		"obligations":            len(r.Obls),
		"obligations_ok":         okN,
		"obligations_violated":   len(bad),
		"obligations_known":      knownN,
		"obligations_per_rule":   perRule,
		"analysed":               r.Counts,
		"minimum_instances":      r.Floors,
		"obligations_discharged": sample(r.Obls),
	}
	var viol []map[string]interface{}
	for _, o := range bad {
		viol = append(viol, map[string]interface{}{"rule": o.Rule, "construct": o.Key, "pos": o.Pos, "detail": o.Detail, "path": o.Path})
	}
	ev := map[string]interface{}{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(),
		"assumptions": r.Assumptions,
	}
	if len(viol) > 0 {
		ev["violations"] = viol
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, r.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	var cs []string
	for k, v := range r.Counts {
		cs = append(cs, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(cs)
	fmt.Printf("%s: %d obligations, %d discharged, %d known, %d violated; analysed %s\n", r.ID, len(r.Obls), okN, knownN, len(bad), strings.Join(cs, " "))
	replay := filepath.Join(evdir, r.ID+".violations.txt")
	if len(bad) == 0 {
		os.Remove(replay)
		return 0
	}
	var sb strings.Builder
	for _, o := range bad {
		fmt.Fprintf(&sb, "%s: [%s] %s: %s\n", o.Pos, o.Rule, o.Key, o.Detail)
		for _, p := range o.Path {
			fmt.Fprintf(&sb, "    %s\n", p)
		}
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, replay)
	return 1
}

func sample(os []Obligation) []string {
	var out []string
	for _, o := range os {
		if o.OK && len(out) < 400 {
			out = append(out, o.Rule+": "+o.Key+" "+o.Pos)
		}
	}
	return out
}
