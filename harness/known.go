package main

import (
	"bufio"
	"fmt"
	"os"
	"strings"
	"sync"
)

// KnownFinding is a genuine defect that is recorded instead of repaired. The list of those that are
// tolerated is the committed file known-findings.txt; a key missing there is a violation like any other.
type KnownFinding struct {
	Key   string
	Probe func() (what string, fails bool) // the recorded input
}

var knownOnce sync.Once
var knownKeys map[string]string // "property key" -> description

func loadKnown() {
	knownKeys = map[string]string{}
	path := os.Getenv("WCHECK_KNOWN")
	if path == "" {
		path = "/verif/known-findings.txt"
	}
	f, err := os.Open(path)
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		rest, ok := strings.CutPrefix(sc.Text(), "finding: property=")
		if !ok {
			continue
		}
		parts := strings.SplitN(rest, " ", 3)
		if len(parts) < 2 || !strings.HasPrefix(parts[1], "key=") {
			continue
		}
		desc := ""
		if len(parts) == 3 {
			desc = parts[2]
		}
		knownKeys[parts[0]+" "+strings.TrimPrefix(parts[1], "key=")] = desc
	}
}

// known reports whether the finding is listed for the property.
func known(prop, key string) bool {
	knownOnce.Do(loadKnown)
	_, ok := knownKeys[prop+" "+key]
	return ok
}

// printKnown reports the listed findings that still fail.
func printKnown(p *Property) {
	for _, k := range p.Known {
		if !known(p.ID, k.Key) {
			continue
		}
		var what string
		fails := false
		if e := catch(func() { what, fails = k.Probe() }); e != nil {
			what, fails = fmt.Sprint(what, " panics: ", e), true
		}
		if fails {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, k.Key, what)
		}
	}
}
