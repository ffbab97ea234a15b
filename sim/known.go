package main

import (
	"os"
	"strings"
)

// Known findings: genuine defects recorded in /verif/known-findings.txt which
// the model recognises by their exact effect. What the file does not list is
// a violation.
const knownInflationRest = "inflation-remainder-to-idle-pools"

type knownFinding struct{ Prop, ID, Text string }

var knownList []knownFinding

// loadKnown reads lines "finding: property=P id=ID text".
func loadKnown(path string) {
	knownList = nil
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: property="), " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[1], "id=") {
			knownList = append(knownList, knownFinding{f[0], strings.TrimPrefix(f[1], "id="), f[2]})
		}
	}
}

func isKnown(id string) bool {
	for _, k := range knownList {
		if k.ID == id {
			return true
		}
	}
	return false
}

// knownProp is the property each recognisable finding breaks.
var knownProp = map[string]string{knownInflationRest: "P03"}
