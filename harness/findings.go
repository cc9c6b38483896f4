package main

import (
	"bufio"
	"os"
	"path/filepath"
	"strings"
)

// finding is a line of known_findings.txt
type finding struct {
	key  string
	text string
	demo func() bool
}

// demos show the known findings on the real code; by their key
var demos = map[string]func() bool{}

// knownFindings reads the findings of a property. Each line is
//
//	finding: property=ID key=KEY TEXT
func knownFindings(verif, id string) []finding {
	f, err := os.Open(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []finding
	for sc := bufio.NewScanner(f); sc.Scan(); {
		l := sc.Text()
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		parts := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(parts) != 3 || parts[0] != "property="+id {
			continue
		}
		key := strings.TrimPrefix(parts[1], "key=")
		out = append(out, finding{key: key, text: parts[2], demo: demos[key]})
	}
	return out
}
