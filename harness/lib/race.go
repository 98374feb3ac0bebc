//go:build go1.24

package lib

import (
	"fmt"
	"io"
	"os"
	"regexp"
	"strings"

	"recengine/internal/zzverif/mc"
)

// Reports of the race detector go to the file $VERIF_RACES.PID.
var (
	racesFile *os.File
	racesSeen int
	frame     = regexp.MustCompile(`^  (\S.*)\(\)$`)
)

// transfer matches what the harness does to memory of its caller.
var transfer = regexp.MustCompile(`^recengine/internal/zzverif/(mc\.Assign|lib\.\(\*File\))`)

// access is one of the two accesses of a report.
type access struct{ what, fn, line string }

// races returns a description of the first conflict between accesses of the
// code under test that has been reported since the last call.
func races() (msg, report string) {
	if !mc.Racing || mc.RaceErrors() == racesSeen {
		return "", ""
	}
	racesSeen = mc.RaceErrors()
	if racesFile == nil {
		var err error
		if racesFile, err = os.Open(fmt.Sprintf("%s.%d", os.Getenv("VERIF_RACES"), os.Getpid())); err != nil {
			panic("VERIF-INTERNAL: no reports of the race detector: " + err.Error())
		}
	}
	text, err := io.ReadAll(racesFile)
	if err != nil {
		panic("VERIF-INTERNAL: " + err.Error())
	}
	for _, rep := range strings.Split(string(text), "WARNING: DATA RACE") {
		if m := conflict(rep); m != "" {
			return m, rep
		}
	}
	return "", ""
}

// conflict reads one report. Only what both accesses do on behalf of the code
// under test counts: the innermost function of the module must not be the
// harness's.
func conflict(rep string) string {
	var l []access
	lines := strings.Split(rep, "\n")
	open := false
	for i, s := range lines {
		switch {
		case strings.Contains(s, " at 0x") && strings.Contains(s, "by ") && !strings.HasPrefix(s, " "):
			f := strings.Fields(strings.TrimPrefix(s, "Previous "))
			l = append(l, access{what: strings.ToLower(f[0])})
			open = true
		case strings.HasPrefix(s, "Goroutine "):
			open = false
		case open && l[len(l)-1].fn == "":
			m := frame.FindStringSubmatch(s)
			if m == nil || !strings.HasPrefix(m[1], "recengine/") || transfer.MatchString(m[1]) {
				continue
			}
			l[len(l)-1].fn = m[1]
			if i+1 < len(lines) {
				w := strings.Fields(lines[i+1])
				if len(w) > 0 {
					l[len(l)-1].line = w[0][strings.LastIndex(w[0], "/")+1:]
				}
			}
		}
	}
	if len(l) != 2 {
		return ""
	}
	for _, a := range l {
		if a.fn == "" || strings.HasPrefix(a.fn, "recengine/internal/zzverif/") {
			return ""
		}
	}
	return fmt.Sprintf("no lock, channel or goroutine start orders the %s in %s (%s) and the %s in %s (%s)", l[0].what, l[0].fn, l[0].line, l[1].what, l[1].fn, l[1].line)
}
