//go:build race

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	"verifsim/props"
)

// The driver starts race builds with GORACE log_path set to a scratch file;
// reports are read back from there.
func setupRace() {
	props.RaceErrors = runtime.RaceErrors
	base := ""
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			base = strings.TrimPrefix(f, "log_path=")
		}
	}
	file := base + "." + fmt.Sprint(os.Getpid())
	off := 0
	props.RaceText = func() string {
		if base == "" {
			return ""
		}
		b, err := os.ReadFile(file)
		if err != nil {
			m, _ := filepath.Glob(base + ".*")
			return fmt.Sprintf("(no report text: %v, have %v)", err, m)
		}
		t := string(b[off:])
		off = len(b)
		if len(t) > 6000 {
			t = t[:6000]
		}
		return t
	}
}
