// Command hv runs the monitor of a property
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"

	"hv/checks"
	"hv/rep"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: hv <property>")
		os.Exit(2)
	}
	if m, ok := checks.Modes[os.Args[1]]; ok {
		os.Exit(m(os.Args[2:]))
	}
	ck, ok := checks.All[os.Args[1]]
	if !ok {
		fmt.Println("unknown property", os.Args[1])
		os.Exit(2)
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		rep.VerifDir = d
	}
	// The environment must be the same in every run
	for _, n := range []string{"HIERA_CONFIGFILE", "HIERA_DATADIR", "HIERA_PLUGINDIR"} {
		_ = os.Unsetenv(n)
	}
	exe, _ := os.Executable()
	tmp, err := os.MkdirTemp(os.Getenv("HV_TMP"), "hvw")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	c := &checks.C{R: rep.New(ck.ID, ck.Level, ck.Rule, seed, tier), Seed: seed, Tmp: tmp, Bin: filepath.Dir(exe)}
	go c.Watchdog()
	ck.Run(c)
	_ = os.RemoveAll(tmp)
	os.Exit(c.Finish())
}
