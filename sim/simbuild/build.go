// Package simbuild makes the simulator's build of the code under test: an instrumented copy of the
// repository's working tree and of the two modules whose behaviour depends on global randomness,
// linked with the driver, in a scratch directory.
package simbuild

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verif.local/vsim/instrument"
)

// Build describes a finished build.
type Build struct {
	Dir    string // scratch directory
	Plain  string // driver binary
	Race   string // driver binary with the race detector
	Level  string // how much of the instrumentation the tree accepted
	Wall   time.Duration
	env    []string
	Module string
}

// Env is the environment of every go command.
func Env(extra ...string) []string {
	e := []string{
		"HOME=" + or(os.Getenv("HOME"), "/root"),
		"PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod",
		"GOCACHE=" + or(os.Getenv("VSIM_GOCACHE"), "/root/.cache/go-build"),
		"GOENV=off", "GO111MODULE=on", "GOTOOLCHAIN=local", "GOWORK=off", "GOPROXY=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=readonly",
		"TMPDIR=" + os.TempDir(),
	}
	return append(e, extra...)
}

func or(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

func copyTree(src, dst string, keep func(rel string) bool) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0777)
		}
		if !fi.Mode().IsRegular() || !keep(rel) {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0666)
	})
}

// External modules that are instrumented too.
var external = []string{"github.com/RenatoGeh/kmeans", "github.com/muesli/clusters"}

// Make builds the driver for the tree in repo. simDir is the directory with simrt and checks.
func Make(repo, simDir, scratch string, race bool, logf func(string, ...interface{})) (*Build, error) {
	t0 := time.Now()
	env := Env()
	pkgs, err := instrument.List(repo, env)
	if err != nil {
		return nil, err
	}
	b := &Build{Dir: scratch, env: env}
	ladder := []struct {
		name string
		o    instrument.Options
	}{
		{"statement yields, split read-modify-writes, seeded map order, channels", instrument.Options{Yields: true, RMW: true, Maps: true, Chans: true}},
		{"statement yields, split read-modify-writes, seeded map order", instrument.Options{Yields: true, RMW: true, Maps: true}},
		{"statement yields, seeded map order", instrument.Options{Yields: true, Maps: true}},
		{"statement yields", instrument.Options{Yields: true}},
		{"synchronisation points only", instrument.Options{}},
	}
	var last error
	for i, l := range ladder {
		last = b.try(pkgs, repo, simDir, l.o, race)
		if last == nil {
			b.Level = l.name
			b.Wall = time.Since(t0)
			return b, nil
		}
		logf("instrumentation level %d did not build: %v", i, last)
	}
	return nil, last
}

func (b *Build) try(pkgs []instrument.Pkg, repo, simDir string, o instrument.Options, race bool) error {
	if err := os.RemoveAll(filepath.Join(b.Dir, "t")); err != nil {
		return err
	}
	t := filepath.Join(b.Dir, "t")
	rdst := filepath.Join(t, "repo")
	if err := copyTree(filepath.Join(simDir, "simrt"), filepath.Join(t, "simrt"), func(string) bool { return true }); err != nil {
		return err
	}
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return err
	}
	lang := ""
	var kept []string
	for _, ln := range strings.Split(string(mod), "\n") {
		f := strings.Fields(ln)
		if len(f) == 2 && f[0] == "go" {
			lang = "go" + f[1]
			continue
		}
		if len(f) > 0 && (f[0] == "toolchain" || f[0] == "godebug") {
			continue
		}
		if len(f) == 2 && f[0] == "module" {
			b.Module = f[1]
		}
		kept = append(kept, ln)
	}
	gov := strings.TrimPrefix(lang, "go")
	if minor(lang) < 21 {
		gov = "1.21"
	}
	roots := []instrument.Root{{Src: repo, Dst: rdst, Lang: lang}}
	newmod := strings.Join(kept, "\n") + "\ngo " + gov + "\ngodebug default=go1.25\nrequire verif.local/simrt v0.0.0\nreplace verif.local/simrt => ../simrt\n"
	for _, e := range external {
		for _, p := range pkgs {
			if p.ImportPath == e && p.Dir != "" && !p.Standard {
				d := filepath.Join(t, filepath.Base(e))
				roots = append(roots, instrument.Root{Src: p.Dir, Dst: d})
				if err := os.MkdirAll(d, 0777); err != nil {
					return err
				}
				m := "module " + e + "\n\ngo 1.21\n"
				if err := os.WriteFile(filepath.Join(d, "go.mod"), []byte(m), 0666); err != nil {
					return err
				}
				newmod += fmt.Sprintf("replace %s => ../%s\n", e, filepath.Base(e))
			}
		}
	}
	if err := instrument.Trees(pkgs, roots, filepath.Join(t, "simrt"), o); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(rdst, "go.mod"), []byte(newmod), 0666); err != nil {
		return err
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(rdst, "go.sum"), sum, 0666); err != nil {
		return err
	}
	if err := copyTree(filepath.Join(simDir, "checks"), filepath.Join(rdst, "zzverif"), func(r string) bool { return strings.HasSuffix(r, ".go") }); err != nil {
		return err
	}
	build := func(out string, args ...string) error {
		a := append([]string{"test", "-mod=mod", "-vet=off", "-c", "-o", out}, args...)
		a = append(a, "./zzverif")
		c := exec.Command("go", a...)
		c.Dir = rdst
		c.Env = b.env
		var buf bytes.Buffer
		c.Stdout, c.Stderr = &buf, &buf
		if err := c.Run(); err != nil {
			s := buf.String()
			if len(s) > 4000 {
				s = s[:4000]
			}
			return fmt.Errorf("go %s: %v\n%s", strings.Join(a, " "), err, s)
		}
		return nil
	}
	plain := filepath.Join(b.Dir, "driver")
	if err := build(plain); err != nil {
		return err
	}
	if m, err := os.ReadFile(filepath.Join(rdst, "go.mod")); err != nil || !strings.Contains(string(m), "\ngo "+gov+"\n") {
		return fmt.Errorf("the language version of the module changed while building")
	}
	b.Plain = plain
	if race {
		r := filepath.Join(b.Dir, "driver.race")
		if err := build(r, "-race"); err != nil {
			return err
		}
		b.Race = r
	}
	return nil
}

func minor(v string) int {
	parts := strings.Split(strings.TrimPrefix(v, "go"), ".")
	if len(parts) < 2 {
		return 0
	}
	n := 0
	fmt.Sscanf(parts[1], "%d", &n)
	return n
}
