// Command gen generates the Go code of the random programs with the
// repository's own generator (the code under test).
package main

import (
	"context"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"github.com/mercari/grpc-federation/generator"

	"verif.local/sim/prog"
)

func main() {
	log.SetOutput(io.Discard)
	if len(os.Args) < 5 {
		fmt.Fprintln(os.Stderr, "usage: gen REPO HARNESSDIR PROTODIR seed,seed,... [extradir...]")
		os.Exit(2)
	}
	repo, hdir, pdir := os.Args[1], os.Args[2], os.Args[3]
	must(os.MkdirAll(filepath.Join(pdir, "bk"), 0o755))
	must(os.WriteFile(filepath.Join(pdir, "bk", "bk.proto"), []byte(prog.BackendProto), 0o644))
	type job struct{ name, dir string }
	jobs := []job{{"bk", filepath.Join(pdir, "bk")}}
	for _, s := range strings.Split(os.Args[4], ",") {
		if s == "" {
			continue
		}
		seed, err := strconv.ParseUint(s, 10, 64)
		must(err)
		p := prog.Generate(seed)
		d := filepath.Join(pdir, p.Name)
		must(os.MkdirAll(d, 0o755))
		must(os.WriteFile(filepath.Join(d, p.Name+".proto"), []byte(p.Proto()), 0o644))
		g := filepath.Join(hdir, "gen", p.Name)
		must(os.MkdirAll(g, 0o755))
		must(os.WriteFile(filepath.Join(g, "glue.go"), []byte(p.Glue()), 0o644))
		jobs = append(jobs, job{p.Name, d})
	}
	for _, x := range os.Args[5:] { // directories of handwritten files
		name := filepath.Base(filepath.Dir(x))
		d := filepath.Join(pdir, name)
		must(os.MkdirAll(d, 0o755))
		fs, err := filepath.Glob(filepath.Join(x, "*.proto"))
		must(err)
		for _, f := range fs {
			b, err := os.ReadFile(f)
			must(err)
			must(os.WriteFile(filepath.Join(d, filepath.Base(f)), b, 0o644))
		}
		jobs = append(jobs, job{name, d})
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	sem := make(chan struct{}, 8)
	for _, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			if err := generate(repo, hdir, pdir, j.dir); err != nil {
				mu.Lock()
				bad++
				fmt.Fprintf(os.Stderr, "generate %s: %v\n", j.name, err)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if bad > 0 {
		os.Exit(1)
	}
}

func generate(repo, hdir, pdir, dir string) error {
	yaml := fmt.Sprintf("imports:\n  - %q\n  - %q\n  - %q\n  - %q\nsrc:\n  - %q\nout: %q\nplugins:\n", dir, filepath.Join(pdir, "bk"),
		filepath.Join(repo, "proto"), filepath.Join(repo, "proto_deps"), dir, hdir)
	for _, n := range []string{"go", "go-grpc", "grpc-federation"} {
		yaml += fmt.Sprintf("  - plugin: %s\n    opt: module=verif.local/harness\n", n)
	}
	cfg, err := generator.LoadConfigFromReader(strings.NewReader(yaml))
	if err != nil {
		return err
	}
	out, err := generator.New(cfg).GenerateAll(context.Background())
	if err != nil {
		return err
	}
	n := 0
	for _, bc := range out {
		for _, r := range bc.Responses {
			for _, f := range r.GetFile() {
				if f.GetContent() == "" {
					continue
				}
				p := f.GetName()
				if !filepath.IsAbs(p) {
					p = filepath.Join(hdir, p)
				}
				if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
					return err
				}
				if err := os.WriteFile(p, []byte(f.GetContent()), 0o644); err != nil {
					return err
				}
				n++
			}
		}
	}
	if n < 2 {
		return fmt.Errorf("only %d files generated", n)
	}
	return nil
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
