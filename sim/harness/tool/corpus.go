//go:build simruntime

// Package tool simulates the repository's command-line programs (language
// server, generator, linter, protoc plugin) as processes over a file system,
// streams, file notifications and a network kept in memory.
package tool

import (
	"embed"
	"io/fs"
	"path"
	"sort"
	"strings"

	"verif.local/sim/simos"
)

//go:embed all:corpus
var corpus embed.FS

// Set is a directory of sources.
type Set struct {
	Name  string
	Files map[string]string // relative path to content
	Names []string          // sorted
}

func loadSet(dir string) *Set {
	s := &Set{Name: dir, Files: map[string]string{}}
	fs.WalkDir(corpus, "corpus/"+dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || path.Ext(p) != ".proto" {
			return nil
		}
		b, err := corpus.ReadFile(p)
		if err != nil {
			return nil
		}
		rel := strings.TrimPrefix(p, "corpus/"+dir+"/")
		s.Files[rel] = string(b)
		s.Names = append(s.Names, rel)
		return nil
	})
	sort.Strings(s.Names)
	return s
}

var sets = map[string]*Set{}

func set(dir string) *Set {
	if s := sets[dir]; s != nil {
		return s
	}
	s := loadSet(dir)
	sets[dir] = s
	return s
}

// install puts a set of sources below dir.
func install(dir string, files map[string]string) {
	simos.Calm(func() {
		var names []string
		for n := range files {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			p := path.Join(dir, n)
			simos.MkdirAll(path.Dir(p), 0o755)
			if err := simos.WriteFile(p, []byte(files[n]), 0o644); err != nil {
				panic(err)
			}
		}
	})
}
