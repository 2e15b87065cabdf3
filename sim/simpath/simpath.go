//go:build simruntime

// Package simpath has the API of package path/filepath over simos.
package simpath

import (
	"io/fs"
	"path"
	"path/filepath"
	"strings"

	os "verif.local/sim/simos"
)

const (
	Separator     = filepath.Separator
	ListSeparator = filepath.ListSeparator
)

var (
	ErrBadPattern = filepath.ErrBadPattern
	SkipDir       = fs.SkipDir
	SkipAll       = fs.SkipAll
)

type WalkFunc = filepath.WalkFunc

func Clean(p string) string                { return filepath.Clean(p) }
func ToSlash(p string) string              { return p }
func FromSlash(p string) string            { return p }
func SplitList(p string) []string          { return filepath.SplitList(p) }
func Split(p string) (string, string)      { return filepath.Split(p) }
func Join(e ...string) string              { return filepath.Join(e...) }
func Ext(p string) string                  { return filepath.Ext(p) }
func Base(p string) string                 { return filepath.Base(p) }
func Dir(p string) string                  { return filepath.Dir(p) }
func VolumeName(p string) string           { return "" }
func IsAbs(p string) bool                  { return filepath.IsAbs(p) }
func IsLocal(p string) bool                { return filepath.IsLocal(p) }
func Rel(b, t string) (string, error)      { return filepath.Rel(b, t) }
func Match(pat, name string) (bool, error) { return filepath.Match(pat, name) }
func HasPrefix(p, prefix string) bool      { return strings.HasPrefix(p, prefix) }
func Abs(p string) (string, error)         { return os.Clean(p), nil }
func Localize(p string) (string, error)    { return filepath.Localize(p) }
func EvalSymlinks(p string) (string, error) {
	if _, err := os.Lstat(p); err != nil {
		return "", err
	}
	return filepath.Clean(p), nil
}

func walk(p string, info fs.FileInfo, fn WalkFunc) error {
	if !info.IsDir() {
		return fn(p, info, nil)
	}
	ents, err := os.ReadDir(p)
	err1 := fn(p, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, e := range ents {
		name := filepath.Join(p, e.Name())
		fi, err := os.Lstat(name)
		if err != nil {
			if err := fn(name, fi, err); err != nil && err != SkipDir {
				return err
			}
			continue
		}
		if err := walk(name, fi, fn); err != nil {
			if !fi.IsDir() || err != SkipDir {
				return err
			}
		}
	}
	return nil
}

func Walk(root string, fn WalkFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	ents, err := os.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range ents {
		if err := walkDir(filepath.Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

// Glob without special directories.
func Glob(pattern string) ([]string, error) {
	if _, err := Match(pattern, ""); err != nil {
		return nil, err
	}
	var out []string
	var rec func(pre string, parts []string)
	rec = func(pre string, parts []string) {
		if len(parts) == 0 {
			if _, err := os.Lstat(pre); err == nil {
				out = append(out, pre)
			}
			return
		}
		if !strings.ContainsAny(parts[0], `*?[\`) {
			rec(path.Join(pre, parts[0]), parts[1:])
			return
		}
		dir := pre
		if dir == "" {
			dir = "."
		}
		ents, err := os.ReadDir(dir)
		if err != nil {
			return
		}
		for _, e := range ents {
			if ok, _ := Match(parts[0], e.Name()); ok {
				rec(path.Join(pre, e.Name()), parts[1:])
			}
		}
	}
	if strings.HasPrefix(pattern, "/") {
		rec("/", strings.Split(pattern[1:], "/"))
	} else {
		rec("", strings.Split(pattern, "/"))
	}
	return out, nil
}
