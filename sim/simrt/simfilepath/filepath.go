// Package simfilepath stands in for the parts of path/filepath that look at the file system.
package simfilepath

import (
	"io/fs"
	"path"
	"path/filepath"
	"sort"

	"verif.local/simrt/simos"
)

type WalkFunc = filepath.WalkFunc

func Abs(p string) (string, error) {
	if path.IsAbs(p) {
		return path.Clean(p), nil
	}
	return path.Join("/work", p), nil
}

func EvalSymlinks(p string) (string, error) { return path.Clean(p), nil }

func Glob(pattern string) ([]string, error) {
	var out []string
	dir := path.Dir(pattern)
	es, err := simos.ReadDir(dir)
	if err != nil {
		return nil, nil
	}
	for _, e := range es {
		ok, err := path.Match(path.Base(pattern), e.Name())
		if err != nil {
			return nil, err
		}
		if ok {
			out = append(out, path.Join(dir, e.Name()))
		}
	}
	sort.Strings(out)
	return out, nil
}

func walk(p string, fi fs.FileInfo, f WalkFunc) error {
	err := f(p, fi, nil)
	if err != nil {
		if fi.IsDir() && err == filepath.SkipDir {
			return nil
		}
		return err
	}
	if !fi.IsDir() {
		return nil
	}
	es, err := simos.ReadDir(p)
	if err != nil {
		return f(p, fi, err)
	}
	for _, e := range es {
		i, _ := e.Info()
		if err := walk(path.Join(p, e.Name()), i, f); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, f WalkFunc) error {
	fi, err := simos.Stat(root)
	if err != nil {
		return f(root, nil, err)
	}
	return walk(root, fi, f)
}
