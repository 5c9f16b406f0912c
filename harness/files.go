package main

import (
	"io/fs"
	"os"
	"path/filepath"
)

// everything lists all that lies below a directory.
func everything(dir string) map[string]string {
	m := map[string]string{}
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case d.IsDir():
			m[rel+"/"] = ""
		case d.Type()&fs.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			m[rel] = "-> " + t
		default:
			b, err := os.ReadFile(p)
			m[rel] = string(b)
			if err != nil {
				m[rel] = err.Error()
			}
		}
		return nil
	})
	return m
}

// treeDiff names the first file that differs between two listings.
func treeDiff(a, b map[string]string, skip func(string) bool) string {
	for _, k := range sortedKeys(a) {
		if v, ok := b[k]; skip(k) {
		} else if !ok {
			return k + " is gone"
		} else if v != a[k] {
			return k + " was modified"
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok && !skip(k) {
			return k + " appeared"
		}
	}
	return ""
}
