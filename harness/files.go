package main

import (
	"os"
	"path/filepath"
	"sort"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func writeFile(path string, b []byte) { must(os.WriteFile(path, b, 0644)) }

func readFile(path string) []byte {
	b, err := os.ReadFile(path)
	must(err)
	return b
}

func openFile(path string) *os.File {
	f, err := os.Open(path)
	must(err)
	return f
}

func signFile(in, out string, op SignOp) error {
	f := openFile(in)
	defer f.Close()
	_, err := rpmutils.SignRpmFile(f, out, testKeys()[op.Key].Priv, op.options())
	return err
}

// listDir names everything below dir.
func listDir(dir string) []string {
	var out []string
	must(filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if p != dir {
			out = append(out, p[len(dir)+1:])
		}
		return nil
	}))
	sort.Strings(out)
	return out
}
