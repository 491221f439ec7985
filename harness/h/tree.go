package h

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// FileState is what a later look at the file must find unchanged.
type FileState struct {
	Dir   bool
	Data  string
	MTime int64
	Inode uint64
}

type Tree map[string]FileState

// old is the mtime given to files before something that must not write them.
var old = time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)

// ReadTree reads everything below dir. A missing dir is an empty tree.
func ReadTree(dir string) Tree {
	t := Tree{}
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		i, err := d.Info()
		if err != nil {
			return nil
		}
		st := FileState{Dir: d.IsDir(), MTime: i.ModTime().UnixNano()}
		if sys, ok := i.Sys().(*syscall.Stat_t); ok {
			st.Inode = sys.Ino
		}
		if !d.IsDir() {
			b, err := os.ReadFile(p)
			if err != nil {
				b = []byte("unreadable: " + err.Error())
			}
			st.Data = string(b)
		}
		t[rel] = st
		return nil
	})
	return t
}

// Age sets an old mtime on everything below dir and returns the tree, so that any later write
// shows, even one of the same bytes.
func Age(dir string) Tree {
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil {
			_ = os.Chtimes(p, old, old)
		}
		return nil
	})
	return ReadTree(dir)
}

// Files returns only path -> bytes of the regular files.
func (t Tree) Files() map[string]string {
	m := map[string]string{}
	for p, s := range t {
		if !s.Dir {
			m[p] = s.Data
		}
	}
	return m
}

func (t Tree) Names() []string {
	var n []string
	for p := range t {
		n = append(n, p)
	}
	sort.Strings(n)
	return n
}

// SameBytes compares names and contents.
func SameBytes(a, b Tree) error {
	for p, s := range a {
		o, ok := b[p]
		if !ok {
			return fmt.Errorf("%s is gone", p)
		}
		if o.Dir != s.Dir {
			return fmt.Errorf("%s changed kind", p)
		}
		if !s.Dir && o.Data != s.Data {
			return fmt.Errorf("%s changed\n   from %s\n   to   %s", p, Show(s.Data), Show(o.Data))
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			return fmt.Errorf("%s appeared", p)
		}
	}
	return nil
}

// Untouched compares names, contents, mtimes and inodes: nothing was written at all.
func Untouched(a, b Tree) error {
	if err := SameBytes(a, b); err != nil {
		return err
	}
	for p, s := range a {
		if b[p].MTime != s.MTime {
			return fmt.Errorf("%s was written (mtime changed)", p)
		}
		if b[p].Inode != s.Inode {
			return fmt.Errorf("%s was replaced (inode changed)", p)
		}
	}
	return nil
}

// WriteFiles creates files below dir.
func WriteFiles(dir string, files map[string]S) error {
	for p, data := range files {
		full := filepath.Join(dir, p)
		if strings.HasSuffix(p, "/") {
			if err := os.MkdirAll(full, 0o777); err != nil {
				return err
			}
			continue
		}
		if err := os.MkdirAll(filepath.Dir(full), 0o777); err != nil {
			return err
		}
		if err := os.WriteFile(full, []byte(data), 0o666); err != nil {
			return err
		}
	}
	return nil
}
