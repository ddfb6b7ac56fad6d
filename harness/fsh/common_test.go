// Package fsh checks the upload, archive, CSV and file helpers (C26 to C30) in scratch directories.
package fsh

import (
	"fmt"
	"io/fs"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"

	"pgregory.net/rapid"
	"vharness/vt"
)

var home string // the shard's own scratch directory

func TestMain(m *testing.M) {
	// a write beyond RLIMIT_FSIZE must fail with EFBIG, not end the process
	signal.Ignore(syscall.SIGXFSZ)
	var err error
	if home, err = os.Getwd(); err != nil {
		vt.Harness("getwd: %v", err)
	}
	vt.Main(m)
}

func must[T any](v T, err error) T {
	if err != nil {
		vt.Harness("%v", err)
	}
	return v
}

func ok(err error) {
	if err != nil {
		vt.Harness("%v", err)
	}
}

// scratch makes a new directory, and changes into sub below it; the caller defers the returned function.
func scratch(sub string) (root string, done func()) {
	root = must(os.MkdirTemp(os.Getenv("VT_SCRATCH"), "fs-"))
	root = must(filepath.EvalSymlinks(root))
	ok(os.MkdirAll(filepath.Join(root, sub), 0o755))
	ok(os.Chdir(filepath.Join(root, sub)))
	return root, func() {
		ok(os.Chdir(home))
		filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error { // make everything removable again
			if d != nil && d.IsDir() {
				os.Chmod(p, 0o700)
			}
			return nil
		})
		os.RemoveAll(root)
	}
}

// left reads what the code under test left at the path: failing to is its doing.
func left[T any](rt *rapid.T, path string, read func(string) (T, error)) T {
	v, err := read(path)
	if err != nil {
		rt.Fatalf("what was left behind cannot be read: %v", err)
	}
	return v
}

// text is the content, or why there is none to be had.
func text(b []byte, err error) string {
	if err != nil {
		return "unreadable: " + err.Error()
	}
	return string(b)
}

// snapshot describes everything below root: type, permission bits, content or link target.
func snapshot(root string, skip func(rel string) bool) map[string]string {
	out := map[string]string{}
	err := filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		rel := must(filepath.Rel(root, p))
		if err != nil {
			out[rel] = "unreadable: " + err.Error()
			return nil
		}
		if skip != nil && skip(rel) {
			if d.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		switch {
		case d.IsDir():
			out[rel] = "dir"
		case d.Type()&fs.ModeSymlink != 0:
			out[rel] = "link " + must(os.Readlink(p))
		case d.Type().IsRegular():
			out[rel] = "file " + text(os.ReadFile(p))
		default:
			out[rel] = "other " + d.Type().String()
		}
		return nil
	})
	ok(err)
	return out
}

// diff names what differs between two snapshots, "" if nothing does.
func diff(got, want map[string]string) string {
	var ds []string
	for p, w := range want {
		if g, has := got[p]; !has {
			ds = append(ds, fmt.Sprintf("%q is gone (%.60q)", p, w))
		} else if g != w {
			ds = append(ds, fmt.Sprintf("%q is %.80q, want %.80q", p, g, w))
		}
	}
	for p, g := range got {
		if _, has := want[p]; !has {
			ds = append(ds, fmt.Sprintf("%q appeared (%.60q)", p, g))
		}
	}
	sort.Strings(ds)
	if len(ds) > 6 {
		ds = append(ds[:6], "…")
	}
	return strings.Join(ds, "; ")
}

// limited runs f under a lowered soft resource limit.
func limited(resource int, soft uint64, f func()) {
	var old syscall.Rlimit
	ok(syscall.Getrlimit(resource, &old))
	low := old
	low.Cur = min(soft, old.Max)
	ok(syscall.Setrlimit(resource, &low))
	defer func() { ok(syscall.Setrlimit(resource, &old)) }()
	f()
}

const fileSize = syscall.RLIMIT_FSIZE
