package fsh

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"pgregory.net/rapid"
	"vharness/vt"
)

func TestC26(t *testing.T) {
	vt.Check(t, "histories", "one to four uploads (shared digests, shared and prefix-like names, 1 to 14, rarely 120, chunks of 0 to 9000, rarely 300,000, bytes), chunks stored in drawn order, again with other or nearly the same content, several at once, or under a file size limit; assembling (also incomplete, again, over an older file, or under a limit) and removing interleaved; at the end every upload is completed and assembled; non-trivial: an upload of more than ten chunks or with a gap, retransmission or removal",
		1200, 60000, uploads)
	vt.Check(t, "numbers", "uploads whose chunk numbers are far apart, of any magnitude: each number's content is kept, assembling fails while chunks are missing and removal removes them all; non-trivial: a number over 32,767",
		300, 10000, farChunks)
	vt.Check(t, "many", "one upload of 32,000 to 70,000 chunks of 0 to 3 bytes stored in a drawn order with some retransmissions; non-trivial: all",
		1, 8, manyChunks)
	vt.Check(t, "huge chunks", "uploads of 2 to 32 MiB in one to four chunks; non-trivial: all",
		3, 60, hugeChunks)
}

func farChunks(rt *rapid.T, c *vt.C) {
	_, done := scratch("w")
	defer done()
	u := &upload{digest: "d1", name: vt.Pick(rt, "name", uploadNames...), chunks: map[int][]byte{}, paths: map[int]string{}}
	top := 0
	for n := rapid.IntRange(1, 8).Draw(rt, "chunks"); n > 0; n-- {
		k := vt.Pick(rt, "near", 0, 0, 1, 2, 1<<7, 1<<8, 1<<15-1, 1<<15, 1<<16, 1<<31-1, 1<<31, 1<<32, 1<<53, 1<<53+1, 1<<63-2, 1<<63-1)
		if rapid.Bool().Draw(rt, "any") {
			k = int(rapid.Uint64().Draw(rt, "number") >> rapid.IntRange(1, 63).Draw(rt, "shift"))
		}
		top = max(top, k)
		b := vt.Bytes(20).Draw(rt, "content")
		c.Logf("store chunk %d", k)
		path, err := utils.BreakPointContinue(bytes.Clone(b), u.name, k, max(k, k+1), u.digest)
		if err != nil {
			rt.Fatalf("storing chunk %d: %v", k, err)
		}
		u.chunks[k], u.paths[k] = b, path
		for k, b := range u.chunks {
			if got, err := os.ReadFile(u.paths[k]); err != nil || !bytes.Equal(got, b) {
				rt.Fatalf("after %s: chunk %d holds %q, %v; want %q", c.Last(), k, got, err, b)
			}
		}
	}
	want, complete := []byte(nil), len(u.chunks)-1 == top
	if complete {
		want, _ = u.want()
	}
	path, err := utils.MakeFile(u.name, u.digest)
	switch got, _ := os.ReadFile(path); {
	case complete && (err != nil || !bytes.Equal(got, want)):
		rt.Fatalf("assembling chunks 0 to %d: %q, %v; want %q", top, got, err, want)
	case !complete && err == nil:
		rt.Fatalf("assembling %d chunks, the highest being %d, succeeds", len(u.chunks), top)
	}
	if _, err := os.Lstat("fileDir/" + u.name); !complete && err == nil {
		rt.Fatalf("a file is left after assembling an incomplete upload")
	}
	if err := utils.RemoveChunk(u.digest); err != nil {
		rt.Fatalf("removing: %v", err)
	}
	for k, p := range u.paths {
		if _, err := os.Lstat(p); err == nil {
			rt.Fatalf("chunk %d is still there after removal", k)
		}
	}
	c.NTIf(top > 1<<15-1)
}

func manyChunks(rt *rapid.T, c *vt.C) {
	_, done := scratch("w")
	defer done()
	n := rapid.IntRange(32000, 70000).Draw(rt, "chunks")
	x := rapid.Uint64().Draw(rt, "seed")
	stride := vt.Pick(rt, "stride", 1, 7919, n-1, 104729)
	for n%stride == 0 && stride > 1 {
		n--
	}
	c.Logf("%d chunks by strides of %d", n, stride)
	var want []byte
	content := make([][]byte, n)
	for i := 0; i < n+n/50; i++ { // the stride is prime to n or, for all but 1, its multiples still reach most; the rest follow
		k := i * stride % n
		x = vt.Mix(x + 1)
		content[k] = []byte(fmt.Sprint(x))[:x>>20%4]
		if _, err := utils.BreakPointContinue(bytes.Clone(content[k]), "big", k, n, "d"); err != nil {
			rt.Fatalf("storing chunk %d: %v", k, err)
		}
	}
	for k := range content {
		if content[k] == nil {
			content[k] = []byte{byte(k)}
			if _, err := utils.BreakPointContinue([]byte{byte(k)}, "big", k, n, "d"); err != nil {
				rt.Fatalf("storing chunk %d: %v", k, err)
			}
		}
		want = append(want, content[k]...)
	}
	path, err := utils.MakeFile("big", "d")
	if err != nil {
		rt.Fatalf("assembling %d chunks: %v", n, err)
	}
	if got := left(rt, path, os.ReadFile); !bytes.Equal(got, want) {
		rt.Fatalf("%d chunks assembled to %d bytes, want %d; they differ", n, len(got), len(want))
	}
	c.NT()
}

type upload struct {
	digest, name string
	n            int
	order        []int
	chunks       map[int][]byte
	paths        map[int]string
	torn         map[int]bool
}

func (u *upload) String() string { return fmt.Sprintf("%q/%q", u.digest, u.name) }

// want is the file to assemble; ok is false if a chunk below the highest is missing.
func (u *upload) want() (content []byte, complete bool) {
	top := -1
	for k := range u.chunks {
		top = max(top, k)
	}
	for k := 0; k <= top; k++ {
		b, has := u.chunks[k]
		if !has {
			return nil, false
		}
		content = append(content, b...)
	}
	return content, true
}

var uploadNames = []string{"a", "a_1", "a_1_1", "1", "_", "a_", "_0", "0", "video.mp4", ".hidden", "a b", "名字", "a\nb", "x\xffy", "A", "aa", "01", "-1", "*", "[a]", "%d", "a_00", "~", "name_10"}

func uploads(rt *rapid.T, c *vt.C) {
	_, done := scratch("w")
	defer done()
	digests := []string{"d41d8cd98f00b204e9800998ecf8427e", "d41d8cd98f00b204e9800998ecf8427", "m", "m_0"}
	var us []*upload
	for n := rapid.IntRange(1, 4).Draw(rt, "uploads"); n > 0; n-- {
		u := &upload{digest: vt.Pick(rt, "digest", digests...), name: vt.Pick(rt, "name", uploadNames...),
			n: rapid.IntRange(1, 14).Draw(rt, "chunks"), chunks: map[int][]byte{}, paths: map[int]string{}, torn: map[int]bool{}}
		if rapid.Bool().Draw(rt, "plain") {
			u.name = vt.Pick(rt, "name", uploadNames[:3]...)
			u.digest = digests[2+rapid.IntRange(0, 1).Draw(rt, "digest")]
		}
		if rapid.IntRange(0, 60).Draw(rt, "many") == 0 {
			u.n = rapid.IntRange(99, 120).Draw(rt, "chunks")
		}
		dup := false
		for _, v := range us {
			dup = dup || v.digest == u.digest && v.name == u.name
		}
		if dup {
			continue
		}
		ks := make([]int, u.n)
		for i := range ks {
			ks[i] = i
		}
		if rapid.IntRange(0, 3).Draw(rt, "shuffled") > 0 {
			ks = rapid.Permutation(ks).Draw(rt, "order")
		}
		u.order = ks
		us = append(us, u)
		c.Logf("upload %s of %d chunks in order %v", u, u.n, ks)
		c.NTIf(u.n > 10)
	}
	files := map[string]string{} // what ./fileDir must hold, where known
	if rapid.IntRange(0, 3).Draw(rt, "older") == 0 {
		ok(os.MkdirAll("fileDir", 0o755))
		for _, u := range us {
			old := strings.Repeat("old content ", rapid.IntRange(0, 300).Draw(rt, "old"))
			ok(os.WriteFile("fileDir/"+u.name, []byte(old), 0o644))
			files[u.name] = old
		}
		c.Logf("older files")
	}
	if rapid.Bool().Draw(rt, "bystanders") {
		ok(os.MkdirAll("fileDir", 0o755))
		for _, n := range []string{"a_0", "unrelated"} {
			if _, has := files[n]; !has {
				ok(os.WriteFile("fileDir/"+n, []byte("keep "+n), 0o644))
				files[n] = "keep " + n
			}
		}
	}
	content := func() []byte {
		switch vt.Weighted(rt, "big", 14, 2, 1) {
		case 1:
			return vt.Bytes(9000).Draw(rt, "content")
		case 2: // up to 300 kB, without a draw for each byte
			b := make([]byte, rapid.IntRange(1000, 300000).Draw(rt, "length"))
			x := rapid.Uint64().Draw(rt, "seed")
			for i := range b {
				if i%7 == 0 {
					x = vt.Mix(x + 1)
				}
				b[i] = byte(x >> (i % 7 * 8))
			}
			return b
		}
		return vt.Bytes(30).Draw(rt, "content")
	}
	store := func(u *upload, k int, limit bool) {
		b := content()
		old, again := u.chunks[k]
		if len(old) > 0 && rapid.IntRange(0, 2).Draw(rt, "alike") == 0 { // the same but for at most one byte
			b = bytes.Clone(old)
			b[vt.Pick(rt, "differs", 0, len(b)/2, len(b)-1)] ^= byte(rapid.IntRange(0, 1).Draw(rt, "by"))
		}
		c.NTIf(again)
		was := bytes.Clone(b)
		var path string
		var err error
		if limit && len(b) > 0 {
			at := rapid.IntRange(0, len(b)-1).Draw(rt, "limit")
			c.Logf("store %s chunk %d (%d bytes) with room for %d", u, k, len(b), at)
			limited(fileSize, uint64(at), func() { path, err = utils.BreakPointContinue(b, u.name, k, u.n, u.digest) })
			if err == nil {
				rt.Fatalf("storing %d bytes where only %d fit succeeds", len(b), at)
			}
			u.chunks[k], u.torn[k] = nil, true
			return
		}
		c.Logf("store %s chunk %d: %d bytes %.20q", u, k, len(b), b)
		path, err = utils.BreakPointContinue(b, u.name, k, u.n, u.digest)
		if err != nil {
			rt.Fatalf("storing chunk %d of %s: %v", k, u, err)
		}
		if !bytes.Equal(b, was) {
			rt.Fatalf("storing changed the chunk")
		}
		for i := range b { // the caller may use its buffer again
			b[i] ^= 0x55
		}
		u.chunks[k], u.paths[k] = was, path
		delete(u.torn, k)
	}
	assemble := func(u *upload, limit bool) {
		if len(u.chunks) == 0 || len(u.torn) > 0 {
			return // unspecified
		}
		want, complete := u.want()
		c.Logf("assemble %s (complete: %v)", u, complete)
		var path string
		var err error
		if limit {
			at := rapid.IntRange(0, len(want)+10).Draw(rt, "limit")
			c.Logf("with room for %d", at)
			limited(fileSize, uint64(at), func() { path, err = utils.MakeFile(u.name, u.digest) })
			if err != nil && complete && at < len(want) {
				delete(files, u.name)
				return
			}
		} else {
			path, err = utils.MakeFile(u.name, u.digest)
		}
		if !complete {
			c.NT()
			if err == nil {
				rt.Fatalf("assembling %s with chunks %v succeeds", u, keys(u.chunks))
			}
			if _, err := os.Lstat("fileDir/" + u.name); err == nil {
				rt.Fatalf("a file is left after assembling %s with chunks %v failed", u, keys(u.chunks))
			}
			delete(files, u.name)
			return
		}
		if err != nil {
			rt.Fatalf("assembling %s: %v", u, err)
		}
		got, err := os.ReadFile(path)
		if err != nil {
			rt.Fatalf("the assembled file of %s: %v", u, err)
		}
		if !bytes.Equal(got, want) {
			rt.Fatalf("%s assembled to %d bytes %.200q, want %d bytes %.200q", u, len(got), got, len(want), want)
		}
		files[u.name] = string(want)
	}
	check := func() {
		for n, want := range files {
			if got, err := os.ReadFile("fileDir/" + n); err != nil || string(got) != want {
				rt.Fatalf("after %s: file %q holds %.100q, %v; want %.100q", c.Last(), n, got, err, want)
			}
		}
	}
	next := func(u *upload, most int) []int {
		m := min(most, len(u.order))
		ks := u.order[:m]
		u.order = u.order[m:]
		return ks
	}
	steps := rapid.IntRange(2, 25).Draw(rt, "steps")
	for s := 0; s < steps; s++ {
		u := us[rapid.IntRange(0, len(us)-1).Draw(rt, "upload")]
		switch vt.Weighted(rt, "op", 8, 3, 2, 4, 1, 1, 1) {
		case 0:
			for _, k := range next(u, rapid.IntRange(1, 6).Draw(rt, "run")) {
				store(u, k, false)
			}
		case 1:
			if len(u.chunks) > 0 {
				ks := keys(u.chunks)
				store(u, ks[rapid.IntRange(0, len(ks)-1).Draw(rt, "again")], false)
			}
		case 2: // several chunks at once
			ks := next(u, 6)
			bs := make([][]byte, len(ks))
			for i := range bs {
				bs[i] = content()
			}
			c.Logf("store %s chunks %v at once", u, ks)
			paths, errs := make([]string, len(ks)), make([]error, len(ks))
			var wg sync.WaitGroup
			for i, k := range ks {
				wg.Add(1)
				go func() {
					defer wg.Done()
					paths[i], errs[i] = utils.BreakPointContinue(bs[i], u.name, k, u.n, u.digest)
				}()
			}
			wg.Wait()
			for i, k := range ks {
				if errs[i] != nil {
					rt.Fatalf("storing chunk %d of %s: %v", k, u, errs[i])
				}
				u.chunks[k], u.paths[k] = bs[i], paths[i]
			}
		case 3:
			assemble(u, false)
		case 4:
			assemble(u, true)
		case 5:
			ks := next(u, 1)
			if len(ks) == 0 {
				ks = keys(u.chunks)
			}
			if len(ks) > 0 {
				store(u, ks[rapid.IntRange(0, len(ks)-1).Draw(rt, "which")], true)
				c.Label("store without room")
			}
		case 6:
			c.Logf("remove %q", u.digest)
			if err := utils.RemoveChunk(u.digest); err != nil && len(u.paths) > 0 {
				rt.Fatalf("removing %q: %v", u.digest, err)
			}
			for _, v := range us {
				if v.digest != u.digest {
					continue
				}
				for k, p := range v.paths {
					if _, err := os.Lstat(p); err == nil {
						rt.Fatalf("chunk %d of %s is still at %q after removal", k, v, p)
					}
					c.NT()
				}
				v.order = append(v.order, keys(v.chunks)...)
				v.chunks, v.paths, v.torn = map[int][]byte{}, map[int]string{}, map[int]bool{}
			}
		}
		check()
	}
	// complete everything; what was stored before must still be there
	for _, u := range us {
		for _, k := range u.order {
			store(u, k, false)
		}
		for _, k := range keys(u.chunks) {
			if u.torn[k] {
				store(u, k, false)
			}
		}
	}
	for _, u := range us {
		assemble(u, false)
		check()
	}
	if ents, err := os.ReadDir("."); err != nil || len(ents) > 2 {
		rt.Fatalf("more than the two upload directories: %v", ents)
	}
	c.LabelIf(len(us) > 1, "several uploads")
}

func keys(m map[int][]byte) []int {
	var ks []int
	for k := range m {
		i := len(ks)
		ks = append(ks, k)
		for ; i > 0 && ks[i-1] > k; i-- {
			ks[i] = ks[i-1]
		}
		ks[i] = k
	}
	return ks
}

func TestC27(t *testing.T) {
	vt.Check(t, "uploads", "names and digests made of parent, current, empty and ordinary components with slashes, doubled slashes, backslashes, control bytes and absolute forms, given to storing, assembling and removing among ordinary uploads, in a nest of directories with files at every level; everything outside the upload directories is compared after every call; non-trivial: a name or digest that leads outside or to a directory itself",
		2500, 120000, hostileUploads)
	vt.Check(t, "archives", "archives mixing ordinary entries with such names (files, directories, symbolic-link entries and entries behind them, siblings sharing the destination's name prefix), extracted to relative, absolute, current, missing and dotted destinations; non-trivial: an entry that leads outside",
		1500, 80000, hostileArchives)
	vt.Check(t, "malicious paths", "such paths joined to bases; non-trivial: absolute or escaping, or not flagged with at least two components",
		20000, 500000, malicious)
}

// component-wise hostile paths with at most ups parent steps
func hostile(rt *rapid.T, ups int, absolute string) string {
	var b strings.Builder
	n := rapid.IntRange(0, 5).Draw(rt, "components")
	switch vt.Weighted(rt, "start", 6, 2, 1) {
	case 1:
		b.WriteString("/")
	case 2:
		b.WriteString(absolute + "/")
	}
	for i := 0; i < n; i++ {
		x := vt.Pick(rt, "component", "..", "..", "..", ".", "", "a", "good", "victim", "victim_0", "breakpointDir", "fileDir", "w", "outx", "out", "...", "..a", "a..", ".. ", "é", "x\x00", "x\n", "c:", "..\\..", "\\", "0_0")
		ups -= strings.Count(x, "..")
		if ups < 0 {
			break
		}
		b.WriteString(x)
		if i < n-1 || rapid.IntRange(0, 4).Draw(rt, "trailing") == 0 {
			b.WriteString(vt.Pick(rt, "separator", "/", "/", "/", "//", "\\", "/./"))
		}
	}
	return b.String()
}

const nest = "1/2/3/4/5/6/7/8/9/w"

var (
	nestRoot string
	pristine map[string]string
)

// planted changes into the nest, which has something to destroy at every level. It is made once
// and used again as long as nothing in it has changed.
func planted() (root string, done func()) {
	if nestRoot != "" {
		for _, p := range []string{"breakpointDir", "fileDir", "out", "deep"} {
			os.RemoveAll(filepath.Join(nestRoot, nest, p))
		}
		if diff(snapshot(nestRoot, nil), pristine) != "" {
			os.RemoveAll(nestRoot)
			nestRoot = ""
		}
	}
	if nestRoot == "" {
		nestRoot = must(filepath.EvalSymlinks(must(os.MkdirTemp(os.Getenv("VT_SCRATCH"), "nest-"))))
		for p := nest; p != "."; p = filepath.Dir(p) {
			d := filepath.Join(nestRoot, p)
			for _, n := range []string{"victim", "victim_0", "a_0", "good_0", "0_0_0", "outx/a"} {
				ok(os.MkdirAll(filepath.Dir(filepath.Join(d, n)), 0o755))
				ok(os.WriteFile(filepath.Join(d, n), []byte("precious "+p), 0o644))
			}
		}
		pristine = snapshot(nestRoot, nil)
	}
	ok(os.Chdir(filepath.Join(nestRoot, nest)))
	return nestRoot, func() { ok(os.Chdir(home)) }
}

func inside(dir, p string) bool { // strictly below, lexically
	return strings.HasPrefix(filepath.Clean(p), filepath.Clean(dir)+"/")
}

func hostileUploads(rt *rapid.T, c *vt.C) {
	root, done := planted()
	defer done()
	cwd := filepath.Join(root, nest)
	base, finish := filepath.Join(cwd, "breakpointDir"), filepath.Join(cwd, "fileDir")
	skip := func(rel string) bool {
		return rel == filepath.Join(nest, "breakpointDir") || rel == filepath.Join(nest, "fileDir")
	}
	before := snapshot(root, skip)
	for _, d := range []string{"good", "a"} {
		for k := 0; k < 2; k++ {
			if _, err := utils.BreakPointContinue([]byte("chunk"), "good", k, 2, d); err != nil {
				rt.Fatalf("an ordinary chunk is refused: %v", err)
			}
		}
	}
	if _, err := utils.MakeFile("good", "good"); err != nil {
		rt.Fatalf("ordinary assembling is refused: %v", err)
	}
	absolute := filepath.Join(root, "1")
	steps := rapid.IntRange(1, 4).Draw(rt, "steps")
	for s := 0; s < steps; s++ {
		name, digest := "good", "good"
		which := rapid.IntRange(0, 2).Draw(rt, "which")
		if which != 0 {
			name = hostile(rt, 4, absolute)
		}
		if which != 1 {
			digest = hostile(rt, 4, absolute)
		}
		dir := base + "/" + digest
		var err error
		var must bool
		switch rapid.IntRange(0, 3).Draw(rt, "op") {
		case 0:
			k := rapid.IntRange(0, 2).Draw(rt, "k")
			must = !inside(base, dir+"/"+name+"_"+fmt.Sprint(k)) || !inside(base, dir) && filepath.Clean(dir) != base
			c.Logf("store name %q digest %q", name, digest)
			_, err = utils.BreakPointContinue([]byte("evil"), name, k, 2, digest)
		case 1:
			must = !inside(finish, finish+"/"+name) || !inside(base, dir) && filepath.Clean(dir) != base
			c.Logf("assemble name %q digest %q", name, digest)
			_, err = utils.MakeFile(name, digest)
		default:
			must = !inside(base, dir)
			c.Logf("remove digest %q", digest)
			err = utils.RemoveChunk(digest)
		}
		c.NTIf(must)
		if must && err == nil {
			rt.Fatalf("%s is not refused", c.Last())
		}
		if d := diff(snapshot(root, skip), before); d != "" {
			rt.Fatalf("%s reaches outside the upload directories: %s", c.Last(), d)
		}
		if st, e := os.Stat(base); e != nil || !st.IsDir() {
			rt.Fatalf("%s removes the uploads directory", c.Last())
		}
		if _, e := os.Stat(finish); e != nil {
			rt.Fatalf("%s removes the directory of finished files", c.Last())
		}
	}
}

func malicious(rt *rapid.T, c *vt.C) {
	p := hostile(rt, 6, "/etc")
	if rapid.IntRange(0, 3).Draw(rt, "text") == 0 {
		p = vt.Text(0, 8).Draw(rt, "text") + vt.Pick(rt, "sep", "/", "", "..", "/..") + vt.Text(0, 4).Draw(rt, "text")
	}
	c.Logf("%q", p)
	got := utils.IsMaliciousPath(p)
	rel := filepath.Clean("/base/"+p) + "/"
	escapes := !strings.HasPrefix(rel, "/base/") || strings.HasPrefix(p, "/")
	// parent steps out of the base even if the path comes back in ("../base/x" under another base)
	depth := 0
	for _, x := range strings.Split(p, "/") {
		switch x {
		case "", ".":
		case "..":
			depth--
		default:
			depth++
		}
		escapes = escapes || depth < 0
	}
	c.NTIf(escapes || !got && strings.Contains(p, "/"))
	c.LabelIf(got, "flagged")
	if escapes && !got {
		rt.Fatalf("%q is not flagged", p)
	}
	if got && !strings.HasPrefix(p, "/") && !strings.Contains(p, "..") {
		rt.Fatalf("%q is flagged", p)
	}
	if !got {
		for _, base := range []string{"/base", "base", "/", ".", "/a/b/", vt.Pick(rt, "base", "x/..", "a/../b", "/base/./c")} {
			j, b := filepath.Join(base, p), filepath.Clean(base)
			in := j == b || strings.HasPrefix(j, strings.TrimSuffix(b, "/")+"/") || b == "." && !strings.HasPrefix(j, "/") && j != ".." && !strings.HasPrefix(j, "../")
			if !in {
				rt.Fatalf("%q is not flagged, but %q joined with it is %q", p, base, j)
			}
		}
	}
}
