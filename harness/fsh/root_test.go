package fsh

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"pgregory.net/rapid"
	"vharness/vt"
)

const rootEnv = "VT_SCAN_ROOT"

type scanned struct {
	Files []string
	Err   string
}

// TestScanRoot is the process that scans its own root directory; it runs in a user namespace of its own.
func TestScanRoot(t *testing.T) {
	dir := os.Getenv(rootEnv)
	if dir == "" {
		t.Skip("only as a child")
	}
	if err := syscall.Chroot(dir); err != nil {
		fmt.Printf("CHROOT %v\n", err)
		return
	}
	ok(os.Chdir("/"))
	var s scanned
	var err error
	if s.Files, err = utils.ScanDir("/"); err != nil {
		s.Err = err.Error()
	}
	fmt.Printf("SCANNED %s\n", must(json.Marshal(s)))
}

func scansRoot(rt *rapid.T, c *vt.C) {
	root, done := scratch("w")
	defer done()
	var want []string
	for n := rapid.IntRange(0, 12).Draw(rt, "entries"); n > 0; n-- {
		d := vt.Pick(rt, "dir", "", "", "/d", "/d/e", "/.h")
		ok(os.MkdirAll("."+d, 0o755))
		p := fmt.Sprintf("%s/%s%d", d, vt.Pick(rt, "name", "f", "-", ".x", "名 "), n)
		ok(os.WriteFile("."+p, nil, 0o644))
		want = append(want, p)
	}
	c.Logf("%d files below the root", len(want))
	cmd := exec.Command(must(os.Executable()), "-test.run=^TestScanRoot$", "-test.v")
	cmd.Env = append(os.Environ(), rootEnv+"="+root+"/w", "VT_OUT=")
	cmd.SysProcAttr = &syscall.SysProcAttr{Cloneflags: syscall.CLONE_NEWUSER,
		UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}},
		GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}}}
	out, err := cmd.CombinedOutput()
	_, line, found := strings.Cut(string(out), "SCANNED ")
	if !found && !strings.Contains(string(out), "panic:") {
		c.Label("no user namespace to do it in")
		c.Logf("%v: %.300q", err, out)
		return
	}
	var s scanned
	if json.Unmarshal([]byte(strings.SplitN(line, "\n", 2)[0]), &s) != nil {
		rt.Fatalf("scanning the root directory: %v: %s", err, out)
	}
	if s.Err != "" {
		rt.Fatalf("scanning the root directory fails: %s", s.Err)
	}
	c.NTIf(len(want) > 1)
	compareLists(rt, "/", s.Files, want)
}
