package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// The system calls through which an operation can change the file system or
// move data.
const fsCalls = "open,openat,openat2,creat,write,pwrite64,writev,pwritev,pwritev2,read,pread64,readv,preadv,close,rename,renameat,renameat2,link,linkat,symlink,symlinkat,unlink,unlinkat,mkdir,mkdirat,mknod,mknodat,truncate,ftruncate,fallocate,chmod,fchmod,fchmodat,fchmodat2,chown,fchown,lchown,fchownat,fsync,fdatasync,sync_file_range,copy_file_range,sendfile,splice,umask,stat,newfstatat,fstat,lstat,statx"

// tracer builds a strace command line.
func tracer(log, calls, inject string) []string {
	w := []string{"strace", "-f", "-qq", "-y", "-s", "0", "-o", log, "-e", "trace=" + calls}
	if inject != "" {
		w = append(w, "-e", "inject="+inject)
	}
	return w
}

type fsEvent struct {
	Call, Path, Flags string
	Mode              uint32 // as requested, umask applied
	HasMode           bool
	Line              string
}

var (
	reOpen  = regexp.MustCompile(`^(?:\d+ +)?(open|openat|creat|openat2)\((?:[^"]*?, )?"([^"]*)"(?:, ([A-Z_|x0-9a-f]+))?(?:, (0[0-7]*))?`)
	reChmod = regexp.MustCompile(`^(?:\d+ +)?(chmod|fchmod|fchmodat|fchmodat2)\((?:AT_FDCWD[^,]*, )?(?:"([^"]*)"|\d+<([^>]*)>)(?:, "([^"]*)")?, (0[0-7]*)`)
	reUmask = regexp.MustCompile(`^(?:\d+ +)?umask\((0[0-7]*)`)
)

// parseModes extracts every creation and mode change from a trace.
func parseModes(log string, dir string, umask uint32) (evs []fsEvent, lines int) {
	b, _ := os.ReadFile(log)
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" {
			continue
		}
		lines++
		if m := reUmask.FindStringSubmatch(l); m != nil {
			n, _ := strconv.ParseUint(m[1], 8, 32)
			umask = uint32(n)
			continue
		}
		if m := reOpen.FindStringSubmatch(l); m != nil {
			if m[1] == "creat" || strings.Contains(m[3], "O_CREAT") || strings.Contains(m[3], "O_TMPFILE") {
				n, _ := strconv.ParseUint(m[4], 8, 32)
				p := m[2]
				if !filepath.IsAbs(p) {
					p = filepath.Join(dir, p)
				}
				evs = append(evs, fsEvent{m[1], p, m[3], uint32(n) &^ umask, true, l})
			}
			continue
		}
		if m := reChmod.FindStringSubmatch(l); m != nil {
			p := m[2] + m[3]
			if m[4] != "" {
				p = filepath.Join(p, m[4])
			}
			n, _ := strconv.ParseUint(m[5], 8, 32)
			if !filepath.IsAbs(p) {
				p = filepath.Join(dir, p)
			}
			evs = append(evs, fsEvent{m[1], p, "", uint32(n), true, l})
		}
	}
	return
}

var reCallName = regexp.MustCompile(`(?m)^(?:\d+ +)?([a-z_0-9]+)\(`)

// noFault makes a trace in which nothing happens.
const noFault = "umask:delay_enter=1:when=65000"

// killPlan lists the places at which a process may be killed that has left
// the trace behind when nothing disturbed it: strace counts the calls of each
// name apart. If there are more than limit of a name, some are left out.
func (t *T) killPlan(log string, limit int) []string {
	b, _ := os.ReadFile(log)
	count := map[string]int{}
	var names []string
	for _, m := range reCallName.FindAllSubmatch(b, -1) {
		c := string(m[1])
		if count[c] == 0 && strings.Contains(","+fsCalls+",", ","+c+",") {
			names = append(names, c)
		}
		count[c]++
	}
	sort.Strings(names)
	var plan []string
	for _, c := range names {
		// the last ones are those of the operation, after the start of the process
		for n := count[c]; n > 0; n-- {
			if count[c]-n >= limit/2 {
				n -= t.Rng.Intn(1 + 2*n/limit)
			}
			if n > 0 {
				plan = append(plan, fmt.Sprintf("%s:signal=SIGKILL:when=%d", c, n))
			}
		}
	}
	return plan
}

// killPoints runs run(inject) with the process killed at each of its file
// system calls in turn, judging each time.
func (t *T) killPoints(limit int, run func(log, inject string) cliResult, judge func(where string, r cliResult)) int {
	killed := 0
	log := filepath.Join(t.Dir(), "trace")
	r := run(log, noFault)
	plan := t.killPlan(log, limit)
	judge("nowhere", r)
	for _, inject := range plan {
		r := run(filepath.Join(t.Dir(), "trace"), inject)
		if r.Signal == "killed" || r.Exit == 137 {
			killed++
		}
		judge(inject, r)
	}
	return killed
}
