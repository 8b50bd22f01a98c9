// Running the command-line tools, in scratch directories and as an
// unprivileged user.
package PKG

import (
	"bytes"
	"context"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

const tUser = 65534

// tScratch is a directory of this shard that the unprivileged user owns.
func tScratch() string {
	d := filepath.Join(os.Getenv("VF_SCRATCH"), "t")
	if _, err := os.Stat(d); err != nil {
		if err := os.MkdirAll(d, 0o755); err != nil {
			panic(err)
		}
		if os.Getuid() == 0 {
			if err := os.Chown(d, tUser, tUser); err != nil {
				panic(err)
			}
		}
	}
	return d
}

type tResult struct {
	out, err string
	code     int
}

// tRun runs a tool with dir as its home and working directory.
func tRun(tool, dir string, args ...string) tResult {
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv("VF_WORK"), tool), args...)
	cmd.Dir = filepath.Join(dir, "work")
	cmd.Env = []string{"HOME=" + filepath.Join(dir, "home"), "XDG_CACHE_HOME=" + filepath.Join(dir, "cache"), "PATH=/usr/bin:/bin", "GOMAXPROCS=1", "GOTRACEBACK=single", "NO_COLOR=1"}
	if os.Getuid() == 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: tUser, Gid: tUser, NoSetGroups: true}}
	}
	var out, err bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &err
	e := cmd.Run()
	code := 0
	if x, ok := e.(*exec.ExitError); ok {
		code = x.ExitCode()
	} else if e != nil {
		panic(e)
	}
	return tResult{out.String(), err.String(), code}
}

// tWrite writes files, given by paths below dir, as the unprivileged user's.
func tWrite(dir string, files map[string]string) {
	made := map[string]bool{}
	var mk func(d string)
	mk = func(d string) {
		if made[d] {
			return
		}
		made[d] = true
		if d != dir {
			mk(filepath.Dir(d))
		}
		if err := os.Mkdir(d, 0o755); err != nil && !os.IsExist(err) {
			panic(err)
		}
		tOwn(d)
	}
	for _, d := range []string{"work", "home", "cache"} {
		mk(filepath.Join(dir, d))
	}
	for p, text := range files {
		p = filepath.Join(dir, p)
		if strings.HasSuffix(text, "\x00dir") {
			mk(p)
			continue
		}
		mk(filepath.Dir(p))
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			panic(err)
		}
		tOwn(p)
	}
}

func tOwn(p string) {
	if os.Getuid() == 0 {
		if err := os.Lchown(p, tUser, tUser); err != nil {
			panic(err)
		}
	}
}

// tRead reads every file below dir.
func tRead(dir string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			panic(err)
		}
		if d.Type().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				panic(err)
			}
			rel, _ := filepath.Rel(dir, p)
			m[rel] = string(b)
		}
		return nil
	})
	return m
}

// tClear empties a scratch directory.
func tClear(dir string) {
	ents, err := os.ReadDir(dir)
	if err != nil {
		panic(err)
	}
	for _, e := range ents {
		if err := os.RemoveAll(filepath.Join(dir, e.Name())); err != nil {
			panic(err)
		}
	}
}

func tKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// tLinks makes the links ("target\x00link") of a set of files.
func tLinks(dir string, files map[string]string) {
	for p, t := range files {
		if t, ok := strings.CutSuffix(t, "\x00link"); ok {
			p = filepath.Join(dir, p)
			os.Remove(p)
			if err := os.Symlink(filepath.Join(dir, t), p); err != nil {
				panic(err)
			}
			tOwn(p)
		}
	}
}

// tPlain removes terminal colours.
func tPlain(s string) string {
	for {
		i := strings.Index(s, "\x1b[")
		if i < 0 {
			return s
		}
		j := strings.IndexByte(s[i:], 'm')
		if j < 0 {
			return s[:i]
		}
		s = s[:i] + s[i+j+1:]
	}
}
