package deploy

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/choria-io/go-choria/internal/util"
	"github.com/choria-io/go-choria/internal/verifkit"
)

// tree is a set of files and what they hold
type tree map[string]string

func (t tree) names() []string {
	var res []string
	for n := range t {
		res = append(res, n)
	}
	sort.Strings(res)
	return res
}

func (t tree) String() string { return fmt.Sprintf("%q", map[string]string(t)) }

func genTree(r *rand.Rand) tree {
	t := tree{}
	dirs := []string{"", "bin/", "d/", "d/e/", "x/", "-dash/", "with space/", "ünï/"}
	for i := 0; i < 1+r.Intn(8); i++ {
		n := verifkit.Pick(r, dirs) + verifkit.Pick(r, []string{"a", "b", "machine.yaml", "run.sh", ".hidden", "name with space", "tail ", "é", "*star", "sha256", "0", "d34db33f  file", "very-long-" + strings.Repeat("n", r.Intn(150))})
		clash := false
		for o := range t {
			if strings.HasPrefix(o, n+"/") || strings.HasPrefix(n, o+"/") {
				clash = true
			}
		}
		if !clash {
			t[n] = strings.Repeat(fmt.Sprint(r.Int63()), r.Intn(40))
		}
	}
	return t
}

func (t tree) write(dir string) {
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(err)
	}
	for n, c := range t {
		p := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte(c), 0644); err != nil {
			panic(err)
		}
	}
}

// load is what a directory holds, everything but files is noted by its kind
func load(dir string) tree {
	t := tree{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case i.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			t[rel] = string(b)
		case i.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			t[rel] = "symlink " + l
		case !i.IsDir():
			t[rel] = i.Mode().String()
		}
		return nil
	})
	return t
}

func (t tree) equal(o tree) bool {
	if len(t) != len(o) {
		return false
	}
	for k, v := range t {
		if w, ok := o[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// TestC17Directory alters directories in every way after they were checksummed
func TestC17Directory(t *testing.T) {
	rec := verifkit.New(t, "C17", "directories verify exactly when all files listed in their checksums are there unaltered, and the altered ones are those reported")
	rec.Require("verified", 200)
	rec.Require("alterations", 200)
	r := verifkit.Rand("c17-directory")
	base := t.TempDir()
	for i := 0; i < verifkit.N(600, 10000); i++ {
		if !rec.Within(120*time.Second, "directory", func() { directory(t, rec, r, base) }) {
			return
		}
	}
}

func directory(t *testing.T, rec *verifkit.Rec, r *rand.Rand, base string) {
	scratch, err := os.MkdirTemp(base, "")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(scratch)
	files := genTree(r)
	dir := filepath.Join(scratch, "dir")
	files.write(dir)
	if r.Intn(4) == 0 {
		os.Symlink("/nonexisting", filepath.Join(dir, "link"))
	}
	// the ways one can name a directory
	form := verifkit.Pick(r, []string{"abs", "abs/", "rel", "./rel", "rel/", ".", "./rel/../rel"})
	name := dir
	wd, _ := os.Getwd()
	defer os.Chdir(wd)
	switch form {
	case "abs/":
		name = dir + "/"
	case ".":
		os.Chdir(dir)
		name = "."
	case "rel", "./rel", "rel/", "./rel/../rel":
		os.Chdir(scratch)
		name = strings.ReplaceAll(form, "rel", "dir")
	}
	desc := fmt.Sprintf("%s as %s", files, form)
	exclude, excluded := "", ""
	if r.Intn(3) == 0 {
		excluded = verifkit.Pick(r, []string{"run.sh", "machine.yaml", ".hidden"})
		exclude = "/?" + strings.ReplaceAll(excluded, ".", "\\.") + "$,^/nothing$"
	}
	var sums []byte
	var skipped []string
	if exclude == "" {
		sums, err = util.Sha256ChecksumDir(name)
	} else {
		sums, skipped, err = util.Sha256ChecksumDirWithExclude(name, exclude)
	}
	if err != nil {
		rec.Violation("dir-checksum", "%v: %s", err, desc)
		return
	}
	listed := map[string]bool{}
	nskip := 0
	for n := range files {
		if exclude != "" && strings.HasSuffix(n, excluded) {
			nskip++
			continue
		}
		listed[n] = true
	}
	if nskip != len(skipped) {
		rec.Violation("dir-skipped", "reports skipping %q instead of %d files: %s", skipped, nskip, desc)
	}
	if n := bytes.Count(sums, []byte("\n")); n != len(listed) {
		rec.Violation("dir-listed", "lists %d of %d files: %q %s", n, len(listed), sums, desc)
		return
	}
	os.Chdir(wd)
	sf := filepath.Join(scratch, "SUMS")
	vdir := dir
	if r.Intn(2) == 0 {
		sf = filepath.Join(dir, "SHA256SUMS")
		if r.Intn(2) == 0 {
			vdir = "" // the directory of the sums
		}
	}
	os.WriteFile(sf, sums, 0644)
	verify := func() (ok bool, err error, good, bad []string) {
		rec.NoPanic("verify", desc, func() {
			ok, err = util.Sha256VerifyDir(sf, vdir, nil, func(f string, o bool) {
				if o {
					good = append(good, f)
				} else {
					bad = append(bad, f)
				}
			})
		})
		return ok, err, good, bad
	}
	ok, err, good, bad := verify()
	rec.Case(len(files) > 1, desc)
	if !ok || err != nil || len(good) != len(listed) || len(bad) != 0 {
		rec.Violation("dir-unaltered", "an unaltered directory did not verify: %v, %v, %q failed: %s", ok, err, bad, desc)
		return
	}
	rec.Count("verified", 1)
	if len(listed) == 0 {
		return
	}
	// one alteration
	var ln []string
	for n := range listed {
		ln = append(ln, n)
	}
	sort.Strings(ln)
	victim := verifkit.Pick(r, ln)
	p := filepath.Join(dir, victim)
	kind := verifkit.Pick(r, []string{"flip", "truncate", "append", "remove", "rename", "replace by directory", "swap", "sum", "name", "malformed", "unlisted", "drop"})
	alter := fmt.Sprintf("%s of %q", kind, victim)
	expectBad := map[string]bool{victim: true}
	mayErr, mustFail := false, true
	content := []byte(files[victim])
	switch kind {
	case "flip":
		if len(content) == 0 {
			return
		}
		content[r.Intn(len(content))] ^= 1 << r.Intn(8)
		os.WriteFile(p, content, 0644)
	case "truncate":
		if len(content) == 0 {
			return
		}
		os.WriteFile(p, content[:r.Intn(len(content))], 0644)
	case "append":
		os.WriteFile(p, append(content, byte(r.Intn(256))), 0644)
	case "remove":
		os.Remove(p)
	case "rename":
		os.Rename(p, p+"x")
	case "replace by directory":
		os.Remove(p)
		os.Mkdir(p, 0755)
		mayErr = true
		expectBad = nil
	case "swap":
		o := verifkit.Pick(r, ln)
		if files[o] == files[victim] {
			return
		}
		q := filepath.Join(dir, o)
		a, _ := os.ReadFile(p)
		b, _ := os.ReadFile(q)
		os.WriteFile(p, b, 0644)
		os.WriteFile(q, a, 0644)
		expectBad[o] = true
	case "sum", "name", "malformed", "drop":
		lines := strings.Split(strings.TrimSuffix(string(sums), "\n"), "\n")
		i := r.Intn(len(lines))
		switch kind {
		case "sum":
			h := []byte(lines[i])
			j := r.Intn(64)
			if h[j] == '0' {
				h[j] = '1'
			} else {
				h[j] = '0'
			}
			lines[i] = string(h)
			expectBad = map[string]bool{string(h[66:]): true}
		case "name":
			expectBad = map[string]bool{lines[i][66:] + "x": true}
			if listed[lines[i][66:]+"x"] {
				return
			}
			lines[i] += "x"
		case "malformed":
			lines[i] = verifkit.Pick(r, []string{lines[i][:64], "  " + lines[i][66:], "# comment", lines[i][66:], "ZZ" + lines[i], strings.Repeat("ab", 40000) + "  a"})
			mayErr = true
			expectBad = nil
		case "drop":
			lines = append(lines[:i], lines[i+1:]...)
			mustFail = false
		}
		os.WriteFile(sf, []byte(strings.Join(lines, "\n")+"\n"), 0644)
	case "unlisted":
		os.WriteFile(filepath.Join(dir, "unlisted-file"), nil, 0644)
		mustFail = false
	}
	ok, err, _, bad = verify()
	rec.Count("alterations", 1)
	rec.Case(true, desc+alter)
	if !mustFail {
		if !ok || err != nil {
			rec.Violation("dir-"+kind, "%s made verification of the listed files fail: %v %v %s", alter, ok, err, desc)
		}
		return
	}
	if ok && err == nil {
		rec.Violation("dir-altered:"+strings.ReplaceAll(kind, " ", "-"), "verified in spite of %s: %s", alter, desc)
		return
	}
	if err != nil && !mayErr {
		rec.Violation("dir-error", "%s: %v: %s", alter, err, desc)
	}
	if expectBad != nil {
		same := len(bad) == len(expectBad)
		for _, b := range bad {
			same = same && expectBad[b]
		}
		if !same {
			rec.Violation("dir-report", "reports %q after %s: %s", bad, alter, desc)
		}
	}
}
