package deploy

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	archivewatcher "github.com/choria-io/go-choria/aagent/watchers/archivewatcher"
	"github.com/choria-io/go-choria/internal/verifkit"
)

func sum(b []byte) string {
	s := sha256.Sum256(b)
	return hex.EncodeToString(s[:])
}

func sums(t tree) string {
	var b strings.Builder
	for _, n := range t.names() {
		fmt.Fprintf(&b, "%s  %s\n", sum([]byte(t[n])), n)
	}
	return b.String()
}

// entry is something in an archive
type entry struct {
	name string
	kind byte
	body string
	link string
}

func pack(entries []entry) []byte {
	var buf bytes.Buffer
	gz := gzip.NewWriter(&buf)
	tw := tar.NewWriter(gz)
	for _, e := range entries {
		h := &tar.Header{Name: e.name, Typeflag: e.kind, Size: int64(len(e.body)), Mode: 0755, Linkname: e.link}
		if e.kind != tar.TypeReg {
			h.Size = 0
		}
		if err := tw.WriteHeader(h); err != nil {
			panic(err)
		}
		if e.kind == tar.TypeReg {
			tw.Write([]byte(e.body))
		}
	}
	tw.Close()
	gz.Close()
	return buf.Bytes()
}

// entries of a tree below a directory, directories first
func (t tree) entries(top string) []entry {
	dirs := map[string]bool{top + "/": true}
	for n := range t {
		for d := filepath.Dir(n); d != "."; d = filepath.Dir(d) {
			dirs[top+"/"+d+"/"] = true
		}
	}
	var res []entry
	for d := range dirs {
		res = append(res, entry{name: d, kind: tar.TypeDir})
	}
	sort.Slice(res, func(i, j int) bool { return res[i].name < res[j].name })
	for _, n := range t.names() {
		res = append(res, entry{name: top + "/" + n, kind: tar.TypeReg, body: t[n]})
	}
	return res
}

type server struct {
	mu    sync.Mutex
	body  []byte
	code  int
	short bool
	hits  int
	user  string
	pass  string
}

func (s *server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.hits++
	if u, p, _ := r.BasicAuth(); u != s.user || p != s.pass {
		w.WriteHeader(401)
		return
	}
	if s.short {
		w.Header().Set("Content-Length", fmt.Sprint(len(s.body)+10))
	}
	w.WriteHeader(s.code)
	w.Write(s.body)
}

// TestC17Archive offers good and bad archives
func TestC17Archive(t *testing.T) {
	rec := verifkit.New(t, "C17", "an archive is activated exactly when its checksum, that of its list of checksums and all those listed match, otherwise what was there before stays, nothing is written elsewhere and nothing is left behind")
	rec.Require("deployed", 40)
	rec.Require("refused", 60)
	rec.Require("already in place", 20)
	rec.Require("repaired", 5)
	rec.Require("repaired after it was deployed", 40)
	r := verifkit.Rand("c17-archive")
	base := t.TempDir()
	srv := &server{}
	hs := httptest.NewServer(srv)
	defer hs.Close()
	for i := 0; i < verifkit.N(1200, 12000); i++ {
		if !rec.Within(180*time.Second, "archive", func() { archive(rec, r, base, srv, hs.URL) }) {
			return
		}
	}
}

func archive(rec *verifkit.Rec, r *rand.Rand, base string, srv *server, url string) {
	root, err := os.MkdirTemp(base, "")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(root)
	// deep enough for what escapes to stay in here
	target := filepath.Join(root, "1", "2", "3", "4", "5", "6", "target")
	other := tree{"other/file": "other", "mine2/file": "x"}
	other.write(target)
	good := genTree(r)
	delete(good, "SHA256SUMS")
	sf := sums(good)
	verify := r.Intn(5) > 0
	served := tree{}
	for k, v := range good {
		served[k] = v
	}
	if verify {
		served["SHA256SUMS"] = sf
	}
	deployed := tree{} // what an accepted archive results in
	for k, v := range served {
		deployed[k] = v
	}
	top := "mine"
	vsum := sum([]byte(sf))

	// what goes wrong
	kind := verifkit.Pick(r, []string{"", "", "", "", "archive altered", "archive cut", "other archive", "file altered", "file missing", "file added", "sums altered", "sums missing", "sums malformed", "sums empty", "symlink", "hardlink", "device", "fifo", "escape", "escape deep", "absolute", "other directory", "not an archive", "status", "short", "password", "template", "empty checksum"})
	var extra []entry
	ok := kind == "" || kind == "status" // content is what counts
	victim := verifkit.Pick(r, good.names())
	if strings.HasPrefix(kind, "sums") && !verify {
		return
	}
	switch kind {
	case "file altered":
		served[victim] += "altered"
		ok = !verify
		deployed[victim] = served[victim]
	case "file missing":
		delete(served, victim)
		ok = !verify && len(served) > 0
		delete(deployed, victim)
		if len(served) == 0 {
			return
		}
	case "file added":
		served["added.file"] = "is not listed"
		deployed["added.file"] = "is not listed"
		ok = true // the checksum of the archive speaks for those
	case "sums altered":
		n := "zz" + victim
		served["SHA256SUMS"] += sum([]byte("x")) + "  " + n + "\n"
		served[n] = "x"
	case "sums missing":
		delete(served, "SHA256SUMS")
	case "sums malformed":
		served["SHA256SUMS"] = "# nothing\n"
		vsum = sum([]byte(served["SHA256SUMS"]))
	case "sums empty":
		served["SHA256SUMS"] = ""
		ok = false
	case "symlink":
		extra = []entry{{name: "mine/link", kind: tar.TypeSymlink, link: verifkit.Pick(r, []string{root, "..", "/nonexisting"})}}
	case "hardlink":
		extra = []entry{{name: "mine/link", kind: tar.TypeLink, link: "mine/" + victim}}
	case "device":
		extra = []entry{{name: "mine/null", kind: tar.TypeChar}}
	case "fifo":
		extra = []entry{{name: "mine/fifo", kind: tar.TypeFifo}}
	case "escape":
		extra = []entry{{name: verifkit.Pick(r, []string{"../escape", "mine/../../escape", "../../../other/escape", "mine/x/../../../../other/file"}), kind: tar.TypeReg, body: "escaped"}}
	case "escape deep":
		extra = []entry{{name: "../../../../", kind: tar.TypeDir}, {name: "../../../../escape", kind: tar.TypeReg, body: "escaped"}}
	case "absolute":
		// ends up below the directory
		extra = []entry{{name: filepath.Join(root, "escape"), kind: tar.TypeReg, body: "escaped"}}
	case "other directory":
		top = "mine2"
	}
	if kind == "sums malformed" {
		ok = false
	}
	es := append(served.entries(top), extra...)
	if r.Intn(2) == 0 && len(extra) > 0 { // also as the first entries
		es = append(append([]entry{}, extra...), served.entries(top)...)
	}
	arc := pack(es)
	asum := sum(arc)
	if kind == "not an archive" {
		arc = []byte("<html>not found</html>")
		asum = sum(arc)
	}
	srv.mu.Lock()
	srv.code, srv.short, srv.user, srv.pass, srv.hits = 200, false, "", "", 0
	srv.body = arc
	props := map[string]any{"source": url + "/a.tgz", "checksum": asum, "creates": "mine", "target": target}
	switch kind {
	case "archive altered":
		b := append([]byte{}, arc...)
		b[r.Intn(len(b))] ^= 1 << r.Intn(8)
		srv.body = b
	case "archive cut":
		srv.body = arc[:r.Intn(len(arc))]
	case "other archive":
		srv.body = pack((tree{"evil": "evil", "SHA256SUMS": sums(tree{"evil": "evil"})}).entries("mine"))
	case "status":
		srv.code = 500
	case "short":
		srv.short = true
	case "password":
		srv.user, srv.pass = "u", "right"
		props["username"], props["password"] = "u", "wrong"
	case "template":
		props["checksum"] = "{{ broken"
	case "empty checksum":
		props["checksum"] = `{{ lookup "data.none" "" }}`
	default:
		if r.Intn(4) == 0 {
			srv.user, srv.pass = "u", `p"x`
			props["username"], props["password"] = "{{ lookup \"data.user\" \"none\" }}", srv.pass
		}
		if r.Intn(4) == 0 {
			props["checksum"] = `{{ lookup "data.checksum" "none" }}`
		}
	}
	srv.mu.Unlock()
	if verify {
		props["verify"] = "SHA256SUMS"
		props["verify_checksum"] = vsum
		if r.Intn(4) == 0 {
			props["verify_checksum"] = `{{ lookup "data.verify" "none" }}`
		}
	}

	// what is there
	before := verifkit.Pick(r, []string{"nothing", "nothing", "old", "altered", "right", "no sums", "file"})
	mine := filepath.Join(target, "mine")
	old := tree{}
	inPlace := false
	switch before {
	case "old":
		old = tree{"old": "content", "SHA256SUMS": sums(tree{"old": "content"})}
		inPlace = !verify
	case "altered":
		for k, v := range good {
			old[k] = v
		}
		old["SHA256SUMS"] = sf
		old[victim] += "tampered"
		inPlace = !verify
	case "right":
		for k, v := range good {
			old[k] = v
		}
		old["SHA256SUMS"] = sf
		inPlace = true
		if kind == "sums malformed" {
			return
		}
	case "no sums":
		for k, v := range good {
			old[k] = v
		}
		inPlace = !verify
	}
	if len(old) > 0 {
		old.write(mine)
	} else if before == "file" {
		// removed only for something that verified
		if kind == "other directory" {
			return
		}
		os.WriteFile(mine, []byte("a file"), 0644)
	}
	snap := load(root)
	if before == "file" {
		old = nil
	}

	m := newFM(filepath.Join(root, "machine"))
	m.data["user"] = "u"
	m.data["checksum"] = asum
	m.data["verify"] = vsum
	fired := make(chan string, 100)
	m.onFire = func(s string) { fired <- s }
	desc := fmt.Sprintf("archive with %q over %q verify %v of %s", kind, before, verify, good)
	rec.Case(kind != "" || before != "nothing", desc)
	wi, err := archivewatcher.New(m, "archive", []string{"a"}, nil, "bad", "good", "", 0, props)
	if err != nil {
		rec.Violation("archive-refused", "%v: %s", err, desc)
		return
	}
	s := start(wi) // checks at once
	defer func() { s.cancel(); s.wg.Wait() }()
	altered := false
	for round := 0; round < 6; round++ {
		if round > 0 {
			s.w.NotifyStateChance()
		}
		var got string
		select {
		case got = <-fired:
		case <-time.After(60 * time.Second):
			rec.Violation("archive-silent", "no outcome within a minute: %s", desc)
			return
		}
		want := "bad"
		now := load(root)
		expect := tree{}
		for k, v := range snap {
			expect[k] = v
		}
		switch {
		case inPlace:
			want = "good"
			if srv.hits > 0 {
				rec.Violation("archive-needless", "downloaded although all was in place: %s", desc)
			}
			rec.Count("already in place", 1)
		case ok:
			want = "good"
			for k := range expect {
				if strings.HasPrefix(k, "1/2/3/4/5/6/target/mine/") || k == "1/2/3/4/5/6/target/mine" {
					delete(expect, k)
				}
			}
			for k, v := range deployed {
				expect["1/2/3/4/5/6/target/mine/"+k] = v
			}
			rec.Count("deployed", 1)
			if before == "altered" {
				rec.Count("repaired", 1)
			}
			if altered {
				rec.Count("repaired after it was deployed", 1)
				altered = false
			}
		case kind == "absolute":
			// is harmless as it does not leave the archive, both are fine
			want = got
			if got == "good" {
				return
			}
		default:
			rec.Count("refused", 1)
		}
		if got != want {
			rec.Violation("archive-outcome", "asked for %s instead of %s: %s", got, want, desc)
			return
		}
		if !now.equal(expect) {
			rec.Violation("archive-content", "left %v instead of %v: %s", now, expect, desc)
			return
		}
		// nothing but an empty directory for temporary files is left
		l, _ := os.ReadDir(filepath.Join(target, "tmp"))
		if len(l) > 0 {
			rec.Violation("archive-temporary", "left %v behind: %s", l, desc)
		}
		ds, _ := os.ReadDir(target)
		for _, d := range ds {
			if n := d.Name(); n != "tmp" && n != "mine" && n != "mine2" && n != "other" {
				rec.Violation("archive-temporary", "left %s behind: %s", n, desc)
			}
		}
		if !ok && !inPlace && !altered || r.Intn(3) == 0 {
			return
		}
		srv.mu.Lock()
		srv.hits = 0
		srv.mu.Unlock()
		if verify && kind == "" && !altered && r.Intn(3) > 0 {
			// someone changes what is deployed
			inPlace, altered = false, true
			full := filepath.Join(mine, victim)
			b, err := os.ReadFile(full)
			how := r.Intn(4)
			if len(b) == 0 && how < 2 || err != nil {
				how = 2
			}
			switch how {
			case 0: // looking the same from the outside
				st, _ := os.Stat(full)
				b[r.Intn(len(b))] ^= 1
				os.WriteFile(full, b, st.Mode())
				os.Chtimes(full, st.ModTime(), st.ModTime())
			case 1:
				os.WriteFile(full, b[:len(b)-1], 0644)
			case 2:
				os.Remove(full)
			case 3:
				os.WriteFile(filepath.Join(mine, "SHA256SUMS"), []byte(strings.Replace(sf, sf[:1], "x", 1)), 0644)
			}
			ok = r.Intn(4) > 0
			srv.mu.Lock()
			srv.body = arc
			if !ok {
				srv.body = pack((tree{"evil": "evil", "SHA256SUMS": sums(tree{"evil": "evil"})}).entries("mine"))
			}
			srv.mu.Unlock()
			desc += fmt.Sprintf(", then changed in way %d and served %v", how, ok)
			snap = load(root)
			continue
		}
		if altered {
			// it was not there to be repaired with but now is
			ok = true
			srv.mu.Lock()
			srv.body = arc
			srv.mu.Unlock()
			desc += ", then served"
			continue
		}
		// the second time all is there
		if !inPlace && verify && kind == "" || inPlace {
			inPlace = true
			srv.mu.Lock()
			srv.hits = 0
			srv.mu.Unlock()
			snap = load(root)
			continue
		}
		return
	}
}
