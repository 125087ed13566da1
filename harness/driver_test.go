// Conformance driver: executes abstract-scenario cases (rendered to concrete
// files, command lines and a scripted HTTP world by /verif/lib) against the real
// code and records what was observable.  It is compiled into package main with
// `go test -c -overlay`, in place of the repository's own main_*test.go files.
package main

import (
	"archive/zip"
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/pkg/database"
	"github.com/g-rath/osv-detector/pkg/lockfile"
	"gopkg.in/yaml.v3"
)

type vContent struct {
	P    string     `json:"p"`
	C    string     `json:"c"`
	B64  string     `json:"b64"`
	Dir  bool       `json:"dir"`
	Zip  []vContent `json:"zip"`
	IsZ  bool       `json:"isz"`
	Link string     `json:"link"`
	Mode uint32     `json:"mode"`
	Rep  int        `json:"rep"`
	Cut  int        `json:"cut"`
	Bad  string     `json:"bad"`
	Pad  int        `json:"pad"`  // blanks in front of the content
	Rand int        `json:"rand"` // bytes that cannot be compressed
}

func (c vContent) bytes(root string) []byte {
	if c.IsZ {
		buf := new(bytes.Buffer)
		w := zip.NewWriter(buf)
		for _, e := range c.Zip {
			if e.Dir {
				_, _ = w.Create(strings.TrimSuffix(e.P, "/") + "/")

				continue
			}
			if e.Bad != "" {
				addBadEntry(w, e.P, e.bytes(root), e.Bad)

				continue
			}
			f, err := w.Create(e.P)
			if err != nil {
				panic("harness: zip: " + err.Error())
			}
			_, _ = f.Write(e.bytes(root))
		}
		_ = w.Close()
		if c.Cut > 0 {
			return buf.Bytes()[:max(0, buf.Len()-c.Cut)]
		}

		return buf.Bytes()
	}
	if c.Rand > 0 {
		b := make([]byte, c.Rand)
		x := uint64(88172645463325252)
		for i := range b {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			b[i] = byte(x)
		}

		return b
	}
	if c.B64 != "" {
		b, err := base64.StdEncoding.DecodeString(c.B64)
		if err != nil {
			panic("harness: b64: " + err.Error())
		}

		return b
	}
	s := strings.ReplaceAll(c.C, "${ROOT}", root)
	if c.Rep > 1 {
		s = strings.Repeat(s, c.Rep)
	}
	if c.Pad > 0 {
		s = strings.Repeat(" ", c.Pad) + s
	}

	return []byte(s)
}

// addBadEntry adds an entry whose content cannot be extracted
func addBadEntry(w *zip.Writer, name string, content []byte, how string) {
	h := &zip.FileHeader{Name: name, Method: zip.Store, CRC32: 1,
		CompressedSize64: uint64(len(content)), UncompressedSize64: uint64(len(content))}
	switch how {
	case "method":
		h.Method = 99
	case "deflate":
		h.Method = zip.Deflate
	}
	f, err := w.CreateRaw(h)
	if err != nil {
		panic("harness: zip: " + err.Error())
	}
	_, _ = f.Write(content)
}

type vRule struct {
	M        string                     `json:"m"`
	U        string                     `json:"u"`
	Kind     string                     `json:"kind"`
	Status   int                        `json:"status"`
	Headers  map[string]string          `json:"headers"`
	Body     vContent                   `json:"body"`
	ETag     string                     `json:"etag"`
	Date     string                     `json:"date"`
	Modified string                     `json:"modified"`
	Always   bool                       `json:"always"` // never says that it is unchanged
	Fault    string                     `json:"fault"`
	Answers  map[string][]string        `json:"answers"`
	Details  map[string]json.RawMessage `json:"details"`
	BFaults  map[string]string          `json:"bfaults"`
	DFaults  map[string]string          `json:"dfaults"`
	Order    []string                   `json:"order"`
	DOrder   []string                   `json:"dorder"`
	Expect   int                        `json:"expect"`
	DExpect  int                        `json:"dexpect"`
	Pad      int                        `json:"pad"` // blanks in front of the answers of an API
}

type vHTTP struct {
	Rules []vRule `json:"rules"`
}

type vStep struct {
	Op      string                    `json:"op"`
	Args    []string                  `json:"args"`
	HTTP    *vHTTP                    `json:"http"`
	Path    string                    `json:"path"`
	As      string                    `json:"as"`
	Rows    []string                  `json:"rows"`
	Config  database.Config           `json:"config"`
	Offline bool                      `json:"offline"`
	Batch   int                       `json:"batch"`
	Names   []string                  `json:"names"`
	Pkgs    []internal.PackageDetails `json:"pkgs"`
	Content vContent                  `json:"content"`
	N       int                       `json:"n"`
	Osv     json.RawMessage           `json:"osv"`
	Full    bool                      `json:"full"`
	Exec    bool                      `json:"exec"` // as a process of its own
}

type vCase struct {
	ID    int        `json:"id"`
	Tree  []vContent `json:"tree"`
	Cwd   string     `json:"cwd"`
	Steps []vStep    `json:"steps"`
}

type vReq struct {
	M    string `json:"m"`
	U    string `json:"u"`
	INM  string `json:"inm"`
	IMS  string `json:"ims"`
	Has  bool   `json:"cond"`
	Body string `json:"body"`
	R    string `json:"r"`
}

type gate struct {
	mu      sync.Mutex
	order   []string
	expect  int
	arrived []*gwait
	last    time.Time
	running bool
}

type gwait struct {
	key  string
	ch   chan struct{}
	done chan struct{}
}

// wait blocks the caller until the gate decides, in the scripted order, that its
// response may be delivered; the returned func marks the response as consumed.
func (g *gate) wait(key string) func() {
	w := &gwait{key: key, ch: make(chan struct{}), done: make(chan struct{})}
	g.mu.Lock()
	g.arrived = append(g.arrived, w)
	g.last = time.Now()
	if !g.running {
		g.running = true
		go g.loop()
	}
	g.mu.Unlock()
	<-w.ch
	var once sync.Once

	return func() { once.Do(func() { close(w.done) }) }
}

func (g *gate) loop() {
	released := 0
	for {
		time.Sleep(time.Millisecond)
		g.mu.Lock()
		if len(g.arrived) == 0 {
			if time.Since(g.last) > 100*time.Millisecond {
				g.running = false
				g.mu.Unlock()

				return
			}
			g.mu.Unlock()

			continue
		}
		if released+len(g.arrived) < g.expect && time.Since(g.last) < 15*time.Millisecond {
			g.mu.Unlock()

			continue
		}
		best := 0
		bestRank := 1 << 30
		for i, w := range g.arrived {
			rank := 1 << 29
			for j, k := range g.order {
				if k == w.key {
					rank = j

					break
				}
			}
			if rank < bestRank {
				best, bestRank = i, rank
			}
		}
		w := g.arrived[best]
		g.arrived = append(g.arrived[:best:best], g.arrived[best+1:]...)
		released++
		g.mu.Unlock()
		close(w.ch)
		select {
		case <-w.done:
		case <-time.After(200 * time.Millisecond):
		}
		time.Sleep(300 * time.Microsecond)
		g.mu.Lock()
		g.last = time.Now()
		g.mu.Unlock()
	}
}

type vTransport struct {
	mu    sync.Mutex
	reqs  []vReq
	spec  vHTTP
	root  string
	gates map[string]*gate
	log   string // where to keep the requests when this is a process of its own
}

func (t *vTransport) save() {
	if t.log != "" {
		b, _ := json.Marshal(t.reqs)
		_ = os.WriteFile(t.log, b, 0o644)
	}
}

type vMain struct {
	HTTP *vHTTP   `json:"http"`
	Root string   `json:"root"`
	Log  string   `json:"log"`
	Args []string `json:"args"`
}

// TestMain lets this binary stand in for the program itself: with VERIF_MAIN it
// is main that runs, with the given arguments and a scripted network
func TestMain(m *testing.M) {
	f := os.Getenv("VERIF_MAIN")
	if f == "" {
		os.Exit(m.Run())
	}
	b, err := os.ReadFile(f)
	if err != nil {
		panic("harness: " + err.Error())
	}
	var v vMain
	if err := json.Unmarshal(b, &v); err != nil {
		panic("harness: " + err.Error())
	}
	tr := &vTransport{root: v.Root, gates: map[string]*gate{}, log: v.Log}
	if v.HTTP != nil {
		tr.spec = *v.HTTP
	}
	http.DefaultTransport = tr
	http.DefaultClient = &http.Client{}
	os.Unsetenv("VERIF_MAIN")
	os.Args = append([]string{"osv-detector"}, v.Args...)
	main()
	os.Exit(0)
}

// execMain runs the program as a process of its own
func execMain(root string, args []string, spec *vHTTP, out *vOut) {
	h := filepath.Join(root, ".h")
	logf, inf := filepath.Join(h, "reqs"), filepath.Join(h, "main")
	defer os.Remove(logf)
	defer os.Remove(inf)
	b, _ := json.Marshal(vMain{HTTP: spec, Root: root, Log: logf, Args: args})
	if err := os.WriteFile(inf, b, 0o644); err != nil {
		panic("harness: " + err.Error())
	}
	exe, err := os.Executable()
	if err != nil {
		panic("harness: " + err.Error())
	}
	var so, se bytes.Buffer
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), "VERIF_MAIN="+inf)
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		panic("harness: " + err.Error())
	}
	out.Exit = cmd.ProcessState.ExitCode()
	out.Stdout = strings.ReplaceAll(so.String(), root, "${ROOT}")
	out.Stderr = strings.ReplaceAll(se.String(), root, "${ROOT}")
	if strings.Contains(out.Stderr, "panic: harness:") {
		panic("harness: " + out.Stderr)
	}
	if i := strings.Index(out.Stderr, "goroutine "); i >= 0 && (out.Exit == 2 || out.Exit < 0) || out.Exit < 0 {
		out.Panic = "process died: " + out.Stderr[max(0, i-200):min(len(out.Stderr), max(0, i)+800)]
	}
	if b, err := os.ReadFile(logf); err == nil {
		_ = json.Unmarshal(b, &out.Reqs)
	}
}

type gatedBody struct {
	io.Reader

	done func()
}

func (b *gatedBody) Close() error {
	if b.done != nil {
		b.done()
	}

	return nil
}

type truncReader struct {
	r io.Reader
}

func (t truncReader) Read(p []byte) (int, error) {
	n, err := t.r.Read(p)
	if errors.Is(err, io.EOF) {
		return n, io.ErrUnexpectedEOF
	}

	return n, err
}

func (t *vTransport) gate(key string, order []string, expect int) *gate {
	t.mu.Lock()
	defer t.mu.Unlock()
	g, ok := t.gates[key]
	if !ok {
		g = &gate{order: order, expect: expect}
		t.gates[key] = g
	}

	return g
}

func resp(req *http.Request, status int, hdr map[string]string, body []byte, fault string, done func()) *http.Response {
	h := http.Header{}
	for k, v := range hdr {
		if v != "" {
			h.Set(k, v)
		}
	}
	var rd io.Reader = bytes.NewReader(body)
	if fault == "trunc" {
		rd = truncReader{bytes.NewReader(body[:len(body)/2])}
	}
	if fault == "tail" {
		rd = truncReader{bytes.NewReader(body)}
	}

	return &http.Response{
		Status: fmt.Sprintf("%d %s", status, http.StatusText(status)), StatusCode: status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: &gatedBody{rd, done}, ContentLength: -1, Request: req,
	}
}

var errNet = errors.New("scripted network error")

func (t *vTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		_ = req.Body.Close()
	}
	u := req.URL.String()
	_, has1 := req.Header["If-None-Match"]
	_, has2 := req.Header["If-Modified-Since"]
	t.mu.Lock()
	idx := len(t.reqs)
	t.reqs = append(t.reqs, vReq{
		M: req.Method, U: u, INM: req.Header.Get("If-None-Match"), IMS: req.Header.Get("If-Modified-Since"),
		Has: has1 || has2, Body: string(body), R: "nomatch",
	})
	t.save()
	t.mu.Unlock()
	mark := func(s string) {
		t.mu.Lock()
		t.reqs[idx].R = s
		t.save()
		t.mu.Unlock()
	}

	for _, r := range t.spec.Rules {
		ru := strings.ReplaceAll(r.U, "${ROOT}", t.root)
		switch r.Kind {
		case "static":
			if (r.M != "" && r.M != req.Method) || ru != u {
				continue
			}
			if r.Fault == "neterr" {
				mark("neterr")

				return nil, errNet
			}
			mark(strconv.Itoa(r.Status))

			return resp(req, r.Status, r.Headers, r.Body.bytes(t.root), r.Fault, nil), nil
		case "archive":
			if ru != u {
				continue
			}
			if r.Fault == "neterr" {
				mark("neterr")

				return nil, errNet
			}
			hdr := map[string]string{"ETag": r.ETag, "Date": r.Date}
			for k, v := range r.Headers {
				hdr[k] = v
			}
			if (r.Fault == "" || r.Fault == "trunc" || r.Fault == "tail") && !r.Always {
				inm := req.Header.Get("If-None-Match")
				ims := req.Header.Get("If-Modified-Since")
				if inm != "" {
					if r.ETag != "" && inm == r.ETag {
						mark("304")

						return resp(req, 304, hdr, nil, "", nil), nil
					}
				} else if ims != "" && r.Modified != "" {
					a, e1 := http.ParseTime(ims)
					b, e2 := http.ParseTime(r.Modified)
					if e1 == nil && e2 == nil && !b.After(a) {
						mark("304")

						return resp(req, 304, hdr, nil, "", nil), nil
					}
				}
			}
			status := r.Status
			if status == 0 {
				status = 200
			}
			mark(strconv.Itoa(status))

			return resp(req, status, hdr, r.Body.bytes(t.root), r.Fault, nil), nil
		case "api":
			if u == ru+"/querybatch" && req.Method == http.MethodPost {
				return t.apiBatch(req, r, body, mark)
			}
			if id, ok := strings.CutPrefix(u, ru+"/vulns/"); ok && req.Method == http.MethodGet {
				return t.apiDetail(req, r, id, mark)
			}
		}
	}

	return nil, errNet
}

func queryKey(q map[string]any) string {
	if c, ok := q["commit"].(string); ok && c != "" {
		return "commit|" + c
	}
	p, _ := q["package"].(map[string]any)
	v, _ := q["version"].(string)
	n, _ := p["name"].(string)
	e, _ := p["ecosystem"].(string)

	return e + "|" + n + "|" + v
}

func (t *vTransport) apiBatch(req *http.Request, r vRule, body []byte, mark func(string)) (*http.Response, error) {
	var parsed struct {
		Queries []map[string]any `json:"queries"`
	}
	if err := json.Unmarshal(body, &parsed); err != nil {
		mark("badrequest")

		return resp(req, 400, nil, nil, "", nil), nil
	}
	first := ""
	fault := ""
	type vid struct {
		ID       string `json:"id"`
		Modified string `json:"modified"`
	}
	type res struct {
		Vulns []vid `json:"vulns,omitempty"`
	}
	results := make([]res, 0, len(parsed.Queries))
	for i, q := range parsed.Queries {
		k := queryKey(q)
		if i == 0 {
			first = k
		}
		if f, ok := r.BFaults[k]; ok && fault == "" {
			fault = f
		}
		var rr res
		for _, id := range r.Answers[k] {
			rr.Vulns = append(rr.Vulns, vid{id, "2022-01-01T00:00:00Z"})
		}
		results = append(results, rr)
	}
	var done func()
	if len(r.Order) > 0 || r.Expect > 0 {
		done = t.gate("b|"+r.U, r.Order, r.Expect).wait(first)
	}
	fin := func() {
		if done != nil {
			done()
		}
	}
	if fault == "neterr" {
		mark("neterr")
		fin()

		return nil, errNet
	}
	status := 200
	if s, ok := strings.CutPrefix(fault, "status:"); ok {
		status, _ = strconv.Atoi(s)
	}
	if fault == "short" && len(results) > 0 {
		results = results[:len(results)-1]
	}
	if fault == "extra" {
		results = append(results, res{})
	}
	out, _ := json.Marshal(map[string]any{"results": results})
	switch fault {
	case "garbage":
		out = []byte("<html>not json</html>")
	case "trailing":
		out = append(out, "<!-- -->"...)
	case "empty":
		out = nil
	case "none":
		out = []byte("{}")
	case "null":
		out = []byte("null")
	case "list":
		out, _ = json.Marshal(results)
	case "typed-results", "typed-result", "typed-vulns", "typed-vuln", "typed-id":
		// as many results as asked for, but something in them is of another type
		anys := make([]any, 0, len(results))
		for _, r := range results {
			anys = append(anys, r)
		}
		if n := len(anys); n > 0 {
			anys[n-1] = map[string]any{
				"typed-result": "none",
				"typed-vulns":  map[string]any{"vulns": "none"},
				"typed-vuln":   map[string]any{"vulns": []any{"OSV-1"}},
				"typed-id":     map[string]any{"vulns": []any{map[string]any{"id": 7}}},
			}[fault]
		}
		out, _ = json.Marshal(map[string]any{"results": anys})
		if fault == "typed-results" {
			out = []byte(`{"results":{"0":{}}}`)
		}
	}
	mark(strconv.Itoa(status) + fault)
	out = append(bytes.Repeat([]byte(" "), r.Pad), out...)

	return resp(req, status, map[string]string{"Content-Type": "application/json"}, out, fault, done), nil
}

func (t *vTransport) apiDetail(req *http.Request, r vRule, id string, mark func(string)) (*http.Response, error) {
	var done func()
	if len(r.DOrder) > 0 || r.DExpect > 0 {
		done = t.gate("d|"+r.U, r.DOrder, r.DExpect).wait(id)
	}
	fault := r.DFaults[id]
	if fault == "neterr" {
		mark("neterr")
		if done != nil {
			done()
		}

		return nil, errNet
	}
	d, ok := r.Details[id]
	status := 200
	if !ok {
		status = 404
		d = []byte(`{"code":5,"message":"not found"}`)
	}
	if s, ok := strings.CutPrefix(fault, "status:"); ok {
		status, _ = strconv.Atoi(s)
	}
	out := []byte(d)
	if fault == "garbage" {
		out = []byte("<html>not json</html>")
	}
	mark(strconv.Itoa(status) + fault)
	out = append(bytes.Repeat([]byte(" "), r.Pad), out...)

	return resp(req, status, map[string]string{"Content-Type": "application/json"}, out, fault, done), nil
}

type vOut struct {
	Exit      int                       `json:"exit"`
	Stdout    string                    `json:"stdout"`
	Stderr    string                    `json:"stderr"`
	OsErr     string                    `json:"oserr"`
	Panic     string                    `json:"panic"`
	Stack     string                    `json:"stack,omitempty"`
	Hang      bool                      `json:"hang"`
	Err       string                    `json:"err"`
	CheckErr  string                    `json:"checkErr"`
	Reqs      []vReq                    `json:"reqs"`
	Pkgs      []internal.PackageDetails `json:"pkgs"`
	FilePath  string                    `json:"filePath"`
	ParsedAs  string                    `json:"parsedAs"`
	Count     int                       `json:"count"`
	UpdatedAt string                    `json:"updatedAt"`
	Results   [][]vVuln                 `json:"results"`
	Loaded    []string                  `json:"loaded"`
	Bool      bool                      `json:"bool"`
	Files     []vFile                   `json:"files"`
	Names     []string                  `json:"names"`
	Configs   []vConfig                 `json:"configs"`
}

type vConfig struct {
	Ignore []string    `json:"ignore"`
	DBs    []vConfigDB `json:"dbs"`
	Err    string      `json:"err"`
}

type vConfigDB struct {
	URL  string `json:"url"  yaml:"url"`
	Type string `json:"type" yaml:"type"`
	WD   string `json:"wd"   yaml:"working-directory"`
	Name string `json:"name" yaml:"name"`
}

type vVuln struct {
	ID      string `json:"id"`
	Summary string `json:"summary"`
}

type vFile struct {
	P string `json:"p"`
	C string `json:"c"`
}

func writeTree(root string, tree []vContent) {
	for _, f := range tree {
		p := filepath.Join(root, f.P)
		if f.Dir {
			_ = os.MkdirAll(p, 0o755)
		} else if f.Link != "" {
			_ = os.MkdirAll(filepath.Dir(p), 0o755)
			_ = os.Symlink(strings.ReplaceAll(f.Link, "${ROOT}", root), p)
		} else {
			_ = os.MkdirAll(filepath.Dir(p), 0o755)
			if err := os.WriteFile(p, f.bytes(root), 0o644); err != nil {
				panic("harness: " + err.Error())
			}
		}
		if f.Mode != 0 {
			_ = os.Chmod(p, os.FileMode(f.Mode))
		}
	}
}

func tmpFiles() []string {
	var out []string
	ents, _ := os.ReadDir(os.TempDir())
	for _, e := range ents {
		if !e.IsDir() {
			out = append(out, filepath.Join(os.TempDir(), e.Name()))
		}
	}
	sort.Strings(out)

	return out
}

func doStep(root string, s vStep, out *vOut) {
	sub := func(x string) string { return strings.ReplaceAll(x, "${ROOT}", root) }
	tr := &vTransport{root: root, gates: map[string]*gate{}}
	if s.HTTP != nil {
		tr.spec = *s.HTTP
	}
	http.DefaultTransport = tr
	http.DefaultClient = &http.Client{}

	errFile, _ := os.CreateTemp(filepath.Join(root, ".h"), "stderr")
	saved := os.Stderr
	os.Stderr = errFile
	// whatever is written past the given writers still ends up in the same place
	outFile, _ := os.CreateTemp(filepath.Join(root, ".h"), "stdout")
	savedOut := os.Stdout
	os.Stdout = outFile

	defer func() {
		os.Stderr = saved
		os.Stdout = savedOut
		if outFile != nil {
			b, _ := os.ReadFile(outFile.Name())
			out.Stdout += strings.ReplaceAll(string(b), root, "${ROOT}")
			_ = outFile.Close()
			_ = os.Remove(outFile.Name())
		}
		if errFile != nil {
			b, _ := os.ReadFile(errFile.Name())
			out.OsErr = strings.ReplaceAll(string(b), root, "${ROOT}")
			if len(out.OsErr) > 4000 {
				out.OsErr = out.OsErr[:4000]
			}
			_ = errFile.Close()
			_ = os.Remove(errFile.Name())
		}
		if p := recover(); p != nil {
			out.Panic = fmt.Sprint(p)
			if out.Panic == "" {
				out.Panic = "panic"
			}
			out.Stack = string(debug.Stack())
			if len(out.Stack) > 3000 {
				out.Stack = out.Stack[:3000]
			}
		}
		if !s.Exec {
			tr.mu.Lock()
			out.Reqs = append([]vReq{}, tr.reqs...)
			tr.mu.Unlock()
		}
	}()

	switch s.Op {
	case "run":
		args := make([]string, 0, len(s.Args))
		for _, a := range s.Args {
			args = append(args, sub(a))
		}
		if s.Exec {
			execMain(root, args, s.HTTP, out)

			return
		}
		var so, se bytes.Buffer
		out.Exit = run(args, &so, &se)
		out.Stdout = strings.ReplaceAll(so.String(), root, "${ROOT}")
		out.Stderr = strings.ReplaceAll(se.String(), root, "${ROOT}")
	case "parse":
		l, err := lockfile.Parse(sub(s.Path), s.As)
		if err != nil {
			out.Err = strings.ReplaceAll(err.Error(), root, "${ROOT}")
			if out.Err == "" {
				out.Err = "error"
			}
		}
		out.Pkgs, out.FilePath, out.ParsedAs = l.Packages, strings.ReplaceAll(l.FilePath, root, "${ROOT}"), l.ParsedAs
	case "csvrows", "csvfile":
		var l lockfile.Lockfile
		var err error
		if s.Op == "csvrows" {
			l, err = lockfile.FromCSVRows(s.Path, s.As, s.Rows)
		} else {
			l, err = lockfile.FromCSVFile(sub(s.Path), s.As)
		}
		if err != nil {
			out.Err = strings.ReplaceAll(err.Error(), root, "${ROOT}")
			if out.Err == "" {
				out.Err = "error"
			}
		}
		out.Pkgs, out.FilePath, out.ParsedAs = l.Packages, strings.ReplaceAll(l.FilePath, root, "${ROOT}"), l.ParsedAs
	case "db":
		cfg := s.Config
		cfg.URL = sub(cfg.URL)
		batch := s.Batch
		if batch == 0 {
			batch = 1000
		}
		db, err := database.Load(cfg, s.Offline, batch, s.Names)
		if err != nil {
			out.Err = strings.ReplaceAll(err.Error(), root, "${ROOT}")
			if out.Err == "" {
				out.Err = "error"
			}

			return
		}
		switch tt := db.(type) {
		case *database.ZipDB:
			out.Count = tt.VulnerabilitiesCount
			out.UpdatedAt = tt.UpdatedAt
			for _, v := range tt.Vulnerabilities(true) {
				out.Loaded = append(out.Loaded, v.ID)
			}
		case *database.DirDB:
			out.Count = tt.VulnerabilitiesCount
			for _, v := range tt.Vulnerabilities(true) {
				out.Loaded = append(out.Loaded, v.ID)
			}
		}
		sort.Strings(out.Loaded)
		res, err := db.Check(s.Pkgs)
		if err != nil {
			out.CheckErr = strings.ReplaceAll(err.Error(), root, "${ROOT}")
			if out.CheckErr == "" {
				out.CheckErr = "error"
			}
		}
		for _, vs := range res {
			l := make([]vVuln, 0, len(vs))
			for _, v := range vs {
				l = append(l, vVuln{v.ID, v.Summary})
			}
			out.Results = append(out.Results, l)
		}
	case "isaffected":
		var osv database.OSV
		if err := json.Unmarshal(s.Osv, &osv); err != nil {
			panic("harness: bad osv: " + err.Error())
		}
		for _, p := range s.Pkgs {
			if osv.IsAffected(p) {
				out.Names = append(out.Names, "1")
			} else {
				out.Names = append(out.Names, "0")
			}
		}
	case "write":
		writeTree(root, []vContent{s.Content})
	case "remove":
		_ = os.RemoveAll(filepath.Join(root, s.Path))
	case "read":
		b, err := os.ReadFile(filepath.Join(root, s.Path))
		if err == nil {
			out.Files = append(out.Files, vFile{s.Path, strings.ReplaceAll(string(b), root, "${ROOT}")})
		}
	case "tree":
		base := filepath.Join(root, s.Path)
		_ = filepath.Walk(base, func(p string, info os.FileInfo, err error) error {
			if err != nil || info.IsDir() {
				return nil
			}
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(root, p)
			out.Files = append(out.Files, vFile{rel, strings.ReplaceAll(string(b), root, "${ROOT}")})

			return nil
		})
	case "configs":
		for _, n := range s.Names {
			var c struct {
				Ignore []string    `yaml:"ignore"`
				DBs    []vConfigDB `yaml:"extra-databases"`
			}
			b, err := os.ReadFile(filepath.Join(root, n))
			if err == nil {
				err = yaml.Unmarshal(b, &c)
			}
			vc := vConfig{Ignore: c.Ignore, DBs: c.DBs}
			for i := range vc.DBs {
				vc.DBs[i].URL = strings.ReplaceAll(vc.DBs[i].URL, root, "${ROOT}")
			}
			if err != nil {
				vc.Err = err.Error()
			}
			out.Configs = append(out.Configs, vc)
		}
	case "tmplist":
		for _, p := range tmpFiles() {
			st, _ := os.Stat(p)
			out.Files = append(out.Files, vFile{filepath.Base(p), strconv.FormatInt(st.Size(), 10)})
		}
	case "tmptrunc":
		// simulates a crash part-way through writing: keep n/1000 of every cached file
		for _, p := range tmpFiles() {
			b, _ := os.ReadFile(p)
			k := len(b) * s.N / 1000
			if k >= len(b) && len(b) > 0 {
				k = len(b) - 1
			}
			_ = os.WriteFile(p, b[:k], 0o644)
		}
	case "tmptruncb":
		// the same, at a byte position counted from the start or (negative) from the end
		for _, p := range tmpFiles() {
			b, _ := os.ReadFile(p)
			k := s.N
			if k < 0 {
				k = max(0, len(b)+k)
			}
			k = max(0, min(k, len(b)-1))
			_ = os.WriteFile(p, b[:k], 0o644)
		}
	case "tmpappend":
		for _, p := range tmpFiles() {
			b, _ := os.ReadFile(p)
			_ = os.WriteFile(p, append(b, s.Content.bytes(root)...), 0o644)
		}
	case "tmpreplace":
		for _, p := range tmpFiles() {
			_ = os.WriteFile(p, s.Content.bytes(root), 0o644)
		}
	case "tmpedit":
		// edits one field of the JSON documents cached on disk
		for _, p := range tmpFiles() {
			b, _ := os.ReadFile(p)
			var m map[string]json.RawMessage
			if json.Unmarshal(b, &m) != nil {
				continue
			}
			for k := range m {
				if strings.EqualFold(k, s.Path) {
					m[k] = s.Osv
				}
			}
			nb, _ := json.Marshal(m)
			_ = os.WriteFile(p, nb, 0o644)
		}
	case "tmpclear":
		for _, p := range tmpFiles() {
			_ = os.Remove(p)
		}
	case "tmpmode":
		_ = os.Chmod(os.TempDir(), os.FileMode(s.N)) //nolint:gosec
	default:
		panic("harness: unknown op " + s.Op)
	}
}

func TestVerifDriver(t *testing.T) {
	in, err := os.Open(os.Getenv("VERIF_IN"))
	if err != nil {
		t.Fatal(err)
	}
	outf, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	scratch := os.Getenv("VERIF_SCRATCH")
	tmo, _ := strconv.Atoi(os.Getenv("VERIF_TIMEOUT"))
	if tmo == 0 {
		tmo = 30
	}

	rd := bufio.NewReaderSize(in, 1<<20)
	enc := json.NewEncoder(outf)
	n := 0
	for {
		line, err := rd.ReadBytes('\n')
		if len(bytes.TrimSpace(line)) > 0 {
			n++
			var c vCase
			if e := json.Unmarshal(line, &c); e != nil {
				t.Fatalf("bad case: %v", e)
			}
			// always the same root path, so repeated executions see the same absolute paths
			root := filepath.Join(scratch, "w")
			_ = os.RemoveAll(root)
			_ = os.MkdirAll(filepath.Join(root, ".h"), 0o755)
			_ = os.MkdirAll(filepath.Join(root, ".tmp"), 0o755)
			_ = os.MkdirAll(filepath.Join(root, c.Cwd), 0o755)
			writeTree(root, c.Tree)
			os.Setenv("TMPDIR", filepath.Join(root, ".tmp"))
			if e := os.Chdir(filepath.Join(root, c.Cwd)); e != nil {
				t.Fatal(e)
			}
			outs := make([]*vOut, 0, len(c.Steps))
			hang := false
			for _, s := range c.Steps {
				o := &vOut{}
				done := make(chan struct{})
				go func() {
					defer close(done)
					doStep(root, s, o)
				}()
				select {
				case <-done:
				case <-time.After(time.Duration(tmo) * time.Second):
					hang = true
				}
				if hang {
					outs = append(outs, &vOut{Hang: true})

					break
				}
				outs = append(outs, o)
				if o.Panic != "" && strings.HasPrefix(o.Panic, "harness:") {
					t.Fatal(o.Panic)
				}
			}
			if e := enc.Encode(map[string]any{"id": c.ID, "outs": outs}); e != nil {
				t.Fatal(e)
			}
			if hang {
				os.Exit(7)
			}
			_ = os.Chdir(scratch)
			_ = os.Chmod(filepath.Join(root, ".tmp"), 0o755)
			_ = os.RemoveAll(root)
		}
		if err != nil {
			break
		}
	}
}
