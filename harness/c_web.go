//go:build vss

package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/CAU-CPSS/logument/internal/vssgen"
)

func init() {
	register(&property{id: "C32", quick: 400, thorough: 12000, run: runC32, single: true,
		assume: []string{"the data set does not change while a request is answered", "car and patch numbers are written plainly (not \"+1\" or \"01\")"},
		rule:   "a generated or hand-made data set of 1-3 cars is put where the server serves from; 1-12 concurrent clients mix valid requests (each answer compared) with hostile ones. Non-trivial and distinct: a patched document that was answered, by car content and patch number",
		needs:  []string{"patched documents", "stored files", "hostile requests", "concurrent cases", "the server's own data set", "data sets replaced", "hand-made cars", "generated cars", "numbers easily confused"}})
}

type webServer struct {
	dir, addr string
	stderr    string
	cmd       *exec.Cmd
	stdin     io.WriteCloser
	done      chan struct{}
	nextCar   int
	client    *http.Client
}

var web *webServer

// server starts the demo (once per worker) in a directory of its own.
func server(c *Ctx) *webServer {
	if web != nil {
		return web
	}
	s := &webServer{dir: filepath.Join(c.Scratch, "site"), done: make(chan struct{}), nextCar: 100}
	check := func(err error) {
		if err != nil {
			fatal("%v", err)
		}
	}
	check(os.MkdirAll(filepath.Join(s.dir, "internal/vssgen"), 0o755))
	for _, f := range []string{"internal/vssgen/vss.json", "index.html"} {
		b, err := os.ReadFile(asset(filepath.Base(f)))
		check(err)
		check(os.WriteFile(filepath.Join(s.dir, f), b, 0o644))
	}
	s.stderr = filepath.Join(c.Scratch, "server.txt")
	log, err := os.Create(s.stderr)
	check(err)
	addr := filepath.Join(c.Scratch, "addr")
	s.cmd = exec.Command(asset("web.test"), "-test.run", "^TestVerifWeb$", "-test.timeout", "0")
	s.cmd.Env = append(os.Environ(), "VERIF_WEB_DIR="+s.dir, "VERIF_WEB_ADDR="+addr, "GORACE=halt_on_error=1 exitcode=77", "GOMAXPROCS=8")
	s.cmd.Stderr, s.cmd.Stdout = log, log
	s.stdin, err = s.cmd.StdinPipe()
	check(err)
	check(s.cmd.Start())
	go func() { _ = s.cmd.Wait(); close(s.done) }()
	for i := 0; ; i++ {
		if b, err := os.ReadFile(addr); err == nil {
			s.addr = "http://" + string(b)
			break
		}
		select {
		case <-s.done:
			c.Fail("no start", "the server does not start: %s", s.output())
		case <-time.After(50 * time.Millisecond):
		}
		if i > 2400 {
			c.Fail("no start", "the server does not start in 120 s: %s", s.output())
		}
	}
	s.client = &http.Client{Timeout: 120 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 32},
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	web = s
	return s
}

func (s *webServer) output() string {
	b, _ := os.ReadFile(s.stderr)
	if i := bytes.Index(b, []byte("WARNING: DATA RACE")); i >= 0 {
		b = b[i:]
	}
	return trim(string(b), 3000)
}

func (s *webServer) get(path string, q url.Values) (int, []byte, error) {
	r, err := s.client.Get(s.addr + path + "?" + q.Encode())
	if err != nil {
		return 0, nil, err
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	return r.StatusCode, b, err
}

// webCar is one car of the data set: what is stored, and what each patch number leads to.
type webCar struct {
	n       int
	first   []byte
	patches map[int][]byte
	docs    []*Doc
	text    string
}

// place writes the car where the server looks for it.
func (s *webServer) place(car *webCar) {
	for _, d := range []string{"tson", "patches"} {
		_ = os.MkdirAll(filepath.Join(s.dir, "dataset", fmt.Sprintf("car_%d", car.n), d), 0o755)
	}
	write := func(f string, b []byte) {
		if err := os.WriteFile(filepath.Join(s.dir, "dataset", fmt.Sprintf("car_%d", car.n), f), b, 0o644); err != nil {
			fatal("%v", err)
		}
	}
	write(fmt.Sprintf("tson/%d_1.tson", car.n), car.first)
	for j, b := range car.patches {
		write(fmt.Sprintf("patches/%d_%d.json", car.n, j), b)
	}
}

// readCar reads car i of a data set that was generated.
func readCar(c *Ctx, dir string, i int) *webCar {
	car := &webCar{n: i, patches: map[int][]byte{}}
	for j := 1; ; j++ {
		tf := filepath.Join(dir, fmt.Sprintf("car_%d/tson/%d_%d.tson", i, i, j))
		b, err := os.ReadFile(tf)
		if err != nil {
			break
		}
		if j == 1 {
			car.first = b
		}
		d, err := readTson(string(b))
		if err != nil {
			c.Stop("the generated document cannot be read: " + err.Error())
		}
		car.docs = append(car.docs, d)
		p, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("car_%d/patches/%d_%d.json", i, i, j)))
		if err != nil {
			c.Stop("a generated patch is missing")
		}
		car.patches[j] = p
		car.text += string(p)
	}
	if len(car.docs) == 0 {
		c.Stop("no documents were generated")
	}
	return car
}

// makeCar makes a car by hand: any document and any valid patches, in time order.
func makeCar(c *Ctx, n, files int, hostile float64) *webCar {
	g := logGen(c)
	g.Hostile = max(g.Hostile, hostile)
	g.Bad, g.JSONNum, g.Dotted = false, true, false
	t := int64(1700000000123456789)
	g.TS = func() int64 { t += int64(1 + c.R.IntN(3)); return t }
	d := g.object(g.Depth)
	car := &webCar{n: n, first: []byte(writeTson(d, nil)), docs: []*Doc{d}, patches: map[int][]byte{}}
	car.patches[1] = car.first
	car.text = string(car.first)
	for j := 2; j <= files; j++ {
		var ops []Op
		for k := c.R.IntN(5); k > 0; k-- {
			op := asRead([]Op{g.validOp(d)})[0]
			e, err := applyOp(d, op)
			if err != nil {
				continue
			}
			ops, d = append(ops, op), e
		}
		car.patches[j] = []byte(patchJSON(ops))
		car.docs = append(car.docs, d)
		car.text += string(car.patches[j])
	}
	return car
}

const secret = "SECRET-OUTSIDE-THE-DATA-SET"

// traps puts files where a request could lead that is not confined to the data set.
func (s *webServer) traps(car *webCar) {
	n := strconv.Itoa(car.n)
	for _, f := range []string{
		"trap/trap_1.tson", "trap/tson/" + n + "/x", "trap/patches/" + n + "/x", "secret.json", "secret_1.tson", "secret.tson",
		"dataset/secret.json", "dataset/trap/trap_1.tson", "dataset/trap/tson/" + n + "/x", "dataset/car_" + n + "/patches/" + n + "_t/x", "dataset/car_" + n + "/secret.json",
		"dataset/car_" + n + "/tson/" + n + "_t/x", "dataset/car_x/tson/x_1.tson", "dataset/car_x/patches/x_1.json", "dataset/car_/tson/_1.tson", "dataset/car_/patches/_1.json",
	} {
		p := filepath.Join(s.dir, f)
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		_ = os.WriteFile(p, []byte("{\"a\" <1>: \""+secret+"\"}"), 0o644)
	}
}

// hostile makes a request that names no document of the data set.
func hostile(r *rand.Rand, car *webCar) (string, url.Values) {
	n := strconv.Itoa(car.n)
	good := strconv.Itoa(len(car.docs))
	badCar := []string{"", "x", "999999999", "-1", "99999999999999999999999", "1e2", "0x1", n + ".0", n + "/", n + "\x00", n + " ", "{}", "../secret", n + "/../../trap", n + "/../trap", n + "/../../../site/trap", "../../trap/" + n, "_", "%d", "*", "?", n + "/../car_" + n, "/" + n, "٣"}
	badPatch := []string{"x", "0", "-1", strconv.Itoa(len(car.docs) + 1), strconv.Itoa(len(car.docs) + 50), "2147483648", "9223372036854775807", "-9223372036854775808", "99999999999999999999999", "1.5", "1e0", good + "/../" + n + "_" + good, good + "\x00", "t/../../secret", "t/../../../secret", "t/../../../../secret", "../secret", "../../secret", "/etc/passwd", "1/..", "٣", "{}"}
	q := url.Values{}
	path := "/update"
	if r.IntN(2) == 0 {
		path = "/patch"
	}
	switch r.IntN(3) {
	case 0:
		q.Set("car", pick(r, badCar))
		q.Set("patch", good)
		if path == "/update" && r.IntN(2) == 0 {
			q.Del("patch")
		}
	case 1:
		q.Set("car", n)
		q.Set("patch", pick(r, badPatch))
	default:
		q.Set("car", pick(r, badCar))
		q.Set("patch", pick(r, badPatch))
	}
	if r.IntN(20) == 0 {
		q.Del("car")
	}
	return path, q
}

type webFailure struct{ key, msg string }

func runC32(c *Ctx) {
	s := server(c)
	var cars []*webCar
	own := c.R.IntN(12) == 0 || c.Index == 0
	switch {
	case own:
		cars = append(cars, readCar(c, filepath.Join(s.dir, "dataset"), 1+c.R.IntN(5)))
		c.Count("the server's own data set", 1)
	case c.R.IntN(3) == 0:
		file, _ := schema(c)
		dir := filepath.Join(c.Scratch, "gen")
		_ = os.RemoveAll(dir)
		conf := map[string]any{"dataset": file, "cars": 1 + c.R.IntN(3), "files": 1 + c.R.IntN(8), "change_rate": c.R.Float64(), "size": pick(c.R, []float64{1, 0.5, 0.1}), "maintain_rate": 0.2}
		if file == realSchema {
			conf["size"], conf["cars"] = 0.1, 1
		}
		c.Pre("generating", func() { vssgen.PrepareOutputDir(dir); vssgen.Generate(conf, dir) })
		for i := 1; i <= conf["cars"].(int); i++ {
			car := readCar(c, dir, i)
			car.n = s.nextCar
			s.nextCar++
			cars = append(cars, car)
			c.Count("generated cars", 1)
		}
	default:
		for i := 1 + c.R.IntN(3); i > 0; i-- {
			cars = append(cars, makeCar(c, s.nextCar, 2+c.R.IntN(12), 0))
			s.nextCar++
			c.Count("hand-made cars", 1)
		}
		if c.R.IntN(3) == 0 { // numbers that are easily confused: car 57, patch 12 and car 571, patch 2
			n, k := s.nextCar, 11+c.R.IntN(5)
			s.nextCar++
			cars = append(cars, makeCar(c, n, k, 0), makeCar(c, 10_000_000+n, k, 0), makeCar(c, (10_000_000+n)*10+1, k, 0))
			c.Count("numbers easily confused", 1)
		} else if c.R.IntN(3) == 0 { // and pairs of numbers some power apart
			n := s.nextCar
			s.nextCar++
			apart := pick(c.R, []int{1, 2, 3, 5, 7, 8, 10, 12, 16, 20, 31, 32, 50, 64, 100, 128, 256, 1000, 1024})
			cars = []*webCar{makeCar(c, 20_000_000+n*2000, 9, 0), makeCar(c, 20_000_000+n*2000+apart, 9, 0)}
			c.Count("numbers some power apart", 1)
		}
	}
	for _, car := range cars {
		if !own {
			s.place(car)
			s.traps(car)
			defer os.RemoveAll(filepath.Join(s.dir, "dataset", fmt.Sprintf("car_%d", car.n)))
		}
		c.Log("car %d: first %s", car.n, trim(string(car.first), 600))
		for _, j := range sortedKeys(car.patches) {
			c.Log("car %d: patch %d %s", car.n, j, trim(string(car.patches[j]), 600))
		}
	}

	clients := 1
	if c.R.IntN(4) != 0 {
		clients = 2 + c.R.IntN(11)
		c.Count("concurrent cases", 1)
	}
	failed := s.round(c, cars, clients, 12)
	if failed == nil && !own && c.R.IntN(3) == 0 { // between requests the data set is replaced
		for i, car := range cars {
			_ = os.RemoveAll(filepath.Join(s.dir, "dataset", fmt.Sprintf("car_%d", car.n)))
			cars[i] = makeCar(c, car.n, max(1, len(car.docs)+c.R.IntN(5)-2), 0)
			s.place(cars[i])
			s.traps(cars[i])
			c.Log("now car %d: first %s", car.n, trim(string(cars[i].first), 600))
		}
		c.Count("data sets replaced", 1)
		if failed = s.round(c, cars, clients, 6); failed != nil {
			failed.key, failed.msg = failed.key+" after replacement", "after the data set was replaced: "+failed.msg
		}
	}
	// Is it still there?
	if failed == nil {
		_, failed = s.request(rand.New(rand.NewPCG(1, 2)), cars)
	}
	if failed != nil {
		select {
		case <-s.done:
			out := s.output()
			web = nil
			if strings.Contains(out, "DATA RACE") {
				c.Fail("race", "the server stopped with a data race: %s", out)
			}
			c.Fail("stopped", "the server stopped (%s): %s", failed.msg, out)
		case <-time.After(2 * time.Second):
		}
		c.Fail(failed.key, "%s", failed.msg)
	}
	for _, car := range cars {
		if len(car.docs) > 1 {
			c.Key(car.text, clients)
		}
	}
	c.Sample(map[string]any{"cars": len(cars), "documents": len(cars[0].docs), "clients": clients})
}

// round lets the clients make their requests.
func (s *webServer) round(c *Ctx, cars []*webCar, clients, requests int) *webFailure {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var failed *webFailure
	counts := map[string]int{}
	for k := 0; k < clients; k++ {
		r := rand.New(rand.NewPCG(c.R.Uint64(), uint64(k)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < requests; i++ {
				kind, f := s.request(r, cars)
				mu.Lock()
				counts[kind]++
				if f != nil && failed == nil {
					failed = f
				}
				stop := failed != nil
				mu.Unlock()
				if stop {
					return
				}
			}
		}()
	}
	wg.Wait()
	for k, n := range counts {
		c.Count(k, n)
	}
	return failed
}

// request makes one request and judges its answer.
func (s *webServer) request(r *rand.Rand, cars []*webCar) (string, *webFailure) {
	car := pick(r, cars)
	n := strconv.Itoa(car.n)
	if r.IntN(3) == 0 {
		path, q := hostile(r, car)
		code, b, err := s.get(path, q)
		if err == nil && code == 200 && len(b) > 0 {
			key := "answered"
			if bytes.Contains(b, []byte(secret)) {
				key = "leak"
			}
			return "hostile requests", &webFailure{key, fmt.Sprintf("%s?%s names no document of the data set, but is answered with %s", path, q.Encode(), trim(string(b), 300))}
		}
		return "hostile requests", nil
	}
	k := 1 + r.IntN(len(car.docs))
	num := strconv.Itoa(k)
	if r.IntN(3) == 0 {
		q, want, what := url.Values{"car": {n}}, car.first, "the first document"
		if r.IntN(2) == 0 {
			q.Set("patch", num)
			want, what = car.patches[k], "patch file "+num
		}
		code, b, err := s.get("/update", q)
		if err != nil || code != 200 || !bytes.Equal(b, want) {
			return "stored files", &webFailure{"stored file", fmt.Sprintf("the request for %s of car %s is answered %d %v %s, the file holds %s", what, n, code, err, trim(string(b), 400), trim(string(want), 400))}
		}
		return "stored files", nil
	}
	code, b, err := s.get("/patch", url.Values{"car": {n}, "patch": {num}})
	if err != nil || code != 200 {
		return "patched documents", &webFailure{"patch request", fmt.Sprintf("the request for document %d of car %s is answered %d %v %s", k, n, code, err, trim(string(b), 300))}
	}
	got, err := readTson(string(b))
	if err != nil {
		return "patched documents", &webFailure{"unreadable", fmt.Sprintf("document %d of car %s cannot be read: %v: %s", k, n, err, trim(string(b), 500))}
	}
	if d := diffDoc(got, car.docs[k-1], true); d != "" {
		return "patched documents", &webFailure{"wrong document", fmt.Sprintf("document %d of car %s: %s; answered %s, expected %s", k, n, d, trim(got.String(), 1000), trim(car.docs[k-1].String(), 1000))}
	}
	return "patched documents", nil
}
