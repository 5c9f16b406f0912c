//go:build vss

package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"mime"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
)

func init() {
	register(&property{id: "C37", quick: 400, thorough: 20000, run: runC37, single: true,
		assume: []string{"the server answers every request; the page's scripts run in a document model of the monitor's own, without layout"},
		rule:   "the page as the server sends it is loaded and used (selections, the append and snapshot button, saved snapshots) while replies, the server's real ones, arrive late and in any order; what it shows is compared with what is stored. Non-trivial and distinct: a session with replies that overtook each other or a saved snapshot, by its steps",
		needs:  []string{"sessions", "replies", "replies out of order", "settled views", "results shown", "snapshots saved", "snapshots shown again", "selections while replies are due"}})
}

// browser is the page running in node.
type browser struct {
	in  io.WriteCloser
	out *bufio.Reader
	cmd *exec.Cmd
}

type pageState struct {
	Open []struct {
		N   int    `json:"n"`
		URL string `json:"url"`
	} `json:"open"`
	Text     map[string]string   `json:"text"`
	Value    map[string]string   `json:"value"`
	Options  map[string][]string `json:"options"`
	Disabled map[string]bool     `json:"disabled"`
	Errors   []string            `json:"errors"`
	Foreign  []string            `json:"foreign"`
}

var theBrowser *browser

func openBrowser() *browser {
	if theBrowser != nil {
		return theBrowser
	}
	b := &browser{cmd: exec.Command("node", asset("page.js"))}
	var err error
	if b.in, err = b.cmd.StdinPipe(); err != nil {
		fatal("%v", err)
	}
	out, err := b.cmd.StdoutPipe()
	if err != nil {
		fatal("%v", err)
	}
	b.out = bufio.NewReaderSize(out, 1<<20)
	b.cmd.Stderr = os.Stderr
	if err := b.cmd.Start(); err != nil {
		fatal("node cannot be run: %v", err)
	}
	theBrowser = b
	return b
}

func (b *browser) do(c *Ctx, cmd map[string]any) pageState {
	line, err := json.Marshal(cmd)
	if err != nil {
		fatal("%v", err)
	}
	type answer struct {
		line []byte
		err  error
	}
	got := make(chan answer, 1)
	go func() {
		if _, err := b.in.Write(append(line, '\n')); err != nil {
			got <- answer{nil, err}
			return
		}
		l, err := b.out.ReadBytes('\n')
		got <- answer{l, err}
	}()
	select {
	case a := <-got:
		var s pageState
		if a.err != nil {
			fatal("the page's process ended: %v", a.err)
		}
		if err := json.Unmarshal(a.line, &s); err != nil {
			fatal("the page's process answers %q", a.line)
		}
		return s
	case <-time.After(60 * time.Second):
		_ = b.cmd.Process.Kill()
		theBrowser = nil
		c.Fail("page hangs", "the page does not come to rest after %s", trim(string(line), 200))
	}
	panic("unreachable")
}

// site is the data set the page is used on, the same for five sessions.
type pageSite struct {
	turn int
	html string
	cars map[string]*webCar
}

var thePageSite *pageSite

func pageData(c *Ctx, s *webServer) *pageSite {
	turn := c.Index / 5
	if thePageSite != nil && thePageSite.turn == turn {
		return thePageSite
	}
	p := &pageSite{turn: turn, cars: map[string]*webCar{}}
	mk := newCtx(&property{id: "C37-cars"}, *flagSeed, turn, c.Thor, c.Scratch)
	for i := 1; i <= 5; i++ {
		var car *webCar
		if i < 3 {
			car = readCar(c, filepath.Join(s.dir, "dataset"), i)
		} else {
			car = makeCar(mk, i, 10, 0.3*float64(i-2))
			s.place(car)
		}
		p.cars[strconv.Itoa(i)] = car
	}
	code, b, err := s.get("/", url.Values{})
	if err != nil || code != 200 {
		c.Fail("no page", "the page is answered %d %v", code, err)
	}
	if r, err := s.client.Get(s.addr + "/"); err == nil {
		_ = r.Body.Close()
		kind, params, _ := mime.ParseMediaType(r.Header.Get("Content-Type"))
		if cs := strings.ToLower(params["charset"]); kind != "text/html" || cs != "" && cs != "utf-8" && cs != "utf8" {
			c.Fail("not a page", "the page is sent as %q", r.Header.Get("Content-Type"))
		}
	}
	want, err := os.ReadFile(asset("index.html"))
	if err != nil {
		fatal("%v", err)
	}
	if string(b) != string(want) {
		c.Fail("another page", "the server sends another page: %s", trim(string(b), 300))
	}
	p.html = string(b)
	thePageSite = p
	return p
}

// squeeze drops the white space between the tokens of a text.
func squeeze(s string) string {
	var b strings.Builder
	in, esc := false, false
	for _, r := range s {
		switch {
		case esc:
			esc = false
		case in && r == '\\':
			esc = true
		case r == '"':
			in = !in
		case !in && (r == ' ' || r == '\n' || r == '\t' || r == '\r'):
			continue
		}
		b.WriteRune(r)
	}
	return b.String()
}

var lacking = regexp.MustCompile(`is not a function|is not a constructor|[A-Z]\w* is not defined|Error: selector `)

var snapshotName = regexp.MustCompile(`car_(\d+)_patch_(\d+)`)

func runC37(c *Ctx) {
	s := server(c)
	site := pageData(c, s)
	br := openBrowser()
	c.Count("sessions", 1)
	stored := map[string]string{} // what the server answers
	fetch := func(u string) string {
		if t, ok := stored[u]; ok {
			return t
		}
		p, err := url.Parse(u)
		if err != nil {
			c.Fail("request", "the page requests %q", u)
		}
		_, b, err := s.get(p.Path, p.Query())
		if err != nil {
			c.Fail("request", "the page's request %q is not answered: %v", u, err)
		}
		stored[u] = strings.ToValidUTF8(string(b), "\uFFFD")
		return stored[u]
	}
	var st pageState
	var steps []string
	cause := "" // the last thing the user did
	do := func(what string, cmd map[string]any) {
		steps = append(steps, what)
		c.Log("%s", what)
		st = br.do(c, cmd)
		if len(st.Errors) > 0 {
			for _, e := range st.Errors {
				if lacking.MatchString(e) { // perhaps something the document model lacks
					c.Stop("page error: " + e)
				}
			}
			c.Fail("page error", "after %s the page reports %v", what, st.Errors)
		}
		if len(st.Foreign) > 0 {
			c.Fail("text as markup", "after %s the page turns text into the elements %v", what, st.Foreign)
		}
	}
	reply := func() {
		i := c.R.IntN(len(st.Open))
		if i > 0 {
			c.Count("replies out of order", 1)
		}
		r := st.Open[i]
		c.Count("replies", 1)
		do(fmt.Sprintf("reply to %s", r.URL), map[string]any{"reply": r.N, "status": 200, "text": fetch(r.URL)})
	}
	button := func() string { return strings.TrimSpace(st.Text["appendSnapshotBtn"]) }
	selection := func() (*webCar, int) {
		car := site.cars[st.Value["carSelect"]]
		n, err := strconv.Atoi(st.Value["patchSelect"])
		if car == nil || err != nil || n < 1 || n > len(car.docs) {
			c.Fail("selection", "car %q and patch %q are selected", st.Value["carSelect"], st.Value["patchSelect"])
		}
		return car, n
	}
	shows := func(id, want, what string) {
		if got := st.Text[id]; squeeze(got) != squeeze(strings.ToValidUTF8(want, "\uFFFD")) {
			c.Fail("wrong "+id, "%s shows %s, %s is %s", id, trim(got, 700), what, trim(want, 700))
		}
	}
	showsDoc := func(id string, car *webCar, n int) {
		got, err := readTson(st.Text[id])
		if err != nil {
			c.Fail("wrong "+id, "%s shows no document: %v: %s", id, err, trim(st.Text[id], 500))
		}
		if d := diffDoc(got, car.docs[n-1], true); d != "" {
			c.Fail("wrong "+id, "%s does not show document %d of car %d: %s: it shows %s", id, n, car.n, d, trim(st.Text[id], 500))
		}
		c.Count(map[string]string{"result": "results shown", "snapshotView": "snapshots shown again"}[id], 1)
	}
	saved := map[string]bool{}
	settled := func() {
		for i := 0; len(st.Open) > 0; i++ {
			if i > 300 {
				c.Fail("no rest", "the page keeps making requests: %v", st.Open)
			}
			reply()
		}
		car, n := selection()
		shows("view", string(car.first), fmt.Sprintf("the first document of car %d", car.n))
		shows("patch", string(car.patches[n]), fmt.Sprintf("patch file %d of car %d", n, car.n))
		c.Count("settled views", 1)
		if button() == "Snapshot" {
			showsDoc("result", car, n)
		} else if cause == "append" {
			c.Fail("no result", "after the append button was pressed and answered, the button is %q", button())
		}
	}
	snapshots := func() {
		for _, name := range st.Options["snapshotSelect"] {
			if m := snapshotName.FindStringSubmatch(name); m != nil && !saved[name] {
				c.Fail("snapshot appeared", "the snapshot %q is listed but was not saved", name)
			}
		}
	}
	pickCar := func() {
		if len(st.Open) > 0 {
			c.Count("selections while replies are due", 1)
		}
		if c.R.IntN(2) == 0 {
			v := pick(c.R, st.Options["carSelect"])
			cause = "selection"
			do("select car "+v, map[string]any{"select": "carSelect", "value": v})
			return
		}
		v := pick(c.R, st.Options["patchSelect"])
		cause = "selection"
		do("select patch "+v, map[string]any{"select": "patchSelect", "value": v})
	}
	snapshotOf := func(car *webCar, n int) string {
		for _, name := range st.Options["snapshotSelect"] {
			if m := snapshotName.FindStringSubmatch(name); m != nil && m[1] == strconv.Itoa(car.n) && m[2] == strconv.Itoa(n-1) {
				return name
			}
		}
		return ""
	}

	do("load", map[string]any{"load": site.html})
	if len(st.Options["carSelect"]) == 0 || len(st.Options["patchSelect"]) == 0 {
		c.Fail("no selection", "the page offers the cars %v and patches %v", st.Options["carSelect"], st.Options["patchSelect"])
	}
	if c.R.IntN(3) > 0 {
		settled()
	}
	hasty := 1 + c.R.IntN(4) // how much is done while replies are due
	for i := 6 + c.R.IntN(30); i > 0; i-- {
		switch c.R.IntN(7) {
		case 0, 1:
			pickCar()
		case 2, 3:
			was := button()
			if was == "Snapshot" {
				// The result is on display: save it
				if len(st.Open) > 0 && c.R.IntN(2) == 0 {
					settled()
				}
				if button() != "Snapshot" {
					continue
				}
				car, n := selection()
				cause = "snapshot"
				do("press Snapshot", map[string]any{"click": "appendSnapshotBtn"})
				name := snapshotOf(car, n)
				if name == "" {
					c.Fail("snapshot not saved", "the snapshot of car %d, patch %d is not listed: %v", car.n, n-1, st.Options["snapshotSelect"])
				}
				saved[name] = true
				c.Count("snapshots saved", 1)
				if st.Value["snapshotSelect"] != name {
					c.Fail("snapshot not selected", "the snapshot %q was saved but %q is selected", name, st.Value["snapshotSelect"])
				}
				showsDoc("snapshotView", car, n)
				continue
			}
			if cause == "append" && len(st.Open) > 0 {
				cause = "impatient" // pressed again while the reply is due
			} else {
				cause = "append"
			}
			do("press "+was, map[string]any{"click": "appendSnapshotBtn"})
			if button() == "Append" && c.R.IntN(2) == 0 {
				settled()
			}
		case 4:
			if o := st.Options["snapshotSelect"]; len(o) > 0 {
				name := pick(c.R, o)
				m := snapshotName.FindStringSubmatch(name)
				if m == nil {
					continue
				}
				do("select snapshot "+name, map[string]any{"select": "snapshotSelect", "value": name})
				n, _ := strconv.Atoi(m[2])
				car := site.cars[m[1]]
				if car == nil || n+1 > len(car.docs) {
					c.Fail("snapshot name", "the snapshot %q is listed", name)
				}
				showsDoc("snapshotView", car, n+1)
			}
		default:
			for k := c.R.IntN(hasty + 1); k > 0 && len(st.Open) > 0; k-- {
				reply()
			}
		}
		// A snapshot may have been saved by pressing a button that said otherwise
		for _, name := range st.Options["snapshotSelect"] {
			if m := snapshotName.FindStringSubmatch(name); m != nil && !saved[name] && cause == "impatient" {
				saved[name] = true
			}
		}
		snapshots()
		if c.R.IntN(6) == 0 {
			settled()
		}
	}
	settled()
	for _, name := range st.Options["snapshotSelect"] {
		if m := snapshotName.FindStringSubmatch(name); m != nil {
			do("select snapshot "+name, map[string]any{"select": "snapshotSelect", "value": name})
			n, _ := strconv.Atoi(m[2])
			if car := site.cars[m[1]]; car != nil && n+1 <= len(car.docs) {
				showsDoc("snapshotView", car, n+1)
			}
		}
	}
	c.Key(strings.Join(steps, "\n"))
	c.Sample(map[string]any{"steps": len(steps), "snapshots": len(saved), "last": steps[max(0, len(steps)-8):]})
}
