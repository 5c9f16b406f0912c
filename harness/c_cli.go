//go:build vss

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

func init() {
	register(&property{id: "C36", quick: 320, thorough: 10000, run: runC36,
		assume: []string{"at least one document per car; schemas as for C26; the working directory is writable"},
		rule:   "one command line, valid or not, run as an unprivileged user in a scratch directory where an older data set (or none, or a link) and other files lie; every file there is compared before and after. Non-trivial and distinct: a command line that generates or is refused over an older data set, by arguments and schema",
		needs:  []string{"refused command lines", "generated data sets", "documents", "older data sets", "linked directory", "defaults", "size 0", "size 1", "change rate 0"}})
}

// cliDir holds the files of the unprivileged user who runs the program.
var cliDir string

func cliHome() string {
	if cliDir != "" {
		return cliDir
	}
	scratch, err := os.Getwd()
	if err != nil {
		fatal("%v", err)
	}
	cliDir = scratch
	return cliDir
}

type commandLine struct {
	args        []string
	refused     bool
	dataset     string
	cars, files int
	cr, size    float64
}

func flagArg(c *Ctx, name, value string) []string {
	dash := pick(c.R, []string{"-", "--"})
	if c.R.IntN(2) == 0 {
		return []string{dash + name + "=" + value}
	}
	return []string{dash + name, value}
}

func command(c *Ctx, file string, large bool) commandLine {
	l := commandLine{dataset: "internal/vssgen/vss.json", cars: c.R.IntN(4), files: 1 + c.R.IntN(5), cr: 0.2, size: 1}
	if large { // the shipped schema
		l.cars = c.R.IntN(3)
	} else {
		switch c.R.IntN(25) {
		case 0:
			l.cars, l.files = 9+c.R.IntN(30), 1+c.R.IntN(3)
		case 1:
			l.cars, l.files = 1, 9+c.R.IntN(110)
		}
	}
	if c.R.IntN(3) > 0 {
		l.dataset = file
	}
	var groups [][]string
	if l.dataset != "internal/vssgen/vss.json" || c.R.IntN(3) == 0 {
		groups = append(groups, flagArg(c, "dataset", l.dataset))
	}
	given := 0
	if c.R.IntN(2) == 0 {
		l.cr = pick(c.R, []float64{0, 1, 0.5, 0.07, 0.125, 1.0 / 3, 1e-7, c.R.Float64()})
		groups = append(groups, flagArg(c, "change_rate", strconv.FormatFloat(l.cr, 'g', -1, 64)))
		given++
	}
	if c.R.IntN(2) == 0 {
		l.size = pick(c.R, []float64{0, 1, 0, 1, 0.5, 0.123, 0.0625, 1.0 / 3, 0.999999999, 1e-9, c.R.Float64()})
		groups = append(groups, flagArg(c, "size", strconv.FormatFloat(l.size, 'g', -1, 64)))
		given++
	}
	if given < 2 {
		c.Count("defaults", 1)
	}
	cars, files := flagArg(c, "cars", strconv.Itoa(l.cars)), flagArg(c, "files", strconv.Itoa(l.files))
	if c.R.IntN(5) < 2 { // something is wrong with it
		l.refused = true
		switch c.R.IntN(9) {
		case 0:
			cars = nil
		case 1:
			files = nil
		case 2:
			cars, files = nil, nil
			if len(groups) == 0 {
				groups = append(groups, flagArg(c, "size", "0.5"))
			}
		case 3:
			cars = flagArg(c, "cars", pick(c.R, []string{"-1", "-2", "-100"}))
		case 4:
			files = flagArg(c, "files", pick(c.R, []string{"-1", "-3"}))
		case 5:
			bad := pick(c.R, []string{"", "x", "1.5", "1e2x", "99999999999999999999"})
			if c.R.IntN(2) == 0 {
				cars = []string{"-cars=" + bad}
			} else {
				files = []string{"-files=" + bad}
			}
		case 6:
			groups = append(groups, flagArg(c, pick(c.R, []string{"size", "change_rate"}), pick(c.R, []string{"abc", "0,5", "1.2.3"})))
		case 7:
			groups = append(groups, []string{pick(c.R, []string{"-unknown=1", "--car=2", "-Cars=2"})})
		case 8: // an argument that belongs to nothing ends the settings
			groups = append(groups, cars)
			cars = nil
			c.R.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })
			for _, g := range append(groups, []string{"stray"}, files) {
				l.args = append(l.args, g...)
			}
			return l
		}
	}
	for _, g := range [][]string{cars, files} {
		if g != nil {
			groups = append(groups, g)
		}
	}
	c.R.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })
	for _, g := range groups {
		l.args = append(l.args, g...)
	}
	return l
}

func files(dir string, names map[string]string) {
	for n, text := range names {
		p := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			fatal("%v", err)
		}
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			fatal("%v", err)
		}
	}
}

func runC36(c *Ctx) {
	home := cliHome()
	file, sigs := schema(c)
	beside := pick(c.R, []string{"beside/schema.json", "beside/schema.json", "beside/with space/sch=ema", "beside/été/-x.json"})
	given := filepath.Join(home, fmt.Sprintf("work%d", c.Index), beside)
	if c.R.IntN(3) == 0 {
		given = "../" + beside
	}
	l := command(c, given, file == realSchema)
	text, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	work := filepath.Join(home, fmt.Sprintf("work%d", c.Index))
	defer os.RemoveAll(work)
	site := filepath.Join(work, "site")
	files(work, map[string]string{
		beside: string(text), "site/internal/vssgen/vss.json": string(text),
		"beside/kept.txt": "kept", "site/kept.txt": "kept", "site/dataset.txt": "kept", "site/dataset2/car_1/tson/1_1.tson": "{}",
		"site/.hidden": "kept", "dataset/kept.txt": "kept", "site/internal/dataset/kept.txt": "kept", "site/car_1/kept.txt": "kept",
	})
	old := map[string]string{}
	switch c.R.IntN(5) {
	case 0: // nothing there
	case 1: // a link to elsewhere
		files(work, map[string]string{"beside/target/kept.txt": "kept", "beside/target/car_1/tson/1_1.tson": "{}"})
		if err := os.Symlink("../beside/target", filepath.Join(site, "dataset")); err != nil {
			fatal("%v", err)
		}
		c.Count("linked directory", 1)
	default:
		old["metadata.json"] = `{"cars": 77}`
		for i := 1 + c.R.IntN(4); i > 0; i-- {
			for j := 1 + c.R.IntN(7); j > 0; j-- {
				old[fmt.Sprintf("car_%d/tson/%d_%d.tson", i, i, j)] = strings.Repeat("old ", 5000*c.R.IntN(2)+1)
				old[fmt.Sprintf("car_%d/patches/%d_%d.json", i, i, j)] = "old"
			}
		}
		for _, f := range []string{".hidden", "car_1/extra", "deep/er/file", "car_1/tson/1_1.tson.bak"} {
			if c.R.IntN(3) == 0 {
				old[f] = "old"
			}
		}
		files(filepath.Join(site, "dataset"), old)
		if c.R.IntN(3) == 0 { // a link inside it
			_ = os.Symlink("../../beside", filepath.Join(site, "dataset", "out"))
		}
		c.Count("older data sets", 1)
	}
	before := everything(work)

	c.Log("arguments %q, schema %s", l.args, trim(string(text), 500))
	args, _ := json.Marshal(l.args)
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, asset("web.test"))
	cmd.Dir = site
	cmd.Env = []string{"VERIF_CLI_DIR=" + site, "VERIF_CLI_ARGS=" + string(args), "HOME=" + work, "PATH=/usr/bin:/bin", "GOTRACEBACK=single"}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &capped{buf: &out}, &capped{buf: &out}
	err = cmd.Run()
	code := 0
	var exit *exec.ExitError
	switch {
	case err == nil:
	case errors.As(err, &exit):
		code = exit.ExitCode()
	default:
		fatal("the program cannot be run: %v", err)
	}
	if ctx.Err() != nil {
		c.Fail("no end", "the command %q does not end in 120 s: %s", l.args, trim(out.String(), 500))
	}
	if code == 98 {
		fatal("the program cannot be run: %s", out.String())
	}
	after := everything(work)
	said := out.String()
	if i := strings.Index(said, "panic:"); i >= 0 && code != 0 {
		c.Fail("panic", "the command %q panics: %s", l.args, trim(said[i:], 600))
	}
	if l.refused {
		if code == 0 {
			c.Fail("not refused", "the command %q is carried out", l.args)
		}
		if !strings.Contains(said, "-cars") || !strings.Contains(said, "-files") {
			c.Fail("no usage", "the command %q is refused without a usage message: %s", l.args, trim(said, 300))
		}
		if d := treeDiff(before, after, func(string) bool { return false }); d != "" {
			c.Fail("refused but effective", "the refused command %q changed files: %s", l.args, d)
		}
		c.Count("refused command lines", 1)
		if len(old) > 0 {
			c.Key(args, text)
		}
		return
	}
	if code != 0 {
		c.Fail("refused", "the command %q is refused: %s", l.args, trim(said, 600))
	}
	if d := treeDiff(before, after, func(k string) bool { return k == "site/dataset" || strings.HasPrefix(k, "site/dataset/") }); d != "" {
		c.Fail("outside touched", "the command %q changed files outside the output directory: %s", l.args, d)
	}
	want := map[string]bool{"metadata.json": true}
	for i := 1; i <= l.cars; i++ {
		for j := 1; j <= l.files; j++ {
			want[fmt.Sprintf("car_%d/tson/%d_%d.tson", i, i, j)] = true
			want[fmt.Sprintf("car_%d/patches/%d_%d.json", i, i, j)] = true
		}
	}
	for k := range after {
		rel, ok := strings.CutPrefix(k, "site/dataset/")
		if !ok || strings.HasSuffix(k, "/") {
			continue
		}
		if !want[rel] {
			c.Fail("left over", "%q leaves %s in the output directory", l.args, rel)
		}
		delete(want, rel)
	}
	if len(want) > 0 {
		c.Fail("missing", "%q does not write %s", l.args, sortedKeys(want)[0])
	}
	var meta map[string]any
	if err := json.Unmarshal([]byte(after["site/dataset/metadata.json"]), &meta); err != nil {
		c.Fail("metadata", "the metadata cannot be read: %v", err)
	}
	settings := map[string]any{"dataset": l.dataset, "cars": float64(l.cars), "files": float64(l.files), "change_rate": l.cr, "size": l.size}
	for k, v := range settings {
		if meta[k] != v {
			c.Fail("metadata wrong", "%q: the metadata says %v, expected %v", l.args, meta, settings)
		}
	}
	c.Count("generated data sets", 1)
	leaves := 0
	for i := 1; i <= l.cars; i++ {
		var prev *Doc
		for j := 1; j <= l.files; j++ {
			name := fmt.Sprintf("car_%d/tson/%d_%d.tson", i, i, j)
			doc := readDocument(c, filepath.Join(site, "dataset", name))
			c.Count("documents", 1)
			for _, s := range sigs {
				n := doc.at(s.path)
				there := n != nil && n.K != 'o'
				if l.size == 1 && !there || l.size == 0 && there {
					c.Fail("size ignored", "%q: at size %g, %v in %s is %v", l.args, l.size, s.path, name, n)
				}
			}
			doc.walk(nil, func(_ []string, n *Doc) {
				if n.leaf() {
					leaves++
				}
			})
			if l.cr == 0 && j > 1 {
				if d := diffDoc(doc, prev, false); d != "" {
					c.Fail("change rate ignored", "%q: at change rate 0, %s differs from the document before %s", l.args, name, d)
				}
			}
			prev = doc
		}
	}
	if l.cars > 0 {
		switch l.size {
		case 0:
			c.Count("size 0", 1)
		case 1:
			c.Count("size 1", 1)
		}
		if l.cr == 0 && l.files > 1 {
			c.Count("change rate 0", 1)
		}
	}
	if leaves > 0 {
		c.Key(args, text)
		c.Sample(map[string]any{"arguments": l.args, "documents": l.cars * l.files, "leaves": leaves})
	}
}
