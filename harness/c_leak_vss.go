//go:build vss

package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/CAU-CPSS/logument/internal/vssgen"
)

func init() {
	chores["data sets"] = chore{n: 24, set: choreDataSets}
}

func choreDataSets(c *Ctx) (string, func()) {
	return fmt.Sprint(c.R.IntN(1000)), func() {
		file, _ := schema(c)
		for i := 0; file == realSchema && i < 4; i++ { // a small one
			file, _ = schema(c)
		}
		v := vssgen.NewVssJson(file).Generate(pick(c.R, []float64{1, 0.5}), c.R.IntN(10))
		for i := 0; i < 2; i++ {
			v, _ = v.GenerateNext(0.5, 0.2, 1, i)
		}
		v.LeafNodes()
		refusal(c, func() error { _, err := v.ToMapStringInterface(); return err })
		refusal(c, func() error { _, err := v.BuildFromLeafNodes(); return err })
		dir := filepath.Join(c.Scratch, "leak")
		v.Save(filepath.Join(dir, "saved.json"))
		conf := map[string]any{"dataset": file, "cars": c.R.IntN(3), "files": 1 + c.R.IntN(3), "change_rate": 0.5, "size": 0.5}
		data := filepath.Join(dir, "data")
		vssgen.PrepareOutputDir(data)
		vssgen.SaveMetadata(conf, data)
		vssgen.Generate(conf, data)
		_ = os.RemoveAll(data)
		if file != realSchema {
			_ = os.Remove(file)
		}
	}
}
