package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
)

// describe prints a data set with its types, keys in order.
func describe(v any) string {
	var b strings.Builder
	var visit func(v any)
	visit = func(v any) {
		switch v := v.(type) {
		case map[string]any:
			b.WriteByte('{')
			for _, k := range sortedKeys(v) {
				fmt.Fprintf(&b, "%q:", k)
				visit(v[k])
				b.WriteByte(',')
			}
			b.WriteByte('}')
		case []any:
			b.WriteByte('[')
			for _, e := range v {
				visit(e)
				b.WriteByte(',')
			}
			b.WriteByte(']')
		case string:
			b.WriteString(strconv.Quote(v))
		default:
			fmt.Fprintf(&b, "%v %T", v, v)
		}
	}
	visit(v)
	return b.String()
}

// output gives what f prints to the standard output.
func output(c *Ctx, what string, f func()) string {
	file, err := os.CreateTemp(c.Scratch, "out")
	if err != nil {
		panic(err)
	}
	defer os.Remove(file.Name())
	defer file.Close()
	stdout := os.Stdout
	os.Stdout = file
	defer func() { os.Stdout = stdout }()
	c.Must(what, f)
	b, err := os.ReadFile(file.Name())
	if err != nil {
		panic(err)
	}
	return string(b)
}
