module github.com/CAU-CPSS/logument/verifharness

go 1.23.5

require (
	github.com/CAU-CPSS/logument v0.0.0
	github.com/appscode/jsonpatch v1.0.1 // indirect
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/mitchellh/colorstring v0.0.0-20190213212951-d06e56a500db // indirect
	github.com/rivo/uniseg v0.4.7 // indirect
	github.com/schollz/progressbar/v3 v3.18.0 // indirect
	golang.org/x/sys v0.30.0 // indirect
	golang.org/x/term v0.29.0 // indirect
)

replace github.com/CAU-CPSS/logument => /repo
