package main

import (
	"encoding/json"
	"io"
	"net"
	"net/http"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"testing"
	"time"
)

// TestMain runs the demo program with the command line VERIF_CLI_ARGS (JSON)
// in the directory VERIF_CLI_DIR, if asked to.
func TestMain(m *testing.M) {
	dir := os.Getenv("VERIF_CLI_DIR")
	if dir == "" {
		os.Exit(m.Run())
	}
	var args []string
	if err := json.Unmarshal([]byte(os.Getenv("VERIF_CLI_ARGS")), &args); err != nil {
		os.Exit(98)
	}
	if err := os.Chdir(dir); err != nil {
		os.Exit(98)
	}
	os.Args = append(os.Args[:1:1], args...)
	WebDemo()
	os.Exit(0)
}

// TestVerifWeb runs the demo server in the directory VERIF_WEB_DIR, on a free
// port that it writes to VERIF_WEB_ADDR, until its input ends.
func TestVerifWeb(t *testing.T) {
	dir, file := os.Getenv("VERIF_WEB_DIR"), os.Getenv("VERIF_WEB_ADDR")
	if dir == "" {
		t.Skip("not asked to")
	}
	if err := os.Chdir(dir); err != nil {
		t.Fatal(err)
	}
	go func() {
		io.Copy(io.Discard, os.Stdin)
		os.Exit(0)
	}()
	os.Args = os.Args[:1]
	go WebDemo()

	known := func(path string) bool {
		r, _ := http.NewRequest("GET", "http://x"+path, nil)
		_, pattern := http.DefaultServeMux.Handler(r)
		return pattern != "" && pattern != "/"
	}
	addr := ""
	for i := 0; i < 600 && addr == ""; i++ {
		if known("/update") && known("/patch") {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				t.Fatal(err)
			}
			go http.Serve(l, nil)
			addr = l.Addr().String()
			break
		}
		time.Sleep(100 * time.Millisecond)
		if i > 50 { // perhaps with handlers of its own
			if c, err := net.Dial("tcp", "127.0.0.1:8080"); err == nil {
				c.Close()
				addr = "127.0.0.1:8080"
			}
		}
	}
	if addr == "" {
		t.Fatal("the server does not start")
	}
	if stats, err := net.Listen("tcp", "127.0.0.1:0"); err == nil {
		populate()
		go http.Serve(stats, http.HandlerFunc(usage))
		_ = os.WriteFile(file+".stats", []byte(stats.Addr().String()), 0o644)
	}
	if err := os.WriteFile(file+".new", []byte(addr), 0o644); err != nil {
		t.Fatal(err)
	}
	if err := os.Rename(file+".new", file); err != nil {
		t.Fatal(err)
	}
	select {}
}

// usage tells what the process holds: after garbage collection, or
// (count) just the open files, with garbage collection off from then on.
func usage(w http.ResponseWriter, r *http.Request) {
	var m runtime.MemStats
	if r.URL.Path == "/count" {
		debug.SetGCPercent(-1) // files left open stay so
	} else {
		debug.SetGCPercent(100)
		for i := 0; i < 3; i++ {
			runtime.GC()
		}
		runtime.ReadMemStats(&m)
	}
	files, _ := os.ReadDir("/proc/self/fd")
	json.NewEncoder(w).Encode([]uint64{m.Mallocs - m.Frees, m.HeapAlloc, uint64(runtime.NumGoroutine()), uint64(len(files))})
}

// populate lets the runtime make the threads and goroutines it keeps for
// later use, for them not to be counted when they turn up one by one.
func populate() {
	var all sync.WaitGroup
	gate := make(chan bool)
	for i := 0; i < 2000; i++ {
		all.Add(1)
		go func() {
			defer all.Done()
			if i < 40 {
				runtime.LockOSThread()
				defer runtime.UnlockOSThread()
			}
			<-gate
		}()
	}
	time.Sleep(100 * time.Millisecond)
	close(gate)
	all.Wait()
}
