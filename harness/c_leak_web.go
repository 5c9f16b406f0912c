//go:build vss

package main

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net/http"
	"os"
	"path/filepath"
	"sync"
)

func init() {
	chores["requests"] = chore{n: 60, rare: 37, set: choreRequests, at: func(c *Ctx) observer { return server(c) }}
}

// choreRequests asks the demo server, from several clients.
func choreRequests(c *Ctx) (string, func()) {
	s := server(c)
	var cars []*webCar
	for i := 0; i < 3; i++ {
		cars = append(cars, makeCar(c, s.nextCar, 2+c.R.IntN(12), 0))
		s.nextCar++
		s.place(cars[i])
		s.traps(cars[i])
	}
	return cars[0].text, func() {
		var wg sync.WaitGroup
		for k := 0; k < 3; k++ {
			r := rand.New(rand.NewPCG(c.R.Uint64(), uint64(k)))
			wg.Add(1)
			go func() {
				defer wg.Done()
				_, _ = s.request(r, cars)
				_, _, _ = s.get(pick(r, []string{"/", "/none", "/update", "/patch", fmt.Sprint("/x", r.IntN(1000000))}), nil)
			}()
		}
		wg.Wait()
		c.Count("requests", 6)
	}
}

func (s *webServer) stats(what string) (n [4]int) {
	addr, err := os.ReadFile(filepath.Join(filepath.Dir(s.dir), "addr.stats"))
	if err != nil {
		fatal("%v", err)
	}
	s.client.CloseIdleConnections()
	client := http.Client{Transport: &http.Transport{DisableKeepAlives: true}}
	r, err := client.Get("http://" + string(addr) + what)
	if err != nil {
		fatal("%v: %s", err, s.output())
	}
	defer r.Body.Close()
	if err := json.NewDecoder(r.Body).Decode(&n); err != nil {
		fatal("%v", err)
	}
	return n
}

func (s *webServer) measure() usage {
	n := s.stats("/")
	return usage{uint64(n[0]), uint64(n[1]), n[2]}
}

func (s *webServer) count() int { return s.stats("/count")[3] }

func (s *webServer) settled() (usage, int) {
	n := s.stats("/count")
	return usage{goroutines: n[2]}, n[3]
}
