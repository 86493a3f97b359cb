// Command talker is a Hiera plugin that writes on its standard error and output what the file beside it, named as the
// program with ".json" added, tells. It also writes, in files named in the same way, what it wrote (".said") and how it was
// started (".env").
package main

import (
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"os"
	"os/signal"
	"path/filepath"
	"sync"
	"syscall"
	"time"
)

// A Part is what is written at one time
type Part struct {
	Out    bool     // to the standard output
	Chunks [][]byte // written one by one
	Pause  int      // milliseconds between them
	Fill   int      // writes this many bytes more, as lines of noise, on the standard output
}

// A Script tells what to do
type Script struct {
	Mode             string // serve, stubborn, exit, hang, garbage or meta
	Meta             string // announced instead of the truth
	Start, Idle, End []Part
	Calls            map[string][]Part
	Die              string // the call that ends the process
}

var lock sync.Mutex

func perform(ps []Part) {
	for _, p := range ps {
		lock.Lock()
		f := os.Stderr
		if p.Out {
			f = os.Stdout
		} else {
			said, err := os.OpenFile(os.Args[0]+".said", os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
			if err != nil {
				panic(err)
			}
			for _, c := range p.Chunks {
				_, _ = said.Write(c)
			}
			_ = said.Close()
		}
		for i, c := range p.Chunks {
			if i > 0 && p.Pause > 0 {
				time.Sleep(time.Duration(p.Pause) * time.Millisecond)
			}
			_, _ = f.Write(c)
		}
		for n := 0; n < p.Fill; n += 64 {
			_, _ = f.Write([]byte("noise noise noise noise noise noise noise noise noise noise nois\n"))
		}
		lock.Unlock()
	}
}

// endLine ends the last line of what the previous process of this plugin wrote
func endLine() {
	bs, err := os.ReadFile(os.Args[0] + ".said")
	if err == nil && len(bs) > 0 && bs[len(bs)-1] != '\n' {
		err = os.WriteFile(os.Args[0]+".said", append(bs, '\n'), 0644)
	}
	if err != nil && !os.IsNotExist(err) {
		panic(err)
	}
}

func main() {
	signal.Ignore(syscall.SIGPIPE)
	sig := make(chan os.Signal, 10)
	signal.Notify(sig, syscall.SIGINT)
	bs, err := os.ReadFile(os.Args[0] + ".json")
	if err != nil {
		panic(err)
	}
	s := &Script{}
	if err = json.Unmarshal(bs, s); err != nil {
		panic(err)
	}
	cwd, _ := os.Getwd()
	bs, _ = json.Marshal(map[string]interface{}{"args": os.Args, "env": os.Environ(), "cwd": cwd})
	if err = os.WriteFile(os.Args[0]+".env", bs, 0644); err != nil {
		panic(err)
	}
	endLine()
	perform(s.Start)
	switch s.Mode {
	case "exit":
		os.Exit(3)
	case "hang":
		select {}
	case "garbage", "meta":
		fmt.Println(s.Meta)
		time.Sleep(time.Hour)
	}
	network, address := "tcp", "127.0.0.1:0"
	if os.Getenv("HIERA_PLUGIN_TRANSPORT") == "unix" {
		network, address = "unix", filepath.Join(os.Getenv("HIERA_PLUGIN_SOCKET_DIR"), fmt.Sprintf("talker-%d", os.Getpid()))
	}
	l, err := net.Listen(network, address)
	if err != nil {
		panic(err)
	}
	ended := make(chan bool)
	go func() {
		for range sig {
			if s.Mode != "stubborn" {
				perform(s.End)
				lock.Lock() // nothing more is written
				close(ended)
				return
			}
		}
	}()
	meta, _ := json.Marshal(map[string]interface{}{"version": 1, "network": network, "address": l.Addr().String(),
		"functions": map[string]interface{}{"lookup_key": []string{"talk"}}})
	fmt.Println(string(meta))
	go perform(s.Idle)
	go func() {
		panic(http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			k := r.URL.Query().Get("key")
			ps, ok := s.Calls[k]
			if !ok {
				http.NotFound(w, r)
				return
			}
			perform(ps)
			if k == s.Die {
				lock.Lock()
				_ = os.Remove(address)
				os.Exit(4)
			}
			bs, _ := json.Marshal("value of " + k)
			_, _ = w.Write(bs)
		})))
	}()
	<-ended
	if network == "unix" {
		_ = os.Remove(address)
	}
}
