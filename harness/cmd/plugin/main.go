// Command plugin is a Hiera plugin used by the monitors. It records every call it receives, and that it was started
// and stopped, in the file named by the environment variable HV_PLUGIN_LOG (when set).
package main

import (
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"os"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hierasdk/hiera"
	"github.com/lyraproj/hierasdk/plugin"
	"github.com/lyraproj/hierasdk/register"
	"github.com/lyraproj/hierasdk/routes"

	"hv/fns"
)

var lock sync.Mutex

func record(kind, name, text string) {
	lock.Lock()
	defer lock.Unlock()
	fn := os.Getenv("HV_PLUGIN_LOG")
	if fn == "" {
		return
	}
	f, err := os.OpenFile(fn, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		return
	}
	b, _ := json.Marshal(map[string]interface{}{"pid": os.Getpid(), "exe": os.Args[0], "kind": kind, "name": name, "text": text})
	_, _ = f.Write(append(b, '\n'))
	_ = f.Close()
}

// behave performs the side effects asked for by the options of the entry
func behave(pc hiera.ProviderContext) {
	if ms, ok := pc.IntOption("sleep"); ok {
		time.Sleep(time.Duration(ms) * time.Millisecond)
	}
	if s, ok := pc.StringOption("panic"); ok {
		panic(s)
	}
	if s, ok := pc.StringOption("stderr"); ok {
		fmt.Fprintln(os.Stderr, s)
	}
	if s, ok := pc.StringOption("stdout"); ok {
		fmt.Fprintln(os.Stdout, s)
	}
	if _, ok := pc.BoolOption("die"); ok {
		os.Exit(3)
	}
}

func data(pc hiera.ProviderContext) dgo.Map {
	m, ok := pc.Option("data").(dgo.Map)
	if !ok {
		m = vf.Map()
	}
	if _, ok := pc.BoolOption("echo"); ok {
		m = m.Merge(vf.Map("echo", pc.OptionsMap()))
	}
	return m
}

// startLog records the start in a file in the directory of the plugin
func startLog() {
	fn := filepath.Join(filepath.Dir(os.Args[0]), "starts.log")
	if _, err := os.Stat(fn); err != nil {
		return
	}
	if f, err := os.OpenFile(fn, os.O_APPEND|os.O_WRONLY, 0644); err == nil {
		fmt.Fprintf(f, "%d %s %s %d\n", os.Getpid(), filepath.Base(os.Args[0]), os.Getenv("HIERA_PLUGIN_SOCKET_DIR"), os.Getppid())
		_ = f.Close()
	}
}

// stubborn serves as a plugin that never reacts on a request to terminate
func stubborn() {
	signal.Ignore(syscall.SIGINT, syscall.SIGTERM)
	l, err := net.Listen("unix", filepath.Join(os.Getenv("HIERA_PLUGIN_SOCKET_DIR"), fmt.Sprintf("stubborn-%d", os.Getpid())))
	if err != nil {
		panic(err)
	}
	h, functions := routes.Register()
	streamer.New(nil, nil).Stream(vf.Map("version", hiera.ProtoVersion, "network", "unix", "address", l.Addr().String(),
		"functions", functions), streamer.JSON(os.Stdout))
	panic(http.Serve(l, h))
}

func main() {
	tabs := findTables()
	register.DataHash("hv_hash", func(pc hiera.ProviderContext) dgo.Map {
		if tabs != nil {
			return tabs.hash(pc)
		}
		record("data_hash", "hv_hash", pc.OptionsMap().String())
		behave(pc)
		return data(pc)
	})
	register.LookupKey("hv_key", func(pc hiera.ProviderContext, key string) dgo.Value {
		if tabs != nil {
			return tabs.key(pc, key)
		}
		record("lookup_key", "hv_key", key+" "+pc.OptionsMap().String())
		behave(pc)
		if key == "the_key" {
			return vf.String(key)
		}
		return data(pc).Get(key)
	})
	register.LookupKey("hv_echo", func(pc hiera.ProviderContext, key string) dgo.Value {
		record("lookup_key", "hv_echo", key+" "+pc.OptionsMap().String())
		behave(pc)
		if key == "lookup_options" {
			return nil
		}
		return vf.Map("key", key, "options", pc.OptionsMap())
	})
	register.DataDig("hv_dig", func(pc hiera.ProviderContext, key dgo.Array) dgo.Value {
		if tabs != nil {
			return tabs.dig(pc, key)
		}
		record("data_dig", "hv_dig", key.String()+" "+pc.OptionsMap().String())
		behave(pc)
		var v dgo.Value = data(pc)
		for i := 0; i < key.Len(); i++ {
			m, ok := v.(dgo.Map)
			if !ok {
				return nil
			}
			v = m.Get(key.Get(i))
		}
		return v
	})
	// tells which executable this is
	register.LookupKey("hv_exe", func(_ hiera.ProviderContext, key string) dgo.Value {
		switch key {
		case "who":
			return vf.String(os.Args[0])
		case "pid":
			return vf.Integer(int64(os.Getpid()))
		}
		return nil
	})
	// functions with the same name, of different kinds
	register.DataHash("hv_same", func(pc hiera.ProviderContext) dgo.Map {
		return vf.Map("h", "data_hash")
	})
	register.LookupKey("hv_same", func(pc hiera.ProviderContext, key string) dgo.Value {
		if key == "k" {
			return vf.String("lookup_key")
		}
		return nil
	})
	register.DataDig("hv_same", func(pc hiera.ProviderContext, key dgo.Array) dgo.Value {
		if key.Get(0).Equals("d") {
			return vf.String("data_dig")
		}
		return nil
	})
	register.DataHash("hv_two", func(pc hiera.ProviderContext) dgo.Map {
		return vf.Map("h", "data_hash")
	})
	register.LookupKey("hv_two", func(pc hiera.ProviderContext, key string) dgo.Value {
		if key == "k" {
			return vf.String("lookup_key")
		}
		return nil
	})
	register.DataHash("fn_hash", fns.Hash)
	register.LookupKey("fn_key", fns.Key)
	register.DataDig("fn_dig", fns.Dig)
	if s := os.Getenv("HV_PLUGIN_START_DELAY"); s != "" {
		ms, _ := strconv.Atoi(s)
		time.Sleep(time.Duration(ms) * time.Millisecond)
	}
	record("start", "", os.Getenv("HIERA_PLUGIN_SOCKET_DIR"))
	startLog()
	if strings.HasPrefix(filepath.Base(os.Args[0]), "stubborn") {
		stubborn()
	}
	plugin.ServeAndExit()
}
