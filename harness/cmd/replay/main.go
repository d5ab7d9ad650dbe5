// replay runs harnesses natively on input vectors read from stdin.
//
//	replay HARNESS REPETITIONS
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"

	tlog "github.com/akm/tparser/log"
	"tpharness/h"
	"tpharness/sv"
)

type quiet struct{}

func (quiet) Printf(string, ...interface{}) {}

type result struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func once(f func(), v []sv.Ent) (res result) {
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(sv.Stop); ok {
				res = result{s.Status, s.Msg, sv.Obs}
				return
			}
			st := strings.Split(string(debug.Stack()), "\n")
			where := ""
			for i, l := range st {
				if strings.HasPrefix(l, "panic(") {
					for _, x := range st[i+2:] {
						if strings.Contains(x, "github.com/akm/tparser") {
							where = strings.TrimSpace(x)
							break
						}
					}
					break
				}
			}
			res = result{"panic", fmt.Sprintf("%v in %s", e, where), sv.Obs}
		}
	}()
	sv.Begin(v)
	f()
	return result{"ok", "", sv.Obs}
}

func main() {
	if len(os.Args) < 3 {
		fmt.Println("usage: replay HARNESS REPS")
		os.Exit(2)
	}
	f := h.Registry[os.Args[1]]
	if f == nil {
		fmt.Println("unknown harness", os.Args[1])
		os.Exit(2)
	}
	reps, _ := strconv.Atoi(os.Args[2])
	tlog.SetLogger(quiet{})
	debug.SetMaxStack(64 << 20)
	limitMemory()
	var made []string
	sv.Put = func(p string, data []byte) {
		if filepath.IsAbs(p) || strings.Contains(p, "..") {
			panic("file outside the scratch directory")
		}
		if d := filepath.Dir(p); d != "." {
			os.MkdirAll(d, 0o755)
		}
		ioutil.WriteFile(p, data, 0o644)
		made = append(made, p)
	}
	// the code under test may print; keep the protocol on a private descriptor
	fd, _ := syscall.Dup(1)
	out := bufio.NewWriter(os.NewFile(uintptr(fd), "out"))
	if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = n
	}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var v []sv.Ent
		if err := json.Unmarshal(sc.Bytes(), &v); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var r result
		for i := 0; i < reps; i++ {
			r = once(f, v)
			for _, p := range made {
				os.Remove(p)
			}
			made = nil
			if r.Status != "ok" {
				break
			}
		}
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
