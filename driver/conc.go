package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/spf13/afero"
)

// concJob lets clients call one file system at the same time
type concJob struct {
	HistJob          // Ops is what has been called before
	Clients   [][]Op `json:"clients"`
	Delay     int    `json:"delay"` // Microseconds, at most, at a seam
	DelayRate int    `json:"delayrate"`
}

// ccall is one call of a client
type ccall struct {
	C      int      `json:"c"`
	Op     string   `json:"op"`
	O      J        `json:"o"`
	E      string   `json:"e"`
	D      string   `json:"d"`
	RC     []int    `json:"rc"` // What has been read
	LN     []string `json:"ln"` // What has been listed
	SK     string   `json:"sk"` // Kind and size of what Stat returned
	SN     int64    `json:"sn"`
	Ret    int      `json:"ret"` // When it returned, as compared to the others
	t0, t1 int64
}

func init() {
	runners["conc"] = func(raw json.RawMessage) (J, error) {
		var j concJob
		if err := json.Unmarshal(raw, &j); err != nil {
			return nil, err
		}
		w, err := NewWorld(j.Cfg)
		if err != nil {
			return nil, err
		}
		defer w.Close()
		r := j.rec()
		// Nothing here may order what the clients do, so there are neither locks nor shared counters. The functions of
		// math/rand are per-thread as long as there is no seed.
		w.Seams = &Seams{}
		if j.DelayRate > 0 {
			w.Seams.Hook = func(string) error {
				switch n := rand.Intn(100); {
				case n < j.DelayRate/2:
					runtime.Gosched()
				case n < j.DelayRate:
					time.Sleep(time.Duration(rand.Intn(j.Delay)) * time.Microsecond)
				}
				return nil
			}
		}
		if err := w.Open(); err != nil {
			return J{"fail": "initialize: " + err.Error()}, nil
		}
		base := time.Now()
		for i, o := range j.Ops {
			if res := w.Do(r, o, j.style(i)); res.E != "ok" || res.EW != "ok" || res.EC != "ok" {
				return J{"fail": "setup", "detail": fmt.Sprint(opJSON(o), res)}, nil
			}
		}
		v0, n0 := r.Walk(w.FS, "/", false)

		perClient := make([][]*ccall, len(j.Clients))
		start := make(chan struct{})
		var wg sync.WaitGroup
		for ci := range j.Clients {
			wg.Add(1)
			go func(ci int) {
				defer wg.Done()
				<-start
				rec := func(o Op, op string, fn func(c *ccall) error) string {
					c := &ccall{C: ci + 1, Op: op, O: opJSON(o), RC: []int{}, LN: []string{}}
					perClient[ci] = append(perClient[ci], c)
					func() {
						defer func() {
							if p := recover(); p != nil {
								c.E, c.D = "panic", fmt.Sprint(p)
								c.t1 = int64(time.Since(base))
							}
						}()
						c.t0 = int64(time.Since(base))
						err := fn(c)
						c.t1 = int64(time.Since(base))
						c.E = class(err)
						if err != nil {
							c.D = err.Error()
						}
					}()
					return c.E
				}
				for i, o := range j.Clients[ci] {
					client(w, r, o, j.style(i), rec)
				}
			}(ci)
		}
		close(start)
		wg.Wait()

		// Whatever happens from now on happens after the clients have returned
		calls := []*ccall{}
		type ev struct {
			t    int64
			kind string
			k    int
		}
		evs := []ev{}
		for _, cs := range perClient {
			for _, c := range cs {
				calls = append(calls, c)
				evs = append(evs, ev{c.t0, "i", len(calls)}, ev{c.t1, "r", len(calls)})
			}
		}
		// Calls which meet in the same instant are concurrent
		sort.SliceStable(evs, func(a, b int) bool {
			if evs[a].t != evs[b].t {
				return evs[a].t < evs[b].t
			}
			if evs[a].kind != evs[b].kind {
				return evs[a].kind == "i"
			}
			return evs[a].k < evs[b].k
		})
		es := []J{}
		for i, e := range evs {
			if e.kind == "r" {
				calls[e.k-1].Ret = i
			}
			es = append(es, J{"e": e.kind, "k": e.k})
		}

		w.Seams.Hook = nil
		fin := J{}
		if err := NewObserver(w, r, []string{"rebuild", "reopen"}).Observe(fin, true); err != nil {
			return nil, err
		}
		out := J{"v0": v0, "n0": n0, "calls": calls, "evs": es, "fin": fin, "g": j.G, "now": r.between(base, time.Now()), "own": J{"u": os.Getuid(), "g": os.Getgid()}, "n": len(j.Clients)}
		r.tables(out)
		return out, nil
	}
}

// client executes one call, or one session with a file, of a client
func client(w *World, r *Rec, o Op, style int, rec func(o Op, op string, fn func(c *ccall) error) string) {
	p := r.spelling(o.P, style)
	if o.Op != "session" {
		rec(o, o.Op, func(c *ccall) error {
			if o.Op == "stat" {
				i, err := w.FS.Stat(p)
				if err == nil {
					c.SK, c.SN = kindOf(i), i.Size()
				}
				return err
			}
			return w.apply(r, o, style)
		})
		return
	}
	var h afero.File
	if rec(o, "hopen", func(*ccall) (err error) {
		h, err = w.FS.OpenFile(p, openFlags(o), fileMode(o.Mode))
		return
	}) != "ok" {
		return
	}
	for _, k := range strings.Split(o.K, " ") {
		switch k {
		case "":
		case "hread":
			rec(o, k, func(c *ccall) error {
				if _, err := h.Seek(0, io.SeekStart); err != nil {
					return err
				}
				b, err := io.ReadAll(h)
				if err == nil {
					c.RC = r.Tok.Decode(b)
				}
				return err
			})
		case "hwrite":
			rec(o, k, func(*ccall) error {
				b := r.Tok.Encode(o.C)
				n, err := h.Write(b)
				if err == nil && n != len(b) {
					err = io.ErrShortWrite
				}
				return err
			})
		case "hsync":
			rec(o, k, func(*ccall) error { return h.Sync() })
		case "hstat":
			rec(o, k, func(*ccall) error { _, err := h.Stat(); return err })
		case "hlist":
			rec(o, k, func(c *ccall) error {
				names, err := h.Readdirnames(-1)
				for _, n := range names {
					c.LN = append(c.LN, r.name(n))
				}
				return err
			})
		default:
			fatal(fmt.Errorf("unknown step %q", k))
		}
	}
	rec(o, "hclose", func(*ccall) error { return h.Close() })
}

// apply executes a call which consists of one call of the file system
func (w *World) apply(r *Rec, o Op, style int) error {
	p, q := r.spelling(o.P, style), r.spelling(o.Q, style)
	f := w.FS
	switch o.Op {
	case "mkdir":
		return f.Mkdir(p, fileMode(o.Mode))
	case "mkdirall":
		return f.MkdirAll(p, fileMode(o.Mode))
	case "remove":
		return f.Remove(p)
	case "removeall":
		return f.RemoveAll(p)
	case "rename":
		return f.Rename(p, q)
	case "chmod":
		return f.Chmod(p, fileMode(o.Mode))
	case "chown":
		return f.Chown(p, o.UID, o.GID)
	case "chtimes":
		return f.Chtimes(p, timeValue(o.T), timeValue(o.T+1))
	}
	fatal(fmt.Errorf("unknown op %q", o.Op))
	return nil
}
