package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"

	"github.com/spf13/afero"
)

// HandleOp is one call on one of two open files
type HandleOp struct {
	Op    string `json:"op"`
	H     int    `json:"h"`
	Acc   string `json:"acc"`
	Creat bool   `json:"creat"`
	Excl  bool   `json:"excl"`
	Trunc bool   `json:"trunc"`
	App   bool   `json:"app"`
	N     int    `json:"n"`
	Off   int    `json:"off"`
	Wh    int    `json:"wh"`
	C     []int  `json:"c"`
}

type handleJob struct {
	Cfg  Cfg        `json:"cfg"`
	G    int        `json:"g"`
	Ops  []HandleOp `json:"ops"`
	Init [][]int    `json:"init"` // Initial content; empty files are created by default

	RO      bool `json:"ro"` // Open the files through a read-only file system
	NoWrite bool `json:"nowrite"`
}

func init() {
	runners["handle"] = func(raw json.RawMessage) (J, error) {
		var j handleJob
		if err := json.Unmarshal(raw, &j); err != nil {
			return nil, err
		}
		w, err := NewWorld(j.Cfg)
		if err != nil {
			return nil, err
		}
		defer w.Close()
		if err := w.Open(); err != nil {
			return J{"fail": "initialize", "detail": err.Error()}, nil
		}
		tok := Tokens{j.G}
		names := []string{"", "/f", "/g"}
		for i := 1; i <= 2; i++ {
			h, err := w.FS.Create(names[i])
			if err == nil && len(j.Init) > 0 {
				_, err = h.Write(tok.Encode(j.Init[i-1]))
			}
			if err == nil {
				err = h.Close()
			}
			if err != nil {
				return J{"fail": "create", "detail": err.Error()}, nil
			}
		}
		var before rostate
		if j.RO {
			ro := w.Sibling("ro.sqlite")
			if err := copyFile(w.DB, ro.DB); err != nil {
				return nil, err
			}
			ro.Cfg.RO, ro.Cfg.NoWrite = true, j.NoWrite
			if err := ro.Open(); err != nil {
				return J{"fail": "initialize", "detail": err.Error()}, nil
			}
			w = ro
			if before, err = w.rostate(); err != nil {
				return nil, err
			}
		}
		hs := make([]afero.File, 3)
		steps := []J{}
		units := func(n int) int {
			if n%j.G != 0 {
				return -1000000 - n
			}
			return n / j.G
		}
		for _, o := range j.Ops {
			s, n, b := J{"o": o, "fc": []int{}, "fn": 0}, 0, []int{}
			if o.C == nil {
				o.C = []int{}
				s["o"] = o
			}
			func() {
				defer func() {
					if p := recover(); p != nil {
						s["e"], s["d"] = "panic", fmt.Sprint(p)
					}
				}()
				var err error
				h := hs[o.H]
				switch o.Op {
				case "open":
					hs[o.H], err = w.FS.OpenFile(names[o.H], openFlags(Op{Acc: o.Acc, Creat: o.Creat, Excl: o.Excl, Trunc: o.Trunc, App: o.App}), 0644)
				case "read", "readat":
					buf := make([]byte, o.N*j.G)
					if o.Op == "read" {
						n, err = h.Read(buf)
					} else {
						n, err = h.ReadAt(buf, int64(o.Off*j.G))
					}
					if n >= 0 && n <= len(buf) {
						b = tok.Decode(buf[:n])
					}
				case "seek":
					var p int64
					p, err = h.Seek(int64(o.Off*j.G), o.Wh)
					n = int(p)
				case "write":
					n, err = h.Write(tok.Encode(o.C))
				case "writestring":
					n, err = h.WriteString(string(tok.Encode(o.C)))
				case "writeat":
					n, err = h.WriteAt(tok.Encode(o.C), int64(o.Off*j.G))
				case "truncate":
					err = h.Truncate(int64(o.N * j.G))
				case "sync":
					err = h.Sync()
				case "stat":
					var i os.FileInfo
					if i, err = h.Stat(); err == nil {
						n = int(i.Size())
					}
				case "close":
					err = h.Close()
					hs[o.H] = nil
					if err == nil {
						c, rerr := readAll(w.FS, names[o.H])
						if rerr != nil {
							s["fc"] = []int{-9}
							s["d"] = rerr.Error()
						} else {
							s["fc"] = tok.Decode(c)
						}
						i, serr := w.FS.Stat(names[o.H])
						if serr != nil {
							s["fn"] = -9
						} else {
							s["fn"] = units(int(i.Size()))
						}
					}
				default:
					fatal(fmt.Errorf("unknown handle op %q", o.Op))
				}
				s["e"] = class(err)
				if err != nil && err != io.EOF {
					s["d"] = err.Error()
				}
			}()
			s["n"], s["b"] = units(n), b
			if j.RO {
				now, err := w.rostate()
				if err != nil {
					return nil, err
				}
				s["same"] = bytes.Equal(now.tape, before.tape) && now.db == before.db
			}
			steps = append(steps, s)
			if s["e"] == "panic" {
				return J{"fail": "panic", "detail": s}, nil
			}
			if hs[o.H] == nil && o.Op == "open" {
				break // Can not go on without a handle; the failed open is in the trace
			}
		}
		for _, h := range hs {
			if h != nil {
				_ = h.Close()
			}
		}
		init := [][]int{{}, {}}
		if len(j.Init) > 0 {
			init = j.Init
		}
		return J{"steps": steps, "g": j.G, "wpr": j.Cfg.WPR, "init": init}, nil
	}
}
