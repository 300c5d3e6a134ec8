package main

import (
	"archive/tar"
	"context"
	"encoding/json"
	"fmt"
	"io"
	iofs "io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	"github.com/pojntfx/stfs/pkg/recovery"
	"github.com/pojntfx/stfs/pkg/signature"
	"github.com/spf13/afero"
)

// faultJob executes a history, and then calls in which one step at a seam fails, each followed by further calls
type faultJob struct {
	HistJob
	Calls  []Op  `json:"calls"`
	Probes []Op  `json:"probes"`
	Seed   int64 `json:"seed"`
	Max    int   `json:"max"` // Runs
}

// fork copies a world
func (w *World) fork(name string) (*World, error) {
	s := w.Sibling(name + ".sqlite")
	if err := copyFile(w.DB, s.DB); err != nil {
		return nil, err
	}
	if w.Tape != nil {
		s.Tape = w.Tape.Clone()
		return s, nil
	}
	s.Drive = filepath.Join(w.Dir, name+".tar")
	return s, copyFile(w.Drive, s.Drive)
}

func (w *World) forget() {
	_ = os.Remove(w.DB)
	if w.Tape == nil {
		_ = os.Remove(w.Drive)
	}
}

// seg is one call together with what it did to the drive
type seg struct {
	Op string   `json:"op"`
	E  string   `json:"e"`
	D  string   `json:"d"`
	Ev []string `json:"ev"`
	Ms int64    `json:"ms"`
}

type faulter struct {
	w    *World
	r    *Rec
	segs []seg
	mu   sync.Mutex
	ev   []string
}

func (f *faulter) event(e string) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.ev = append(f.ev, e)
}

// do executes one call and records what happened at the drive until it returned
func (f *faulter) do(name string, fn func() error) {
	s := seg{Op: name, E: "ok"}
	f.mu.Lock()
	f.ev = []string{}
	f.mu.Unlock()
	t0 := time.Now()
	func() {
		defer func() {
			if p := recover(); p != nil {
				s.E, s.D = "panic", fmt.Sprint(p)
			}
		}()
		if err := fn(); err != nil {
			s.E, s.D = class(err), err.Error()
		}
	}()
	s.Ms = time.Since(t0).Milliseconds()
	f.mu.Lock()
	s.Ev = f.ev
	f.mu.Unlock()
	f.segs = append(f.segs, s)
}

// call executes a call of a history, or one of the others
func (f *faulter) call(o Op, style int) {
	w, r := f.w, f.r
	p := r.spelling(o.P, style)
	switch o.Op {
	case "init":
		f.do("init", func() error { _, err := w.FS.Initialize("/", os.ModePerm); return err })
	case "index", "query":
		f.do(o.Op, func() (err error) {
			rd, err := w.BE.GetReader()
			if err != nil {
				return err
			}
			defer func() {
				if cerr := w.BE.CloseReader(); err == nil {
					err = cerr
				}
			}()
			if o.Op == "query" {
				_, err = recovery.Query(rd, w.BE.MagneticTapeIO, w.pipes(), w.readCrypto(), 0, 0, nil)
				return err
			}
			return recovery.Index(rd, w.BE.MagneticTapeIO, config.MetadataConfig{Metadata: w.MP}, w.pipes(), w.readCrypto(), 0, 0, o.Trunc, false, 0,
				func(hdr *tar.Header, i int) error {
					return encryption.DecryptHeader(hdr, w.Cfg.Enc, w.Keys.EncIdentity)
				},
				func(hdr *tar.Header, isRegular bool) error {
					return signature.VerifyHeader(hdr, isRegular, w.Cfg.Sig, w.Keys.SigRecipient)
				}, nil)
		})
	case "oprestore", "archive", "opupdate", "opdelete", "opmove", "badlevel":
		f.do(o.Op, func() error {
			rs := w.Do(r, o, style)
			if rs.E == "panic" {
				panic(rs.D)
			}
			if rs.E != "ok" {
				return callError(rs.E)
			}
			return nil
		})
	case "opinit":
		f.do("opinit", func() error { return w.WriteOps.Initialize(p, iofs.ModePerm, w.Cfg.Level) })
	case "file":
		// Everything that can be done with an open file
		var h afero.File
		f.do("open", func() (err error) { h, err = w.FS.OpenFile(p, openFlags(o), fileMode(o.Mode)); return })
		if h == nil {
			return
		}
		data := r.Tok.Encode(o.C)
		buf := make([]byte, len(data)+1)
		steps := map[string]func() error{
			"fread":       func() error { _, err := h.Read(buf); return err },
			"freadat":     func() error { _, err := h.ReadAt(buf, 1); return err },
			"fseek":       func() error { _, err := h.Seek(0, io.SeekStart); return err },
			"fseekend":    func() error { _, err := h.Seek(-1, io.SeekEnd); return err },
			"fwrite":      func() error { _, err := h.Write(data); return err },
			"fwriteat":    func() error { _, err := h.WriteAt(data, 1); return err },
			"fstring":     func() error { _, err := h.WriteString(string(data)); return err },
			"ftruncate":   func() error { return h.Truncate(1) },
			"fsync":       func() error { return h.Sync() },
			"fstat":       func() error { _, err := h.Stat(); return err },
			"freaddir":    func() error { _, err := h.Readdir(-1); return err },
			"fclose":      func() error { return h.Close() },
			"fcloseagain": func() error { return h.Close() },
		}
		for _, k := range strings.Split(o.K, " ") {
			fn, ok := steps[k]
			if !ok {
				fatal(fmt.Errorf("unknown step %q", k))
			}
			f.do(k, fn)
		}
	default:
		f.do(o.Op, func() error {
			rs := w.Do(r, o, style)
			if rs.E == "panic" {
				panic(rs.D)
			}
			for _, e := range []string{rs.E, rs.EW, rs.EC} {
				if e != "ok" {
					return callError(e)
				}
			}
			return nil
		})
	}
}

// callError keeps the class of a call whose error has been projected already
type callError string

func (e callError) Error() string { return string(e) }

func init() {
	runners["fault"] = func(raw json.RawMessage) (J, error) {
		var j faultJob
		if err := json.Unmarshal(raw, &j); err != nil {
			return nil, err
		}
		w, err := NewWorld(j.Cfg)
		if err != nil {
			return nil, err
		}
		defer w.Close()
		r := j.rec()
		// Rejected calls are part of the history, so what it does to the drive is looked at, too
		w.Seams = &Seams{}
		f := &faulter{w: w, r: r}
		w.Seams.Ev = f.event
		f.do("build", w.Build)
		f.do("init", func() error { _, err := w.FS.Initialize("/", os.ModePerm); return err })
		for i, o := range j.Ops {
			f.call(o, j.style(i))
		}
		runs := []J{{"call": J{"op": "history"}, "k": 0, "point": "", "mode": "", "segs": f.segs, "probe": len(f.segs) + 1}}
		w.Seams = nil

		rng := rand.New(rand.NewSource(j.Seed))
		n := 0
		// run executes the call with a fault at its k-th step (none if k is 0) and returns the steps it took
		run := func(o Op, k int, mode string) ([]string, error) {
			n++
			s, err := w.fork(fmt.Sprintf("f%d", n))
			if err != nil {
				return nil, err
			}
			defer s.forget()
			points := []string{}
			point := ""
			armed := false
			fs := &faulter{w: s, r: r}
			var mu sync.Mutex
			s.Seams = &Seams{Hook: func(p string) error {
				mu.Lock()
				defer mu.Unlock()
				if !armed {
					return nil
				}
				points = append(points, p)
				if k == 0 || len(points) < k {
					return nil
				}
				if len(points) == k {
					point = p
				}
				if len(points) > k && (mode != "sticky" || p != point) {
					return nil
				}
				switch mode {
				case "torn":
					return errTorn
				case "eof":
					return io.EOF
				case "swap":
					return errSwap
				}
				return errInjected
			}, Ev: fs.event}
			if o.Op == "opinit" {
				// The tape is a new one
				_ = os.Remove(s.DB)
				if s.Tape != nil {
					s.Tape = NewFakeTape(s.Cfg.RS)
				} else {
					_ = os.Remove(s.Drive)
				}
			}
			switch mode {
			case "keys":
				// The keys are those of somebody else
				if s.Keys, err = getKeys(j.Cfg.Enc, j.Cfg.Sig, "other"); err != nil {
					return nil, err
				}
			case "level":
				s.Cfg.Level = "verif-unsupported"
			case "format":
				s.Cfg.Comp = "verif-unsupported"
			}
			if err := s.Build(); err != nil {
				return nil, err
			}
			if o.Op == "init" && o.Trunc {
				// There is no index
				if err := s.MP.PurgeAllHeaders(context.Background()); err != nil {
					return nil, err
				}
			} else if o.Op != "init" && o.Op != "opinit" {
				if _, err := s.FS.Initialize("/", os.ModePerm); err != nil && mode != "keys" {
					return nil, err
				}
			}
			arm := func(b bool) {
				mu.Lock()
				defer mu.Unlock()
				armed = b
			}
			arm(true)
			fs.call(o, 0)
			arm(false)
			probe := len(fs.segs) + 1
			if k == 0 && mode != "" {
				// Nothing can be expected from the calls which follow except that they return
				for _, p := range j.Probes {
					fs.call(p, 0)
				}
				probe = len(fs.segs) + 1
			} else {
				for _, p := range j.Probes {
					fs.call(p, 0)
				}
			}
			runs = append(runs, J{"call": opJSON(o), "k": k, "point": point, "mode": mode, "segs": fs.segs, "probe": probe, "points": len(points)})
			return points, nil
		}
		type choice struct {
			o    Op
			k    int
			mode string
		}
		all := map[string][]choice{}
		kinds := []string{}
		for _, o := range j.Calls {
			points, err := run(o, 0, "")
			if err != nil {
				return nil, err
			}
			if m := []string{"keys", "level", "format"}[rng.Intn(3)]; m != "keys" || j.Cfg.Enc != "" || j.Cfg.Sig != "" {
				if _, err := run(o, 0, m); err != nil {
					return nil, err
				}
			}
			for i, p := range points {
				modes := []string{"err", "sticky"}
				switch p {
				case "drive.write":
					modes = append(modes, "torn", "torn")
				case "drive.openw", "drive.openr":
					modes = append(modes, "swap", "swap")
				case "drive.read", "src.read", "src.next":
					modes = append(modes, "eof")
				}
				// All kinds of steps of all calls are of the same interest, no matter how often they happen
				kind := o.Op + " " + p
				if all[kind] == nil {
					kinds = append(kinds, kind)
				}
				all[kind] = append(all[kind], choice{o, i + 1, modes[rng.Intn(len(modes))]})
			}
		}
		for _, k := range kinds {
			l := all[k]
			rng.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
		}
		for done := 0; len(kinds) > 0 && (j.Max <= 0 || done < j.Max); {
			rest := []string{}
			rng.Shuffle(len(kinds), func(a, b int) { kinds[a], kinds[b] = kinds[b], kinds[a] })
			for _, k := range kinds {
				if j.Max > 0 && done >= j.Max {
					break
				}
				c := all[k][0]
				all[k] = all[k][1:]
				if _, err := run(c.o, c.k, c.mode); err != nil {
					return nil, err
				}
				done++
				if len(all[k]) > 0 {
					rest = append(rest, k)
				}
			}
			kinds = rest
		}
		return J{"runs": runs}, nil
	}
}
