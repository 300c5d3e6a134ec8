package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
)

// roJob executes a history, opens what it left read-only, and executes other calls on that
type roJob struct {
	cutJob
	NoWrite bool   `json:"nowrite"` // No write operations and no write cache are configured
	Idx     string `json:"idx"`     // copy: there is the index of the history; missing: there is no index
	Drv     string `json:"drv"`     // intact, cut, empty or absent
}

// rostate is what a read-only file system must not change
type rostate struct {
	tape   []byte
	exists bool
	db     string
}

func (w *World) rostate() (s rostate, err error) {
	if s.tape, err = w.TapeBytes(); err != nil {
		return
	}
	_, serr := os.Stat(w.Drive)
	s.exists = w.Tape != nil || !errors.Is(serr, os.ErrNotExist)
	s.db, err = dumpDB(w.DB)
	return
}

func init() {
	runners["ro"] = func(raw json.RawMessage) (J, error) {
		var j roJob
		if err := json.Unmarshal(raw, &j); err != nil {
			return nil, err
		}
		w, tape, lens, dbs, fail, err := j.history(true)
		if w != nil {
			defer w.Close()
		}
		if err != nil || fail != nil {
			return fail, err
		}
		r := j.rec()
		ms, sp := w.spans(r, tape)
		n := int64(len(tape))
		switch j.Drv {
		case "cut":
			cs := j.cuts(w, tape, sp, lens, rand.New(rand.NewSource(j.Seed)))
			n = cs[int(j.Seed)%len(cs)]
		case "empty", "absent":
			n = 0
		}
		twin := func(name string) (*World, error) {
			s, err := w.prefix(name, tape, n, true)
			if err != nil {
				return nil, err
			}
			if j.Drv == "absent" && s.Tape == nil {
				_ = os.Remove(s.Drive)
			}
			if j.Idx == "copy" {
				err = copyFile(dbs[len(dbs)-1], s.DB)
			}
			return s, err
		}
		out := J{"ms": ms, "g": r.Tok.G, "own": J{"u": os.Getuid(), "g": os.Getgid()}, "idx": j.Idx, "drv": j.Drv, "b": n, "tv": 0, "tn": []string{}, "te": "ok"}

		// What a file system which may be written to shows
		t, err := twin("tw")
		if err != nil {
			return nil, err
		}
		if err := t.Open(); err != nil {
			out["te"] = class(err)
		} else {
			out["tv"], out["tn"] = r.Walk(t.FS, "/", true)
		}

		s, err := twin("ro")
		if err != nil {
			return nil, err
		}
		s.Cfg.RO, s.Cfg.NoWrite = true, j.NoWrite
		s0, err := s.rostate()
		if err != nil {
			return nil, err
		}
		e, d := "ok", ""
		func() {
			defer func() {
				if p := recover(); p != nil {
					e, d = "panic", fmt.Sprint(p)
				}
			}()
			if err := s.Open(); err != nil {
				e, d = class(err), err.Error()
			}
		}()
		s1, err := s.rostate()
		if err != nil {
			return nil, err
		}
		out["e"], out["d"] = e, d
		out["same"] = bytes.Equal(s0.tape, s1.tape) && s0.exists == s1.exists
		out["samedb"] = s0.db == s1.db
		out["v0"], out["nt"] = 0, []string{}
		if e == "ok" {
			out["v0"], out["nt"] = r.Walk(s.FS, "/", true)
		}
		steps := []J{}
		for i, o := range j.Free {
			rs := s.Do(r, o, j.style(i))
			if rs.X == nil {
				rs.X = J{}
			}
			rs.X["_"] = 0
			s2, err := s.rostate()
			if err != nil {
				return nil, err
			}
			st := J{"o": opJSON(o), "e": rs.E, "ew": rs.EW, "ec": rs.EC, "d": rs.D, "x": rs.X,
				"same": bytes.Equal(s1.tape, s2.tape) && s1.exists == s2.exists, "samedb": s1.db == s2.db, "v": 0, "nt": []string{}}
			if e == "ok" {
				st["v"], st["nt"] = r.Walk(s.FS, "/", true)
			}
			steps = append(steps, st)
		}
		out["steps"] = steps
		r.tables(out)
		return out, nil
	}
}
