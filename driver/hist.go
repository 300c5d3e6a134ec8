package main

import (
	"encoding/json"
	"fmt"
	"os"
	"time"
)

// HistJob executes one history
type HistJob struct {
	Cfg   Cfg               `json:"cfg"`
	G     int               `json:"g"`
	Names map[string]string `json:"names"`
	Ops   []Op              `json:"ops"`
	Style int               `json:"style"` // How paths are spelled; -1: varies
	Obs   []string          `json:"obs"`   // What to observe besides the visible tree
	Dump  string            `json:"dump"`  // Where to leave a copy of the tape
	Again []Op              `json:"again"` // What to do after the drive has been overwritten
}

func (j *HistJob) rec() *Rec {
	if j.G == 0 {
		j.G = 1
	}
	r := NewRec(j.G)
	for a, c := range j.Names {
		r.bind(a, c)
	}
	for i := 0; i < 12; i++ {
		r.time(timeValue(i)) // Abstract time value t is time t+1
	}
	return r
}

func (j *HistJob) style(i int) int {
	if j.Style >= 0 {
		return j.Style
	}
	return (i*7 + 3) % 5
}

// opJSON completes a call
func opJSON(o Op) J {
	b, _ := json.Marshal(o)
	var m J
	_ = json.Unmarshal(b, &m)
	for _, k := range []string{"p", "q", "c"} {
		if m[k] == nil {
			m[k] = []int{}
		}
	}
	for _, k := range []string{"creat", "excl", "trunc", "app", "repl"} {
		if m[k] == nil {
			m[k] = false
		}
	}
	if m["acc"] == nil {
		m["acc"] = "r"
	}
	if m["items"] == nil {
		m["items"] = []int{}
	} else {
		for _, it := range m["items"].([]interface{}) {
			o := it.(map[string]interface{})
			if o["c"] == nil {
				o["c"] = []int{}
			}
		}
	}
	return m
}

func init() {
	// Results and visible tree after each call
	runners["hist"] = func(raw json.RawMessage) (J, error) {
		var j HistJob
		if err := json.Unmarshal(raw, &j); err != nil {
			return nil, err
		}
		w, err := NewWorld(j.Cfg)
		if err != nil {
			return nil, err
		}
		defer w.Close()
		if err := w.Open(); err != nil {
			return J{"fail": "initialize: " + err.Error()}, nil
		}
		out, err := j.phase(w, j.Ops, j.Dump)
		if err != nil || j.Again == nil {
			return out, err
		}
		// Another archive replaces what is on the drive
		w2 := w.Sibling("again.sqlite")
		w2.Overwrite = true
		again := J{}
		if err := w2.Build(); err != nil {
			return nil, err
		}
		if err := w2.WriteOps.Initialize("/", os.ModePerm, w2.Cfg.Level); err != nil {
			again = J{"fail": "overwriting: " + err.Error()}
		} else if _, err := w2.FS.Initialize("/", os.ModePerm); err != nil {
			again = J{"fail": "initialize after overwriting: " + err.Error()}
		} else {
			dump := j.Dump
			if dump != "" {
				dump += ".again"
			}
			if again, err = j.phase(w2, j.Again, dump); err != nil {
				return nil, err
			}
		}
		return J{"vars": []J{out, again}}, nil
	}
}

// phase executes calls and records what they lead to
func (j *HistJob) phase(w *World, ops []Op, dump string) (J, error) {
	r := j.rec()
	ob := NewObserver(w, r, j.Obs)
	s0 := J{}
	if err := ob.Observe(s0, false); err != nil {
		return nil, err
	}
	steps := []J{}
	for i, o := range ops {
		t0 := time.Now()
		res := w.Do(r, o, j.style(i))
		t1 := time.Now()
		if res.X == nil {
			res.X = J{}
		}
		res.X["_"] = 0
		s := J{"o": opJSON(o), "e": res.E, "ew": res.EW, "ec": res.EC, "d": res.D, "x": res.X}
		if err := ob.Observe(s, i == len(ops)-1); err != nil {
			return nil, fmt.Errorf("observing step %v: %w", i, err)
		}
		s["now"] = r.between(t0, t1)
		steps = append(steps, s)
	}
	if dump != "" {
		b, err := w.TapeBytes()
		if err == nil {
			err = os.WriteFile(dump, b, 0600)
		}
		if err != nil {
			return nil, err
		}
	}
	out := J{"v0": s0["v"], "s0": s0, "steps": steps, "g": j.G, "rs": w.Cfg.RS, "wpr": j.Cfg.WPR, "plain": w.Cfg.Comp == "" && w.Cfg.Enc == "", "own": J{"u": os.Getuid(), "g": os.Getgid()}}
	r.tables(out)
	return out, nil
}
