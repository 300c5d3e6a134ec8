package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	iofs "io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/operations"
)

// cutJob executes a history and then looks at prefixes of its tape
type cutJob struct {
	HistJob
	Seed int64 `json:"seed"`
	Max  int   `json:"max"`  // Cuts or variants
	Tail []Op  `json:"tail"` // Calls after opening
	Free []Op  `json:"free"` // Calls after opening if nothing has been torn
}

// span is the position of a member in bytes of the tape
type span struct{ start, data, end, next int64 }

// history executes the history and returns the members of its tape, with how long the tape was after each call and the index then
func (j *cutJob) history(keepDBs bool) (w *World, tape []byte, lens []int64, dbs []string, fail J, err error) {
	w, err = NewWorld(j.Cfg)
	if err != nil {
		return
	}
	r := j.rec()
	if err := w.Open(); err != nil {
		return w, nil, nil, nil, J{"fail": "initialize: " + err.Error()}, nil
	}
	for i := -1; i < len(j.Ops); i++ {
		if i >= 0 {
			w.Do(r, j.Ops[i], j.style(i))
		}
		b, err := w.TapeBytes()
		if err != nil {
			return w, nil, nil, nil, nil, err
		}
		tape = b
		lens = append(lens, int64(len(b)))
		if keepDBs {
			db, err := w.copyDB("live" + strconv.Itoa(i+1) + ".sqlite")
			if err != nil {
				return w, nil, nil, nil, nil, err
			}
			dbs = append(dbs, db)
		}
	}
	return
}

// prefix returns a world over the first n bytes of the tape (for tapes: the records which are in them), without an index.
func (w *World) prefix(name string, tape []byte, n int64, mark bool) (*World, error) {
	s := w.Sibling(name + ".sqlite")
	if w.Tape != nil {
		s.Tape = w.Tape.Clone()
		left := n
		for i, r := range s.Tape.recs {
			if int64(len(r)) > left {
				s.Tape.recs = s.Tape.recs[:i]
				break
			}
			left -= int64(len(r))
			if left == 0 && r != nil {
				s.Tape.recs = s.Tape.recs[:i+1]
				break
			}
		}
		if k := len(s.Tape.recs); mark && k > 0 && s.Tape.recs[k-1] != nil {
			s.Tape.recs = append(s.Tape.recs, nil)
		}
		return s, nil
	}
	s.Drive = filepath.Join(w.Dir, name+".tar")
	if n < 0 {
		n = 0
	}
	return s, os.WriteFile(s.Drive, tape[:n], 0600)
}

// spans projects the members together with their positions in bytes
func (w *World) spans(r *Rec, tape []byte) ([]J, []span) {
	addr := w.addresses()
	ms, _ := scan(tape, 0)
	out, sp := []J{}, []span{}
	for _, m := range ms {
		e := r.member(w, w.decode(m), addr)
		e["ob"], e["db"], e["eb"], e["zb"] = m.Off, m.DataOff, m.DataOff+m.Hdr.Size, m.End
		out = append(out, e)
		sp = append(sp, span{m.Off, m.DataOff, m.DataOff + m.Hdr.Size, m.End})
	}
	return out, sp
}

// cuts chooses where to cut the tape: at and around the bounds of members, inside of their blocks, and after what a write session may end with
func (j *cutJob) cuts(w *World, tape []byte, sp []span, lens []int64, rng *rand.Rand) []int64 {
	n := int64(len(tape))
	set := map[int64]bool{}
	unit := int64(1)
	if w.Tape != nil {
		unit = int64(w.Cfg.RS) * blockBytes
	}
	add := func(x int64) {
		if unit > 1 {
			x = x / unit * unit
		}
		if x >= 0 && x <= n {
			set[x] = true
		}
	}
	must := []int64{n, 0}
	for i, s := range sp {
		add(s.start)
		add(s.next)
		if s.data < s.end {
			add(s.data)
			add(s.end)
			add(s.data + 1)
			add(s.end - 1)
			add((s.data + s.end) / 2)
		}
		// Inside of the header
		add(s.start + 1)
		add(s.data - 1)
		for b := s.start + blockBytes; b < s.data; b += blockBytes {
			add(b)
			add(b + int64(rng.Intn(blockBytes)))
		}
		if i > len(sp)-3 {
			for b := s.start; b < s.next && b < s.start+40*blockBytes; b += blockBytes {
				add(b)
				add(b + 1 + int64(rng.Intn(blockBytes-1)))
			}
		}
	}
	for _, l := range lens {
		add(l)
		add(l - 1)
		add(l - blockBytes)
		add(l - 2*blockBytes)
		add(l - blockBytes - 7)
	}
	for i := 0; i < 30; i++ {
		add(rng.Int63n(n + 1))
	}
	for _, x := range must {
		add(x)
	}
	all := []int64{}
	for x := range set {
		all = append(all, x)
	}
	sort.Slice(all, func(a, b int) bool { return all[a] < all[b] })
	if j.Max > 0 && len(all) > j.Max {
		rng.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
		all = append(all[:j.Max-1], n)
	}
	sort.Slice(all, func(a, b int) bool { return all[a] > all[b] })
	return all
}

// fullRows projects the live rows with everything they say, and what fetching and restoring each entry returns
func (w *World) fullRows(r *Rec, mp config.MetadataPersister, content bool) ([]int, error) {
	hs, err := mp.GetHeaders(context.Background())
	if err != nil {
		return nil, err
	}
	ops := operations.NewOperations(w.newBackend(), config.MetadataConfig{Metadata: mp}, w.pipes(), w.readCrypto(), func(*config.HeaderEvent) {})
	out := []int{}
	for _, h := range hs {
		k := "o"
		switch h.Typeflag {
		case '5':
			k = "d"
		case '0', 0:
			k = "f"
		case '2':
			k = "l"
		}
		e := J{"p": r.abstractPath(h.Name), "k": k, "m": h.Mode & 07777, "u": h.UID, "g": h.Gid, "mt": r.time(h.Modtime), "at": r.time(h.Accesstime), "ct": r.time(h.Changetime),
			"n": h.Size, "c": []int{}, "fe": "ok", "rc": []int{}, "re": "ok"}
		if k == "f" && content {
			b, err := w.fetch(h.Record, h.Block, nil)
			e["fe"], e["c"] = class(err), []int{}
			if err == nil {
				e["c"] = r.Tok.Decode(b)
			}
			b, err = w.restore(ops, h.Name)
			e["re"], e["rc"] = class(err), []int{}
			if err == nil {
				e["rc"] = r.Tok.Decode(b)
			}
		}
		out = append(out, r.ent(e))
	}
	sort.Ints(out)
	return out, nil
}

// restoreAll restores everything at once and returns what the files contain afterwards
func (w *World) restoreAll(r *Rec, mp config.MetadataPersister) (e string, files []J) {
	files = []J{}
	out := map[string]*bytes.Buffer{}
	defer func() {
		if p := recover(); p != nil {
			e = "panic"
		}
		for p, b := range out {
			files = append(files, J{"p": r.abstractPath(p), "c": r.Tok.Decode(b.Bytes())})
		}
	}()
	ops := operations.NewOperations(w.newBackend(), config.MetadataConfig{Metadata: mp}, w.pipes(), w.readCrypto(), func(*config.HeaderEvent) {})
	e = class(ops.Restore(
		func(p string, _ iofs.FileMode) (io.WriteCloser, error) {
			out[p] = &bytes.Buffer{}
			return nopWC{out[p]}, nil
		},
		func(string, iofs.FileMode) error { return nil },
		"/", "", false))
	return e, files
}

func init() {
	// The index which is rebuilt from each prefix of the tape
	runners["cut"] = func(raw json.RawMessage) (J, error) {
		var j cutJob
		if err := json.Unmarshal(raw, &j); err != nil {
			return nil, err
		}
		w, tape, lens, _, fail, err := j.history(false)
		if w != nil {
			defer w.Close()
		}
		if err != nil || fail != nil {
			return fail, err
		}
		r := j.rec()
		rng := rand.New(rand.NewSource(j.Seed))
		ms, sp := w.spans(r, tape)
		cuts := []J{}
		mp, err := w.freshPersister("cut.sqlite")
		if err != nil {
			return nil, err
		}
		for i, n := range j.cuts(w, tape, sp, lens, rng) {
			if i%16 == 15 {
				if mp, err = w.freshPersister(fmt.Sprintf("cut%d.sqlite", i)); err != nil {
					return nil, err
				}
			}
			s, err := w.prefix("cut", tape, n, i%2 == 0)
			if err != nil {
				return nil, err
			}
			c := J{"b": n, "e": "ok", "d": ""}
			if err := s.indexInto(mp, true, nil, nil); err != nil {
				c["e"], c["d"] = class(err), err.Error()
			}
			rows, err := s.fullRows(r, mp, true)
			if err != nil {
				return nil, err
			}
			c["rows"] = rows
			c["ae"], c["all"] = s.restoreAll(r, mp)
			cuts = append(cuts, c)
		}
		out := J{"ms": ms, "cuts": cuts, "g": r.Tok.G, "total": len(tape)}
		r.tables(out)
		return out, nil
	}

	// Replaying the tape over the index of each of its prefixes
	runners["replay"] = func(raw json.RawMessage) (J, error) {
		var j cutJob
		if err := json.Unmarshal(raw, &j); err != nil {
			return nil, err
		}
		w, tape, lens, dbs, fail, err := j.history(true)
		if w != nil {
			defer w.Close()
		}
		if err != nil || fail != nil {
			return fail, err
		}
		r := j.rec()
		rng := rand.New(rand.NewSource(j.Seed))
		ms, sp := w.spans(r, tape)
		out := J{"ms": ms, "g": r.Tok.G, "se": "ok"}
		mp, err := w.freshPersister("scratch.sqlite")
		if err != nil {
			return nil, err
		}
		if err := w.indexInto(mp, true, nil, nil); err != nil {
			return J{"fail": "rebuilding: " + err.Error()}, nil
		}
		v0, nt0 := r.Walk(w.fsOver(mp), "/", true)
		rows0, err := w.fullRows(r, mp, false)
		if err != nil {
			return nil, err
		}
		out["v0"], out["nt0"], out["rows0"] = v0, nt0, rows0

		type start struct {
			kind string
			at   int
		}
		starts := []start{}
		for i := 0; i <= len(sp); i++ {
			starts = append(starts, start{"prefix", i})
		}
		for i := range dbs {
			starts = append(starts, start{"live", i})
		}
		if j.Max > 0 && len(starts) > j.Max {
			rng.Shuffle(len(starts), func(a, b int) { starts[a], starts[b] = starts[b], starts[a] })
			starts = append(starts[:j.Max-2], start{"live", len(dbs) - 1}, start{"prefix", len(sp)})
		}
		steps := []J{}
		for i, st := range starts {
			s := J{"kind": st.kind, "at": st.at, "pe": "ok"}
			var mp config.MetadataPersister
			switch st.kind {
			case "live":
				if mp, err = openPersister(dbs[st.at]); err != nil {
					return nil, err
				}
			case "prefix":
				if mp, err = w.freshPersister(fmt.Sprintf("pre%d.sqlite", i)); err != nil {
					return nil, err
				}
				n := int64(0)
				if st.at > 0 {
					n = sp[st.at-1].next
				}
				if w.Tape != nil {
					// The index of the records up to the end of the session in which the member is
					for _, l := range lens {
						if l >= n {
							n = l
							break
						}
					}
				}
				p, err := w.prefix("pre", tape, n, true)
				if err != nil {
					return nil, err
				}
				if n > 0 {
					if err := p.indexInto(mp, true, nil, nil); err != nil {
						s["pe"], s["pd"] = class(err), err.Error()
					}
				}
			}
			for k := 1; k <= 2; k++ {
				x := fmt.Sprint(k)
				s["e"+x], s["d"+x] = "ok", ""
				if err := w.indexInto(mp, false, nil, nil); err != nil {
					s["e"+x], s["d"+x] = class(err), err.Error()
				}
				s["v"+x], s["n"+x] = r.Walk(w.fsOver(mp), "/", true)
				if s["r"+x], err = w.fullRows(r, mp, false); err != nil {
					return nil, err
				}
				lr, lb, err := mp.GetLastIndexedRecordAndBlock(context.Background(), w.Cfg.RS)
				if err != nil {
					return nil, err
				}
				s["l"+x] = lr*int64(w.Cfg.RS) + lb
			}
			steps = append(steps, s)
		}
		out["steps"] = steps
		r.tables(out)
		return out, nil
	}

	// Opening the tape, whatever state it and the index are in
	runners["open"] = func(raw json.RawMessage) (J, error) {
		var j cutJob
		if err := json.Unmarshal(raw, &j); err != nil {
			return nil, err
		}
		w, tape, lens, dbs, fail, err := j.history(true)
		if w != nil {
			defer w.Close()
		}
		if err != nil || fail != nil {
			return fail, err
		}
		rng := rand.New(rand.NewSource(j.Seed))
		_, sp := w.spans(j.rec(), tape)
		all := j.Max
		j.Max = 0
		cuts := j.cuts(w, tape, sp, lens, rng)
		vars := []J{}
		for i := 0; i < all; i++ {
			n := cuts[rng.Intn(len(cuts))]
			switch i % 4 {
			case 0:
				n = int64(len(tape))
			case 1:
				n = lens[rng.Intn(len(lens))] // Intact
			}
			modes := []string{"none", "stale", "current", "live", "ahead"}
			mode := modes[rng.Intn(5)]
			if i < 5 {
				mode = modes[i]
			}
			if mode == "ahead" {
				n = cuts[rng.Intn(len(cuts))]
			}
			v, err := j.openVariant(w, tape, lens, dbs, sp, n, mode, fmt.Sprintf("v%d", i), rng)
			if err != nil {
				return nil, fmt.Errorf("cut %v, index %v: %w", n, mode, err)
			}
			vars = append(vars, v)
		}
		return J{"vars": vars}, nil
	}
}

func (j *cutJob) openVariant(w *World, tape []byte, lens []int64, dbs []string, sp []span, n int64, mode, name string, rng *rand.Rand) (J, error) {
	r := j.rec()
	s, err := w.prefix(name, tape, n, true) // The drive ends a write session with a file mark, even if it has been interrupted
	if err != nil {
		return nil, err
	}
	if w.Tape == nil && n == 0 && rng.Intn(2) == 0 {
		_ = os.Remove(s.Drive) // There is no tape at all
	}
	ms, _ := w.spans(r, tape)
	whole := 0 // Members which are completely on the tape
	for whole < len(sp) && sp[whole].next <= n {
		whole++
	}
	upto := whole
	switch mode {
	case "stale", "current":
		if mode == "stale" {
			upto = rng.Intn(whole + 1)
		}
		if mode == "current" && rng.Intn(2) == 0 {
			upto = -1 // Of the tape itself, including what has been torn
		}
		p := s
		if upto >= 0 {
			m := int64(0)
			if upto > 0 {
				m = sp[upto-1].next
			}
			if w.Tape != nil {
				x := int64(0)
				for _, l := range lens {
					if l <= m {
						x = l
					}
				}
				m = x
			}
			if p, err = w.prefix(name+"i", tape, m, true); err != nil {
				return nil, err
			}
			if m == 0 {
				p = nil
			}
		}
		mp, err := openPersister(s.DB)
		if err != nil {
			return nil, err
		}
		if p != nil {
			if err := p.indexInto(mp, true, nil, nil); err != nil {
				mode += "!" + class(err)
			}
		}
	case "live":
		upto = 0
		k := 0
		for i, l := range lens {
			if l <= n && (i == 0 || rng.Intn(3) > 0 || l == n) {
				k = i
			}
		}
		if lens[k] <= n {
			upto = k
			if err := copyFile(dbs[k], s.DB); err != nil {
				return nil, err
			}
		} else {
			mode = "none"
		}
	}
	if mode == "ahead" { // The tape has lost what has been indexed
		ks := []int{}
		for i, l := range lens {
			if l > n {
				ks = append(ks, i)
			}
		}
		if len(ks) > 0 {
			upto = ks[rng.Intn(len(ks))]
			if err := copyFile(dbs[upto], s.DB); err != nil {
				return nil, err
			}
		} else {
			mode = "none"
		}
	}
	out := J{"ms": ms, "b": n, "total": len(tape), "idx": mode, "upto": upto, "g": r.Tok.G, "own": J{"u": os.Getuid(), "g": os.Getgid()}, "tape": w.Tape != nil}
	before, err := s.TapeBytes()
	if err != nil {
		return nil, err
	}
	out["b"] = len(before)
	e, d, root := "ok", "", ""
	func() {
		defer func() {
			if p := recover(); p != nil {
				e, d = "panic", fmt.Sprint(p)
			}
		}()
		err := s.Build()
		if err == nil {
			root, err = s.FS.Initialize("/", os.ModePerm)
		}
		e = class(err)
		if err != nil {
			d = err.Error()
		}
	}()
	after, err := s.TapeBytes()
	if err != nil {
		return nil, err
	}
	out["e"], out["d"], out["root"], out["old"], out["keep"], out["len"] = e, d, root, len(before), commonPrefix(before, after), len(after)

	rebuilt := func(o J, k string) error {
		mp, err := s.freshPersister("re" + k + ".sqlite")
		if err != nil {
			return err
		}
		o["re"] = "ok"
		if err := s.indexInto(mp, true, nil, nil); err != nil {
			o["re"], o["red"] = class(err), err.Error()
		}
		o["vr"], o["rn"] = r.Walk(s.fsOver(mp), "/", true)
		return nil
	}
	steps := []J{}
	out["v"], out["nt"], out["vr"], out["rn"], out["re"], out["v0"] = 0, []string{}, 0, []string{}, "ok", 0
	if e == "ok" {
		v, nt := r.Walk(s.FS, "/", true)
		out["v"], out["nt"], out["v0"] = v, nt, v
		if err := rebuilt(out, name); err != nil {
			return nil, err
		}
		hs, err := s.MP.GetHeaders(context.Background())
		if err != nil {
			return nil, err
		}
		ops := j.Tail
		if len(hs) == len(r.vlist[v-1]) && !r.unreadable(v) {
			ops = append(append([]Op{}, j.Free...), j.Tail...)
		}
		for i, o := range ops {
			b0, err := s.TapeBytes()
			if err != nil {
				return nil, err
			}
			rs := s.Do(r, o, j.style(i))
			if rs.X == nil {
				rs.X = J{}
			}
			rs.X["_"] = 0
			b1, err := s.TapeBytes()
			if err != nil {
				return nil, err
			}
			st := J{"o": opJSON(o), "e": rs.E, "ew": rs.EW, "ec": rs.EC, "d": rs.D, "x": rs.X, "now": []int{}, "old": len(b0), "keep": commonPrefix(b0, b1), "len": len(b1)}
			st["v"], st["nt"] = r.Walk(s.FS, "/", true)
			if err := rebuilt(st, fmt.Sprintf("%s-%d", name, i)); err != nil {
				return nil, err
			}
			steps = append(steps, st)
		}
	}
	out["steps"] = steps
	r.tables(out)
	return out, nil
}

// unreadable returns whether the content of any file of a view could not be read
func (r *Rec) unreadable(v int) bool {
	for _, id := range r.vlist[v-1] {
		var e struct {
			C []int `json:"c"`
		}
		_ = json.Unmarshal(r.elist[id-1], &e)
		if len(e.C) > 0 && e.C[0] == -9 {
			return true
		}
	}
	return false
}

var _ = io.EOF
