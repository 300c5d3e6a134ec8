package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"context"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/spf13/afero"
)

// pipeItem is a content which is written
type pipeItem struct {
	P    []string `json:"p"`
	N    int      `json:"n"`
	Dist string   `json:"dist"`
	Seed int64    `json:"seed"`
}

type pipeStep struct {
	How   string     `json:"how"`
	Items []pipeItem `json:"items"`
	Chunk int        `json:"chunk"` // How much is written at once, or a source returns at once
}

// pipeJob writes contents in several ways, and reads them in all ways
type pipeJob struct {
	HistJob
	Steps []pipeStep `json:"steps"`
	Seed  int64      `json:"seed"`
}

func (i pipeItem) content() []byte {
	rng := rand.New(rand.NewSource(i.Seed))
	b := make([]byte, i.N)
	switch i.Dist {
	case "zeros":
	case "ones":
		for k := range b {
			b[k] = 0xff
		}
	case "text":
		words := []string{"tape ", "drive ", "record\n", "of ", "the ", "Bandlaufwerk ", "日本 "}
		t := []byte{}
		for len(t) < i.N {
			t = append(t, words[rng.Intn(len(words))]...)
		}
		copy(b, t)
	case "tar":
		// What looks like the tape itself
		buf := &bytes.Buffer{}
		tw := tar.NewWriter(buf)
		for k := 0; buf.Len() < i.N; k++ {
			_ = tw.WriteHeader(&tar.Header{Name: fmt.Sprintf("/inner%d", k), Mode: 0600, Size: 3, PAXRecords: map[string]string{"STFS.Version": "1", "STFS.Action": "DELETE"}})
			_, _ = tw.Write([]byte("abc"))
			_ = tw.Flush()
		}
		copy(b, buf.Bytes())
	case "gz":
		// What is compressed already
		buf := &bytes.Buffer{}
		gw := gzip.NewWriter(buf)
		for buf.Len() < i.N {
			_, _ = gw.Write([]byte(fmt.Sprint(rng.Int63())))
			_ = gw.Flush()
		}
		copy(b, buf.Bytes())
	case "sparse":
		for k := 0; k < i.N/97+1 && i.N > 0; k++ {
			b[rng.Intn(i.N)] = byte(rng.Intn(256))
		}
	default:
		rng.Read(b)
	}
	return b
}

// pieces returns at most n bytes at once, and the end of the content together with its last bytes
type pieces struct {
	*bytes.Reader
	n int
}

func (p *pieces) Read(b []byte) (int, error) {
	if p.n > 0 && len(b) > p.n {
		b = b[:p.n]
	}
	n, err := p.Reader.Read(b)
	if err == nil && p.Reader.Len() == 0 && p.n%2 == 1 {
		err = io.EOF
	}
	return n, err
}
func (p *pieces) WriteTo(io.Writer) (int64, error) { panic("not to be used") }
func (p *pieces) Close() error                     { return nil }

type plainPieces struct{ p *pieces }

func (p plainPieces) Read(b []byte) (int, error)         { return p.p.Read(b) }
func (p plainPieces) Seek(o int64, w int) (int64, error) { return p.p.Seek(o, w) }
func (p plainPieces) Close() error                       { return nil }

func init() {
	runners["pipe"] = func(raw json.RawMessage) (J, error) {
		var j pipeJob
		if err := json.Unmarshal(raw, &j); err != nil {
			return nil, err
		}
		rng := rand.New(rand.NewSource(j.Seed))
		w, err := NewWorld(j.Cfg)
		if err != nil {
			return nil, err
		}
		defer w.Close()
		r := j.rec()
		if err := w.Open(); err != nil {
			return J{"fail": "initialize: " + err.Error()}, nil
		}

		ids := map[string]int{}
		id := func(b []byte) int {
			h := sha256.Sum256(b)
			k := fmt.Sprint(len(b), h)
			n, ok := ids[k]
			if !ok {
				n = len(ids) + 1
				ids[k] = n
			}
			return n
		}
		write := func(f afero.File, b []byte, chunk int) error {
			for k := 0; len(b) > 0; k++ {
				n := chunk
				if n <= 0 || n > len(b) {
					n = len(b)
				}
				if m, err := f.Write(b[:n]); err != nil {
					return err
				} else if m != n {
					return io.ErrShortWrite
				}
				b = b[n:]
				if k == 1 && rng.Intn(3) == 0 {
					if err := f.Sync(); err != nil {
						return err
					}
				}
			}
			return nil
		}
		source := func(items []pipeItem, chunk int) func() (config.FileConfig, error) {
			k := 0
			return func() (config.FileConfig, error) {
				if k == len(items) {
					return config.FileConfig{}, io.EOF
				}
				it := items[k]
				k++
				b := it.content()
				full := r.concretePath(it.P)
				return config.FileConfig{
					GetFile: func() (io.ReadSeekCloser, error) { return plainPieces{&pieces{bytes.NewReader(b), chunk}}, nil },
					Info:    memInfo{path.Base(full), int64(len(b)), 0640, timeValue(1)},
					Path:    full,
				}, nil
			}
		}
		do := func(s pipeStep) (err error) {
			defer func() {
				if p := recover(); p != nil {
					err = fmt.Errorf("panic: %v", p)
				}
			}()
			switch s.How {
			case "archive":
				_, err := w.WriteOps.Archive(source(s.Items, s.Chunk), w.Cfg.Level, false, false)
				return err
			case "opupdate":
				_, err := w.WriteOps.Update(source(s.Items, s.Chunk), w.Cfg.Level, true, true)
				return err
			}
			if s.How == "multi" {
				// Several files which are open at the same time
				fs, rest := []afero.File{}, [][]byte{}
				for _, it := range s.Items {
					f, err := w.FS.OpenFile(r.concretePath(it.P), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
					if err != nil {
						return err
					}
					fs, rest = append(fs, f), append(rest, it.content())
				}
				for open := len(fs); open > 0; {
					k := rng.Intn(len(fs))
					if fs[k] == nil {
						continue
					}
					n := s.Chunk
					if n <= 0 || n > len(rest[k]) {
						n = len(rest[k])
					}
					if err := write(fs[k], rest[k][:n], 0); err != nil {
						return err
					}
					rest[k] = rest[k][n:]
					if len(rest[k]) == 0 && rng.Intn(2) == 0 {
						if err := fs[k].Close(); err != nil {
							return err
						}
						fs[k] = nil
						open--
					}
				}
				return nil
			}
			flags := map[string]int{"create": os.O_RDWR | os.O_CREATE | os.O_TRUNC, "excl": os.O_WRONLY | os.O_CREATE | os.O_EXCL, "trunc": os.O_WRONLY | os.O_TRUNC, "over": os.O_RDWR}[s.How]
			for _, it := range s.Items {
				f, err := w.FS.OpenFile(r.concretePath(it.P), flags, 0644)
				if err != nil {
					return err
				}
				if s.How == "over" {
					// Replaced in place
					if err := f.Truncate(0); err != nil {
						return err
					}
				}
				if err := write(f, it.content(), s.Chunk); err != nil {
					return err
				}
				if err := f.Close(); err != nil {
					return err
				}
			}
			return nil
		}

		reads := []J{}
		note := func(p []string, via string, b []byte, err error) {
			e := J{"p": p, "via": via, "e": class(err), "id": 0, "d": ""}
			if err == nil {
				e["id"] = id(b)
			} else {
				e["d"] = err.Error()
			}
			reads = append(reads, e)
		}
		size := func(p []string, via string, n int64, err error) {
			e := J{"p": p, "via": via, "e": class(err), "id": n, "d": ""}
			if err != nil {
				e["id"], e["d"] = -1, err.Error()
			}
			reads = append(reads, e)
		}
		guard := func(p []string, via string, fn func() ([]byte, error)) {
			var b []byte
			var err error
			func() {
				defer func() {
					if x := recover(); x != nil {
						err = callError(fmt.Sprintf("panic: %v", x))
					}
				}()
				b, err = fn()
			}()
			note(p, via, b, err)
		}
		chunked := func(f afero.Fs, name string) ([]byte, error) {
			h, err := f.Open(name)
			if err != nil {
				return nil, err
			}
			defer h.Close()
			out := []byte{}
			for {
				b := make([]byte, []int{1, 7, 100, 511, 4096, 33000}[rng.Intn(6)])
				n, err := h.Read(b)
				out = append(out, b[:n]...)
				if err == io.EOF {
					return out, nil
				}
				if err != nil {
					return out, err
				}
				if n == 0 {
					return out, io.ErrNoProgress
				}
			}
		}
		at := func(f afero.Fs, name string, n int) ([]byte, error) {
			h, err := f.Open(name)
			if err != nil {
				return nil, err
			}
			defer h.Close()
			out := make([]byte, n)
			// The second half before the first one
			half := n / 2
			for _, s := range [][2]int{{half, n}, {0, half}} {
				if s[0] == s[1] {
					continue
				}
				if m, err := h.ReadAt(out[s[0]:s[1]], int64(s[0])); err != nil && !(err == io.EOF && m == s[1]-s[0]) {
					return nil, err
				}
			}
			return out, nil
		}
		type known struct {
			p []string
			n int
		}
		files := map[string]known{}
		look := func(pre string, f afero.Fs, mp config.MetadataPersister, all bool) error {
			hs, err := mp.GetHeaders(context.Background())
			if err != nil {
				return err
			}
			for name, k := range files {
				name := name
				guard(k.p, pre+"fs", func() ([]byte, error) { return readAll(f, name) })
				i, err := f.Stat(name)
				n := int64(-1)
				if err == nil {
					n = i.Size()
				}
				size(k.p, pre+"stat", n, err)
				if !all {
					continue
				}
				guard(k.p, pre+"chunks", func() ([]byte, error) { return chunked(f, name) })
				guard(k.p, pre+"at", func() ([]byte, error) { return at(f, name, k.n) })
				rows := 0
				for _, h := range hs {
					if h.Name == name {
						rows++
						size(k.p, pre+"row", h.Size, nil)
						rec, blk := h.Record, h.Block
						guard(k.p, pre+"fetch", func() ([]byte, error) { return w.fetch(rec, blk, nil) })
					}
				}
				if rows != 1 {
					size(k.p, pre+"row", int64(-1-rows), nil)
				}
				h, err := f.Open(path.Dir(name))
				if err != nil {
					return err
				}
				is, err := h.Readdir(-1)
				_ = h.Close()
				for _, i := range is {
					if i.Name() == path.Base(name) {
						size(k.p, pre+"list", i.Size(), err)
					}
				}
			}
			return nil
		}

		steps := []J{}
		for si, s := range j.Steps {
			err := do(s)
			items := []J{}
			for _, it := range s.Items {
				b := it.content()
				items = append(items, J{"p": it.P, "id": id(b), "n": len(b)})
				files[r.concretePath(it.P)] = known{it.P, len(b)}
			}
			st := J{"how": s.How, "items": items, "e": class(err), "d": ""}
			if err != nil {
				st["d"] = err.Error()
			}
			reads = []J{}
			last := si == len(j.Steps)-1
			if err := look("", w.FS, w.MP, last || rng.Intn(3) == 0); err != nil {
				return nil, err
			}
			for name, k := range files {
				name := name
				guard(k.p, "restore", func() ([]byte, error) { return w.restore(w.ReadOps, name) })
			}
			if last {
				mp, err := w.freshPersister("re.sqlite")
				if err != nil {
					return nil, err
				}
				if err := w.indexInto(mp, true, nil, nil); err != nil {
					st["e"], st["d"] = class(err), err.Error()
				} else if err := look("re.", w.fsOver(mp), mp, true); err != nil {
					return nil, err
				}
				db, err := w.copyDB("op.sqlite")
				if err != nil {
					return nil, err
				}
				if mp, err = openPersister(db); err != nil {
					return nil, err
				}
				if err := look("op.", w.fsOver(mp), mp, false); err != nil {
					return nil, err
				}
			}
			st["reads"] = reads
			steps = append(steps, st)
		}
		return J{"steps": steps, "cfg": j.Cfg, "empty": id(nil)}, nil
	}
}
