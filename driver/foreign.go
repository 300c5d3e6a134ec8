package main

import (
	"archive/tar"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/cache"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/fs"
	"github.com/spf13/afero"
)

// foreignMember is a member of an archive which something else has written
type foreignMember struct {
	P   []string `json:"p"`
	K   string   `json:"k"` // d, f, o, l or h
	M   int      `json:"m"`
	UID int      `json:"u"`
	GID int      `json:"g"`
	T   int      `json:"t"`
	C   []int    `json:"c"`
	L   string   `json:"l"` // What a link refers to
}

// foreignJob opens such an archive as a file system
type foreignJob struct {
	HistJob
	Members []foreignMember `json:"members"`
	Root    string          `json:"root"` // How the root is spelled: ./, /, or a directory which ends with a slash
	Format  string          `json:"format"`
	Pad     int             `json:"pad"` // Pad the archive to a multiple of this many blocks
	Seed    int64           `json:"seed"`
	Caches  bool            `json:"caches"`
	Global  bool            `json:"global"` // Whether global PAX records come first, such as those which git writes
}

// archive returns the archive and the format that has been used
func (j *foreignJob) archive(r *Rec) ([]byte, string, []J, error) {
	f := map[string]tar.Format{"ustar": tar.FormatUSTAR, "pax": tar.FormatPAX, "gnu": tar.FormatGNU}[j.Format]
	for {
		b, ms, err := j.write(r, f)
		if err == nil {
			for pad := j.Pad * blockBytes; pad > 0 && len(b)%pad != 0; {
				b = append(b, make([]byte, blockBytes)...)
			}
			return b, f.String(), ms, nil
		}
		if f != tar.FormatUSTAR {
			return nil, "", nil, err
		}
		f = tar.FormatPAX // Not everything fits into the old format
	}
}

func (j *foreignJob) write(r *Rec, f tar.Format) ([]byte, []J, error) {
	buf := &bytes.Buffer{}
	tw := tar.NewWriter(buf)
	out := []J{}
	if j.Global && f == tar.FormatPAX {
		if err := tw.WriteHeader(&tar.Header{Name: "pax_global_header", Typeflag: tar.TypeXGlobalHeader, PAXRecords: map[string]string{"comment": strings.Repeat("0123456789abcdef", 1+int(j.Seed)%60)}}); err != nil {
			return nil, nil, err
		}
	}
	for _, m := range j.Members {
		rel := strings.TrimPrefix(r.concretePath(m.P), "/")
		name := rawName(j.Root) + rel
		content := r.Tok.Encode(m.C)
		h := &tar.Header{Name: name, Mode: int64(m.M), Uid: m.UID, Gid: m.GID, ModTime: plainTime(m.T), Format: f, Typeflag: tar.TypeReg, Uname: "someone", Gname: "group"}
		switch m.K {
		case "d":
			h.Typeflag = tar.TypeDir
			if !strings.HasSuffix(h.Name, "/") {
				h.Name += "/"
			}
		case "o":
			h.Typeflag = tar.TypeFifo
		case "l":
			h.Typeflag, h.Linkname = tar.TypeSymlink, m.L
		case "h":
			h.Typeflag, h.Linkname = tar.TypeLink, rawName(j.Root)+m.L
		default:
			h.Size = int64(len(content))
		}
		if f != tar.FormatPAX {
			h.ModTime = h.ModTime.Round(time.Second)
		}
		if err := tw.WriteHeader(h); err != nil {
			return nil, nil, err
		}
		if h.Size > 0 {
			if _, err := tw.Write(content); err != nil {
				return nil, nil, err
			}
		}
		c := m.C
		if c == nil {
			c = []int{}
		}
		p := m.P
		if p == nil {
			p = []string{}
		}
		out = append(out, J{"p": p, "k": m.K, "m": m.M, "u": m.UID, "g": m.GID, "mt": r.time(h.ModTime), "c": c})
	}
	if err := tw.Close(); err != nil {
		return nil, nil, err
	}
	return buf.Bytes(), out, nil
}

// compose makes a file system out of an index in the documented way
func (w *World) compose(f *fs.STFS, kind string) (afero.Fs, string, error) {
	root, err := f.Initialize("/", os.ModePerm)
	if err != nil {
		return nil, "", err
	}
	v, err := cache.NewCacheFilesystem(f, root, kind, 0, filepath.Join(w.Dir, "fscache"))
	return v, root, err
}

// look records the tree which an index which has been built in some way shows
func (w *World) look(r *Rec, s J, key string, mp config.MetadataPersister, err error) {
	s[key+"e"], s[key+"v"], s[key+"n"] = class(err), 0, []string{}
	if err == nil {
		v, _, cerr := w.compose(w.fsOver(mp), config.NoneKey)
		s[key+"e"] = class(cerr)
		if cerr == nil {
			s[key+"v"], s[key+"n"] = r.Walk(v, "/", false)
		}
		err = cerr
	}
	if err != nil {
		s[key+"d"] = err.Error()
	}
}

func init() {
	runners["foreign"] = func(raw json.RawMessage) (J, error) {
		var j foreignJob
		if err := json.Unmarshal(raw, &j); err != nil {
			return nil, err
		}
		rng := rand.New(rand.NewSource(j.Seed))
		w, err := NewWorld(j.Cfg)
		if err != nil {
			return nil, err
		}
		defer w.Close()
		r := j.rec()
		b, format, members, err := j.archive(r)
		if err != nil {
			return nil, err
		}
		if w.Tape != nil {
			// Whatever writes to a tape writes whole records
			for len(b)%(j.Cfg.RS*blockBytes) != 0 {
				b = append(b, make([]byte, blockBytes)...)
			}
			for i := 0; i < len(b); i += j.Cfg.RS * blockBytes {
				w.Tape.recs = append(w.Tape.recs, append([]byte{}, b[i:i+j.Cfg.RS*blockBytes]...))
			}
			w.Tape.recs = append(w.Tape.recs, nil)
		} else if err := os.WriteFile(w.Drive, b, 0600); err != nil {
			return nil, err
		}

		out := J{"members": members, "format": format, "root": j.Root, "e": "ok", "g": j.G, "own": J{"u": os.Getuid(), "g": os.Getgid()},
			"v0": 0, "n0": []string{}, "sp": []J{}, "steps": []J{}, "ca": []J{}, "kept": true}
		done := func(err error) (J, error) {
			out["e"] = class(err)
			if err != nil {
				out["d"] = err.Error()
			}
			r.tables(out)
			return out, nil
		}
		if err := w.Build(); err != nil {
			return nil, err
		}
		v, root, err := w.compose(w.FS, config.NoneKey)
		if err != nil {
			return done(err)
		}
		w.View = v
		out["found"] = root
		out["v0"], out["n0"] = r.Walk(v, "/", false)
		after, err := w.TapeBytes()
		if err != nil {
			return nil, err
		}
		out["kept"] = bytes.Equal(after, b)

		// All spellings of the paths of members, and of paths which are none
		spell := func(rec func(p []string)) {
			for _, m := range j.Members {
				rec(m.P)
			}
			for _, m := range j.Members {
				if m.K == "d" {
					rec(append(append([]string{}, m.P...), "nothing"))
				}
			}
		}
		sps := []J{}
		seen := func(f afero.Fs, n string) string {
			i, err := f.Stat(n)
			if err != nil {
				return class(err)
			}
			d := fmt.Sprintf("%v %v %v", kindOf(i), i.Size(), i.ModTime().UnixNano())
			if i.Mode().IsRegular() {
				b, err := readAll(f, n)
				d += fmt.Sprintf(" %v %v", class(err), r.Tok.Decode(b))
			}
			return d
		}
		spell(func(p []string) {
			s := J{"p": p}
			if p == nil {
				s["p"] = []string{}
			}
			st := []string{}
			for style := 0; style < 5; style++ {
				st = append(st, seen(v, r.spelling(p, style)))
			}
			// The same path without the view
			full := strings.TrimPrefix(path.Join("/", root, r.concretePath(p)), "/")
			for _, prefix := range []string{"/", "", "./"} {
				st = append(st, seen(w.FS, prefix+full))
			}
			s["st"] = st
			sps = append(sps, s)
		})
		out["sp"] = sps

		// The other ways of caching
		if j.Caches {
			cas := []J{}
			for _, kind := range []string{config.FileSystemCacheTypeMemory, config.FileSystemCacheTypeDir} {
				v, err := cache.NewCacheFilesystem(w.fsOver(w.MP), root, kind, 0, filepath.Join(w.Dir, "fscache"))
				if err != nil {
					return done(err)
				}
				for k := 0; k < 2; k++ {
					for _, m := range j.Members {
						full := r.concretePath(m.P)
						e := J{"p": m.P, "k": "?", "c": []int{}, "ch": []string{}, "e": "ok", "type": kind}
						if m.P == nil {
							e["p"] = []string{}
						}
						i, err := v.Stat(full)
						if err == nil {
							e["k"] = kindOf(i)
						}
						if err == nil && i.Mode().IsRegular() {
							var b []byte
							b, err = readAll(v, full)
							e["c"] = r.Tok.Decode(b)
						}
						if err == nil && i.IsDir() {
							var names []string
							var h afero.File
							if h, err = v.Open(full); err == nil {
								names, err = h.Readdirnames(-1)
								_ = h.Close()
							}
							ch := []string{}
							for _, n := range names {
								ch = append(ch, r.name(path.Base(n)))
							}
							e["ch"] = ch
						}
						e["e"] = class(err)
						cas = append(cas, e)
					}
				}
			}
			out["ca"] = cas
		}

		steps := []J{}
		for i, o := range j.Ops {
			t0 := time.Now()
			res := w.Do(r, o, j.style(i))
			t1 := time.Now()
			if res.X == nil {
				res.X = J{}
			}
			res.X["_"] = 0
			s := J{"o": opJSON(o), "e": res.E, "ew": res.EW, "ec": res.EC, "d": res.D, "x": res.X}
			s["v"], s["nt"] = r.Walk(w.View, "/", false)
			// Rebuilt by the indexer, rebuilt by opening, and opened once more
			mp, err := w.freshPersister("ri.sqlite")
			if err != nil {
				return nil, err
			}
			w.look(r, s, "r", mp, w.indexInto(mp, true, nil, nil))
			if mp, err = w.freshPersister("io.sqlite"); err != nil {
				return nil, err
			}
			w.look(r, s, "m", mp, nil)
			if rng.Intn(3) == 0 || i == len(j.Ops)-1 {
				db, err := w.copyDB("oo.sqlite")
				if err != nil {
					return nil, err
				}
				if mp, err = openPersister(db); err != nil {
					return nil, err
				}
				w.look(r, s, "o", mp, nil)
			} else {
				s["oe"], s["ov"], s["on"] = "ok", s["v"], []string{}
			}
			s["now"] = r.between(t0, t1)
			steps = append(steps, s)
		}
		out["steps"] = steps
		after, err = w.TapeBytes()
		if err != nil {
			return nil, err
		}
		// What has been written later follows what has been there, whose trailer may be replaced
		end := len(b)
		for end >= blockBytes && bytes.Equal(b[end-blockBytes:end], make([]byte, blockBytes)) {
			end -= blockBytes
		}
		out["kept"] = out["kept"].(bool) && len(after) >= end && bytes.Equal(after[:end], b[:end])
		return done(nil)
	}
}

var _ = io.EOF
