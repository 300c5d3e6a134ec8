package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"io"
	iofs "io/fs"
	"os"
	"path"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
)

// Op is one call of a history. Paths are sequences of abstract names.
type Op struct {
	Op    string   `json:"op"`
	P     []string `json:"p"`
	Q     []string `json:"q,omitempty"`
	Acc   string   `json:"acc,omitempty"` // r, w, rw
	Creat bool     `json:"creat,omitempty"`
	Excl  bool     `json:"excl,omitempty"`
	Trunc bool     `json:"trunc,omitempty"`
	App   bool     `json:"app,omitempty"`
	Mode  int      `json:"m"`
	UID   int      `json:"u"`
	GID   int      `json:"g"`
	T     int      `json:"t"` // Time value
	C     []int    `json:"c"` // Tokens to write
	K     string   `json:"k,omitempty"`
	Repl  bool     `json:"repl,omitempty"`
	Items []Item   `json:"items,omitempty"`
	N     int      `json:"n"`
}

// Item is one member of a batched archive or update call
type Item struct {
	P []string `json:"p"`
	K string   `json:"k"`
	M int      `json:"m"`
	C []int    `json:"c"`
}

var timeBase = time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)

// timeValue returns the concrete time of an abstract time value
func timeValue(t int) time.Time {
	switch t {
	case 2:
		return plainTime(t).In(time.FixedZone("", -5*3600-1800))
	case 4:
		return time.Date(1907, 8, 9, 10, 11, 12, 987654321, time.UTC)
	case 5:
		return time.Date(2261, 8, 9, 10, 11, 12, 1, time.UTC)
	case 6:
		return time.Unix(0, 0)
	case 7:
		return time.Date(2001, 9, 9, 1, 46, 40, 999999999, time.UTC)
	}
	return plainTime(t)
}

// plainTime is a time which all archive formats can represent after rounding
func plainTime(t int) time.Time {
	return timeBase.Add(time.Duration(t)*37*time.Hour + time.Duration(t)*123456789*time.Nanosecond)
}

// fileMode returns the mode of permission bits as Unix numbers them
func fileMode(m int) os.FileMode {
	mode := os.FileMode(m) & os.ModePerm
	for bit, flag := range map[int]os.FileMode{04000: os.ModeSetuid, 02000: os.ModeSetgid, 01000: os.ModeSticky} {
		if m&bit != 0 {
			mode |= flag
		}
	}
	return mode
}

// modeBits is the inverse of fileMode
func modeBits(mode os.FileMode) int {
	m := int(mode.Perm())
	for bit, flag := range map[int]os.FileMode{04000: os.ModeSetuid, 02000: os.ModeSetgid, 01000: os.ModeSticky} {
		if mode&flag != 0 {
			m |= bit
		}
	}
	return m
}

func openFlags(o Op) int {
	f := os.O_RDONLY
	switch o.Acc {
	case "w":
		f = os.O_WRONLY
	case "rw":
		f = os.O_RDWR
	}
	if o.Creat {
		f |= os.O_CREATE
	}
	if o.Excl {
		f |= os.O_EXCL
	}
	if o.Trunc {
		f |= os.O_TRUNC
	}
	if o.App {
		f |= os.O_APPEND
	}
	return f
}

type memInfo struct {
	name string
	size int64
	mode os.FileMode
	mt   time.Time
}

func (i memInfo) Name() string       { return i.name }
func (i memInfo) Size() int64        { return i.size }
func (i memInfo) Mode() os.FileMode  { return i.mode }
func (i memInfo) ModTime() time.Time { return i.mt }
func (i memInfo) IsDir() bool        { return i.mode.IsDir() }
func (i memInfo) Sys() interface{}   { return nil }

type srcReader struct {
	*bytes.Reader
	s *Seams
}

func (r srcReader) Read(p []byte) (int, error) {
	if err := r.s.at("src.read"); err != nil {
		return 0, err
	}
	return r.Reader.Read(p)
}
func (r srcReader) Close() error { return nil }

// result of a call: the classes of its steps
type result struct {
	E  string // The call itself (or opening, if it is a compound call)
	EW string // Writing
	EC string // Closing
	D  string // Details
	X  J      // Further observations
}

func ok3(err error) result {
	r := result{E: class(err), EW: "ok", EC: "ok"}
	if err != nil {
		r.D = err.Error()
	}
	return r
}

// spelling returns the concrete spelling of a path
func (r *Rec) spelling(p []string, style int) string {
	c := r.concretePath(p)
	switch style {
	case 1:
		if c == "/" {
			return "."
		}
		return strings.TrimPrefix(c, "/")
	case 2:
		if c == "/" {
			return "./"
		}
		return "./" + strings.TrimPrefix(c, "/")
	case 3:
		if c == "/" {
			return c
		}
		return c + "/"
	case 4:
		return path.Dir(c) + "//" + path.Base(c)
	}
	return c
}

func (w *World) sources(r *Rec, items []Item) func() (config.FileConfig, error) {
	i := 0
	return func() (config.FileConfig, error) {
		if err := w.Seams.at("src.next"); err != nil {
			return config.FileConfig{}, err
		}
		if i >= len(items) {
			return config.FileConfig{}, io.EOF
		}
		it := items[i]
		i++
		full := r.concretePath(it.P)
		content := r.Tok.Encode(it.C)
		mode := fileMode(it.M)
		if it.K == "d" {
			mode |= os.ModeDir
			content = nil
		}
		return config.FileConfig{
			GetFile: func() (io.ReadSeekCloser, error) {
				if err := w.Seams.at("src.open"); err != nil {
					return nil, err
				}
				return srcReader{bytes.NewReader(content), w.Seams}, nil
			},
			Info: memInfo{path.Base(full), int64(len(content)), mode, timeValue(it.M)},
			Path: full,
		}, nil
	}
}

// Do executes one call of a history against the file system
func (w *World) Do(r *Rec, o Op, style int) (res result) {
	defer func() {
		if p := recover(); p != nil {
			res = result{E: "panic", EW: "ok", EC: "ok", D: fmt.Sprint(p)}
		}
	}()
	p, q := r.spelling(o.P, style), r.spelling(o.Q, style)
	f := w.fs()
	switch o.Op {
	case "open", "create":
		var h interface {
			Write([]byte) (int, error)
			Close() error
		}
		var err error
		if o.Op == "create" {
			h, err = f.Create(p)
		} else {
			h, err = f.OpenFile(p, openFlags(o), fileMode(o.Mode))
		}
		res = ok3(err)
		if err != nil {
			return res
		}
		if len(o.C) > 0 {
			data := r.Tok.Encode(o.C)
			// Write in two steps
			half := len(data) / 2
			n1, err := h.Write(data[:half])
			n2 := 0
			if err == nil || half == 0 {
				n2, err = h.Write(data[half:])
			}
			if err == nil && n1+n2 != len(data) {
				err = io.ErrShortWrite
			}
			res.EW = class(err)
			if err != nil {
				res.D += err.Error()
			}
		}
		if err := h.Close(); err != nil {
			res.EC = class(err)
			res.D += err.Error()
		}
		return res
	case "read":
		b, err := readAll(f, p)
		res = ok3(err)
		res.X = J{"rc": r.Tok.Decode(b)}
		return res
	case "mkdir":
		return ok3(f.Mkdir(p, fileMode(o.Mode)))
	case "mkdirall":
		return ok3(f.MkdirAll(p, fileMode(o.Mode)))
	case "remove":
		return ok3(f.Remove(p))
	case "removeall":
		return ok3(f.RemoveAll(p))
	case "rename":
		return ok3(f.Rename(p, q))
	case "chmod":
		return ok3(f.Chmod(p, fileMode(o.Mode)))
	case "chown":
		return ok3(f.Chown(p, o.UID, o.GID))
	case "chtimes":
		return ok3(f.Chtimes(p, timeValue(o.T), timeValue(o.T+1)))
	case "stat":
		i, err := f.Stat(p)
		res = ok3(err)
		if err == nil {
			res.X = J{"sk": kindOf(i), "sn": i.Size()}
		}
		return res
	case "list":
		h, err := f.Open(p)
		if err != nil {
			return ok3(err)
		}
		names, err := h.Readdirnames(o.N)
		if cerr := h.Close(); err == nil {
			err = cerr
		}
		res = ok3(err)
		abs := []string{}
		for _, n := range names {
			abs = append(abs, r.name(n))
		}
		res.X = J{"ln": abs}
		return res
	case "symlink":
		return ok3(w.FS.SymlinkIfPossible(p, q))
	case "archive":
		_, err := w.WriteOps.Archive(w.sources(r, o.Items), w.Cfg.Level, false, false)
		return ok3(err)
	case "opupdate":
		_, err := w.WriteOps.Update(w.sources(r, o.Items), w.Cfg.Level, o.Repl, true)
		return ok3(err)
	case "opdelete":
		return ok3(w.WriteOps.Delete(p))
	case "opmove":
		return ok3(w.WriteOps.Move(p, q))
	case "badlevel":
		if o.Repl {
			_, err := w.WriteOps.Update(w.sources(r, o.Items), "verif-unsupported", true, false)
			return ok3(err)
		}
		_, err := w.WriteOps.Archive(w.sources(r, o.Items), "verif-unsupported", false, false)
		return ok3(err)
	case "oprestore":
		out := map[string]*bytes.Buffer{}
		err := w.ReadOps.Restore(func(path string, mode iofs.FileMode) (io.WriteCloser, error) {
			b := &bytes.Buffer{}
			out[path] = b
			return nopWC{b}, nil
		}, func(string, iofs.FileMode) error { return nil }, p, "", true)
		return ok3(err)
	}
	fatal(fmt.Errorf("unknown op %q", o.Op))
	return
}

type nopWC struct{ io.Writer }

func (nopWC) Close() error { return nil }

var _ = tar.TypeReg
