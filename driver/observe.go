package main

import (
	"database/sql"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/fs"
	"github.com/spf13/afero"
)

var errInjected = errors.New("verif: injected error")
var errTorn = errors.New("verif: write has been cut off")

// class projects an error onto the classes which the specification distinguishes
func class(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, os.ErrNotExist), errors.Is(err, sql.ErrNoRows):
		return "notexist"
	case errors.Is(err, os.ErrExist):
		return "exist"
	case errors.Is(err, config.ErrDirectoryNotEmpty):
		return "notempty"
	case errors.Is(err, config.ErrIsDirectory):
		return "isdir"
	case errors.Is(err, config.ErrIsFile):
		return "isfile"
	case errors.Is(err, os.ErrPermission):
		return "perm"
	case errors.Is(err, os.ErrInvalid):
		return "invalid"
	case errors.Is(err, errInjected), errors.Is(err, errTorn):
		return "injected"
	case errors.Is(err, io.EOF):
		return "eof"
	default:
		return "other"
	}
}

// Tokens represent content as a sequence of units of G bytes. Token 0 is a unit of zero bytes.
type Tokens struct{ G int }

func (t Tokens) unit(tok int) []byte {
	u := make([]byte, t.G)
	if tok == 0 {
		return u
	}
	switch {
	case t.G == 1:
		u[0] = byte(tok)
	case t.G < 4:
		binary.LittleEndian.PutUint16(u, uint16(tok))
	default:
		binary.LittleEndian.PutUint32(u, uint32(tok))
		x := uint64(tok)*0x9E3779B97F4A7C15 + 1
		compressible := tok%2 == 0
		for i := 4; i < t.G; i++ {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			if compressible {
				u[i] = byte('a' + x%4)
			} else {
				u[i] = byte(x >> 16)
			}
		}
	}
	return u
}

func (t Tokens) Encode(toks []int) []byte {
	out := make([]byte, 0, len(toks)*t.G)
	for _, tok := range toks {
		out = append(out, t.unit(tok)...)
	}
	return out
}

// Decode is the inverse of Encode; units which no token produces become negative
func (t Tokens) Decode(b []byte) []int {
	out := []int{}
	for i := 0; i < len(b); i += t.G {
		if i+t.G > len(b) {
			return append(out, -2)
		}
		u := b[i : i+t.G]
		tok := 0
		switch {
		case t.G == 1:
			tok = int(u[0])
		case t.G < 4:
			tok = int(binary.LittleEndian.Uint16(u))
		default:
			tok = int(binary.LittleEndian.Uint32(u))
			if tok < 0 || tok > 1<<24 || string(t.unit(tok)) != string(u) {
				tok = -1
			}
		}
		out = append(out, tok)
	}
	return out
}

// Rec interns the values of one trace
type Rec struct {
	Tok   Tokens
	names map[string]string // Concrete name -> abstract name
	conc  map[string]string
	times map[int64]int
	tlist []int64
	ents  map[string]int
	elist []json.RawMessage
	views map[string]int
	vlist [][]int
}

func NewRec(g int) *Rec {
	return &Rec{
		Tok: Tokens{g}, names: map[string]string{}, conc: map[string]string{},
		times: map[int64]int{}, ents: map[string]int{}, views: map[string]int{},
		elist: []json.RawMessage{}, vlist: [][]int{},
	}
}

// rawName replaces U+E000 to U+E0FF by the bytes they stand for, so that jobs can use names which are not valid UTF-8
func rawName(n string) string {
	var b []byte
	for _, c := range n {
		if c >= 0xe000 && c <= 0xe0ff {
			b = append(b, byte(c-0xe000))
		} else {
			b = utf8.AppendRune(b, c)
		}
	}
	return string(b)
}

func (r *Rec) bind(abstract, concrete string) {
	concrete = rawName(concrete)
	r.names[concrete] = abstract
	r.conc[abstract] = concrete
}

func (r *Rec) name(concrete string) string {
	if a, ok := r.names[concrete]; ok {
		return a
	}
	return "?" + hex.EncodeToString([]byte(concrete))
}

func (r *Rec) time(t time.Time) int {
	n := t.UnixNano()
	if t.IsZero() {
		n = -1
	}
	id, ok := r.times[n]
	if !ok {
		id = len(r.tlist) + 1
		r.times[n] = id
		r.tlist = append(r.tlist, n)
	}
	return id
}

// between returns the known times in an interval
func (r *Rec) between(a, b time.Time) []int {
	out := []int{}
	for i, n := range r.tlist {
		if n >= a.UnixNano() && n <= b.UnixNano() {
			out = append(out, i+1)
		}
	}
	return out
}

func (r *Rec) ent(e J) int {
	b, err := json.Marshal(e)
	if err != nil {
		fatal(err)
	}
	id, ok := r.ents[string(b)]
	if !ok {
		id = len(r.elist) + 1
		r.ents[string(b)] = id
		r.elist = append(r.elist, b)
	}
	return id
}

func (r *Rec) view(ids []int) int {
	k := fmt.Sprint(ids)
	id, ok := r.views[k]
	if !ok {
		id = len(r.vlist) + 1
		r.views[k] = id
		r.vlist = append(r.vlist, append([]int{}, ids...))
	}
	return id
}

// tables returns the interned values
func (r *Rec) tables(out J) {
	out["ents"] = r.elist
	out["views"] = r.vlist
}

func (r *Rec) abstractPath(rel string) []string {
	rel = strings.Trim(rel, "/")
	if rel == "" || rel == "." {
		return []string{}
	}
	out := []string{}
	for _, c := range strings.Split(rel, "/") {
		out = append(out, r.name(c))
	}
	return out
}

func (r *Rec) concretePath(p []string) string {
	out := ""
	for _, a := range p {
		c, ok := r.conc[a]
		if !ok {
			c = a
		}
		out += "/" + c
	}
	if out == "" {
		return "/"
	}
	return out
}

type kinder interface{ Mode() os.FileMode }

func kindOf(i os.FileInfo) string {
	switch {
	case i.IsDir():
		return "d"
	case i.Mode().IsRegular():
		return "f"
	case i.Mode()&os.ModeSymlink != 0:
		return "l"
	default:
		return "o"
	}
}

func readAll(f afero.Fs, name string) ([]byte, error) {
	h, err := f.Open(name)
	if err != nil {
		return nil, err
	}
	b, err := io.ReadAll(h)
	if cerr := h.Close(); err == nil {
		err = cerr
	}
	return b, err
}

// entry projects one entry, found under the path `full`
func (r *Rec) entry(f afero.Fs, full string, abstract []string, links bool) J {
	e := J{"p": abstract}
	info, err := f.Stat(full)
	if err != nil {
		e["k"] = "!" + class(err)
		return e
	}
	e["k"] = kindOf(info)
	e["n"] = info.Size()
	e["m"] = modeBits(info.Mode())
	e["mt"] = r.time(info.ModTime())
	if st, ok := info.Sys().(*fs.Stat); ok {
		e["u"] = int(st.Uid)
		e["g"] = int(st.Gid)
		e["at"] = r.time(time.Unix(0, st.Atim.Nano()))
		e["ct"] = r.time(time.Unix(0, st.Ctim.Nano()))
	}
	if info.IsDir() {
		e["n"] = 0
	}
	if s, ok := f.(*fs.STFS); ok && links {
		l, err := s.ReadlinkIfPossible(full)
		if err != nil {
			l = "!" + class(err)
		}
		e["l"] = l
		li, _, err := s.LstatIfPossible(full)
		if err != nil {
			e["ls"] = class(err)
		} else {
			e["ls"] = kindOf(li) + ":" + r.name(li.Name())
		}
	}
	if e["k"] == "f" {
		b, err := readAll(f, full)
		if err != nil {
			e["c"] = []int{-9}
			e["ce"] = class(err)
		} else {
			e["c"] = r.Tok.Decode(b)
		}
	} else {
		e["c"] = []int{}
	}
	return e
}

// Walk projects everything which is reachable by listing directories from the root
func (r *Rec) Walk(f afero.Fs, root string, links bool) (int, []string) {
	notes := []string{}
	ids := []int{r.ent(r.entry(f, root, []string{}, links))}
	var rec func(dir string, abs []string, depth int)
	rec = func(dir string, abs []string, depth int) {
		if depth > 12 {
			notes = append(notes, "deep")
			return
		}
		h, err := f.Open(dir)
		if err != nil {
			notes = append(notes, "open:"+class(err))
			return
		}
		infos, err := h.Readdir(-1)
		if cerr := h.Close(); err == nil {
			err = cerr
		}
		if err != nil {
			notes = append(notes, "readdir:"+class(err))
			return
		}
		for _, i := range infos {
			full := path.Join(dir, i.Name())
			a := append(append([]string{}, abs...), r.name(i.Name()))
			e := r.entry(f, full, a, links)
			ids = append(ids, r.ent(e))
			if e["k"] == "d" {
				if full == dir {
					notes = append(notes, "self")
					continue
				}
				rec(full, a, depth+1)
			}
		}
	}
	rec(root, []string{}, 0)
	sort.Ints(ids[1:])
	return r.view(ids), notes
}
