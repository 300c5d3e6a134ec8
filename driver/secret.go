package main

import (
	"archive/tar"
	"bytes"
	"context"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"

	"fmt"
	"io"
	iofs "io/fs"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/go-crypto/openpgp/packet"
	"github.com/pojntfx/stfs/pkg/compression"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/recovery"
)

type secretJob struct {
	HistJob
	Markers map[string][]string `json:"markers"` // Which must not be found, by what they are
	Fault   int                 `json:"fault"`   // Of so many calls, one is cut off
	Seed    int64               `json:"seed"`
	Extra   bool                `json:"extra"` // Archives members of other kinds at the end
}

// searcher finds secrets in bytes
type searcher struct {
	forms map[string]string // To what they are
	order [][]byte
}

func (s *searcher) form(what string, b []byte) {
	if len(b) < 6 {
		return
	}
	k := string(b)
	if _, ok := s.forms[k]; !ok {
		s.forms[k] = what
		s.order = append(s.order, []byte(k))
	}
}

// add adds a secret in all forms: as it is, as hexadecimal digits and as base64, which depends on the alignment
func (s *searcher) add(what string, b []byte) {
	s.form(what, b)
	if len(b) < 8 {
		return
	}
	s.form(what, []byte(hex.EncodeToString(b)))
	s.form(what, []byte(strings.ToUpper(hex.EncodeToString(b))))
	if j, err := json.Marshal(string(b)); err == nil {
		s.form(what, j[1:len(j)-1])
	}
	for _, enc := range []*base64.Encoding{base64.RawStdEncoding, base64.RawURLEncoding} {
		for a := 0; a < 3; a++ {
			e := enc.EncodeToString(append(make([]byte, a), b...))
			// Characters which are determined by the secret alone
			from, to := (a*8+5)/6, (a+len(b))*8/6
			s.form(what, []byte(e[from:to]))
		}
	}
}

func (s *searcher) find(b []byte, found map[string]bool) {
	for _, f := range s.order {
		if bytes.Contains(b, f) {
			found[s.forms[string(f)]] = true
		}
	}
}

// peel searches what can be decoded without a key
func (s *searcher) peel(b []byte, found map[string]bool) {
	s.find(b, found)
	for _, c := range []string{"gzip", "lz4", "zstandard", "brotli", "bzip2"} {
		func() {
			defer func() { _ = recover() }()
			d, err := compression.Decompress(bytes.NewReader(b), c)
			if err != nil {
				return
			}
			defer d.Close()
			x, _ := io.ReadAll(io.LimitReader(d, 1<<20))
			if len(x) > 0 {
				s.find(x, found)
			}
		}()
	}
}

// encrypted returns how something is encrypted, if it is
func encrypted(b []byte, ks *KeySet) string {
	if len(b) == 0 {
		return "none"
	}
	if bytes.HasPrefix(b, []byte("age-encryption.org/v1\n")) {
		ls := bytes.SplitN(b, []byte("\n"), 5)
		if len(ls) == 5 && bytes.HasPrefix(ls[1], []byte("-> X25519 ")) && bytes.HasPrefix(ls[3], []byte("--- ")) && len(ls[2]) == 43 {
			return "age"
		}
		return "otherwise: " + clip(strconv.QuoteToASCII(string(b[:40])))
	}
	r := packet.NewReader(bytes.NewReader(b))
	p, err := r.Next()
	k, ok := p.(*packet.EncryptedKey)
	if err != nil || !ok {
		return "otherwise"
	}
	if l, ok := ks.EncRecipient.(openpgp.EntityList); !ok || len(l.KeysById(k.KeyId)) == 0 {
		return "for others"
	}
	p, err = r.Next()
	se, ok := p.(*packet.SymmetricallyEncrypted)
	if err != nil || !ok || !se.IntegrityProtected {
		return "otherwise"
	}
	if _, err := io.Copy(io.Discard, se.Contents); err != nil {
		return "otherwise"
	}
	if _, err := r.Next(); err != io.EOF {
		return "with more"
	}
	return "pgp"
}

// outer returns what a header says in clear
func outer(h *tar.Header) []string {
	out := []string{}
	for what, is := range map[string]bool{
		"name": h.Name != "", "link": h.Linkname != "", "mode": h.Mode != 0, "owner": h.Uid != 0 || h.Gid != 0 || h.Uname != "" || h.Gname != "",
		"time": h.ModTime.Unix() != 0 && !h.ModTime.IsZero() || !h.AccessTime.IsZero() || !h.ChangeTime.IsZero(),
		"dev":  h.Devmajor != 0 || h.Devminor != 0, "kind": h.Typeflag != tar.TypeReg && h.Typeflag != 0, "size": h.Size != 0,
	} {
		if is {
			out = append(out, what)
		}
	}
	for k := range h.PAXRecords {
		if k == "STFS.EmbeddedHeader" {
			k = "wrapper"
		}
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// sysInfo is a source which knows more about itself
type sysInfo struct {
	memInfo
	sys *tar.Header
}

func (s sysInfo) Sys() interface{} { return s.sys }

// extra archives members of kinds which the file system does not create
func (w *World) extra(mk map[string][]string, body []byte) error {
	get := func(k string) string {
		if len(mk[k]) > 0 {
			return mk[k][0]
		}
		return "none"
	}
	sys := func() *tar.Header {
		return &tar.Header{Uid: 1876500321, Gid: 1876500322, Uname: get("uname"), Gname: get("gname"), AccessTime: timeValue(11), ChangeTime: timeValue(10),
			PAXRecords: map[string]string{"VERIF." + get("paxkey"): get("pax")}, Xattrs: map[string]string{"user." + get("paxkey"): get("pax")}}
	}
	type item struct {
		path, link string
		mode       os.FileMode
		body       []byte
	}
	items := []item{
		{"/" + get("extra") + "-file", "", 0640, body}, {"/" + get("extra") + "-dir", "", os.ModeDir | 0750, nil},
		{"/" + get("extra") + "-link", "/" + get("link"), os.ModeSymlink | 0777, nil}, {"/" + get("extra") + "-pipe", "", os.ModeNamedPipe | 0600, nil},
		{"/" + get("extra") + "-device", "", os.ModeDevice | os.ModeCharDevice | 0600, nil}, {"/" + get("extra") + "-empty", "", os.ModeSetuid | 0700, nil},
	}
	source := func(items []item) func() (config.FileConfig, error) {
		i := 0
		return func() (config.FileConfig, error) {
			if i >= len(items) {
				return config.FileConfig{}, io.EOF
			}
			it := items[i]
			i++
			return config.FileConfig{GetFile: func() (io.ReadSeekCloser, error) { return srcReader{bytes.NewReader(it.body), nil}, nil },
				Info: sysInfo{memInfo{name: it.path[1:], size: int64(len(it.body)), mode: it.mode, mt: timeValue(3)}, sys()}, Path: it.path, Link: it.link}, nil
		}
	}
	_, err := w.WriteOps.Archive(source(items), w.Cfg.Level, false, false)
	if err != nil {
		return err
	}
	for _, repl := range []bool{true, false} {
		if _, err := w.WriteOps.Update(source(items[:2]), w.Cfg.Level, repl, true); err != nil {
			return err
		}
	}
	if err := w.WriteOps.Move("/"+get("extra")+"-file", "/"+get("extra")+"-moved"); err != nil {
		return err
	}
	return w.WriteOps.Delete("/" + get("extra") + "-dir")
}

// stranger tries to read everything with another identity, and returns what succeeded
func (w *World) stranger(ks *KeySet, s *searcher, all bool, found map[string]bool) ([]string, error) {
	bad := []string{}
	succeeds := func(what string, err error) {
		if err == nil {
			bad = append(bad, what)
		}
	}
	noteHeader := func(h *config.Header) {
		bad = append(bad, "header")
		b, _ := json.Marshal(h)
		s.find(b, found)
	}
	rec := newRecorder()
	succeeds("index", w.indexInto(rec, true, ks, noteHeader))
	if len(rec.calls) > 0 {
		bad = append(bad, "rows")
	}
	o := w.Sibling("stranger.sqlite")
	for _, x := range []string{"", "-wal", "-shm", "-journal"} {
		_ = os.Remove(o.DB + x)
	}
	o.Keys = ks
	qs, err := o.query(nil)
	succeeds("query", err)
	if len(qs) > 0 {
		bad = append(bad, "header")
	}
	// Every member
	b, err := w.TapeBytes()
	if err != nil {
		return nil, err
	}
	addr := w.addresses()
	ms, _ := scan(b, 0)
	for _, m := range ms {
		a := addr(m.Off)
		got := &bytes.Buffer{}
		err := o.fetchTo(got, int64(a/w.Cfg.RS), int64(a%w.Cfg.RS), noteHeader)
		succeeds("fetch", err)
		if got.Len() > 0 {
			bad = append(bad, "content")
			s.find(got.Bytes(), found)
		}
		if !all {
			break
		}
	}
	if !all {
		return bad, nil
	}
	// With the index of the owner
	db, err := w.copyDB("owners.sqlite")
	if err != nil {
		return nil, err
	}
	p, err := openPersister(db)
	if err != nil {
		return nil, err
	}
	hs, err := p.GetHeaders(context.Background())
	if err != nil {
		return nil, err
	}
	fsys := o.fsOver(p)
	for _, h := range hs {
		x, err := o.restore(o.opsOver(p), h.Name)
		succeeds("restore", err)
		if len(x) > 0 {
			bad = append(bad, "content")
			s.find(x, found)
		}
		if (h.Typeflag == tar.TypeReg || h.Typeflag == 0) && h.Size > 0 {
			x, err := readAll(fsys, h.Name)
			succeeds("read", err)
			s.find(x, found)
		}
	}
	// By opening
	if err := o.Build(); err != nil {
		return nil, err
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				bad = append(bad, fmt.Sprint("panic: ", p))
			}
		}()
		_, err = o.FS.Initialize("/", os.ModePerm)
	}()
	succeeds("open", err)
	hs, err = o.MP.GetHeaders(context.Background())
	if err != nil {
		return nil, err
	}
	if len(hs) > 0 {
		bad = append(bad, "rows")
	}
	after, err := w.TapeBytes()
	if err != nil {
		return nil, err
	}
	if !bytes.Equal(b, after) {
		bad = append(bad, "tape")
	}
	return bad, nil
}

func (w *World) fetchTo(dst io.Writer, record, block int64, onHeader func(*config.Header)) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	r, mt, closer, err := w.reader()
	if err != nil {
		return err
	}
	defer closer()
	return recovery.Fetch(r, mt, w.pipes(), w.readCrypto(),
		func(string, iofs.FileMode) (io.WriteCloser, error) { return nopWC{dst}, nil },
		func(string, iofs.FileMode) error { return nil },
		int(record), int(block), "", false, onHeader)
}

func init() {
	runners["secret"] = func(raw json.RawMessage) (J, error) {
		var j secretJob
		if err := json.Unmarshal(raw, &j); err != nil {
			return nil, err
		}
		w, err := NewWorld(j.Cfg)
		if err != nil {
			return nil, err
		}
		defer w.Close()
		r := j.rec()
		s := &searcher{forms: map[string]string{}}
		for what, ms := range j.Markers {
			for _, m := range ms {
				s.add(what, []byte(m))
			}
		}
		for _, k := range []string{"STFS.Version", "STFS.Action", "STFS.Replaces", "STFS.UncompressedSize", "STFS.Signature", "PAXRecords", "Typeflag", "Linkname", "ModTime", "AccessTime"} {
			s.add("metadata", []byte(k))
		}
		instant := func(what string, t time.Time) {
			if u := t.Unix(); u > -1e8 && u < 1e8 {
				return // Its number could be anything
			}
			s.add(what, []byte(strconv.FormatInt(t.Unix(), 10)))
			s.add(what, []byte(strconv.FormatInt(t.Unix(), 8)))
			s.add(what, []byte(t.UTC().Format("2006-01-02T15:04")))
			s.add(what, []byte(t.Local().Format("2006-01-02T15:04")))
		}
		for i := 0; i < 14; i++ {
			instant("time", timeValue(i))
		}
		for t := -2; t < 90; t++ {
			instant("now", time.Now().Add(time.Duration(t)*time.Second))
		}
		toks := map[int]bool{}
		for _, o := range j.Ops {
			for _, t := range o.C {
				toks[t] = true
			}
			for _, it := range o.Items {
				instant("time", timeValue(it.M))
				for _, t := range it.C {
					toks[t] = true
				}
			}
		}
		for t := range toks {
			if u := r.Tok.unit(t); t != 0 {
				s.add("content", u[:24])
				if len(u) >= 48 {
					s.add("content", u[len(u)-24:])
				}
			}
		}
		fail, fired := 0, false
		w.Seams = &Seams{Hook: func(p string) error {
			if fail > 0 && p == "drive.write" {
				if fail--; fail == 0 {
					fired = true
					return errTorn
				}
			}
			return nil
		}}
		if err := w.Open(); err != nil {
			return J{"fail": "initialize: " + err.Error()}, nil
		}

		var seen int64
		dups, torn := map[string]int64{}, map[int64]bool{}
		look := func(o J, e string) (J, error) {
			b, err := w.TapeBytes()
			if err != nil {
				return nil, err
			}
			recs := []J{}
			ms, mal := scan(b, seen)
			found := map[string]bool{}
			for _, m := range ms {
				emb, err := base64.StdEncoding.DecodeString(m.Hdr.PAXRecords["STFS.EmbeddedHeader"])
				rec := J{"outer": outer(m.Hdr), "emb": encrypted(emb, w.Keys), "data": encrypted(m.Data, w.Keys), "torn": m.Cut || torn[m.Off], "again": false, "act": "", "kind": "", "has": false, "opened": true}
				if err != nil {
					rec["emb"] = "plain"
				}
				d := w.decode(m)
				rec["opened"] = d.Err == nil
				if d.Err == nil {
					rec["act"], rec["kind"] = d.Act, fileKind(&d.H)
					rec["has"] = d.Has && d.Logi > 0
					// What the header says is a secret, too
					for _, v := range d.H.PAXRecords {
						if len(v) >= 12 {
							s.add("metadata", []byte(v))
						}
					}
				}
				for _, x := range []string{string(emb), string(m.Data)} {
					if at, ok := dups[x]; len(x) > 0 && ok && at != m.Off {
						rec["again"] = true
					}
					dups[x] = m.Off
				}
				s.peel(emb, found)
				s.peel(m.Data, found)
				recs = append(recs, rec)
			}
			from := seen - 4096
			if from < 0 {
				from = 0
			}
			s.find(b[from:], found)
			for _, m := range ms {
				if !m.Cut && !torn[m.Off] {
					seen = m.End
				}
			}
			if seen > int64(len(b)) {
				seen = int64(len(b))
			}
			return J{"o": o, "e": e, "recs": recs, "found": keysOf(found), "mal": len(mal)}, nil
		}
		steps := []J{}
		st, err := look(opJSON(Op{Op: "init"}), "ok")
		if err != nil {
			return nil, err
		}
		steps = append(steps, st)
		for i, o := range j.Ops {
			if j.Fault > 0 && (int(j.Seed)+i*7)%j.Fault == 0 {
				fail = 1 + (i+int(j.Seed))%4
			}
			fired = false
			res := w.Do(r, o, j.style(i))
			fail = 0
			st, err := look(opJSON(o), res.E)
			if err != nil {
				return nil, err
			}
			if fired {
				torn[seen] = true // What comes next has been cut off
			}
			steps = append(steps, st)
		}
		if j.Extra {
			err := w.extra(j.Markers, r.Tok.Encode([]int{901, 902}))
			st, err2 := look(opJSON(Op{Op: "extra"}), class(err))
			if err2 != nil {
				return nil, err2
			}
			if err != nil {
				st["d"] = err.Error()
			}
			steps = append(steps, st)
		}
		// The whole tape once more: what has been learned since then
		b, err := w.TapeBytes()
		if err != nil {
			return nil, err
		}
		found := map[string]bool{}
		s.find(b, found)
		mal, err := getKeys(j.Cfg.Enc, j.Cfg.Sig, "mallory")
		if err != nil {
			return nil, err
		}
		other := "age"
		if j.Cfg.Enc == "age" {
			other = "pgp"
		}
		ok, err := getKeys(other, "", "mallory")
		if err != nil {
			return nil, err
		}
		strangers := []J{}
		for _, x := range []struct {
			who string
			ks  *KeySet
			all bool
		}{
			{"another key", &KeySet{EncRecipient: mal.EncRecipient, EncIdentity: mal.EncIdentity, SigRecipient: w.Keys.SigRecipient, SigIdentity: mal.SigIdentity}, true},
			{"no key", &KeySet{SigRecipient: w.Keys.SigRecipient}, false},
			{"a key of another kind", &KeySet{EncIdentity: ok.EncIdentity, SigRecipient: w.Keys.SigRecipient}, false},
		} {
			bad, err := w.stranger(x.ks, s, x.all, found)
			if err != nil {
				return nil, err
			}
			strangers = append(strangers, J{"who": x.who, "bad": bad})
		}
		// The owner can
		rec := newRecorder()
		oerr := w.indexInto(rec, true, nil, nil)
		return J{"enc": j.Cfg.Enc, "steps": steps, "found": keysOf(found), "strangers": strangers, "owner": class(oerr), "rows": len(rec.rows), "forms": len(s.order), "tape": len(b), "faults": j.Fault > 0}, nil
	}
}

func keysOf(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
