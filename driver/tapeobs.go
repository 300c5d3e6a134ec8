package main

import (
	"archive/tar"
	"bytes"
	"context"
	"crypto/sha256"
	"database/sql"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	iofs "io/fs"
	"os"
	"path"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/compression"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	"github.com/pojntfx/stfs/pkg/fs"
	"github.com/pojntfx/stfs/pkg/operations"
	"github.com/pojntfx/stfs/pkg/recovery"
	"github.com/pojntfx/stfs/pkg/signature"
)

const blockBytes = config.MagneticTapeBlockSize

// reader opens the drive for reading without the drive manager
func (w *World) reader() (config.DriveReaderConfig, config.MagneticTapeIO, func(), error) {
	if w.Tape != nil {
		return config.DriveReaderConfig{Drive: w.Tape.open(), DriveIsRegular: false}, w.Tape, func() {}, nil
	}
	f, err := os.Open(w.Drive)
	if err != nil {
		return config.DriveReaderConfig{}, nil, nil, err
	}
	return config.DriveReaderConfig{Drive: f, DriveIsRegular: true}, w.newBackend().MagneticTapeIO, func() { f.Close() }, nil
}

// indexInto runs the indexer over the drive. Keys may be those of somebody else.
func (w *World) indexInto(mp config.MetadataPersister, overwrite bool, ks *KeySet, onHeader func(*config.Header)) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	r, mt, closer, err := w.reader()
	if err != nil {
		return err
	}
	defer closer()
	if ks == nil {
		ks = w.Keys
	}
	return recovery.Index(r, mt, config.MetadataConfig{Metadata: mp}, w.pipes(),
		config.CryptoConfig{Recipient: ks.SigRecipient, Identity: ks.EncIdentity},
		0, 0, overwrite, false, 0,
		func(hdr *tar.Header, i int) error {
			return encryption.DecryptHeader(hdr, w.Cfg.Enc, ks.EncIdentity)
		},
		func(hdr *tar.Header, isRegular bool) error {
			return signature.VerifyHeader(hdr, isRegular, w.Cfg.Sig, ks.SigRecipient)
		},
		onHeader)
}

// fsOver returns a file system which uses the drive of the world and the given index
func (w *World) fsOver(mp config.MetadataPersister) *fs.STFS {
	be := w.newBackend()
	ro := operations.NewOperations(be, config.MetadataConfig{Metadata: mp}, w.pipes(), w.readCrypto(), func(*config.HeaderEvent) {})
	return fs.NewSTFS(ro, nil, config.MetadataConfig{Metadata: mp}, w.Cfg.Level, nil, false, w.Cfg.WPR, func(*config.Header) {}, nopLogger{})
}

// freshPersister opens a new and empty index
func (w *World) freshPersister(name string) (config.MetadataPersister, error) {
	p := filepath.Join(w.Dir, name)
	for _, s := range []string{"", "-wal", "-shm", "-journal"} {
		_ = os.Remove(p + s)
	}
	return openPersister(p)
}

// copyDB copies the index
func (w *World) copyDB(name string) (string, error) {
	p := filepath.Join(w.Dir, name)
	for _, s := range []string{"", "-wal", "-shm", "-journal"} {
		_ = os.Remove(p + s)
		if _, err := os.Stat(w.DB + s); err == nil {
			if err := copyFile(w.DB+s, p+s); err != nil {
				return "", err
			}
		}
	}
	return p, nil
}

// fetch returns the content which is fetched from a position
func (w *World) fetch(record, block int64, ks *KeySet) (b []byte, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	r, mt, closer, err := w.reader()
	if err != nil {
		return nil, err
	}
	defer closer()
	if ks == nil {
		ks = w.Keys
	}
	buf := &bytes.Buffer{}
	err = recovery.Fetch(r, mt, w.pipes(), config.CryptoConfig{Recipient: ks.SigRecipient, Identity: ks.EncIdentity},
		func(string, iofs.FileMode) (io.WriteCloser, error) { return nopWC{buf}, nil },
		func(string, iofs.FileMode) error { return nil },
		int(record), int(block), "", false, nil)
	return buf.Bytes(), err
}

// restore returns the content which restoring an entry through the archive interface writes
func (w *World) restore(ops *operations.Operations, name string) (b []byte, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	buf := &bytes.Buffer{}
	err = ops.Restore(
		func(string, iofs.FileMode) (io.WriteCloser, error) { return nopWC{buf}, nil },
		func(string, iofs.FileMode) error { return nil },
		name, "", true)
	return buf.Bytes(), err
}

// Segments of the tape: offsets of bytes to addresses in blocks. A file mark on a tape occupies a record of its own.
func (w *World) addresses() func(off int64) int {
	if w.Tape == nil {
		return func(off int64) int { return int(off / blockBytes) }
	}
	w.Tape.mu.Lock()
	defer w.Tape.mu.Unlock()
	starts := []int{}
	for i, r := range w.Tape.recs {
		if r != nil {
			starts = append(starts, i)
		}
	}
	rs, end := w.Cfg.RS, len(w.Tape.recs)
	return func(off int64) int {
		b := int(off / blockBytes)
		if b/rs >= len(starts) {
			return end*rs + b%rs
		}
		return starts[b/rs]*rs + b%rs
	}
}

// Member is what an independent scan of the tape finds
type Member struct {
	Off, DataOff, End int64
	Hdr               *tar.Header
	Data              []byte
	Cut               bool // Data is incomplete
}

type countingReader struct {
	r io.Reader
	n int64
}

func (c *countingReader) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	c.n += int64(n)
	return n, err
}

// scan reads all members from an offset, which is independent of how the code under test does that. Malformed are the
// offsets of blocks which are neither zero nor part of a member.
func scan(b []byte, from int64) (members []Member, malformed []int64) {
	zero := make([]byte, blockBytes)
	for off := from; off < int64(len(b)); {
		if off+blockBytes <= int64(len(b)) && bytes.Equal(b[off:off+blockBytes], zero) {
			off += blockBytes
			continue
		}
		c := &countingReader{r: bytes.NewReader(b[off:])}
		hdr, err := tar.NewReader(c).Next()
		if err != nil {
			malformed = append(malformed, off)
			off += blockBytes
			continue
		}
		m := Member{Off: off, Hdr: hdr, DataOff: off + c.n}
		end := m.DataOff + hdr.Size
		if end > int64(len(b)) {
			end = int64(len(b))
			m.Cut = true
		}
		m.Data = b[m.DataOff:end]
		m.End = (m.DataOff + hdr.Size + blockBytes - 1) / blockBytes * blockBytes
		members = append(members, m)
		if hdr.Typeflag == tar.TypeXGlobalHeader {
			members = members[:len(members)-1]
		}
		off = m.End
	}
	return members, malformed
}

var compSuffix = map[string]string{"gzip": ".gz", "parallelgzip": ".gz", "lz4": ".lz4", "zstandard": ".zst", "brotli": ".br", "bzip2": ".bz2", "parallelbzip2": ".bz2"}
var encSuffix = map[string]string{"age": ".age", "pgp": ".pgp"}

// decoded is a member after its header has been opened
type decoded struct {
	Member
	H    tar.Header
	Err  error
	Act  string
	Name string // Without suffix
	From string
	Has  bool // Carries content
	Body []byte
	BErr error
	Logi int64 // Logical size
}

func (w *World) decode(m Member) decoded {
	d := decoded{Member: m, H: *m.Hdr}
	pax := map[string]string{}
	for k, v := range m.Hdr.PAXRecords {
		pax[k] = v
	}
	d.H.PAXRecords = pax
	if d.Err = encryption.DecryptHeader(&d.H, w.Cfg.Enc, w.Keys.EncIdentity); d.Err != nil {
		return d
	}
	if d.Err = signature.VerifyHeader(&d.H, w.Tape == nil, w.Cfg.Sig, w.Keys.SigRecipient); d.Err != nil {
		return d
	}
	p := d.H.PAXRecords
	d.Name, d.Act = d.H.Name, p["STFS.Action"]
	if d.Act == "" {
		d.Act = "CREATE"
	}
	from, moves := p["STFS.ReplacesName"]
	switch {
	case d.Act == "CREATE":
		d.Act = "create"
		d.Has = true
	case d.Act == "DELETE":
		d.Act = "delete"
	case moves:
		d.Act, d.From = "move", from
	case p["STFS.ReplacesContent"] == "true":
		d.Act, d.Has = "update", true
	default:
		d.Act = "meta"
	}
	us, encoded := p["STFS.UncompressedSize"]
	d.Logi = d.H.Size
	if encoded {
		n, _ := strconv.ParseInt(us, 10, 64)
		d.Logi = n
	}
	regular := d.H.FileInfo().Mode().IsRegular()
	d.Has = d.Has && regular
	if d.Has && encoded {
		d.Name = strings.TrimSuffix(d.Name, encSuffix[w.Cfg.Enc])
		d.Name = strings.TrimSuffix(d.Name, compSuffix[w.Cfg.Comp])
	}
	if d.Has && len(m.Data) > 0 && !m.Cut {
		func() {
			defer func() {
				if p := recover(); p != nil {
					d.BErr = fmt.Errorf("panic: %v", p)
				}
			}()
			r, err := encryption.Decrypt(bytes.NewReader(m.Data), w.Cfg.Enc, w.Keys.EncIdentity)
			if err != nil {
				d.BErr = err
				return
			}
			c, err := compression.Decompress(r, w.Cfg.Comp)
			if err != nil {
				d.BErr = err
				return
			}
			d.Body, d.BErr = io.ReadAll(c)
		}()
	}
	return d
}

func fileKind(h *tar.Header) string {
	switch {
	case h.Typeflag == tar.TypeDir:
		return "d"
	case h.Typeflag == tar.TypeSymlink:
		return "l"
	case h.FileInfo().Mode().IsRegular():
		return "f"
	}
	return "o"
}

// member projects a decoded member
func (r *Rec) member(w *World, d decoded, addr func(int64) int) J {
	e := J{"o": d.Off / blockBytes, "nb": d.End / blockBytes, "a": addr(d.Off), "z": addr(d.End), "cut": d.Cut, "err": "ok", "act": "", "p": []string{}, "f": []string{},
		"k": "", "m": 0, "u": 0, "g": 0, "mt": 0, "at": 0, "ct": 0, "n": 0, "c": []int{}, "has": d.Has, "raw": []int{}, "l": ""}
	if d.Err != nil {
		e["err"] = d.Err.Error()
		return e
	}
	e["act"] = d.Act
	e["p"] = r.abstractPath(d.Name)
	e["f"] = r.abstractPath(d.From)
	e["k"] = fileKind(&d.H)
	e["m"] = modeBits(d.H.FileInfo().Mode())
	e["u"], e["g"] = d.H.Uid, d.H.Gid
	e["mt"], e["at"], e["ct"] = r.time(d.H.ModTime), r.time(d.H.AccessTime), r.time(d.H.ChangeTime)
	e["l"] = d.H.Linkname
	if d.Has {
		e["n"] = d.Logi
		e["c"] = r.Tok.Decode(d.Body)
		if d.BErr != nil {
			e["c"] = []int{-8}
		}
		if w.Cfg.Comp == "" && w.Cfg.Enc == "" {
			e["raw"] = r.Tok.Decode(d.Data)
		}
	}
	return e
}

// membersFrom projects all members of the tape from an offset on
func (w *World) membersFrom(r *Rec, b []byte, from int64) ([]J, []int) {
	addr := w.addresses()
	out, bad := []J{}, []int{}
	ms, mal := scan(b, from)
	for _, m := range ms {
		out = append(out, r.member(w, w.decode(m), addr))
	}
	for _, o := range mal {
		bad = append(bad, addr(o))
	}
	return out, bad
}

// rows projects the live rows of an index, and what is fetched at the position of each
func (w *World) rows(r *Rec, mp config.MetadataPersister, fetch bool) ([]J, error) {
	hs, err := mp.GetHeaders(context.Background())
	if err != nil {
		return nil, err
	}
	out := []J{}
	for _, h := range hs {
		k := "o"
		switch h.Typeflag {
		case tar.TypeDir:
			k = "d"
		case tar.TypeReg, 0:
			k = "f"
		case tar.TypeSymlink:
			k = "l"
		}
		rs := int64(w.Cfg.RS)
		e := J{"p": r.abstractPath(h.Name), "k": k, "n": h.Size, "r": h.Record, "b": h.Block, "a": h.Record*rs + h.Block,
			"lb": h.Lastknownblock, "la": h.Lastknownrecord*rs + h.Lastknownblock, "c": []int{}, "fe": "ok", "l": h.Linkname}
		if fetch && k == "f" {
			b, err := w.fetch(h.Record, h.Block, nil)
			e["fe"] = class(err)
			e["c"] = r.Tok.Decode(b)
			if err != nil {
				e["fd"] = err.Error()
			}
		}
		out = append(out, e)
	}
	return out, nil
}

// dumpDB digests everything in an index
func dumpDB(p string) (string, error) {
	if _, err := os.Stat(p); errors.Is(err, os.ErrNotExist) {
		return "none", nil
	}
	name := sql.Drivers()[0]
	db, err := sql.Open(name, p)
	if err != nil {
		return "", err
	}
	defer db.Close()
	rows, err := db.Query("select * from headers order by name, linkname")
	if err != nil {
		return "", err
	}
	defer rows.Close()
	cols, err := rows.Columns()
	if err != nil {
		return "", err
	}
	h := sha256.New()
	n := 0
	for rows.Next() {
		vals := make([]interface{}, len(cols))
		ptrs := make([]interface{}, len(cols))
		for i := range vals {
			ptrs[i] = &vals[i]
		}
		if err := rows.Scan(ptrs...); err != nil {
			return "", err
		}
		fmt.Fprintf(h, "%#v\n", vals)
		n++
	}
	return fmt.Sprintf("%d:%s", n, hex.EncodeToString(h.Sum(nil)[:12])), rows.Err()
}

func commonPrefix(a, b []byte) int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	if bytes.Equal(a[:n], b[:n]) {
		return n
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return n
}

// Observer makes the observations of a world which a job asks for
type Observer struct {
	w     *World
	r     *Rec
	want  map[string]bool
	prev  []byte
	reMP  config.MetadataPersister
	count int
}

func NewObserver(w *World, r *Rec, want []string) *Observer {
	o := &Observer{w: w, r: r, want: map[string]bool{}}
	for _, k := range want {
		o.want[k] = true
	}
	return o
}

func (o *Observer) links() bool { return o.want["links"] }

// Observe adds observations to s
func (o *Observer) Observe(s J, last bool) error {
	w, r := o.w, o.r
	o.count++
	v, notes := r.Walk(w.FS, "/", o.links())
	s["v"], s["nt"] = v, notes

	if o.want["tape"] || o.want["members"] {
		b, err := w.TapeBytes()
		if err != nil {
			return err
		}
		keep := commonPrefix(o.prev, b)
		s["tp"] = J{"old": len(o.prev), "keep": keep, "len": len(b)}
		if o.want["members"] {
			ms, bad := w.membersFrom(r, b, int64(len(o.prev)))
			s["ms"], s["mal"] = ms, bad
		}
		o.prev = b
	}
	if o.want["rebuild"] {
		if o.reMP == nil || last || o.count%5 == 0 {
			mp, err := w.freshPersister(fmt.Sprintf("re%d.sqlite", o.count))
			if err != nil {
				return err
			}
			o.reMP = mp
		}
		err := w.indexInto(o.reMP, true, nil, nil)
		s["re"] = class(err)
		if err != nil {
			s["red"] = err.Error()
		}
		f := w.fsOver(o.reMP)
		vr, rn := r.Walk(f, "/", o.links())
		s["vr"], s["rn"] = vr, rn
		if o.want["rerows"] {
			rows, err := w.rows(r, o.reMP, false)
			if err != nil {
				return err
			}
			s["rr"] = rows
		}
	}
	if o.want["reopen"] && (last || o.count%3 == 0) {
		db, err := w.copyDB(fmt.Sprintf("open%d.sqlite", o.count))
		if err != nil {
			return err
		}
		mp, err := openPersister(db)
		if err != nil {
			return err
		}
		f := w.fsOver(mp)
		_, err = f.Initialize("/", os.ModePerm)
		s["oe"] = class(err)
		vo, on := r.Walk(f, "/", o.links())
		s["vo"], s["on"] = vo, on
	} else {
		s["vo"], s["on"], s["oe"] = 0, []string{}, "ok"
	}
	if o.want["rows"] {
		rows, err := w.rows(r, w.MP, true)
		if err != nil {
			return err
		}
		s["rows"] = rows
		lr, lb, err := w.MP.GetLastIndexedRecordAndBlock(context.Background(), w.Cfg.RS)
		if err != nil {
			return err
		}
		s["last"] = lr*int64(w.Cfg.RS) + lb
		s["lastb"] = lb
	}
	if o.want["lists"] {
		s["ls"] = o.lists(last)
	}
	return nil
}

// lists lists each reachable directory with several limits and looks up each name that is listed
func (o *Observer) lists(all bool) []J {
	w, r := o.w, o.r
	out := []J{}
	var rec func(dir string, abs []string, depth int)
	rec = func(dir string, abs []string, depth int) {
		if depth > 10 {
			return
		}
		e := J{"p": abs}
		res := []J{}
		var names []string
		for _, n := range []int{-1, 0, 1, 2, 3, 100} {
			l := J{"n": n, "e": "ok", "ns": []string{}, "fn": "ok"}
			h, err := w.FS.Open(dir)
			if err != nil {
				l["e"] = class(err)
				res = append(res, l)
				continue
			}
			infos, err := h.Readdir(n)
			l["e"] = class(err)
			ns := []string{}
			looked := []J{}
			for _, i := range infos {
				ns = append(ns, r.name(i.Name()))
				if n == -1 {
					names = append(names, i.Name())
					full := path.Join(dir, i.Name())
					li := J{"n": r.name(i.Name()), "k": kindOf(i), "s": i.Size(), "se": "ok", "sk": "", "ss": 0, "oe": "ok", "ok": "", "os": 0, "bn": r.name(i.Name()) == r.name(path.Base(full))}
					if si, err := w.FS.Stat(full); err != nil {
						li["se"] = class(err)
					} else {
						li["sk"], li["ss"] = kindOf(si), si.Size()
						li["bn"] = path.Base(si.Name()) == i.Name()
					}
					if fh, err := w.FS.Open(full); err != nil {
						li["oe"] = class(err)
					} else {
						if fi, err := fh.Stat(); err != nil {
							li["oe"] = class(err)
						} else {
							li["ok"], li["os"] = kindOf(fi), fi.Size()
						}
						_ = fh.Close()
					}
					looked = append(looked, li)
				}
			}
			_ = h.Close()
			l["ns"] = ns
			if n == -1 {
				e["lk"] = looked
			}
			// The names only
			h, err = w.FS.Open(dir)
			if err == nil {
				nn, err := h.Readdirnames(n)
				if err != nil {
					l["fn"] = class(err)
				}
				an := []string{}
				for _, x := range nn {
					an = append(an, r.name(x))
				}
				l["nn"] = an
				_ = h.Close()
			} else {
				l["nn"], l["fn"] = []string{}, class(err)
			}
			res = append(res, l)
		}
		if e["lk"] == nil {
			e["lk"] = []J{}
		}
		e["rs"] = res
		out = append(out, e)
		for _, n := range names {
			full := path.Join(dir, n)
			if i, err := w.FS.Stat(full); err == nil && i.IsDir() && full != dir {
				rec(full, append(append([]string{}, abs...), r.name(n)), depth+1)
			}
		}
	}
	rec("/", []string{}, 0)
	return out
}

var _ = json.Marshal
var _ = time.Now
