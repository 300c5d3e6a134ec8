package main

import (
	"archive/tar"
	"bytes"
	"context"
	"crypto/sha256"
	"database/sql"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	iofs "io/fs"
	"math/rand"
	"os"
	"path"
	"sort"
	"strings"

	"github.com/ProtonMail/go-crypto/openpgp/packet"
	"github.com/pojntfx/stfs/pkg/compression"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	"github.com/pojntfx/stfs/pkg/operations"
	"github.com/pojntfx/stfs/pkg/recovery"
	"github.com/pojntfx/stfs/pkg/signature"
)

type spec3 struct {
	K    string `json:"k"`
	I    int    `json:"i"`
	What string `json:"what"`
}

// change is what somebody else does to the tape, in terms of the specification
type change struct {
	Emb  spec3 `json:"emb"`
	Sig  spec3 `json:"sig"`
	Data spec3 `json:"data"`
	At   spec3 `json:"at"`
}

type forgeJob struct {
	HistJob
	Seed       int64    `json:"seed"`
	Files      int      `json:"files"`
	Others     int      `json:"others"`
	Changes    []change `json:"changes"`
	Flips      int      `json:"flips"` // Bytes to flip; -1: all of them
	Shard      int      `json:"shard"`
	Shards     int      `json:"shards"` // Only every so many-th byte
	Headerlike bool     `json:"headerlike"`
}

// recorder is an index which only records what is done to it
type recorder struct {
	config.MetadataPersister
	rows  map[string]*config.Header
	calls []string
	any   bool // Updates are applied to anything
}

func newRecorder() *recorder { return &recorder{rows: map[string]*config.Header{}} }

func headerKey(h *config.Header, size bool) string {
	c := *h
	c.Record, c.Lastknownrecord, c.Block, c.Lastknownblock = 0, 0, 0, 0
	if !size {
		c.Size = 0
	}
	b, _ := json.Marshal(c)
	return string(b)
}

func (r *recorder) UpsertHeader(_ context.Context, h *config.Header, _ bool) error {
	r.calls = append(r.calls, "upsert "+headerKey(h, true))
	c := *h
	r.rows[h.Name] = &c
	return nil
}
func (r *recorder) UpdateHeaderMetadata(_ context.Context, h *config.Header) error {
	r.calls = append(r.calls, "update "+headerKey(h, false))
	c := *h
	r.rows[h.Name] = &c
	return nil
}
func (r *recorder) MoveHeader(_ context.Context, o, n string, _, _ int64) error {
	r.calls = append(r.calls, "move "+o+" "+n)
	if h, ok := r.rows[o]; ok {
		delete(r.rows, o)
		c := *h
		c.Name = n
		r.rows[n] = &c
	}
	return nil
}
func (r *recorder) GetHeader(_ context.Context, n string) (*config.Header, error) {
	if h, ok := r.rows[n]; ok {
		c := *h
		return &c, nil
	}
	if r.any {
		return &config.Header{Name: n}, nil
	}
	return nil, sql.ErrNoRows
}
func (r *recorder) DeleteHeader(_ context.Context, n string, _, _ int64) (*config.Header, error) {
	r.calls = append(r.calls, "delete "+n)
	h, ok := r.rows[n]
	if !ok {
		return nil, sql.ErrNoRows
	}
	delete(r.rows, n)
	return h, nil
}
func (r *recorder) GetLastIndexedRecordAndBlock(context.Context, int) (int64, int64, error) {
	return 0, 0, nil
}
func (r *recorder) PurgeAllHeaders(context.Context) error {
	r.rows = map[string]*config.Header{}
	return nil
}

// fetchAt returns the header and content which are fetched from a position
func (w *World) fetchAt(record, block int64, ks *KeySet, preview bool) (key string, b []byte, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	r, mt, closer, err := w.reader()
	if err != nil {
		return "", nil, err
	}
	defer closer()
	if ks == nil {
		ks = w.Keys
	}
	buf := &bytes.Buffer{}
	err = recovery.Fetch(r, mt, w.pipes(), config.CryptoConfig{Recipient: ks.SigRecipient, Identity: ks.EncIdentity},
		func(string, iofs.FileMode) (io.WriteCloser, error) { return nopWC{buf}, nil },
		func(string, iofs.FileMode) error { return nil },
		int(record), int(block), "", preview, func(h *config.Header) { key = headerKey(h, true) })
	return key, buf.Bytes(), err
}

// query returns the headers which a query accepts
func (w *World) query(ks *KeySet) (hs []string, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	r, mt, closer, err := w.reader()
	if err != nil {
		return nil, err
	}
	defer closer()
	if ks == nil {
		ks = w.Keys
	}
	res, err := recovery.Query(r, mt, w.pipes(), config.CryptoConfig{Recipient: ks.SigRecipient, Identity: ks.EncIdentity}, 0, 0,
		func(h *config.Header) { hs = append(hs, headerKey(h, true)) })
	if err == nil && len(res) != len(hs) {
		err = fmt.Errorf("%v headers were returned, but %v reported", len(res), len(hs))
	}
	return hs, err
}

// withTape returns a world over another tape, which consists of sessions
func (w *World) withTape(name string, sessions [][]byte) (*World, error) {
	s := w.Sibling(name + ".sqlite")
	if w.Tape != nil {
		s.Tape = NewFakeTape(w.Cfg.RS)
		for _, b := range sessions {
			for n := s.Tape.recordBytes; len(b) > 0; b = b[n:] {
				if len(b) < n {
					b = append(append([]byte{}, b...), make([]byte, n-len(b))...)
				}
				s.Tape.recs = append(s.Tape.recs, b[:n:n])
			}
			s.Tape.recs = append(s.Tape.recs, nil)
		}
		return s, nil
	}
	s.Drive = w.Dir + "/" + name + ".tar"
	return s, os.WriteFile(s.Drive, bytes.Join(sessions, nil), 0600)
}

// sessions splits the tape into what has been written at once
func (w *World) sessions(tape []byte) [][]byte {
	if w.Tape == nil {
		return [][]byte{tape}
	}
	out, cur := [][]byte{}, []byte{}
	for _, r := range w.Tape.recs {
		if r == nil {
			out = append(out, cur)
			cur = nil
		}
		cur = append(cur, r...)
	}
	if len(cur) > 0 {
		out = append(out, cur)
	}
	return out
}

// owned is a record of the owner
type owned struct {
	d             decoded
	idx, fet, qry string // What its header is when it is indexed, fetched and queried
	emb, sig      string
	content       [32]byte
	id            int // In the specification; others are numbered from 100
}

type forger struct {
	w       *World
	mal     *KeySet
	rng     *rand.Rand
	tape    []byte
	own     []*owned
	byIdx   map[string]*owned
	byFet   map[string][]*owned
	byQry   map[string]*owned
	calls   map[string]bool
	byID    map[int]*owned
	count   int
	content map[[32]byte]bool
}

func (f *forger) learn() error {
	w := f.w
	addr := w.addresses()
	ms, _ := scan(f.tape, 0)
	rec := newRecorder()
	rec.any = true // What the owner's updates do does not depend on which rows there are otherwise
	keys := map[int]string{}
	if err := w.indexInto(rec, true, nil, func(h *config.Header) { keys[int(h.Record)*w.Cfg.RS+int(h.Block)] = headerKey(h, true) }); err != nil {
		return fmt.Errorf("indexing the untouched tape: %w", err)
	}
	f.calls = map[string]bool{}
	for _, c := range rec.calls {
		f.calls[c] = true
	}
	qs, err := w.query(nil)
	if err != nil || len(qs) != len(ms) || len(keys) != len(ms) {
		return fmt.Errorf("querying the untouched tape: %v of %v, %v indexed: %v", len(qs), len(ms), len(keys), err)
	}
	f.byIdx, f.byFet, f.byQry, f.content = map[string]*owned{}, map[string][]*owned{}, map[string]*owned{}, map[[32]byte]bool{}
	for i, m := range ms {
		d := w.decode(m)
		if d.Err != nil || d.BErr != nil {
			return fmt.Errorf("decoding: %v %v", d.Err, d.BErr)
		}
		a := addr(d.Off)
		o := &owned{d: d, idx: keys[a], qry: qs[i], id: 100 + i, content: sha256.Sum256(d.Body)}
		if o.fet, _, err = w.fetchAt(int64(a/w.Cfg.RS), int64(a%w.Cfg.RS), nil, true); err != nil {
			return fmt.Errorf("fetching from the untouched tape: %w", err)
		}
		// What has been signed
		h := *m.Hdr
		h.PAXRecords = map[string]string{}
		for k, v := range m.Hdr.PAXRecords {
			h.PAXRecords[k] = v
		}
		if err := encryption.DecryptHeader(&h, w.Cfg.Enc, w.Keys.EncIdentity); err != nil {
			return err
		}
		o.emb, o.sig = h.PAXRecords["STFS.EmbeddedHeader"], h.PAXRecords["STFS.Signature"]
		f.own = append(f.own, o)
		f.byIdx[o.idx], f.byQry[o.qry] = o, o
		f.byFet[o.fet] = append(f.byFet[o.fet], o)
		f.content[o.content] = true
	}
	return nil
}

// encode encodes a content as the owner's are
func (f *forger) encode(b []byte) ([]byte, error) {
	buf := &bytes.Buffer{}
	e, err := encryption.Encrypt(buf, f.w.Cfg.Enc, f.w.Keys.EncRecipient)
	if err != nil {
		return nil, err
	}
	c, err := compression.Compress(e, f.w.Cfg.Comp, f.w.Cfg.Level, f.w.Tape == nil, f.w.Cfg.RS)
	if err != nil {
		return nil, err
	}
	if _, err := c.Write(b); err != nil {
		return nil, err
	}
	if err := c.Flush(); err != nil {
		return nil, err
	}
	if err := c.Close(); err != nil {
		return nil, err
	}
	return buf.Bytes(), e.Close()
}

// signature strings which are none
func (f *forger) bad(n int, o *owned) string {
	pgp := f.w.Cfg.Sig == config.SignatureFormatPGPKey
	raw, _ := base64.StdEncoding.DecodeString(o.sig)
	enc := base64.StdEncoding.EncodeToString
	switch n {
	case 0:
		return ""
	case 1:
		return "*not base64*"
	case 2:
		return enc([]byte("not a signature"))
	case 3:
		return enc(raw[:len(raw)-1-f.rng.Intn(len(raw)-1)])
	case 4:
		b := append([]byte{}, raw...)
		b[f.rng.Intn(len(b))] ^= byte(1 + f.rng.Intn(255))
		return enc(b)
	case 5:
		if pgp {
			buf := &bytes.Buffer{}
			_ = packet.NewUserId("STFS", "", "stfs@example.com").Serialize(buf)
			return enc(buf.Bytes())
		}
		return enc(bytes.Split(raw, []byte("\n"))[0])
	case 6:
		if pgp {
			// An unknown hash
			b := append([]byte{}, raw...)
			b[5] = 99
			return enc(b)
		}
		return enc(bytes.ToUpper(raw))
	case 7:
		return enc(append(append([]byte{}, raw...), raw...))
	case 8:
		return strings.ToLower(o.sig)
	case 9:
		return enc(make([]byte, len(raw)))
	}
	return "\n" + enc(nil)
}

func (f *forger) embedded(s spec3) (string, error) {
	if s.K == "none" {
		return "", nil
	}
	o := f.byID[s.I]
	if s.K == "legit" {
		return o.emb, nil
	}
	var h tar.Header
	if err := json.Unmarshal([]byte(o.emb), &h); err != nil {
		return "", err
	}
	p := map[string]string{}
	for k, v := range h.PAXRecords {
		p[k] = v
	}
	h.PAXRecords = p
	switch s.What {
	case "name":
		h.Name = "/forged" + f.w.suffix()
	case "action":
		if p["STFS.Action"] == "DELETE" {
			p["STFS.Action"] = "UPDATE"
		} else {
			p["STFS.Action"] = "DELETE"
		}
	case "mode":
		h.Mode ^= 0777
	case "owner":
		h.Uid++
	case "size":
		h.Size++
		p["STFS.UncompressedSize"] = fmt.Sprint(len(o.d.Body) + 1)
	case "csnone":
		delete(p, "STFS.Signature")
		h.Uid = 4711
	case "csother":
		p["STFS.Signature"] = f.byID[s.I%2+1].d.H.PAXRecords["STFS.Signature"]
		h.Uid = 4711
	case "csmal":
		_, sign, err := f.signer(f.mal, []byte("forged"))
		if err != nil {
			return "", err
		}
		p["STFS.Signature"] = sign
	case "csbad":
		p["STFS.Signature"] = "*"
	}
	b, err := json.Marshal(h)
	return string(b), err
}

func (w *World) suffix() string { return compSuffix[w.Cfg.Comp] + encSuffix[w.Cfg.Enc] }

func (f *forger) signer(ks *KeySet, b []byte) ([]byte, string, error) {
	r, sign, err := signature.Sign(bytes.NewReader(b), f.w.Tape == nil, f.w.Cfg.Sig, ks.SigIdentity)
	if err != nil {
		return nil, "", err
	}
	out, err := io.ReadAll(r)
	if err != nil {
		return nil, "", err
	}
	s, err := sign()
	return out, s, err
}

// record makes a record, as a change describes it
func (f *forger) record(c change) ([]byte, error) {
	var err error
	h := &tar.Header{Format: tar.FormatPAX, PAXRecords: map[string]string{}}
	emb, err := f.embedded(c.Emb)
	if err != nil {
		return nil, err
	}
	sig, has := "", true
	switch c.Sig.K {
	case "hdr":
		sig = f.byID[c.Sig.I].sig
	case "content":
		sig = f.byID[c.Sig.I].d.H.PAXRecords["STFS.Signature"]
	case "mal":
		if _, sig, err = f.signer(f.mal, []byte(emb)); err != nil {
			return nil, err
		}
	case "none":
		has = false
	case "bad":
		o := f.own[f.rng.Intn(len(f.own))]
		if x, ok := f.byID[c.Emb.I]; ok {
			o = x
		}
		sig = f.bad(c.Sig.I, o)
	}
	var data []byte
	switch c.Data.K {
	case "content":
		data = f.byID[c.Data.I].d.Data
	case "cut":
		b := f.byID[c.Data.I].d.Body
		data, err = f.encode(b[:len(b)-1-f.rng.Intn(len(b)-1)])
	case "forged":
		data, err = f.encode([]byte(fmt.Sprint("forged", f.rng.Int63())))
	}
	if err != nil {
		return nil, err
	}
	h.Size = int64(len(data))
	if c.Emb.K != "none" {
		h.PAXRecords["STFS.EmbeddedHeader"] = emb
	}
	if has {
		h.PAXRecords["STFS.Signature"] = sig
	}
	// What the header says in clear
	if c.Emb.K == "none" || f.rng.Intn(4) == 0 {
		h.Name, h.Mode, h.Uid = "/outer"+f.w.suffix(), 0640, 4711
		h.PAXRecords["STFS.Version"] = "1"
		h.PAXRecords["STFS.Action"] = []string{"CREATE", "UPDATE"}[f.rng.Intn(2)]
		h.PAXRecords["STFS.UncompressedSize"] = "6"
	}
	if len(h.PAXRecords) == 0 {
		h.PAXRecords = nil
	}
	if f.w.Cfg.Enc != "" && f.rng.Intn(12) > 0 {
		if err := encryption.EncryptHeader(h, f.w.Cfg.Enc, f.w.Keys.EncRecipient); err != nil {
			return nil, err
		}
	}
	return tarMember(h, data)
}

func tarMember(h *tar.Header, data []byte) ([]byte, error) {
	buf := &bytes.Buffer{}
	tw := tar.NewWriter(buf)
	if err := tw.WriteHeader(h); err != nil {
		return nil, err
	}
	if _, err := tw.Write(data); err != nil {
		return nil, err
	}
	if err := tw.Flush(); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

// put changes the tape
func (f *forger) put(c change, rec []byte) [][]byte {
	ss := f.w.sessions(f.tape)
	if c.At.K == "append" {
		return append(ss, append(append([]byte{}, rec...), make([]byte, 2*blockBytes)...))
	}
	m := f.byID[c.At.I].d
	out := [][]byte{}
	off := int64(0)
	for _, s := range ss {
		n := int64(len(s))
		if m.Off >= off && m.Off < off+n {
			after := m.Off
			if c.At.K == "replace" {
				after = m.End
			}
			x := append(append([]byte{}, s[:m.Off-off]...), rec...)
			s = append(x, s[after-off:]...)
		}
		off += n
		out = append(out, s)
	}
	return out
}

// outcome of indexing, querying and fetching a tape which has been changed
type outcome struct {
	Acc   []int    `json:"acc"`
	Qry   []int    `json:"qry"`
	Calls []string `json:"calls"` // Which the owner has not caused
	Fet   [][2]int `json:"fet"`   // Header and content
	Odd   []string `json:"odd"`
	E     string   `json:"e"`
	QE    string   `json:"qe"`
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300]
	}
	return s
}

// whose returns which of the owner's contents with that header it is (0: of none)
func (f *forger) whose(key string, b []byte) (int, int) {
	h := sha256.Sum256(b)
	os := f.byFet[key]
	for _, o := range os {
		if o.content == h {
			return o.id, o.id
		}
	}
	hid := 0
	if len(os) > 0 {
		hid = os[0].id
	}
	for _, o := range f.own {
		if o.content == h && o.d.Has && len(b) > 0 {
			return hid, o.id
		}
	}
	return hid, 0
}

func (f *forger) observe(s *World, real bool) outcome {
	out := outcome{Acc: []int{}, Qry: []int{}, Calls: []string{}, Fet: [][2]int{}, Odd: []string{}}
	rec := newRecorder()
	at := [][2]int64{}
	err := s.indexInto(rec, true, nil, func(h *config.Header) {
		id := 0
		if o, ok := f.byIdx[headerKey(h, true)]; ok {
			id = o.id
			if !o.d.Has {
				out.Acc = append(out.Acc, id)
				return
			}
		} else {
			out.Odd = append(out.Odd, clip(headerKey(h, true)))
		}
		out.Acc = append(out.Acc, id)
		at = append(at, [2]int64{h.Record, h.Block})
	})
	out.E = class(err)
	for _, c := range rec.calls {
		if !f.calls[c] {
			out.Calls = append(out.Calls, clip(c))
		}
	}
	for _, h := range rec.rows {
		at = append(at, [2]int64{h.Record, h.Block})
	}
	qs, err := s.query(nil)
	out.QE = class(err)
	for _, q := range qs {
		id := 0
		if o, ok := f.byQry[q]; ok {
			id = o.id
		} else {
			out.Odd = append(out.Odd, clip(q))
		}
		out.Qry = append(out.Qry, id)
	}
	sort.Slice(at, func(a, b int) bool { return at[a][0] < at[b][0] || at[a][0] == at[b][0] && at[a][1] < at[b][1] })
	note := func(key string, b []byte, err error) {
		if err != nil {
			return
		}
		if os := f.byFet[key]; len(os) > 0 && !os[0].d.Has {
			return // Has no content
		}
		h, c := f.whose(key, b)
		out.Fet = append(out.Fet, [2]int{h, c})
		if h == 0 || c != h {
			out.Odd = append(out.Odd, clip(fmt.Sprintf("%.100q of %v", b, key)))
		}
	}
	for i, p := range at {
		if i > 0 && at[i-1] == p {
			continue
		}
		key, b, err := s.fetchAt(p[0], p[1], nil, false)
		note(key, b, err)
	}
	if real {
		f.throughFS(s, note, &out)
	}
	return out
}

// throughFS reads everything through a file system over a rebuilt index
func (f *forger) throughFS(s *World, note func(string, []byte, error), out *outcome) {
	f.count++
	mp, err := s.freshPersister(fmt.Sprintf("forge%d.sqlite", f.count))
	if err != nil {
		return
	}
	_ = s.indexInto(mp, true, nil, nil)
	fsys := s.fsOver(mp)
	hs, err := mp.GetHeaders(context.Background())
	if err != nil {
		return
	}
	for _, h := range hs {
		if h.Typeflag != tar.TypeReg && h.Typeflag != 0 {
			continue
		}
		key, _, err := s.fetchAt(h.Record, h.Block, nil, true)
		if err != nil {
			key = ""
		}
		b, err := readAll(fsys, h.Name)
		note(key, b, err)
		b, err = s.restore(s.opsOver(mp), h.Name)
		note(key, b, err)
	}
}

func (w *World) opsOver(mp config.MetadataPersister) *operations.Operations {
	return operations.NewOperations(w.newBackend(), config.MetadataConfig{Metadata: mp}, w.pipes(), w.readCrypto(), func(*config.HeaderEvent) {})
}

// rowKey is what of a row comes from the header which has been signed
func rowKey(h *config.Header) string {
	c := *h
	c.Name = ""
	return headerKey(&c, false)
}

// rows notes the rows which are not the owner's
func (f *forger) rows(mp config.MetadataPersister, legit map[string]bool, names map[string]bool, out *outcome) {
	hs, err := mp.GetHeaders(context.Background())
	if err != nil {
		out.Odd = append(out.Odd, "rows: "+err.Error())
		return
	}
	for _, h := range hs {
		if !legit[rowKey(h)] || !names[path.Join("/", h.Name)] {
			out.Calls = append(out.Calls, clip("row "+headerKey(h, true)))
		}
	}
}

// opening indexes by opening a file system
func (f *forger) opening(s *World, legit, names map[string]bool, out *outcome) error {
	f.count++
	o := s.Sibling(fmt.Sprintf("opening%d.sqlite", f.count))
	before, err := o.TapeBytes()
	if err != nil {
		return err
	}
	if err := o.Build(); err != nil {
		return err
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				out.Odd = append(out.Odd, fmt.Sprint("panic: ", p))
			}
		}()
		_, err = o.FS.Initialize("/", os.ModePerm)
	}()
	after, err := o.TapeBytes()
	if err != nil {
		return err
	}
	if len(after) == len(before) {
		f.rows(o.MP, legit, names, out)
	}
	return nil
}

// live goes on with the index of the untouched tape, which is db
func (f *forger) live(s *World, db string, out *outcome) error {
	f.count++
	o := s.Sibling(fmt.Sprintf("live%d.sqlite", f.count))
	if err := copyFile(db, o.DB); err != nil {
		return err
	}
	if err := o.Build(); err != nil {
		return err
	}
	read := func(extra string, content []byte) error {
		hs, err := o.MP.GetHeaders(context.Background())
		if err != nil {
			return err
		}
		names := map[string]bool{}
		for _, w := range f.own {
			names[path.Join("/", w.d.Name)] = true
		}
		for _, h := range hs {
			if h.Typeflag != tar.TypeReg && h.Typeflag != 0 {
				continue
			}
			if !names[path.Join("/", h.Name)] && h.Name != extra {
				out.Calls = append(out.Calls, clip("row "+headerKey(h, true)))
			}
			a, e1 := readAll(o.FS, h.Name)
			b, e2 := o.restore(o.ReadOps, h.Name)
			for _, x := range []struct {
				b []byte
				e error
			}{{a, e1}, {b, e2}} {
				if x.e != nil || len(x.b) == 0 && h.Size == 0 {
					continue
				}
				// The header is the one which is on the tape
				key, _, err := o.fetchAt(h.Record, h.Block, nil, true)
				if err != nil {
					key = "none: " + err.Error() + headerKey(h, true)
				}
				if os := f.byFet[key]; len(os) > 0 && !os[0].d.Has {
					continue
				}
				hid, cid := f.whose(key, x.b)
				if hid == 0 && content != nil && bytes.Equal(x.b, content) {
					continue // The header is new, too
				}
				out.Fet = append(out.Fet, [2]int{hid, cid})
				if hid == 0 || hid != cid {
					out.Odd = append(out.Odd, clip(fmt.Sprintf("live %v %.100q of %v", h.Name, x.b, key)))
				}
			}
		}
		return nil
	}
	if err := read("", nil); err != nil {
		return err
	}
	content := []byte("something new")
	done := false
	func() {
		defer func() { _ = recover() }()
		_, _ = o.WriteOps.Archive(func() (config.FileConfig, error) {
			if done {
				return config.FileConfig{}, io.EOF
			}
			done = true
			return config.FileConfig{GetFile: func() (io.ReadSeekCloser, error) { return srcReader{bytes.NewReader(content), nil}, nil },
				Info: memInfo{name: "new", size: int64(len(content)), mode: 0644, mt: timeValue(1)}, Path: "/new"}, nil
		}, f.w.Cfg.Level, false, false)
	}()
	return read("/new", content)
}

func init() {
	runners["forge"] = func(raw json.RawMessage) (J, error) {
		var j forgeJob
		if err := json.Unmarshal(raw, &j); err != nil {
			return nil, err
		}
		w, err := NewWorld(j.Cfg)
		if err != nil {
			return nil, err
		}
		defer w.Close()
		r := j.rec()
		if err := w.Open(); err != nil {
			return J{"fail": "initialize: " + err.Error()}, nil
		}
		for i, o := range j.Ops {
			w.Do(r, o, j.style(i))
		}
		f := &forger{w: w, rng: rand.New(rand.NewSource(j.Seed)), byID: map[int]*owned{}}
		forgedHeader := ""
		if j.Headerlike {
			// The owner archives a content which somebody else has chosen
			h := tar.Header{Name: "/forged" + w.suffix(), Mode: 0777, Typeflag: tar.TypeReg, Format: tar.FormatPAX, PAXRecords: map[string]string{"STFS.Version": "1", "STFS.Action": "CREATE", "STFS.UncompressedSize": "0"}}
			b, err := json.Marshal(h)
			if err != nil {
				return nil, err
			}
			forgedHeader = string(b)
			hd, err := w.FS.Create("/chosen")
			if err == nil {
				_, err = hd.Write(b)
			}
			if err == nil {
				err = hd.Close()
			}
			if err != nil {
				return nil, err
			}
		}
		if f.mal, err = getKeys(j.Cfg.Enc, j.Cfg.Sig, "mallory"); err != nil {
			return nil, err
		}
		if f.tape, err = w.TapeBytes(); err != nil {
			return nil, err
		}
		if err := f.learn(); err != nil {
			return J{"fail": "the untouched tape is not accepted", "detail": err.Error()}, nil
		}
		// Choose which records of the owner are those of the specification: with different headers and contents
		perm, same := f.rng.Perm(len(f.own)), map[string]int{}
		for _, o := range f.own {
			same[o.idx]++
			same[o.qry]++
		}
		unique := func(o *owned) bool { return same[o.idx]+same[o.qry] <= 2 || o.idx == o.qry && same[o.idx] == 2 }
		n := 0
		seen := map[[32]byte]bool{}
		for _, i := range perm {
			o := f.own[i]
			if n < j.Files && unique(o) && o.d.Has && len(o.d.Body) > 3 && !seen[o.content] {
				n++
				o.id = n
				seen[o.content] = true
				f.byID[n] = o
			}
		}
		if n < j.Files {
			return J{"skipped": "too few files", "chs": []J{}, "flips": []J{}, "n": len(f.own)}, nil
		}
		for _, i := range perm {
			if o := f.own[i]; o.id >= 100 && unique(o) && n < j.Files+j.Others {
				n++
				o.id = n
				f.byID[n] = o
			}
		}
		if n < j.Files+j.Others {
			return J{"skipped": "too few records", "chs": []J{}, "flips": []J{}, "n": len(f.own)}, nil
		}
		legit, names := map[string]bool{}, map[string]bool{}
		for _, o := range f.own {
			var h config.Header
			_ = json.Unmarshal([]byte(o.idx), &h)
			legit[rowKey(&h)] = true
			names[path.Join("/", h.Name)] = true
		}
		db, err := w.copyDB("untouched.sqlite")
		if err != nil {
			return nil, err
		}

		out := J{"chs": []J{}, "flips": []J{}, "n": len(f.own)}
		base := f.observe(w, true)
		if err := f.opening(w, legit, names, &base); err != nil {
			return nil, err
		}
		if err := f.live(w.mustCopy(f), db, &base); err != nil {
			return nil, err
		}
		out["base"] = base
		chs := []J{}
		for i, c := range j.Changes {
			rec, err := f.record(c)
			if err != nil {
				return nil, err
			}
			s, err := w.withTape("forged", f.put(c, rec))
			if err != nil {
				return nil, err
			}
			o := f.observe(s, i%6 == 0)
			if i%6 == 1 {
				err = f.opening(s, legit, names, &o)
			}
			if i%6 == 2 {
				err = f.live(s, db, &o)
			}
			if err != nil {
				return nil, err
			}
			chs = append(chs, J{"c": c, "o": o})
		}
		if j.Headerlike {
			var o *owned
			for _, x := range f.own {
				if x.d.Name == "/chosen" && x.d.Has && len(x.d.Body) > 0 {
					o = x
				}
			}
			h := &tar.Header{Format: tar.FormatPAX, PAXRecords: map[string]string{"STFS.EmbeddedHeader": forgedHeader, "STFS.Signature": o.d.H.PAXRecords["STFS.Signature"]}}
			if err := encryption.EncryptHeader(h, w.Cfg.Enc, w.Keys.EncRecipient); err != nil {
				return nil, err
			}
			rec, err := tarMember(h, nil)
			if err != nil {
				return nil, err
			}
			c := change{Emb: spec3{K: "forged", I: 1, What: "name"}, Sig: spec3{K: "content", I: 2}, Data: spec3{K: "empty"}, At: spec3{K: "append"}}
			s, err := w.withTape("forged", f.put(c, rec))
			if err != nil {
				return nil, err
			}
			chs = append(chs, J{"c": c, "o": f.observe(s, false)})
		}
		out["chs"] = chs

		// Bytes which are changed
		pos := []int{}
		for i := range f.tape {
			if j.Shards == 0 || i%j.Shards == j.Shard {
				pos = append(pos, i)
			}
		}
		if j.Flips >= 0 && j.Flips < len(pos) {
			f.rng.Shuffle(len(pos), func(a, b int) { pos[a], pos[b] = pos[b], pos[a] })
			pos = pos[:j.Flips]
		}
		type group struct {
			at, n int
			o     outcome
		}
		groups, order := map[string]*group{}, []string{}
		for i, p := range pos {
			b := append([]byte{}, f.tape...)
			switch f.rng.Intn(4) {
			case 0:
				b[p] ^= 1 << f.rng.Intn(8)
			case 1:
				b[p]++
			default:
				b[p] ^= byte(1 + f.rng.Intn(255))
			}
			s, err := w.withTape("flipped", w.sessionsOf(b))
			if err != nil {
				return nil, err
			}
			o := f.observe(s, i%64 == 0)
			if i%64 == 1 {
				err = f.opening(s, legit, names, &o)
			}
			if i%64 == 2 {
				err = f.live(s, db, &o)
			}
			if err != nil {
				return nil, err
			}
			k, _ := json.Marshal(o)
			if g, ok := groups[string(k)]; ok {
				g.n++
			} else {
				groups[string(k)] = &group{p, 1, o}
				order = append(order, string(k))
			}
		}
		fl := []J{}
		for _, k := range order {
			g := groups[k]
			fl = append(fl, J{"at": g.at, "n": g.n, "o": g.o})
		}
		out["flips"] = fl
		out["files"], out["others"], out["tape"], out["flipped"] = j.Files, j.Others, len(f.tape), len(pos)
		return out, nil
	}
}

// mustCopy returns a world over a copy of the tape
func (w *World) mustCopy(f *forger) *World {
	s, err := w.withTape("copy", w.sessions(f.tape))
	if err != nil {
		panic(err)
	}
	return s
}

// sessionsOf splits other bytes like the tape is
func (w *World) sessionsOf(b []byte) [][]byte {
	if w.Tape == nil {
		return [][]byte{b}
	}
	out := [][]byte{}
	for _, s := range w.sessions(nil) {
		out = append(out, b[:len(s)])
		b = b[len(s):]
	}
	return out
}
