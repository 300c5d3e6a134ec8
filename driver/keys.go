package main

import (
	"archive/tar"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"strings"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	"github.com/pojntfx/stfs/pkg/keys"
	"github.com/pojntfx/stfs/pkg/signature"
	"github.com/pojntfx/stfs/pkg/utility"
)

type keyOp struct {
	Op  string `json:"op"`
	I   int    `json:"i"`
	J   int    `json:"j"`
	F   string `json:"f"`
	W   int    `json:"w"`
	M   int    `json:"m"`
	How string `json:"how"`
}

// keysJob uses generated keys
type keysJob struct {
	Ops       []keyOp  `json:"ops"`
	Passwords []string `json:"passwords"` // In base64, as they may be anything
	Msgs      []string `json:"msgs"`      // In base64, too
}

type keyPair struct {
	f         string
	priv, pub []byte
	id        interface{}
}

type keyThing struct {
	by   int
	how  string
	data string // Encrypted, or what has been signed
	sig  string
	hdr  tar.Header
}

func init() {
	runners["keys"] = func(raw json.RawMessage) (J, error) {
		var j keysJob
		if err := json.Unmarshal(raw, &j); err != nil {
			return nil, err
		}
		dec := func(in []string) ([]string, error) {
			out := []string{}
			for _, s := range in {
				b, err := base64.StdEncoding.DecodeString(s)
				if err != nil {
					return nil, err
				}
				out = append(out, string(b))
			}
			return out, nil
		}
		pws, err := dec(j.Passwords)
		if err != nil {
			return nil, err
		}
		msgs, err := dec(j.Msgs)
		if err != nil {
			return nil, err
		}
		header := func(m int) *tar.Header {
			return &tar.Header{Name: fmt.Sprintf("/m%d", m), Size: int64(len(msgs[m-1])), Mode: 0644, PAXRecords: map[string]string{"STFS.Version": "1", "X": base64.StdEncoding.EncodeToString([]byte(msgs[m-1]))}}
		}
		same := func(h *tar.Header) int {
			for m := range msgs {
				x := header(m + 1)
				if h.Name == x.Name && h.Size == x.Size && h.PAXRecords["X"] == x.PAXRecords["X"] && h.PAXRecords["STFS.Version"] == "1" {
					return m + 1
				}
			}
			return -1
		}
		number := func(s string) int {
			for m, x := range msgs {
				if x == s {
					return m + 1
				}
			}
			return -1
		}
		pairs := []*keyPair{}
		things := []keyThing{}
		formats := map[string]string{"age": config.EncryptionFormatAgeKey, "pgpe": config.EncryptionFormatPGPKey, "pgps": config.SignatureFormatPGPKey, "minisign": config.SignatureFormatMinisignKey}
		enc := func(p *keyPair) bool { return p.f == "age" || p.f == "pgpe" }

		do := func(o keyOp) (m int, err error) {
			defer func() {
				if p := recover(); p != nil {
					err = callError(fmt.Sprintf("panic: %v", p))
				}
			}()
			switch o.Op {
			case "gen":
				p := &keyPair{f: o.F}
				pc := config.PipeConfig{Encryption: formats[o.F]}
				if !enc(p) {
					pc = config.PipeConfig{Signature: formats[o.F]}
				}
				if p.priv, p.pub, err = utility.Keygen(pc, config.PasswordConfig{Password: pws[o.W-1]}); err != nil {
					return 0, err
				}
				pairs = append(pairs, p)
				// The public half parses
				if enc(p) {
					_, err = keys.ParseRecipient(formats[p.f], p.pub)
				} else {
					_, err = keys.ParseSignerRecipient(formats[p.f], p.pub)
				}
				return 0, err
			case "parse":
				p := pairs[o.I-1]
				var id interface{}
				if enc(p) {
					id, err = keys.ParseIdentity(formats[p.f], append([]byte{}, p.priv...), pws[o.W-1])
				} else {
					id, err = keys.ParseSignerIdentity(formats[p.f], append([]byte{}, p.priv...), pws[o.W-1])
				}
				if err == nil {
					p.id = id
				}
				return 0, err
			case "make":
				p := pairs[o.I-1]
				t := keyThing{by: o.I, how: o.How, data: msgs[o.M-1]}
				f := formats[p.f]
				t.hdr = *header(o.M)
				if enc(p) {
					rec, err := keys.ParseRecipient(f, p.pub)
					if err != nil {
						return 0, err
					}
					switch o.How {
					case "string":
						t.data, err = encryption.EncryptString(msgs[o.M-1], f, rec)
					case "header":
						err = encryption.EncryptHeader(&t.hdr, f, rec)
					case "stream":
						buf := &bytes.Buffer{}
						var w io.WriteCloser
						if w, err = encryption.Encrypt(buf, f, rec); err != nil {
							return 0, err
						}
						if _, err = io.Copy(w, strings.NewReader(msgs[o.M-1])); err != nil {
							return 0, err
						}
						err = w.Close()
						t.data = buf.String()
					}
					if err != nil {
						return 0, err
					}
				} else {
					switch o.How {
					case "string":
						t.sig, err = signature.SignString(msgs[o.M-1], true, f, p.id)
					case "header":
						err = signature.SignHeader(&t.hdr, true, f, p.id)
					case "stream":
						r, sign, e := signature.Sign(strings.NewReader(msgs[o.M-1]), true, f, p.id)
						if e != nil {
							return 0, e
						}
						if _, err = io.Copy(io.Discard, r); err != nil {
							return 0, err
						}
						t.sig, err = sign()
					}
					if err != nil {
						return 0, err
					}
				}
				things = append(things, t)
				return 0, nil
			case "open":
				p, t := pairs[o.J-1], things[o.I-1]
				f := formats[p.f]
				if enc(p) {
					switch t.how {
					case "string":
						s, err := encryption.DecryptString(t.data, f, p.id)
						return number(s), err
					case "header":
						h := t.hdr
						err := encryption.DecryptHeader(&h, f, p.id)
						if err != nil {
							return 0, err
						}
						return same(&h), nil
					}
					r, err := encryption.Decrypt(strings.NewReader(t.data), f, p.id)
					if err != nil {
						return 0, err
					}
					b, err := io.ReadAll(r)
					if err == nil {
						err = r.Close()
					}
					return number(string(b)), err
				}
				rec, err := keys.ParseSignerRecipient(f, p.pub)
				if err != nil {
					return 0, err
				}
				switch t.how {
				case "string":
					return o.M, signature.VerifyString(msgs[o.M-1], true, f, rec, t.sig)
				case "header":
					h := t.hdr
					h.PAXRecords = map[string]string{}
					for k, v := range t.hdr.PAXRecords {
						h.PAXRecords[k] = v
					}
					if o.M > 0 {
						b, err := json.Marshal(header(o.M))
						if err != nil {
							return 0, err
						}
						h.PAXRecords["STFS.EmbeddedHeader"] = string(b)
					}
					if err := signature.VerifyHeader(&h, true, f, rec); err != nil {
						return 0, err
					}
					return same(&h), nil
				}
				r, verify, err := signature.Verify(strings.NewReader(msgs[o.M-1]), true, f, rec, t.sig)
				if err != nil {
					return 0, err
				}
				b, err := io.ReadAll(r)
				if err != nil {
					return 0, err
				}
				return number(string(b)), verify()
			}
			return 0, fmt.Errorf("unknown call %v", o.Op)
		}

		steps := []J{}
		for _, o := range j.Ops {
			s := J{"o": o, "e": "ok", "d": "", "m": 0, "w": ""}
			if o.W > 0 {
				s["w"] = fmt.Sprintf("%.60q", pws[o.W-1])
			}
			m, err := do(o)
			if err != nil {
				s["e"], s["d"] = "error", err.Error()
				if _, ok := err.(callError); ok {
					s["e"] = "panic"
				}
				m = 0
			}
			s["m"] = m
			steps = append(steps, s)
			if o.Op == "gen" && err != nil {
				break // Nothing of what follows makes sense
			}
		}
		return J{"steps": steps}, nil
	}
}
