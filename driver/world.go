package main

import (
	"context"
	"crypto/rand"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sync"

	"aead.dev/minisign"
	golog "github.com/fclairamb/go-log"
	"github.com/pojntfx/stfs/pkg/cache"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/fs"
	"github.com/pojntfx/stfs/pkg/keys"
	"github.com/pojntfx/stfs/pkg/mtio"
	"github.com/pojntfx/stfs/pkg/operations"
	"github.com/pojntfx/stfs/pkg/persisters"
	"github.com/pojntfx/stfs/pkg/tape"
	"github.com/pojntfx/stfs/pkg/utility"
	"github.com/spf13/afero"
)

// Cfg is a pipeline configuration
type Cfg struct {
	Comp    string `json:"comp"`
	Level   string `json:"level"`
	Enc     string `json:"enc"`
	Sig     string `json:"sig"`
	RS      int    `json:"rs"`
	Cache   string `json:"cache"`
	Tape    bool   `json:"tape"` // Not a regular file
	WPR     bool   `json:"wpr"`  // Write permissions imply read permissions
	RO      bool   `json:"ro"`
	NoWrite bool   `json:"nowrite"` // No write operations are configured
}

func (c *Cfg) defaults() {
	if c.Level == "" {
		c.Level = config.CompressionLevelFastestKey
	}
	if c.RS == 0 {
		c.RS = 20
	}
	if c.Cache == "" {
		c.Cache = config.WriteCacheTypeMemory
	}
}

// KeySet are the parsed keys of one party
type KeySet struct {
	EncRecipient, EncIdentity, SigRecipient, SigIdentity interface{}
}

var keySets = map[string]*KeySet{}

// getKeys generates (once per process) the keys of the party with the given name
func getKeys(enc, sig, party string) (*KeySet, error) {
	k := enc + "|" + sig + "|" + party
	if ks, ok := keySets[k]; ok {
		return ks, nil
	}
	ks := &KeySet{}
	if enc != "" {
		priv, pub, err := utility.Keygen(config.PipeConfig{Encryption: enc}, config.PasswordConfig{})
		if err != nil {
			return nil, err
		}
		if ks.EncRecipient, err = keys.ParseRecipient(enc, pub); err != nil {
			return nil, err
		}
		if ks.EncIdentity, err = keys.ParseIdentity(enc, priv, ""); err != nil {
			return nil, err
		}
	}
	if sig == config.SignatureFormatMinisignKey {
		// Deriving keys from passwords takes seconds on purpose, so only C18 does it
		pub, priv, err := minisign.GenerateKey(rand.Reader)
		if err != nil {
			return nil, err
		}
		ks.SigIdentity = priv
		if ks.SigRecipient, err = keys.ParseSignerRecipient(sig, []byte(pub.String())); err != nil {
			return nil, err
		}
	} else if sig != "" {
		priv, pub, err := utility.Keygen(config.PipeConfig{Signature: sig}, config.PasswordConfig{})
		if err != nil {
			return nil, err
		}
		if ks.SigRecipient, err = keys.ParseSignerRecipient(sig, pub); err != nil {
			return nil, err
		}
		if ks.SigIdentity, err = keys.ParseSignerIdentity(sig, priv, ""); err != nil {
			return nil, err
		}
	}
	keySets[k] = ks
	return ks, nil
}

type nopLogger struct{}

func (nopLogger) Panic(string, ...interface{})       {}
func (l nopLogger) With(...interface{}) golog.Logger { return l }

func (nopLogger) Trace(string, ...interface{}) {}
func (nopLogger) Debug(string, ...interface{}) {}
func (nopLogger) Info(string, ...interface{})  {}
func (nopLogger) Warn(string, ...interface{})  {}
func (nopLogger) Error(string, ...interface{}) {}

// World is one tape together with one index and one file system instance over them
type World struct {
	Cfg   Cfg
	Dir   string
	Drive string
	DB    string
	Keys  *KeySet

	Overwrite bool // The drive is to be overwritten by the first call which writes

	Seams *Seams
	Tape  *FakeTape

	MP       config.MetadataPersister
	ReadOps  *operations.Operations
	WriteOps *operations.Operations
	FS       *fs.STFS
	View     afero.Fs // What calls are made to; FS itself by default
	BE       config.BackendConfig
}

func (w *World) fs() afero.Fs {
	if w.View != nil {
		return w.View
	}
	return w.FS
}

var worldLock sync.Mutex
var worldCount int

func newDir() (string, error) {
	worldLock.Lock()
	defer worldLock.Unlock()
	worldCount++
	d := filepath.Join(scratch, fmt.Sprintf("w%d-%d", os.Getpid(), worldCount))
	return d, os.MkdirAll(d, 0700)
}

// NewWorld prepares an empty tape and index
func NewWorld(cfg Cfg) (*World, error) {
	cfg.defaults()
	d, err := newDir()
	if err != nil {
		return nil, err
	}
	ks, err := getKeys(cfg.Enc, cfg.Sig, "owner")
	if err != nil {
		return nil, err
	}
	w := &World{Cfg: cfg, Dir: d, Drive: filepath.Join(d, "drive.tar"), DB: filepath.Join(d, "index.sqlite"), Keys: ks}
	if cfg.Tape {
		w.Tape = NewFakeTape(cfg.RS)
	}
	return w, nil
}

// Close removes everything the world consists of
func (w *World) Close() {
	_ = os.RemoveAll(w.Dir)
}

// Sibling shares the drive of a world, but uses another index
func (w *World) Sibling(db string) *World {
	s := *w
	s.DB = filepath.Join(w.Dir, db)
	s.Seams = nil
	s.MP, s.ReadOps, s.WriteOps, s.FS, s.View = nil, nil, nil, nil, nil
	return &s
}

func (w *World) pipes() config.PipeConfig {
	return config.PipeConfig{Compression: w.Cfg.Comp, Encryption: w.Cfg.Enc, Signature: w.Cfg.Sig, RecordSize: w.Cfg.RS}
}

func (w *World) readCrypto() config.CryptoConfig {
	return config.CryptoConfig{Recipient: w.Keys.SigRecipient, Identity: w.Keys.EncIdentity}
}

func (w *World) writeCrypto() config.CryptoConfig {
	return config.CryptoConfig{Recipient: w.Keys.EncRecipient, Identity: w.Keys.SigIdentity}
}

// newBackend returns a backend like the one which the documented composition uses
func (w *World) newBackend() config.BackendConfig {
	if w.Tape != nil {
		return w.Tape.Backend()
	}
	mt := mtio.MagneticTapeIO{}
	tm := tape.NewTapeManager(w.Drive, mt, w.Cfg.RS, w.Overwrite)
	return config.BackendConfig{
		GetWriter:      tm.GetWriter,
		CloseWriter:    tm.Close,
		GetReader:      tm.GetReader,
		CloseReader:    tm.Close,
		MagneticTapeIO: mt,
	}
}

func openPersister(db string) (*persisters.MetadataPersister, error) {
	p := persisters.NewMetadataPersister(db)
	return p, p.Open()
}

// Build composes a file system over the drive and the index
func (w *World) Build() error {
	p, err := openPersister(w.DB)
	if err != nil {
		return err
	}
	w.MP = p
	w.BE = w.newBackend()
	if w.Seams != nil {
		w.MP = w.Seams.wrapMetadata(w.MP)
		w.BE = w.Seams.wrapBackend(w, w.BE)
	}
	w.ReadOps = operations.NewOperations(w.BE, config.MetadataConfig{Metadata: w.MP}, w.pipes(), w.readCrypto(), func(*config.HeaderEvent) {})
	w.WriteOps = operations.NewOperations(w.BE, config.MetadataConfig{Metadata: w.MP}, w.pipes(), w.writeCrypto(), func(*config.HeaderEvent) {})
	wo := w.WriteOps
	getBuf := func() (cache.WriteCache, func() error, error) {
		c, clean, err := cache.NewCacheWrite(w.Dir, w.Cfg.Cache)
		if err == nil && w.Seams != nil {
			c = w.Seams.wrapCache(c)
		}
		return c, clean, err
	}
	if w.Cfg.NoWrite {
		wo, getBuf = nil, nil
	}
	w.FS = fs.NewSTFS(w.ReadOps, wo, config.MetadataConfig{Metadata: w.MP}, w.Cfg.Level, getBuf, w.Cfg.RO, w.Cfg.WPR, func(*config.Header) {}, nopLogger{})
	return nil
}

// Open builds and initializes with an absolute root
func (w *World) Open() error {
	if err := w.Build(); err != nil {
		return err
	}
	_, err := w.FS.Initialize("/", os.ModePerm)
	return err
}

// TapeBytes returns the current content of the drive
func (w *World) TapeBytes() ([]byte, error) {
	if w.Tape != nil {
		return w.Tape.Bytes(), nil
	}
	b, err := os.ReadFile(w.Drive)
	if errors.Is(err, os.ErrNotExist) {
		return nil, nil
	}
	return b, err
}

func copyFile(src, dst string) error {
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	return os.WriteFile(dst, b, 0600)
}

var _ = io.EOF
var _ = context.Background
