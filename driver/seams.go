package main

import (
	"context"
	"errors"
	"io"
	"os"

	"github.com/pojntfx/stfs/pkg/cache"
	"github.com/pojntfx/stfs/pkg/config"
)

// Seams are the places at which the code under test leaves its own responsibility: the drive, the index store and the
// write cache. Hook is called before each such step and may return an error, which then becomes the step's result.
type Seams struct {
	Hook func(point string) error
	Ev   func(event string) // w+, r+: the drive has been opened; w-err, r-err: could not be opened; -: has been closed
}

func (s *Seams) at(point string) error {
	if s == nil || s.Hook == nil {
		return nil
	}
	return s.Hook(point)
}

// ev reports what happened at the drive
func (s *Seams) ev(e string) {
	if s != nil && s.Ev != nil {
		s.Ev(e)
	}
}

// errSwap makes the drive manager itself fail: the drive is replaced by something that can't be opened for a moment
var errSwap = errors.New("verif: drive has been replaced")

func (w *World) swapped(fn func()) {
	if w.Tape != nil {
		fn()
		return
	}
	away := w.Drive + ".away"
	gone := os.Rename(w.Drive, away)
	_ = os.Symlink(w.Drive, w.Drive)
	fn()
	_ = os.Remove(w.Drive)
	if gone == nil {
		_ = os.Rename(away, w.Drive)
	}
}

func (s *Seams) wrapBackend(wd *World, b config.BackendConfig) config.BackendConfig {
	return config.BackendConfig{
		GetWriter: func() (w config.DriveWriterConfig, err error) {
			if err = s.at("drive.openw"); err == errSwap && wd.Tape == nil {
				wd.swapped(func() { w, err = b.GetWriter() })
			} else if err != nil {
				s.ev("w-err")
				return config.DriveWriterConfig{}, err
			} else {
				w, err = b.GetWriter()
			}
			if err == nil {
				s.ev("w+")
				w.Drive = &seamWriter{s, w.Drive}
			} else {
				s.ev("w-err")
			}
			return w, err
		},
		CloseWriter: func() error {
			s.ev("-")
			err := b.CloseWriter()
			if serr := s.at("drive.closew"); serr != nil {
				return serr
			}
			return err
		},
		GetReader: func() (r config.DriveReaderConfig, err error) {
			if err = s.at("drive.openr"); err == errSwap && wd.Tape == nil {
				wd.swapped(func() { r, err = b.GetReader() })
			} else if err != nil {
				s.ev("r-err")
				return config.DriveReaderConfig{}, err
			} else {
				r, err = b.GetReader()
			}
			if err == nil {
				s.ev("r+")
				r.Drive = &seamReader{s, r.Drive}
			} else {
				s.ev("r-err")
			}
			return r, err
		},
		CloseReader: func() error {
			s.ev("-")
			err := b.CloseReader()
			if serr := s.at("drive.closer"); serr != nil {
				return serr
			}
			return err
		},
		MagneticTapeIO: &seamTape{s, b.MagneticTapeIO},
	}
}

type seamTape struct {
	s *Seams
	m config.MagneticTapeIO
}

func (t *seamTape) GetCurrentRecordFromTape(fd uintptr) (int64, error) {
	if err := t.s.at("mt.GetCurrentRecordFromTape"); err != nil {
		return 0, err
	}
	return t.m.GetCurrentRecordFromTape(fd)
}
func (t *seamTape) GoToEndOfTape(fd uintptr) error {
	if err := t.s.at("mt.GoToEndOfTape"); err != nil {
		return err
	}
	return t.m.GoToEndOfTape(fd)
}
func (t *seamTape) GoToNextFileOnTape(fd uintptr) error {
	if err := t.s.at("mt.GoToNextFileOnTape"); err != nil {
		return err
	}
	return t.m.GoToNextFileOnTape(fd)
}
func (t *seamTape) EjectTape(fd uintptr) error {
	if err := t.s.at("mt.EjectTape"); err != nil {
		return err
	}
	return t.m.EjectTape(fd)
}
func (t *seamTape) SeekToRecordOnTape(fd uintptr, record int32) error {
	if err := t.s.at("mt.SeekToRecordOnTape"); err != nil {
		return err
	}
	return t.m.SeekToRecordOnTape(fd, record)
}

type seamWriter struct {
	s *Seams
	w io.Writer
}

func (w *seamWriter) Write(p []byte) (int, error) {
	if err := w.s.at("drive.write"); err != nil {
		n := 0
		if err == errTorn && len(p) > 1 {
			n, _ = w.w.Write(p[:len(p)/2]) // The write has been cut off
		}
		return n, err
	}
	return w.w.Write(p)
}

type seamReader struct {
	s *Seams
	r config.ReadSeekFder
}

func (r *seamReader) Fd() uintptr { return r.r.Fd() }
func (r *seamReader) Read(p []byte) (int, error) {
	if err := r.s.at("drive.read"); err != nil {
		return 0, err
	}
	return r.r.Read(p)
}
func (r *seamReader) Seek(o int64, w int) (int64, error) {
	if err := r.s.at("drive.seek"); err != nil {
		return 0, err
	}
	return r.r.Seek(o, w)
}

type seamCache struct {
	cache.WriteCache
	s *Seams
}

func (s *Seams) wrapCache(c cache.WriteCache) cache.WriteCache { return &seamCache{c, s} }

func (c *seamCache) Read(p []byte) (int, error) {
	if err := c.s.at("cache.read"); err != nil {
		return 0, err
	}
	return c.WriteCache.Read(p)
}
func (c *seamCache) Write(p []byte) (int, error) {
	if err := c.s.at("cache.write"); err != nil {
		return 0, err
	}
	return c.WriteCache.Write(p)
}
func (c *seamCache) Seek(o int64, w int) (int64, error) {
	if err := c.s.at("cache.seek"); err != nil {
		return 0, err
	}
	return c.WriteCache.Seek(o, w)
}

type seamMetadata struct {
	s *Seams
	m config.MetadataPersister
}

func (s *Seams) wrapMetadata(m config.MetadataPersister) config.MetadataPersister {
	return &seamMetadata{s, m}
}

func (m *seamMetadata) UpsertHeader(ctx context.Context, h *config.Header, initializing bool) error {
	if err := m.s.at("md.UpsertHeader"); err != nil {
		return err
	}
	return m.m.UpsertHeader(ctx, h, initializing)
}
func (m *seamMetadata) UpdateHeaderMetadata(ctx context.Context, h *config.Header) error {
	if err := m.s.at("md.UpdateHeaderMetadata"); err != nil {
		return err
	}
	return m.m.UpdateHeaderMetadata(ctx, h)
}
func (m *seamMetadata) MoveHeader(ctx context.Context, o, n string, r, b int64) error {
	if err := m.s.at("md.MoveHeader"); err != nil {
		return err
	}
	return m.m.MoveHeader(ctx, o, n, r, b)
}
func (m *seamMetadata) GetHeaders(ctx context.Context) ([]*config.Header, error) {
	if err := m.s.at("md.GetHeaders"); err != nil {
		return nil, err
	}
	return m.m.GetHeaders(ctx)
}
func (m *seamMetadata) GetHeader(ctx context.Context, n string) (*config.Header, error) {
	if err := m.s.at("md.GetHeader"); err != nil {
		return nil, err
	}
	return m.m.GetHeader(ctx, n)
}
func (m *seamMetadata) GetHeaderByLinkname(ctx context.Context, n string) (*config.Header, error) {
	if err := m.s.at("md.GetHeaderByLinkname"); err != nil {
		return nil, err
	}
	return m.m.GetHeaderByLinkname(ctx, n)
}
func (m *seamMetadata) GetHeaderChildren(ctx context.Context, n string) ([]*config.Header, error) {
	if err := m.s.at("md.GetHeaderChildren"); err != nil {
		return nil, err
	}
	return m.m.GetHeaderChildren(ctx, n)
}
func (m *seamMetadata) GetRootPath(ctx context.Context) (string, error) {
	if err := m.s.at("md.GetRootPath"); err != nil {
		return "", err
	}
	return m.m.GetRootPath(ctx)
}
func (m *seamMetadata) GetHeaderDirectChildren(ctx context.Context, n string, l int) ([]*config.Header, error) {
	if err := m.s.at("md.GetHeaderDirectChildren"); err != nil {
		return nil, err
	}
	return m.m.GetHeaderDirectChildren(ctx, n, l)
}
func (m *seamMetadata) DeleteHeader(ctx context.Context, n string, r, b int64) (*config.Header, error) {
	if err := m.s.at("md.DeleteHeader"); err != nil {
		return nil, err
	}
	return m.m.DeleteHeader(ctx, n, r, b)
}
func (m *seamMetadata) GetLastIndexedRecordAndBlock(ctx context.Context, rs int) (int64, int64, error) {
	if err := m.s.at("md.GetLastIndexedRecordAndBlock"); err != nil {
		return 0, 0, err
	}
	return m.m.GetLastIndexedRecordAndBlock(ctx, rs)
}
func (m *seamMetadata) PurgeAllHeaders(ctx context.Context) error {
	if err := m.s.at("md.PurgeAllHeaders"); err != nil {
		return err
	}
	return m.m.PurgeAllHeaders(ctx)
}
