package main

import (
	"errors"
	"io"
	"sync"

	"github.com/pojntfx/stfs/pkg/config"
)

// FakeTape behaves like a tape drive in fixed block mode: fixed-size records, a file mark after each write session,
// logical positions which count file marks.
type FakeTape struct {
	recordBytes int

	mu      sync.Mutex
	recs    [][]byte // nil is a file mark
	handles map[uintptr]*fakeHandle
	next    uintptr
}

var errFakeTape = errors.New("fake tape: invalid argument")

func NewFakeTape(rs int) *FakeTape {
	return &FakeTape{recordBytes: rs * config.MagneticTapeBlockSize, handles: map[uintptr]*fakeHandle{}, next: 1000}
}

// Bytes returns the content of all records
func (t *FakeTape) Bytes() []byte {
	t.mu.Lock()
	defer t.mu.Unlock()
	out := []byte{}
	for _, r := range t.recs {
		out = append(out, r...)
	}
	return out
}

// Clone copies the tape
func (t *FakeTape) Clone() *FakeTape {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := NewFakeTape(t.recordBytes / config.MagneticTapeBlockSize)
	n.recs = append([][]byte{}, t.recs...)
	return n
}

type fakeHandle struct {
	t    *FakeTape
	fd   uintptr
	pos  int // Record
	rest []byte
}

func (h *fakeHandle) Fd() uintptr { return h.fd }

func (h *fakeHandle) Read(p []byte) (int, error) {
	h.t.mu.Lock()
	defer h.t.mu.Unlock()
	if h.pos >= len(h.t.recs) {
		return 0, io.EOF
	}
	rec := h.t.recs[h.pos]
	if rec == nil {
		return 0, io.EOF // Stay in front of the file mark
	}
	if len(p) < len(rec) {
		return 0, errFakeTape // ENOMEM on a real drive
	}
	h.pos++
	return copy(p, rec), nil
}

func (h *fakeHandle) Seek(int64, int) (int64, error) { return 0, errFakeTape }

type fakeWriter struct {
	t   *FakeTape
	buf []byte
	err error
	any bool
}

func (w *fakeWriter) Write(p []byte) (int, error) {
	w.t.mu.Lock()
	defer w.t.mu.Unlock()
	if len(p)%w.t.recordBytes != 0 {
		return 0, errFakeTape // Only full records can be written in fixed block mode
	}
	for i := 0; i < len(p); i += w.t.recordBytes {
		w.t.recs = append(w.t.recs, append([]byte{}, p[i:i+w.t.recordBytes]...))
		w.any = true
	}
	return len(p), nil
}

// Backend returns a backend which uses the tape
func (t *FakeTape) Backend() config.BackendConfig {
	var lock sync.Mutex
	var inUse bool
	var writer *fakeWriter
	var cl sync.Mutex
	return config.BackendConfig{
		GetWriter: func() (config.DriveWriterConfig, error) {
			lock.Lock()
			cl.Lock()
			defer cl.Unlock()
			inUse = true
			writer = &fakeWriter{t: t}
			return config.DriveWriterConfig{Drive: writer, DriveIsRegular: false}, nil
		},
		CloseWriter: func() error {
			cl.Lock()
			defer cl.Unlock()
			if !inUse {
				return nil
			}
			if writer != nil && writer.any {
				t.mu.Lock()
				t.recs = append(t.recs, nil)
				t.mu.Unlock()
			}
			writer, inUse = nil, false
			lock.Unlock()
			return nil
		},
		GetReader: func() (config.DriveReaderConfig, error) {
			lock.Lock()
			cl.Lock()
			defer cl.Unlock()
			inUse = true
			return config.DriveReaderConfig{Drive: t.open(), DriveIsRegular: false}, nil
		},
		CloseReader: func() error {
			cl.Lock()
			defer cl.Unlock()
			if !inUse {
				return nil
			}
			inUse = false
			lock.Unlock()
			return nil
		},
		MagneticTapeIO: t,
	}
}

func (t *FakeTape) open() *fakeHandle {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.next++
	h := &fakeHandle{t: t, fd: t.next}
	t.handles[h.fd] = h
	return h
}

func (t *FakeTape) get(fd uintptr) (*fakeHandle, error) {
	h, ok := t.handles[fd]
	if !ok {
		return nil, errFakeTape
	}
	return h, nil
}

func (t *FakeTape) GetCurrentRecordFromTape(fd uintptr) (int64, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	h, err := t.get(fd)
	if err != nil {
		return -1, err
	}
	return int64(h.pos), nil
}

func (t *FakeTape) GoToEndOfTape(fd uintptr) error {
	t.mu.Lock()
	defer t.mu.Unlock()
	h, err := t.get(fd)
	if err != nil {
		return err
	}
	h.pos = len(t.recs)
	return nil
}

func (t *FakeTape) GoToNextFileOnTape(fd uintptr) error {
	t.mu.Lock()
	defer t.mu.Unlock()
	h, err := t.get(fd)
	if err != nil {
		return err
	}
	for i := h.pos; i < len(t.recs); i++ {
		if t.recs[i] == nil {
			if i+1 >= len(t.recs) {
				return io.ErrUnexpectedEOF // Nothing follows
			}
			h.pos = i + 1
			return nil
		}
	}
	return io.ErrUnexpectedEOF
}

func (t *FakeTape) EjectTape(fd uintptr) error { return nil }

func (t *FakeTape) SeekToRecordOnTape(fd uintptr, record int32) error {
	t.mu.Lock()
	defer t.mu.Unlock()
	h, err := t.get(fd)
	if err != nil {
		return err
	}
	if int(record) > len(t.recs) {
		return errFakeTape
	}
	h.pos = int(record)
	return nil
}
