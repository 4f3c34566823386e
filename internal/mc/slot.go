package mc

import (
	"encoding/binary"
	"os"
	"syscall"
)

// Slot is a memory-mapped record of the case a worker is running, which
// survives the death of the worker.
type Slot struct {
	mem []byte
}

const slotSize = 1 << 16

// OpenSlot maps the slot file.
func OpenSlot(path string) (*Slot, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(slotSize); err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &Slot{mem}, nil
}

// Set records a case.
func (s *Slot) Set(space string, choices []int) {
	if len(choices) > 2000 {
		choices = choices[:2000]
	}
	if len(space) > 200 {
		space = space[:200]
	}
	m := s.mem
	m[0] = byte(len(space))
	copy(m[1:], space)
	binary.LittleEndian.PutUint16(m[256:], uint16(len(choices)))
	for i, c := range choices {
		binary.LittleEndian.PutUint32(m[258+4*i:], uint32(c))
	}
}

// Get returns the recorded case.
func (s *Slot) Get() (space string, choices []int) {
	m := s.mem
	space = string(m[1 : 1+int(m[0])])
	n := int(binary.LittleEndian.Uint16(m[256:]))
	for i := 0; i < n; i++ {
		choices = append(choices, int(binary.LittleEndian.Uint32(m[258+4*i:])))
	}
	return
}
