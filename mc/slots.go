package main

import (
	"encoding/binary"
	"os"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// A slot holds the case a worker is running, in memory shared with the supervising parent,
// which reads it if the child crashes or hangs.
const (
	slotSize = 1 << 17
	slotHdr  = 32 // seq, time, kind/len
	nSlots   = 16
)

type slotFile struct{ mem []byte }

func openSlots(name string) (*slotFile, error) {
	fd, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil, err
	}
	defer fd.Close()
	if err := fd.Truncate(slotSize * nSlots); err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(fd.Fd()), 0, slotSize*nSlots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &slotFile{mem}, nil
}

type slot struct{ mem []byte }

func (f *slotFile) slot(i int) slot { return slot{f.mem[i*slotSize : (i+1)*slotSize]} }

var started = time.Now()

// begin records the texts of the case (truncated if enormous; such cases use generators instead).
func (s slot) begin(kind byte, a, b string) {
	if s.mem == nil {
		return
	}
	s.clear()
	room := slotSize - slotHdr
	if len(a) > room/2 {
		a = a[:room/2]
	}
	if len(b) > room/2 {
		b = b[:room/2]
	}
	m := s.mem
	m[16] = kind
	binary.LittleEndian.PutUint32(m[20:], uint32(len(a)))
	binary.LittleEndian.PutUint32(m[24:], uint32(len(b)))
	copy(m[slotHdr:], a)
	copy(m[slotHdr+len(a):], b)
	atomic.StoreInt64((*int64)(unsafe.Pointer(&m[8])), time.Now().UnixNano())
	atomic.StoreUint64((*uint64)(unsafe.Pointer(&m[0])), 1)
}

func (s slot) clear() {
	if s.mem != nil {
		atomic.StoreUint64((*uint64)(unsafe.Pointer(&s.mem[0])), 0)
	}
}

// read returns the case in the slot, if it is busy.
func (s slot) read() (kind byte, a, b string, age time.Duration, busy bool) {
	m := s.mem
	if atomic.LoadUint64((*uint64)(unsafe.Pointer(&m[0]))) == 0 {
		return
	}
	age = time.Duration(time.Now().UnixNano() - atomic.LoadInt64((*int64)(unsafe.Pointer(&m[8]))))
	la, lb := binary.LittleEndian.Uint32(m[20:]), binary.LittleEndian.Uint32(m[24:])
	if int(la)+int(lb) > slotSize-slotHdr {
		return
	}
	return m[16], string(m[slotHdr : slotHdr+la]), string(m[slotHdr+la : slotHdr+la+lb]), age, true
}
