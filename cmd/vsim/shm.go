package main

import (
	"encoding/binary"
	"os"
	"strings"
)

// Keep in step with sim/worker.go.
const (
	shmHead  = 64
	shmW     = 1 << 15
	shmPick  = 1 << 17
	shmGap   = 1 << 17
	shmTrace = 1 << 13
	shmLog   = 1 << 18
	shmMsg   = 1 << 13
	shmSize  = shmHead*8 + shmW*4 + shmPick*4 + shmGap*4 + shmTrace*8 + shmLog + shmMsg
)

const (
	hStop = iota
	hIndex
	hSeed
	hPicks
	hGaps
	hW
	hLogLen
	hMsgLen
	hTraceLen
	hRunning
	hScenario
)

type shmView struct{ b []byte }

func newShm(path string) error {
	return os.WriteFile(path, make([]byte, shmSize), 0o644)
}

func readShm(path string) (*shmView, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	return &shmView{b}, nil
}

func (s *shmView) h(i int) uint64 { return binary.LittleEndian.Uint64(s.b[i*8:]) }

func (s *shmView) u32s(off, n, max int) []uint32 {
	if n > max {
		n = max
	}
	out := make([]uint32, n)
	for i := range out {
		out[i] = binary.LittleEndian.Uint32(s.b[off+i*4:])
	}
	return out
}

func (s *shmView) tapes() (w, pick, gap []uint32) {
	off := shmHead * 8
	w = s.u32s(off, int(s.h(hW)), shmW)
	off += shmW * 4
	pick = s.u32s(off, int(s.h(hPicks)), shmPick)
	off += shmPick * 4
	gap = s.u32s(off, int(s.h(hGaps)), shmGap)
	return
}

func (s *shmView) tapesOverflowed() bool {
	return s.h(hPicks) > shmPick || s.h(hGaps) > shmGap || s.h(hW) > shmW
}

func (s *shmView) trace() []uint64 {
	off := shmHead*8 + shmW*4 + shmPick*4 + shmGap*4
	var out []uint64
	for i := 0; i+1 < shmTrace; i += 2 {
		a := binary.LittleEndian.Uint64(s.b[off+i*8:])
		if a == 0 {
			break
		}
		out = append(out, a, binary.LittleEndian.Uint64(s.b[off+i*8+8:]))
	}
	return out
}

func (s *shmView) log() string {
	off := shmHead*8 + shmW*4 + shmPick*4 + shmGap*4 + shmTrace*8
	return string(s.b[off : off+int(s.h(hLogLen))])
}

func (s *shmView) msg() (class, msg string) {
	off := shmHead*8 + shmW*4 + shmPick*4 + shmGap*4 + shmTrace*8 + shmLog
	class, msg, _ = strings.Cut(string(s.b[off:off+int(s.h(hMsgLen))]), "\n")
	return
}
