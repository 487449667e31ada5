// Package mem is a stand-in: the harness says what there is to measure.
package mem

import (
	"context"
)

type VirtualMemoryStat struct {
	Total uint64 `json:"total"`

	Available uint64 `json:"available"`

	Used uint64 `json:"used"`

	UsedPercent float64 `json:"usedPercent"`

	Free uint64 `json:"free"`

	Active   uint64 `json:"active"`
	Inactive uint64 `json:"inactive"`
	Wired    uint64 `json:"wired"`

	Laundry uint64 `json:"laundry"`

	Buffers        uint64 `json:"buffers"`
	Cached         uint64 `json:"cached"`
	Writeback      uint64 `json:"writeback"`
	Dirty          uint64 `json:"dirty"`
	WritebackTmp   uint64 `json:"writebacktmp"`
	Shared         uint64 `json:"shared"`
	Slab           uint64 `json:"slab"`
	SReclaimable   uint64 `json:"sreclaimable"`
	SUnreclaim     uint64 `json:"sunreclaim"`
	PageTables     uint64 `json:"pagetables"`
	SwapCached     uint64 `json:"swapcached"`
	CommitLimit    uint64 `json:"commitlimit"`
	CommittedAS    uint64 `json:"committedas"`
	HighTotal      uint64 `json:"hightotal"`
	HighFree       uint64 `json:"highfree"`
	LowTotal       uint64 `json:"lowtotal"`
	LowFree        uint64 `json:"lowfree"`
	SwapTotal      uint64 `json:"swaptotal"`
	SwapFree       uint64 `json:"swapfree"`
	Mapped         uint64 `json:"mapped"`
	VMallocTotal   uint64 `json:"vmalloctotal"`
	VMallocUsed    uint64 `json:"vmallocused"`
	VMallocChunk   uint64 `json:"vmallocchunk"`
	HugePagesTotal uint64 `json:"hugepagestotal"`
	HugePagesFree  uint64 `json:"hugepagesfree"`
	HugePageSize   uint64 `json:"hugepagesize"`
}

// SimVirtualMemory answers in place of the system.
var SimVirtualMemory func() (*VirtualMemoryStat, error)

func VirtualMemory() (*VirtualMemoryStat, error) {
	if SimVirtualMemory == nil {
		return &VirtualMemoryStat{}, nil
	}
	return SimVirtualMemory()
}

func VirtualMemoryWithContext(context.Context) (*VirtualMemoryStat, error) { return VirtualMemory() }
