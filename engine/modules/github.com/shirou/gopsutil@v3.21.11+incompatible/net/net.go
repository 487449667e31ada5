// Package net is a stand-in: the harness says what there is to measure.
package net

import (
	"context"
)

type IOCountersStat struct {
	Name        string `json:"name"`        // interface name
	BytesSent   uint64 `json:"bytesSent"`   // number of bytes sent
	BytesRecv   uint64 `json:"bytesRecv"`   // number of bytes received
	PacketsSent uint64 `json:"packetsSent"` // number of packets sent
	PacketsRecv uint64 `json:"packetsRecv"` // number of packets received
	Errin       uint64 `json:"errin"`       // total number of errors while receiving
	Errout      uint64 `json:"errout"`      // total number of errors while sending
	Dropin      uint64 `json:"dropin"`      // total number of incoming packets which were dropped
	Dropout     uint64 `json:"dropout"`     // total number of outgoing packets which were dropped (always 0 on OSX and BSD)
	Fifoin      uint64 `json:"fifoin"`      // total number of FIFO buffers errors while receiving
	Fifoout     uint64 `json:"fifoout"`     // total number of FIFO buffers errors while sending

}

// SimIOCounters answers in place of the system.
var SimIOCounters func(pernic bool) ([]IOCountersStat, error)

func IOCounters(pernic bool) ([]IOCountersStat, error) {
	if SimIOCounters == nil {
		return []IOCountersStat{{Name: "all"}}, nil
	}
	return SimIOCounters(pernic)
}

func IOCountersWithContext(_ context.Context, pernic bool) ([]IOCountersStat, error) {
	return IOCounters(pernic)
}
