// Package disk is a stand-in: the harness says what there is to measure.
package disk

import (
	"context"
)

type UsageStat struct {
	Path              string  `json:"path"`
	Fstype            string  `json:"fstype"`
	Total             uint64  `json:"total"`
	Free              uint64  `json:"free"`
	Used              uint64  `json:"used"`
	UsedPercent       float64 `json:"usedPercent"`
	InodesTotal       uint64  `json:"inodesTotal"`
	InodesUsed        uint64  `json:"inodesUsed"`
	InodesFree        uint64  `json:"inodesFree"`
	InodesUsedPercent float64 `json:"inodesUsedPercent"`
}

type PartitionStat struct {
	Device     string `json:"device"`
	Mountpoint string `json:"mountpoint"`
	Fstype     string `json:"fstype"`
	Opts       string `json:"opts"`
}

type IOCountersStat struct {
	ReadCount        uint64 `json:"readCount"`
	MergedReadCount  uint64 `json:"mergedReadCount"`
	WriteCount       uint64 `json:"writeCount"`
	MergedWriteCount uint64 `json:"mergedWriteCount"`
	ReadBytes        uint64 `json:"readBytes"`
	WriteBytes       uint64 `json:"writeBytes"`
	ReadTime         uint64 `json:"readTime"`
	WriteTime        uint64 `json:"writeTime"`
	IopsInProgress   uint64 `json:"iopsInProgress"`
	IoTime           uint64 `json:"ioTime"`
	WeightedIO       uint64 `json:"weightedIO"`
	Name             string `json:"name"`
	SerialNumber     string `json:"serialNumber"`
	Label            string `json:"label"`
}

// These answer in place of the system.
var (
	SimUsage      func(path string) (*UsageStat, error)
	SimPartitions func(all bool) ([]PartitionStat, error)
	SimIOCounters func(names ...string) (map[string]IOCountersStat, error)
)

func Usage(path string) (*UsageStat, error) {
	if SimUsage == nil {
		return &UsageStat{Path: path}, nil
	}
	return SimUsage(path)
}

func Partitions(all bool) ([]PartitionStat, error) {
	if SimPartitions == nil {
		return nil, nil
	}
	return SimPartitions(all)
}

func IOCounters(names ...string) (map[string]IOCountersStat, error) {
	if SimIOCounters == nil {
		return nil, nil
	}
	return SimIOCounters(names...)
}

func UsageWithContext(_ context.Context, path string) (*UsageStat, error) { return Usage(path) }

func PartitionsWithContext(_ context.Context, all bool) ([]PartitionStat, error) {
	return Partitions(all)
}

func IOCountersWithContext(_ context.Context, names ...string) (map[string]IOCountersStat, error) {
	return IOCounters(names...)
}
