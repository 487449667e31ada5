// Package process is a stand-in: the harness says what there is to measure.
package process

import (
	"context"
	"errors"

	"github.com/shirou/gopsutil/cpu"
	"github.com/shirou/gopsutil/net"
)

type MemoryInfoStat struct {
	RSS    uint64 `json:"rss"`    // bytes
	VMS    uint64 `json:"vms"`    // bytes
	HWM    uint64 `json:"hwm"`    // bytes
	Data   uint64 `json:"data"`   // bytes
	Stack  uint64 `json:"stack"`  // bytes
	Locked uint64 `json:"locked"` // bytes
	Swap   uint64 `json:"swap"`   // bytes
}

type IOCountersStat struct {
	ReadCount  uint64 `json:"readCount"`
	WriteCount uint64 `json:"writeCount"`
	ReadBytes  uint64 `json:"readBytes"`
	WriteBytes uint64 `json:"writeBytes"`
}

type MemoryInfoExStat struct {
	RSS    uint64 `json:"rss"`    // bytes
	VMS    uint64 `json:"vms"`    // bytes
	Shared uint64 `json:"shared"` // bytes
	Text   uint64 `json:"text"`   // bytes
	Lib    uint64 `json:"lib"`    // bytes
	Data   uint64 `json:"data"`   // bytes
	Dirty  uint64 `json:"dirty"`  // bytes
}

var (
	ErrorNoChildren        = errors.New("process does not have children")
	ErrorProcessNotRunning = errors.New("process does not exist")
)

type Process struct {
	Pid int32 `json:"pid"`
}

// SimProcesses is what the harness answers in place of the system.
type SimProcesses interface {
	Pids() ([]int32, error)
	Exists(pid int32) bool
	NetIOCounters(pid int32, pernic bool) ([]net.IOCountersStat, error)
	Ppid(pid int32) (int32, error)
	MemoryInfo(pid int32) (*MemoryInfoStat, error)
	MemoryInfoEx(pid int32) (*MemoryInfoExStat, error)
	NumThreads(pid int32) (int32, error)
	Cmdline(pid int32) (string, error)
	Times(pid int32) (*cpu.TimesStat, error)
	IOCounters(pid int32) (*IOCountersStat, error)
	Children(pid int32) ([]int32, error)
}

var Sim SimProcesses

func NewProcess(pid int32) (*Process, error) {
	if Sim == nil || Sim.Exists(pid) {
		return &Process{Pid: pid}, nil
	}
	return &Process{Pid: pid}, ErrorProcessNotRunning
}

func NewProcessWithContext(_ context.Context, pid int32) (*Process, error) { return NewProcess(pid) }

func PidExists(pid int32) (bool, error) { return Sim == nil || Sim.Exists(pid), nil }

func Pids() ([]int32, error) {
	if Sim == nil {
		return nil, nil
	}
	return Sim.Pids()
}

func PidsWithContext(context.Context) ([]int32, error) { return Pids() }

func Processes() ([]*Process, error) {
	out := []*Process{}
	pids, err := Pids()
	if err != nil {
		return out, err
	}
	for _, pid := range pids {
		p, err := NewProcess(pid)
		if err != nil {
			continue
		}
		out = append(out, p)
	}
	return out, nil
}

func ProcessesWithContext(context.Context) ([]*Process, error) { return Processes() }

func (p *Process) Children() ([]*Process, error) {
	if Sim == nil {
		return nil, ErrorNoChildren
	}
	pids, err := Sim.Children(p.Pid)
	if err != nil {
		return nil, err
	}
	ret := make([]*Process, 0, len(pids))
	for _, pid := range pids {
		np, err := NewProcess(pid)
		if err != nil {
			return nil, err
		}
		ret = append(ret, np)
	}
	return ret, nil
}

func (p *Process) ChildrenWithContext(context.Context) ([]*Process, error) { return p.Children() }

func (p *Process) NetIOCounters(pernic bool) ([]net.IOCountersStat, error) {
	if Sim == nil {
		return nil, nil
	}
	return Sim.NetIOCounters(p.Pid, pernic)
}

func (p *Process) NetIOCountersWithContext(_ context.Context, pernic bool) ([]net.IOCountersStat, error) {
	return p.NetIOCounters(pernic)
}

func (p *Process) Ppid() (int32, error) {
	if Sim == nil {
		return 0, nil
	}
	return Sim.Ppid(p.Pid)
}

func (p *Process) PpidWithContext(context.Context) (int32, error) { return p.Ppid() }

func (p *Process) MemoryInfo() (*MemoryInfoStat, error) {
	if Sim == nil {
		return nil, nil
	}
	return Sim.MemoryInfo(p.Pid)
}

func (p *Process) MemoryInfoWithContext(context.Context) (*MemoryInfoStat, error) {
	return p.MemoryInfo()
}

func (p *Process) MemoryInfoEx() (*MemoryInfoExStat, error) {
	if Sim == nil {
		return nil, nil
	}
	return Sim.MemoryInfoEx(p.Pid)
}

func (p *Process) MemoryInfoExWithContext(context.Context) (*MemoryInfoExStat, error) {
	return p.MemoryInfoEx()
}

func (p *Process) NumThreads() (int32, error) {
	if Sim == nil {
		return 0, nil
	}
	return Sim.NumThreads(p.Pid)
}

func (p *Process) NumThreadsWithContext(context.Context) (int32, error) { return p.NumThreads() }

func (p *Process) Cmdline() (string, error) {
	if Sim == nil {
		return "", nil
	}
	return Sim.Cmdline(p.Pid)
}

func (p *Process) CmdlineWithContext(context.Context) (string, error) { return p.Cmdline() }

func (p *Process) Times() (*cpu.TimesStat, error) {
	if Sim == nil {
		return nil, nil
	}
	return Sim.Times(p.Pid)
}

func (p *Process) TimesWithContext(context.Context) (*cpu.TimesStat, error) { return p.Times() }

func (p *Process) IOCounters() (*IOCountersStat, error) {
	if Sim == nil {
		return nil, nil
	}
	return Sim.IOCounters(p.Pid)
}

func (p *Process) IOCountersWithContext(context.Context) (*IOCountersStat, error) {
	return p.IOCounters()
}
