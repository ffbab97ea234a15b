package main

import (
	"encoding/json"

	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
)

// Governance-only messages. auth is the sender.

func (m *M) createPool(x *pooltypes.MsgCreatePool) *merr {
	if x.Authority != govAddr {
		return fail("P01", "pool created without governance")
	}
	if !json.Valid([]byte(x.Binaries)) {
		return fail("P01", "invalid binaries")
	}
	id := m.PoolCount
	m.op("createpool", poolSubj(id))
	m.PoolCount++
	m.setPool(PoolS{
		Pool: pooltypes.Pool{
			Id: id, Name: x.Name, Runtime: x.Runtime, Logo: x.Logo, Config: x.Config, StartKey: x.StartKey, EndKey: x.EndKey,
			UploadInterval: x.UploadInterval, InflationShareWeight: x.InflationShareWeight, MinDelegation: x.MinDelegation,
			MaxBundleSize: x.MaxBundleSize, CurrentStorageProviderId: x.StorageProviderId, CurrentCompressionId: x.CompressionId,
		},
		Proto: pooltypes.Protocol{Version: x.Version, Binaries: x.Binaries, LastUpgrade: uint64(m.now)},
	})
	m.FState[id] = nil
	return nil
}

func (m *M) updatePool(x *pooltypes.MsgUpdatePool) *merr {
	if x.Authority != govAddr {
		return fail("P01", "pool updated without governance")
	}
	o, ok := m.Pools[x.Id]
	if !ok {
		return fail("P01", "unknown pool updated")
	}
	var u pooltypes.PoolUpdate
	if json.Unmarshal([]byte(x.Payload), &u) != nil {
		return fail("P01", "malformed update")
	}
	m.op("updatepool", poolSubj(x.Id))
	p := *o
	set(&p.Name, u.Name)
	set(&p.Runtime, u.Runtime)
	set(&p.Logo, u.Logo)
	set(&p.Config, u.Config)
	set(&p.UploadInterval, u.UploadInterval)
	set(&p.InflationShareWeight, u.InflationShareWeight)
	set(&p.MinDelegation, u.MinDelegation)
	set(&p.MaxBundleSize, u.MaxBundleSize)
	set(&p.CurrentStorageProviderId, u.StorageProviderId)
	set(&p.CurrentCompressionId, u.CompressionId)
	set(&p.EndKey, u.EndKey)
	m.setPool(p)
	return nil
}

func set[T any](dst *T, v *T) {
	if v != nil {
		*dst = *v
	}
}

func (m *M) disablePool(x *pooltypes.MsgDisablePool) *merr {
	if x.Authority != govAddr {
		return fail("P01", "pool disabled without governance")
	}
	o, ok := m.Pools[x.Id]
	if !ok || o.Disabled {
		return fail("P01", "unknown or disabled pool disabled")
	}
	m.op("disable", poolSubj(x.Id))
	p := *o
	p.Disabled = true
	m.setPool(p)
	mem := m.members(x.Id)
	m.cell("disable/members=%v/bundle=%v", len(mem) > 0, m.proposal(x.Id).StorageId != "")
	for _, s := range mem {
		m.leavePool(x.Id, s)
	}
	m.treasury(poolAcc(x.Id), one(denom, m.bal(poolAcc(x.Id), denom)))
	return nil
}

func (m *M) enablePool(x *pooltypes.MsgEnablePool) *merr {
	if x.Authority != govAddr {
		return fail("P01", "pool enabled without governance")
	}
	o, ok := m.Pools[x.Id]
	if !ok || !o.Disabled {
		return fail("P01", "unknown or enabled pool enabled")
	}
	m.op("enable", poolSubj(x.Id))
	p := *o
	p.Disabled = false
	m.setPool(p)
	return nil
}

func (m *M) scheduleUpgrade(x *pooltypes.MsgScheduleRuntimeUpgrade) *merr {
	if x.Authority != govAddr {
		return fail("P01", "upgrade scheduled without governance")
	}
	if x.Version == "" || x.Binaries == "" {
		return fail("P01", "incomplete upgrade")
	}
	n := 0
	for _, id := range m.poolIds() {
		p := *m.Pools[id]
		if p.Runtime != x.Runtime || p.Plan.ScheduledAt != 0 {
			continue
		}
		n++
		m.op("upgrade", poolSubj(id))
		p.Plan = pooltypes.UpgradePlan{Version: x.Version, Binaries: x.Binaries, ScheduledAt: max(x.ScheduledAt, uint64(m.now)), Duration: x.Duration}
		m.setPool(p)
	}
	m.cell("upgrade/scheduled/n=%d/past=%v", n, x.ScheduledAt < uint64(m.now))
	return nil
}

func (m *M) cancelUpgrade(x *pooltypes.MsgCancelRuntimeUpgrade) *merr {
	if x.Authority != govAddr {
		return fail("P01", "upgrade cancelled without governance")
	}
	for _, id := range m.poolIds() {
		p := *m.Pools[id]
		if p.Runtime != x.Runtime || p.Plan.ScheduledAt == 0 {
			continue
		}
		m.op("upgrade", poolSubj(id))
		m.cell("upgrade/cancelled/running=%v", uint64(m.now) >= p.Plan.ScheduledAt)
		p.Plan = pooltypes.UpgradePlan{}
		m.setPool(p)
	}
	return nil
}

// poolUpgrades runs at the end of every block.
func (m *M) poolUpgrades() {
	for _, id := range m.poolIds() {
		p := *m.Pools[id]
		if p.Plan.ScheduledAt == 0 || uint64(m.now) < p.Plan.ScheduledAt {
			continue
		}
		m.op("upgrading", poolSubj(id))
		if p.Proto.Version != p.Plan.Version || p.Proto.Binaries != p.Plan.Binaries {
			p.Proto = pooltypes.Protocol{Version: p.Plan.Version, Binaries: p.Plan.Binaries, LastUpgrade: p.Plan.ScheduledAt}
			m.cell("upgrade/applied")
		}
		if uint64(m.now) >= p.Plan.ScheduledAt+p.Plan.Duration {
			p.Plan = pooltypes.UpgradePlan{}
			m.cell("upgrade/finished")
		}
		m.setPool(p)
	}
}

// overlay applies a JSON payload to a copy of the parameters.
func overlay[T any](cur T, payload string) T {
	b, err := json.Marshal(cur)
	if err != nil {
		panic(err)
	}
	var n T
	if err := json.Unmarshal(b, &n); err != nil {
		panic(err)
	}
	_ = json.Unmarshal([]byte(payload), &n)
	return n
}
