package zzenv

import (
	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/rpc2"

	pb "github.com/netauth/protocol"
	rpc "github.com/netauth/protocol/v2"
)

// steps is the tree as the server sees it, with a preemption point before
// every call.
type steps struct {
	rpc2.Manager
	w *World
}

func (s *steps) point() {
	if s.w.Before != nil {
		s.w.Before()
	}
}

func (s *steps) CreateEntity(a0 string, a1 int32, a2 string) error {
	s.point()
	return s.Manager.CreateEntity(a0, a1, a2)
}

func (s *steps) FetchEntity(a0 string) (*pb.Entity, error) {
	s.point()
	return s.Manager.FetchEntity(a0)
}

func (s *steps) SearchEntities(a0 db.SearchRequest) ([]*pb.Entity, error) {
	s.point()
	return s.Manager.SearchEntities(a0)
}

func (s *steps) ValidateSecret(a0 string, a1 string) error {
	s.point()
	return s.Manager.ValidateSecret(a0, a1)
}

func (s *steps) SetSecret(a0 string, a1 string) error {
	s.point()
	return s.Manager.SetSecret(a0, a1)
}

func (s *steps) LockEntity(a0 string) error {
	s.point()
	return s.Manager.LockEntity(a0)
}

func (s *steps) UnlockEntity(a0 string) error {
	s.point()
	return s.Manager.UnlockEntity(a0)
}

func (s *steps) UpdateEntityMeta(a0 string, a1 *pb.EntityMeta) error {
	s.point()
	return s.Manager.UpdateEntityMeta(a0, a1)
}

func (s *steps) EntityKVGet(a0 string, a1 []*pb.KVData) ([]*pb.KVData, error) {
	s.point()
	return s.Manager.EntityKVGet(a0, a1)
}

func (s *steps) EntityKVAdd(a0 string, a1 []*pb.KVData) error {
	s.point()
	return s.Manager.EntityKVAdd(a0, a1)
}

func (s *steps) EntityKVDel(a0 string, a1 []*pb.KVData) error {
	s.point()
	return s.Manager.EntityKVDel(a0, a1)
}

func (s *steps) EntityKVReplace(a0 string, a1 []*pb.KVData) error {
	s.point()
	return s.Manager.EntityKVReplace(a0, a1)
}

func (s *steps) UpdateEntityKeys(a0 string, a1 string, a2 string, a3 string) ([]string, error) {
	s.point()
	return s.Manager.UpdateEntityKeys(a0, a1, a2, a3)
}

func (s *steps) ManageUntypedEntityMeta(a0 string, a1 string, a2 string, a3 string) ([]string, error) {
	s.point()
	return s.Manager.ManageUntypedEntityMeta(a0, a1, a2, a3)
}

func (s *steps) DestroyEntity(a0 string) error {
	s.point()
	return s.Manager.DestroyEntity(a0)
}

func (s *steps) CreateGroup(a0 string, a1 string, a2 string, a3 int32) error {
	s.point()
	return s.Manager.CreateGroup(a0, a1, a2, a3)
}

func (s *steps) FetchGroup(a0 string) (*pb.Group, error) {
	s.point()
	return s.Manager.FetchGroup(a0)
}

func (s *steps) SearchGroups(a0 db.SearchRequest) ([]*pb.Group, error) {
	s.point()
	return s.Manager.SearchGroups(a0)
}

func (s *steps) UpdateGroupMeta(a0 string, a1 *pb.Group) error {
	s.point()
	return s.Manager.UpdateGroupMeta(a0, a1)
}

func (s *steps) ManageUntypedGroupMeta(a0 string, a1 string, a2 string, a3 string) ([]string, error) {
	s.point()
	return s.Manager.ManageUntypedGroupMeta(a0, a1, a2, a3)
}

func (s *steps) GroupKVGet(a0 string, a1 []*pb.KVData) ([]*pb.KVData, error) {
	s.point()
	return s.Manager.GroupKVGet(a0, a1)
}

func (s *steps) GroupKVAdd(a0 string, a1 []*pb.KVData) error {
	s.point()
	return s.Manager.GroupKVAdd(a0, a1)
}

func (s *steps) GroupKVDel(a0 string, a1 []*pb.KVData) error {
	s.point()
	return s.Manager.GroupKVDel(a0, a1)
}

func (s *steps) GroupKVReplace(a0 string, a1 []*pb.KVData) error {
	s.point()
	return s.Manager.GroupKVReplace(a0, a1)
}

func (s *steps) DestroyGroup(a0 string) error {
	s.point()
	return s.Manager.DestroyGroup(a0)
}

func (s *steps) AddEntityToGroup(a0 string, a1 ...string) error {
	s.point()
	return s.Manager.AddEntityToGroup(a0, a1...)
}

func (s *steps) RemoveEntityFromGroup(a0 string, a1 ...string) error {
	s.point()
	return s.Manager.RemoveEntityFromGroup(a0, a1...)
}

func (s *steps) ListMembers(a0 string) ([]*pb.Entity, error) {
	s.point()
	return s.Manager.ListMembers(a0)
}

func (s *steps) GetMemberships(a0 *pb.Entity) []string {
	s.point()
	return s.Manager.GetMemberships(a0)
}

func (s *steps) ModifyGroupRule(a0 string, a1 string, a2 rpc.RuleAction) error {
	s.point()
	return s.Manager.ModifyGroupRule(a0, a1, a2)
}

func (s *steps) SetEntityCapability2(a0 string, a1 *pb.Capability) error {
	s.point()
	return s.Manager.SetEntityCapability2(a0, a1)
}

func (s *steps) DropEntityCapability2(a0 string, a1 *pb.Capability) error {
	s.point()
	return s.Manager.DropEntityCapability2(a0, a1)
}

func (s *steps) SetGroupCapability2(a0 string, a1 *pb.Capability) error {
	s.point()
	return s.Manager.SetGroupCapability2(a0, a1)
}

func (s *steps) DropGroupCapability2(a0 string, a1 *pb.Capability) error {
	s.point()
	return s.Manager.DropGroupCapability2(a0, a1)
}
