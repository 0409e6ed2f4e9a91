package zznet

// Generated: one method per remote request.

import (
	"context"

	"google.golang.org/grpc"

	rpc "github.com/netauth/protocol/v2"
)

// EntityCreate records the request.
func (p *Peer) EntityCreate(ctx context.Context, in *rpc.EntityRequest, opts ...grpc.CallOption) (*rpc.Empty, error) {
	res, err := p.call("EntityCreate", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.Empty), nil
}

// EntityUpdate records the request.
func (p *Peer) EntityUpdate(ctx context.Context, in *rpc.EntityRequest, opts ...grpc.CallOption) (*rpc.Empty, error) {
	res, err := p.call("EntityUpdate", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.Empty), nil
}

// EntityInfo records the request.
func (p *Peer) EntityInfo(ctx context.Context, in *rpc.EntityRequest, opts ...grpc.CallOption) (*rpc.ListOfEntities, error) {
	res, err := p.call("EntityInfo", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.ListOfEntities), nil
}

// EntitySearch records the request.
func (p *Peer) EntitySearch(ctx context.Context, in *rpc.SearchRequest, opts ...grpc.CallOption) (*rpc.ListOfEntities, error) {
	res, err := p.call("EntitySearch", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.ListOfEntities), nil
}

// EntityUM records the request.
func (p *Peer) EntityUM(ctx context.Context, in *rpc.KVRequest, opts ...grpc.CallOption) (*rpc.ListOfStrings, error) {
	res, err := p.call("EntityUM", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.ListOfStrings), nil
}

// EntityKVAdd records the request.
func (p *Peer) EntityKVAdd(ctx context.Context, in *rpc.KV2Request, opts ...grpc.CallOption) (*rpc.Empty, error) {
	res, err := p.call("EntityKVAdd", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.Empty), nil
}

// EntityKVGet records the request.
func (p *Peer) EntityKVGet(ctx context.Context, in *rpc.KV2Request, opts ...grpc.CallOption) (*rpc.ListOfKVData, error) {
	res, err := p.call("EntityKVGet", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.ListOfKVData), nil
}

// EntityKVDel records the request.
func (p *Peer) EntityKVDel(ctx context.Context, in *rpc.KV2Request, opts ...grpc.CallOption) (*rpc.Empty, error) {
	res, err := p.call("EntityKVDel", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.Empty), nil
}

// EntityKVReplace records the request.
func (p *Peer) EntityKVReplace(ctx context.Context, in *rpc.KV2Request, opts ...grpc.CallOption) (*rpc.Empty, error) {
	res, err := p.call("EntityKVReplace", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.Empty), nil
}

// EntityKeys records the request.
func (p *Peer) EntityKeys(ctx context.Context, in *rpc.KVRequest, opts ...grpc.CallOption) (*rpc.ListOfStrings, error) {
	res, err := p.call("EntityKeys", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.ListOfStrings), nil
}

// EntityDestroy records the request.
func (p *Peer) EntityDestroy(ctx context.Context, in *rpc.EntityRequest, opts ...grpc.CallOption) (*rpc.Empty, error) {
	res, err := p.call("EntityDestroy", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.Empty), nil
}

// EntityLock records the request.
func (p *Peer) EntityLock(ctx context.Context, in *rpc.EntityRequest, opts ...grpc.CallOption) (*rpc.Empty, error) {
	res, err := p.call("EntityLock", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.Empty), nil
}

// EntityUnlock records the request.
func (p *Peer) EntityUnlock(ctx context.Context, in *rpc.EntityRequest, opts ...grpc.CallOption) (*rpc.Empty, error) {
	res, err := p.call("EntityUnlock", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.Empty), nil
}

// EntityGroups records the request.
func (p *Peer) EntityGroups(ctx context.Context, in *rpc.EntityRequest, opts ...grpc.CallOption) (*rpc.ListOfGroups, error) {
	res, err := p.call("EntityGroups", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.ListOfGroups), nil
}

// AuthEntity records the request.
func (p *Peer) AuthEntity(ctx context.Context, in *rpc.AuthRequest, opts ...grpc.CallOption) (*rpc.Empty, error) {
	res, err := p.call("AuthEntity", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.Empty), nil
}

// AuthGetToken records the request.
func (p *Peer) AuthGetToken(ctx context.Context, in *rpc.AuthRequest, opts ...grpc.CallOption) (*rpc.AuthResult, error) {
	res, err := p.call("AuthGetToken", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.AuthResult), nil
}

// AuthValidateToken records the request.
func (p *Peer) AuthValidateToken(ctx context.Context, in *rpc.AuthRequest, opts ...grpc.CallOption) (*rpc.Empty, error) {
	res, err := p.call("AuthValidateToken", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.Empty), nil
}

// AuthChangeSecret records the request.
func (p *Peer) AuthChangeSecret(ctx context.Context, in *rpc.AuthRequest, opts ...grpc.CallOption) (*rpc.Empty, error) {
	res, err := p.call("AuthChangeSecret", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.Empty), nil
}

// GroupCreate records the request.
func (p *Peer) GroupCreate(ctx context.Context, in *rpc.GroupRequest, opts ...grpc.CallOption) (*rpc.Empty, error) {
	res, err := p.call("GroupCreate", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.Empty), nil
}

// GroupUpdate records the request.
func (p *Peer) GroupUpdate(ctx context.Context, in *rpc.GroupRequest, opts ...grpc.CallOption) (*rpc.Empty, error) {
	res, err := p.call("GroupUpdate", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.Empty), nil
}

// GroupInfo records the request.
func (p *Peer) GroupInfo(ctx context.Context, in *rpc.GroupRequest, opts ...grpc.CallOption) (*rpc.ListOfGroups, error) {
	res, err := p.call("GroupInfo", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.ListOfGroups), nil
}

// GroupUM records the request.
func (p *Peer) GroupUM(ctx context.Context, in *rpc.KVRequest, opts ...grpc.CallOption) (*rpc.ListOfStrings, error) {
	res, err := p.call("GroupUM", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.ListOfStrings), nil
}

// GroupKVAdd records the request.
func (p *Peer) GroupKVAdd(ctx context.Context, in *rpc.KV2Request, opts ...grpc.CallOption) (*rpc.Empty, error) {
	res, err := p.call("GroupKVAdd", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.Empty), nil
}

// GroupKVGet records the request.
func (p *Peer) GroupKVGet(ctx context.Context, in *rpc.KV2Request, opts ...grpc.CallOption) (*rpc.ListOfKVData, error) {
	res, err := p.call("GroupKVGet", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.ListOfKVData), nil
}

// GroupKVDel records the request.
func (p *Peer) GroupKVDel(ctx context.Context, in *rpc.KV2Request, opts ...grpc.CallOption) (*rpc.Empty, error) {
	res, err := p.call("GroupKVDel", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.Empty), nil
}

// GroupKVReplace records the request.
func (p *Peer) GroupKVReplace(ctx context.Context, in *rpc.KV2Request, opts ...grpc.CallOption) (*rpc.Empty, error) {
	res, err := p.call("GroupKVReplace", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.Empty), nil
}

// GroupUpdateRules records the request.
func (p *Peer) GroupUpdateRules(ctx context.Context, in *rpc.GroupRulesRequest, opts ...grpc.CallOption) (*rpc.Empty, error) {
	res, err := p.call("GroupUpdateRules", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.Empty), nil
}

// GroupAddMember records the request.
func (p *Peer) GroupAddMember(ctx context.Context, in *rpc.EntityRequest, opts ...grpc.CallOption) (*rpc.Empty, error) {
	res, err := p.call("GroupAddMember", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.Empty), nil
}

// GroupDelMember records the request.
func (p *Peer) GroupDelMember(ctx context.Context, in *rpc.EntityRequest, opts ...grpc.CallOption) (*rpc.Empty, error) {
	res, err := p.call("GroupDelMember", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.Empty), nil
}

// GroupDestroy records the request.
func (p *Peer) GroupDestroy(ctx context.Context, in *rpc.GroupRequest, opts ...grpc.CallOption) (*rpc.Empty, error) {
	res, err := p.call("GroupDestroy", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.Empty), nil
}

// GroupMembers records the request.
func (p *Peer) GroupMembers(ctx context.Context, in *rpc.GroupRequest, opts ...grpc.CallOption) (*rpc.ListOfEntities, error) {
	res, err := p.call("GroupMembers", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.ListOfEntities), nil
}

// GroupSearch records the request.
func (p *Peer) GroupSearch(ctx context.Context, in *rpc.SearchRequest, opts ...grpc.CallOption) (*rpc.ListOfGroups, error) {
	res, err := p.call("GroupSearch", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.ListOfGroups), nil
}

// SystemCapabilities records the request.
func (p *Peer) SystemCapabilities(ctx context.Context, in *rpc.CapabilityRequest, opts ...grpc.CallOption) (*rpc.Empty, error) {
	res, err := p.call("SystemCapabilities", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.Empty), nil
}

// SystemPing records the request.
func (p *Peer) SystemPing(ctx context.Context, in *rpc.Empty, opts ...grpc.CallOption) (*rpc.Empty, error) {
	res, err := p.call("SystemPing", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.Empty), nil
}

// SystemStatus records the request.
func (p *Peer) SystemStatus(ctx context.Context, in *rpc.Empty, opts ...grpc.CallOption) (*rpc.ServerStatus, error) {
	res, err := p.call("SystemStatus", ctx, in)
	if err != nil {
		return nil, err
	}
	return res.(*rpc.ServerStatus), nil
}
