From c3a35de646ef806e8676efe21a836179d1a37a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:02 +0000
Subject: [PATCH 01/51] fix: entity metadata updates must not change locks or
 key/value data, or crash without metadata

---
 internal/tree/hooks/merge-entity-meta.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/tree/hooks/merge-entity-meta.go b/internal/tree/hooks/merge-entity-meta.go
index e5024f1..5db5995 100644
--- a/internal/tree/hooks/merge-entity-meta.go
+++ b/internal/tree/hooks/merge-entity-meta.go
@@ -19,8 +19,14 @@ type MergeEntityMeta struct {
 // Select fields are nil-ed out beforehand since they either require a
 // specialized mechanism to edit, or a specialized capability.
 func (*MergeEntityMeta) Run(e, de *pb.Entity) error {
+	if de.GetMeta() == nil {
+		return nil
+	}
+
 	// There's a few fields that can't be set by merging the
 	// metadata this way, so we null those out here.
+	de.Meta.Locked = nil
+	de.Meta.KV = nil
 	de.Meta.Capabilities = nil
 	de.Meta.Groups = nil
 	de.Meta.Keys = nil
-- 
2.43.0


From 91b23e9480ea91dec86321dc02d42796fbd14d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:02 +0000
Subject: [PATCH 02/51] fix: group metadata updates must not change
 capabilities, rules, untyped metadata or key/value data

---
 internal/tree/hooks/merge-group-meta.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tree/hooks/merge-group-meta.go b/internal/tree/hooks/merge-group-meta.go
index 6c8ac9f..78ff841 100644
--- a/internal/tree/hooks/merge-group-meta.go
+++ b/internal/tree/hooks/merge-group-meta.go
@@ -23,6 +23,10 @@ func (*MergeGroupMeta) Run(g, dg *pb.Group) error {
 	// metadata this way, so we null those out here.
 	dg.Name = nil
 	dg.Number = nil
+	dg.Capabilities = nil
+	dg.Expansions = nil
+	dg.UntypedMeta = nil
+	dg.KV = nil
 
 	proto.Merge(g, dg)
 	return nil
-- 
2.43.0


From 5952941440891474aba97ba95d2d384a5bd3d7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:02 +0000
Subject: [PATCH 03/51] fix: group update without a group must not crash the
 server

---
 internal/tree/group.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/tree/group.go b/internal/tree/group.go
index 48933b3..589d4a4 100644
--- a/internal/tree/group.go
+++ b/internal/tree/group.go
@@ -52,6 +52,9 @@ func (m *Manager) DestroyGroup(name string) error {
 // information is not mutable and so that information is not merged
 // in.
 func (m *Manager) UpdateGroupMeta(name string, update *pb.Group) error {
+	if update == nil {
+		update = &pb.Group{}
+	}
 	update.Name = &name
 	_, err := m.RunGroupChain("MERGE-METADATA", update)
 	return err
-- 
2.43.0


From 913bcb7e3b401235579e53e13b8eabf7a0387ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:02 +0000
Subject: [PATCH 04/51] fix: token request without an entity must not crash the
 server

---
 internal/rpc2/auth.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rpc2/auth.go b/internal/rpc2/auth.go
index b0f8cb4..873677c 100644
--- a/internal/rpc2/auth.go
+++ b/internal/rpc2/auth.go
@@ -37,7 +37,7 @@ func (s *Server) AuthGetToken(ctx context.Context, r *pb.AuthRequest) (*pb.AuthR
 		return &pb.AuthResult{}, err
 	}
 
-	caps := s.getCapabilitiesForEntity(*r.Entity.ID)
+	caps := s.getCapabilitiesForEntity(r.GetEntity().GetID())
 
 	// Generate Token
 	tkn, err := s.Generate(
-- 
2.43.0


From 4183a0d66435bd72147255519f62c36368661b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:15 +0000
Subject: [PATCH 05/51] fix: delegated group management works, and never
 overrides read-only mode or a bad token

---
 internal/rpc2/group.go | 54 +++++++++++++++++++-----------------------
 internal/rpc2/util.go  | 29 +++++++++++++++++++++++
 2 files changed, 54 insertions(+), 29 deletions(-)

diff --git a/internal/rpc2/group.go b/internal/rpc2/group.go
index bb90957..3a76c89 100644
--- a/internal/rpc2/group.go
+++ b/internal/rpc2/group.go
@@ -3,8 +3,6 @@ package rpc2
 import (
 	"context"
 
-	"github.com/golang/protobuf/proto"
-
 	"github.com/netauth/netauth/internal/db"
 	"github.com/netauth/netauth/internal/tree"
 
@@ -55,8 +53,8 @@ func (s *Server) GroupCreate(ctx context.Context, r *pb.GroupRequest) (*pb.Empty
 // untyped metadata.
 func (s *Server) GroupUpdate(ctx context.Context, r *pb.GroupRequest) (*pb.Empty, error) {
 	g := r.GetGroup()
-	err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
-	if err != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, g) {
+	ctx, err := s.managedPrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META, g.GetName())
+	if err != nil {
 		return &pb.Empty{}, err
 	}
 
@@ -134,9 +132,9 @@ func (s *Server) GroupUM(ctx context.Context, r *pb.KVRequest) (*pb.ListOfString
 	}
 
 	if r.GetAction() != pb.Action_READ {
-		err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
-		g := types.Group{Name: proto.String(r.GetTarget())}
-		if err != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, &g) {
+		var err error
+		ctx, err = s.managedPrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META, r.GetTarget())
+		if err != nil {
 			return &pb.ListOfStrings{}, err
 		}
 	}
@@ -330,8 +328,8 @@ func (s *Server) GroupKVReplace(ctx context.Context, r *pb.KV2Request) (*pb.Empt
 func (s *Server) GroupUpdateRules(ctx context.Context, r *pb.GroupRulesRequest) (*pb.Empty, error) {
 	g := r.GetGroup()
 
-	err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
-	if err != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, g) {
+	ctx, err := s.managedPrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META, g.GetName())
+	if err != nil {
 		return &pb.Empty{}, err
 	}
 
@@ -369,17 +367,16 @@ func (s *Server) GroupUpdateRules(ctx context.Context, r *pb.GroupRulesRequest)
 func (s *Server) GroupAddMember(ctx context.Context, r *pb.EntityRequest) (*pb.Empty, error) {
 	e := r.GetEntity()
 
-	preErr := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_MEMBERS)
+	ctx, err := s.managedPrequisitesMet(ctx, types.Capability_MODIFY_GROUP_MEMBERS, e.GetMeta().GetGroups()...)
+	if err != nil {
+		s.log.Warn("Insufficient authority to change group members",
+			"entity", e.GetID(),
+			"groups", e.GetMeta().GetGroups(),
+			"authority", getTokenClaims(ctx).EntityID,
+		)
+		return &pb.Empty{}, err
+	}
 	for _, g := range e.GetMeta().GetGroups() {
-		grp := types.Group{Name: proto.String(g)}
-		if preErr != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, &grp) {
-			s.log.Warn("Insufficient authority to add entity to group",
-				"entity", e.GetID(),
-				"group", g,
-				"authority", getTokenClaims(ctx).EntityID,
-			)
-			return &pb.Empty{}, preErr
-		}
 		if err := s.AddEntityToGroup(e.GetID(), g); err != nil {
 			s.log.Warn("Error adding entity to group",
 				"entity", e.GetID(),
@@ -399,17 +396,16 @@ func (s *Server) GroupAddMember(ctx context.Context, r *pb.EntityRequest) (*pb.E
 func (s *Server) GroupDelMember(ctx context.Context, r *pb.EntityRequest) (*pb.Empty, error) {
 	e := r.GetEntity()
 
-	preErr := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_MEMBERS)
+	ctx, err := s.managedPrequisitesMet(ctx, types.Capability_MODIFY_GROUP_MEMBERS, e.GetMeta().GetGroups()...)
+	if err != nil {
+		s.log.Warn("Insufficient authority to change group members",
+			"entity", e.GetID(),
+			"groups", e.GetMeta().GetGroups(),
+			"authority", getTokenClaims(ctx).EntityID,
+		)
+		return &pb.Empty{}, err
+	}
 	for _, g := range e.GetMeta().GetGroups() {
-		grp := types.Group{Name: proto.String(g)}
-		if preErr != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, &grp) {
-			s.log.Warn("Insufficient authority to add entity to group",
-				"entity", e.GetID(),
-				"group", g,
-				"authority", getTokenClaims(ctx).EntityID,
-			)
-			return &pb.Empty{}, preErr
-		}
 		if err := s.RemoveEntityFromGroup(e.GetID(), g); err != nil {
 			s.log.Warn("Error adding entity to group",
 				"entity", e.GetID(),
diff --git a/internal/rpc2/util.go b/internal/rpc2/util.go
index f1517d9..6ac96db 100644
--- a/internal/rpc2/util.go
+++ b/internal/rpc2/util.go
@@ -213,3 +213,32 @@ func (s *Server) mutablePrequisitesMet(ctx context.Context, c types.Capability)
 	}
 	return nil
 }
+
+// managedPrequisitesMet checks the prerequisites for changes to groups
+// that may be made either by holders of the given capability, or by
+// members of the groups to which management of every named group has
+// been delegated.  Delegation stands in only for a missing capability,
+// the server must be writeable and the token valid in any case.  The
+// returned context contains the claims from the token.
+func (s *Server) managedPrequisitesMet(ctx context.Context, c types.Capability, groups ...string) (context.Context, error) {
+	preErr := s.mutablePrequisitesMet(ctx, c)
+	if preErr != nil && preErr != ErrRequestorUnqualified {
+		return ctx, preErr
+	}
+	ctx, err := s.checkToken(ctx)
+	if err != nil {
+		return ctx, err
+	}
+	if preErr == nil {
+		return ctx, nil
+	}
+	if len(groups) == 0 {
+		return ctx, preErr
+	}
+	for i := range groups {
+		if !s.manageByMembership(getTokenClaims(ctx).EntityID, &types.Group{Name: &groups[i]}) {
+			return ctx, preErr
+		}
+	}
+	return ctx, nil
+}
-- 
2.43.0


From f58c0824714ad651a1ed69fcb468a893c6ca2b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:15 +0000
Subject: [PATCH 06/51] fix: membership requests naming several groups apply
 completely or not at all

---
 internal/rpc2/group.go      | 50 +++++++++++++++++++------------------
 internal/rpc2/type.go       |  4 +--
 internal/tree/membership.go |  8 +++---
 3 files changed, 32 insertions(+), 30 deletions(-)

diff --git a/internal/rpc2/group.go b/internal/rpc2/group.go
index 3a76c89..4f42374 100644
--- a/internal/rpc2/group.go
+++ b/internal/rpc2/group.go
@@ -376,18 +376,19 @@ func (s *Server) GroupAddMember(ctx context.Context, r *pb.EntityRequest) (*pb.E
 		)
 		return &pb.Empty{}, err
 	}
-	for _, g := range e.GetMeta().GetGroups() {
-		if err := s.AddEntityToGroup(e.GetID(), g); err != nil {
-			s.log.Warn("Error adding entity to group",
-				"entity", e.GetID(),
-				"group", g,
-				"authority", getTokenClaims(ctx).EntityID,
-				"service", getServiceName(ctx),
-				"client", getClientName(ctx),
-				"error", err,
-			)
-			return &pb.Empty{}, ErrInternal
-		}
+	if len(e.GetMeta().GetGroups()) == 0 {
+		return &pb.Empty{}, nil
+	}
+	if err := s.AddEntityToGroup(e.GetID(), e.GetMeta().GetGroups()...); err != nil {
+		s.log.Warn("Error changing group members",
+			"entity", e.GetID(),
+			"groups", e.GetMeta().GetGroups(),
+			"authority", getTokenClaims(ctx).EntityID,
+			"service", getServiceName(ctx),
+			"client", getClientName(ctx),
+			"error", err,
+		)
+		return &pb.Empty{}, ErrInternal
 	}
 	return &pb.Empty{}, nil
 }
@@ -405,18 +406,19 @@ func (s *Server) GroupDelMember(ctx context.Context, r *pb.EntityRequest) (*pb.E
 		)
 		return &pb.Empty{}, err
 	}
-	for _, g := range e.GetMeta().GetGroups() {
-		if err := s.RemoveEntityFromGroup(e.GetID(), g); err != nil {
-			s.log.Warn("Error adding entity to group",
-				"entity", e.GetID(),
-				"group", g,
-				"authority", getTokenClaims(ctx).EntityID,
-				"service", getServiceName(ctx),
-				"client", getClientName(ctx),
-				"error", err,
-			)
-			return &pb.Empty{}, ErrInternal
-		}
+	if len(e.GetMeta().GetGroups()) == 0 {
+		return &pb.Empty{}, nil
+	}
+	if err := s.RemoveEntityFromGroup(e.GetID(), e.GetMeta().GetGroups()...); err != nil {
+		s.log.Warn("Error changing group members",
+			"entity", e.GetID(),
+			"groups", e.GetMeta().GetGroups(),
+			"authority", getTokenClaims(ctx).EntityID,
+			"service", getServiceName(ctx),
+			"client", getClientName(ctx),
+			"error", err,
+		)
+		return &pb.Empty{}, ErrInternal
 	}
 	return &pb.Empty{}, nil
 }
diff --git a/internal/rpc2/type.go b/internal/rpc2/type.go
index 1a43d2e..5a98b37 100644
--- a/internal/rpc2/type.go
+++ b/internal/rpc2/type.go
@@ -62,8 +62,8 @@ type Manager interface {
 	GroupKVReplace(string, []*pb.KVData) error
 	DestroyGroup(string) error
 
-	AddEntityToGroup(string, string) error
-	RemoveEntityFromGroup(string, string) error
+	AddEntityToGroup(string, ...string) error
+	RemoveEntityFromGroup(string, ...string) error
 	ListMembers(string) ([]*pb.Entity, error)
 	GetMemberships(*pb.Entity) []string
 	ModifyGroupRule(string, string, rpc.RuleAction) error
diff --git a/internal/tree/membership.go b/internal/tree/membership.go
index 06243e5..233ed8b 100644
--- a/internal/tree/membership.go
+++ b/internal/tree/membership.go
@@ -9,11 +9,11 @@ import (
 
 // AddEntityToGroup is the same as the internal function, but takes an
 // entity ID rather than a pointer
-func (m *Manager) AddEntityToGroup(entityID, groupName string) error {
+func (m *Manager) AddEntityToGroup(entityID string, groupNames ...string) error {
 	de := &pb.Entity{
 		ID: &entityID,
 		Meta: &pb.EntityMeta{
-			Groups: []string{groupName},
+			Groups: groupNames,
 		},
 	}
 
@@ -23,11 +23,11 @@ func (m *Manager) AddEntityToGroup(entityID, groupName string) error {
 
 // RemoveEntityFromGroup performs the same function as the internal
 // variant, but does so by name rather than by entity pointer.
-func (m *Manager) RemoveEntityFromGroup(entityID, groupName string) error {
+func (m *Manager) RemoveEntityFromGroup(entityID string, groupNames ...string) error {
 	de := &pb.Entity{
 		ID: &entityID,
 		Meta: &pb.EntityMeta{
-			Groups: []string{groupName},
+			Groups: groupNames,
 		},
 	}
 
-- 
2.43.0


From d39cc1a1ea28dc63638759ca1d22a8df6ca6368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:21 +0000
Subject: [PATCH 07/51] fix: bitcask faults must be reported, not taken for
 absence or success

---
 internal/db/bitcask/bitcask.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index daf0483..77f782c 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -77,19 +77,19 @@ func (bcs *BCStore) Get(k string) ([]byte, error) {
 	switch err {
 	case nil:
 		return v, nil
-	default:
+	case bitcask.ErrKeyNotFound:
 		return nil, db.ErrNoValue
+	default:
+		return nil, err
 	}
 }
 
 // Del removes any existing value at the location specified by the
 // provided key.
 func (bcs *BCStore) Del(k string) error {
-	// I can come up with nothing that causes this delete call to
-	// fail, up to and including nuking the entire data directory.
-	// If you can write a way to check this error and its
-	// associated test, open a PR.
-	bcs.s.Delete([]byte(k))
+	if err := bcs.s.Delete([]byte(k)); err != nil {
+		return err
+	}
 	bcs.fireEventForKey(k, eventDelete)
 	return nil
 }
-- 
2.43.0


From d75d7f9570db08964ae4b856d8ac29b2450cb263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:52 +0000
Subject: [PATCH 08/51] fix: creation must not overwrite an object that cannot
 be read

---
 internal/tree/hooks/fail-on-existing-entity.go |  9 +++++++--
 internal/tree/hooks/fail-on-existing-group.go  | 10 ++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/tree/hooks/fail-on-existing-entity.go b/internal/tree/hooks/fail-on-existing-entity.go
index 45a57c1..b8a3cf8 100644
--- a/internal/tree/hooks/fail-on-existing-entity.go
+++ b/internal/tree/hooks/fail-on-existing-entity.go
@@ -1,6 +1,7 @@
 package hooks
 
 import (
+	"github.com/netauth/netauth/internal/db"
 	"github.com/netauth/netauth/internal/startup"
 	"github.com/netauth/netauth/internal/tree"
 
@@ -20,10 +21,14 @@ type FailOnExistingEntity struct {
 // from the storage backend will be returned to the caller).
 func (l *FailOnExistingEntity) Run(e, de *pb.Entity) error {
 	_, err := l.LoadEntity(de.GetID())
-	if err == nil {
+	switch err {
+	case nil:
 		return tree.ErrDuplicateEntityID
+	case db.ErrUnknownEntity:
+		return nil
+	default:
+		return err
 	}
-	return nil
 }
 
 func init() {
diff --git a/internal/tree/hooks/fail-on-existing-group.go b/internal/tree/hooks/fail-on-existing-group.go
index 94e8563..714fa55 100644
--- a/internal/tree/hooks/fail-on-existing-group.go
+++ b/internal/tree/hooks/fail-on-existing-group.go
@@ -1,6 +1,7 @@
 package hooks
 
 import (
+	"github.com/netauth/netauth/internal/db"
 	"github.com/netauth/netauth/internal/startup"
 	"github.com/netauth/netauth/internal/tree"
 
@@ -18,10 +19,15 @@ type FailOnExistingGroup struct {
 // by dg.  If the group loads successfully then an error is returned,
 // in other cases nil is returned.
 func (f *FailOnExistingGroup) Run(g, dg *pb.Group) error {
-	if _, err := f.LoadGroup(dg.GetName()); err == nil {
+	_, err := f.LoadGroup(dg.GetName())
+	switch err {
+	case nil:
 		return tree.ErrDuplicateGroupName
+	case db.ErrUnknownGroup:
+		return nil
+	default:
+		return err
 	}
-	return nil
 }
 
 func init() {
-- 
2.43.0


From 72ffd1f9b92318c8a5ff6727d19f2e75e4570ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:54 +0000
Subject: [PATCH 09/51] fix: automatic numbers must not overflow into negative
 numbers

---
 internal/db/db.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/db/db.go b/internal/db/db.go
index 51053d4..6c5fb5f 100644
--- a/internal/db/db.go
+++ b/internal/db/db.go
@@ -4,6 +4,7 @@
 package db
 
 import (
+	"math"
 	"path"
 
 	"github.com/golang/protobuf/proto"
@@ -168,6 +169,9 @@ func (db *DB) NextEntityNumber() (int32, error) {
 		}
 	}
 
+	if largest == math.MaxInt32 {
+		return 0, ErrInternalError
+	}
 	return largest + 1, nil
 }
 
@@ -190,6 +194,9 @@ func (db *DB) NextGroupNumber() (int32, error) {
 		}
 	}
 
+	if largest == math.MaxInt32 {
+		return 0, ErrInternalError
+	}
 	return largest + 1, nil
 }
 
-- 
2.43.0


From fab7819b7b14c0a7d03d977cb2f38d23a4a6fbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:55 +0000
Subject: [PATCH 10/51] fix: names with path separators or dot segments must
 not reach other objects

---
 internal/db/db.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/internal/db/db.go b/internal/db/db.go
index 6c5fb5f..89f6603 100644
--- a/internal/db/db.go
+++ b/internal/db/db.go
@@ -6,6 +6,7 @@ package db
 import (
 	"math"
 	"path"
+	"strings"
 
 	"github.com/golang/protobuf/proto"
 	"github.com/hashicorp/go-hclog"
@@ -38,6 +39,13 @@ func New(backend string) (*DB, error) {
 	return x, nil
 }
 
+// validName reports whether a name maps to a key of its own directly
+// below the namespace it is used in.  Other names would be resolved to
+// the key of a different object, possibly of a different kind.
+func validName(name string) bool {
+	return name != "" && name != "." && name != ".." && !strings.Contains(name, "/")
+}
+
 // DiscoverEntityIDs searches the keyspace for all entity IDs.  All
 // returned strings are loadable entities.
 func (db *DB) DiscoverEntityIDs() ([]string, error) {
@@ -46,6 +54,9 @@ func (db *DB) DiscoverEntityIDs() ([]string, error) {
 
 // LoadEntity retrieves a single entity from the kv store.
 func (db *DB) LoadEntity(ID string) (*types.Entity, error) {
+	if !validName(ID) {
+		return nil, ErrUnknownEntity
+	}
 	b, err := db.kv.Get(path.Join("/entities", ID))
 	if err == ErrNoValue {
 		return nil, ErrUnknownEntity
@@ -65,6 +76,11 @@ func (db *DB) LoadEntity(ID string) (*types.Entity, error) {
 
 // SaveEntity writes an entity to the kv store.
 func (db *DB) SaveEntity(e *types.Entity) error {
+	if !validName(e.GetID()) {
+		db.log.Warn("Refusing to store entity with invalid ID", "ID", e.GetID())
+		return ErrInternalError
+	}
+
 	b, err := proto.Marshal(e)
 	if err != nil {
 		db.log.Warn("Error marshaling entity", "error", err)
@@ -80,6 +96,9 @@ func (db *DB) SaveEntity(e *types.Entity) error {
 
 // DeleteEntity tries to delete an entity that already exists.
 func (db *DB) DeleteEntity(ID string) error {
+	if !validName(ID) {
+		return ErrUnknownEntity
+	}
 	err := db.kv.Del(path.Join("/entities", ID))
 	if err == ErrNoValue {
 		return ErrUnknownEntity
@@ -95,6 +114,9 @@ func (db *DB) DiscoverGroupNames() ([]string, error) {
 
 // LoadGroup retrieves a single group from the kv store.
 func (db *DB) LoadGroup(ID string) (*types.Group, error) {
+	if !validName(ID) {
+		return nil, ErrUnknownGroup
+	}
 	b, err := db.kv.Get(path.Join("/groups", ID))
 	if err == ErrNoValue {
 		return nil, ErrUnknownGroup
@@ -114,6 +136,11 @@ func (db *DB) LoadGroup(ID string) (*types.Group, error) {
 
 // SaveGroup writes an group to the kv store.
 func (db *DB) SaveGroup(g *types.Group) error {
+	if !validName(g.GetName()) {
+		db.log.Warn("Refusing to store group with invalid name", "name", g.GetName())
+		return ErrInternalError
+	}
+
 	b, err := proto.Marshal(g)
 	if err != nil {
 		db.log.Warn("Error marshaling group", "error", err)
@@ -129,6 +156,9 @@ func (db *DB) SaveGroup(g *types.Group) error {
 
 // DeleteGroup tries to delete an group that already exists.
 func (db *DB) DeleteGroup(ID string) error {
+	if !validName(ID) {
+		return ErrUnknownGroup
+	}
 	err := db.kv.Del(path.Join("/groups", ID))
 	if err == ErrNoValue {
 		return ErrUnknownGroup
-- 
2.43.0


From 7a3922d57e42ee48eeafbf65518ea070e31e5cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:32 +0000
Subject: [PATCH 11/51] fix: rules conflict only with rules for the same target

---
 internal/tree/hooks/check-immediate-expansions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tree/hooks/check-immediate-expansions.go b/internal/tree/hooks/check-immediate-expansions.go
index 82060a6..687d345 100644
--- a/internal/tree/hooks/check-immediate-expansions.go
+++ b/internal/tree/hooks/check-immediate-expansions.go
@@ -29,7 +29,7 @@ func (cie *CheckImmediateExpansions) Run(g, dg *pb.Group) error {
 			continue
 		}
 		for k := range existing {
-			if strings.Contains(existing[k], parts[1]) {
+			if eparts := strings.SplitN(existing[k], ":", 2); eparts[1] == parts[1] {
 				return tree.ErrExistingExpansion
 			}
 		}
-- 
2.43.0


From 757763ab38258f376fcf2ba721d9fcb8f8b88a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:33 +0000
Subject: [PATCH 12/51] fix: removing a rule removes only rules for the named
 target

---
 internal/tree/hooks/patch-group-expansions.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/internal/tree/hooks/patch-group-expansions.go b/internal/tree/hooks/patch-group-expansions.go
index e7611b5..4836dfe 100644
--- a/internal/tree/hooks/patch-group-expansions.go
+++ b/internal/tree/hooks/patch-group-expansions.go
@@ -19,7 +19,7 @@ type PatchGroupExpansions struct {
 }
 
 // Run iterates through the expansions in dg and applies them to g.
-// DROP expansions are processed with fuzzy group name matching.
+// DROP expansions remove exactly the rules for the named group.
 func (*PatchGroupExpansions) Run(g, dg *pb.Group) error {
 	exps := dg.GetExpansions()
 	for i := range exps {
@@ -27,11 +27,15 @@ func (*PatchGroupExpansions) Run(g, dg *pb.Group) error {
 		if parts[0] == "INCLUDE" || parts[0] == "EXCLUDE" {
 			g.Expansions = util.PatchStringSlice(g.Expansions, exps[i], true, true)
 		} else if parts[0] == "DROP" {
-			// Patch out with fuzzy matching, this will
-			// innevitably come back to bite someone, but
-			// until then its much faster than doing
-			// strict checking on the group name.
-			g.Expansions = util.PatchStringSlice(g.Expansions, parts[1], false, false)
+			// Patch out exactly the rules for the named
+			// target, the type is unknown at this point.
+			var kept []string
+			for _, exp := range g.Expansions {
+				if eparts := strings.SplitN(exp, ":", 2); eparts[1] != parts[1] {
+					kept = append(kept, exp)
+				}
+			}
+			g.Expansions = kept
 		}
 	}
 	sort.Strings(g.Expansions)
-- 
2.43.0


From 866bc0911b2f0b7f5c975daf807b2cf7088521d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:34 +0000
Subject: [PATCH 13/51] fix: a group must not include or exclude itself

---
 internal/tree/hooks/check-expansion-cycle.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/tree/hooks/check-expansion-cycle.go b/internal/tree/hooks/check-expansion-cycle.go
index f19d07f..e61ef71 100644
--- a/internal/tree/hooks/check-expansion-cycle.go
+++ b/internal/tree/hooks/check-expansion-cycle.go
@@ -30,6 +30,9 @@ func (cec *CheckExpansionCycles) Run(g, dg *pb.Group) error {
 		if parts[0] == "DROP" {
 			continue
 		}
+		if parts[1] == g.GetName() {
+			return tree.ErrExistingExpansion
+		}
 		child, err := cec.LoadGroup(parts[1])
 		if err != nil {
 			return err
-- 
2.43.0


From 4f0dce39c67bbf26c3f4b4b4a418ce6dda812bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:37 +0000
Subject: [PATCH 14/51] fix: group key/value requests report existing and
 missing keys distinctly

---
 internal/rpc2/group.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/internal/rpc2/group.go b/internal/rpc2/group.go
index 4f42374..a90e39a 100644
--- a/internal/rpc2/group.go
+++ b/internal/rpc2/group.go
@@ -229,6 +229,14 @@ func (s *Server) GroupKVAdd(ctx context.Context, r *pb.KV2Request) (*pb.Empty, e
 			"client", getClientName(ctx),
 		)
 		return &pb.Empty{}, ErrDoesNotExist
+	case tree.ErrKeyExists:
+		s.log.Warn("Key already exists!",
+			"method", "GroupKVAdd",
+			"group", r.GetTarget(),
+			"service", getServiceName(ctx),
+			"client", getClientName(ctx),
+		)
+		return &pb.Empty{}, ErrExists
 	case nil:
 		s.log.Info("Group KV Updated Dumped",
 			"group", r.GetTarget(),
@@ -266,6 +274,14 @@ func (s *Server) GroupKVDel(ctx context.Context, r *pb.KV2Request) (*pb.Empty, e
 			"client", getClientName(ctx),
 		)
 		return &pb.Empty{}, ErrDoesNotExist
+	case tree.ErrNoSuchKey:
+		s.log.Warn("Key does not exist!",
+			"method", "GroupKVDel",
+			"group", r.GetTarget(),
+			"service", getServiceName(ctx),
+			"client", getClientName(ctx),
+		)
+		return &pb.Empty{}, ErrDoesNotExist
 	case nil:
 		s.log.Info("Group KV Data Dumped",
 			"group", r.GetTarget(),
@@ -304,6 +320,14 @@ func (s *Server) GroupKVReplace(ctx context.Context, r *pb.KV2Request) (*pb.Empt
 			"client", getClientName(ctx),
 		)
 		return &pb.Empty{}, ErrDoesNotExist
+	case tree.ErrNoSuchKey:
+		s.log.Warn("Key does not exist!",
+			"method", "GroupKVReplace",
+			"group", r.GetTarget(),
+			"service", getServiceName(ctx),
+			"client", getClientName(ctx),
+		)
+		return &pb.Empty{}, ErrDoesNotExist
 	case nil:
 		s.log.Info("Group KV Data Updated",
 			"group", r.GetTarget(),
-- 
2.43.0


From d5c3aaed35501062cb1623568b7299e43e983fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:37 +0000
Subject: [PATCH 15/51] fix: public keys are matched exactly

---
 internal/tree/hooks/entity-keys.go | 31 +++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/internal/tree/hooks/entity-keys.go b/internal/tree/hooks/entity-keys.go
index 7f70d71..c54110e 100644
--- a/internal/tree/hooks/entity-keys.go
+++ b/internal/tree/hooks/entity-keys.go
@@ -1,6 +1,8 @@
 package hooks
 
 import (
+	"strings"
+
 	"github.com/netauth/netauth/internal/startup"
 	"github.com/netauth/netauth/internal/tree"
 	"github.com/netauth/netauth/internal/tree/util"
@@ -18,11 +20,38 @@ type ManageEntityKeys struct {
 // from the entity's keystore.
 func (mek *ManageEntityKeys) Run(e, de *pb.Entity) error {
 	for _, k := range de.Meta.Keys {
-		e.Meta.Keys = util.PatchStringSlice(e.Meta.Keys, k, mek.mode, false)
+		if mek.mode {
+			e.Meta.Keys = util.PatchStringSlice(e.Meta.Keys, k, true, true)
+			continue
+		}
+		var kept []string
+		for _, existing := range e.Meta.Keys {
+			if !keyMatches(existing, k) {
+				kept = append(kept, existing)
+			}
+		}
+		e.Meta.Keys = kept
 	}
 	return nil
 }
 
+// keyMatches checks if an existing key is the one named by the pattern.
+// Type and key are compared exactly, though one of them may be left out
+// to select keys of any type, or all keys of the type, respectively.
+func keyMatches(existing, pattern string) bool {
+	if existing == pattern {
+		return true
+	}
+	ep, pp := strings.SplitN(existing, ":", 2), strings.SplitN(pattern, ":", 2)
+	if len(ep) != 2 || len(pp) != 2 {
+		return false
+	}
+	if pp[0] == "" {
+		return ep[1] == pp[1]
+	}
+	return pp[1] == "" && ep[0] == pp[0]
+}
+
 func init() {
 	startup.RegisterCallback(entityKeysCB)
 }
-- 
2.43.0


From cc1eb62e5e7a8409efd9b04e8ee9a944ad002337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:17 +0000
Subject: [PATCH 16/51] fix: removed rules must not be followed when
 propagating membership changes

---
 internal/mresolver/memberships.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/mresolver/memberships.go b/internal/mresolver/memberships.go
index 6ca6517..56d74b4 100644
--- a/internal/mresolver/memberships.go
+++ b/internal/mresolver/memberships.go
@@ -55,6 +55,10 @@ func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
 		mr.atom.ga[affectee][affector] = struct{}{}
 	}
 	mr.gMutex.Lock()
+	// Rules may have been removed since the last sync.
+	for _, ga := range mr.atom.ga {
+		delete(ga, group)
+	}
 	for _, g := range include {
 		addAffector(g, group)
 	}
-- 
2.43.0


From f6a09e6d4985d7c9fdfec587d9eec40673db9451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:19 +0000
Subject: [PATCH 17/51] fix: resolver reads of shared maps must hold the lock

---
 internal/mresolver/memberships.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/mresolver/memberships.go b/internal/mresolver/memberships.go
index 56d74b4..377d00a 100644
--- a/internal/mresolver/memberships.go
+++ b/internal/mresolver/memberships.go
@@ -75,9 +75,12 @@ func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
 func (mr *MResolver) resolveChanges(group string) {
 	mr.Resolve(group)
 	mr.gMutex.RLock()
-	cascade := mr.atom.ga[group]
+	cascade := make([]string, 0, len(mr.atom.ga[group]))
+	for g := range mr.atom.ga[group] {
+		cascade = append(cascade, g)
+	}
 	mr.gMutex.RUnlock()
-	for g := range cascade {
+	for _, g := range cascade {
 		mr.resolveChanges(g)
 	}
 }
@@ -198,6 +201,8 @@ func (mr *MResolver) MembersOfGroup(group string) []string {
 	if !ok {
 		return []string{}
 	}
+	mr.uMutex.RLock()
+	defer mr.uMutex.RUnlock()
 	return exp.FilterValues(mr.atom.dm)
 }
 
-- 
2.43.0


From 8e2fe2f0c4bfcf28cc458ec4d0d3e404937c3d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:21 +0000
Subject: [PATCH 18/51] fix: destroying a group must not leave its members in
 other groups, nor break them after a restart

---
 internal/mresolver/memberships.go | 34 ++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/internal/mresolver/memberships.go b/internal/mresolver/memberships.go
index 377d00a..4bf3917 100644
--- a/internal/mresolver/memberships.go
+++ b/internal/mresolver/memberships.go
@@ -38,6 +38,15 @@ func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
 
 	mr.gMutex.Lock()
 	mr.atom.gc[group] = &g
+	// Groups that don't exist, or aren't known yet, have no members
+	// to contribute.
+	for _, names := range [][]string{include, exclude} {
+		for _, gn := range names {
+			if _, ok := mr.atom.gc[gn]; !ok {
+				mr.atom.gt[gn] = emptyGroup(gn)
+			}
+		}
+	}
 	mr.gMutex.Unlock()
 
 	// Need to resolve the group here, and re-resolve any
@@ -71,6 +80,16 @@ func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
 	mr.resolveChanges(group)
 }
 
+// emptyGroup is the expression of a group without members.
+func emptyGroup(group string) []bsfilter.Symbol {
+	return []bsfilter.Symbol{
+		{T: bsfilter.SymbolIdent, Ident: group},
+		{T: bsfilter.SymbolBinaryAnd},
+		{T: bsfilter.SymbolUnaryNot},
+		{T: bsfilter.SymbolIdent, Ident: group},
+	}
+}
+
 // Recursively propagate resolutions all the way down.
 func (mr *MResolver) resolveChanges(group string) {
 	mr.Resolve(group)
@@ -94,14 +113,27 @@ func (mr *MResolver) RemoveGroup(group string) {
 	delete(mr.atom.gc, group)
 	delete(mr.atom.gr, group)
 	delete(mr.atom.gt, group)
-	delete(mr.atom.ga, group)
 
 	mr.atom.gs.Del(group)
 
 	for _, ga := range mr.atom.ga {
 		delete(ga, group)
 	}
+
+	// Groups with rules for the removed group keep these, but must
+	// be resolved again without its members.
+	affected := make([]string, 0, len(mr.atom.ga[group]))
+	for g := range mr.atom.ga[group] {
+		affected = append(affected, g)
+	}
+	if len(affected) > 0 {
+		mr.atom.gt[group] = emptyGroup(group)
+	}
 	mr.gMutex.Unlock()
+
+	for _, g := range affected {
+		mr.resolveChanges(g)
+	}
 }
 
 // Resolve flattens out the membership tree and associated subtrees
-- 
2.43.0


From d7f2e3399218c8a6e379ef1501aa279bc11c3773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:53 +0000
Subject: [PATCH 19/51] fix: concurrent changes to the same object must not
 undo each other

---
 internal/tree/entity-chains.go | 11 ++++++++
 internal/tree/group-chains.go  |  5 ++++
 internal/tree/locks.go         | 46 ++++++++++++++++++++++++++++++++++
 internal/tree/type.go          | 10 ++++++++
 4 files changed, 72 insertions(+)
 create mode 100644 internal/tree/locks.go

diff --git a/internal/tree/entity-chains.go b/internal/tree/entity-chains.go
index ea675e3..62d330c 100644
--- a/internal/tree/entity-chains.go
+++ b/internal/tree/entity-chains.go
@@ -108,6 +108,17 @@ func (m *Manager) CheckRequiredEntityChains() error {
 // RunEntityChain runs the specified chain with de specifying values
 // to be consumed by the chain.
 func (m *Manager) RunEntityChain(chain string, de *pb.Entity) (*pb.Entity, error) {
+	switch chain {
+	case "FETCH":
+		// Reads only need a single load.
+	case "CREATE", "BOOTSTRAP-SERVER":
+		m.entityNumberLock.Lock()
+		defer m.entityNumberLock.Unlock()
+		fallthrough
+	default:
+		defer m.entityLock.Lock(de.GetID())()
+	}
+
 	e := new(pb.Entity)
 	hookChain := m.entityProcesses[chain]
 	for _, h := range hookChain {
diff --git a/internal/tree/group-chains.go b/internal/tree/group-chains.go
index 0176fb5..5dfd016 100644
--- a/internal/tree/group-chains.go
+++ b/internal/tree/group-chains.go
@@ -108,6 +108,11 @@ func (m *Manager) CheckRequiredGroupChains() error {
 // RunGroupChain runs the specified chain with de specifying values
 // to be consumed by the chain.
 func (m *Manager) RunGroupChain(chain string, de *pb.Group) (*pb.Group, error) {
+	if chain != "FETCH" {
+		m.groupLock.Lock()
+		defer m.groupLock.Unlock()
+	}
+
 	e := new(pb.Group)
 	hookChain := m.groupProcesses[chain]
 	for _, h := range hookChain {
diff --git a/internal/tree/locks.go b/internal/tree/locks.go
new file mode 100644
index 0000000..945f176
--- /dev/null
+++ b/internal/tree/locks.go
@@ -0,0 +1,46 @@
+package tree
+
+import (
+	"sync"
+)
+
+// A chainLock keeps chains that change the same object from
+// interleaving.  A chain loads an object, changes it, and saves it
+// again, so two chains that interleave would otherwise undo each
+// other's changes.
+type chainLock struct {
+	mu      sync.Mutex
+	objects map[string]*objectLock
+}
+
+type objectLock struct {
+	mu    sync.Mutex
+	users int
+}
+
+// Lock waits for all other holders of the same ID to finish and
+// returns the function that allows the next one to proceed.
+func (l *chainLock) Lock(ID string) func() {
+	l.mu.Lock()
+	if l.objects == nil {
+		l.objects = make(map[string]*objectLock)
+	}
+	o, ok := l.objects[ID]
+	if !ok {
+		o = new(objectLock)
+		l.objects[ID] = o
+	}
+	o.users++
+	l.mu.Unlock()
+
+	o.mu.Lock()
+	return func() {
+		o.mu.Unlock()
+		l.mu.Lock()
+		o.users--
+		if o.users == 0 {
+			delete(l.objects, ID)
+		}
+		l.mu.Unlock()
+	}
+}
diff --git a/internal/tree/type.go b/internal/tree/type.go
index 783e007..7c4d05c 100644
--- a/internal/tree/type.go
+++ b/internal/tree/type.go
@@ -1,6 +1,8 @@
 package tree
 
 import (
+	"sync"
+
 	"github.com/hashicorp/go-hclog"
 
 	"github.com/netauth/netauth/internal/crypto"
@@ -39,6 +41,14 @@ type Manager struct {
 	entityProcesses map[string][]EntityHook
 	groupProcesses  map[string][]GroupHook
 
+	// Chains that change an entity exclude each other per entity.
+	// Entities that may be assigned the next number exclude each
+	// other as well, as do all changes to groups, since rules are
+	// checked against other groups.
+	entityLock       chainLock
+	entityNumberLock sync.Mutex
+	groupLock        sync.Mutex
+
 	resolver *mresolver.MResolver
 
 	log hclog.Logger
-- 
2.43.0


From 5f457858c1404e08e044e77306ff3e3ea076a33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:17 +0000
Subject: [PATCH 20/51] fix: a secret change must not race with the check of
 the old secret

An entity changing its own secret was checked against the old secret
and stored in two steps, so a reset by an administrator between these
was acknowledged and then undone by whoever knew the old secret.
---
 internal/rpc2/auth.go | 3 +++
 internal/rpc2/type.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/internal/rpc2/auth.go b/internal/rpc2/auth.go
index 873677c..5253b9f 100644
--- a/internal/rpc2/auth.go
+++ b/internal/rpc2/auth.go
@@ -112,6 +112,9 @@ func (s *Server) AuthChangeSecret(ctx context.Context, r *pb.AuthRequest) (*pb.E
 		return &pb.Empty{}, err
 	}
 
+	s.secretLock.Lock()
+	defer s.secretLock.Unlock()
+
 	// Changing for self, must have the original secret
 	if getTokenClaims(ctx).EntityID == e.GetID() {
 		if err := s.ValidateSecret(e.GetID(), e.GetSecret()); err != nil {
diff --git a/internal/rpc2/type.go b/internal/rpc2/type.go
index 5a98b37..29717ad 100644
--- a/internal/rpc2/type.go
+++ b/internal/rpc2/type.go
@@ -1,6 +1,8 @@
 package rpc2
 
 import (
+	"sync"
+
 	"github.com/hashicorp/go-hclog"
 
 	"github.com/netauth/netauth/internal/db"
@@ -18,6 +20,10 @@ type Server struct {
 
 	readonly bool
 	log      hclog.Logger
+
+	// secretLock keeps a secret from being replaced between the
+	// check of the old one and its own replacement.
+	secretLock sync.Mutex
 }
 
 // Refs is the container that is used to provide references to the RPC
-- 
2.43.0


From 52b8a81e00263e6dfa69458f67cbb5405f7f0bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:43 +0000
Subject: [PATCH 21/51] fix: the memory store must not announce keys that are
 no objects

---
 internal/db/memory/memory.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/db/memory/memory.go b/internal/db/memory/memory.go
index 7287afa..ea0ea87 100644
--- a/internal/db/memory/memory.go
+++ b/internal/db/memory/memory.go
@@ -59,12 +59,12 @@ func (kv *KV) Put(k string, v []byte) error {
 	kv.Unlock()
 
 	switch {
-	case strings.HasPrefix(k, "/entities"):
+	case strings.HasPrefix(k, "/entities/"):
 		kv.eF(db.Event{
 			Type: db.EventEntityUpdate,
 			PK:   path.Base(k),
 		})
-	case strings.HasPrefix(k, "/groups"):
+	case strings.HasPrefix(k, "/groups/"):
 		kv.eF(db.Event{
 			Type: db.EventGroupUpdate,
 			PK:   path.Base(k),
@@ -94,12 +94,12 @@ func (kv *KV) Del(k string) error {
 	kv.l.Trace("DEL", "key", k)
 
 	switch {
-	case strings.HasPrefix(k, "/entities"):
+	case strings.HasPrefix(k, "/entities/"):
 		kv.eF(db.Event{
 			Type: db.EventEntityDestroy,
 			PK:   path.Base(k),
 		})
-	case strings.HasPrefix(k, "/groups"):
+	case strings.HasPrefix(k, "/groups/"):
 		kv.eF(db.Event{
 			Type: db.EventGroupDestroy,
 			PK:   path.Base(k),
-- 
2.43.0


From 23e2ba77c279313f608266920709aaa026c06ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:32 +0000
Subject: [PATCH 22/51] fix: a crash while writing must not leave phantom keys
 in the filesystem store

---
 internal/db/filesystem/filesystem.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/internal/db/filesystem/filesystem.go b/internal/db/filesystem/filesystem.go
index c2cb2fe..9ab4625 100644
--- a/internal/db/filesystem/filesystem.go
+++ b/internal/db/filesystem/filesystem.go
@@ -87,7 +87,7 @@ func (fs *Filesystem) Put(k string, v []byte) error {
 		return err
 	}
 
-	if err := atomic.WriteFile(p, v, 0640); err != nil {
+	if err := fs.writeFile(p, v); err != nil {
 		return err
 	}
 
@@ -95,6 +95,25 @@ func (fs *Filesystem) Put(k string, v []byte) error {
 	return nil
 }
 
+// writeFile atomically replaces the file at p.  The data is staged in
+// the basePath itself, where files left behind by a crash can't be
+// mistaken for keys.
+func (fs *Filesystem) writeFile(p string, v []byte) error {
+	t, err := atomic.TempFile(fs.basePath, p)
+	if err != nil {
+		return err
+	}
+	defer t.Cleanup()
+
+	if err := t.Chmod(0640); err != nil {
+		return err
+	}
+	if _, err := t.Write(v); err != nil {
+		return err
+	}
+	return t.CloseAtomicallyReplace()
+}
+
 // Get returns a series of bytes from the filesystem, checking to make
 // sure that the bytes come from inside the base path.
 func (fs *Filesystem) Get(k string) ([]byte, error) {
-- 
2.43.0


From b5f0d33b2b43c44f1c785291ac13fe9154a106df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:30 +0000
Subject: [PATCH 23/51] fix: a cached token must be private to its owner even
 in an existing file

---
 pkg/netauth/cache/fs/fs.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/netauth/cache/fs/fs.go b/pkg/netauth/cache/fs/fs.go
index 449362a..ba0cacd 100644
--- a/pkg/netauth/cache/fs/fs.go
+++ b/pkg/netauth/cache/fs/fs.go
@@ -39,7 +39,18 @@ func new() (cache.TokenCache, error) {
 // The file will be written with the permissions of the curent user
 // and will not be readable to other users.
 func (fc *fsCache) PutToken(owner, token string) error {
-	return ioutil.WriteFile(fc.filepathFromOwner(owner), []byte(token), 0600)
+	f, err := os.OpenFile(fc.filepathFromOwner(owner), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)
+	if err != nil {
+		return err
+	}
+	defer f.Close()
+
+	// A file that already existed has kept its permissions.
+	if err := f.Chmod(0600); err != nil {
+		return err
+	}
+	_, err = f.Write([]byte(token))
+	return err
 }
 
 // GetToken will retrieve a file of the form <owner>.<extension> and
-- 
2.43.0


From 171d4a6ba3ed1ac033c1cad8ba3ff31bf32052ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:30 +0000
Subject: [PATCH 24/51] fix: cached tokens of different owners must not share
 or escape files

---
 pkg/netauth/cache/fs/fs.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/netauth/cache/fs/fs.go b/pkg/netauth/cache/fs/fs.go
index ba0cacd..856df0d 100644
--- a/pkg/netauth/cache/fs/fs.go
+++ b/pkg/netauth/cache/fs/fs.go
@@ -10,6 +10,7 @@ package fs
 import (
 	"fmt"
 	"io/ioutil"
+	"net/url"
 	"os"
 	"path/filepath"
 
@@ -79,10 +80,11 @@ func (fc *fsCache) DelToken(owner string) error {
 }
 
 // filepathFromOwner is a convenience function which encapsulates the
-// path selection logic for where tokens are stored.
+// path selection logic for where tokens are stored.  The owner is
+// escaped so that every owner has a file of its own in the basepath.
 func (fc *fsCache) filepathFromOwner(owner string) string {
 	return filepath.Join(
 		fc.basepath,
-		fmt.Sprintf("%s.%s", owner, extension),
+		fmt.Sprintf("%s.%s", url.PathEscape(owner), extension),
 	)
 }
-- 
2.43.0


From 65f1b1b4e80c7d53449b326e2af54e070f9e13de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:25 +0000
Subject: [PATCH 25/51] fix: nsutil must not truncate the target when the
 source cannot be enumerated

---
 cmd/nsutil/db_copy.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/nsutil/db_copy.go b/cmd/nsutil/db_copy.go
index ffb5ece..e503f72 100644
--- a/cmd/nsutil/db_copy.go
+++ b/cmd/nsutil/db_copy.go
@@ -52,6 +52,7 @@ func dbCopyCmdRun(c *cobra.Command, args []string) {
 	sourceKeys, err := source.Keys("/*/*")
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error retrieving keys from source: %s\n", err)
+		os.Exit(1)
 	}
 	fmt.Printf("Source initialized, contains %d objects.\n", len(sourceKeys))
 
-- 
2.43.0


From 35f4c179225f4424b98fd0f6966eeb8b8fa0cbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:29 +0000
Subject: [PATCH 26/51] fix: nsutil must not truncate a store that is copied
 onto itself

---
 cmd/nsutil/db_copy.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/nsutil/db_copy.go b/cmd/nsutil/db_copy.go
index e503f72..809fe1d 100644
--- a/cmd/nsutil/db_copy.go
+++ b/cmd/nsutil/db_copy.go
@@ -41,6 +41,11 @@ func init() {
 }
 
 func dbCopyCmdRun(c *cobra.Command, args []string) {
+	if args[0] == args[1] {
+		fmt.Fprintln(os.Stderr, "Source and target are the same store.")
+		os.Exit(1)
+	}
+
 	startup.DoCallbacks()
 
 	source, err := db.NewKV(args[0], nil)
-- 
2.43.0


From 216f545b26da0e0adb35428e943aff518fe4a8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:41 +0000
Subject: [PATCH 27/51] fix: untyped metadata without a separator must not
 crash the client

---
 pkg/netauth/util.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/netauth/util.go b/pkg/netauth/util.go
index 9dfaf07..d3368f7 100644
--- a/pkg/netauth/util.go
+++ b/pkg/netauth/util.go
@@ -32,6 +32,11 @@ func parseKV(in []string) map[string][]string {
 	typedKV := make(map[string][]sortableValue)
 	for _, p := range in {
 		parts := strings.SplitN(p, ":", 2)
+		if len(parts) != 2 {
+			// No separator, so there is no value here to
+			// return.
+			continue
+		}
 
 		match := kvIndexRegexp.FindStringSubmatch(parts[0])
 		idx := -1
-- 
2.43.0


From 6f3b811bb4103abba068255867073aff13133b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:35 +0000
Subject: [PATCH 28/51] fix: client must not crash on an empty answer

---
 pkg/netauth/entity.go | 3 +++
 pkg/netauth/group.go  | 4 ++++
 pkg/netauth/util.go   | 5 +++++
 3 files changed, 12 insertions(+)

diff --git a/pkg/netauth/entity.go b/pkg/netauth/entity.go
index 1878d7d..ebe491f 100644
--- a/pkg/netauth/entity.go
+++ b/pkg/netauth/entity.go
@@ -66,6 +66,9 @@ func (c *Client) EntityInfo(ctx context.Context, id string) (pb.Entity, error) {
 	if err != nil {
 		return pb.Entity{}, err
 	}
+	if len(res.GetEntities()) == 0 {
+		return pb.Entity{}, errEmptyResponse
+	}
 	return *res.GetEntities()[0], nil
 }
 
diff --git a/pkg/netauth/group.go b/pkg/netauth/group.go
index 153a978..d1631ba 100644
--- a/pkg/netauth/group.go
+++ b/pkg/netauth/group.go
@@ -67,6 +67,10 @@ func (c *Client) GroupInfo(ctx context.Context, name string) (*pb.Group, []*pb.G
 		return nil, nil, err
 	}
 
+	if len(res.GetGroups()) == 0 {
+		return nil, nil, errEmptyResponse
+	}
+
 	res2, err := c.GroupSearch(ctx, fmt.Sprintf("ManagedBy:%s", name))
 	if err != nil {
 		c.log.Warn("Error searching", "error", err)
diff --git a/pkg/netauth/util.go b/pkg/netauth/util.go
index d3368f7..83fb9b4 100644
--- a/pkg/netauth/util.go
+++ b/pkg/netauth/util.go
@@ -2,6 +2,7 @@ package netauth
 
 import (
 	"context"
+	"errors"
 	"regexp"
 	"sort"
 	"strconv"
@@ -12,6 +13,10 @@ import (
 
 var (
 	kvIndexRegexp = regexp.MustCompile(`{(\d+)}$`)
+
+	// errEmptyResponse is returned when the server answers a
+	// request for a single object without including it.
+	errEmptyResponse = errors.New("server returned no objects")
 )
 
 // Authorize attaches a token to a provided context, returning a new
-- 
2.43.0


From f8ef83143ed97c09ef84f3b6ba795633905381a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:35 +0000
Subject: [PATCH 29/51] fix: client must not truncate requested numbers

---
 pkg/netauth/entity.go | 4 ++++
 pkg/netauth/group.go  | 4 ++++
 pkg/netauth/util.go   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/pkg/netauth/entity.go b/pkg/netauth/entity.go
index ebe491f..edb812e 100644
--- a/pkg/netauth/entity.go
+++ b/pkg/netauth/entity.go
@@ -21,6 +21,10 @@ func (c *Client) EntityCreate(ctx context.Context, id, secret string, number int
 		return err
 	}
 
+	if int(int32(number)) != number {
+		return errNumberRange
+	}
+
 	ctx = c.appendMetadata(ctx)
 	r := rpc.EntityRequest{
 		Entity: &pb.Entity{
diff --git a/pkg/netauth/group.go b/pkg/netauth/group.go
index d1631ba..c19724b 100644
--- a/pkg/netauth/group.go
+++ b/pkg/netauth/group.go
@@ -23,6 +23,10 @@ func (c *Client) GroupCreate(ctx context.Context, name, displayName, managedBy s
 		return err
 	}
 
+	if int(int32(number)) != number {
+		return errNumberRange
+	}
+
 	ctx = c.appendMetadata(ctx)
 	r := rpc.GroupRequest{
 		Group: &pb.Group{
diff --git a/pkg/netauth/util.go b/pkg/netauth/util.go
index 83fb9b4..455394f 100644
--- a/pkg/netauth/util.go
+++ b/pkg/netauth/util.go
@@ -17,6 +17,10 @@ var (
 	// errEmptyResponse is returned when the server answers a
 	// request for a single object without including it.
 	errEmptyResponse = errors.New("server returned no objects")
+
+	// errNumberRange is returned when a requested number cannot
+	// be represented in a request.
+	errNumberRange = errors.New("number is out of range")
 )
 
 // Authorize attaches a token to a provided context, returning a new
-- 
2.43.0


From 033cfe3a9c72f484cc9f84719f13ab502c0d4bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:16 +0000
Subject: [PATCH 30/51] fix: empty key/value data must survive the trip through
 a plugin

---
 internal/plugin/tree/common/rpc.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/internal/plugin/tree/common/rpc.go b/internal/plugin/tree/common/rpc.go
index 618bff1..f7b4a6c 100644
--- a/internal/plugin/tree/common/rpc.go
+++ b/internal/plugin/tree/common/rpc.go
@@ -3,7 +3,10 @@ package common
 import (
 	"net/rpc"
 
+	"github.com/golang/protobuf/proto"
 	"github.com/hashicorp/go-plugin"
+
+	pb "github.com/netauth/protocol"
 )
 
 // Server returns a go-plugin compliant interface that handles the
@@ -21,6 +24,8 @@ func (GoPluginRPC) Client(b *plugin.MuxBroker, c *rpc.Client) (interface{}, erro
 // ProcessEntity on the GoPluginServer type implements a net/rpc
 // server method that handles entities.
 func (p *GoPluginServer) ProcessEntity(opts PluginOpts, res *PluginResult) error {
+	restoreKV(opts.Entity.GetMeta().GetKV())
+	restoreKV(opts.DataEntity.GetMeta().GetKV())
 	tmp, err := p.Mux.HandleEntity(opts)
 	res.Entity = tmp.Entity
 	return err
@@ -29,6 +34,8 @@ func (p *GoPluginServer) ProcessEntity(opts PluginOpts, res *PluginResult) error
 // ProcessGroup on the GoPluginServer type implements a net/rpc server
 // that handles groups.
 func (p *GoPluginServer) ProcessGroup(opts PluginOpts, res *PluginResult) error {
+	restoreKV(opts.Group.GetKV())
+	restoreKV(opts.DataGroup.GetKV())
 	tmp, err := p.Mux.HandleGroup(opts)
 	res.Group = tmp.Group
 	return err
@@ -40,6 +47,7 @@ func (p *GoPluginServer) ProcessGroup(opts PluginOpts, res *PluginResult) error
 func (c *GoPluginClient) ProcessEntity(opts PluginOpts) (PluginResult, error) {
 	var res PluginResult
 	err := c.client.Call("Plugin.ProcessEntity", opts, &res)
+	restoreKV(res.Entity.GetMeta().GetKV())
 	return res, err
 }
 
@@ -49,5 +57,23 @@ func (c *GoPluginClient) ProcessEntity(opts PluginOpts) (PluginResult, error) {
 func (c *GoPluginClient) ProcessGroup(opts PluginOpts) (PluginResult, error) {
 	var res PluginResult
 	err := c.client.Call("Plugin.ProcessGroup", opts, &res)
+	restoreKV(res.Group.GetKV())
 	return res, err
 }
+
+// restoreKV fills in the required fields that were empty strings.  The
+// transport does not distinguish a pointer to an empty string from no
+// pointer at all, and without these fields the key/value data cannot
+// be stored anymore.
+func restoreKV(kv []*pb.KVData) {
+	for _, d := range kv {
+		if d.Key == nil {
+			d.Key = proto.String("")
+		}
+		for _, v := range d.Values {
+			if v.Value == nil {
+				v.Value = proto.String("")
+			}
+		}
+	}
+}
-- 
2.43.0


From ef3190e6ac94e52aa11bf0f1bdd09ff32902f225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:16 +0000
Subject: [PATCH 31/51] fix: a plugin that did not start must not crash the
 health check

---
 internal/plugin/tree/consumer/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/plugin/tree/consumer/main.go b/internal/plugin/tree/consumer/main.go
index 59797e8..cd24b8a 100644
--- a/internal/plugin/tree/consumer/main.go
+++ b/internal/plugin/tree/consumer/main.go
@@ -80,6 +80,12 @@ func (r *Ref) healthCheck() health.SubsystemStatus {
 		Status: "Plugin is OK",
 	}
 
+	if r.client == nil {
+		status.OK = false
+		status.Status = "Plugin is not running"
+		return status
+	}
+
 	err := r.client.Ping()
 	if err != nil {
 		status.OK = false
-- 
2.43.0


From 945dd0fdf682fcfb2da862030adedba968b4e85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:16 +0000
Subject: [PATCH 32/51] fix: a plugin that could not be used must be stopped

---
 internal/plugin/tree/manager/manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/plugin/tree/manager/manager.go b/internal/plugin/tree/manager/manager.go
index 78655e5..6e80010 100644
--- a/internal/plugin/tree/manager/manager.go
+++ b/internal/plugin/tree/manager/manager.go
@@ -59,6 +59,7 @@ func (m *Manager) LoadPlugins() {
 		}
 		if err := im.Init(); err != nil {
 			m.logger.Warn("Error initializing plugin", "error", err)
+			im.Shutdown()
 			continue
 		}
 		m.plugins[p] = im
-- 
2.43.0


From 2241c9a5013c1344d80721c46863e0af67fdc45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:48 +0000
Subject: [PATCH 33/51] fix: fail2lock defaults must apply to each setting that
 is not configured

The sub-tree of a configuration has no defaults, so configuring only one
of the settings made the other one zero: every login was refused, or no
failure ever counted.
---
 plugins/tree/fail2lock/main.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/plugins/tree/fail2lock/main.go b/plugins/tree/fail2lock/main.go
index 69acbd6..e2a7534 100644
--- a/plugins/tree/fail2lock/main.go
+++ b/plugins/tree/fail2lock/main.go
@@ -17,8 +17,6 @@ import (
 
 var (
 	appLogger hclog.Logger
-
-	cfg *viper.Viper
 )
 
 func init() {
@@ -41,13 +39,12 @@ func init() {
 
 	viper.SetDefault("plugin.fail2lock.allowed_fails", 3)
 	viper.SetDefault("plugin.fail2lock.interval", time.Minute*15)
-	cfg = viper.Sub("plugin.fail2lock")
 }
 
 func main() {
 	appLogger.Info("fail2lock initialized",
-		"allowed_fails", cfg.GetInt("allowed_fails"),
-		"interval", cfg.GetDuration("interval"))
+		"allowed_fails", viper.GetInt("plugin.fail2lock.allowed_fails"),
+		"interval", viper.GetDuration("plugin.fail2lock.interval"))
 
 	tree.PluginMain(fail2lock{
 		NullPlugin: tree.NullPlugin{},
@@ -75,18 +72,18 @@ func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
 	}
 
 	inIntervalFails := 0
-	startTime := time.Now().Add(cfg.GetDuration("interval") * -1)
+	startTime := time.Now().Add(viper.GetDuration("plugin.fail2lock.interval") * -1)
 	for _, t := range f.failDB[e.GetID()] {
 		if t.After(startTime) {
 			inIntervalFails++
 		}
 	}
 
-	if inIntervalFails >= cfg.GetInt("allowed_fails") {
+	if inIntervalFails >= viper.GetInt("plugin.fail2lock.allowed_fails") {
 		appLogger.Warn("fail2lock is locking an entity",
 			"entity", e.GetID(),
 			"fails", inIntervalFails,
-			"allowed", cfg.GetInt("allowed_fails"))
+			"allowed", viper.GetInt("plugin.fail2lock.allowed_fails"))
 		e.Meta.Locked = proto.Bool(true)
 		return e, nil
 	}
-- 
2.43.0


From ace9b3d53d988c2e927d47e47720ece3dcab9ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:48 +0000
Subject: [PATCH 34/51] fix: fail2lock must cope with entities that have no
 metadata

The first login of an entity that was just created ended the plugin.
---
 plugins/tree/fail2lock/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugins/tree/fail2lock/main.go b/plugins/tree/fail2lock/main.go
index e2a7534..cf88800 100644
--- a/plugins/tree/fail2lock/main.go
+++ b/plugins/tree/fail2lock/main.go
@@ -63,7 +63,7 @@ type fail2lock struct {
 // will lock the entity and return which will cause an authentication
 // failure.
 func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
-	flags := util.PatchKeyValueSlice(e.Meta.UntypedMeta, "READ", "fail2lock", "")
+	flags := util.PatchKeyValueSlice(e.GetMeta().GetUntypedMeta(), "READ", "fail2lock", "")
 
 	if len(flags) == 1 && strings.Split(flags[0], ":")[1] == "RESET" {
 		delete(f.failDB, e.GetID())
@@ -84,6 +84,9 @@ func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
 			"entity", e.GetID(),
 			"fails", inIntervalFails,
 			"allowed", viper.GetInt("plugin.fail2lock.allowed_fails"))
+		if e.Meta == nil {
+			e.Meta = &pb.EntityMeta{}
+		}
 		e.Meta.Locked = proto.Bool(true)
 		return e, nil
 	}
-- 
2.43.0


From 829f2e24d27e4c5a832b6079890aece4348e9371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:48 +0000
Subject: [PATCH 35/51] fix: fail2lock must not access its failures
 concurrently

Requests to a plugin are handled concurrently, and concurrent access to
a map ends the process.
---
 plugins/tree/fail2lock/main.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/plugins/tree/fail2lock/main.go b/plugins/tree/fail2lock/main.go
index cf88800..6b5ae04 100644
--- a/plugins/tree/fail2lock/main.go
+++ b/plugins/tree/fail2lock/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"os"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/golang/protobuf/proto"
@@ -46,7 +47,7 @@ func main() {
 		"allowed_fails", viper.GetInt("plugin.fail2lock.allowed_fails"),
 		"interval", viper.GetDuration("plugin.fail2lock.interval"))
 
-	tree.PluginMain(fail2lock{
+	tree.PluginMain(&fail2lock{
 		NullPlugin: tree.NullPlugin{},
 		failDB:     make(map[string][]time.Time),
 	})
@@ -55,6 +56,8 @@ func main() {
 type fail2lock struct {
 	tree.NullPlugin
 
+	// mu guards failDB, as requests are handled concurrently.
+	mu     sync.Mutex
 	failDB map[string][]time.Time
 }
 
@@ -62,7 +65,10 @@ type fail2lock struct {
 // for auth.  Assuming it finds more than the configured amount, it
 // will lock the entity and return which will cause an authentication
 // failure.
-func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
+func (f *fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
+	f.mu.Lock()
+	defer f.mu.Unlock()
+
 	flags := util.PatchKeyValueSlice(e.GetMeta().GetUntypedMeta(), "READ", "fail2lock", "")
 
 	if len(flags) == 1 && strings.Split(flags[0], ":")[1] == "RESET" {
@@ -99,7 +105,10 @@ func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
 // PostAuthCheck is only run if the authentication has succeeded.  In
 // this case we will remove the fail2lock key from the entity's
 // metadata since they have successfully authenticated.
-func (f fail2lock) PostAuthCheck(e, de pb.Entity) (pb.Entity, error) {
+func (f *fail2lock) PostAuthCheck(e, de pb.Entity) (pb.Entity, error) {
+	f.mu.Lock()
+	defer f.mu.Unlock()
+
 	delete(f.failDB, e.GetID())
 	return e, nil
 }
-- 
2.43.0


From 58154eb1bc7c115b3cf050f9d1a6263031895ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:48 +0000
Subject: [PATCH 36/51] fix: a pending fail2lock reset must apply only once

The marker is stored until the next successful login.  Until then every
attempt reset the failures, so that there was no limit to them.
---
 plugins/tree/fail2lock/main.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/plugins/tree/fail2lock/main.go b/plugins/tree/fail2lock/main.go
index 6b5ae04..29875f2 100644
--- a/plugins/tree/fail2lock/main.go
+++ b/plugins/tree/fail2lock/main.go
@@ -50,15 +50,20 @@ func main() {
 	tree.PluginMain(&fail2lock{
 		NullPlugin: tree.NullPlugin{},
 		failDB:     make(map[string][]time.Time),
+		resets:     make(map[string]bool),
 	})
 }
 
 type fail2lock struct {
 	tree.NullPlugin
 
-	// mu guards failDB, as requests are handled concurrently.
+	// mu guards the maps below, as requests are handled concurrently.
 	mu     sync.Mutex
 	failDB map[string][]time.Time
+
+	// resets notes the entities whose pending RESET marker was
+	// already acted upon.
+	resets map[string]bool
 }
 
 // PreAuthCheck runs first and checks for a number of failed markers
@@ -71,10 +76,15 @@ func (f *fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
 
 	flags := util.PatchKeyValueSlice(e.GetMeta().GetUntypedMeta(), "READ", "fail2lock", "")
 
-	if len(flags) == 1 && strings.Split(flags[0], ":")[1] == "RESET" {
-		delete(f.failDB, e.GetID())
+	if len(flags) == 1 && strings.HasSuffix(flags[0], ":RESET") {
+		// The marker is only gone once a login has succeeded,
+		// so it must not reset the failures of every attempt
+		// until then.
+		if !f.resets[e.GetID()] {
+			delete(f.failDB, e.GetID())
+			f.resets[e.GetID()] = true
+		}
 		e.Meta.UntypedMeta = util.PatchKeyValueSlice(e.Meta.UntypedMeta, "CLEARFUZZY", "fail2lock", "")
-		return e, nil
 	}
 
 	inIntervalFails := 0
@@ -102,6 +112,16 @@ func (f *fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
 	return e, nil
 }
 
+// EntityUpdate runs when the metadata of an entity changes, which is
+// how a reset is requested.
+func (f *fail2lock) EntityUpdate(e pb.Entity) (pb.Entity, error) {
+	f.mu.Lock()
+	defer f.mu.Unlock()
+
+	delete(f.resets, e.GetID())
+	return e, nil
+}
+
 // PostAuthCheck is only run if the authentication has succeeded.  In
 // this case we will remove the fail2lock key from the entity's
 // metadata since they have successfully authenticated.
@@ -110,5 +130,6 @@ func (f *fail2lock) PostAuthCheck(e, de pb.Entity) (pb.Entity, error) {
 	defer f.mu.Unlock()
 
 	delete(f.failDB, e.GetID())
+	delete(f.resets, e.GetID())
 	return e, nil
 }
-- 
2.43.0


From 234b9b77862225d9c4177a892467b7f83726fe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:20 +0000
Subject: [PATCH 37/51] fix: a token must not name another entity

Invalid UTF-8 in an entity's name is replaced when claims are encoded, so
that the token of such an entity was valid for a different one.
---
 internal/token/jwt/rsa.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/token/jwt/rsa.go b/internal/token/jwt/rsa.go
index 193ef19..3f987e6 100644
--- a/internal/token/jwt/rsa.go
+++ b/internal/token/jwt/rsa.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"unicode/utf8"
 
 	"github.com/hashicorp/go-hclog"
 	"github.com/spf13/viper"
@@ -62,6 +63,12 @@ func (s *RSATokenService) Generate(claims token.Claims, config token.Config) (st
 		return "", token.ErrKeyUnavailable
 	}
 
+	if !utf8.ValidString(claims.EntityID) {
+		// Text that isn't UTF-8 is altered by the encoding, so
+		// the token would name a different entity.
+		return "", token.ErrInternalError
+	}
+
 	c := RSAToken{
 		claims,
 		jwt.StandardClaims{
-- 
2.43.0


From 14a20f691c6e77de233d9c8964cf2e327d20d735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:44 +0000
Subject: [PATCH 38/51] fix: an unreadable group must not appear as an empty
 entry in a membership listing

---
 internal/rpc2/entity.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/internal/rpc2/entity.go b/internal/rpc2/entity.go
index 736d037..27174b0 100644
--- a/internal/rpc2/entity.go
+++ b/internal/rpc2/entity.go
@@ -585,13 +585,25 @@ func (s *Server) EntityGroups(ctx context.Context, r *pb.EntityRequest) (*pb.Lis
 
 	groups := s.GetMemberships(ent)
 
-	out := make([]*types.Group, len(groups))
+	out := make([]*types.Group, 0, len(groups))
 	for i := range groups {
-		// We throw this error out here, as its logged at a
-		// lower level, and the side effect here is that only
-		// a partial result gets returned.
-		tmp, _ := s.FetchGroup(groups[i])
-		out[i] = tmp
+		tmp, err := s.FetchGroup(groups[i])
+		switch err {
+		case nil:
+			out = append(out, tmp)
+		case db.ErrUnknownGroup:
+			// The group went away after the memberships
+			// were resolved.
+		default:
+			s.log.Warn("Error getting groups for entity",
+				"entity", e.GetID(),
+				"group", groups[i],
+				"service", getServiceName(ctx),
+				"client", getClientName(ctx),
+				"error", err,
+			)
+			return &pb.ListOfGroups{}, ErrInternal
+		}
 	}
 
 	return &pb.ListOfGroups{Groups: out}, nil
-- 
2.43.0


From 84a18d3dacb5223985d1519c715c1f23e68b4058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:36 +0000
Subject: [PATCH 39/51] fix: listing the members of a group that does not exist
 or cannot be read must fail

---
 internal/rpc2/group.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/rpc2/group.go b/internal/rpc2/group.go
index a90e39a..bd97a2a 100644
--- a/internal/rpc2/group.go
+++ b/internal/rpc2/group.go
@@ -492,7 +492,11 @@ func (s *Server) GroupDestroy(ctx context.Context, r *pb.GroupRequest) (*pb.Empt
 func (s *Server) GroupMembers(ctx context.Context, r *pb.GroupRequest) (*pb.ListOfEntities, error) {
 	g := r.GetGroup()
 
-	members, err := s.ListMembers(g.GetName())
+	var members []*types.Entity
+	_, err := s.FetchGroup(g.GetName())
+	if err == nil {
+		members, err = s.ListMembers(g.GetName())
+	}
 	switch err {
 	case db.ErrUnknownGroup:
 		s.log.Warn("Group does not exist!",
-- 
2.43.0


From 6d885030d179079348e2c01eacd5332ca3c0b9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:55 +0000
Subject: [PATCH 40/51] fix: an unreadable group must not lift the exclusions
 that name it

---
 internal/mresolver/memberships.go | 48 +++++++++++++++++++++++++++++++
 internal/mresolver/resolver.go    |  1 +
 internal/mresolver/type.go        |  1 +
 internal/tree/group.go            |  5 +++-
 internal/tree/membership.go       |  6 ++++
 5 files changed, 60 insertions(+), 1 deletion(-)

diff --git a/internal/mresolver/memberships.go b/internal/mresolver/memberships.go
index 4bf3917..ac1a293 100644
--- a/internal/mresolver/memberships.go
+++ b/internal/mresolver/memberships.go
@@ -38,10 +38,14 @@ func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
 
 	mr.gMutex.Lock()
 	mr.atom.gc[group] = &g
+	delete(mr.atom.gf, group)
 	// Groups that don't exist, or aren't known yet, have no members
 	// to contribute.
 	for _, names := range [][]string{include, exclude} {
 		for _, gn := range names {
+			if _, failed := mr.atom.gf[gn]; failed {
+				continue
+			}
 			if _, ok := mr.atom.gc[gn]; !ok {
 				mr.atom.gt[gn] = emptyGroup(gn)
 			}
@@ -111,6 +115,7 @@ func (mr *MResolver) resolveChanges(group string) {
 func (mr *MResolver) RemoveGroup(group string) {
 	mr.gMutex.Lock()
 	delete(mr.atom.gc, group)
+	delete(mr.atom.gf, group)
 	delete(mr.atom.gr, group)
 	delete(mr.atom.gt, group)
 
@@ -136,6 +141,47 @@ func (mr *MResolver) RemoveGroup(group string) {
 	}
 }
 
+// FailGroup notes that a group exists but its rules are not known.
+// Until they are synced, neither this group nor any that depends on it
+// can be resolved, and so none of them has members.
+func (mr *MResolver) FailGroup(group string) {
+	mr.gMutex.Lock()
+	delete(mr.atom.gc, group)
+	mr.atom.gf[group] = struct{}{}
+	affected := make([]string, 0, len(mr.atom.ga[group]))
+	for g := range mr.atom.ga[group] {
+		affected = append(affected, g)
+	}
+	mr.gMutex.Unlock()
+	mr.unresolve(group)
+
+	for _, g := range affected {
+		mr.resolveChanges(g)
+	}
+}
+
+// Unresolvable returns true if the named group is known to exist, but
+// its members cannot be determined.
+func (mr *MResolver) Unresolvable(group string) bool {
+	mr.gMutex.RLock()
+	defer mr.gMutex.RUnlock()
+	if _, failed := mr.atom.gf[group]; failed {
+		return true
+	}
+	_, known := mr.atom.gc[group]
+	_, resolved := mr.atom.gr[group]
+	return known && !resolved
+}
+
+// unresolve drops the resolution of a group.
+func (mr *MResolver) unresolve(group string) {
+	mr.gMutex.Lock()
+	delete(mr.atom.gr, group)
+	delete(mr.atom.gt, group)
+	mr.atom.gs.Del(group)
+	mr.gMutex.Unlock()
+}
+
 // Resolve flattens out the membership tree and associated subtrees
 // for any group into a boolean expression of arbitrary complexity.
 // This expression can later be used to determine if an entity
@@ -174,6 +220,7 @@ func (mr *MResolver) Resolve(group string) error {
 			// potentially deadlock if another thread is
 			// reading and trying to resolve.
 			if err := mr.Resolve(gn); err != nil {
+				mr.unresolve(group)
 				return err
 			}
 			mr.gMutex.RLock()
@@ -203,6 +250,7 @@ func (mr *MResolver) Resolve(group string) error {
 			// potentially deadlock if another thread is
 			// reading and trying to resolve.
 			if err := mr.Resolve(gn); err != nil {
+				mr.unresolve(group)
 				return err
 			}
 			mr.gMutex.RLock()
diff --git a/internal/mresolver/resolver.go b/internal/mresolver/resolver.go
index 95416e6..efd23e2 100644
--- a/internal/mresolver/resolver.go
+++ b/internal/mresolver/resolver.go
@@ -13,6 +13,7 @@ func New() *MResolver {
 		atom: resolverAtom{
 			dm: make(map[string]bsfilter.ValueSet),
 			gc: make(map[string]*resolvableGroup),
+			gf: make(map[string]struct{}),
 			gr: make(map[string]*bsfilter.Expression),
 			gt: make(map[string][]bsfilter.Symbol),
 			ga: make(map[string]map[string]struct{}),
diff --git a/internal/mresolver/type.go b/internal/mresolver/type.go
index 2f56c6e..881edc1 100644
--- a/internal/mresolver/type.go
+++ b/internal/mresolver/type.go
@@ -23,6 +23,7 @@ type MResolver struct {
 type resolverAtom struct {
 	dm map[string]bsfilter.ValueSet    // Cache of direct memberships
 	gc map[string]*resolvableGroup     // Cache of groups and rules
+	gf map[string]struct{}             // Groups whose rules could not be loaded
 	gr map[string]*bsfilter.Expression // Resolved expressions
 	gt map[string][]bsfilter.Symbol    // Cache of subexpressions
 	ga map[string]map[string]struct{}  // Cache of groups that are affected by the key group
diff --git a/internal/tree/group.go b/internal/tree/group.go
index 589d4a4..f0d680b 100644
--- a/internal/tree/group.go
+++ b/internal/tree/group.go
@@ -222,7 +222,10 @@ func (m *Manager) groupResolverCallback(e db.Event) {
 	case db.EventGroupUpdate:
 		grp, err := m.db.LoadGroup(e.PK)
 		if err != nil {
-			m.log.Warn("Unchecked load error in groupResolverCallback", "error", err)
+			m.log.Warn("Load error in groupResolverCallback", "error", err)
+			if err != db.ErrUnknownGroup {
+				m.resolver.FailGroup(e.PK)
+			}
 			return
 		}
 		exps := make(map[string][]string, 2)
diff --git a/internal/tree/membership.go b/internal/tree/membership.go
index 233ed8b..a01517a 100644
--- a/internal/tree/membership.go
+++ b/internal/tree/membership.go
@@ -3,6 +3,8 @@ package tree
 import (
 	"fmt"
 
+	"github.com/netauth/netauth/internal/db"
+
 	pb "github.com/netauth/protocol"
 	rpc "github.com/netauth/protocol/v2"
 )
@@ -45,6 +47,10 @@ func (m *Manager) GetMemberships(e *pb.Entity) []string {
 // ListMembers fetches the members of a single group and redacts
 // authentication data.
 func (m *Manager) ListMembers(groupID string) ([]*pb.Entity, error) {
+	if m.resolver.Unresolvable(groupID) {
+		m.log.Warn("Unable to resolve group", "group", groupID)
+		return nil, db.ErrInternalError
+	}
 	eIDs := m.resolver.MembersOfGroup(groupID)
 	m.log.Trace("Resolved Entities", "group", groupID, "entities", eIDs)
 
-- 
2.43.0


From 4269665d4916f8130feaeab170f17afd72486223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:08 +0000
Subject: [PATCH 41/51] fix: don't accept secrets that bcrypt cannot tell apart
 from others

---
 internal/crypto/bcrypt/bcrypt.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internal/crypto/bcrypt/bcrypt.go b/internal/crypto/bcrypt/bcrypt.go
index 37ee50b..204064e 100644
--- a/internal/crypto/bcrypt/bcrypt.go
+++ b/internal/crypto/bcrypt/bcrypt.go
@@ -1,6 +1,8 @@
 package bcrypt
 
 import (
+	"strings"
+
 	"github.com/hashicorp/go-hclog"
 	"github.com/spf13/pflag"
 	"github.com/spf13/viper"
@@ -37,9 +39,20 @@ func New(l hclog.Logger) (crypto.EMCrypto, error) {
 	return x, nil
 }
 
+// distinguishable reports whether bcrypt tells a secret apart from all
+// others.  It ignores what follows the first 72 bytes, and repeats what
+// is shorter after a NUL byte.
+func distinguishable(secret string) bool {
+	return len(secret) <= 72 && !strings.Contains(secret, "\x00")
+}
+
 // SecureSecret takes in a secret and generates a bcrypt hash from it.
 // This is then returned for storage in the database.
 func (b *Engine) SecureSecret(secret string) (string, error) {
+	if !distinguishable(secret) {
+		b.l.Debug("Refusing secret that is too long or contains NUL bytes")
+		return "", crypto.ErrInternalError
+	}
 	hash, err := bcrypt.GenerateFromPassword([]byte(secret), b.cost)
 	if err != nil {
 		b.l.Debug("Bcrypt Error has occurred", "error", err)
@@ -52,6 +65,10 @@ func (b *Engine) SecureSecret(secret string) (string, error) {
 // returns either nil for a match or a crypto.ErrAuthorizationFailure
 // in the case that the secret did not match the stored one.
 func (b *Engine) VerifySecret(secret, hash string) error {
+	if !distinguishable(secret) {
+		b.l.Debug("Secret is too long or contains NUL bytes")
+		return crypto.ErrAuthorizationFailure
+	}
 	err := bcrypt.CompareHashAndPassword([]byte(hash), []byte(secret))
 	if err != nil {
 		b.l.Debug("Bcrypt Error has occurred", "error", err)
-- 
2.43.0


From 6b63b83c899d9d9fa128b7efd5afa7055f15f97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:05 +0000
Subject: [PATCH 42/51] fix: accept the modes and capabilities that the
 command's own check accepts

---
 internal/ctl/system-capabilities.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ctl/system-capabilities.go b/internal/ctl/system-capabilities.go
index 8b98082..d1aa148 100644
--- a/internal/ctl/system-capabilities.go
+++ b/internal/ctl/system-capabilities.go
@@ -99,7 +99,7 @@ func systemCapabilityArgs(cmd *cobra.Command, args []string) error {
 func systemCapabilitiesRun(cmd *cobra.Command, args []string) {
 	ctx = netauth.Authorize(ctx, token())
 
-	if err := rpc.SystemCapabilities(ctx, args[0], args[1], args[2], direct); err != nil {
+	if err := rpc.SystemCapabilities(ctx, args[0], strings.ToUpper(args[1]), strings.ToUpper(args[2]), direct); err != nil {
 		fmt.Println(err)
 		os.Exit(1)
 	}
-- 
2.43.0


From 2c8dac404bcf3b4d2de2130f76c050132f33422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:05 +0000
Subject: [PATCH 43/51] fix: don't use the secret of the request as the new
 secret of another

---
 internal/ctl/auth-changesecret.go | 4 ++--
 internal/ctl/entity-create.go     | 2 +-
 internal/ctl/helpers.go           | 6 ++++++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/ctl/auth-changesecret.go b/internal/ctl/auth-changesecret.go
index 0640b44..5769cbe 100644
--- a/internal/ctl/auth-changesecret.go
+++ b/internal/ctl/auth-changesecret.go
@@ -60,8 +60,8 @@ func authChangeSecretRun(cmd *cobra.Command, args []string) {
 
 	// Get the secret if it wasn't specified on the line
 	if csSecret == "" {
-		one := getSecret("New Secret: ")
-		two := getSecret("Verify Secret: ")
+		one := promptSecret("New Secret: ")
+		two := promptSecret("Verify Secret: ")
 
 		if one != two {
 			fmt.Println("Secrets do not match!")
diff --git a/internal/ctl/entity-create.go b/internal/ctl/entity-create.go
index 516f249..88e57ea 100644
--- a/internal/ctl/entity-create.go
+++ b/internal/ctl/entity-create.go
@@ -53,7 +53,7 @@ func init() {
 func entityCreateRun(cmd *cobra.Command, args []string) {
 	newEntityID = args[0]
 	if newSecret == "" {
-		newSecret = getSecret(fmt.Sprintf("Initial Secret for %s: ", newEntityID))
+		newSecret = promptSecret(fmt.Sprintf("Initial Secret for %s: ", newEntityID))
 	}
 
 	ctx = netauth.Authorize(ctx, token())
diff --git a/internal/ctl/helpers.go b/internal/ctl/helpers.go
index 7f7868d..0f1da48 100644
--- a/internal/ctl/helpers.go
+++ b/internal/ctl/helpers.go
@@ -23,6 +23,12 @@ func getSecret(prompt string) string {
 	if viper.GetString("secret") != "" {
 		return viper.GetString("secret")
 	}
+	return promptSecret(prompt)
+}
+
+// promptSecret always prompts, for secrets other than the one that the
+// request is made with.
+func promptSecret(prompt string) string {
 	secret, err := speakeasy.Ask(prompt)
 	if err != nil {
 		fmt.Printf("Error: %s", err)
-- 
2.43.0


From f29d8560e512d676078f207c263138e11ec8bb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:05 +0000
Subject: [PATCH 44/51] fix: an empty initial secret can be asked for

---
 internal/ctl/entity-create.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ctl/entity-create.go b/internal/ctl/entity-create.go
index 88e57ea..9ec060a 100644
--- a/internal/ctl/entity-create.go
+++ b/internal/ctl/entity-create.go
@@ -52,7 +52,7 @@ func init() {
 
 func entityCreateRun(cmd *cobra.Command, args []string) {
 	newEntityID = args[0]
-	if newSecret == "" {
+	if !cmd.Flags().Changed("initial-secret") {
 		newSecret = promptSecret(fmt.Sprintf("Initial Secret for %s: ", newEntityID))
 	}
 
-- 
2.43.0


From 945657eba55fe7b18ec336428a9f43963878e61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:05 +0000
Subject: [PATCH 45/51] fix: don't go on without the secret when it can't be
 read

---
 internal/ctl/helpers.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/ctl/helpers.go b/internal/ctl/helpers.go
index 0f1da48..7d9cf58 100644
--- a/internal/ctl/helpers.go
+++ b/internal/ctl/helpers.go
@@ -31,7 +31,8 @@ func getSecret(prompt string) string {
 func promptSecret(prompt string) string {
 	secret, err := speakeasy.Ask(prompt)
 	if err != nil {
-		fmt.Printf("Error: %s", err)
+		fmt.Fprintf(os.Stderr, "Error: %s\n", err)
+		os.Exit(1)
 	}
 	return secret
 }
-- 
2.43.0


From 997a7a5c9805147bf4b7ce107bf1a4407fcfd3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:05 +0000
Subject: [PATCH 46/51] fix: report commands that are not understood by the
 exit status

---
 internal/ctl/root.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ctl/root.go b/internal/ctl/root.go
index 2fdbafd..c61b6bc 100644
--- a/internal/ctl/root.go
+++ b/internal/ctl/root.go
@@ -78,6 +78,7 @@ func onInit() {
 func Execute() {
 	if err := rootCmd.Execute(); err != nil {
 		fmt.Println(err)
+		os.Exit(1)
 	}
 }
 
-- 
2.43.0


From 53e3f9d5d2fb08302d17c5aedcd9d2edc48773fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:05 +0000
Subject: [PATCH 47/51] fix: a client without the key to check tokens must not
 crash

---
 pkg/netauth/netauth.go |  1 +
 pkg/netauth/type.go    | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/pkg/netauth/netauth.go b/pkg/netauth/netauth.go
index fa23b96..dc4ad9d 100644
--- a/pkg/netauth/netauth.go
+++ b/pkg/netauth/netauth.go
@@ -64,6 +64,7 @@ func NewWithLog(l hclog.Logger) (*Client, error) {
 	ts, err := token.New(viper.GetString("token.backend"))
 	if err != nil {
 		l.Warn("Token service initialization error", "error", err)
+		ts = noTokens{}
 	}
 
 	hn, err := os.Hostname()
diff --git a/pkg/netauth/type.go b/pkg/netauth/type.go
index c5fbb80..f0e7891 100644
--- a/pkg/netauth/type.go
+++ b/pkg/netauth/type.go
@@ -25,3 +25,17 @@ type Client struct {
 
 	writeable bool
 }
+
+// noTokens stands in for the token service when none could be
+// initialized, so that no token can be generated or validated.
+type noTokens struct{}
+
+// Generate always fails.
+func (noTokens) Generate(token.Claims, token.Config) (string, error) {
+	return "", token.ErrKeyUnavailable
+}
+
+// Validate always fails.
+func (noTokens) Validate(string) (token.Claims, error) {
+	return token.Claims{}, token.ErrKeyUnavailable
+}
-- 
2.43.0


From bdf78f84aaccb91775b2bc5a1d762fee497c7e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:49 +0000
Subject: [PATCH 48/51] fix: a read of an indexed key by the client must return
 its values

---
 pkg/netauth/entity.go | 2 +-
 pkg/netauth/group.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/netauth/entity.go b/pkg/netauth/entity.go
index edb812e..d2d6a97 100644
--- a/pkg/netauth/entity.go
+++ b/pkg/netauth/entity.go
@@ -125,7 +125,7 @@ func (c *Client) EntityUM(ctx context.Context, target, action, key, value string
 		if key != "*" {
 			// Asked for a specific key, fish it out and
 			// return a much sparser map.
-			return map[string][]string{key: kv[key]}, nil
+			return map[string][]string{key: kv[kvIndexRegexp.ReplaceAllString(key, "")]}, nil
 		}
 		// Key was *, return everything
 		return kv, nil
diff --git a/pkg/netauth/group.go b/pkg/netauth/group.go
index c19724b..bfd5806 100644
--- a/pkg/netauth/group.go
+++ b/pkg/netauth/group.go
@@ -120,7 +120,7 @@ func (c *Client) GroupUM(ctx context.Context, target, action, key, value string)
 		if key != "*" {
 			// Asked for a specific key, fish it out and
 			// return a much sparser map.
-			return map[string][]string{key: kv[key]}, nil
+			return map[string][]string{key: kv[kvIndexRegexp.ReplaceAllString(key, "")]}, nil
 		}
 		// Key was *, return everything
 		return kv, nil
-- 
2.43.0


From 540c9920c34ba366c569500fcc738f6b33c7f356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:49 +0000
Subject: [PATCH 49/51] fix: the client must find keys of a type given in lower
 case

---
 pkg/netauth/entity.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/netauth/entity.go b/pkg/netauth/entity.go
index d2d6a97..0e5fe97 100644
--- a/pkg/netauth/entity.go
+++ b/pkg/netauth/entity.go
@@ -272,7 +272,7 @@ func (c *Client) EntityKeys(ctx context.Context, id, action, ktype, key string)
 		if ktype != "*" {
 			// Asked for a specific key, fish it out and
 			// return a much sparser map.
-			return map[string][]string{ktype: kv[ktype]}, nil
+			return map[string][]string{ktype: kv[strings.ToUpper(ktype)]}, nil
 		}
 		return kv, nil
 	}
-- 
2.43.0


From e08ec9a3e00e303ca88b95f36f396b2064fd297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:21 +0000
Subject: [PATCH 50/51] fix: the in-memory store must not write stored values
 to the log

The values are encoded entities, which hold the secured secrets.
---
 internal/db/memory/memory.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/db/memory/memory.go b/internal/db/memory/memory.go
index ea0ea87..f8b7e9e 100644
--- a/internal/db/memory/memory.go
+++ b/internal/db/memory/memory.go
@@ -54,7 +54,7 @@ func (kv *KV) SetEventFunc(ef func(db.Event)) {
 // Put stores a value
 func (kv *KV) Put(k string, v []byte) error {
 	kv.Lock()
-	kv.l.Trace("PUT", "key", k, "value", v)
+	kv.l.Trace("PUT", "key", k)
 	kv.m[k] = v
 	kv.Unlock()
 
@@ -82,7 +82,7 @@ func (kv *KV) Get(k string) ([]byte, error) {
 		kv.l.Trace("NoValue", "key", k)
 		return nil, db.ErrNoValue
 	}
-	kv.l.Trace("GET", "key", k, "value", v)
+	kv.l.Trace("GET", "key", k)
 	return v, nil
 }
 
-- 
2.43.0


From 711b0f73766a53bc57880db75b4d741ade378b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:20:52 +0000
Subject: [PATCH 51/51] fix: filesystem store: list keys when the data path
 contains pattern characters

---
 internal/db/filesystem/filesystem.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/db/filesystem/filesystem.go b/internal/db/filesystem/filesystem.go
index 9ab4625..87d4346 100644
--- a/internal/db/filesystem/filesystem.go
+++ b/internal/db/filesystem/filesystem.go
@@ -49,6 +49,9 @@ var (
 	// ErrPathEscape is returned if a key tries to climb up and
 	// out of a directory.
 	ErrPathEscape = errors.New("attempted path escape")
+
+	// globEscaper makes a path a pattern that matches only itself.
+	globEscaper = strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`)
 )
 
 func init() {
@@ -160,8 +163,8 @@ func (fs *Filesystem) Del(k string) error {
 // higher level.
 func (fs *Filesystem) Keys(f string) ([]string, error) {
 	// Discard error because the hard coded pattern cannot return
-	// an os.PathError
-	keys, _ := filepath.Glob(filepath.Join(fs.basePath, "*", "*"))
+	// an os.PathError.  The basePath is a name and not a pattern.
+	keys, _ := filepath.Glob(filepath.Join(globEscaper.Replace(fs.basePath), "*", "*"))
 
 	out := make([]string, len(keys))
 	i := 0
-- 
2.43.0

