From 3d49f141f7cdea2ced905f3dfdcbc4ef9e5ed305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:10 +0000
Subject: [PATCH 1/6] fix: seat the MTT player whose buy-in reaches the minimum
 player count

The buy-in that activated the regulator skipped the waiting queue, so that
player was never handed to the regulator and never got a table.
---
 competition_engine.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index a0bd264..7e5159d 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -526,11 +526,10 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 			// 開賽後且達到開賽最低人數之後，丟到拆併桌程式
 			ce.regulatorAddPlayers([]string{joinPlayer.PlayerID})
 		} else {
+			// 開賽前 or 開賽後且尚未達到開賽最低人數之前，都把玩家放到等待佇列
+			ce.waitingPlayers = append(ce.waitingPlayers, joinPlayer.PlayerID)
 			if ce.shouldActivateRegulator() {
 				ce.activateRegulator()
-			} else {
-				// 開賽前 or 開賽後且尚未達到開賽最低人數之前，都把玩家放到等待佇列
-				ce.waitingPlayers = append(ce.waitingPlayers, joinPlayer.PlayerID)
 			}
 		}
 	}
-- 
2.43.0


From b77254cd182fbeaf8ffd2c1efef028447b87f38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:10 +0000
Subject: [PATCH 2/6] fix: refresh statistics and ranks when a player is
 refunded

The refunded player stayed counted as playing, so a CT with a free seat went on
rejecting buy-ins.
---
 competition_engine.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index 7e5159d..13a8b5b 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -623,6 +623,8 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 		ce.competition.State.Players[playerIdx].TotalBuyInUnits = 0
 	}
 	ce.deletePlayer(playerIdx)
+	ce.refreshPlayerStatusStatistics()
+	ce.refreshPlayerCompetitionRanks()
 	defer ce.mu.Unlock()
 
 	// emit events
-- 
2.43.0


From 32d16f6375d2fe5c4157dcd34e1d6ae423fc6cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:11 +0000
Subject: [PATCH 3/6] fix: reject starting a competition that has already ended

A competition closed before it started could still be started: its start and end
times changed and a started event was emitted after the final state.
---
 competition_engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index 13a8b5b..f251259 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -331,7 +331,7 @@ StartCompetition 開賽
   - 適用時機: MTT 手動開賽、MTT 自動開賽、CT 開賽
 */
 func (ce *competitionEngine) StartCompetition() (int64, error) {
-	if ce.isStarted {
+	if ce.isStarted || ce.isEndStatus() {
 		return ce.competition.State.StartAt, ErrCompetitionStartRejected
 	}
 
-- 
2.43.0


From 62214cf4c8b7453fe6afbca4050468a1db28013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:11 +0000
Subject: [PATCH 4/6] fix: blind without options reports ErrBlindNoOptions
 instead of panicking

---
 blind/blind.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blind/blind.go b/blind/blind.go
index 9d3eb2c..1cd8fef 100644
--- a/blind/blind.go
+++ b/blind/blind.go
@@ -153,7 +153,7 @@ func (b *blind) End() {
 }
 
 func (b *blind) IsStarted() bool {
-	return b.bs.IsActive()
+	return b.bs != nil && b.bs.IsActive()
 }
 
 func (b *blind) updateLevel(endAt int64) {
-- 
2.43.0


From 63263fa522060d659ca923bc1f7c72e82ca9b83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:12 +0000
Subject: [PATCH 5/6] fix: native backend forwards the ready-to-open-first-game
 event

The handler registered with OnReadyOpenFirstTableGame was never called, so the
first hand of a table was never set up.
---
 native_table_manager_backend.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/native_table_manager_backend.go b/native_table_manager_backend.go
index 87669c0..f2ea020 100644
--- a/native_table_manager_backend.go
+++ b/native_table_manager_backend.go
@@ -92,6 +92,21 @@ func (ntmb *nativeTableManagerBackend) CreateTable(options *pokertable.TableEngi
 		ntmb.onTablePlayerReserved(tableID, &clonePlayerState)
 	}
 
+	callbacks.OnReadyOpenFirstTableGame = func(competitionID, tableID string, gameCount int, playerStates []*pokertable.TablePlayerState) {
+		data, err := json.Marshal(playerStates)
+		if err != nil {
+			return
+		}
+
+		var clonePlayerStates []*pokertable.TablePlayerState
+		err = json.Unmarshal([]byte(data), &clonePlayerStates)
+		if err != nil {
+			return
+		}
+
+		ntmb.onReadyOpenFirstTableGame(tableID, gameCount, clonePlayerStates)
+	}
+
 	table, err := ntmb.manager.CreateTable(options, callbacks, setting)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 59096def00a1c4ef21ae92bd127b1ed3f6798e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:38 +0000
Subject: [PATCH 6/6] fix: starting the blind at a level that does not exist is
 an error, not a panic

With an initial level missing from the structure the current level index stayed
-1 and Start indexed the end times with it.
---
 blind/blind.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/blind/blind.go b/blind/blind.go
index 1cd8fef..a00df23 100644
--- a/blind/blind.go
+++ b/blind/blind.go
@@ -13,6 +13,7 @@ var (
 	ErrBlindNoOptions      = errors.New("blind: options not available")
 	ErrBlindNoState        = errors.New("blind: state not available")
 	ErrBlindAlreadyStarted = errors.New("blind: already started")
+	ErrBlindLevelNotFound  = errors.New("blind: initial level not found")
 )
 
 type Blind interface {
@@ -113,15 +114,20 @@ func (b *blind) Start() (*BlindState, error) {
 		return nil, ErrBlindNoOptions
 	}
 
-	startAt := time.Now()
-	b.bs.StartedAt = startAt.Unix()
-	b.isEnd = false
-
+	initialLevelIndex := UnsetValue
 	for idx, bl := range b.bs.Meta.Levels {
 		if bl.Level == b.bs.Meta.InitialLevel {
-			b.bs.Status.CurrentLevelIndex = idx
+			initialLevelIndex = idx
 		}
 	}
+	if initialLevelIndex == UnsetValue {
+		return nil, ErrBlindLevelNotFound
+	}
+
+	startAt := time.Now()
+	b.bs.StartedAt = startAt.Unix()
+	b.isEnd = false
+	b.bs.Status.CurrentLevelIndex = initialLevelIndex
 
 	for i := (b.bs.Status.CurrentLevelIndex); i < len(b.bs.Meta.Levels); i++ {
 		if i == b.bs.Status.CurrentLevelIndex {
-- 
2.43.0

