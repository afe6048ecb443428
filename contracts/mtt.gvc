package pokercompetition

## ---- table balancing of multi-table tournaments
def SYNC := "Regulator.SyncState"
def RELP := "Regulator.ReleasePlayers"
def synced(ce) := callret(SYNC, old(nc(SYNC)), 2) == nil
def newcomer(ce, q, i) := inlist(P(ce,i).PlayerID, callret(SYNC, q, 1)) && P(ce,i).Chips > 0
def nRel(t, q) := ite(callret(SYNC, q, 0) <= 0, 0, ite(callret(SYNC, q, 0) < len(t.State.NextBBOrderPlayerIDs), callret(SYNC, q, 0), len(t.State.NextBBOrderPlayerIDs)))
def released(ce, t, q, id) := exists(a, 0, nRel(t, q), t.State.NextBBOrderPlayerIDs[a] == id)
def movedAt(ce) := nc(UPPLAYERS) > old(nc(UPPLAYERS)) && callret(UPPLAYERS, old(nc(UPPLAYERS)), 1) == nil
def seatedNow(ce, i) := movedAt(ce) && newcomer(ce, old(nc(SYNC)), i) && has(callret(UPPLAYERS, old(nc(UPPLAYERS)), 0), P(ce,i).PlayerID)
def JOIN(ce, a) := callarg(UPPLAYERS, old(nc(UPPLAYERS)), 1)[a]
def nJoin(ce) := len(callarg(UPPLAYERS, old(nc(UPPLAYERS)), 1))
def leftAt(t, ce) := ite(movedAt(ce), len(callret(UPPLAYERS, old(nc(UPPLAYERS)), 0)), len(t.State.PlayerStates))
func (*competitionEngine).handleMTTTableSettlementNextStep (ce, table, aliveIDs, zeroIDs) ()
boundedonly the proof search does not finish in the time of a check
props P18
modular
requires wf(ce) && ce.regulator != nil && wfTab(table)
ensures "balancing is told how many are out": nc(SYNC) == old(nc(SYNC)) + 1 && callarg(SYNC, old(nc(SYNC)), 0) == table.ID && callarg(SYNC, old(nc(SYNC)), 1) == len(zeroIDs)
ensures "a refusal changes nothing": !synced(ce) ==> nc(UPPLAYERS) == old(nc(UPPLAYERS)) && nc(CLOSET) == old(nc(CLOSET)) && nc(RELP) == old(nc(RELP)) && nc(EVP) == old(nc(EVP)) && nc(EVE) == old(nc(EVE)) + 1 && forall(i, 0, nP(ce), unchanged(P(ce,i)))
ensures "the table is asked once and only when somebody moves": synced(ce) ==> nc(UPPLAYERS) == old(nc(UPPLAYERS)) + ite(nRel(table, old(nc(SYNC))) + len(zeroIDs) > 0 || exists(i, 0, nP(ce), newcomer(ce, old(nc(SYNC)), i)), 1, 0)
ensures "released and broke players leave": nc(UPPLAYERS) > old(nc(UPPLAYERS)) ==> callarg(UPPLAYERS, old(nc(UPPLAYERS)), 0) == table.ID && len(callarg(UPPLAYERS, old(nc(UPPLAYERS)), 2)) == nRel(table, old(nc(SYNC))) + len(zeroIDs)
ensures "the next big blinds are released": nc(UPPLAYERS) > old(nc(UPPLAYERS)) ==> forall(a, 0, nRel(table, old(nc(SYNC))), callarg(UPPLAYERS, old(nc(UPPLAYERS)), 2)[a] == table.State.NextBBOrderPlayerIDs[a])
ensures "everybody without chips leaves": nc(UPPLAYERS) > old(nc(UPPLAYERS)) ==> forall(a, 0, len(zeroIDs), callarg(UPPLAYERS, old(nc(UPPLAYERS)), 2)[nRel(table, old(nc(SYNC))) + a] == zeroIDs[a])
ensures "newcomers bring exactly their chips": nc(UPPLAYERS) > old(nc(UPPLAYERS)) ==> forall(a, 0, nJoin(ce), JOIN(ce,a).Seat == -1 && exists(i, 0, nP(ce), newcomer(ce, old(nc(SYNC)), i) && P(ce,i).PlayerID == JOIN(ce,a).PlayerID && P(ce,i).Chips == JOIN(ce,a).RedeemChips))
ensures "every newcomer with chips joins": nc(UPPLAYERS) > old(nc(UPPLAYERS)) ==> forall(i, 0, nP(ce), newcomer(ce, old(nc(SYNC)), i) ==> exists(a, 0, nJoin(ce), JOIN(ce,a).PlayerID == P(ce,i).PlayerID))
ensures "released players wait for a table": movedAt(ce) ==> forall(i, 0, nP(ce), released(ce, table, old(nc(SYNC)), P(ce,i).PlayerID) && !seatedNow(ce, i) ==> P(ce,i).CurrentTableID == "" && P(ce,i).CurrentSeat == UnsetValue && P(ce,i).Status == CompetitionPlayerStatus_WaitingTableBalancing)
ensures "newcomers take the seats they were given": forall(i, 0, nP(ce), seatedNow(ce, i) ==> P(ce,i).CurrentTableID == table.ID && P(ce,i).Status == CompetitionPlayerStatus_Playing && P(ce,i).CurrentSeat == callret(UPPLAYERS, old(nc(UPPLAYERS)), 0)[P(ce,i).PlayerID])
ensures "nobody else moves": forall(i, 0, nP(ce), !seatedNow(ce, i) && !(movedAt(ce) && released(ce, table, old(nc(SYNC)), P(ce,i).PlayerID)) ==> unchanged(P(ce,i)))
ensures "chips stay": forall(i, 0, nP(ce), unchangedExcept(P(ce,i), "CurrentTableID", "CurrentSeat", "Status"))
ensures "balancing gets the released players": nc(RELP) == old(nc(RELP)) + ite(movedAt(ce) && nRel(table, old(nc(SYNC))) > 0, 1, 0) && (nc(RELP) > old(nc(RELP)) ==> callarg(RELP, old(nc(RELP)), 0) == table.ID && len(callarg(RELP, old(nc(RELP)), 1)) == nRel(table, old(nc(SYNC))) && forall(a, 0, nRel(table, old(nc(SYNC))), callarg(RELP, old(nc(RELP)), 1)[a] == table.State.NextBBOrderPlayerIDs[a]))
ensures "an empty table is closed": synced(ce) ==> nc(CLOSET) == old(nc(CLOSET)) + ite(leftAt(table, ce) <= 0, 1, 0) && (nc(CLOSET) > old(nc(CLOSET)) ==> callarg(CLOSET, old(nc(CLOSET)), 0) == table.ID)
ensures "a failure of the table is reported": synced(ce) && nc(UPPLAYERS) > old(nc(UPPLAYERS)) && !movedAt(ce) ==> nc(EVE) > old(nc(EVE))
ensures wf(ce)
modifies CompetitionPlayer.CurrentTableID, CompetitionPlayer.CurrentSeat, CompetitionPlayer.Status, log
loopinv @0 len(?r:[]string) == $k
loopinv @0 forall(a, 0, $k, (?r:[]string)[a] == table.State.NextBBOrderPlayerIDs[a])
loopinv @0 $k <= ite(callret(SYNC, old(nc(SYNC)), 0) <= 0, 0, callret(SYNC, old(nc(SYNC)), 0))
loopinv @1 (?m:map[string]int) != nil
loopinv @1 forallv(x, string, has(?m:map[string]int, x) ==> 0 <= (?m:map[string]int)[x] && (?m:map[string]int)[x] < nP(ce) && P(ce, (?m:map[string]int)[x]).PlayerID == x && exists(a, 0, $k, (?r:[]string)[a] == x))
loopinv @1 forall(a, 0, $k, forall(i, 0, nP(ce), P(ce,i).PlayerID == (?r:[]string)[a] ==> has(?m:map[string]int, P(ce,i).PlayerID)))
loopinv @2 forallv(x, string, has(?m:map[string]int, x) ==> 0 <= (?m:map[string]int)[x] && (?m:map[string]int)[x] < nP(ce) && P(ce, (?m:map[string]int)[x]).PlayerID == x && P(ce, (?m:map[string]int)[x]).Chips > 0 && exists(a, 0, $k, callret(SYNC, old(nc(SYNC)), 1)[a] == x))
loopinv @2 forall(a, 0, $k, forall(i, 0, nP(ce), P(ce,i).PlayerID == callret(SYNC, old(nc(SYNC)), 1)[a] && P(ce,i).Chips > 0 ==> has(?m:map[string]int, P(ce,i).PlayerID)))
loopinv @2 forall(a, 0, len(?j:[]pokertable.JoinPlayer), (?j:[]pokertable.JoinPlayer)[a].Seat == -1 && exists(i, 0, nP(ce), exists(b, 0, $k, callret(SYNC, old(nc(SYNC)), 1)[b] == P(ce,i).PlayerID) && P(ce,i).Chips > 0 && P(ce,i).PlayerID == (?j:[]pokertable.JoinPlayer)[a].PlayerID && P(ce,i).Chips == (?j:[]pokertable.JoinPlayer)[a].RedeemChips))
loopinv @2 forall(b, 0, $k, forall(i, 0, nP(ce), callret(SYNC, old(nc(SYNC)), 1)[b] == P(ce,i).PlayerID && P(ce,i).Chips > 0 ==> exists(a, 0, len(?j:[]pokertable.JoinPlayer), (?j:[]pokertable.JoinPlayer)[a].PlayerID == P(ce,i).PlayerID)))
loopinv @3 forall(i, 0, nP(ce), visited(P(ce,i).PlayerID) ==> P(ce,i).CurrentTableID == "" && P(ce,i).CurrentSeat == UnsetValue && P(ce,i).Status == CompetitionPlayerStatus_WaitingTableBalancing)
loopinv @3 forall(i, 0, nP(ce), !visited(P(ce,i).PlayerID) ==> unchanged(P(ce,i)))
loopinv @3 forall(i, 0, nP(ce), unchangedExcept(P(ce,i), "CurrentTableID", "CurrentSeat", "Status"))
loopinv @4 forall(i, 0, nP(ce), visited(P(ce,i).PlayerID) && has(?m:map[string]int, P(ce,i).PlayerID) ==> P(ce,i).CurrentTableID == table.ID && P(ce,i).Status == CompetitionPlayerStatus_Playing && P(ce,i).CurrentSeat == callret(UPPLAYERS, old(nc(UPPLAYERS)), 0)[P(ce,i).PlayerID])
loopinv @4 forall(i, 0, nP(ce), !(visited(P(ce,i).PlayerID) && has(?m:map[string]int, P(ce,i).PlayerID)) && !released(ce, table, old(nc(SYNC)), P(ce,i).PlayerID) ==> unchanged(P(ce,i)))
loopinv @4 forall(i, 0, nP(ce), !(visited(P(ce,i).PlayerID) && has(?m:map[string]int, P(ce,i).PlayerID)) && released(ce, table, old(nc(SYNC)), P(ce,i).PlayerID) ==> P(ce,i).CurrentTableID == "" && P(ce,i).CurrentSeat == UnsetValue && P(ce,i).Status == CompetitionPlayerStatus_WaitingTableBalancing)
loopinv @4 forall(i, 0, nP(ce), unchangedExcept(P(ce,i), "CurrentTableID", "CurrentSeat", "Status"))

## ---- advancing to the next day
def advancing(ce) := S(ce).AdvanceState.Status == CompetitionAdvanceStatus_Updating
def withChips(ce) := count(i, 0, nP(ce), P(ce,i).Chips > 0)
def pauseDue(ce) := Meta(ce).AdvanceSetting.Rule == CompetitionAdvanceRule_BlindLevel && lvLevel(ce) >= Meta(ce).AdvanceSetting.BlindLevel || Meta(ce).AdvanceSetting.Rule == CompetitionAdvanceRule_PlayerCount && withChips(ce) < Meta(ce).AdvanceSetting.PlayerCount
def paused(ce) := old(advancing(ce) && pauseDue(ce)) && callret(PAUSET, old(nc(PAUSET)), 0) == nil
func (*competitionEngine).handleMTTTableSettlement (ce, table) (res)
boundedonly the proof search does not finish in the time of a check
props P24
modular
requires wf(ce) && ce.regulator != nil && wfTab(table)
ensures "every table counts": old(advancing(ce)) ==> S(ce).AdvanceState.TotalTables == nT(ce)
ensures "a table is paused exactly when the rule says so": nc(PAUSET) == old(nc(PAUSET)) + ite(old(advancing(ce) && pauseDue(ce)), 1, 0) && (nc(PAUSET) > old(nc(PAUSET)) ==> callarg(PAUSET, old(nc(PAUSET)), 0) == table.ID)
ensures "a paused table is counted": paused(ce) ==> S(ce).AdvanceState.UpdatedTables == old(S(ce).AdvanceState.UpdatedTables) + 1 && len(S(ce).AdvanceState.UpdatedTableIDs) == old(len(S(ce).AdvanceState.UpdatedTableIDs)) + 1 && S(ce).AdvanceState.UpdatedTableIDs[old(len(S(ce).AdvanceState.UpdatedTableIDs))] == table.ID
ensures "the round is over when every table is paused": paused(ce) ==> (res <==> S(ce).AdvanceState.UpdatedTables == S(ce).AdvanceState.TotalTables) && S(ce).AdvanceState.Status == ite(res, CompetitionAdvanceStatus_End, CompetitionAdvanceStatus_Updating)
ensures "no progress otherwise": !paused(ce) ==> S(ce).AdvanceState.UpdatedTables == old(S(ce).AdvanceState.UpdatedTables) && S(ce).AdvanceState.Status == old(S(ce).AdvanceState.Status) && sameList(S(ce).AdvanceState.UpdatedTableIDs, old(S(ce).AdvanceState.UpdatedTableIDs))
ensures [P24] "a failed pause is reported": old(advancing(ce) && pauseDue(ce)) && !paused(ce) ==> nc(EVE) == old(nc(EVE)) + 1 && !res
ensures [P18 P24] "a paused table is not balanced": old(advancing(ce) && pauseDue(ce)) ==> nc(SYNC) == old(nc(SYNC)) && nc(UPPLAYERS) == old(nc(UPPLAYERS)) && forall(i, 0, nP(ce), unchanged(P(ce,i)))
ensures [P18] "every other table is": !old(advancing(ce) && pauseDue(ce)) ==> nc(SYNC) == old(nc(SYNC)) + 1 && callarg(SYNC, old(nc(SYNC)), 0) == table.ID
ensures [P18] "with the number of players without chips": !old(advancing(ce) && pauseDue(ce)) ==> callarg(SYNC, old(nc(SYNC)), 1) == brokeCount(ce, table)
ensures [P12] "the last player standing ends it": !old(advancing(ce)) ==> (res <==> !ended(ce) && stopBuyIn(ce) && aliveAt(table) == 1 && nT(ce) == 1)
ensures [P12] "not while tables still advance": old(advancing(ce)) && !paused(ce) ==> !res
ensures [P18] "chips stay": forall(i, 0, nP(ce), unchangedExcept(P(ce,i), "CurrentTableID", "CurrentSeat", "Status"))
ensures wf(ce)
modifies CompetitionPlayer.CurrentTableID, CompetitionPlayer.CurrentSeat, CompetitionPlayer.Status, AdvanceState.Status@S(ce).AdvanceState, AdvanceState.TotalTables@S(ce).AdvanceState, AdvanceState.UpdatedTables@S(ce).AdvanceState, AdvanceState.UpdatedTableIDs@S(ce).AdvanceState, []string, log
loopinv len(?z:[]string) == count(k, 0, $k, table.State.PlayerStates[k].Bankroll <= 0)
loopinv len(?z:[]string) == count(k, 0, $k, table.State.PlayerStates[k].Bankroll > 0)

## ---- tables opened and filled by table balancing
def brokeNamed(ce, ids) := exists(a, 0, len(ids), exists(i, 0, nP(ce), P(ce,i).PlayerID == ids[a] && P(ce,i).Chips <= 0))
def CJOIN(ce, a) := callarg(CREATE, old(nc(CREATE)), 1).JoinPlayers[a]
func (*competitionEngine).regulatorCreateAndDistributePlayers (ce, ids) (id, err)
boundedonly the proof search does not finish in the time of a check
props P18
gen 70% ids := strs(i, 0, nP(ce), P(ce,i).Chips > 0 || rnd(0, 5) == 0, P(ce,i).PlayerID)
requires wf(ce) && wfBreak(ce)
ensures "nobody without chips is seated": brokeNamed(ce, ids) ==> err != nil && id == "" && nc(CREATE) == old(nc(CREATE)) && nT(ce) == old(nT(ce))
ensures "one table is opened": !brokeNamed(ce, ids) ==> nc(CREATE) == old(nc(CREATE)) + 1 && err == callret(CREATE, old(nc(CREATE)), 1)
ensures [P16] "with the blinds of the current level": !brokeNamed(ce, ids) ==> callarg(CREATE, old(nc(CREATE)), 1).Blind.Level == lvLevel(ce) && callarg(CREATE, old(nc(CREATE)), 1).Blind.Ante == lvAnte(ce) && callarg(CREATE, old(nc(CREATE)), 1).Blind.Dealer == lvDealer(ce) && callarg(CREATE, old(nc(CREATE)), 1).Blind.SB == lvSB(ce) && callarg(CREATE, old(nc(CREATE)), 1).Blind.BB == lvBB(ce)
ensures "players bring exactly their chips": !brokeNamed(ce, ids) ==> forall(a, 0, len(callarg(CREATE, old(nc(CREATE)), 1).JoinPlayers), CJOIN(ce,a).Seat == -1 && exists(i, 0, nP(ce), inlist(P(ce,i).PlayerID, ids) && P(ce,i).PlayerID == CJOIN(ce,a).PlayerID && P(ce,i).Chips == CJOIN(ce,a).RedeemChips))
ensures "every named player joins": !brokeNamed(ce, ids) ==> forall(i, 0, nP(ce), inlist(P(ce,i).PlayerID, ids) ==> exists(a, 0, len(callarg(CREATE, old(nc(CREATE)), 1).JoinPlayers), CJOIN(ce,a).PlayerID == P(ce,i).PlayerID))
ensures "the new table joins the others": !brokeNamed(ce, ids) && err == nil ==> nT(ce) == old(nT(ce)) + 1 && T(ce, old(nT(ce))) == callret(CREATE, old(nc(CREATE)), 0) && id == T(ce, old(nT(ce))).ID
ensures "a failure changes nothing": err != nil ==> nT(ce) == old(nT(ce)) && id == "" && nc(EV) == old(nc(EV))
ensures "books untouched": forall(i, 0, nP(ce), unchanged(P(ce,i)))
ensures [P25] "numbered": numbered(ce)
ensures wf(ce) && wfBreak(ce)
loopinv forall(a, 0, len(?j:[]pokertable.JoinPlayer), (?j:[]pokertable.JoinPlayer)[a].Seat == -1 && exists(i, 0, nP(ce), exists(b, 0, $k, ids[b] == P(ce,i).PlayerID) && P(ce,i).PlayerID == (?j:[]pokertable.JoinPlayer)[a].PlayerID && P(ce,i).Chips == (?j:[]pokertable.JoinPlayer)[a].RedeemChips))
loopinv forall(b, 0, $k, forall(i, 0, nP(ce), ids[b] == P(ce,i).PlayerID ==> P(ce,i).Chips > 0 && exists(a, 0, len(?j:[]pokertable.JoinPlayer), (?j:[]pokertable.JoinPlayer)[a].PlayerID == P(ce,i).PlayerID)))

def mayJoinAll(ce, ids) := forall(a, 0, len(ids), exists(i, 0, nP(ce), P(ce,i).PlayerID == ids[a] && P(ce,i).Chips > 0))
func (*competitionEngine).regulatorDistributePlayers (ce, tableID, ids) (err)
props P18
gen 70% ids := strs(i, 0, nP(ce), P(ce,i).Chips > 0 || rnd(0, 5) == 0, P(ce,i).PlayerID)
requires wf(ce)
ensures "only known players with chips are seated": !mayJoinAll(ce, ids) ==> err != nil && nc(UPPLAYERS) == old(nc(UPPLAYERS))
ensures "the table is asked once": mayJoinAll(ce, ids) ==> nc(UPPLAYERS) == old(nc(UPPLAYERS)) + 1 && callarg(UPPLAYERS, old(nc(UPPLAYERS)), 0) == tableID && len(callarg(UPPLAYERS, old(nc(UPPLAYERS)), 2)) == 0 && err == callret(UPPLAYERS, old(nc(UPPLAYERS)), 1)
ensures "each named player once with exactly the player's chips": mayJoinAll(ce, ids) ==> nJoin(ce) == len(ids) && forall(a, 0, len(ids), JOIN(ce,a).PlayerID == ids[a] && JOIN(ce,a).Seat == -1 && exists(i, 0, nP(ce), P(ce,i).PlayerID == ids[a] && P(ce,i).Chips == JOIN(ce,a).RedeemChips))
ensures "books untouched": nc(EV) == old(nc(EV)) && forall(i, 0, nP(ce), unchanged(P(ce,i)))
ensures wf(ce)
modifies log
loopinv len(?j:[]pokertable.JoinPlayer) == $k
loopinv forall(a, 0, $k, (?j:[]pokertable.JoinPlayer)[a].PlayerID == ids[a] && (?j:[]pokertable.JoinPlayer)[a].Seat == -1)
loopinv forall(a, 0, $k, exists(i, 0, nP(ce), P(ce,i).PlayerID == ids[a] && P(ce,i).Chips > 0 && P(ce,i).Chips == (?j:[]pokertable.JoinPlayer)[a].RedeemChips))
