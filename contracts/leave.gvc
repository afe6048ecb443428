package pokercompetition

def wasPlayer(ce, playerID) := old(hasPlayer(ce, playerID))

func (*competitionEngine).PlayerRefund (ce, playerID) (err)
requires wf(ce) && unlocked(ce)
ensures [P04] "refused for strangers and after the clock started": (!old(hasPlayer(ce, playerID)) || old(clockStarted(ce))) ==> err == ErrCompetitionRefundRejected
ensures [P04] "refused changes nothing": (!old(hasPlayer(ce, playerID)) || old(clockStarted(ce))) ==> quietCall(ce) && sameList(S(ce).Players, old(S(ce).Players)) && unchanged(S(ce).Statistic) && forall(i, 0, nP(ce), unchanged(P(ce,i))) && sameList(ce.waitingPlayers, old(ce.waitingPlayers))
ensures [P04] "exactly that player leaves": forall(i, 0, old(nP(ce)), !old(clockStarted(ce)) && old(P(ce,i).PlayerID) == playerID ==> nP(ce) == old(nP(ce)) - 1 && forall(j, 0, i, P(ce,j) == old(S(ce).Players)[j]) && forall(j, i, nP(ce), P(ce,j) == old(S(ce).Players)[j+1]))
ensures [P04] "others untouched": forall(j, 0, nP(ce), unchangedExcept(P(ce,j), "CompetitionRank") && (old(hasPlayer(ce, playerID)) && !old(clockStarted(ce)) ==> P(ce,j).PlayerID != playerID))
ensures [P04] "units taken back": forall(i, 0, old(nP(ce)), !old(clockStarted(ce)) && old(P(ce,i).PlayerID) == playerID ==> S(ce).Statistic.TotalBuyInCount == old(S(ce).Statistic.TotalBuyInCount) - ite(tourney(ce), old(P(ce,i).TotalBuyInUnits), 0))
ensures [P04] "leaves the queue": old(hasPlayer(ce, playerID)) && !old(clockStarted(ce)) ==> forall(q, 0, len(ce.waitingPlayers), ce.waitingPlayers[q] != playerID) && len(ce.waitingPlayers) == count(q, 0, old(len(ce.waitingPlayers)), old(ce.waitingPlayers[q]) != playerID)
ensures [P04] "the rest of the queue keeps its order": old(hasPlayer(ce, playerID)) && !old(clockStarted(ce)) ==> forall(q, 0, old(len(ce.waitingPlayers)), old(ce.waitingPlayers[q]) != playerID ==> ce.waitingPlayers[count(r, 0, q, old(ce.waitingPlayers[r]) != playerID)] == old(ce.waitingPlayers[q]))
ensures [P04] "table told": forall(i, 0, old(nP(ce)), !old(clockStarted(ce)) && old(P(ce,i).PlayerID) == playerID && isCT(ce) && old(P(ce,i).CurrentTableID) != "" ==> nc(LEAVE) == old(nc(LEAVE)) + 1 && callarg(LEAVE, old(nc(LEAVE)), 0) == old(P(ce,i).CurrentTableID) && len(callarg(LEAVE, old(nc(LEAVE)), 1)) == 1 && callarg(LEAVE, old(nc(LEAVE)), 1)[0] == playerID && err == callret(LEAVE, old(nc(LEAVE)), 0))
ensures [P04] "no table involved otherwise": forall(i, 0, old(nP(ce)), !old(clockStarted(ce)) && old(P(ce,i).PlayerID) == playerID && !(isCT(ce) && old(P(ce,i).CurrentTableID) != "") ==> nc(LEAVE) == old(nc(LEAVE)) && err == nil)
ensures [P11] "counts published": old(hasPlayer(ce, playerID)) && !old(clockStarted(ce)) ==> statsFresh(ce)
ensures [P22] "mutex released": unlocked(ce)
ensures wf(ce)
modifies CompetitionPlayer.CompetitionRank, CompetitionPlayer.TotalBuyInUnits, CompetitionState.Players@S(ce), Statistic.*@S(ce).Statistic, []*CompetitionPlayer, []string, Competition.UpdateAt@ce.competition, Competition.UpdateSerial@ce.competition, competitionEngine.waitingPlayers@ce, log
loopinv len(?w:[]string) == count(q, 0, $k, old(ce.waitingPlayers[q]) != playerID)
loopinv forall(q, 0, $k, old(ce.waitingPlayers[q]) != playerID ==> (?w:[]string)[count(r, 0, q, old(ce.waitingPlayers[r]) != playerID)] == old(ce.waitingPlayers[q]))
loopinv forall(q, 0, len(?w:[]string), (?w:[]string)[q] != playerID)
loopinv forall(q, 0, len(ce.waitingPlayers), ce.waitingPlayers[q] == old(ce.waitingPlayers[q]))

def payNow(ce) := S(ce).Status == CompetitionStateStatus_Registering || S(ce).Status == CompetitionStateStatus_DelayedBuyIn && nT(ce) > 0 && T(ce,0).State.Status == pokertable.TableStateStatus_TablePausing

func (*competitionEngine).PlayerCashOut (ce, tableID, playerID) (err)
requires wf(ce) && unlocked(ce)
ensures [P05] "only known players of a cash game": (!old(hasPlayer(ce, playerID)) || !isCash(ce)) ==> err == ErrCompetitionLeaveRejected && quietCall(ce) && sameList(S(ce).Players, old(S(ce).Players)) && forall(i, 0, nP(ce), unchanged(P(ce,i)))
ensures [P05] "accepted": old(hasPlayer(ce, playerID)) && isCash(ce) ==> err == nil
ensures [P05] "leaves at the end of the hand": old(hasPlayer(ce, playerID)) && isCash(ce) && !old(payNow(ce)) ==> nc(EVC) == old(nc(EVC)) && nc(LEAVE) == old(nc(LEAVE)) && nP(ce) == old(nP(ce)) && forall(i, 0, nP(ce), P(ce,i) == old(S(ce).Players)[i] && ite(P(ce,i).PlayerID == playerID, P(ce,i).Status == CompetitionPlayerStatus_CashLeaving && unchangedExcept(P(ce,i), "Status"), unchanged(P(ce,i))))
ensures [P05] "paid at once when not running": old(hasPlayer(ce, playerID)) && isCash(ce) && old(payNow(ce)) ==> nc(EVC) == old(nc(EVC)) + 1 && callarg(EVC, old(nc(EVC)), 1).PlayerID == playerID && nc(LEAVE) == old(nc(LEAVE)) + 1 && callarg(LEAVE, old(nc(LEAVE)), 0) == tableID && len(callarg(LEAVE, old(nc(LEAVE)), 1)) == 1 && callarg(LEAVE, old(nc(LEAVE)), 1)[0] == playerID
ensures [P05] "exactly the leaver is removed": forall(i, 0, old(nP(ce)), isCash(ce) && old(payNow(ce)) && old(P(ce,i).PlayerID) == playerID ==> nP(ce) == old(nP(ce)) - 1 && forall(j, 0, i, P(ce,j) == old(S(ce).Players)[j]) && forall(j, i, nP(ce), P(ce,j) == old(S(ce).Players)[j+1]))
ensures [P05] "chips untouched": forall(i, 0, old(nP(ce)), unchangedExcept(old(S(ce).Players)[i], "Status") && (old(P(ce,i).PlayerID) != playerID ==> unchanged(old(S(ce).Players)[i])))
ensures [P22] "mutex untouched": unlocked(ce)
ensures wf(ce)
modifies CompetitionPlayer.Status, CompetitionState.Players@S(ce), log

## everyone in the list leaves, is reported once, in order, and is removed
func (*competitionEngine).handleCashOut (ce, tableID, idx, ids) ()
requires wf(ce) && forall(q, 0, len(ids), has(idx, ids[q]) && 0 <= idx[ids[q]] && idx[ids[q]] < nP(ce) && P(ce, idx[ids[q]]).PlayerID == ids[q]) && forallv(x, string, has(idx, x) ==> exists(q, 0, len(ids), ids[q] == x))
gen ids := strs(i, 0, nP(ce), rnd(0, 1) == 0, P(ce,i).PlayerID)
gen idx := strindex(i, 0, nP(ce), inlist(P(ce,i).PlayerID, ids), P(ce,i).PlayerID)
ensures [P05] "table told once": nc(LEAVE) == old(nc(LEAVE)) + 1 && callarg(LEAVE, old(nc(LEAVE)), 0) == tableID && sameList(callarg(LEAVE, old(nc(LEAVE)), 1), ids)
ensures [P05] "table error reported": ite(callret(LEAVE, old(nc(LEAVE)), 0) != nil, nc(EVE) == old(nc(EVE)) + 1, nc(EVE) == old(nc(EVE)))
ensures [P05] "each leaver paid once": nc(EVC) == old(nc(EVC)) + len(ids) && forall(q, 0, len(ids), callarg(EVC, old(nc(EVC)) + q, 1).PlayerID == ids[q] && callarg(EVC, old(nc(EVC)) + q, 0) == ce.competition.ID)
ensures [P05] "leavers removed, others kept": nP(ce) == count(i, 0, old(nP(ce)), !has(idx, old(P(ce,i).PlayerID))) && forall(i, 0, old(nP(ce)), !has(idx, old(P(ce,i).PlayerID)) ==> P(ce, count(j, 0, i, !has(idx, old(P(ce,j).PlayerID)))) == old(S(ce).Players)[i])
ensures [P05] "only known players remain": forall(a, 0, nP(ce), !has(idx, P(ce,a).PlayerID) && exists(i, 0, old(nP(ce)), P(ce,a) == old(S(ce).Players)[i]))
ensures [P05] "announced": nc(EVS) == old(nc(EVS)) + 1 && callarg(EVS, old(nc(EVS)), 0) == CompetitionStateEvent_CashOutPlayers
ensures [P05] "books of everyone untouched": forall(i, 0, old(nP(ce)), unchanged(old(S(ce).Players)[i]))
ensures wf(ce)
modifies CompetitionState.Players@S(ce), log

modular
loopinv @0 nc(EVC) == pre(nc(EVC)) + $k
loopinv @0 forall(q, 0, $k, callarg(EVC, pre(nc(EVC)) + q, 1).PlayerID == ids[q] && callarg(EVC, pre(nc(EVC)) + q, 0) == ce.competition.ID)
loopinv @1 fresh(?n:[]*CompetitionPlayer)
loopinv @1 forall(i, 0, nP(ce), P(ce,i) == pre(S(ce).Players)[i])
loopinv @1 len(?n:[]*CompetitionPlayer) == count(i, 0, $k, !has(idx, old(P(ce,i).PlayerID)))
loopinv @1 forall(i, 0, $k, !has(idx, old(P(ce,i).PlayerID)) ==> (?n:[]*CompetitionPlayer)[count(j, 0, i, !has(idx, old(P(ce,j).PlayerID)))] == old(S(ce).Players)[i])
loopinv @1 forall(a, 0, len(?n:[]*CompetitionPlayer), !has(idx, (?n:[]*CompetitionPlayer)[a].PlayerID))
loopinv @1 forall(a, 0, len(?n:[]*CompetitionPlayer), exists(i, 0, $k, (?n:[]*CompetitionPlayer)[a] == P(ce,i)))
loopinv @1 forall(a, 0, len(?n:[]*CompetitionPlayer), forall(b, 0, len(?n:[]*CompetitionPlayer), a != b ==> (?n:[]*CompetitionPlayer)[a].PlayerID != (?n:[]*CompetitionPlayer)[b].PlayerID))

def leaving(ce, i) := P(ce,i).Status == CompetitionPlayerStatus_CashLeaving
func (*competitionEngine).handleCashTableSettlement (ce, table) ()
requires wf(ce)
ensures [P05] "all leavers are paid, once each": nc(EVC) == old(nc(EVC)) + old(byStatus(ce, CompetitionPlayerStatus_CashLeaving))
ensures [P05] "the leavers themselves are paid": forall(i, 0, old(nP(ce)), old(leaving(ce, i)) ==> exists(q, old(nc(EVC)), nc(EVC), callarg(EVC, q, 1).PlayerID == old(P(ce,i).PlayerID)))
ensures [P05] "leavers removed": forall(i, 0, nP(ce), P(ce,i).Status != CompetitionPlayerStatus_CashLeaving) && nP(ce) == old(count(j, 0, nP(ce), !leaving(ce, j)))
ensures [P05] "nobody leaves without asking": old(byStatus(ce, CompetitionPlayerStatus_CashLeaving)) == 0 ==> nc(LEAVE) == old(nc(LEAVE)) && nc(EVC) == old(nc(EVC)) && sameList(S(ce).Players, old(S(ce).Players))
ensures [P05] "leave the settled table": old(byStatus(ce, CompetitionPlayerStatus_CashLeaving)) > 0 ==> nc(LEAVE) == old(nc(LEAVE)) + 1 && callarg(LEAVE, old(nc(LEAVE)), 0) == table.ID && len(callarg(LEAVE, old(nc(LEAVE)), 1)) == old(byStatus(ce, CompetitionPlayerStatus_CashLeaving))
ensures wf(ce)
modifies CompetitionState.Players@S(ce), log

loopinv @0 (?m:map[string]int) != nil && len(?ids:[]string) == count(j, 0, $k, leaving(ce, j))
loopinv @0 forall(i, 0, $k, leaving(ce, i) ==> (?ids:[]string)[count(j, 0, i, leaving(ce, j))] == P(ce,i).PlayerID && has(?m:map[string]int, P(ce,i).PlayerID) && (?m:map[string]int)[P(ce,i).PlayerID] == i)
loopinv @0 forall(q, 0, len(?ids:[]string), has(?m:map[string]int, (?ids:[]string)[q]))
loopinv @0 forallv(x, string, has(?m:map[string]int, x) ==> 0 <= (?m:map[string]int)[x] && (?m:map[string]int)[x] < $k && P(ce, (?m:map[string]int)[x]).PlayerID == x && leaving(ce, (?m:map[string]int)[x]))
loopinv @0 forallv(x, string, has(?m:map[string]int, x) ==> exists(q, 0, len(?ids:[]string), (?ids:[]string)[q] == x))

def quitOK(ce, tableID, playerID) := isCT(ce) && hasPlayer(ce, playerID) && hasTable(ce, tableID) && !stopBuyIn(ce)
func (*competitionEngine).PlayerQuit (ce, tableID, playerID) (err)
requires wf(ce) && unlocked(ce)
ensures [P06] "refused": !old(quitOK(ce, tableID, playerID)) ==> err == ErrCompetitionQuitRejected && quietCall(ce) && forall(i, 0, nP(ce), unchanged(P(ce,i)))
ensures [P06] "table asked": old(quitOK(ce, tableID, playerID)) ==> err == nil && nc(LEAVE) == old(nc(LEAVE)) + 1 && callarg(LEAVE, old(nc(LEAVE)), 0) == tableID && len(callarg(LEAVE, old(nc(LEAVE)), 1)) == 1 && callarg(LEAVE, old(nc(LEAVE)), 1)[0] == playerID
ensures [P06] "released player waits for a re-buy": forall(i, 0, nP(ce), old(quitOK(ce, tableID, playerID)) && callret(LEAVE, old(nc(LEAVE)), 0) == nil && P(ce,i).PlayerID == playerID ==> P(ce,i).Status == CompetitionPlayerStatus_ReBuyWaiting && !P(ce,i).IsReBuying && P(ce,i).ReBuyEndAt == UnsetValue && P(ce,i).CurrentSeat == UnsetValue && unchangedExcept(P(ce,i), "Status", "IsReBuying", "ReBuyEndAt", "CurrentSeat"))
ensures [P06] "kept when the table refuses": old(quitOK(ce, tableID, playerID)) && callret(LEAVE, old(nc(LEAVE)), 0) != nil ==> forall(i, 0, nP(ce), unchanged(P(ce,i))) && nc(EVP) == old(nc(EVP))
ensures [P06] "others untouched": sameList(S(ce).Players, old(S(ce).Players)) && forall(i, 0, nP(ce), P(ce,i).PlayerID != playerID ==> unchanged(P(ce,i)))
ensures [P06] "announced": old(quitOK(ce, tableID, playerID)) && callret(LEAVE, old(nc(LEAVE)), 0) == nil ==> nc(EVP) == old(nc(EVP)) + 1 && callarg(EVP, old(nc(EVP)), 1).PlayerID == playerID && nc(EVS) == old(nc(EVS)) + 1
ensures [P22] "mutex released": unlocked(ce)
ensures wf(ce)
modifies CompetitionPlayer.Status, CompetitionPlayer.IsReBuying, CompetitionPlayer.ReBuyEndAt, CompetitionPlayer.CurrentSeat, Competition.UpdateAt@ce.competition, Competition.UpdateSerial@ce.competition, log
