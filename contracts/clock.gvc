package pokercompetition

## ---- the blinds of the current level
def LVL(ce) := Meta(ce).Blind.Levels[curLevel(ce)]
def lvLevel(ce) := ite(curLevel(ce) < 0, 0, LVL(ce).Level)
def lvAnte(ce) := ite(curLevel(ce) < 0, 0, LVL(ce).Ante)
def lvSB(ce) := ite(curLevel(ce) < 0, 0, LVL(ce).SB)
def lvBB(ce) := ite(curLevel(ce) < 0, 0, LVL(ce).BB)
def lvDealer(ce) := ite(Meta(ce).Blind.DealerBlindTime > 0, lvAnte(ce) * (Meta(ce).Blind.DealerBlindTime - 1), 0)
def pushed(ce, q) := callarg(UPBLIND, q, 1) == lvLevel(ce) && callarg(UPBLIND, q, 2) == lvAnte(ce) && callarg(UPBLIND, q, 3) == lvDealer(ce) && callarg(UPBLIND, q, 4) == lvSB(ce) && callarg(UPBLIND, q, 5) == lvBB(ce)

func (*competitionEngine).updateTableBlind (ce, tableID) ()
props P16
modular
requires wf(ce)
ensures "the table gets blinds once": nc(UPBLIND) == old(nc(UPBLIND)) + 1 && callarg(UPBLIND, old(nc(UPBLIND)), 0) == tableID
ensures "those of the current level": pushed(ce, old(nc(UPBLIND)))
ensures "an error is reported": ite(callret(UPBLIND, old(nc(UPBLIND)), 0) != nil, nc(EVE) == old(nc(EVE)) + 1 && callarg(EVE, old(nc(EVE)), 1) == callret(UPBLIND, old(nc(UPBLIND)), 0), nc(EVE) == old(nc(EVE)))
modifies log

## ---- breaks
def BP(ce) := ce.breakingPauseResumeStates
def scheduled(ce, t, l) := has(BP(ce), t) && has(BP(ce)[t], l)
def resumed(ce, t, l) := scheduled(ce, t, l) && BP(ce)[t][l]
def wfBreak(ce) := BP(ce) != nil && forallv(x, string, has(BP(ce), x) ==> allocated(BP(ce)[x])) && forallv(x, string, forallv(y, string, has(BP(ce), x) && has(BP(ce), y) && x != y ==> BP(ce)[x] != BP(ce)[y]))

func (*competitionEngine).handleBreaking (ce, tableID) ()
props P17
modular
requires wf(ce) && wfBreak(ce)
ensures "one resume per table and break": breaking(ce) && !old(scheduled(ce, tableID, curLevel(ce))) ==> nc("timer") == old(nc("timer")) + 1
ensures "none outside breaks": !breaking(ce) ==> nc("timer") == old(nc("timer"))
ensures "none twice": old(scheduled(ce, tableID, curLevel(ce))) ==> nc("timer") == old(nc("timer"))
ensures "right after the end of the break": nc("timer") > old(nc("timer")) ==> callarg("timer", old(nc("timer")), 0) == (S(ce).BlindState.EndAts[curLevel(ce)] + 1) * 1000000000
ensures "remembered as pending": breaking(ce) ==> scheduled(ce, tableID, curLevel(ce)) && (!old(scheduled(ce, tableID, curLevel(ce))) ==> !resumed(ce, tableID, curLevel(ce)))
ensures "other breaks and tables stay": forallv(x, string, forallv(l, int, x != tableID || l != curLevel(ce) || !breaking(ce) || old(scheduled(ce, x, l)) ==> scheduled(ce, x, l) == old(scheduled(ce, x, l)) && resumed(ce, x, l) == old(resumed(ce, x, l))))
ensures "nothing is published": nc(EV) == old(nc(EV)) && nc(SETUPG) == old(nc(SETUPG)) && nc(STARTG) == old(nc(STARTG))
ensures wfBreak(ce)
modifies map:string>map[int]bool@BP(ce), map:int>bool, log

def aliveAt(t) := count(k, 0, len(t.State.PlayerStates), t.State.PlayerStates[k].Bankroll > 0)
def firstAt(ce, i, id) := T(ce,i).ID == id && forall(j, 0, i, T(ce,j).ID != id)
def mayResume(ce, i) := !ended(ce) && !resumed(ce, T(ce,i).ID, curLevel(ce)) && aliveAt(T(ce,i)) >= T(ce,i).Meta.TableMinPlayerCount
def untouched(ce) := nc(SETUPG) == old(nc(SETUPG)) && nc(STARTG) == old(nc(STARTG)) && nc(EV) == old(nc(EV)) && nc(EVE) == old(nc(EVE))
closure breakOver of (*competitionEngine).handleBreaking chan timer arg 1 captures ce:*competitionEngine, tableID:string params (isCancelled)
props P17
requires wf(ce) && wfBreak(ce) && (hasTable(ce, tableID) ==> has(BP(ce), tableID))
ensures "nothing after the end": isCancelled || old(ended(ce)) ==> untouched(ce)
ensures "nothing without the table": !hasTable(ce, tableID) ==> untouched(ce)
ensures "nothing when already resumed": old(resumed(ce, tableID, curLevel(ce))) ==> untouched(ce)
ensures [P17 bounded] "nothing with too few players": forall(i, 0, nT(ce), firstAt(ce, i, tableID) && !old(mayResume(ce, i)) ==> untouched(ce))
ensures [P17 bounded] "the next hand is opened": forall(i, 0, nT(ce), !isCancelled && firstAt(ce, i, tableID) && old(mayResume(ce, i)) && T(ce,i).State.GameCount > 0 ==> nc(SETUPG) == old(nc(SETUPG)) + 1 && callarg(SETUPG, old(nc(SETUPG)), 0) == tableID && callarg(SETUPG, old(nc(SETUPG)), 1) == T(ce,i).State.GameCount + 1 && nc(STARTG) == old(nc(STARTG)))
ensures [P17 P27 bounded] "with exactly the present players with chips": forall(i, 0, nT(ce), !isCancelled && firstAt(ce, i, tableID) && old(mayResume(ce, i)) && T(ce,i).State.GameCount > 0 ==> participantsOf(callarg(SETUPG, old(nc(SETUPG)), 2), T(ce,i).State.PlayerStates))
ensures [P17 bounded] "a table that never played is started": forall(i, 0, nT(ce), !isCancelled && firstAt(ce, i, tableID) && old(mayResume(ce, i)) && T(ce,i).State.GameCount == 0 ==> nc(SETUPG) == old(nc(SETUPG)) && nc(STARTG) == old(nc(STARTG)) + ite(readyCount(T(ce,i)) >= Meta(ce).TableMinPlayerCount, 1, 0) && (nc(STARTG) > old(nc(STARTG)) ==> callarg(STARTG, old(nc(STARTG)), 0) == tableID))
ensures "at most one opening": nc(SETUPG) + nc(STARTG) <= old(nc(SETUPG) + nc(STARTG)) + 1
ensures [P17 bounded] "not opened again": forall(i, 0, nT(ce), !isCancelled && firstAt(ce, i, tableID) && old(mayResume(ce, i)) && T(ce,i).State.GameCount >= 0 ==> resumed(ce, tableID, curLevel(ce)))
ensures "books untouched": forall(i, 0, nP(ce), unchanged(P(ce,i)))
ensures wf(ce)
modifies map:int>bool, log

## ---- advancement
def setsUpAdvance(ce) := isMTT(ce) && (Meta(ce).AdvanceSetting.Rule == CompetitionAdvanceRule_PlayerCount || Meta(ce).AdvanceSetting.Rule == CompetitionAdvanceRule_BlindLevel) && S(ce).AdvanceState.Status == CompetitionAdvanceStatus_NotStart
def ASK := "cb.onAdvancePlayerCountUpdated"
func (*competitionEngine).initAdvancement (ce) ()
props P24
modular
requires wf(ce)
ensures "only once and only when a rule is set": !old(setsUpAdvance(ce)) ==> unchanged(S(ce).AdvanceState) && nc(ASK) == old(nc(ASK)) && Meta(ce).AdvanceSetting.PlayerCount == old(Meta(ce).AdvanceSetting.PlayerCount)
ensures "counts every table": old(setsUpAdvance(ce)) ==> S(ce).AdvanceState.Status == CompetitionAdvanceStatus_Updating && S(ce).AdvanceState.TotalTables == nT(ce) && S(ce).AdvanceState.UpdatedTables == 0
ensures "asks for the player count": old(setsUpAdvance(ce)) && Meta(ce).AdvanceSetting.Rule == CompetitionAdvanceRule_PlayerCount ==> nc(ASK) == old(nc(ASK)) + 1 && callarg(ASK, old(nc(ASK)), 0) == ce.competition.ID && callarg(ASK, old(nc(ASK)), 1) == S(ce).Statistic.TotalBuyInCount && Meta(ce).AdvanceSetting.PlayerCount == callret(ASK, old(nc(ASK)), 0)
ensures "no question for the level rule": Meta(ce).AdvanceSetting.Rule != CompetitionAdvanceRule_PlayerCount ==> nc(ASK) == old(nc(ASK)) && Meta(ce).AdvanceSetting.PlayerCount == old(Meta(ce).AdvanceSetting.PlayerCount)
ensures wf(ce)
modifies AdvanceState.Status@S(ce).AdvanceState, AdvanceState.TotalTables@S(ce).AdvanceState, AdvanceState.UpdatedTables@S(ce).AdvanceState, Competition.Meta.AdvanceSetting.PlayerCount@ce.competition, log

## ---- a new blind level
def stopsNow(ce) := stopBuyIn(ce) && old(!ended(ce) && S(ce).Status != CompetitionStateStatus_StoppedBuyIn)
def wasDrop(ce, i) := old(dropsAtStop(ce, i))
def nDrops(ce) := count(i, 0, nP(ce), dropsAtStop(ce, i))
def fewLeft(ce) := nT(ce) == 0 || nT(ce) == 1 && aliveAt(T(ce,0)) < 2
def dropLeaves(ce, i) := dropsAtStop(ce, i) && P(ce,i).IsReBuying && P(ce,i).ReBuyEndAt != -1
closure levelUp of (*competitionEngine).initBlind chan field.stateUpdater arg 0 captures ce:*competitionEngine params (bs)
boundedonly the proof search does not finish in the time of a check
instant
gen bs.Status.CurrentLevelIndex := rnd(0, len(Meta(ce).Blind.Levels) - 1)
requires wf(ce) && wfBreak(ce) && bs != nil && 0 <= bs.Status.CurrentLevelIndex && bs.Status.CurrentLevelIndex < len(Meta(ce).Blind.Levels)
ensures [P09] "an ended competition ignores the clock": old(ended(ce)) ==> curLevel(ce) == old(curLevel(ce)) && S(ce).Status == old(S(ce).Status) && nc(EV) == old(nc(EV)) && nc(EVS) == old(nc(EVS)) && nc(UPBLIND) == old(nc(UPBLIND)) && nc("timer") == old(nc("timer")) && forall(i, 0, nP(ce), unchanged(P(ce,i))) && sameList(S(ce).Rankings, old(S(ce).Rankings))
ensures [P09] "takes the level": !old(ended(ce)) ==> curLevel(ce) == bs.Status.CurrentLevelIndex
ensures [P09 P16] "every table gets the blinds": !old(ended(ce)) ==> nc(UPBLIND) == old(nc(UPBLIND)) + nT(ce) && forall(k, 0, nT(ce), callarg(UPBLIND, old(nc(UPBLIND)) + k, 0) == T(ce,k).ID && pushed(ce, old(nc(UPBLIND)) + k))
ensures [P17] "every table is resumed after a break": !old(ended(ce)) && breaking(ce) ==> forall(k, 0, nT(ce), scheduled(ce, T(ce,k).ID, curLevel(ce)))
ensures [P09] "level change is announced": !old(ended(ce)) ==> nc(EV) > old(nc(EV)) && nc(EVS) > old(nc(EVS)) && callarg(EVS, old(nc(EVS)), 0) == CompetitionStateEvent_BlindUpdated
ensures [P09] "buy-in stops after the last buy-in level": stopsNow(ce) ==> S(ce).Status == ite(tourney(ce) && old(fewLeft(ce)), CompetitionStateStatus_End, CompetitionStateStatus_StoppedBuyIn)
ensures [P09] "only then and only once": !stopsNow(ce) ==> S(ce).Status == old(S(ce).Status) && sameList(S(ce).Rankings, old(S(ce).Rankings)) && nc(EVR) == old(nc(EVR)) && nc(SETSTATUS) == old(nc(SETSTATUS)) && forall(i, 0, nP(ce), unchanged(P(ce,i)))
ensures [P09] "who waits without chips is eliminated": stopsNow(ce) ==> forall(i, 0, nP(ce), wasDrop(ce, i) ==> P(ce,i).Status == CompetitionPlayerStatus_Knockout && P(ce,i).KnockoutAt == now() / 1000000000 && !P(ce,i).IsReBuying && P(ce,i).ReBuyEndAt == -1 && P(ce,i).CurrentSeat == -1 && unchangedExcept(P(ce,i), "Status", "KnockoutAt", "IsReBuying", "ReBuyEndAt", "CurrentSeat", "CompetitionRank"))
ensures [P09] "the rest play on": sameList(S(ce).Players, old(S(ce).Players)) && forall(i, 0, nP(ce), !wasDrop(ce, i) ==> unchangedExcept(P(ce,i), "CompetitionRank"))
ensures [P09] "entered in the standings": stopsNow(ce) && S(ce).Status == CompetitionStateStatus_StoppedBuyIn ==> nR(ce) == old(nR(ce)) + old(nDrops(ce)) && forall(a, 0, old(nR(ce)), R(ce,a) == old(S(ce).Rankings)[a] && unchanged(R(ce,a))) && forall(a, old(nR(ce)), nR(ce), R(ce,a).FinalChips == 0 && exists(i, 0, nP(ce), wasDrop(ce, i) && P(ce,i).PlayerID == R(ce,a).PlayerID))
ensures [P09] "nobody is entered twice": stopsNow(ce) && S(ce).Status == CompetitionStateStatus_StoppedBuyIn ==> forall(a, old(nR(ce)), nR(ce), forall(b, old(nR(ce)), nR(ce), a != b ==> R(ce,a).PlayerID != R(ce,b).PlayerID))
ensures [P09 bounded] "latest joiner lowest": stopsNow(ce) && S(ce).Status == CompetitionStateStatus_StoppedBuyIn ==> forall(a, old(nR(ce)), nR(ce), forall(b, a, nR(ce), forall(i, 0, nP(ce), forall(j, 0, nP(ce), R(ce,a).PlayerID == P(ce,i).PlayerID && R(ce,b).PlayerID == P(ce,j).PlayerID ==> P(ce,i).JoinAt >= P(ce,j).JoinAt))))
ensures [P09] "places are reported": stopsNow(ce) ==> nc(EVR) >= old(nc(EVR)) + old(nDrops(ce)) && forall(a, 0, old(nDrops(ce)), callarg(EVR, old(nc(EVR)) + a, 0) == ce.competition.ID && callarg(EVR, old(nc(EVR)) + a, 2) == old(count(i, 0, nP(ce), P(ce,i).Chips > 0)) + old(nDrops(ce)) - a)
ensures [P09] "table balancing is told": stopsNow(ce) ==> nc(SETSTATUS) == old(nc(SETSTATUS)) + ite(isMTT(ce), 1, 0) && (isMTT(ce) ==> callarg(SETSTATUS, old(nc(SETSTATUS)), 0) == regulator.CompetitionStatus_AfterRegDeadline)
ensures [P09] "who still kept a seat leaves it": stopsNow(ce) ==> nc(LEAVE) == old(nc(LEAVE)) + ite(isCT(ce) && nT(ce) > 0, old(count(i, 0, nP(ce), dropLeaves(ce, i))), 0) && forall(q, old(nc(LEAVE)), nc(LEAVE), callarg(LEAVE, q, 0) == T(ce,0).ID && len(callarg(LEAVE, q, 1)) == 1 && exists(i, 0, nP(ce), old(dropLeaves(ce, i)) && P(ce,i).PlayerID == callarg(LEAVE, q, 1)[0]))
ensures [P11] "counts published": stopsNow(ce) ==> statsFresh(ce)
ensures [P24] "advancement is set up when buy-in stops": ite(stopsNow(ce) && old(setsUpAdvance(ce)), S(ce).AdvanceState.Status == CompetitionAdvanceStatus_Updating && S(ce).AdvanceState.TotalTables == nT(ce) && S(ce).AdvanceState.UpdatedTables == 0, unchanged(S(ce).AdvanceState))
ensures [P25] "numbered": numbered(ce)
ensures wf(ce)
modifies CompetitionPlayer.Status, CompetitionPlayer.KnockoutAt, CompetitionPlayer.IsReBuying, CompetitionPlayer.ReBuyEndAt, CompetitionPlayer.CurrentSeat, CompetitionPlayer.CompetitionRank, CompetitionState.Rankings@S(ce), CompetitionState.Status@S(ce), CompetitionState.EndAt@S(ce), BlindState.CurrentLevelIndex@S(ce).BlindState, []*CompetitionRank, Statistic.PlayingPlayerCount@S(ce).Statistic, Statistic.WaitingTableBalancingPlayerCount@S(ce).Statistic, Statistic.KnockoutPlayerCount@S(ce).Statistic, Statistic.ReBuyWaitingPlayerCount@S(ce).Statistic, AdvanceState.Status@S(ce).AdvanceState, AdvanceState.TotalTables@S(ce).AdvanceState, AdvanceState.UpdatedTables@S(ce).AdvanceState, Competition.Meta.AdvanceSetting.PlayerCount@ce.competition, map:string>map[int]bool@BP(ce), map:int>bool, Competition.UpdateAt@ce.competition, Competition.UpdateSerial@ce.competition, competitionEngine.gameSettledRecords@ce, pokerblind.blind.isEnd@BL(ce), log
loopinv @0 nc(UPBLIND) == pre(nc(UPBLIND)) + $k
loopinv @0 forall(k, 0, $k, callarg(UPBLIND, pre(nc(UPBLIND)) + k, 0) == T(ce,k).ID && pushed(ce, pre(nc(UPBLIND)) + k))
loopinv @0 breaking(ce) ==> forall(k, 0, $k, scheduled(ce, T(ce,k).ID, curLevel(ce)))
loopinv @0 wfBreak(ce)
loopinv forall(i, 0, nP(ce), P(ce,i).Status == CompetitionPlayerStatus_Knockout && old(P(ce,i).Status) != CompetitionPlayerStatus_Knockout ==> P(ce,i).KnockoutAt == now() / 1000000000 && !P(ce,i).IsReBuying && P(ce,i).ReBuyEndAt == -1 && P(ce,i).CurrentSeat == -1)
loopinv forall(i, 0, nP(ce), exists(a, 0, $k, (?l:[]string)[a] == P(ce,i).PlayerID) ==> P(ce,i).Status == CompetitionPlayerStatus_Knockout)
loopinv forall(i, 0, nP(ce), !exists(a, 0, $k, (?l:[]string)[a] == P(ce,i).PlayerID) ==> unchanged(P(ce,i)))
loopinv nR(ce) == pre(nR(ce)) + $k
loopinv forall(a, 0, old(nR(ce)), R(ce,a) == old(S(ce).Rankings)[a] && unchanged(R(ce,a)))
loopinv forall(a, 0, $k, R(ce, old(nR(ce)) + a).PlayerID == (?l:[]string)[a] && R(ce, old(nR(ce)) + a).FinalChips == 0)
loopinv forall(a, 0, nR(ce), allocated(R(ce,a)))
loopinv nc(EVR) == pre(nc(EVR)) + $k
loopinv forall(a, 0, $k, callarg(EVR, pre(nc(EVR)) + a, 0) == ce.competition.ID && callarg(EVR, pre(nc(EVR)) + a, 2) == count(i, 0, nP(ce), P(ce,i).Chips > 0) + len(?l:[]string) - a)
loopinv nc(LEAVE) >= pre(nc(LEAVE))
loopinv forall(q, pre(nc(LEAVE)), nc(LEAVE), callarg(LEAVE, q, 0) == T(ce,0).ID && len(callarg(LEAVE, q, 1)) == 1 && exists(i, 0, nP(ce), old(dropLeaves(ce, i)) && P(ce,i).PlayerID == callarg(LEAVE, q, 1)[0]))
loopinv (?m:map[string]int) != nil
loopinv forall(i, 0, $k, has(?m:map[string]int, P(ce,i).PlayerID) && (?m:map[string]int)[P(ce,i).PlayerID] == i)
loopinv forallv(x, string, has(?m:map[string]int, x) ==> 0 <= (?m:map[string]int)[x] && (?m:map[string]int)[x] < $k && P(ce, (?m:map[string]int)[x]).PlayerID == x)

def takesLevels(b, meta) := len(b.bs.Meta.Levels) == len(meta.Blind.Levels) && forall(i, 0, len(meta.Blind.Levels), b.bs.Meta.Levels[i].Level == meta.Blind.Levels[i].Level && b.bs.Meta.Levels[i].Duration == meta.Blind.Levels[i].Duration && b.bs.Meta.Levels[i].Ante == meta.Blind.Levels[i].Ante)
func (*competitionEngine).initBlind (ce, meta) ()
props P23
modular
requires ce != nil && ce.blind != nil && BL(ce) != nil
ensures "the clock gets the levels": BL(ce).bs != nil && fresh(BL(ce).bs) && takesLevels(BL(ce), meta)
ensures "and where to start": BL(ce).bs.Meta.InitialLevel == meta.Blind.InitialLevel && BL(ce).bs.Status.FinalBuyInLevelIndex == meta.Blind.FinalBuyInLevelIndex
ensures "but does not run": BL(ce).bs.StartedAt == -1 && BL(ce).bs.Status.CurrentLevelIndex == -1
ensures blindok(BL(ce)) && BL(ce).options != nil
modifies pokerblind.blind.options@BL(ce), pokerblind.blind.bs@BL(ce), pokerblind.blind.stateUpdater@BL(ce), pokerblind.blind.errorUpdater@BL(ce), log
