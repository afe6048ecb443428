package pokercompetition

def numbered(ce) := ce.competition.UpdateSerial - old(ce.competition.UpdateSerial) == nc(EV) - old(nc(EV))
def playedOn(ce) := S(ce).Status == CompetitionStateStatus_DelayedBuyIn || S(ce).Status == CompetitionStateStatus_StoppedBuyIn
## the standings when a running competition ends: players with chips on top, best first, then the eliminated, last one first
def topComplete(ce, n) := nR(ce) == n + old(nR(ce)) && forall(a, 0, n, exists(i, 0, nP(ce), alive(ce,i) && P(ce,i).PlayerID == R(ce,a).PlayerID && P(ce,i).Chips == R(ce,a).FinalChips))
   && forall(a, 0, n, forall(b, a, n, R(ce,a).FinalChips >= R(ce,b).FinalChips)) && forall(i, 0, nP(ce), alive(ce,i) ==> exists(a, 0, n, R(ce,a).PlayerID == P(ce,i).PlayerID))
def restReversed(ce, n) := forall(a, 0, old(nR(ce)), R(ce, n + old(nR(ce)) - 1 - a) == old(S(ce).Rankings[a]) && unchanged(R(ce, n + old(nR(ce)) - 1 - a)))
def placesGiven(ce) := forall(a, 0, nR(ce), forall(i, 0, nP(ce), P(ce,i).PlayerID == R(ce,a).PlayerID ==> P(ce,i).CompetitionRank == a + 1))
def tieByJoin(ce, n) := forall(i, 0, nP(ce), forall(j, 0, nP(ce), alive(ce,i) && P(ce,i).Chips == P(ce,j).Chips && P(ce,i).JoinAt < P(ce,j).JoinAt ==> forall(a, 0, n, forall(b, 0, n, R(ce,a).PlayerID == P(ce,i).PlayerID && R(ce,b).PlayerID == P(ce,j).PlayerID ==> a < b))))
def uniqueRankings(ce) := forall(a, 0, nR(ce), forall(b, 0, nR(ce), a != b ==> R(ce,a).PlayerID != R(ce,b).PlayerID)) && forall(a, 0, nR(ce), forall(i, 0, nP(ce), P(ce,i).PlayerID == R(ce,a).PlayerID ==> !alive(ce,i)))

func (*competitionEngine).updatePlayerFinalRankings (ce) ()
boundedonly the proof search does not finish in the time of a check
props P12
modular
requires wf(ce)
ensures "not running: nothing": !playedOn(ce) ==> sameList(S(ce).Rankings, old(S(ce).Rankings)) && nc(EVR) == old(nc(EVR)) && forall(i, 0, nP(ce), unchanged(P(ce,i)))
ensures "players with chips on top, best first": playedOn(ce) ==> topComplete(ce, nAlive(ce))
ensures [P12 bounded] "earlier joiner first on a tie": playedOn(ce) ==> tieByJoin(ce, nAlive(ce))
ensures "eliminated below, last one first": playedOn(ce) ==> restReversed(ce, nAlive(ce))
ensures [P12 bounded] "everyone gets the place in the list": playedOn(ce) && old(uniqueRankings(ce)) ==> placesGiven(ce)
ensures "places of the survivors are reported": playedOn(ce) ==> nc(EVR) == old(nc(EVR)) + nAlive(ce) && forall(q, 0, nAlive(ce), callarg(EVR, old(nc(EVR)) + q, 0) == ce.competition.ID && callarg(EVR, old(nc(EVR)) + q, 1) == R(ce, nAlive(ce) - 1 - q).PlayerID && callarg(EVR, old(nc(EVR)) + q, 2) == nAlive(ce) - q)
ensures "only places change": forall(i, 0, nP(ce), unchangedExcept(P(ce,i), "CompetitionRank"))
ensures wf(ce)
modifies CompetitionPlayer.CompetitionRank, CompetitionState.Rankings@S(ce), []*CompetitionRank, log


func (*competitionEngine).CloseCompetition (ce, endStatus) (err)
modular
requires wf(ce)
ensures [P12] "an ended competition stays as it is": old(ended(ce)) ==> err == nil && S(ce).Status == old(S(ce).Status) && nc(EV) == old(nc(EV)) && nc(EVS) == old(nc(EVS)) && nc(EVR) == old(nc(EVR)) && nc(RELEASE) == old(nc(RELEASE)) && sameList(S(ce).Rankings, old(S(ce).Rankings)) && forall(i, 0, nP(ce), unchanged(P(ce,i)))
ensures [P12] "final state": !old(ended(ce)) ==> err == nil && S(ce).Status == endStatus && (isMTT(ce) ==> during(S(ce).EndAt)) && (!isMTT(ce) ==> S(ce).EndAt == old(S(ce).EndAt))
ensures [P12] "announced once": !old(ended(ce)) ==> nc(EV) == old(nc(EV)) + 1 && nc(EVS) == old(nc(EVS)) + 1 && callarg(EVS, old(nc(EVS)), 0) == CompetitionStateEvent_Settled
ensures [P12 bounded] "complete standings": old(playedOn(ce)) ==> topComplete(ce, nAlive(ce)) && restReversed(ce, nAlive(ce))
ensures [P12 bounded] "earlier joiner first on a tie": old(playedOn(ce)) ==> tieByJoin(ce, nAlive(ce))
ensures [P12 bounded] "everyone gets the place in the list": old(playedOn(ce)) && old(uniqueRankings(ce)) ==> placesGiven(ce)
ensures [P12 bounded] "a competition that never ran has no standings": !old(playedOn(ce)) ==> sameList(S(ce).Rankings, old(S(ce).Rankings)) && nc(EVR) == old(nc(EVR)) && forall(i, 0, nP(ce), unchanged(P(ce,i)))
ensures [P12 bounded] "places are reported": old(playedOn(ce)) ==> nc(EVR) == old(nc(EVR)) + nAlive(ce)
ensures [P12] "clock stopped": !old(ended(ce)) ==> BL(ce).isEnd
ensures [P12] "every table released": !old(ended(ce)) ==> nc(RELEASE) == old(nc(RELEASE)) + nT(ce) && forall(k, 0, nT(ce), callarg(RELEASE, old(nc(RELEASE)) + k, 0) == T(ce,k).ID)
ensures [P12] "chips untouched": forall(i, 0, nP(ce), unchangedExcept(P(ce,i), "CompetitionRank"))
ensures [P25] "numbered": numbered(ce)
ensures [P12 bounded] "well-formed": wf(ce)
modifies CompetitionPlayer.CompetitionRank, CompetitionState.Rankings@S(ce), CompetitionState.Status@S(ce), CompetitionState.EndAt@S(ce), []*CompetitionRank, Competition.UpdateAt@ce.competition, Competition.UpdateSerial@ce.competition, competitionEngine.gameSettledRecords@ce, pokerblind.blind.isEnd@BL(ce), log
loopinv nc(RELEASE) == pre(nc(RELEASE)) + $k
loopinv forall(k, 0, $k, callarg(RELEASE, pre(nc(RELEASE)) + k, 0) == T(ce,k).ID)

func (*competitionEngine).AutoGameOpenEnd (ce, tableID) (err)
requires wf(ce)
ensures [P19] "unknown table": !hasTable(ce, tableID) ==> err == ErrCompetitionTableNotFound && S(ce).Status == old(S(ce).Status) && nc(EV) == old(nc(EV)) && nc(EVS) == old(nc(EVS))
ensures [P19] "single-table tournament ends when buy-in is over": hasTable(ce, tableID) ==> err == nil
ensures [P19] "ends exactly then": forall(i, 0, nT(ce), T(ce,i).ID == tableID && forall(j, 0, i, T(ce,j).ID != tableID) ==> S(ce).Status == ite(T(ce,i).Meta.Mode == CompetitionMode_CT && old(S(ce).Status) == CompetitionStateStatus_StoppedBuyIn, CompetitionStateStatus_End, old(S(ce).Status)))
ensures [P19 bounded] "well-formed": wf(ce)
modifies CompetitionPlayer.CompetitionRank, CompetitionState.Rankings@S(ce), CompetitionState.Status@S(ce), CompetitionState.EndAt@S(ce), []*CompetitionRank, Competition.UpdateAt@ce.competition, Competition.UpdateSerial@ce.competition, competitionEngine.gameSettledRecords@ce, pokerblind.blind.isEnd@BL(ce), log

func (*competitionEngine).closeCompetitionTable (ce, table, idx) ()
requires wf(ce) && 0 <= idx && idx < nT(ce)
gen idx := rnd(0, nT(ce) - 1)
ensures [P26] "exactly that table is removed": nT(ce) == old(nT(ce)) - 1 && forall(j, 0, idx, T(ce,j) == old(S(ce).Tables[j])) && forall(j, idx, nT(ce), T(ce,j) == old(S(ce).Tables[j+1]))
ensures [P26] "its pause is forgotten": !has(ce.breakingPauseResumeStates, table.ID)
ensures [P26] "removal is announced": nc(EV) > old(nc(EV)) && callarg(EVS, old(nc(EVS)), 0) == CompetitionStateEvent_TableUpdated
ensures [P26] "ends with its last table": S(ce).Status == ite(old(nT(ce)) == 1 && !old(ended(ce)), CompetitionStateStatus_End, old(S(ce).Status))
ensures [P26] "goes on otherwise": old(nT(ce)) > 1 || old(ended(ce)) ==> nc(EVS) == old(nc(EVS)) + 1 && nc(EV) == old(nc(EV)) + 1
ensures [P25] "numbered": numbered(ce)
ensures [P26 bounded] "well-formed": wf(ce)
modifies CompetitionPlayer.CompetitionRank, CompetitionState.Rankings@S(ce), CompetitionState.Status@S(ce), CompetitionState.EndAt@S(ce), CompetitionState.Tables@S(ce), []*CompetitionRank, []*pokertable.Table, map:string>map[int]bool@ce.breakingPauseResumeStates, Competition.UpdateAt@ce.competition, Competition.UpdateSerial@ce.competition, competitionEngine.gameSettledRecords@ce, pokerblind.blind.isEnd@BL(ce), log
