package pokercompetition

def tourney(ce) := isCT(ce) || isMTT(ce)
def full(ce) := isCT(ce) && nT(ce) > 0 && S(ce).Statistic.PlayingPlayerCount + S(ce).Statistic.ReBuyWaitingPlayerCount >= T(ce,0).Meta.TableMaxSeatCount
def mayReBuy(ce, i) := !tourney(ce) || P(ce,i).Status == CompetitionPlayerStatus_ReBuyWaiting && P(ce,i).Chips <= 0 && P(ce,i).ReBuyTimes < Meta(ce).ReBuySetting.MaxTime
def newOK(ce, jp) := jp.RedeemChips > 0 && openForBuyIn(ce) && !hasPlayer(ce, jp.PlayerID) && (isCT(ce) ==> nT(ce) > 0 && !full(ce))
def reOK(ce, jp, i) := jp.RedeemChips > 0 && openForBuyIn(ce) && P(ce,i).PlayerID == jp.PlayerID && mayReBuy(ce, i)
def reAny(ce, jp) := exists(i, 0, nP(ce), reOK(ce, jp, i))
def firstTable(ce) := ite(!isMTT(ce) && (isCT(ce) || isCash(ce)) && nT(ce) > 0, T(ce,0).ID, "")
def SETSTATUS := "Regulator.SetStatus"
def quietCall(ce) := nc(EV) == old(nc(EV)) && nc(EVP) == old(nc(EVP)) && nc(EVS) == old(nc(EVS)) && nc(RESERVE) == old(nc(RESERVE)) && nc(ADDP) == old(nc(ADDP)) && nc(LEAVE) == old(nc(LEAVE)) && nc(EVC) == old(nc(EVC))
def startsBalancing(ce) := isMTT(ce) && !old(ce.isRegulatorStarted) && old(ce.isStarted) && nP(ce) >= Meta(ce).MinPlayerCount

func (*competitionEngine).PlayerBuyIn (ce, jp) (err)
requires wf(ce) && unlocked(ce) && wfClock(ce)
ensures [P01] "no chips": jp.RedeemChips <= 0 ==> err == ErrCompetitionNoRedeemChips
ensures [P01] "closed for new players": jp.RedeemChips > 0 && !old(openForBuyIn(ce)) && !old(hasPlayer(ce, jp.PlayerID)) ==> err == ErrCompetitionBuyInRejected
ensures [P01] "closed for re-buys": jp.RedeemChips > 0 && !old(openForBuyIn(ce)) && old(hasPlayer(ce, jp.PlayerID)) ==> err == ErrCompetitionReBuyRejected
ensures [P01] "no table to sit at": jp.RedeemChips > 0 && old(openForBuyIn(ce)) && !old(hasPlayer(ce, jp.PlayerID)) && isCT(ce) && old(nT(ce)) == 0 ==> err == ErrCompetitionTableNotFound
ensures [P01] "table full": jp.RedeemChips > 0 && old(openForBuyIn(ce)) && !old(hasPlayer(ce, jp.PlayerID)) && old(full(ce)) ==> err == ErrCompetitionBuyInRejected
ensures [P01] "only waiting players without chips re-buy": forall(i, 0, old(nP(ce)), jp.RedeemChips > 0 && old(openForBuyIn(ce)) && tourney(ce) && old(P(ce,i).PlayerID) == jp.PlayerID && (old(P(ce,i).Status) != CompetitionPlayerStatus_ReBuyWaiting || old(P(ce,i).Chips) > 0) ==> err == ErrCompetitionReBuyRejected)
ensures [P01] "re-buy limit": forall(i, 0, old(nP(ce)), jp.RedeemChips > 0 && old(openForBuyIn(ce)) && tourney(ce) && old(P(ce,i).PlayerID) == jp.PlayerID && old(P(ce,i).Status) == CompetitionPlayerStatus_ReBuyWaiting && old(P(ce,i).Chips) <= 0 && old(P(ce,i).ReBuyTimes) >= Meta(ce).ReBuySetting.MaxTime ==> err == ErrCompetitionExceedReBuyLimit)
ensures [P01] "accepted otherwise": (err == nil) <==> old(newOK(ce, jp) || reAny(ce, jp))
ensures [P01] "refused changes nothing": err != nil ==> nP(ce) == old(nP(ce)) && quietCall(ce) && unchanged(S(ce).Statistic) && sameList(ce.waitingPlayers, old(ce.waitingPlayers)) && forall(i, 0, nP(ce), unchanged(P(ce,i)))
ensures [P02] "new player booked": old(newOK(ce, jp)) ==> nP(ce) == old(nP(ce)) + 1 && let(p, P(ce, old(nP(ce))), p.PlayerID == jp.PlayerID && p.Chips == jp.RedeemChips && p.TotalRedeemChips == jp.RedeemChips && p.TotalBuyInUnits == jp.Unit
   && p.ReBuyTimes == 0 && p.AddonTimes == 0 && !p.IsReBuying && p.CurrentTableID == firstTable(ce) && p.CurrentSeat == UnsetValue && p.KnockoutAt == UnsetValue && p.ReBuyEndAt == UnsetValue
   && p.Status == ite(isMTT(ce), CompetitionPlayerStatus_WaitingTableBalancing, CompetitionPlayerStatus_Playing))
ensures [P02] "players stay": forall(i, 0, old(nP(ce)), P(ce,i) == old(S(ce).Players)[i] && (P(ce,i).PlayerID != jp.PlayerID ==> unchangedExcept(P(ce,i), "CompetitionRank")))
ensures [P02] "re-buy booked": forall(i, 0, old(nP(ce)), old(reOK(ce, jp, i)) ==> nP(ce) == old(nP(ce)) && P(ce,i).Chips == jp.RedeemChips && P(ce,i).ReBuyTimes == old(P(ce,i).ReBuyTimes) + 1 && P(ce,i).TotalRedeemChips == old(P(ce,i).TotalRedeemChips) + jp.RedeemChips
   && !P(ce,i).IsReBuying && P(ce,i).ReBuyEndAt == UnsetValue && P(ce,i).ReBuyWaitingAt == UnsetValue && P(ce,i).AddonTimes == old(P(ce,i).AddonTimes) && P(ce,i).JoinAt == old(P(ce,i).JoinAt)
   && P(ce,i).TotalBuyInUnits == old(P(ce,i).TotalBuyInUnits) + ite(tourney(ce), jp.Unit, 0)
   && P(ce,i).Status == ite(isMTT(ce), CompetitionPlayerStatus_WaitingTableBalancing, CompetitionPlayerStatus_Playing))
ensures [P02] "buy-in units": S(ce).Statistic.TotalBuyInCount == old(S(ce).Statistic.TotalBuyInCount) + ite(err == nil && tourney(ce), jp.Unit, 0)
ensures [P02] "given to the table": err == nil && (isCT(ce) || isCash(ce)) ==> nc(RESERVE) == old(nc(RESERVE)) + 1 && callarg(RESERVE, old(nc(RESERVE)), 0) == firstTable(ce) && callarg(RESERVE, old(nc(RESERVE)), 1).PlayerID == jp.PlayerID && callarg(RESERVE, old(nc(RESERVE)), 1).RedeemChips == jp.RedeemChips && callarg(RESERVE, old(nc(RESERVE)), 1).Seat == -1 && nc(ADDP) == old(nc(ADDP))
ensures [P02] "table error reported": err == nil && (isCT(ce) || isCash(ce)) ==> ite(callret(RESERVE, old(nc(RESERVE)), 0) != nil, nc(EVE) == old(nc(EVE)) + 1 && callarg(EVE, old(nc(EVE)), 1) == callret(RESERVE, old(nc(RESERVE)), 0), nc(EVE) == old(nc(EVE)))
ensures [P02] "given to table balancing": err == nil && isMTT(ce) && old(ce.isRegulatorStarted) ==> nc(ADDP) == old(nc(ADDP)) + 1 && len(callarg(ADDP, old(nc(ADDP)), 0)) == 1 && callarg(ADDP, old(nc(ADDP)), 0)[0] == jp.PlayerID && nc(RESERVE) == old(nc(RESERVE))
ensures [P02] "queued until balancing runs": err == nil && isMTT(ce) && !old(ce.isRegulatorStarted) && !startsBalancing(ce) ==> len(ce.waitingPlayers) == old(len(ce.waitingPlayers)) + 1 && ce.waitingPlayers[old(len(ce.waitingPlayers))] == jp.PlayerID && forall(q, 0, old(len(ce.waitingPlayers)), ce.waitingPlayers[q] == old(ce.waitingPlayers)[q]) && nc(ADDP) == old(nc(ADDP)) && nc(RESERVE) == old(nc(RESERVE))
ensures [P02] "queue handed over when balancing starts": err == nil && startsBalancing(ce) ==> ce.isRegulatorStarted && len(ce.waitingPlayers) == 0 && nc(ADDP) == old(nc(ADDP)) + 1
   && len(callarg(ADDP, old(nc(ADDP)), 0)) == old(len(ce.waitingPlayers)) + 1 && callarg(ADDP, old(nc(ADDP)), 0)[old(len(ce.waitingPlayers))] == jp.PlayerID && forall(q, 0, old(len(ce.waitingPlayers)), callarg(ADDP, old(nc(ADDP)), 0)[q] == old(ce.waitingPlayers)[q])
ensures [P11] "counts published": err == nil ==> statsFresh(ce)
ensures [P02] "announced": err == nil ==> nc(EVP) == old(nc(EVP)) + 1 && callarg(EVP, old(nc(EVP)), 1).PlayerID == jp.PlayerID
ensures [P22] "mutex released": unlocked(ce)
ensures wf(ce)
modifies CompetitionPlayer.CurrentTableID, CompetitionPlayer.CurrentSeat, CompetitionPlayer.Chips, CompetitionPlayer.Status, CompetitionPlayer.ReBuyTimes, CompetitionPlayer.ReBuyWaitingAt, CompetitionPlayer.IsReBuying, CompetitionPlayer.ReBuyEndAt, CompetitionPlayer.TotalRedeemChips, CompetitionPlayer.TotalBuyInUnits, CompetitionPlayer.CompetitionRank,
   CompetitionState.Players@S(ce), CompetitionState.Status@S(ce), Statistic.*@S(ce).Statistic, BlindState.*@S(ce).BlindState, []*CompetitionPlayer, []string, []int64, Competition.UpdateAt@ce.competition, Competition.UpdateSerial@ce.competition, competitionEngine.waitingPlayers@ce, competitionEngine.isRegulatorStarted@ce,
   pokerblind.blind.isEnd, pokerblind.BlindState.StartedAt, pokerblind.BlindState.UpdatedAt, pokerblind.BlindState.Status, log
